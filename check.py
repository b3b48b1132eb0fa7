#!/usr/bin/env python3
"""check.py <property id>: run the static analysis that decides one property. check.py --setup: build the extractor."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import core
import facts
import rules

if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] == '--setup':
        facts.load(['core', 'spec', 'opt'])
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in rules.CHECKS:
        print('usage: check.py <id>; ids: ' + ' '.join(rules.CHECKS))
        sys.exit(2)
    pid = sys.argv[1]
    c = rules.CHECKS[pid]
    sys.exit(core.run_property(pid, c['rules'], c.get('level', 'other'), c['how'], c.get('assumptions', []),
                               c.get('trusted', ['clang 18 front end', 'the fact extractor and rules in /verif/engine',
                                                 'interfaces of the stand-in AuDi/SymEngine headers']),
                               c.get('only')))
