prop('C01', 'Saving and reloading any object keeps all of its observable state',
     'Every serialisable object of the library (kernels, kernel sets, plain, weighted and ANN expressions, the symbolic '
     'regression problem, the five evolutionary/gradient algorithms and wrapped functions) transmits the same pieces of '
     'state, in the same order, when saved and when loaded. Every piece of state that the behaviour of the object depends '
     'on is among them, or is rebuilt from transmitted state on loading. A loaded object therefore behaves as the saved '
     'one did, including for later mutation, evaluation, evolution and re-serialisation.',
     ['inputs', 'histories', 'configurations'],
     'all serialisable classes and value-type instantiations, all member variables, all archive kinds, all object states '
     'at the time of saving',
     'The serialisation tests save a handful of freshly built objects and compare a few getters; a member that is left out, '
     'stored in another order than it is read, or read into another member is invisible unless the sampled object has a '
     'non-default value there and the test looks at it.',
     ['include/dcgp/expression.hpp', 'include/dcgp/expression_weighted.hpp', 'include/dcgp/expression_ann.hpp',
      'include/dcgp/kernel.hpp', 'include/dcgp/function.hpp', 'include/dcgp/problems/symbolic_regression.hpp',
      'include/dcgp/algorithms/*.hpp'],
     [('serialize() members and split save/load pairs', 'each class')],
     technique='effect and dataflow analysis of archive traffic on the resolved AST', note='')
prop('C02', 'Every serialisable polymorphic type is registered under a consistent key',
     'Every polymorphic type the library can put behind a base pointer in an archive has exactly one export key and one '
     'implementation, for all value types the library instantiates. No two types share a key.',
     ['configurations', 'inputs'],
     'all kernels shipped, all value types, all problem and algorithm classes',
     'A missing registration only shows when that very kernel is saved in one translation unit and loaded in another; the '
     'tests serialise one or two kernels.',
     ['include/dcgp/wrapped_functions.hpp', 'include/dcgp/wrapped_functions_s11n_implement.hpp',
      'include/dcgp/function.hpp'],
     [('export and implement macros', 'include/dcgp/wrapped_functions*.hpp')],
     technique='registration query over template specialisations', note='')
prop('C04', 'The global random generator is used only under its lock',
     'The process-wide random engine is only touched while its own lock is held, and it is the only mutable state shared '
     'between objects.',
     ['schedules', 'histories'], 'all functions of the library, all interleavings of threads using it',
     'A data race needs an unlucky schedule; the single race test hammers one entry point.',
     ['include/dcgp/rng.hpp'], [('mutex guarding the engine', 'include/dcgp/rng.hpp')],
     technique='lock-state dataflow and who-may-touch query', note='')
EXPR = ['include/dcgp/expression.hpp', 'include/dcgp/expression_weighted.hpp', 'include/dcgp/expression_ann.hpp']
TECH_EQ = ('abstract interpretation of the resolved AST to closed-form summaries; value-numbering equality with the '
           'summary of a reference definition')
prop('C05', 'The encoding of an expression is laid out exactly as documented',
     'For every valid choice of inputs, outputs, rows, columns, levels-back, arity (one, or one per column), kernels and '
     'number of constants, a newly built plain, weighted or ANN expression reports the chromosome length, the position of '
     'every node\'s genes and the lower and upper bound of every gene that the documented encoding gives. Weights and '
     'biases (and their symbols) start with their documented values, one weight per connection and one bias per node in '
     'encoding order.',
     ['inputs', 'configurations'], 'all shapes, both kinds of constructor, the three expression classes',
     'The tests compare the bounds of two or three fixed shapes; a slip that needs unequal arities per column, '
     'levels-back below the number of columns, several rows or constants is never sampled.',
     EXPR, [('constructors and bound initialisation', 'include/dcgp/expression.hpp')], technique=TECH_EQ)
prop('C06', 'Chromosomes start, and under setters and mutations remain, within their bounds',
     'A new expression draws each gene uniformly between its bounds (and each constant uniformly in [-10, 10)) from a '
     'generator seeded with the given seed; an accepted setter stores exactly the given genes or constants. Each mutation '
     'redraws, the requested number of times, only genes of the kind it names (random, inactive, active, active function, '
     'active connection, output), uniformly within the bounds of the gene and different from the value before, and leaves '
     'every other gene alone; the active nodes and genes are those of the new chromosome.',
     ['inputs', 'histories'], 'all expressions, all seeds and arguments, every sequence of setters and mutations',
     'Mutations are random and their tests sample a few shapes and seeds; a bound off by one or a wrong pool of genes '
     'shows only for particular genes and draws.',
     EXPR[:1], [('mutate family, set family, constructors', 'include/dcgp/expression.hpp')], technique=TECH_EQ)
prop('C07', 'Active nodes and genes are exactly those reachable from the outputs',
     'After every refresh the active nodes are, in increasing order and without repetition, exactly the nodes reachable '
     'from the output genes through connection genes, and the active genes are the genes of the active function nodes '
     'followed by the output genes. For networks the consumer lists used by back-propagation list, for each node, exactly '
     'the active nodes it feeds, with the weight of that connection, and the outputs it feeds.',
     ['inputs', 'histories'], 'all shapes and chromosomes',
     'Tests compare hand-made chromosomes; reachability bugs need deep, shared or repeated connections.',
     [EXPR[0], EXPR[2]], [('update_data_structures', 'include/dcgp/expression.hpp, include/dcgp/expression_ann.hpp')],
     technique=TECH_EQ)
prop('C08', 'Evaluation follows the encoding, numerically and symbolically alike',
     'Evaluating an expression at a point applies, node by node, the kernel named by the function gene to the values of '
     'the nodes named by the connection genes (constants appended to the inputs; each argument multiplied by its '
     'connection weight for weighted expressions; weighted sum plus bias for networks) and returns the nodes named by the '
     'output genes. Evaluating on symbols yields the same composition of kernels, weights and biases. No phenotype '
     'correction is considered.',
     ['inputs', 'configurations'], 'all shapes, chromosomes, weights, biases, constants and inputs, three classes',
     'Tests evaluate a few fixed chromosomes with one arity; wrong weight or argument indices hide for unit weights and '
     'equal arities.',
     EXPR, [('call operators', 'the three expression classes')], technique=TECH_EQ)
prop('C09', 'Losses are the documented error, averaged over every sample exactly once',
     'The loss of one sample is the mean squared error or the cross entropy (of the soft-maxed outputs) between the '
     'evaluated outputs and the label. The loss of a batch is the mean of the sample losses, each sample used exactly once '
     'and paired with its own label, and does not depend on the number of parallel parts the batch is divided into nor on how they are scheduled, up '
     'to the order of summation.',
     ['inputs', 'configurations', 'schedules'], 'all data sets, sizes, parallel parts and expressions of the three classes',
     'Tests use one data set and divisor; a dropped, repeated or mispaired sample needs other sizes or parts.',
     EXPR, [('loss overloads', 'include/dcgp/expression.hpp')], technique=TECH_EQ)
prop('C10', 'A rejected call leaves the object unchanged',
     'When a public modifying member of an expression, weighted expression, network or kernel set rejects its arguments '
     'by throwing, the object is exactly as it was before the call: chromosome, active data, constants, weights and '
     'biases.',
     ['inputs', 'histories', 'faults'], 'all public non-const members, all arguments they reject',
     'Tests check that exceptions are thrown, not what the object looks like afterwards.',
     EXPR + ['include/dcgp/kernel_set.hpp'], [('setters, mutations, training', 'each class')],
     technique='abstract interpretation: object state at every throw point compared with the entry state')
prop('C11', 'Exactly the documented malformed arguments are rejected',
     'Constructors reject zero sizes, arity vectors of the wrong length or containing zero, empty kernel lists and (for '
     'networks) unsupported kernels. Setters and mutations reject chromosomes, indices, node or input ids and vectors '
     'that do not fit the expression; evaluation, losses, gradients and training reject data of the wrong shape, empty '
     'data, unknown losses, indivisible batches, and non-positive learning rates or batch sizes. All arguments that fit '
     'are accepted.',
     ['inputs', 'configurations'], 'all arguments of the public members named',
     'Each rejection is tested with one or two values; boundary values and combinations are not.',
     EXPR, [('argument checks', 'each public member')],
     technique='abstract interpretation: path conditions of throws compared with reference preconditions')
prop('C12', 'Weights and biases are read and written where their node and input say',
     'Setting or getting a weight by node and input, by position, or all at once addresses the weight evaluation uses for '
     'that connection; likewise for biases. Randomisation draws every weight or bias from the requested normal '
     'distribution. The number of active weights counts the connections of active nodes, and setting the output '
     'nonlinearity changes exactly the function genes of the nodes the outputs name.',
     ['inputs', 'configurations'], 'all shapes, chromosomes, nodes, inputs and positions',
     'Tests use one arity, where the position arithmetic of different columns coincides.',
     EXPR[1:], [('weight and bias accessors', 'include/dcgp/expression_weighted.hpp, include/dcgp/expression_ann.hpp')],
     technique=TECH_EQ)
prop('C15', 'Network gradients are the back-propagated derivatives of the loss',
     'For every network, sample and loss the value returned with the gradient is the loss of the sample, and the '
     'gradients of the weights and biases are those of the back-propagation recursion over the active nodes, with the '
     'derivative of each node\'s own nonlinearity. The gradient of a batch is the mean of the sample gradients, each '
     'sample once with its own label, whatever the number of parallel parts and however they are scheduled.',
     ['inputs', 'configurations', 'schedules'], 'all networks, chromosomes, weights, samples, losses, parallel parts',
     'Tests compare with finite differences on a few networks at a tolerance; a missing contribution needs a particular '
     'wiring (repeated connections, skip connections, shared nodes, several outputs).',
     EXPR[2:], [('d_loss', 'include/dcgp/expression_ann.hpp')], technique=TECH_EQ)
prop('C16', 'One training epoch visits every sample once and descends the batch gradients',
     'One epoch of training without shuffling walks through the samples in order, in batches of the requested size (the '
     'last one possibly smaller), subtracting learning rate times the mean gradient of each batch from weights and '
     'biases, and returns the mean of the batch losses. Shuffling keeps every sample with its own label.',
     ['inputs', 'configurations'], 'all networks, data sets, batch sizes, learning rates and parallel parts',
     'Tests check that the loss decreases, which survives skipped samples, wrong pairing or a misplaced batch.',
     EXPR[2:], [('sgd and update_weights', 'include/dcgp/expression_ann.hpp')], technique=TECH_EQ)

KERN = ['include/dcgp/wrapped_functions.hpp', 'include/dcgp/kernel_set.hpp', 'include/dcgp/kernel.hpp']
prop('C13', 'Every kernel name stands for the documented function, for every value type',
     'A kernel obtained from a kernel set by name applies, to any number of arguments, the function documented for that '
     'name: sums, products and differences fold over all arguments, the unary functions use the first one, the '
     'nonlinearities apply to the sum of all of them, and protected division gives one where the quotient is not finite. '
     'The same holds for numbers and truncated series (series branch on their constant term), and a set returns the '
     'kernels that were put into it, in order, each under its own name.',
     ['inputs', 'configurations'], 'all kernels shipped, all value types, any number of arguments, all values',
     'Each kernel is tested at a few points, mostly with two arguments; a slip for a third argument, at zero, for a '
     'negative sum or for one of the value types is not sampled.',
     KERN, [('function objects and name lookup', 'include/dcgp/wrapped_functions.hpp, include/dcgp/kernel_set.hpp')],
     technique=TECH_EQ)
prop('C14', 'The printed form of every kernel denotes the function the kernel computes',
     'For every kernel, the text it returns for a list of symbols or sub-formulas is a formula that, read with the usual '
     'precedences and whatever the sub-formulas are, denotes the documented function of those arguments, all of them in '
     'their order.',
     ['inputs', 'configurations'], 'all kernels shipped, any number of arguments, arbitrary argument texts',
     'Tests compare two or three printed strings of atoms; a missing pair of parentheses only matters for composite '
     'arguments.',
     KERN[:2], [('printing function objects', 'include/dcgp/wrapped_functions.hpp')], technique=TECH_EQ)
SRF = ['include/dcgp/problems/symbolic_regression.hpp']
prop('C17', 'Fitness, predictions and formulas of a regression problem are those of one model',
     'A decision vector of the symbolic regression problem is its constants followed by the genes of one expression. The '
     'fitness is the loss of that expression on the data (and, with two objectives, its number of active genes), '
     'predictions are its values at the given points, and the printed formulas are its symbolic form.',
     ['inputs', 'configurations'], 'all data sets, shapes, numbers of constants, losses, parallel parts, decision vectors',
     'Tests check a fitness value or two on one data set without constants or with a single kernel.',
     SRF, [('fitness, predict, pretty, prettier, set_cgp', SRF[0])], technique=TECH_EQ)
prop('C18', 'Bounds and dimensions of a regression problem match the encoding',
     'The bounds of the symbolic regression problem are -10 and 10 for every constant followed by the bounds of every '
     'gene. The integer dimension is the length of the chromosome, and there is one objective, or two when the complexity '
     'is requested.',
     ['inputs', 'configurations'], 'all shapes and numbers of constants',
     'Tests print the problem or check one shape without constants.',
     SRF, [('get_bounds, get_nix, get_nobj', SRF[0])], technique=TECH_EQ)

prop('C19', 'Derivatives of a regression problem are those of its loss by its constants',
     'The gradient of the symbolic regression problem has, for each constant in order, the mean over the data of the '
     'first derivative of the loss by that constant, and the hessian the second derivatives for every pair of constants '
     'of its lower triangle, in the order of the sparsity patterns (zero when the loss does not depend on any constant). '
     'The loss differentiated is that of the same expression on the same data, with the unprotected division standing '
     'for the protected one.',
     ['inputs', 'configurations'], 'all data sets, shapes, numbers of constants, losses, decision vectors',
     'Tests compare with finite differences for one formula; swapped or missing components need several constants.',
     SRF, [('gradient, hessians and their sparsity patterns', SRF[0])], technique=TECH_EQ,
     note='the differentiation itself is done by an external library and is not part of the property')
prop('C20', 'A regression problem is built from exactly the well-formed data and shapes',
     'Building a symbolic regression problem is rejected if there are no points, if points and labels differ in number, if '
     'points (or labels) differ in dimension among themselves, if there is no input or no output, if rows, columns or '
     'levels-back are zero, if the arity is below two, if no kernel is given or a kernel has no counterpart for series, or '
     'if the loss is neither MSE nor CE. Everything else is accepted.',
     ['inputs', 'configurations'], 'all constructor arguments',
     'Each rejection is tested with one value.',
     SRF, [('constructor and sanity_checks', SRF[0])],
     technique='abstract interpretation: path conditions of throws compared with reference preconditions')
prop('C21', 'Reported thread safety is that of the least safe part',
     'A kernel is as thread safe as the less safe of its two functions, and a symbolic regression problem as its least '
     'safe kernel, whatever the order in which they are given; the problem never claims more than basic safety, since '
     'evaluating it changes what it remembers.',
     ['configurations', 'schedules'], 'all kernels and problems',
     'Tests use kernels of one safety level, or one unsafe kernel at one position.',
     [SRF[0], KERN[2]], [('get_thread_safety', SRF[0])], technique=TECH_EQ)
prop('C22', 'What a regression problem computed before does not change what it returns',
     'The fitness of a decision vector is the same whatever fitness, prediction, formula, gradient or hessian was asked '
     'for before; only right after derivatives at the very same vector may the loss computed along with them be returned '
     'instead, and never when protected division is among the kernels. The gradient does not depend on earlier calls '
     'either.',
     ['histories', 'inputs'], 'all sequences of calls on one problem',
     'Tests call one member on a fresh problem.',
     SRF, [('cached fitness', SRF[0])], technique=TECH_EQ)
def ALG(*a):
    return ['include/dcgp/algorithms/%s.hpp' % x for x in a]


NEWTON = ('each mutant takes one Newton step on the constants its loss depends on (those with a non-zero first derivative), '
          'provided all quantities are finite and the matrix of their second derivatives is invertible and positive (for a '
          'single constant: not zero)')
prop('C23', 'One run of es4cgp is the documented evolutionary strategy',
     'In every generation each of as many mutants as individuals is the best decision vector so far after a uniform number '
     'between one and the maximum of random mutations of active genes, its constants perturbed by ten times a standard '
     'normal if constants are learned and unchanged otherwise; the best is then replaced by every mutant that is not '
     'worse, in order. When the best falls below the tolerance, or the generations are over, the last mutants take the '
     'place of the individuals at their position they improve on, and then the best replaces the worst if it is better; '
     'everything is the same with a batch evaluator. Every individual keeps its own fitness, and no generations leave the '
     'population as it is.',
     ['inputs', 'histories', 'configurations'], 'all populations, settings, seeds, numbers of generations, both ways of evaluating',
     'Tests run a few generations on one problem and look at the best fitness only.',
     ALG('es4cgp'), [('evolve', ALG('es4cgp')[0])], technique=TECH_EQ,
     note='a difference of spelling between normal forms is resolved by comparing the closed forms at sample points')
prop('C24', 'One run of moes4cgp is the documented multi-objective strategy',
     'Every generation stops the run if the best first objective is below the tolerance; otherwise each individual gives '
     'one mutant (a uniform number between one and the maximum of random mutations of active genes; constants perturbed by '
     'ten times a standard normal if they are learned and inherited otherwise), and the best of mutants and individuals '
     'together by non dominated sorting, each with its own fitness vector, become the population. Everything is the same '
     'with a batch evaluator; no generations leave the population as it is.',
     ['inputs', 'histories', 'configurations'], 'all populations, settings, seeds, numbers of generations, both ways of evaluating',
     'Tests run a few generations on one problem and look at the best fitness only.',
     ALG('moes4cgp'), [('evolve', ALG('moes4cgp')[0])], technique=TECH_EQ,
     note='a difference of spelling between normal forms is resolved by comparing the closed forms at sample points')
prop('C25', 'One run of mes4cgp is the documented memetic strategy',
     'In every generation as many mutants as individuals are made from the best genes so far by a uniform number between '
     'one and the maximum of random mutations of active genes; ' + NEWTON + ', and its other constants are drawn anew '
     'uniformly in [-10, 10) (unless there is only one constant). Every mutant that is better than the best replaces it, '
     'genes, constants and fitness; when it falls below the tolerance, or the generations are over, the best replaces the '
     'worst individual if it improved. No generations leave the population as it is.',
     ['inputs', 'histories', 'configurations'], 'all populations, settings, seeds, numbers of generations and constants',
     'Tests run a few generations on one problem and look at the best fitness only.',
     ALG('mes4cgp'), [('evolve', ALG('mes4cgp')[0])], technique=TECH_EQ,
     note='matrix factorisation and inversion are those of the linear algebra library')
prop('C26', 'One run of momes4cgp is the documented multi-objective memetic strategy',
     'Every generation stops the run if the best first objective is below the tolerance; otherwise each individual gives '
     'one mutant by a uniform number between zero and the maximum of random mutations of active genes; ' + NEWTON + ', and '
     'its other constants are drawn anew uniformly in [-10, 10) (unless there is only one constant). Mutants with a finite '
     'first objective and a fitness not yet present join the individuals, and the best of all by non dominated sorting, '
     'each with its own fitness vector, become the population; no generations leave the population as it is.',
     ['inputs', 'histories', 'configurations'], 'all populations, settings, seeds, numbers of generations and constants',
     'Tests run a few generations on one problem and look at the best fitness only.',
     ALG('momes4cgp'), [('evolve', ALG('momes4cgp')[0])], technique=TECH_EQ,
     note='matrix factorisation and inversion are those of the linear algebra library')
prop('C27', 'One run of gd4cgp is a gradient descent with an adaptive rate',
     'Starting from the selected individual, every iteration moves the constants against the normalised gradient by the '
     'current rate; the move is kept and the rate multiplied by 1.5 if the fitness improves, otherwise it is undone and the '
     'rate divided by four. The run ends after the given number of iterations, when the rate falls below its minimum or when '
     'the gradient vanishes or is not finite, and the result, with its own fitness, replaces the individual the replacement '
     'policy names. A non-finite starting fitness, or no iterations, leaves the population as it is.',
     ['inputs', 'histories', 'configurations'], 'all populations, rates and numbers of iterations',
     'Tests check that the loss decreases on one problem.',
     ALG('gd4cgp'), [('evolve', ALG('gd4cgp')[0])], technique=TECH_EQ)
prop('C28', 'Algorithms accept exactly the settings and populations they are made for',
     'The four evolutionary strategies reject a maximum of zero mutations and a negative tolerance, and populations of fewer '
     'than two individuals; the gradient descent rejects minimal rates that are not positive or not below the rate, and '
     'problems without constants. All reject problems that are not symbolic regression, es4cgp, mes4cgp and gd4cgp those '
     'with several objectives, moes4cgp and momes4cgp those with one, whatever the number of generations. Everything else '
     'is accepted.',
     ['inputs', 'configurations'], 'all settings and populations',
     'Each rejection is tested with one value, most with none.',
     ALG('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'), [('constructors and evolve', ALG('es4cgp')[0])],
     technique='abstract interpretation: path conditions of throws compared with reference preconditions',
     note='what the expression itself would reject is left out: the chromosomes of a population of the problem are valid')
prop('C29', 'The verbosity of an algorithm only decides what is reported',
     'At verbosity zero, which is the default, no algorithm prints or logs anything during a run, on any path. Any other '
     'verbosity gives the same population for the same seed; the verbosity that was set is the one returned.',
     ['inputs', 'configurations', 'histories'], 'all five algorithms, all paths of a run',
     'Tests do not look at the output, and compare no runs with different verbosities.',
     ALG('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'), [('evolve, set_verbosity', ALG('es4cgp')[0])],
     technique='effect analysis of output; value-numbering equality of summaries with and without reports')
prop('C30', 'A run of an algorithm depends on its seed, settings and population only',
     'All random numbers of a run come from the generator of the algorithm, or of its own copy of the expression of the '
     'problem. Setting a seed leaves an algorithm in the state it has when built with that seed, which is the seed '
     'returned, and nothing else that earlier runs left behind influences the population a run returns.',
     ['histories', 'configurations'], 'all five algorithms, all draws, all fields a run changes',
     'Reproducibility is not tested; a forgotten reset needs a second run with the same object to show.',
     ALG('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'), [('evolve, set_seed', ALG('es4cgp')[0])],
     technique='provenance analysis of random draws; field effects of a run; equality of summaries of seeded objects')
prop('C31', 'Every data set of the gym is the published one',
     'Whatever the two vectors held before, and at every call, a data set consists of as many one-number labels as points. '
     'The points of a generated set are those of its range, number and, for one input, equal spacing, drawn otherwise from a '
     'generator with a constant seed, and each label is the published formula of its point. Each bundled reference data set '
     'has the certified residual sum of squares at the certified parameters.',
     ['inputs', 'histories', 'configurations'], 'all data sets: every formula, range and table entry with a certified sum',
     'Tests call each generator once and look at sizes only.',
     ['include/dcgp/gym.hpp', 'include/dcgp/nist_data.hpp', 'include/dcgp/misc_data.hpp'],
     [('generate_P1', 'include/dcgp/gym.hpp'), ('generate_chwirut1', 'include/dcgp/gym.hpp')],
     technique='value-numbering equality of summaries with reference formulas; constant propagation of the tables',
     note='the data without a published model (luca1) is checked for its shape only; single entries that leave the certified '
          'sum unchanged to seven digits are not seen')
prop('C32', 'A function wrapper behaves as the callable stored in it',
     'Calling a wrapper gives what the callable stored in it gives; copies and assigned wrappers hold a callable of their own '
     'with the same state and the same reported thread safety, moved ones take both over and leave an invalid wrapper behind. '
     'The thread safety is that the callable declares, basic if it declares none; asking for a stored type gives the callable '
     'exactly if it has that type, and calling a wrapper without a callable is an error.',
     ['inputs', 'histories'], 'callables with state, function pointers, arguments by value and by reference; copies, moves and '
     'assignments of each, to itself included',
     'Tests try a few wrappers; what a forgotten member does to copies of copies is not looked at.',
     ['include/dcgp/function.hpp'], [('function', 'include/dcgp/function.hpp')], technique=TECH_EQ,
     note='allocation and pointer ownership are those of the standard library')
prop('C33', 'The log of a run tells what happened at the generations it names',
     'At a verbosity above zero a run logs the state before every generation number that is a multiple of it, counted from '
     'zero, and then the state in which it ends, unless a multi-objective run ends early. Each line carries the generation, the '
     'evaluations spent by this run so far, and what was best, with its constants and formula, or the front, or the gradient '
     'and rate, there and then. A run that does anything starts its log afresh.',
     ['inputs', 'histories', 'configurations'], 'all five algorithms, any verbosity, any earlier log',
     'No test reads a log; wrong lines need a verbosity above one, an early end, or a second run.',
     ALG('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'), [('evolve, get_log', ALG('es4cgp')[0])],
     technique=TECH_EQ, note='the printed table is not compared, only the log; the formula is whatever the problem gives for '
     'the decision vector (its meaning is another property)')
prop('C34', 'What an object prints is what it is',
     'Streaming an expression, weighted expression, neural network, kernel or kernel set, and asking the regression problem or an '
     'algorithm for its extra information, gives each value the public interface reports, or the constructor or setters were given, under its own '
     'label, with none left out or swapped. A list is shown with every element, in order, between brackets.',
     ['inputs', 'configurations'], 'any object; both kinds of coefficients; algorithms with and without a batch evaluator',
     'No test reads the printed text; a wrong one misleads whoever reads it.',
     EXPR + KERN + ['include/dcgp/problems/symbolic_regression.hpp', 'include/dcgp/std_overloads.hpp']
     + ALG('es4cgp', 'moes4cgp', 'mes4cgp', 'momes4cgp', 'gd4cgp'),
     [('operator<<', EXPR[0]), ('get_extra_info', ALG('es4cgp')[0])],
     technique=TECH_EQ, note='blanks are not compared, and other wording with the same values is not reported; how a number, '
     'list or kernel is rendered inside is left to the streaming library, except for plain lists')
