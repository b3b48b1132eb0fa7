"""registry of the checks"""
import r_state
import r_expr
import r_chrom
import r_kern
import r_problem
import r_algo
import r_fun
import r_gym
import r_text

CHECKS = {
    'C01': dict(rules=[r_state.serialisation], how='archive traffic of every class: same members, same order, both ways'),
    'C02': dict(rules=[r_state.registration], how='registration query over the instantiated polymorphic types'),
    'C04': dict(rules=[r_state.rng_lock], how='lock-state dataflow around the global engine'),
    'C05': dict(rules=[r_expr.layout], how='summaries of all constructors against the reference layout functions'),
    'C06': dict(rules=[r_chrom.setters, r_chrom.mutations, r_chrom.construction], only={'set', 'mutation', 'start'},
                how='summaries of constructors, setters and mutations against reference transitions'),
    'C07': dict(rules=[r_expr.active, r_expr.links], how='summary of the refresh against the reference reachability'),
    'C08': dict(rules=[r_expr.evaluators], how='summaries of all evaluators against the reference interpreter of the encoding'),
    'C09': dict(rules=[r_expr.losses], how='summaries of all losses against the reference losses'),
    'C10': dict(rules=[r_chrom.intact], how='state of the object at every point where a public member throws'),
    'C11': dict(rules=[r_chrom.setters, r_chrom.mutations, r_chrom.parameters, r_chrom.data_checks, r_chrom.construction],
                only={'rejects', 'data', 'ctor'}, how='path conditions of throws against the reference preconditions'),
    'C12': dict(rules=[r_chrom.parameters], only={'parameter'}, how='summaries of accessors against the reference layout'),
    'C13': dict(rules=[r_kern.values, r_kern.sets], how='summaries of kernels obtained by name against the named functions'),
    'C14': dict(rules=[r_kern.texts], how='summaries of printed kernels, read as formulas, against the named functions'),
    'C15': dict(rules=[r_expr.kinds, r_expr.gradient, r_expr.batch_gradient],
                how='summaries of back-propagation against the reference recursion'),
    'C16': dict(rules=[r_expr.training, r_chrom.pairing], how='summary of an epoch against the reference epoch'),
    'C17': dict(rules=[r_problem.meaning_sr], how='summaries of the members of the problem against the model they stand for'),
    'C18': dict(rules=[r_problem.shape], how='summaries of the shape members of the problem against the model'),
    'C19': dict(rules=[r_problem.derivatives], how='summaries of gradient and hessians against the differentiated loss'),
    'C20': dict(rules=[r_problem.building], how='path conditions of throws against the reference preconditions'),
    'C21': dict(rules=[r_problem.safety], how='summaries of the reported thread safety against the least safe part'),
    'C22': dict(rules=[r_problem.histories], how='summaries of call sequences against the direct computation'),
    'C23': dict(rules=[r_algo.ev_es4cgp], how='summary of one run against the reference run'),
    'C24': dict(rules=[r_algo.ev_moes4cgp], how='summary of one run against the reference run'),
    'C25': dict(rules=[r_algo.ev_mes4cgp], how='summary of one run against the reference run'),
    'C26': dict(rules=[r_algo.ev_momes4cgp], how='summary of one run against the reference run'),
    'C27': dict(rules=[r_algo.ev_gd4cgp], how='summary of one run against the reference run'),
    'C28': dict(rules=[r_algo.rejections], how='path conditions of throws against the reference preconditions'),
    'C29': dict(rules=[r_algo.verbosity], how='output effects of a silent run; summaries of runs with and without reports'),
    'C30': dict(rules=[r_algo.seeds], how='provenance of random draws; state after seeding; fields a run changes and reads'),
    'C33': dict(rules=[r_algo.logs], how='summary of the log of one run against the reference log'),
    'C34': dict(rules=[r_text.printed], how='summaries of the printing members against the labelled values of the public interface'),
    'C31': dict(rules=[r_gym.generated, r_gym.tables],
                how='summaries of the data generators against the documented formulas; constant tables against certified sums'),
    'C32': dict(rules=[r_fun.wrapper], how='summaries of uses of the function wrapper against the callable inside'),
}
