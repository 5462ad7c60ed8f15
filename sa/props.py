"""The properties: which contracts and rules decide each of them."""
from . import spec as S
from . import specs_matrix as SM
from . import specs_decomp as SD
from . import decomp as D
from .harness import load

TRUSTED = ['rustc nightly type checker and THIR construction', 'driver/ (THIR dump)', 'sa/ (symbolic interpreter, loop summaries, linear prover)',
           'sa/models.py (models of the std and num functions the crate calls)']
ASSUME = ['element arithmetic is read as exact real arithmetic (rounding, overflow to infinity and NaN are outside the contracts unless stated)',
          'usize arithmetic of dimensions does not wrap (a matrix fits in memory)']

ST = {}


def setup(paths, repo):
    ST['paths'] = paths
    ST['repo'] = repo
    ST['cr'] = load(paths['la'])


def setup_ref():
    if 'ref' not in ST:
        ST['ref'] = load(D.refdump())


M = lambda *n: [SM.MP + x for x in n]
ELEMENTWISE = M('scale', 'elem_mul', 'elem_div') + SM.OPNAMES['Add'] + SM.OPNAMES['Sub'] + SM.OPNAMES['Neg']
INPLACE = M('mneg', 'mscale', 'madd', 'msub', 'melem_mul', 'melem_div', 'mmap', 'mmul')
CONSTR = M('new', 'vector', 'row_vector', 'id', 'zero', 'diag', 'block_diag', 'zero_vector', 'one_vector', 'random')
REARR = M('t', 'cr', 'cb', 'minor', 'sub_matrix', 'get_column') + SM.OPNAMES['BitOr']
SELECT = M('permute_rows', 'permute_columns', 'filter_rows', 'filter_columns', 'select_rows', 'select_columns')
ACCESS = M('get', 'get_ref', 'get_mref', 'set') + ['index']
NORMS = M('trace', 'vector_euclidean_norm', 'length', 'vector_2_norm', 'frobenius_norm', 'vector_1_norm', 'vector_p_norm', 'vector_inf_norm')
PRED = M('is_symmetric', 'is_non_symmetric', 'approx_eq', 'is_square', 'is_not_square') + ['PartialEq::eq']
MISC = M('rows', 'cols', 'get_data', 'map', 'reduce') + ['Clone::clone']
ALLM = sorted(set(ELEMENTWISE + INPLACE + CONSTR + REARR + SELECT + ACCESS + NORMS + PRED + MISC + SM.OPNAMES['Mul'] + M('mt', 'get_mut_data')))
PRODUCES = sorted(set(ELEMENTWISE + CONSTR + REARR + SELECT + SM.OPNAMES['Mul'] + M('map', 'reduce') + ['Clone::clone']))

CONTRACT = 'contract comparison: the summary of each function (path condition, result shape, element map) is derived from its typed source by loop summarisation and compared with the contract'

PROPS = {}


def prop(pid, items, rule=CONTRACT, level='proof', **kw):
    PROPS[pid] = dict(id=pid, items=items, rule=rule, level=level, **kw)


def C(names, *kinds):
    return [('contract', n, kinds) for n in names]


prop('C03', C(M('madd', 'msub', 'elem_mul', 'melem_mul', 'elem_div', 'melem_div', 'mmul', 'cr', 'cb', 'reduce', 'select_rows', 'select_columns')
              + SM.OPNAMES['Add'] + SM.OPNAMES['Sub'] + SM.OPNAMES['Mul'] + SM.OPNAMES['BitOr'], 'accept'))
prop('C04', C(ACCESS, 'accept', 'val', 'mut', 'total'))
prop('C05', C(M('minor', 'sub_matrix', 'get_column', 'permute_rows', 'permute_columns', 'new', 'vector', 'row_vector', 'diag', 'block_diag', 'id', 'zero',
                'zero_vector', 'one_vector', 'random'), 'accept'))
prop('C06', C(PRODUCES, 'wf') + C(INPLACE, 'mut:wf', 'mut:shape'))
prop('C07', C(PRODUCES, 'shape', 'total') + C(M('rows', 'cols'), 'val') + C(INPLACE + M('mt'), 'mut:shape'))
prop('C08', C(CONSTR, 'val', 'init', 'total'))
prop('C09', C(ELEMENTWISE, 'val', 'total'))
prop('C10', C(INPLACE, 'mut:val', 'total', 'mut:shape'))
prop('C11', C(SM.OPNAMES['Mul'] + M('mmul'), 'val', 'total', 'mut:val', 'shape', 'mut:shape'))
prop('C12', C(REARR, 'val', 'total', 'shape'))
prop('C13', C(SELECT, 'val', 'total', 'shape'))
prop('C14', C(M('map', 'mmap', 'reduce'), 'val', 'total', 'mut:val', 'shape', 'mut:shape'))
prop('C16', C(NORMS, 'val', 'total', 'accept'))
prop('C17', C(PRED, 'val', 'total'))
prop('C32', C(SM.APPROX + ['hypot'], 'val', 'scale', 'total'))


BISIM = ('value-graph bisimulation: loops and carried variables of the code are aligned with those of a reference algorithm (ref/); initial value, step, trip count and '
         'leaving condition of each, and the results, are compared as terms over uninterpreted loop states')
BOTH = CONTRACT + '; ' + BISIM


def B(job, *fns):
    return [('bisim', job, v, fns or None) for v in D.JOBS[job]['sets']]


OBS = ('val', 'total', 'shape', 'wf', 'accept', 'init', 'uninit', 'tdiv', 'frame', 'some')
prop('C18', B('lu') + C([SD.LU + '::' + x for x in ('get_l', 'get_u', 'get_p', 'get_piv')], *OBS), BOTH)
prop('C19', C([SD.CH + '::get_l', SD.QR + '::get_r', SD.QR + '::get_h',
               SD.SV + '::get_u', SD.SV + '::get_s', SD.SV + '::get_v', SD.EI + '::get_v', SD.EI + '::get_d', SD.EI + '::get_real_eigenvalues', SD.EI + '::get_imag_eigenvalues'], *OBS))
prop('C20', B('det') + B('is_singular') + B('is_non_singular') + B('inverse') + C([SD.LU + '::det', SD.LU + '::is_singular', SD.LU + '::is_non_singular'], *OBS), BOTH)
prop('C21', B('lu_solve') + B('solve'), BISIM)
prop('C22', B('cholesky'), BISIM)
prop('C23', B('chol_solve'), BISIM)
prop('C24', B('qr') + B('qr_q') + C([SD.QR + '::get_r', SD.QR + '::get_h'], *OBS), BOTH)
prop('C25', B('qr_solve') + C([SD.QR + '::is_full_rank'], *OBS), BOTH)
prop('C26', B('svd') + C([SD.SV + '::new (wide)', SD.SV + '::rank'], *OBS), BOTH)
prop('C27', B('eigen', 'eigen', 'tridiagonalise', 'ql'), BISIM)
prop('C33', B('eigen', 'hessenberg', 'schur', 'complex_div'), BISIM)
prop('C34', B('pinverse'), BISIM)
prop('C35', B('svd_direct', 'direct', 'inverse', 'lu', 'lu_solve') + C([SD.SV + '::direct (wide)'], *OBS), BOTH)


STORE = [n for n in S.SPECS if n.endswith(' (storage)')]
ACCS = [SD.LU + '::' + x for x in ('get_l', 'get_u', 'get_p', 'get_piv', 'det', 'is_singular', 'is_non_singular')] + [SD.CH + '::get_l', SD.QR + '::get_r', SD.QR + '::get_h',
        SD.QR + '::is_full_rank', SD.SV + '::rank', SD.EI + '::get_d']
prop('C01', C(ALLM + ACCS + STORE + SM.APPROX + ['hypot'], 'safe', 'init', 'mut:init', 'uninit', 'ub') + [('raw', 'crate')],
     'storage analysis: for every argument, loop summaries give which elements of each buffer are written; every read and every unchecked access is proved inside what is written or allocated, and no buffer escapes with an unwritten element')
prop('C02', C(STORE, 'total', 'shape', 'tdiv'), 'panic-freedom: every index, subtraction, division, slice and unwrap reached under the precondition is proved in range from the path condition and loop summaries')


def items(p, tier):
    if any(i[0] == 'bisim' for i in p['items']):
        setup_ref()
    return p['items']


def second(spec, kinds, obs):
    """a summary that is not resolved: the function is compared with its plain definition"""
    if any(o.st == 'viol' for o in obs) or not any(o.st == 'und' and o.kind != 'anchor' for o in obs) or not {'val', 'mut'} & {k.split(':')[0] for k in kinds}:
        return obs
    from . import plain
    if spec not in plain.OF:
        return obs
    try:
        setup_ref()
        return obs + plain.second(ST['ref'], ST['cr'], spec)
    except BaseException:       # out of time, or not modelled: no second opinion
        return obs


def run_item(job):
    kind = job[0]
    if kind == 'contract':
        obs, info = S.run_case(ST['cr'], job[1], set(job[2]))
        return second(job[1], job[2], obs), info
    if kind == 'bisim':
        return D.run_job(ST['ref'], ST['cr'], job[1], job[3], [job[2]])
    if kind == 'effects':
        from . import effects
        return effects.run(ST['cr'])
    if kind == 'raw':
        from . import effects
        return effects.raw(ST['cr'])
    raise AssertionError(kind)

prop('C28', [('effects', 'crate')], 'effect analysis over the resolved call graph: calls inside the crate are followed, calls out of it classified by the definition they resolve to; '
     'no function reaches an effect (randomness, clock, environment, files, streams, threads, mutable statics) that its contract does not name')
prop('C29', B('read_csv'), BISIM)
prop('C15', B('mt') + C(M('mt'), 'mut:shape'), BOTH + '; a difference counts only where a cycle of the transposition shows it')
