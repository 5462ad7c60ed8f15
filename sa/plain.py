"""Second opinion on the functions of Matrix: when the summary of a changed function is not resolved (an array carried
between iterations that has no closed form), the function is compared, loop by loop, with its definition written as plain
loops (ref/src/plain.rs) by value-graph bisimulation.  Only what that comparison refutes is used; it never runs on a
function whose contract is decided."""
from .sym import *
from .vals import *
from . import harness as H
from . import decomp as D
from .whole import whole
from . import specs_matrix as SM

OF = {}          # contract -> comparisons
MP = D.MP
data = D.data


def plain(specs, ref, code=None, find=None):
    def d(build):
        specs_ = [specs] if isinstance(specs, str) else list(specs)
        name = 'plain:%s:%s' % (specs_[0].split('::')[-1], ref)
        for s in specs_:
            OF.setdefault(s, []).append(name)
        D.JOBS[name] = dict(name=name, ref='plain::' + ref, code=code or specs_[0], find=find, build=build, sets=('generic',), hooks={}, left=25.0)
        return build
    return d


def P_data(ra, rb, st, p):
    return [('elements', ra, data(rb), [])]


def P_inplace(ra, rb, st, p):
    return [('elements', ra, data(st.store[('arg', 0)]), [])]


def P_inplace_shape(ra, rb, st, p):
    r = st.store[('arg', 0)]
    return [('rows', ra.f['0'], r.f['no_rows'], []), ('elements', ra.f['2'], data(r), [])]


def below(v, n, top):
    """every element of the index vector v (of length n) is less than top"""
    k = sym(('pk', 0), 'nat')
    return Forall(k, n, le(P(atom('el', v.base[1], P(k))) + 1, top))


def unary(specs, ref, extra=None, pairs=P_data, size=False, code=None, find=None):
    """ref(elements[, extra]) / ref(rows, columns, elements[, extra]) against code(matrix[, extra])"""
    @plain(specs, ref, code, find)
    def _(s):
        a, as_, R, C = D.mat('a')
        x, xs = [], []
        if extra == 'fn':
            x = [FnParam('f', 'T')]
        elif extra:
            x = [psym(extra, 'T')]
        return dict(ref=([R, C] if size else []) + [data(a)] + x, code=[a] + x, assume=as_, pairs=pairs)


def binary(specs, ref, pairs=P_data, code=None, find=None):
    @plain(specs, ref, code, find)
    def _(s):
        a, as_, R, C = D.mat('a')
        b, bs, K, Q = D.mat('b', R, C)
        return dict(ref=[data(a), data(b)], code=[a, b], assume=as_ + bs, pairs=pairs)


def of(names):
    return [MP + n for n in names]


# constructors
@plain(MP + 'id', 'identity')
def _(s):
    m, n = psym('m', 'dim'), psym('n', 'dim')
    return dict(ref=[m, n], code=[m, n], assume=[], pairs=D.P_matrix)


@plain(MP + 'zero', 'fill')
def _(s):
    m, n = psym('m', 'dim'), psym('n', 'dim')
    return dict(ref=[m, n, ZERO], code=[m, n], assume=[], pairs=D.P_matrix)


@plain(MP + 'zero_vector', 'fill')
def _(s):
    m = psym('m', 'dim')
    return dict(ref=[m, ONE, ZERO], code=[m], assume=[], pairs=D.P_matrix)


@plain(MP + 'one_vector', 'fill')
def _(s):
    m = psym('m', 'dim')
    return dict(ref=[m, ONE, ONE], code=[m], assume=[], pairs=D.P_matrix)


@plain(MP + 'diag', 'diagonal')
def _(s):
    m = psym('m', 'dim')
    v = H.V('data', m)
    return dict(ref=[m, m, v], code=[v], byval=(0,), assume=[], pairs=D.P_matrix)


@plain(MP + 'block_diag', 'diagonal')
def _(s):
    m, n = psym('m', 'dim'), psym('n', 'dim')
    v = H.V('data', pite(le(m, n), m, n))
    return dict(ref=[m, n, v], code=[m, n, v], byval=(2,), assume=[], pairs=D.P_matrix)


# element by element
unary(MP + 'map', 'map', 'fn')
unary(MP + 'scale', 'scaled', 'factor')
unary(SM.OPNAMES['Neg'], 'negated', find=SM.opfind('Neg', True, None))
binary(SM.OPNAMES['Add'], 'sum', find=SM.opfind('Add', True, True))
binary(SM.OPNAMES['Sub'], 'difference', find=SM.opfind('Sub', True, True))
binary(MP + 'elem_mul', 'times')
binary(MP + 'elem_div', 'quotient')
for p_, sfx in ((P_inplace, ''),):
    unary(MP + 'mmap', 'mmap', 'fn', p_)
    unary(MP + 'mscale', 'mscaled', 'factor', p_)
    unary(MP + 'mneg', 'mnegated', None, p_)
    binary(MP + 'madd', 'msum', p_)
    binary(MP + 'msub', 'mdifference', p_)
    binary(MP + 'melem_mul', 'mtimes', p_)
    binary(MP + 'melem_div', 'mquotient', p_)


@plain(MP + 'reduce', 'reduce')
def _(s):
    a, as_, R, C = D.mat('a')
    f, z = FnParam('f', 'T'), H.V('init', C)
    return dict(ref=[C, data(a), z, f], code=[a, z, f], assume=as_, pairs=P_data)


@plain(MP + 'reduce', 'reduce_rows')
def _(s):
    a, as_, R, C = D.mat('a')
    f, z = FnParam('f', 'T'), H.V('init', C)
    return dict(ref=[R, C, data(a), z, f], code=[a, z, f], assume=as_, pairs=P_data)


# products
def product(specs, pairs, find=None):
    @plain(specs, 'product', None, find)
    def _(s):
        a, as_, R, C = D.mat('a')
        b, bs, K, Q = D.mat('b', C)
        return dict(ref=[R, C, data(a), Q, data(b)], code=[a, b], assume=as_ + bs, pairs=pairs)


product(SM.OPNAMES['Mul'], D.P_matrix, SM.opfind('Mul', True, True))
product(MP + 'mmul', P_inplace_shape)


# rearrangement
for r_ in ('transpose', 'transpose_loops', 'transpose_out'):
    unary(MP + 't', r_, None, D.P_matrix, True)


def two(specs, ref, shared, pairs=D.P_matrix, find=None):
    @plain(specs, ref, None, find)
    def _(s):
        a, as_, R, C = D.mat('a')
        b, bs, K, Q = D.mat('b', *((R, None) if shared == 'rows' else (None, C)))
        return dict(ref=[R, C, data(a), Q if shared == 'rows' else K, data(b)], code=[a, b], assume=as_ + bs, pairs=pairs)


two(MP + 'cr', 'beside', 'rows')
two(MP + 'cr', 'beside_indexed', 'rows')
two(MP + 'cb', 'below', 'columns')


@plain(MP + 'minor', 'minor')
def _(s):
    a, as_, R, C = D.mat('a')
    r, c = D.dims('row', 'col')
    return dict(ref=[R, C, data(a), r, c], code=[a, r, c], assume=as_ + [le(r + 1, R), le(c + 1, C), le(P(2), R), le(P(2), C)], pairs=D.P_matrix)


for r_ in ('block', 'block_indexed'):
    @plain(MP + 'sub_matrix', r_)
    def _(s):
        a, as_, R, C = D.mat('a')
        r0, c0, r1, c1 = D.dims('start_row', 'start_col', 'end_row', 'end_col')
        return dict(ref=[C, data(a), r0, c0, r1, c1], code=[a, r0, c0, r1, c1],
                    assume=as_ + [le(r0 + 1, r1), le(c0 + 1, c1), le(r1, R), le(c1, C)], pairs=D.P_matrix)


@plain(MP + 'get_column', 'column')
def _(s):
    a, as_, R, C = D.mat('a')
    c = psym('column', 'nat')
    return dict(ref=[R, C, data(a), c], code=[a, c], assume=as_ + [le(c + 1, C)], pairs=D.P_matrix)


for n_, top_ in (('permute_rows', 0), ('permute_columns', 1)):
    @plain(MP + n_, n_)
    def _(s, top_=top_):
        a, as_, R, C = D.mat('a')
        n = psym('list.len', 'nat')
        v = H.V('list', n, 'nat')
        return dict(ref=[R, C, data(a), v], code=[a, v], assume=as_ + [le(ONE, n), below(v, n, C if top_ else R)], pairs=D.P_matrix)

    @plain(MP + n_.replace('permute', 'filter'), n_.replace('permute', 'filter'))
    def _(s):
        a, as_, R, C = D.mat('a')
        f = FnParam('f', 'bool', True)
        return dict(ref=[R, C, data(a), f], code=[a, f], assume=as_, pairs=D.P_matrix)

    @plain(MP + n_.replace('permute', 'select'), n_.replace('permute', 'select'))
    def _(s, top_=top_):
        a, as_, R, C = D.mat('a')
        v = H.V('selector', C if top_ else R, 'bool')
        return dict(ref=[R, C, data(a), v], code=[a, v], assume=as_, pairs=D.P_matrix)


# numbers
def vector_of(n):
    return D.mat('a', None, ONE)


def number(specs, ref, size=False, vec=True, extra=None):
    @plain(specs, ref)
    def _(s):
        a, as_, R, C = D.mat('a', None, ONE) if vec else D.mat('a')
        x = [psym(extra, 'T')] if extra else []
        return dict(ref=([R, C] if size else []) + [data(a)] + x, code=[a] + x, assume=as_, pairs=D.P_scalar)


number(MP + 'trace', 'trace', True, False)
for n_ in ('vector_euclidean_norm', 'length', 'vector_2_norm', 'frobenius_norm'):
    number(MP + n_, 'sum_squares_root', False, n_ != 'frobenius_norm')
number(MP + 'vector_1_norm', 'sum_abs')
number(MP + 'vector_p_norm', 'sum_power', extra='p')
number(MP + 'vector_inf_norm', 'max_abs')
number(MP + 'is_symmetric', 'symmetric', True, False)


@plain(MP + 'approx_eq', 'all_near')
def _(s):
    a, as_, R, C = D.mat('a')
    b, bs, K, Q = D.mat('b')
    return dict(ref=[R, C, data(a), K, Q, data(b)], code=[a, b], assume=as_ + bs, pairs=D.P_scalar)


# ------------------------------------------------------------------ what is used of a comparison
def refuted(o):
    return o.st == 'viol' or o.st == 'und' and o.detail.startswith('refuted: carried variable without counterpart')


def second(CA, CB, spec):
    """what the comparisons with the plain definitions of a function refute"""
    import time
    out = []
    until = time.time() + 150
    for name in OF.get(spec, ()):
        if out or time.time() > until:
            break
        r = D.run(CA, CB, name, 'generic', True)
        if r is None:
            continue
        os = D.J.judge(r, D.JOBS[name], 'generic', None)
        bad = [o for o in os if refuted(o)]
        if bad and whole(r) == 'differ':
            for o in bad:
                o.st, o.detail = 'viol', o.detail.replace('refuted: ', 'differs from its definition: ')
            out += bad
    return out
