"""Contracts of the matrix type."""
from .spec import *

MP = 'matrix::Matrix::'


def mspec(*names, **kw):
    def d(fn):
        for n in names:
            SPECS[MP + n] = (MP + n, (lambda c, n=n: fn(c, n)), kw)
        return fn
    return d


def samedim(a, b):
    return And(ieq(a.R, b.R), ieq(a.C, b.C))


def mn(a, b):
    return pite(le(a, b), a, b)


# ------------------------------------------------------------------ construction, access
@mspec('new')
def _(c, n):
    r, k, d = c.nat('r'), c.nat('c'), c.vec('d')
    return dict(args=[r, k, d], pre=And(ieq(r * k, d.ln), ge0(r - 1), ge0(k - 1)), ret=Mat(r, k, flat=lambda q: flat('d', q)))


@mspec('vector', 'row_vector')
def _(c, n):
    d = c.vec('d')
    return dict(args=[d], pre=ge0(d.ln - 1), ret=Mat(d.ln if n == 'vector' else 1, 1 if n == 'vector' else d.ln, flat=lambda q: flat('d', q)))


@mspec('rows', 'cols')
def _(c, n):
    a = c.mat('a')
    return dict(args=[c.ref(a)], ret=Sc(a.R if n == 'rows' else a.C))


@mspec('is_square', 'is_not_square')
def _(c, n):
    a = c.mat('a')
    q = ieq(a.R, a.C)
    return dict(args=[c.ref(a)], ret=Sc(q if n == 'is_square' else Not(q)))


@mspec('get_data', 'get_mut_data')
def _(c, n):
    a = c.mat('a')
    return dict(args=[c.ref(a, n == 'get_mut_data')], ret=Deref(Vec(a.R * a.C, a.fl)))


@mspec('get', 'get_ref')
def _(c, n):
    a, i, j = c.mat('a'), c.nat('i'), c.nat('j')
    s = Sc(a.el(i, j))
    return dict(args=[c.ref(a), i, j], pre=And(lt(i, a.R), lt(j, a.C)), ret=s if n == 'get' else Deref(s))


@mspec('set')
def _(c, n):
    a, i, j, v = c.mat('a'), c.nat('i'), c.nat('j'), c.T('v')
    return dict(args=[c.ref(a, True), i, j, v], pre=And(lt(i, a.R), lt(j, a.C)),
                mut={'a': Mat(a.R, a.C, lambda p, q: pite(And(ieq(p, i), ieq(q, j)), v, a.el(p, q)))})


@mspec('get_mref')
def _(c, n):
    a, i, j, v = c.mat('a'), c.nat('i'), c.nat('j'), c.T('v')

    def post(ch, r, f):
        ref = r.ret
        if not isinstance(ref, Ref):
            ch.ob('val', 'result', 'und', 'not a reference: %s' % short(ref))
            return
        ch.value('result', ref, Deref(Sc(a.el(i, j))), f)
        st = r.st
        r.I.wplace(st, ref, v)
        ch.value('write through result', r.st.store[('arg', 'a')], Mat(a.R, a.C, lambda p, q: pite(And(ieq(p, i), ieq(q, j)), v, a.el(p, q))), f, 'mut:')
    return dict(args=[c.ref(a, True), i, j], pre=And(lt(i, a.R), lt(j, a.C)), post=post)


def app(f, *k, ret='T'):
    a = atom('app', sym(f, 'fn'), tuple(k))
    return batom(a) if ret == 'bool' else P(a)


@mspec('map', 'mmap')
def _(c, n):
    a, f = c.mat('a'), c.fn('f')
    s = Mat(a.R, a.C, flat=lambda k: app('f', a.fl(k)))
    if n == 'map':
        return dict(args=[c.ref(a), c.ref(f, name='f')], ret=s)
    return dict(args=[c.ref(a, True), c.ref(f, name='f')], mut={'a': s})


@mspec('reduce')
def _(c, n):
    a, f, init = c.mat('a'), c.fn('f'), c.vec('init')

    def elf(k):
        v, acc = C.fresh(), C.fresh('T')
        return Gfold(v, acc, a.R, flat('init', k), app('f', P(acc), a.el(P(v), k)))
    return dict(args=[c.ref(a), c.ref(init, name='init'), c.ref(f, name='f')], pre=ieq(init.ln, a.C), ret=Mat(1, a.C, flat=elf))


# ------------------------------------------------------------------ constructors of particular matrices
@mspec('id', 'zero')
def _(c, n):
    r, k = c.nat('m'), c.nat('n')
    return dict(args=[r, k], pre=And(ge0(r - 1), ge0(k - 1)),
                ret=Mat(r, k, (lambda i, j: pite(ieq(i, j), ONE, ZERO)) if n == 'id' else (lambda i, j: ZERO)))


@mspec('diag')
def _(c, n):
    d = c.vec('d')
    return dict(args=[d], pre=ge0(d.ln - 1), ret=Mat(d.ln, d.ln, lambda i, j: pite(ieq(i, j), flat('d', i), ZERO)))


@mspec('block_diag')
def _(c, n):
    r, k, d = c.nat('m'), c.nat('n'), c.vec('d')
    return dict(args=[r, k, d], pre=And(ieq(d.ln, mn(r, k)), ge0(r - 1), ge0(k - 1)),
                ret=Mat(r, k, lambda i, j: pite(ieq(i, j), flat('d', i), ZERO)))


@mspec('zero_vector', 'one_vector')
def _(c, n):
    r = c.nat('m')
    return dict(args=[r], pre=ge0(r - 1), ret=Mat(r, 1, flat=lambda k: ZERO if n == 'zero_vector' else ONE))


@mspec('random')
def _(c, n):
    r, k = c.nat('m'), c.nat('n')
    return dict(args=[r, k], pre=And(ge0(r - 1), ge0(k - 1)), ret=Mat(r, k))


# ------------------------------------------------------------------ elementwise arithmetic
@mspec('mneg', 'scale', 'mscale')
def _(c, n):
    a = c.mat('a')
    k = c.T('f')
    s = Mat(a.R, a.C, flat=(lambda q: -a.fl(q)) if n == 'mneg' else (lambda q: k * a.fl(q)))
    args = [c.ref(a, n != 'scale')] + ([] if n == 'mneg' else [k])
    return dict(args=args, ret=s) if n == 'scale' else dict(args=args, mut={'a': s})


OPS = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x * inv(y)}


@mspec('madd', 'msub', 'elem_mul', 'melem_mul', 'elem_div', 'melem_div')
def _(c, n):
    a, b = c.mat('a'), c.mat('b')
    op = OPS[n[-3:]]
    mut = n[0] == 'm'
    s = Mat(a.R, a.C, flat=lambda q: op(a.fl(q), b.fl(q)))
    d = dict(args=[c.ref(a, mut), c.ref(b)], pre=samedim(a, b))
    d.update(dict(mut={'a': s}) if mut else dict(ret=s))
    return d


def prod_el(a, b):
    def f(i, j):
        v = C.fresh()
        return Sum(v, a.C, a.el(i, P(v)) * b.el(P(v), j))
    return f


@mspec('mmul')
def _(c, n):
    a, b = c.mat('a'), c.mat('b')
    return dict(args=[c.ref(a, True), c.ref(b)], pre=ieq(a.C, b.R), mut={'a': Mat(a.R, b.C, prod_el(a, b))})


# operator implementations: one contract per (trait, operand ownership)
def opfind(trait, lref, rref):
    def f(cr):
        out = []
        for fn in cr.fns.values():
            if fn.get('impl_trait') and normpath(fn['impl_trait']).split('<')[0].endswith('ops::' + trait):
                ps = [cr.types[p['ty']] for p in fn['params']]
                if not ps or not ismat(cr, ps[0]):
                    continue
                refs = [p['k'] == 'ref' for p in ps]
                if refs[0] == lref and (len(refs) == 1 or rref is None or refs[1] == rref):
                    out.append(fn)
        return out[0] if len(out) == 1 else None
    return f


def ismat(cr, t):
    if t['k'] == 'ref':
        t = cr.types[t['e']]
    return t['k'] == 'adt' and t['n'].endswith('Matrix')


def mkop(trait, lref, rref):
    nm = '%s%s %s %s' % ('&' if lref else '', 'Matrix', trait.lower(), ('&' if rref else '') + 'Matrix') if rref is not None else \
        '%s %sMatrix' % (trait.lower(), '&' if lref else '')

    def b(c):
        a = c.mat('a')
        A = c.ref(a) if lref else a.v
        if trait == 'Neg':
            return dict(args=[A], ret=Mat(a.R, a.C, flat=lambda q: -a.fl(q)))
        m = c.mat('b')
        Bv = c.ref(m) if rref else m.v
        if trait == 'BitOr':
            return dict(args=[A, Bv], pre=ieq(a.R, m.R), ret=Mat(a.R, a.C + m.C, cr_el(a, m)))
        if trait == 'Mul':
            return dict(args=[A, Bv], pre=ieq(a.C, m.R), ret=Mat(a.R, m.C, prod_el(a, m)))
        op = OPS[trait.lower()]
        return dict(args=[A, Bv], pre=samedim(a, m), ret=Mat(a.R, a.C, flat=lambda q: op(a.fl(q), m.fl(q))))
    SPECS[nm] = (nm, b, dict(find=opfind(trait, lref, rref)))
    return nm


OPNAMES = {}
for _t in ('Add', 'Sub', 'Mul'):
    OPNAMES[_t] = [mkop(_t, l, r) for l in (True, False) for r in (True, False)]
OPNAMES['Neg'] = [mkop('Neg', l, None) for l in (True, False)]


def cr_el(a, b):
    return lambda i, j: pite(lt(j, a.C), a.el(i, j), b.el(i, j - a.C))


OPNAMES['BitOr'] = [mkop('BitOr', False, True)]


def _index(c):
    a, i, j = c.mat('a'), c.nat('i'), c.nat('j')
    return dict(args=[c.ref(a), St('()', {'0': i, '1': j})], pre=And(lt(i, a.R), lt(j, a.C)), ret=Deref(Sc(a.el(i, j))))


SPECS['index'] = ('index', _index, dict(find=opfind('Index', True, None)))


# ------------------------------------------------------------------ rearrangement
@mspec('cr')
def _(c, n):
    a, b = c.mat('a'), c.mat('b')
    return dict(args=[c.ref(a), c.ref(b)], pre=ieq(a.R, b.R), ret=Mat(a.R, a.C + b.C, cr_el(a, b)))


@mspec('cb')
def _(c, n):
    a, b = c.mat('a'), c.mat('b')
    return dict(args=[c.ref(a), c.ref(b)], pre=ieq(a.C, b.C),
                ret=Mat(a.R + b.R, a.C, lambda i, j: pite(lt(i, a.R), a.el(i, j), b.el(i - a.R, j))))


@mspec('t')
def _(c, n):
    a = c.mat('a')
    return dict(args=[c.ref(a)], ret=Mat(a.C, a.R, lambda i, j: a.el(j, i)))


@mspec('mt')
def _(c, n):
    a = c.mat('a')
    return dict(args=[c.ref(a, True)], mut={'a': Mat(a.C, a.R)})


@mspec('minor')
def _(c, n):
    a, r, k = c.mat('a'), c.nat('i'), c.nat('j')
    return dict(args=[c.ref(a), r, k], pre=And(lt(r, a.R), lt(k, a.C), ge0(a.R - 2), ge0(a.C - 2)),
                ret=Mat(a.R - 1, a.C - 1, lambda i, j: a.el(pite(lt(i, r), i, i + 1), pite(lt(j, k), j, j + 1))))


@mspec('sub_matrix')
def _(c, n):
    a, r0, c0, r1, c1 = c.mat('a'), c.nat('r0'), c.nat('c0'), c.nat('r1'), c.nat('c1')
    return dict(args=[c.ref(a), r0, c0, r1, c1], pre=And(lt(r0, r1), lt(c0, c1), le(r1, a.R), le(c1, a.C)),
                ret=Mat(r1 - r0, c1 - c0, lambda i, j: a.el(r0 + i, c0 + j)))


@mspec('get_column')
def _(c, n):
    a, k = c.mat('a'), c.nat('j')
    return dict(args=[c.ref(a), k], pre=lt(k, a.C), ret=Mat(a.R, 1, flat=lambda i: a.el(i, k)))


@mspec('permute_rows', 'permute_columns')
def _(c, n):
    a, v = c.mat('a'), c.vec('p', ek='nat')
    D = a.R if n == 'permute_rows' else a.C
    q = C.fresh()
    pre = Forall(q, v.ln, lt(flat('p', P(q), 'nat'), D))
    p = lambda k: flat('p', k, 'nat')
    s = Mat(v.ln, a.C, lambda i, j: a.el(p(i), j)) if n == 'permute_rows' else Mat(a.R, v.ln, lambda i, j: a.el(i, p(j)))
    return dict(args=[c.ref(a), c.ref(v, name='p')], pre=pre, ret=s, wf_known=('empty selection', ge0(v.ln - 1)))


@mspec('filter_rows', 'filter_columns', 'select_rows', 'select_columns')
def _(c, n):
    a = c.mat('a')
    row = n.endswith('rows')
    D = a.R if row else a.C
    if n[0] == 'f':
        f = c.fn('f', 'bool')
        cond = lambda k: app('f', ('matrix::Matrix', a.R, sym('a', 'Tarr')), k, ret='bool')
        args, pre = [c.ref(a), c.ref(f, name='f')], TRUE
    else:
        v = c.vec('sel', ek='bool')
        cond = lambda k: flat('sel', k, 'bool')
        args, pre = [c.ref(a), c.ref(v, name='sel')], ieq(v.ln, D)
    q = C.fresh()
    cnt = Cnt(q, D, cond(P(q)))

    def sel(k):
        q = C.fresh()
        return Sel(q, D, k, cond(P(q)))
    s = Mat(cnt, a.C, lambda i, j: a.el(sel(i), j)) if row else Mat(a.R, cnt, lambda i, j: a.el(i, sel(j)))
    return dict(args=args, pre=pre, ret=s, wf_known=('empty selection', ge0(cnt - 1)))


# ------------------------------------------------------------------ scalars
@mspec('trace')
def _(c, n):
    a = c.mat('a')
    v = C.fresh()
    return dict(args=[c.ref(a)], ret=Sc(Sum(v, mn(a.R, a.C), a.el(P(v), P(v)))))


def tfun(name, *args):
    return P(atom(name, *args))


@mspec('vector_euclidean_norm', 'length', 'vector_2_norm', 'frobenius_norm', 'vector_1_norm', 'vector_p_norm', 'vector_inf_norm')
def _(c, n):
    a = c.mat('a')
    v = C.fresh()
    e = a.fl(P(v))
    N = a.R * a.C
    args = [c.ref(a)]
    if n == 'vector_1_norm':
        r = Sum(v, N, tabs(e))
    elif n == 'vector_inf_norm':
        r = Fold('max', v, N, P(atom('noinit')), tabs(e))
    elif n == 'vector_p_norm':
        p = c.T('p')
        args.append(p)
        r = tfun('powf', Sum(v, N, tfun('powf', tabs(e), p)), inv(p))
    else:
        r = tsqrt(Sum(v, N, e * e))
    return dict(args=args, pre=TRUE if n == 'frobenius_norm' else ieq(a.C, ONE), ret=Sc(r))


@mspec('is_symmetric', 'is_non_symmetric')
def _(c, n):
    a = c.mat('a')
    p, q = C.fresh(), C.fresh()
    r = And(ieq(a.R, a.C), Forall(p, a.R, Forall(q, P(p), apx(a.el(P(p), P(q)), a.el(P(q), P(p))))))
    return dict(args=[c.ref(a)], ret=Sc(r if n == 'is_symmetric' else Not(r)))


def apx(x, y):
    return app('approx_eq', *sorted((x, y), key=lambda z: z.id), ret='bool') if False else batom(atom('app', sym('approx_eq', 'fn'), tuple(sorted((x, y), key=lambda z: z.id))))


@mspec('approx_eq')
def _(c, n):
    a, b = c.mat('a'), c.mat('b')
    q = C.fresh()
    return dict(args=[c.ref(a), c.ref(b)], ret=Sc(And(samedim(a, b), Forall(q, a.R * a.C, apx(a.fl(P(q)), b.fl(P(q)))))))


def traitfind(trait, name, self_adt):
    def f(cr):
        out = [fn for fn in cr.fns.values() if fn.get('impl_trait') and fn['impl_trait'].startswith(trait) and fn['name'] == name
               and fn['params'] and self_is(cr, fn, self_adt)]
        return out[0] if len(out) == 1 else None
    return f


def self_is(cr, fn, adt):
    t = cr.types[fn['params'][0]['ty']]
    if t['k'] == 'ref':
        t = cr.types[t['e']]
    return t['k'] == 'adt' and t['n'].split('::')[-1] == adt or t['k'] == 'float' and t.get('t') == adt


def _eq(c):
    a, b = c.mat('a'), c.mat('b')
    q = C.fresh()
    return dict(args=[c.ref(a), c.ref(b)], ret=Sc(And(samedim(a, b), Forall(q, a.R * a.C, teq(a.fl(P(q)), b.fl(P(q)))))))


SPECS['PartialEq::eq'] = ('PartialEq::eq', _eq, dict(find=traitfind('std::cmp::PartialEq', 'eq', 'Matrix')))


def _clone(c):
    a = c.mat('a')
    return dict(args=[c.ref(a)], ret=Mat(a.R, a.C, flat=a.fl))


SPECS['Clone::clone'] = ('Clone::clone', _clone, dict(find=traitfind('std::clone::Clone', 'clone', 'Matrix')))


# ------------------------------------------------------------------ scalar helpers
def lit(s):
    from fractions import Fraction
    return P(Fraction(s))


def _aeq(c):
    x, y = c.T('x'), c.T('y')
    return dict(args=[c.ref(x, name='x'), c.ref(y, name='y')], ret=Sc(tlt(tabs(x - y), lit('0.000001'))))


def _aeqe(c):
    x, y, e = c.T('x'), c.T('y'), c.T('e')
    return dict(args=[c.ref(x, name='x'), c.ref(y, name='y'), c.ref(e, name='e')], ret=Sc(tlt(tabs(x - y), e)))


def _aeps(c):
    return dict(args=[], ret=Sc(lit('0.000001')))


def epsfind(k):
    def f(cr):
        out = [fn for fn in cr.fns.values() if fn.get('impl_trait', '') and 'ApproxEq' in fn['impl_trait'] and fn['name'] == 'approx_epsilon' and fn['path'].startswith('<' + k)]
        return out[0] if len(out) == 1 else None
    return f


APPROX = []
for _k in ('f32', 'f64'):
    for _n, _b in (('approx_eq', _aeq), ('approx_eq_eps', _aeqe)):
        SPECS[_k + '::' + _n] = (_k + '::' + _n, _b, dict(find=traitfind('approxeq::ApproxEq', _n, _k)))
        APPROX.append(_k + '::' + _n)
    SPECS[_k + '::approx_epsilon'] = (_k + '::approx_epsilon', _aeps, dict(find=epsfind(_k)))
    APPROX.append(_k + '::approx_epsilon')


def branches(v, c=()):
    """(conditions, leaf) of an ite tree"""
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is not None and a.k == 'ite':
        yield from branches(a.a[1], c + (a.a[0],))
        yield from branches(a.a[2], c + (Not(a.a[0]),))
    else:
        yield c, v


def _hypot(c):
    x, y = c.T('x'), c.T('y')
    want = x * x + y * y

    def chk(ch, v, f):
        if not isinstance(v, Poly):
            ch.ob('val', 'hypot', 'und', 'not modelled: %s' % short(v))
            return
        w = C.refute(list(f.lits), v, tsqrt(want))
        if w:
            ch.ob('val', 'is the root of the sum of squares', 'viol', 'derived %s' % short(v), witness=w)
            return
        bad = 0
        for cs, leaf in branches(v):
            g = f.plus(*cs)
            if g.inconsistent():
                continue
            zero = leaf is ZERO and any(teq(z, ZERO) in g.lits and (Not(tlt(tabs(z), tabs(o))) in g.lits or tle(tabs(o), tabs(z)) in g.lits)
                                        for z, o in ((x, y), (y, x)))
            sq = leaf * leaf is want and len(leaf.t) == 1 and all(k > 0 and (a.k in ('abs', 'sqrt') or e % 2 == 0)
                                                                   for m, k in leaf.t.items() for a, e in m)
            if not (zero or sq):
                bad += 1
                ch.ob('val', 'is the root of the sum of squares', 'und', 'branch %s: %s' % (cs, short(leaf)))
            else:
                ch.ob('val', 'is the root of the sum of squares', 'ok')
            # scaling: only the ratio of the smaller to the larger operand is squared
            for a in leaf.atoms():
                if a.k != 'sqrt':
                    continue
                degs = {sum(e for b, e in m) for m in a.a[0].t}
                den = {b for m in a.a[0].t for b, e in m if e < 0}
                if degs - {0} or not den:
                    ch.ob('scale', 'squares only a ratio of the operands', 'viol' if len(degs) == 1 and not den else 'und', 'squares taken of %s' % short(a.a[0]))
                    continue
                d = next(iter(den))
                o = y if P(d) is x else x
                bigger = tle(tabs(o), tabs(P(d)))
                okb = tlt(tabs(o), tabs(P(d))) in g.lits or bigger in g.lits or Not(tlt(tabs(P(d)), tabs(o))) in g.lits
                w = None if okb else C.refute_cond(list(g.lits), bigger)
                ch.ob('scale', 'divides by the larger operand', 'ok' if okb else 'viol' if w else 'und', 'divides by %s under %s' % (d, cs), witness=w)
                nz = Not(teq(P(d), ZERO))
                okz = nz in g.lits or tlt(tabs(o), tabs(P(d))) in g.lits or tlt(ZERO, tabs(P(d))) in g.lits
                w = None if okz else C.refute_cond(list(g.lits), nz) or search(list(g.lits), nz, TRUE)
                ch.ob('scale', 'divides by an operand that is not zero', 'ok' if okz else 'viol' if w else 'und', 'divides by %s under %s' % (d, cs), witness=w)
    return dict(args=[x, y], ret=Cust(chk))


SPECS['hypot'] = ('internalutil::hypot', _hypot, {})
