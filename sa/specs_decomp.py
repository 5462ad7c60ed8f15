"""Contracts of the observers of the decompositions, on an arbitrary decomposition value satisfying the invariants of its type.
(That the constructors establish the content of the fields is decided by sa/decomp.py.)"""
from .spec import *
from .specs_matrix import mn, apx
from .loops import Cnt

LU, CH, QR, SV, EI = ('decomp::lu::LUDecomposition', 'decomp::cholesky::CholeskyDecomposition', 'decomp::qr::QRDecomposition',
                      'decomp::svd::SVD', 'decomp::eigen::EigenDecomposition')


def dspec(ty, *names):
    def d(fn):
        for n in names:
            SPECS[ty + '::' + n] = (ty + '::' + n, (lambda c, n=n: fn(c, n)), {})
        return fn
    return d



# ------------------------------------------------------------------ LU
def lu(c):
    a = c.mat('lu')
    even = batom(sym('even', 'bool'))
    piv = c.vec('piv', a.R, 'nat')
    k = C.fresh()
    c.assume += [Forall(k, a.R, lt(flat('piv', P(k), 'nat'), a.R))]
    return a, even, piv, c.ref(St(LU, {'lu': a.v, 'pospivsign': even, 'piv': piv}), name='self')


@dspec(LU, 'is_singular', 'is_non_singular')
def _(c, n):
    a, even, piv, s = lu(c)
    k = C.fresh()
    r = Forall(k, a.R, Not(teq(a.el(P(k), P(k)), ZERO)))
    return dict(args=[s], pre=ieq(a.R, a.C), ret=Sc(Not(r) if n == 'is_singular' else r))


@dspec(LU, 'get_l')
def _(c, n):
    a, even, piv, s = lu(c)
    return dict(args=[s], ret=Mat(a.R, mn(a.R, a.C), lambda i, j: pite(lt(j, i), a.el(i, j), pite(ieq(i, j), ONE, ZERO))))


@dspec(LU, 'get_u')
def _(c, n):
    a, even, piv, s = lu(c)
    return dict(args=[s], ret=Mat(mn(a.R, a.C), a.C, lambda i, j: pite(le(i, j), a.el(i, j), ZERO)))


@dspec(LU, 'get_p')
def _(c, n):
    a, even, piv, s = lu(c)
    return dict(args=[s], ret=Mat(a.R, a.R, lambda i, j: pite(ieq(flat('piv', i, 'nat'), j), ONE, ZERO)))


@dspec(LU, 'get_piv')
def _(c, n):
    a, even, piv, s = lu(c)
    return dict(args=[s], ret=Deref(Vec(a.R, lambda k: flat('piv', k, 'nat'), 'nat')))


@dspec(LU, 'det')
def _(c, n):
    a, even, piv, s = lu(c)
    k = C.fresh()
    p = Prod(k, a.R, a.el(P(k), P(k)))
    return dict(args=[s], pre=ieq(a.R, a.C), ret=Sc(pite(even, p, -p)))


# ------------------------------------------------------------------ Cholesky
@dspec(CH, 'get_l')
def _(c, n):
    r = c.nat('l.R')
    a = c.mat('l', r, r)
    return dict(args=[c.ref(St(CH, {'l': a.v}), name='self')], ret=Deref(a.spec()))


# ------------------------------------------------------------------ QR
def qr(c):
    a = c.mat('qr')
    d = c.vec('rdiag', mn(a.R, a.C))
    return a, d, c.ref(St(QR, {'qr': a.v, 'rdiag': d}), name='self')


@dspec(QR, 'is_full_rank')
def _(c, n):
    a, d, s = qr(c)
    k = C.fresh()
    return dict(args=[s], ret=Sc(And(le(a.C, a.R), Forall(k, a.C, Not(teq(flat('rdiag', P(k)), ZERO))))))


@dspec(QR, 'get_h')
def _(c, n):
    a, d, s = qr(c)
    return dict(args=[s], ret=Mat(a.R, a.C, lambda i, j: pite(le(j, i), a.el(i, j), ZERO)))


@dspec(QR, 'get_r')
def _(c, n):
    a, d, s = qr(c)
    return dict(args=[s], ret=Mat(a.R, a.C, lambda i, j: pite(lt(i, j), a.el(i, j), pite(ieq(i, j), flat('rdiag', i), ZERO))))


# ------------------------------------------------------------------ SVD
def svd(c):
    m, n = c.nat('m'), c.nat('n')
    u, s, v = c.mat('u', m, m), c.mat('s', m, n), c.mat('v', n, n)
    return m, n, u, s, v, c.ref(St(SV, {'u': u.v, 's': s.v, 'v': v.v}), name='self')


@dspec(SV, 'get_u', 'get_s', 'get_v')
def _(c, n):
    m, k, u, s, v, me = svd(c)
    return dict(args=[me], ret=Deref({'u': u, 's': s, 'v': v}[n[-1]].spec()))


@dspec(SV, 'rank')
def _(c, n):
    m, k, u, s, v, me = svd(c)
    i = C.fresh()
    mx = pite(le(k, m), m, k)
    tol = P(atom('i2t', mx)) * s.el(ZERO, ZERO) * P(atom('powf', P(2), P(-52)))
    return dict(args=[me], ret=Sc(Cnt(i, mn(m, k), tlt(tol, s.el(P(i), P(i))))))


def wide(name):
    """a matrix with fewer rows than columns: the decomposition of the transpose, factors exchanged"""
    path = SV + '::' + name

    def build(c):
        a = c.mat('a')
        c.assume += [ge0(a.C - a.R - 1)]
        t = {n: M('t' + n, *d)[0] for n, d in (('u', (a.C, a.C)), ('s', (a.C, a.R)), ('v', (a.R, a.R)))}
        seen = []

        def rec(I, args, st, node):
            v = args[0]
            while isinstance(v, Ref):
                v = I.rplace(st, v)
            seen.append((v, st.path))
            return St(SV, dict(t))

        def post(ch, r, f):
            if len(seen) != 1:
                ch.ob('val', 'decomposes the transpose', 'und', '%d recursive calls' % len(seen))
                return
            ch.value('transpose that is decomposed', seen[0][0], Mat(a.C, a.R, lambda i, j: a.el(j, i)), f)
        return dict(args=[c.ref(a)], post=post, hooks=lambda cr: {('rec', find_fn(cr, path)['key']): rec},
                    ret=Fields(SV, u=Mat(a.R, a.R, lambda i, j: el('tv', i, a.R, j)), s=Mat(a.R, a.C, lambda i, j: el('ts', j, a.R, i)),
                               v=Mat(a.C, a.C, lambda i, j: el('tu', i, a.C, j))))
    SPECS[path + ' (wide)'] = (path, build, {})


wide('new')
wide('direct')


# ------------------------------------------------------------------ eigenvalues
def eig(c):
    n = c.nat('n')
    v = c.mat('v', n, n)
    d, e = c.vec('d', n), c.vec('e', n)
    c.assume += [ge0(n - 1)]
    # complex eigenvalues come in pairs: positive imaginary part first
    k, q = C.fresh(), C.fresh()
    c.assume += [Forall(k, n, Or(Not(tlt(ZERO, flat('e', P(k)))), ge0(n - 2 - P(k)))), Forall(q, n, Or(Not(tlt(flat('e', P(q)), ZERO)), ge0(P(q) - 1)))]
    return n, v, c.ref(St(EI, {'n': n, 'd': d, 'e': e, 'v': v.v}), name='self')


@dspec(EI, 'get_v', 'get_real_eigenvalues', 'get_imag_eigenvalues')
def _(c, n):
    k, v, me = eig(c)
    return dict(args=[me], ret=Deref(v.spec() if n == 'get_v' else Vec(k, lambda q: flat('d' if 'real' in n else 'e', q))))


@dspec(EI, 'get_d')
def _(c, n):
    k, v, me = eig(c)
    e = lambda i: flat('e', i)
    return dict(args=[me], ret=Mat(k, k, lambda i, j: pite(ieq(i, j), flat('d', i),
                                                              pite(And(ieq(j, i + 1), tlt(ZERO, e(i))), e(i),
                                                                   pite(And(ieq(i, j + 1), tlt(e(i), ZERO)), e(i), ZERO)))))


# ------------------------------------------------------------------ storage of the decompositions and solvers
def storage(path, build):
    """no contract of values (sa/decomp.py compares those): nothing uninitialised is read or returned, no step panics"""
    SPECS[path + ' (storage)'] = (path, build, {})


def given(f, pre=None, ret=None):
    """the decomposition f on its own arguments and one right-hand side"""
    def b(c):
        x = f(c)
        a, s = x[0], x[-1]
        m = c.mat('b')
        return dict(args=[s, c.ref(m)], pre=ieq(a.R, m.R) if pre is None else pre(a, m), ret=ret(a, m) if ret else Any())
    return b


def own(ret):
    def b(c):
        a = c.mat('a')
        return dict(args=[c.ref(a)], ret=ret(a))
    return b


def chol(c):
    r = c.nat('l.R')
    a = c.mat('l', r, r)
    return a, c.ref(St(CH, {'l': a.v}), name='self')


def qonly(c):
    a, d, s = qr(c)
    return dict(args=[s], ret=Mat(a.R, a.R, None))


storage(LU + '::new', own(lambda a: Fields(LU, lu=Mat(a.R, a.C, None), piv=Vec(a.R, lambda k: None, 'nat'))))
storage(LU + '::solve', given(lu, lambda a, b: And(ieq(a.R, a.C), ieq(a.R, b.R)), lambda a, b: Opt(None, Mat(a.C, b.C, None))))
storage(CH + '::new', own(lambda a: Opt(None, Fields(CH, l=Mat(a.R, a.R, None)))))
storage(CH + '::solve', given(chol, None, lambda a, b: Mat(a.R, b.C, None)))
storage(QR + '::new', own(lambda a: Fields(QR, qr=Mat(a.R, a.C, None), rdiag=Vec(mn(a.R, a.C), lambda k: None))))
storage(QR + '::get_q', qonly)
storage(QR + '::solve', given(qr, None, lambda a, b: Opt(None, Mat(a.C, b.C, None))))
