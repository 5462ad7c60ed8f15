"""The decompositions, the solvers and what Matrix builds on them, compared with the reference algorithms in ref/ by
value-graph bisimulation (sa/vg.py, sa/bisim.py)."""
import os, time, hashlib, shutil
from .sym import *
from .facts import Facts, walk
from .vals import *
from .interp import State, Dead
from .thir import Crate, span, normpath
from . import harness as H
from . import dump
from .spec import Ob, find_fn
from .models import approx
from .vg import VInterp
from .bisim import Bisim, Rename, states
from . import judge as J
from . import cycle
from . import cmp as CMP
from .whole import whole
from . import text as TX
from . import specs_matrix as SM

REF = os.path.join(dump.ROOT, 'ref')


def refdump():
    """THIR of the reference crate, cached under the digest of its sources"""
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REF, 'src'))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(os.path.join(dump.DRV, 'src', 'main.rs'), 'rb').read())
    out = os.path.join(dump.ROOT, 'build', 'ref-%s.json' % h.hexdigest()[:16])
    if not os.path.exists(out):
        paths, work = dump.dump(REF, crates='refla')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        shutil.copy(paths['refla'], tmp)
        os.replace(tmp, out)
        shutil.rmtree(work, ignore_errors=True)
    return out


HOOKS = {'refla::unspecified': lambda I, a, st, n: Arr(a[0], ('dirty',), (), 'T'),
         'refla::unspecified_index': lambda I, a, st, n: Arr(a[0], ('dirty',), (), 'nat')}


# ------------------------------------------------------------------ functions with a contract of their own are applied as such
def farr(R, C, el):
    """array of the R-by-C elements el(i, j)"""
    e = sym(('fe', 0), 'nat')
    E = P(e)
    return Arr(R * C, ('fn', e, el(P(atom('div', E, C)), P(atom('mod', E, C)))), (), 'T')


def rd(I, st, arr, ix):
    return I.aread(arr, ix, I.facts(st))


def f_id(I, st, m, n):
    return farr(m, n, lambda i, j: pite(ieq(i, j), ONE, ZERO))


def f_t(I, st, m, n, a):
    return farr(n, m, lambda i, j: rd(I, st, a, j * n + i))


def f_mul(I, st, m, n, p, a, b):
    k = sym(('fk', 0), 'nat')
    return farr(m, p, lambda i, j: Sum(k, n, rd(I, st, a, i * n + P(k)) * rd(I, st, b, P(k) * p + j)))


def f_zeros(I, st, m, n):
    return farr(m, n, lambda i, j: ZERO)


def f_beside(I, st, m, n, a, p, b):
    return farr(m, n + p, lambda i, j: pite(lt(j, n), rd(I, st, a, i * n + j), rd(I, st, b, i * p + j - n)))


def f_stack(I, st, m, n, a, p, b):
    return farr(m + p, n, lambda i, j: pite(lt(i, m), rd(I, st, a, i * n + j), rd(I, st, b, (i - m) * n + j)))


def f_diag(I, st, m, n, d):
    return farr(m, n, lambda i, j: pite(ieq(i, j), rd(I, st, d, i), ZERO))


def unite(p):
    """if x = y then p[x/y] else p  is  p"""
    a = p.single_atom()
    if a is not None and a.k == 'ite' and a.a[0].k == 'eq':
        mp = CMP.eqmap(Facts.of([a.a[0]]))
        if mp and subst(a.a[2], mp) is subst(a.a[1], mp):
            return unite(a.a[2])
    return p


def code_hooks(CB):
    """functions of Matrix whose contracts C08, C11 and C12 decide"""
    h = {}

    def reg(path, fn):
        f = find_fn(CB, path)
        if f is not None:
            h[f['key']] = fn

    def mk(rows, arr):
        return St('matrix::Matrix', {'no_rows': rows, 'data': arr})

    def wrap(f):
        def g(I, a, st, node):
            a = [deref(I, st, x) for x in a]
            r = f(I, st, *a)
            return r
        return g

    def dims_(I, st, v):
        R = v.f['no_rows']
        q = exact_div(unite(data(v).ln), R)
        if q is None:
            raise Undecided('shape of an operand')
        return R, q

    def t(I, st, v):
        m, n = dims_(I, st, v)
        return mk(n, f_t(I, st, m, n, data(v)))

    def mul(I, st, v, w):
        m, n = dims_(I, st, v)
        k, p = dims_(I, st, w)
        if n is not k:
            raise Undecided('shape of a product')
        return mk(m, f_mul(I, st, m, n, p, data(v), data(w)))
    def beside(I, st, v, w):
        m, n = dims_(I, st, v)
        k, p = dims_(I, st, w)
        if m is not k:
            raise Undecided('shape of a concatenation')
        return mk(m, f_beside(I, st, m, n, data(v), p, data(w)))

    def stack(I, st, v, w):
        m, n = dims_(I, st, v)
        p, k = dims_(I, st, w)
        if n is not k:
            raise Undecided('shape of a concatenation')
        return mk(m + p, f_stack(I, st, m, n, data(v), p, data(w)))
    reg(MP + 'cr', wrap(beside))
    reg(MP + 'cb', wrap(stack))
    reg(MP + 'zero', wrap(lambda I, st, m, n: mk(m, f_zeros(I, st, m, n))))
    reg(MP + 'id', wrap(lambda I, st, m, n: mk(m, f_id(I, st, m, n))))
    reg(MP + 't', wrap(t))
    reg(MP + 'block_diag', wrap(lambda I, st, m, n, d: mk(m, f_diag(I, st, m, n, d))))

    def flat(v, el):
        e = sym(('fe', 0), 'nat')
        d = data(v)
        return mk(v.f['no_rows'], Arr(d.ln, ('fn', e, el(P(e))), (), 'T'))

    def scalar(x):
        if not isinstance(x, Poly):
            raise Undecided('value of a callback')
        return x

    def each(op):
        def g(I, st, v, w):
            if dims_(I, st, v) != dims_(I, st, w):
                raise Undecided('shape of an element-wise operation')
            return flat(v, lambda e: op(rd(I, st, data(v), e), rd(I, st, data(w), e)))
        return wrap(g)

    def mapped(I, a, st, node):
        v = deref(I, st, a[0])
        return flat(v, lambda e: scalar(I.apply(a[1], [rd(I, st, data(v), e)], st, node)))
    reg(MP + 'map', mapped)
    reg(MP + 'scale', wrap(lambda I, st, v, f: flat(v, lambda e: f * rd(I, st, data(v), e))))
    reg(MP + 'elem_mul', each(lambda x, y: x * y))
    reg(MP + 'elem_div', each(lambda x, y: x * inv(y)))
    reg(MP + 'diag', wrap(lambda I, st, d: mk(d.ln, f_diag(I, st, d.ln, d.ln, d))))
    for t, k in (('Add', each(lambda x, y: x + y)), ('Sub', each(lambda x, y: x - y)), ('Neg', wrap(lambda I, st, v: flat(v, lambda e: -rd(I, st, data(v), e))))):
        for n in SM.OPNAMES[t]:
            f = SM.SPECS[n][2]['find'](CB)
            if f is not None:
                h[f['key']] = k
    for f in CB.fns.values():
        if normpath(f['path']).endswith('Mul::mul') or f['path'].endswith('::mul') and 'Mul' in f['path']:
            h[f['key']] = wrap(mul)
    return h


def ref_hooks():
    def w(f):
        return lambda I, a, st, n: f(I, st, *[deref(I, st, x) for x in a])
    return {**HOOKS, 'refla::linear::identity': w(lambda I, st, n: f_id(I, st, n, n)), 'refla::linear::transpose': w(f_t),
            'refla::linear::product': w(f_mul), 'refla::linear::diagonal': w(f_diag),
            'refla::text::opens': lambda I, a, st, n: TX.app('opens', ret='bool'), 'refla::text::lines': lambda I, a, st, n: TX.LINES,
            'refla::text::readable': w(lambda I, st, i: TX.app('readable', i, ret='bool')),
            'refla::text::fields': w(lambda I, st, i: TX.fields(TX.line(i), ',')),
            'refla::text::value': w(lambda I, st, i, j: TX.app('parser', TX.trimmed(TX.field(TX.line(i), ',', j)))),
            'refla::plain::near': w(lambda I, st, a, b: approx(a, b)),
            'refla::linear::zeros': w(f_zeros), 'refla::linear::beside': w(f_beside), 'refla::linear::stack': w(f_stack)}


def deref(I, st, v):
    while isinstance(v, Ref):
        v = I.rplace(st, v)
    return v


# ------------------------------------------------------------------ jobs
JOBS = {}


def job(name, ref, code, sets=('generic',)):
    def d(fn):
        JOBS[name] = dict(name=name, ref=ref, code=code, build=fn, sets=sets)
        return fn
    return d


def mat(name, R=None, C=None):
    v, a, R, C = H.M(name, R, C)
    return v, a, R, C


def dims(*names):
    return [psym(n, 'nat') for n in names]


LU, CH, QR, SV, EI = ('decomp::lu::LUDecomposition', 'decomp::cholesky::CholeskyDecomposition', 'decomp::qr::QRDecomposition',
                      'decomp::svd::SVD', 'decomp::eigen::EigenDecomposition')
MP = 'matrix::Matrix::'


def data(v):
    return v.f['data']


def P_matrix(ra, rb, st, path):
    return [('rows', ra.f['0'], rb.f['no_rows'], []), ('elements', ra.f['2'], data(rb), []), ('length', ra.f['0'] * ra.f['1'], data(rb).ln, [])]


def some(v):
    c = [c for c in v.cases if c[1].split('::')[-1] == 'Some']
    return c[0][0], list(c[0][2].values())[0]


def P_opt(inner):
    def f(ra, rb, st, path):
        ga, xa = some(ra)
        gb, xb = some(rb)
        return [('result is Some', ga, gb, [])] + [(w, x, y, cs + [gb]) for w, x, y, cs in inner(xa, xb, st, path)]
    return f


def P_scalar(ra, rb, st, path):
    return [('result', ra, rb, [])]


@job('lu', 'linear::lu', LU + '::new')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_, pairs=lambda ra, rb, st, p: [
        ('lu', ra.f['0'], data(rb.f['lu']), []), ('lu rows', R, rb.f['lu'].f['no_rows'], []),
        ('pospivsign', ra.f['1'], rb.f['pospivsign'], []), ('piv', ra.f['2'], rb.f['piv'], [])])


@job('cholesky', 'linear::cholesky', CH + '::new')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_, symmetric=(data(a).base[1], C), pairs=P_opt(lambda x, y, st, p: [
        ('l', x, data(y.f['l']), []), ('l rows', R, y.f['l'].f['no_rows'], [])]))


@job('qr', 'linear::qr', QR + '::new')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_, pairs=lambda ra, rb, st, p: [
        ('qr', ra.f['0'], data(rb.f['qr']), []), ('qr rows', R, rb.f['qr'].f['no_rows'], []), ('rdiag', ra.f['1'], rb.f['rdiag'], [])])


@job('svd', 'singular::svd', SV + '::new')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_ + [ge0(R - C)], pairs=lambda ra, rb, st, p: [
        ('u', ra.f['0'], data(rb.f['u']), []), ('s', ra.f['1'], data(rb.f['s']), []), ('v', ra.f['2'], data(rb.f['v']), []),
        ('u rows', R, rb.f['u'].f['no_rows'], []), ('s rows', R, rb.f['s'].f['no_rows'], []), ('v rows', C, rb.f['v'].f['no_rows'], [])])


@job('svd_direct', 'singular::direct', SV + '::direct')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_ + [ge0(R - C)], pairs=lambda ra, rb, st, p: [
        ('u', ra.f['0'], data(rb.f['u']), []), ('s', ra.f['1'], data(rb.f['s']), []), ('v', ra.f['2'], data(rb.f['v']), []),
        ('u rows', R, rb.f['u'].f['no_rows'], []), ('s rows', R, rb.f['s'].f['no_rows'], []), ('v rows', C, rb.f['v'].f['no_rows'], [])])


@job('eigen', 'spectral::eigen', EI + '::new', ('accept', 'square'))
def _(s):
    a, as_, R, C = mat('a', None, psym('a.R', 'nat') if s == 'square' else None)
    return dict(ref=[R, C, data(a)], code=[a], assume=as_, symmetric=(data(a).base[1], C), pairs=lambda ra, rb, st, p: [
        ('d', ra.f['0'], rb.f['d'], []), ('e', ra.f['1'], rb.f['e'], []), ('v', ra.f['2'], data(rb.f['v']), []),
        ('v rows', R, rb.f['v'].f['no_rows'], [])])


def lustruct(R, C):
    a, as_, R, C = mat('lu', R, C)
    piv = H.V('piv', R, 'nat')
    return a, as_, piv, St(LU, {'lu': a, 'pospivsign': batom(sym('even', 'bool')), 'piv': piv})


@job('lu_solve', 'linear::lu_solve', LU + '::solve', ('accept', 'square'))
def _(s):
    n = psym('n', 'nat')
    R, C = (n, n) if s == 'square' else (None, None)
    a, as_, R, C = mat('lu', R, C)
    b, bs, K, Q = mat('b', R if s == 'square' else None)
    piv = H.V('piv', R, 'nat')
    k = sym(('pk', 0), 'nat')
    return dict(ref=[R, C, data(a), piv, K, Q, data(b)], code=[St(LU, {'lu': a, 'pospivsign': batom(sym('even', 'bool')), 'piv': piv}), b],
                assume=as_ + bs + [Forall(k, R, le(P(atom('el', piv.base[1], P(k))) + 1, R))], pairs=P_opt(P_matrix))


@job('chol_solve', 'linear::cholesky_solve', CH + '::solve', ('accept', 'square'))
def _(s):
    n = psym('n', 'nat')
    a, as_, R, C = mat('l', n, n)
    b, bs, K, Q = mat('b', n if s == 'square' else None)
    return dict(ref=[R, data(a), K, Q, data(b)], code=[St(CH, {'l': a}), b], assume=as_ + bs, pairs=P_matrix)


def qrstruct():
    a, as_, R, C = mat('qr')
    return a, as_, R, C, H.V('rdiag', pite(le(R, C), R, C))


@job('qr_q', 'linear::qr_q', QR + '::get_q')
def _(s):
    a, as_, R, C, d = qrstruct()
    return dict(ref=[R, C, data(a), d], code=[St(QR, {'qr': a, 'rdiag': d})], assume=as_, pairs=P_matrix)


@job('qr_solve', 'linear::qr_solve', QR + '::solve', ('accept', 'matching'))
def _(s):
    a, as_, R, C, d = qrstruct()
    b, bs, K, Q = mat('b', R if s == 'matching' else None)
    return dict(ref=[R, C, data(a), d, K, Q, data(b)], code=[St(QR, {'qr': a, 'rdiag': d}), b], assume=as_ + bs, pairs=P_opt(P_matrix), sane=[ge0(R - C)])


def onmat(name, ref, code, pairs, sets=('accept', 'square'), rhs=False, sane=None):
    @job(name, ref, code, sets)
    def _(s):
        n = psym('n', 'nat')
        a, as_, R, C = mat('a', *((n, n) if s == 'square' else (None, None)))
        x, y = [R, C, data(a)], [a]
        if rhs:
            b, bs, K, Q = mat('b', n if s == 'square' else None)
            as_ = as_ + bs
            x += [K, Q, data(b)]
            y += [b]
        return dict(ref=x, code=y, assume=as_, pairs=pairs, sane=sane(R, C) if sane else ())


onmat('det', 'linear::det', MP + 'det', P_scalar)
onmat('is_non_singular', 'linear::is_regular', MP + 'is_non_singular', P_scalar)
onmat('is_singular', 'linear::is_singular', MP + 'is_singular', P_scalar)
onmat('inverse', 'linear::inverse', MP + 'inverse', P_opt(P_matrix))
onmat('solve', 'linear::solve', MP + 'solve', P_opt(P_matrix), rhs=True)
onmat('pinverse', 'linear::pinverse', MP + 'pinverse', P_matrix, sets=('generic',), sane=lambda R, C: [ge0(R - C)])


@job('mt', 'linear::transpose_cycles', MP + 'mt')
def _(s):
    a, as_, R, C = mat('a')
    return dict(ref=[R, C, data(a)], code=[a], assume=as_, pairs=lambda ra, rb, st, p: [
        ('rows', ra.f['0'], st.store[('arg', 0)].f['no_rows'], []), ('elements', ra.f['1'], data(st.store[('arg', 0)]), [])])


JOBS['mt']['refine'] = cycle.refine


@job('read_csv', 'text::read_csv', 'util::read_csv', ('accept', 'generic'))
def _(s):
    k = sym(('pk', 0), 'nat')
    return dict(ref=[], code=[Opq('name'), FnParam('parser', 'T')], assume=[Forall(k, TX.LINES, ge0(TX.fields(TX.line(P(k)), ',') - 1))], pairs=lambda ra, rb, st, p: [(w, x, y, cs + [p]) for w, x, y, cs in P_matrix(ra, rb, st, p)[:2]])


# ------------------------------------------------------------------ running
def call(I, fn, args, byval=()):
    st = State()
    aa = []
    for k, a in enumerate(args):
        if isinstance(a, (Arr, St)) and k not in byval:
            st.store[('arg', k)] = a
            aa.append(Ref(('arg', k), (), False))
        else:
            aa.append(a)
    try:
        r = I.call_fn(fn, aa, st, None)
        return st, r, And(*st.path)
    except Dead:
        return st, None, FALSE


def run(CA, CB, name, variant, accum=True):
    j = JOBS[name]
    fa = CA.fns['refla::' + j['ref']]
    fb = j['find'](CB) if j.get('find') else find_fn(CB, j['code'])
    if fb is None:
        return None
    d = j['build'](variant)
    IA = VInterp(CA, d['assume'], ref_hooks(), base=10 ** 6)
    IA.leafpref = 'r'
    IA.accum = accum
    sa, ra, pa = call(IA, fa, d['ref'])
    IB = VInterp(CB, d['assume'], j['hooks'] if 'hooks' in j else code_hooks(CB))
    IB.accum = accum
    sb, rb, pb = call(IB, fb, d['code'], d.get('byval', ()))
    pairs = [('accepts its arguments', pa, pb, [])]
    if variant != 'accept' and ra is not None and rb is not None:
        pairs += d['pairs'](ra, rb, sb, pb)
    bs = Bisim(IA, IB, pairs, d['assume'])
    bs.fb = fb
    bs.lenient = variant != 'accept'
    bs.sane = d.get('sane', ())
    bs.symmetric = d.get('symmetric')
    bs.left = j.get('left', bs.left)
    bs.run()
    return bs


def run_job(CA, CB, name, fns=None, variants=None):
    """variants (all) of one comparison: obligations and information for the evidence.
    What does not go through with sums and the like in closed form is tried again on the plain recurrences."""
    t0 = time.time()
    j = JOBS[name]
    obs = []
    info = dict(fn=j['code'] + ' vs ' + j['ref'])
    loops = 0
    for v in variants or j['sets']:
        best = None
        for accum in (True, False):
            bs = run(CA, CB, name, v, accum)
            if bs is None:
                return [Ob(j['code'], 'anchor', j['code'], 'und', 'function not found')], dict(fn=j['code'], secs=0)
            os = J.judge(bs, j, v, fns)
            if best is None:
                info['where'] = span(bs.fb['body'])
                n = len(bs.al.order)
            r = rank(os)
            if best is None or r < best[0]:
                best = (r, os, bs)
            if r[0] == 0 or r[0] == 1 and any(o.st == 'viol' for o in best[1]):
                break
        if best[0][0] == 2 and v != 'accept':
            promote(best[1], best[2])
        obs += best[1]
        loops += n
    info['loops'] = loops
    info['secs'] = round(time.time() - t0, 2)
    return obs, info


def promote(os, bs):
    """a refuted step whose loop or variable has no clear counterpart counts where the results differ too"""
    bad = [o for o in os if o.st == 'und' and o.detail.startswith('refuted: ')]
    if bad and whole(bs, 900, 40.0, True, 3, 1e-5) == 'differ':
        for o in bad:
            o.st, o.detail = 'viol', o.detail.replace('refuted: ', 'differs from the reference algorithm: ')


def rank(os):
    """proved, violated, undecided"""
    n = sum(o.st == 'viol' for o in os)
    return (0 if all(o.st == 'ok' for o in os) else 1 if n else 2,)
