"""Models of the std / num / rand items the analysed crate may call (by normalised path)."""
from .sym import *
from .facts import Facts, max0, walk
from .vals import *
from .thir import normpath, span

MODELS = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class C:
    """call context"""
    __slots__ = ('I', 'c', 'args', 'st', 'node', 'fr', 'ret', 'path')

    def __init__(self, I, c, args, st, node, fr, ret, path):
        self.I, self.c, self.args, self.st, self.node, self.fr, self.ret, self.path = I, c, args, st, node, fr, ret, path

    def val(self, n):
        """argument n with references followed to a plain value"""
        v = self.args[n]
        for _ in range(6):
            if isinstance(v, Ref):
                v = self.I.rplace(self.st, v, self.node)
            elif isinstance(v, VIte) and (isinstance(v.a, (Ref, VIte)) or isinstance(v.b, (Ref, VIte))):
                v = self.I.deref(v, self.st, self.node)
            else:
                break
        return v

    def facts(self):
        return self.I.facts(self.st)

    def event(self, kind, goal, detail=''):
        return self.I.event(kind, self.node, goal, self.st, detail)

    def kind(self, n):
        """scalar kind of argument n's static type (references peeled)"""
        a = self.node.get('a') if isinstance(self.node, dict) else None
        if not a or n >= len(a) or len(a) != len(self.args):
            v = self.val(n)
            return 'bool' if isinstance(v, B) else None
        t = self.I.reslv(a[n]['ty'], self.fr)
        ti = a[n]['ty']
        while t['k'] == 'ref':
            ti = t['e']
            t = self.I.reslv(ti, self.fr)
        return self.I.tyk(ti, self.fr)


def norm_name(p):
    p = normpath(p)
    for a, b in (('core::', 'std::'), ('alloc::', 'std::'), ('num_traits::', 'num::'), ('num::traits::', 'num::'),
                 ('num::float::', 'num::'), ('num::sign::', 'num::'), ('num::identities::', 'num::'),
                 ('num::cast::', 'num::'), ('num::pow::', 'num::')):
        if p.startswith(a):
            p = b + p[len(a):]
    return p


def call(I, c, args, st, node, fr, ret_ti):
    path = norm_name(c['p'])
    x = C(I, c, args, st, node, fr, ret_ti, path)
    if path.startswith('std::panicking::') or path.startswith('std::rt::begin_panic') or path.startswith('std::process::') \
            or path in ('std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed',
                        'std::hint::unreachable_unchecked'):
        return panic(x)
    f = MODELS.get(path)
    if f is None:
        rp = c.get('rp')
        if rp:
            f = MODELS.get(norm_name(rp))
    if f is None:
        for pre, g in PREFIX:
            if path.startswith(pre):
                f = g
                break
    if f is None:
        last = path.split('::')[-1]
        t = path.rsplit('::', 1)[0]
        for pre in ('num::Float', 'std::f64', 'std::f32'):
            if t == pre and last in FLOATFN:
                f = FLOATFN[last]
                break
    if f is None:
        if not benign(path):
            I.note_unsupported('call of ' + path, node)
        clobber(x)
        return fresh(x, 'call of ' + path)
    return f(x)


def benign(path):
    return any(path.startswith(p) for p in ('std::fmt', 'std::io', 'std::fs', 'std::path', 'std::str', 'std::string',
                                            'std::hint::must_use', 'std::env', 'std::time'))


def clobber(x):
    """an unmodelled callee may change everything it gets by &mut"""
    for n, a in enumerate(x.args):
        if isinstance(a, Ref) and a.mut:
            old = x.I.rplace(x.st, a)
            if isinstance(old, (Poly, B, St, Arr, En)):
                x.I.wr(a, Opq('changed by ' + x.path), x.st)


def fresh(x, why):
    if x.ret is not None:
        k = x.I.tyk(x.ret, x.fr)
        if k in ('nat', 'int', 'T'):
            return unk(why, x.node.get('_id'))
        if k == 'bool':
            return batom(unk(why, x.node.get('_id')).single_atom())
    return Opq(why)


def panic(x):
    from .interp import Dead
    x.event('panic', FALSE, x.path)
    x.I.panics += 1
    raise Dead()


# ------------------------------------------------------------------ identity-like
def ident(x):
    return x.args[0]


for n in ('std::convert::From::from', 'std::convert::Into::into', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
          'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
          'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::vec::Vec::into_boxed_slice', 'std::slice::into_vec',
          'std::boxed::Box::new', 'std::hint::black_box', 'std::convert::identity', 'std::mem::ManuallyDrop::new',
          'std::boxed::box_new', 'std::slice::as_ref', 'std::slice::as_mut', 'std::intrinsics::write_box_via_move',
          'std::boxed::box_assume_init_into_vec_unsafe'):
    MODELS[n] = ident


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::to_vec', 'std::option::Option::cloned',
       'std::option::Option::copied', 'std::vec::Vec::from')
def m_clone(x):
    if x.path.startswith('std::option'):
        v = x.val(0)
        if isinstance(v, En):
            return En(v.n, [(g, n, {k: x.I.deref(f, x.st, x.node) for k, f in fs.items()}) for g, n, fs in v.cases])
        return v
    v = x.args[0]
    v = x.I.deref(v, x.st, x.node)
    if x.path.endswith('to_vec') or x.path.endswith('to_owned'):
        v = x.val(0)
    return v


@model('std::clone::Clone::clone_from')
def m_clone_from(x):
    x.I.wr(x.args[0], x.val(1), x.st)
    return UNIT


@model('std::mem::swap')
def m_swap(x):
    a, b = x.args
    va, vb = x.I.rd(a, x.st), x.I.rd(b, x.st)
    x.I.wr(a, vb, x.st)
    x.I.wr(b, va, x.st)
    return UNIT


@model('std::mem::replace')
def m_replace(x):
    v = x.I.rd(x.args[0], x.st)
    x.I.wr(x.args[0], x.args[1], x.st)
    return v


@model('std::mem::take')
def m_take(x):
    v = x.I.rd(x.args[0], x.st)
    if isinstance(v, Arr):
        n = Arr(ZERO, ('lst', ()), (), v.ek)
    elif isinstance(v, Poly):
        n = ZERO
    elif isinstance(v, B):
        n = FALSE
    elif isinstance(v, En) and v.n.endswith('Option'):
        n = En(v.n, [(TRUE, 'None', {})])
    else:
        n = Opq('default')
    x.I.wr(x.args[0], n, x.st)
    return v


@model('std::mem::drop', 'std::mem::forget', 'std::ops::Drop::drop')
def m_unit(x):
    return UNIT


# ------------------------------------------------------------------ numbers
@model('num::zero', 'num::Zero::zero', 'std::default::Default::default')
def m_zero(x):
    if x.path.startswith('std::default'):
        t = x.I.reslv(x.ret, x.fr) if x.ret is not None else {'k': '?'}
        if t['k'] == 'bool':
            return FALSE
        if t['k'] == 'adt' and t['n'].endswith('Vec'):
            return Arr(ZERO, ('lst', ()), (), x.I.elk(x.ret, x.fr))
        if t['k'] == 'adt':
            return Opq('default of ' + t['n'])
    return ZERO


@model('num::one', 'num::One::one')
def m_one(x):
    return ONE


@model('num::Zero::is_zero')
def m_is_zero(x):
    return eqv(x, x.val(0), ZERO, x.kind(0))


@model('num::One::is_one')
def m_is_one(x):
    return eqv(x, x.val(0), ONE, x.kind(0))


@model('num::Zero::set_zero')
def m_set_zero(x):
    x.I.wr(x.args[0], ZERO, x.st)
    return UNIT


@model('num::cast', 'num::NumCast::from', 'num::FromPrimitive::from_f64', 'num::FromPrimitive::from_f32', 'num::FromPrimitive::from_usize',
       'num::FromPrimitive::from_i32', 'num::FromPrimitive::from_u32', 'num::FromPrimitive::from_u64', 'num::FromPrimitive::from_i64',
       'num::ToPrimitive::to_f64', 'num::ToPrimitive::to_usize', 'num::ToPrimitive::to_f32')
def m_cast(x):
    v = x.val(0)
    k = x.kind(0)
    if isinstance(v, Poly) and k in ('nat', 'int'):
        v = i2t(v)
    elif isinstance(v, Poly) and x.path.endswith('to_usize'):
        v = P(atom('t2i', v))
    return En('std::option::Option', [(TRUE, 'Some', {'0': v})])


def T1(f):
    def g(x):
        v = x.val(0)
        if not isinstance(v, Poly):
            return fresh(x, x.path)
        return f(v)
    return g


def t_powi(v, n):
    c = n.const()
    if c is not None and isinstance(c, int) and 0 <= c <= 16:
        r = ONE
        for _ in range(c):
            r = r * v
        return r
    if c is not None and isinstance(c, int) and -16 <= c < 0:
        return inv(t_powi(v, P(-c)))
    return P(atom('powi', v, n))


def t_pow(x):
    v, n = x.val(0), x.val(1)
    if not isinstance(v, Poly) or not isinstance(n, Poly):
        return fresh(x, x.path)
    k = x.kind(1)
    if k in ('nat', 'int'):
        return t_powi(v, n)
    c = n.const()
    if c is not None and Fraction(c).denominator == 1 and 0 <= c <= 16 and v.const() is None:
        return t_powi(v, P(int(c)))
    if c == Fraction(1, 2):
        return tsqrt(v)
    return P(atom('powf', v, n))


def t_max(x):
    a, b = x.val(0), x.val(1)
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return fresh(x, x.path)
    if a is b:
        return a
    if x.kind(0) in ('nat', 'int'):
        return pite(le(a, b), b, a)
    return pite(tlt(a, b), b, a)


def t_min(x):
    a, b = x.val(0), x.val(1)
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return fresh(x, x.path)
    if a is b:
        return a
    if x.kind(0) in ('nat', 'int'):
        return pite(le(a, b), a, b)
    return pite(tlt(b, a), b, a)


def m_intminmax(mx):
    def g(x):
        a, b = x.val(0), x.val(1)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return fresh(x, x.path)
        k = x.kind(0)
        if k == 'T':
            return t_max(x) if mx else t_min(x)
        f = x.facts()
        c = le(a, b)
        d = f.decide(c)
        if d is True:
            return b if mx else a
        if d is False:
            return a if mx else b
        if f.decide(le(b, a)) is True:
            return a if mx else b
        return pite(c, b, a) if mx else pite(c, a, b)
    return g


MODELS['std::cmp::min'] = MODELS['std::cmp::Ord::min'] = m_intminmax(False)
MODELS['std::cmp::max'] = MODELS['std::cmp::Ord::max'] = m_intminmax(True)
MODELS['std::cmp::min_by'] = None
del MODELS['std::cmp::min_by']


def t_hypot(x):
    a, b = x.val(0), x.val(1)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return tsqrt(a * a + b * b)
    return fresh(x, x.path)


def t_muladd(x):
    a, b, c = x.val(0), x.val(1), x.val(2)
    if all(isinstance(v, Poly) for v in (a, b, c)):
        return a * b + c
    return fresh(x, x.path)


def uf(name):
    def g(x):
        vs = [x.val(n) for n in range(len(x.args))]
        if all(isinstance(v, Poly) for v in vs):
            return P(atom('app', sym(name, 'fn'), tuple(vs)))
        return fresh(x, x.path)
    return g


def ufb(name):
    def g(x):
        vs = [x.val(n) for n in range(len(x.args))]
        if all(isinstance(v, Poly) for v in vs):
            return batom(atom('app', sym(name, 'fn'), tuple(vs)))
        return fresh(x, x.path)
    return g


def t_abs(x):
    v = x.val(0)
    if not isinstance(v, Poly):
        return fresh(x, x.path)
    if x.kind(0) in ('nat', 'int'):
        return pite(ge0(v), v, -v)
    return tabs(v)


def t_absdiff(x):
    a, b = x.val(0), x.val(1)
    if x.kind(0) == 'nat':
        return pite(le(a, b), b - a, a - b)
    return tabs(a - b)


FLOATFN = {'sqrt': T1(tsqrt), 'abs': t_abs, 'powf': t_pow, 'powi': t_pow, 'max': t_max, 'min': t_min, 'hypot': t_hypot,
           'recip': T1(inv), 'mul_add': t_muladd, 'neg': T1(lambda v: -v),
           'is_nan': ufb('is_nan'), 'is_finite': ufb('is_finite'), 'is_infinite': ufb('is_infinite'), 'is_normal': ufb('is_normal'),
           'is_sign_negative': ufb('is_sign_negative'), 'is_sign_positive': ufb('is_sign_positive'),
           'signum': uf('signum'), 'exp': uf('exp'), 'ln': uf('ln'), 'floor': uf('floor'), 'ceil': uf('ceil'), 'round': uf('round'),
           'trunc': uf('trunc'), 'cbrt': uf('cbrt'), 'exp2': uf('exp2'), 'log2': uf('log2'), 'log10': uf('log10'), 'sin': uf('sin'),
           'cos': uf('cos'), 'tan': uf('tan'), 'atan2': uf('atan2'), 'copysign': uf('copysign'), 'fract': uf('fract'), 'clamp': uf('clamp')}
for n in ('epsilon', 'infinity', 'neg_infinity', 'nan', 'neg_zero', 'max_value', 'min_value', 'min_positive_value', 'approx_epsilon'):
    FLOATFN[n] = (lambda nm: lambda x: P(atom('app', sym('const ' + nm, 'fn'), ())))(n)
for n in ('num::abs', 'num::Signed::abs', 'std::f64::abs', 'std::f32::abs', 'std::num::abs'):
    MODELS[n] = t_abs
MODELS['num::signum'] = MODELS['num::Signed::signum'] = uf('signum')
MODELS['num::Signed::is_negative'] = lambda x: lessv(x, x.val(0), ZERO, x.kind(0))
MODELS['num::Signed::is_positive'] = lambda x: lessv(x, ZERO, x.val(0), x.kind(0))
MODELS['num::Signed::abs_sub'] = lambda x: pite(tle(x.val(0), x.val(1)), ZERO, x.val(0) - x.val(1))
MODELS['num::pow'] = t_pow
MODELS['num::Bounded::max_value'] = lambda x: P(atom('app', sym('const max_value', 'fn'), ()))
MODELS['num::Bounded::min_value'] = lambda x: P(atom('app', sym('const min_value', 'fn'), ()))


# integer helpers
def nat2(f):
    def g(x):
        a = [x.val(n) for n in range(len(x.args))]
        if not all(isinstance(v, Poly) for v in a):
            return fresh(x, x.path)
        return f(x, *a)
    return g


for w in ('usize', 'isize', 'u64', 'i64', 'u32', 'i32', 'num'):
    p = 'std::%s::' % w
    MODELS[p + 'wrapping_add'] = nat2(lambda x, a, b: a + b)
    MODELS[p + 'wrapping_mul'] = nat2(lambda x, a, b: a * b)
    MODELS[p + 'saturating_sub'] = nat2(lambda x, a, b: a - b if x.facts().prove(ge0(a - b)) else pite(ge0(a - b), a - b, ZERO))
    MODELS[p + 'saturating_add'] = nat2(lambda x, a, b: a + b)
    MODELS[p + 'saturating_mul'] = nat2(lambda x, a, b: a * b)
    MODELS[p + 'checked_sub'] = nat2(lambda x, a, b: opt(ge0(a - b), a - b))
    MODELS[p + 'checked_add'] = nat2(lambda x, a, b: opt(TRUE, a + b))
    MODELS[p + 'checked_mul'] = nat2(lambda x, a, b: opt(TRUE, a * b))
    MODELS[p + 'checked_div'] = nat2(lambda x, a, b: opt(ine(b, ZERO), x.I.idiv(a, b, x.st)))
    MODELS[p + 'checked_rem'] = nat2(lambda x, a, b: opt(ine(b, ZERO), x.I.imod(a, b, x.st)))
    MODELS[p + 'pow'] = nat2(lambda x, a, b: t_powi(a, b))
    MODELS[p + 'abs_diff'] = nat2(lambda x, a, b: pite(le(a, b), b - a, a - b))
    MODELS[p + 'min'] = MODELS['std::cmp::min']
    MODELS[p + 'max'] = MODELS['std::cmp::max']
    MODELS[p + 'abs'] = MODELS.get(p + 'abs', t_abs)
    MODELS[p + 'div_ceil'] = nat2(lambda x, a, b: x.I.idiv(a + b - 1, b, x.st))
    MODELS[p + 'rem_euclid'] = nat2(lambda x, a, b: x.I.imod(a, b, x.st))
    MODELS[p + 'wrapping_sub'] = nat2(lambda x, a, b: a - b)


def m_binop(op):
    def g(x):
        l, r = x.val(0), x.val(1)
        if isinstance(l, Poly) and isinstance(r, Poly):
            k = x.kind(0) or 'T'
            if k == 'T':
                return x.I.tbin(op, l, r, x.node, x.st)
            a = x.node.get('a')
            if a and len(a) == 2:
                ti = a[0]['ty']
                t = x.I.reslv(ti, x.fr)
                while t['k'] == 'ref':
                    ti = t['e']
                    t = x.I.reslv(ti, x.fr)
                return x.I.binop(op, l, r, x.node, x.st, x.fr, ti)
        if isinstance(l, Opq) or isinstance(r, Opq):
            return fresh(x, 'operator on opaque')
        return fresh(x, 'operator ' + op)
    return g


for op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
    MODELS['std::ops::%s::%s' % (op, op.lower())] = m_binop(op)

    def m_opassign(x, op=op):
        l, r = x.val(0), x.val(1)
        if isinstance(l, Poly) and isinstance(r, Poly):
            v = m_binop(op)(C(x.I, x.c, [l, r], x.st, x.node, x.fr, x.ret, x.path)) if True else None
            x.I.wr(x.I.ref_to_arr(x.args[0], x.st), v, x.st)
            return UNIT
        x.I.wr(x.args[0], fresh(x, 'op-assign'), x.st)
        return UNIT
    MODELS['std::ops::%sAssign::%s_assign' % (op, op.lower())] = m_opassign


@model('std::ops::Neg::neg')
def m_neg(x):
    v = x.val(0)
    return -v if isinstance(v, Poly) else fresh(x, 'neg')


@model('std::ops::Not::not')
def m_not(x):
    v = x.val(0)
    return Not(v) if isinstance(v, B) else fresh(x, 'not')


# ------------------------------------------------------------------ comparisons
def eqv(x, a, b, k=None):
    """structural equality as a boolean"""
    I = x.I
    for _ in range(4):
        if isinstance(a, Ref):
            a = I.rplace(x.st, a, x.node)
        if isinstance(b, Ref):
            b = I.rplace(x.st, b, x.node)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if k is None:
            k = 'T' if is_telem(a) or is_telem(b) else 'nat'
        return ieq(a, b) if k in ('nat', 'int') else teq(a, b)
    if isinstance(a, B) and isinstance(b, B):
        return Iff(a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        v = sym(('eqi', x.node.get('_id')), 'nat')
        f = x.facts().plus(ge0(a.ln - 1 - P(v)), ge0(b.ln - 1 - P(v)))
        return And(ieq(a.ln, b.ln), Forall(v, a.ln, eqv(x, I.aread(a, P(v), f), I.aread(b, P(v), f),
                                                      'nat' if a.ek == 'nat' else 'T' if a.ek == 'T' else None)))
    if isinstance(a, St) and isinstance(b, St) and a.f.keys() == b.f.keys():
        out = TRUE
        for kk in a.f:
            out = And(out, eqv(x, a.f[kk], b.f[kk], fieldkind(I, a.n, kk)))
        return out
    if isinstance(a, En) and isinstance(b, En):
        out = FALSE
        for g, n, f in a.cases:
            for g2, n2, f2 in b.cases:
                if n == n2:
                    c = And(g, g2)
                    for kk in f:
                        c = And(c, eqv(x, f[kk], f2.get(kk, Opq('?')), None))
                    out = Or(out, c)
        return out
    return batom(unk('equality of %s' % type(a).__name__, x.node.get('_id')).single_atom())


def fieldkind(I, sname, field):
    s = I.cr.structs.get(sname)
    if s:
        for f in s['f']:
            if f['n'] == field:
                return I.tyk(f['ty'], None)
    return None


def is_telem(p):
    hit = [False]
    for m in p.t:
        for a, e in m:
            if a.k in ('sqrt', 'abs', 'pq', 'i2t', 'powf') or e < 0:
                return True
            if a.k == 'el' and a.a[0].k == 'sym' and a.a[0].a[1] != 'natarr':
                return True
            if a.k == 'sym' and a.a[1] == 'T':
                return True
            if a.k in ('lread', 'sum', 'opqel'):
                return True
    return False


def lessv(x, a, b, k):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return lt(a, b) if k in ('nat', 'int') else tlt(a, b)
    return batom(unk('comparison', x.node.get('_id')).single_atom())


def leqv(x, a, b, k):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return le(a, b) if k in ('nat', 'int') else tle(a, b)
    return batom(unk('comparison', x.node.get('_id')).single_atom())


def kindof2(x):
    return x.kind(0) or x.kind(1)


MODELS['std::cmp::PartialEq::eq'] = lambda x: eqv(x, x.val(0), x.val(1), kindof2(x))
MODELS['std::cmp::PartialEq::ne'] = lambda x: Not(eqv(x, x.val(0), x.val(1), kindof2(x)))
MODELS['std::cmp::PartialOrd::lt'] = lambda x: lessv(x, x.val(0), x.val(1), kindof2(x))
MODELS['std::cmp::PartialOrd::gt'] = lambda x: lessv(x, x.val(1), x.val(0), kindof2(x))
MODELS['std::cmp::PartialOrd::le'] = lambda x: leqv(x, x.val(0), x.val(1), kindof2(x))
MODELS['std::cmp::PartialOrd::ge'] = lambda x: leqv(x, x.val(1), x.val(0), kindof2(x))


def m_cmp(partial):
    def g(x):
        a, b = x.val(0), x.val(1)
        k = kindof2(x)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return Opq('cmp')
        if k in ('nat', 'int'):
            o = En('std::cmp::Ordering', [(lt(a, b), 'Less', {}), (ieq(a, b), 'Equal', {}), (lt(b, a), 'Greater', {})])
            if not partial:
                return o
            return En('std::option::Option', [(TRUE, 'Some', {'0': o})])
        # floats: incomparable when none of the three holds
        l, e, g2 = tlt(a, b), teq(a, b), tlt(b, a)
        o = En('std::cmp::Ordering', [(l, 'Less', {}), (And(Not(l), e), 'Equal', {}), (And(Not(l), Not(e), g2), 'Greater', {})])
        any_ = Or(l, e, g2)
        if not partial:
            return o
        return En('std::option::Option', [(any_, 'Some', {'0': o}), (Not(any_), 'None', {})])
    return g


MODELS['std::cmp::PartialOrd::partial_cmp'] = m_cmp(True)
MODELS['std::cmp::Ord::cmp'] = m_cmp(False)


def approx_eq(x):
    a, b = x.val(0), x.val(1)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return approx(a, b)
    return batom(unk('approx_eq').single_atom())


def approx(a, b):
    """symmetric element predicate of the ApproxEq trait (both impls test |a - b| < eps)"""
    if a.id > b.id:
        a, b = b, a
    return batom(atom('app', sym('approx_eq', 'fn'), (a, b)))


MODELS['approxeq::ApproxEq::approx_eq'] = approx_eq


@model('approxeq::ApproxEq::approx_eq_eps')
def m_approx_eps(x):
    a, b, e = x.val(0), x.val(1), x.val(2)
    if all(isinstance(v, Poly) for v in (a, b, e)):
        return tlt(tabs(a - b), e)
    return batom(unk('approx_eq_eps').single_atom())


# ------------------------------------------------------------------ Option / Result
def opt(g, v):
    cs = [(g, 'Some', {'0': v}), (Not(g), 'None', {})]
    return En('std::option::Option', [c for c in cs if c[0] is not FALSE])


def split_en(v, good):
    """(guard of the good variant, payload)"""
    g = FALSE
    pay = None
    for gg, n, f in v.cases:
        if n == good:
            g = Or(g, gg)
            p = f.get('0', UNIT)
            pay = p if pay is None else merge(gg, p, pay)
    return g, pay


def unwrap(x, v, good, what):
    from .interp import Dead
    if isinstance(v, VIte):
        return x.I.fork(x.st, v.c, lambda s: unwrap(C(x.I, x.c, x.args, s, x.node, x.fr, x.ret, x.path), v.a, good, what),
                        lambda s: unwrap(C(x.I, x.c, x.args, s, x.node, x.fr, x.ret, x.path), v.b, good, what))
    if not isinstance(v, En):
        return fresh(x, what + ' of opaque')
    g, pay = split_en(v, good)
    x.event('unwrap', g, what)
    if g is FALSE:
        raise Dead()
    x.st.assume(g)
    return pay


for ty, good in (('option::Option', 'Some'), ('result::Result', 'Ok')):
    for nm in ('unwrap', 'expect', 'unwrap_unchecked'):
        MODELS['std::%s::%s' % (ty, nm)] = (lambda gd, nm: lambda x: unwrap(x, x.val(0), gd, nm))(good, nm)


@model('std::option::Option::is_some', 'std::result::Result::is_ok')
def m_is_some(x):
    v = x.val(0)
    if isinstance(v, En):
        return split_en(v, 'Some' if 'Option' in x.path else 'Ok')[0]
    return fresh(x, 'is_some of opaque')


@model('std::option::Option::is_none', 'std::result::Result::is_err')
def m_is_none(x):
    v = x.val(0)
    if isinstance(v, En):
        return Not(split_en(v, 'Some' if 'Option' in x.path else 'Ok')[0])
    return fresh(x, 'is_none of opaque')


@model('std::option::Option::unwrap_or', 'std::option::Option::unwrap_or_else', 'std::option::Option::unwrap_or_default')
def m_unwrap_or(x):
    v = x.val(0)
    if not isinstance(v, En):
        return fresh(x, 'unwrap_or of opaque')
    g, pay = split_en(v, 'Some')

    def els(s):
        if x.path.endswith('unwrap_or'):
            return x.args[1]
        if x.path.endswith('default'):
            return ZERO
        return x.I.apply(x.args[1], [], s, x.node, x.ret, x.fr)
    return x.I.fork(x.st, g, lambda s: pay, els)


@model('std::option::Option::map', 'std::option::Option::and_then', 'std::result::Result::map')
def m_opt_map(x):
    v = x.val(0)
    if not isinstance(v, En):
        return Opq('map of opaque')
    good = 'Some' if 'Option' in x.path else 'Ok'
    g, pay = split_en(v, good)

    def thn(s):
        r = x.I.apply(x.args[1], [pay], s, x.node, None, x.fr)
        return r if x.path.endswith('and_then') else En(v.n, [(TRUE, good, {'0': r})])

    def els(s):
        return En(v.n, [(TRUE, 'None', {})] if good == 'Some' else [(c, n, f) for c, n, f in v.cases if n != good])
    return x.I.fork(x.st, g, thn, els)


@model('std::option::Option::map_or')
def m_opt_map_or(x):
    v = x.val(0)
    if not isinstance(v, En):
        return fresh(x, 'map_or of opaque')
    g, pay = split_en(v, 'Some')
    return x.I.fork(x.st, g, lambda s: x.I.apply(x.args[2], [pay], s, x.node, x.ret, x.fr), lambda s: x.args[1])


@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::option::Option::as_deref')
def m_opt_asref(x):
    return x.val(0)


@model('std::option::Option::take')
def m_opt_take(x):
    v = x.I.rd(x.args[0], x.st)
    x.I.wr(x.args[0], En('std::option::Option', [(TRUE, 'None', {})]), x.st)
    return v


@model('std::option::Option::filter')
def m_opt_filter(x):
    v = x.val(0)
    if not isinstance(v, En):
        return Opq('filter of opaque')
    g, pay = split_en(v, 'Some')
    r = x.I.temp(x.st, pay, x.fr, ('of', x.node['_id']))
    c = x.I.fork(x.st, g, lambda s: x.I.asB(x.I.apply(x.args[1], [r], s, x.node, None, x.fr), x.node), lambda s: FALSE)
    return opt(And(g, c), pay)


@model('std::option::Option::ok_or', 'std::result::Result::ok')
def m_opt_okor(x):
    v = x.val(0)
    if not isinstance(v, En):
        return Opq('ok of opaque')
    if x.path.endswith('ok_or'):
        g, pay = split_en(v, 'Some')
        return En('std::result::Result', [(g, 'Ok', {'0': pay}), (Not(g), 'Err', {'0': x.args[1]})])
    g, pay = split_en(v, 'Ok')
    return opt(g, pay)


@model('std::bool::then', 'std::bool::then_some')
def m_then(x):
    c = x.I.asB(x.val(0), x.node)
    if x.path.endswith('then_some'):
        return opt(c, x.args[1])
    none = En('std::option::Option', [(TRUE, 'None', {})])
    return x.I.fork(x.st, c, lambda s: opt(TRUE, x.I.apply(x.args[1], [], s, x.node, None, x.fr)), lambda s: none)


@model('std::ops::Try::branch')
def m_branch(x):
    v = x.val(0)
    if not isinstance(v, En):
        return Opq('? on opaque')
    good = 'Some' if v.n.endswith('Option') else 'Ok'
    cs = []
    for g, n, f in v.cases:
        if n == good:
            cs.append((g, 'Continue', {'0': f.get('0', UNIT)}))
        else:
            cs.append((g, 'Break', {'0': En(v.n, [(TRUE, n, f)])}))
    return En('std::ops::ControlFlow', cs)


@model('std::ops::FromResidual::from_residual')
def m_residual(x):
    return x.args[0]


# ------------------------------------------------------------------ Vec and slices
def arr_at(x, n=0):
    """(place reference of the array, array value)"""
    r = x.I.ref_to_arr(x.args[n], x.st)
    v = x.I.rd(r, x.st) if isinstance(r, (Ref, VIte)) else r
    return r, v


def need(x, v):
    return isinstance(v, Arr)


@model('std::vec::Vec::len', 'std::slice::len', 'std::iter::ExactSizeIterator::len')
def m_len(x):
    v = x.val(0)
    if isinstance(v, It):
        return v.ln if v.ln is not None else fresh(x, 'len')
    if isinstance(v, (Arr, VIte)):
        return x.I.length(v)
    return fresh(x, 'len of opaque')


@model('std::vec::Vec::is_empty', 'std::slice::is_empty')
def m_is_empty(x):
    v = x.val(0)
    if isinstance(v, (Arr, VIte)):
        return ieq(x.I.length(v), ZERO)
    return fresh(x, 'is_empty of opaque')


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def m_vec_new(x):
    c = x.path.endswith('capacity')
    return Arr(ZERO, ('dirty',) if c else ('lst', ()), (), x.I.elk(x.ret, x.fr) if x.ret is not None else 'T', x.args[0] if c and isinstance(x.args[0], Poly) else None)


@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve_exact')
def m_reserve(x):
    return UNIT


@model('std::vec::Vec::capacity')
def m_capacity(x):
    return fresh(x, 'capacity')


@model('std::vec::Vec::set_len')
def m_set_len(x):
    r, v = arr_at(x)
    n = x.args[1]
    if not isinstance(v, Arr):
        return UNIT
    if isinstance(n, Poly):
        x.I.event('ub', x.node, Or(ge0(v.ln - n), ge0(v.cap - n) if v.cap is not None else batom(atom('unk', 'capacity'))), x.st, 'length %s set' % n)
    base = v.base
    if base[0] == 'lst':
        # growing past the initialised prefix exposes uninitialised memory
        ls = []
        for k, y in enumerate(base[1]):
            ls.append(Layer((), TRUE, P(k), y))
        v = Arr(v.ln, ('dirty',), tuple(ls) + v.layers, v.ek)
    x.I.wr(r, Arr(n, v.base, v.layers, v.ek), x.st)
    return UNIT


@model('std::vec::from_elem')
def m_from_elem(x):
    v, n = x.args
    return Arr(n, ('const', v), (), x.I.elk(x.ret, x.fr) if x.ret is not None else 'T')


def push(I, st, r, v, val, node):
    if v.base[0] == 'lst' and not v.layers and v.ln is P(len(v.base[1])) and v.ln.const() is not None and v.ln.const() < 64:
        I.wr(r, Arr(v.ln + 1, ('lst', v.base[1] + (val,)), (), v.ek), st)
        return
    a = I.awrite(v, v.ln, val, st)
    I.wr(r, Arr(v.ln + 1, a.base, a.layers, a.ek), st)


@model('std::vec::Vec::push')
def m_push(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr):
        x.I.wr(r, Opq('push on opaque'), x.st)
        return UNIT
    push(x.I, x.st, r, v, x.args[1], x.node)
    return UNIT


@model('std::vec::Vec::pop')
def m_pop(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr):
        return Opq('pop')
    g = ge0(v.ln - 1)

    def thn(s):
        val = x.I.aread(v, v.ln - 1, x.I.facts(s))
        x.I.wr(r, Arr(v.ln - 1, v.base, v.layers, v.ek), s)
        return opt(TRUE, val)
    return x.I.fork(x.st, g, thn, lambda s: En('std::option::Option', [(TRUE, 'None', {})]))


@model('std::vec::Vec::truncate')
def m_truncate(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr):
        return UNIT
    n = x.args[1]
    d = x.facts().decide(le(n, v.ln))
    ln = n if d is True else v.ln if d is False else pite(le(n, v.ln), n, v.ln)
    x.I.wr(r, Arr(ln, v.base, v.layers, v.ek), x.st)
    return UNIT


@model('std::vec::Vec::clear')
def m_clear(x):
    r, v = arr_at(x)
    if isinstance(v, Arr):
        x.I.wr(r, Arr(ZERO, ('lst', ()), (), v.ek), x.st)
    return UNIT


def fill_region(I, st, v, lo, n, valf):
    """array v with cells [lo, lo+n) replaced by valf(k)"""
    nm = ('$fr', len(v.layers), I.fresh())
    k = atom('sym', nm, 'nat')
    return Arr(v.ln, v.base, v.layers + (Layer(((k, n),), TRUE, lo + P(k), valf(P(k), I.facts(st).plus(ge0(n - 1 - P(k))))),), v.ek)


@model('std::vec::Vec::resize')
def m_resize(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr):
        return UNIT
    n = x.args[1]
    ext = max0(n - v.ln)
    if x.facts().prove(ge0(n - v.ln)):
        ext = n - v.ln
    elif x.facts().prove(ge0(v.ln - n)):
        ext = ZERO
    w = fill_region(x.I, x.st, v, v.ln, ext, lambda k, f: x.args[2]) if ext is not ZERO else v
    x.I.wr(r, Arr(n, w.base, w.layers, w.ek), x.st)
    return UNIT


@model('std::slice::swap')
def m_slice_swap(x):
    r, v = arr_at(x)
    a, b = x.args[1], x.args[2]
    if not isinstance(v, Arr):
        return UNIT
    x.event('bounds', And(ge0(a), ge0(v.ln - 1 - a), ge0(b), ge0(v.ln - 1 - b)), 'swap %s, %s in len %s' % (a, b, v.ln))
    ra, rb = x.I.addproj(r, ('i', a)), x.I.addproj(r, ('i', b))
    va, vb = x.I.rd(ra, x.st, x.node), x.I.rd(rb, x.st, x.node)
    x.I.wr(ra, vb, x.st)
    x.I.wr(rb, va, x.st)
    return UNIT


@model('std::slice::fill')
def m_fill(x):
    r, v = arr_at(x)
    if isinstance(v, Arr):
        x.I.wr(r, Arr(v.ln, ('const', x.args[1]), (), v.ek), x.st)
    return UNIT


@model('std::slice::copy_from_slice', 'std::slice::clone_from_slice')
def m_copy_from(x):
    r, v = arr_at(x)
    _, s = arr_at(x, 1)
    if isinstance(v, Arr) and isinstance(s, Arr):
        x.event('bounds', ieq(v.ln, s.ln), 'copy_from_slice of %s into %s' % (s.ln, v.ln))
        x.I.check_region(x.st, s, x.node)
        x.I.wr(r, Arr(v.ln, s.base, s.layers, v.ek), x.st)
    return UNIT


@model('std::slice::reverse')
def m_reverse(x):
    r, v = arr_at(x)
    if isinstance(v, Arr):
        k = atom('sym', ('$rv', x.I.fresh()), 'nat')
        val = x.I.aread(v, v.ln - 1 - P(k), x.facts().plus(ge0(v.ln - 1 - P(k))))
        x.I.wr(r, Arr(v.ln, ('fn', k, val), (), v.ek), x.st)
    return UNIT


@model('std::vec::Vec::extend_from_slice', 'std::iter::Extend::extend', 'std::vec::Vec::append', 'std::vec::Vec::extend_from_within')
def m_extend(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr) or x.path.endswith('within'):
        x.I.wr(r, Opq('extend'), x.st)
        return UNIT
    src = x.args[1]
    if x.path.endswith('extend'):
        it = to_iter(x.I, src, x.st, x.node, x.fr)
        run_push(x, r, it)
        return UNIT
    _, s = arr_at(x, 1)
    if not isinstance(s, Arr):
        x.I.wr(r, Opq('extend'), x.st)
        return UNIT
    x.I.check_region(x.st, s, x.node)
    w = fill_region(x.I, x.st, v, v.ln, s.ln, lambda k, f: x.I.aread(s, k, f))
    x.I.wr(r, Arr(v.ln + s.ln, w.base, w.layers, w.ek), x.st)
    if x.path.endswith('append'):
        rr, _ = arr_at(x, 1)
        x.I.wr(rr, Arr(ZERO, ('lst', ()), (), s.ek), x.st)
    return UNIT


def run_push(x, r, it):
    """for e in it { target.push(e) }"""
    from .loops import exec_loop
    if isinstance(it, Opq):
        x.I.wr(r, Opq('extend from ' + it.why), x.st)
        return
    node = x.node

    def body(s, i):
        e = it.at(s, i)

        def do(s2):
            v = x.I.rd(r, s2)
            if isinstance(v, Arr):
                val = e
                if isinstance(val, Ref) and v.ek in ('T', 'nat', 'int', 'bool'):
                    val = x.I.deref(val, s2, node)
                push(x.I, s2, r, v, val, node)
            return UNIT
        if it.cond is not None:
            x.I.fork(s, it.cond(s, i), do, lambda s2: UNIT)
        else:
            do(s)
    roots = [c for c in [r.cell] + it_roots(x.I, it, x.st) if c in x.st.store]
    exec_loop(x.I, x.st, x.fr, x.node, it.ln, body, [], roots, kind='for')


def it_roots(I, it, st):
    out = []
    for v in getattr(it, 'refs', None) or ():
        I.follow_cells(v, st, out)
    return out


def sref(x, r, v, lo, n):
    return x.I.addproj(r if isinstance(r, Ref) else x.I.temp(x.st, v, x.fr, ('sl', x.I.fresh())), ('sub', lo, n))


def eref(I, r, i):
    return I.addproj(r, ('i', i))


@model('std::slice::first', 'std::slice::last', 'std::slice::first_mut', 'std::slice::last_mut')
def m_first(x):
    r, v = arr_at(x)
    if not isinstance(v, Arr):
        return Opq('first of opaque')
    if not isinstance(r, Ref):
        r = x.I.temp(x.st, v, x.fr, ('sl', x.I.fresh()))
    i = ZERO if 'first' in x.path else v.ln - 1
    return opt(ge0(v.ln - 1), eref(x.I, r, i))


@model('std::slice::get', 'std::slice::get_mut')
def m_get(x):
    r, v = arr_at(x)
    i = x.args[1]
    if not isinstance(v, Arr):
        return Opq('get of opaque')
    if isinstance(i, Poly):
        return opt(And(ge0(i), ge0(v.ln - 1 - i)), eref(x.I, r, i))
    if isinstance(i, St):
        lo = i.f.get('start', ZERO)
        hi = i.f.get('end', v.ln)
        if i.n == 'rangeincl':
            hi = hi + 1
        return opt(And(ge0(hi - lo), ge0(v.ln - hi)), x.I.addproj(r, ('sub', lo, hi - lo)))
    return Opq('get')


@model('std::slice::get_unchecked', 'std::slice::get_unchecked_mut')
def m_get_unchecked(x):
    r, v = arr_at(x)
    if isinstance(x.args[1], Poly) and isinstance(v, (Arr, VIte)):
        x.I.event('ub', x.node, And(ge0(x.args[1]), ge0(x.I.length(v) - 1 - x.args[1])), x.st, 'unchecked index %s in len %s' % (x.args[1], x.I.length(v)))
    return x.I.index_place(r, x.args[1], x.st, x.fr, x.node)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(x):
    r = x.args[0]
    if not isinstance(r, (Ref, VIte)):
        r = x.I.temp(x.st, r, x.fr, ('ix', x.node['_id']))
    return x.I.index_place(r, x.args[1], x.st, x.fr, x.node)


@model('std::slice::split_at', 'std::slice::split_at_mut')
def m_split_at(x):
    r, v = arr_at(x)
    n = x.args[1]
    if not isinstance(v, Arr):
        return Opq('split_at')
    x.event('bounds', And(ge0(n), ge0(v.ln - n)), 'split_at %s of len %s' % (n, v.ln))
    return St('()', {'0': sref(x, r, v, ZERO, n), '1': sref(x, r, v, n, v.ln - n)})


@model('std::slice::contains')
def m_contains(x):
    r, v = arr_at(x)
    y = x.val(1)
    if not isinstance(v, Arr):
        return fresh(x, 'contains')
    k = sym(('cti', x.node['_id']), 'nat')
    f = x.facts().plus(ge0(v.ln - 1 - P(k)))
    return Exists(k, v.ln, eqv(x, x.I.aread(v, P(k), f), y, v.ek if v.ek in ('nat', 'T') else None))


@model('std::slice::concat')
def m_concat(x):
    return Opq('concat')


# ------------------------------------------------------------------ iterators
def mkit(ln, at, cond=None, refs=()):
    it = It2(ln, at, cond)
    it.refs = tuple(refs)
    return it


class It2(It):
    __slots__ = ('refs',)


def range_it(I, st, lo, hi):
    if hi is None:
        return mkit(None, lambda s, i: lo + i)
    d = hi - lo
    f = I.facts(st)
    if f.prove(ge0(d)):
        n = d
    elif f.prove(ge0(-d)):
        n = ZERO
    else:
        n = pite(ge0(d), d, ZERO)
    return mkit(n, lambda s, i: lo + i)


def to_iter(I, v, st, node, fr):
    byref = False
    r = None
    for _ in range(6):
        if isinstance(v, Ref):
            r = v
            v = I.rplace(st, v)
            byref = True
        else:
            break
    if isinstance(v, It):
        return v
    if isinstance(v, St) and v.n == '$iter':
        it = v.f['it']
        pos = v.f['pos']
        return mkit(it.ln - pos if it.ln is not None else None, lambda s, i: it.at(s, pos + i),
                    (lambda s, i: it.cond(s, pos + i)) if it.cond else None, getattr(it, 'refs', ()))
    if isinstance(v, St) and v.n in ('range', 'rangeincl'):
        lo, hi = v.f['start'], v.f.get('end')
        if isinstance(lo, Ref):
            lo = I.rplace(st, lo)
        if isinstance(hi, Ref):
            hi = I.rplace(st, hi)
        if not isinstance(lo, Poly) or hi is not None and not isinstance(hi, Poly):
            I.note_unsupported('range of ' + type(hi or lo).__name__, node)
            return Opq('range')
        if hi is not None and v.n == 'rangeincl':
            hi = hi + 1
        return range_it(I, st, lo, hi)
    if isinstance(v, Arr):
        if byref:
            return mkit(v.ln, lambda s, i: I.addproj(r, ('i', i)), None, (r,))
        return mkit(v.ln, lambda s, i: I.aread(v, i, I.facts(s)))
    if isinstance(v, En) and v.n.endswith('Option'):
        g, pay = split_en(v, 'Some')
        return mkit(pite(g, ONE, ZERO), lambda s, i: pay)
    if isinstance(v, VIte) and isinstance(v.a, (It, St)) and isinstance(v.b, (It, St)):
        a, b = to_iter(I, v.a, st, node, fr), to_iter(I, v.b, st, node, fr)
        if a.cond is None and b.cond is None and a.ln is not None and b.ln is not None:
            return mkit(pite(v.c, a.ln, b.ln), lambda s, i: merge(v.c, a.at(s, i), b.at(s, i)), None, refs_of(a) + refs_of(b))
    w = getattr(v, 'why', type(v).__name__)
    I.note_unsupported('iteration over ' + str(w), node)
    return Opq('iteration over ' + str(w))


def refs_of(*its):
    out = ()
    for it in its:
        out += tuple(getattr(it, 'refs', ()) or ())
    return out


def itarg(x, n=0):
    return to_iter(x.I, x.args[n], x.st, x.node, x.fr)


@model('std::iter::IntoIterator::into_iter', 'std::iter::Iterator::by_ref')
def m_into_iter(x):
    v = x.args[0]
    if isinstance(v, Ref) and isinstance(x.I.rplace(x.st, v), (It,)) or isinstance(v, It):
        return v
    if isinstance(v, St) and v.n == '$iter':
        return v
    return itarg(x)


@model('std::slice::iter', 'std::slice::iter_mut', 'std::vec::Vec::drain', 'std::option::Option::iter')
def m_iter(x):
    if x.path.endswith('drain'):
        r, v = arr_at(x)
        rng = x.args[1]
        if isinstance(v, Arr) and isinstance(rng, St) and rng.f.get('start', ZERO) is ZERO and 'end' not in rng.f:
            x.I.wr(r, Arr(ZERO, ('lst', ()), (), v.ek), x.st)
            return mkit(v.ln, lambda s, i: x.I.aread(v, i, x.I.facts(s)))
        x.I.wr(r, Opq('drain'), x.st)
        return Opq('drain')
    r, v = arr_at(x)
    if isinstance(r, Ref) and isinstance(v, Arr):
        return mkit(v.ln, lambda s, i: x.I.addproj(r, ('i', i)), None, (r,))
    return itarg(x)


@model('std::slice::chunks', 'std::slice::chunks_mut', 'std::slice::chunks_exact', 'std::slice::chunks_exact_mut')
def m_chunks(x):
    r, v = arr_at(x)
    n = x.args[1]
    if not isinstance(v, Arr):
        return Opq('chunks')
    x.event('div0', ine(n, ZERO), 'chunk size %s' % n)
    q = exact_div(v.ln, n)
    if q is None:
        q = x.I.idiv(v.ln, n, x.st)
        exact = x.facts().prove(ieq(q * n, v.ln))
    else:
        exact = True
    if not isinstance(r, Ref):
        r = x.I.temp(x.st, v, x.fr, ('ch', x.I.fresh()))
    if exact or 'exact' in x.path:
        return mkit(q, lambda s, i: x.I.addproj(r, ('sub', i * n, n)), None, (r,))
    m = x.I.idiv(v.ln + n - 1, n, x.st)
    return mkit(m, lambda s, i: x.I.addproj(r, ('sub', i * n, pite(le(i * n + n, v.ln), n, v.ln - i * n))), None, (r,))


@model('std::slice::windows')
def m_windows(x):
    r, v = arr_at(x)
    n = x.args[1]
    if not isinstance(v, Arr):
        return Opq('windows')
    ln = v.ln - n + 1
    if not x.facts().prove(ge0(ln)):
        ln = pite(ge0(ln), ln, ZERO)
    return mkit(ln, lambda s, i: x.I.addproj(r, ('sub', i, n)), None, (r,))


def adapt(f):
    def g(x):
        it = itarg(x)
        if isinstance(it, Opq):
            return it
        return f(x, it)
    return g


def imodel(*names):
    def deco(f):
        for n in names:
            MODELS['std::iter::Iterator::' + n] = adapt(f)
            MODELS['std::iter::DoubleEndedIterator::' + n] = adapt(f)
        return f
    return deco


@imodel('rev')
def i_rev(x, it):
    if it.cond is not None:
        return mkit(it.ln, lambda s, i: it.at(s, it.ln - 1 - i), lambda s, i: it.cond(s, it.ln - 1 - i), refs_of(it))
    return mkit(it.ln, lambda s, i: it.at(s, it.ln - 1 - i), None, refs_of(it))


@imodel('map')
def i_map(x, it):
    f = x.args[1]
    fr, node = x.fr, x.node
    return mkit(it.ln, lambda s, i: x.I.apply(f, [it.at(s, i)], s, node, None, fr), it.cond, refs_of(it) + (f,))


@imodel('inspect')
def i_inspect(x, it):
    f = x.args[1]

    def at(s, i):
        v = it.at(s, i)
        x.I.apply(f, [v], s, x.node, None, x.fr)
        return v
    return mkit(it.ln, at, it.cond, refs_of(it) + (f,))


@imodel('filter')
def i_filter(x, it):
    f = x.args[1]

    def cond(s, i):
        v = it.at(s, i)
        r = x.I.temp(s, v, x.fr, ('flt', x.node['_id']))
        c = x.I.asB(x.I.apply(f, [r], s, x.node, None, x.fr), x.node)
        return And(it.cond(s, i), c) if it.cond else c
    return mkit(it.ln, it.at, cond, refs_of(it) + (f,))


@imodel('filter_map')
def i_filter_map(x, it):
    f = x.args[1]

    def ev(s, i):
        v = x.I.apply(f, [it.at(s, i)], s, x.node, None, x.fr)
        if isinstance(v, En):
            return split_en(v, 'Some')
        return batom(unk('filter_map').single_atom()), Opq('filter_map')

    def cond(s, i):
        c = ev(s, i)[0]
        return And(it.cond(s, i), c) if it.cond else c
    return mkit(it.ln, lambda s, i: ev(s, i)[1], cond, refs_of(it) + (f,))


@imodel('enumerate')
def i_enum(x, it):
    if it.cond is not None:
        return Opq('enumerate after filter')
    return mkit(it.ln, lambda s, i: St('()', {'0': i, '1': it.at(s, i)}), None, refs_of(it))


def minlen(x, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    f = x.facts()
    d = f.decide(le(a, b))
    return a if d is True else b if d is False else pite(le(a, b), a, b)


@imodel('zip')
def i_zip(x, it):
    o = to_iter(x.I, x.args[1], x.st, x.node, x.fr)
    if isinstance(o, Opq) or it.cond is not None or o.cond is not None:
        return Opq('zip')
    return mkit(minlen(x, it.ln, o.ln), lambda s, i: St('()', {'0': it.at(s, i), '1': o.at(s, i)}), None, refs_of(it, o))


@model('std::iter::zip')
def i_zip2(x):
    return adapt(i_zip)(x)


@imodel('take')
def i_take(x, it):
    if it.cond is not None:
        return Opq('take after filter')
    return mkit(minlen(x, it.ln, x.args[1]), it.at, None, refs_of(it))


@imodel('skip')
def i_skip(x, it):
    if it.cond is not None:
        return Opq('skip after filter')
    n = x.args[1]
    ln = None
    if it.ln is not None:
        ln = it.ln - n
        if not x.facts().prove(ge0(ln)):
            ln = pite(ge0(ln), ln, ZERO)
    return mkit(ln, lambda s, i: it.at(s, i + n), None, refs_of(it))


@imodel('step_by')
def i_step(x, it):
    if it.cond is not None:
        return Opq('step_by after filter')
    n = x.args[1]
    x.event('div0', ine(n, ZERO), 'step %s' % n)
    ln = None
    if it.ln is not None:
        q = exact_div(it.ln, n)
        if q is None:
            # ceil(ln / n): often ln = k*n - c with 0 <= c < n
            d = pdivmod(it.ln, n)
            q = None
            if d is not None:
                f = x.facts()
                for adj in (0, 1, -1):
                    qq, rr = d[0] + adj, d[1] - n * adj
                    if f.prove(ge0(-rr)) and f.prove(ge0(rr + n - 1)):
                        q = qq
                        break
            if q is None:
                q = x.I.idiv(it.ln + n - 1, n, x.st)
        ln = q
    return mkit(ln, lambda s, i: it.at(s, i * n), None, refs_of(it))


@imodel('cloned', 'copied')
def i_cloned(x, it):
    return mkit(it.ln, lambda s, i: x.I.deref(it.at(s, i), s, x.node), it.cond, refs_of(it))


@imodel('peekable', 'fuse', 'into_iter')
def i_same(x, it):
    return it


@imodel('chain')
def i_chain(x, it):
    o = to_iter(x.I, x.args[1], x.st, x.node, x.fr)
    if isinstance(o, Opq) or it.cond is not None or o.cond is not None or it.ln is None:
        return Opq('chain')

    def at(s, i):
        c = lt(i, it.ln)
        d = x.I.facts(s).decide(c)
        if d is True:
            return it.at(s, i)
        if d is False:
            return o.at(s, i - it.ln)
        return x.I.fork(s, c, lambda q: it.at(q, i), lambda q: o.at(q, i - it.ln))
    return mkit(it.ln + o.ln if o.ln is not None else None, at, None, refs_of(it, o))


@imodel('flat_map', 'flatten')
def i_flat(x, it):
    """concatenation of equally long pieces"""
    f = x.args[1] if x.path.endswith('flat_map') else None
    if it.cond is not None or it.ln is None:
        return Opq('flat_map')
    k = atom('sym', ('$fm', x.I.fresh()), 'nat')

    def piece(s, i):
        v = it.at(s, i)
        if f is not None:
            v = x.I.apply(f, [v], s, x.node, None, x.fr)
        return to_iter(x.I, v, s, x.node, x.fr)
    s2 = x.st.copy()
    s2.know = s2.know + (ge0(it.ln - 1 - P(k)),)
    rec = x.I.rec
    x.I.rec = False
    try:
        p = piece(s2, P(k))
    finally:
        x.I.rec = rec
    if isinstance(p, Opq) or p.cond is not None or p.ln is None or k in p.ln.free:
        return Opq('flat_map over pieces of varying length')
    n = p.ln

    def at(s, i):
        q = x.I.idiv(i, n, s)
        r = x.I.imod(i, n, s)
        return piece(s, q).at(s, r)
    return mkit(it.ln * n, at, None, refs_of(it) + ((f,) if f is not None else ()))


@model('std::iter::repeat')
def m_repeat(x):
    v = x.args[0]
    return mkit(None, lambda s, i: v)


@model('std::iter::repeat_n')
def m_repeat_n(x):
    v = x.args[0]
    return mkit(x.args[1], lambda s, i: v)


@model('std::iter::once')
def m_once(x):
    v = x.args[0]
    return mkit(ONE, lambda s, i: v)


@model('std::iter::empty')
def m_empty(x):
    return mkit(ZERO, lambda s, i: Opq('element of empty iterator'))


@model('std::iter::repeat_with')
def m_repeat_with(x):
    f = x.args[0]
    return mkit(None, lambda s, i: x.I.apply(f, [], s, x.node, None, x.fr), None, (f,))


@model('std::iter::Iterator::size_hint')
def m_size_hint(x):
    return Opq('size_hint')


@model('std::iter::Iterator::next')
def m_next(x):
    r = x.args[0]
    if not isinstance(r, Ref):
        return Opq('next')
    v = x.I.rplace(x.st, r)
    for _ in range(4):
        if isinstance(v, Ref):
            r = v
            v = x.I.rplace(x.st, v)
    if not (isinstance(v, St) and v.n == '$iter'):
        if isinstance(v, (Opq, VIte)):
            return Opq('next of opaque iterator')
        it = to_iter(x.I, v, x.st, x.node, x.fr)
        if isinstance(it, Opq):
            return Opq('next of opaque iterator')
        v = St('$iter', {'it': it, 'pos': ZERO})
    it, pos = v.f['it'], v.f['pos']
    if it.cond is not None:
        x.I.note_unsupported('next on filtered iterator', x.node)
        return Opq('next on filtered iterator')
    g = lt(pos, it.ln) if it.ln is not None else TRUE

    def thn(s):
        e = it.at(s, pos)
        x.I.wr(r, St('$iter', {'it': it, 'pos': pos + 1}), s)
        return En('std::option::Option', [(TRUE, 'Some', {'0': e})])

    def els(s):
        x.I.wr(r, St('$iter', {'it': it, 'pos': pos}), s)
        return En('std::option::Option', [(TRUE, 'None', {})])
    return x.I.fork(x.st, g, thn, els)


# ---- consumers, run as loops
def consume(x, it, body, extra_vals=(), extra_cells=(), labels=()):
    """for (i-th) e in it { body(s, e, i) }"""
    from .loops import exec_loop

    def run(s, i):
        def do(s2):
            body(s2, it.at(s2, i), i)
            return UNIT
        if it.cond is not None:
            x.I.fork(s, it.cond(s, i), do, lambda s2: UNIT)
        else:
            do(s)
    roots = list(extra_cells)
    for v in extra_vals:
        x.I.follow_cells(v, x.st, roots)
    roots += it_roots(x.I, it, x.st)
    roots = [c for c in dict.fromkeys(roots) if c in x.st.store]
    exec_loop(x.I, x.st, x.fr, x.node, it.ln, run, list(labels), roots, kind='for')


def acc_loop(x, it, init, step, extra, kind=None):
    cell = (x.fr.fid, '$acc', x.node['_id'])
    x.st.store[cell] = init
    if kind:
        x.I.cellkind[cell] = kind

    def body(s, e, i):
        s.store[cell] = step(s, s.store[cell], e, i)
    consume(x, it, body, extra, [cell])
    v = x.st.store[cell]
    del x.st.store[cell]
    return v


def scal(x, v, s):
    for _ in range(4):
        if isinstance(v, Ref):
            v = x.I.rplace(s, v, x.node)
    return v


@imodel('fold')
def i_fold(x, it):
    f = x.args[2]
    return acc_loop(x, it, x.args[1], lambda s, a, e, i: x.I.apply(f, [a, e], s, x.node, None, x.fr), (f,),
                    x.I.tyk(x.ret, x.fr) if x.ret is not None else None)


@imodel('rfold')
def i_rfold(x, it):
    f = x.args[2]
    return acc_loop(x, i_rev(x, it), x.args[1], lambda s, a, e, i: x.I.apply(f, [a, e], s, x.node, None, x.fr), (f,))


@imodel('sum')
def i_sum(x, it):
    k = x.I.tyk(x.ret, x.fr) if x.ret is not None else 'T'
    return acc_loop(x, it, ZERO, lambda s, a, e, i: a + topoly(scal(x, e, s)), (), k)


@imodel('product')
def i_product(x, it):
    k = x.I.tyk(x.ret, x.fr) if x.ret is not None else 'T'
    return acc_loop(x, it, ONE, lambda s, a, e, i: a * topoly(scal(x, e, s)), (), k)


def topoly(v):
    return v if isinstance(v, Poly) else unk('non-scalar element')


@imodel('count')
def i_count(x, it):
    if it.cond is None:
        return it.ln if it.ln is not None else fresh(x, 'count')
    return acc_loop(x, it, ZERO, lambda s, a, e, i: a + 1, (), 'nat')


@imodel('for_each')
def i_for_each(x, it):
    f = x.args[1]
    consume(x, it, lambda s, e, i: x.I.apply(f, [e], s, x.node, None, x.fr), (f,))
    return UNIT


@imodel('all')
def i_all(x, it):
    f = x.args[1]
    return acc_loop(x, it, TRUE, lambda s, a, e, i: x.I.fork(s, a, lambda q: x.I.asB(x.I.apply(f, [e], q, x.node, None, x.fr), x.node),
                                                           lambda q: FALSE), (f,), 'bool')


@imodel('any')
def i_any(x, it):
    f = x.args[1]
    return acc_loop(x, it, FALSE, lambda s, a, e, i: x.I.fork(s, a, lambda q: TRUE,
                                                            lambda q: x.I.asB(x.I.apply(f, [e], q, x.node, None, x.fr), x.node)), (f,), 'bool')


def i_extreme(mx):
    def g(x, it):
        if it.cond is not None or it.ln is None:
            return Opq('max of filtered iterator')
        if not x.facts().prove(ge0(it.ln - 1)):
            return Opq('max of possibly empty iterator')
        k = 'nat'
        first = scal(x, it.at(x.st, ZERO), x.st)
        rest = mkit(it.ln - 1, lambda s, i: it.at(s, i + 1), None, refs_of(it))

        def step(s, a, e, i):
            e = scal(x, e, s)
            if not isinstance(e, Poly) or not isinstance(a, Poly):
                return Opq('max')
            return pite(le(a, e), e, a) if mx else pite(le(a, e), a, e)
        v = acc_loop(x, rest, first, step, (), k)
        return En('std::option::Option', [(TRUE, 'Some', {'0': v})])
    return g


imodel('max')(i_extreme(True))
imodel('min')(i_extreme(False))


@imodel('collect', 'to_vec')
def i_collect(x, it):
    t = x.I.reslv(x.ret, x.fr) if x.ret is not None else {'k': '?'}
    if t['k'] == 'adt' and (t['n'].endswith('Vec') or t['n'].endswith('Box')):
        ek = x.I.elk(x.ret, x.fr)
    else:
        return Opq('collect')
    cell = (x.fr.fid, '$col', x.node['_id'])
    x.st.store[cell] = Arr(ZERO, ('lst', ()), (), ek)
    run_push(x, Ref(cell), it)
    v = x.st.store.pop(cell)
    return v


@imodel('last')
def i_last(x, it):
    if it.cond is not None or it.ln is None:
        return Opq('last')
    return opt(ge0(it.ln - 1), it.at(x.st, it.ln - 1))


@imodel('nth')
def i_nth(x, it):
    if it.cond is not None or it.ln is None:
        return Opq('nth')
    return opt(lt(x.args[1], it.ln), it.at(x.st, x.args[1]))


@imodel('position', 'find')
def i_position(x, it):
    from .interp import Dead
    f = x.args[1]
    if it.cond is not None:
        return Opq('position')
    cell = (x.fr.fid, '$pos', x.node['_id'])
    x.st.store[cell] = En('std::option::Option', [(TRUE, 'None', {})])
    lab = ('pos', x.node['_id'])
    find = x.path.endswith('find')

    def body(s, e, i):
        a = x.I.temp(s, e, x.fr, ('fnd', x.node['_id'])) if find else e
        c = x.I.asB(x.I.apply(f, [a], s, x.node, None, x.fr), x.node)

        def hit(q):
            q.store[cell] = En('std::option::Option', [(TRUE, 'Some', {'0': e if find else i})])
            x.fr.exits.append(('brk', lab, q.copy(), UNIT))
            raise Dead()
        x.I.fork(s, c, hit, lambda q: UNIT)
    consume(x, it, body, (f,), [cell], [lab])
    return x.st.store.pop(cell)


# ------------------------------------------------------------------ closures
@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def m_fncall(x):
    t = x.args[1]
    args = list(t.f.values()) if isinstance(t, St) else [t]
    return x.I.apply(x.args[0], args, x.st, x.node, x.ret, x.fr)


@model('rand::random', 'rand::Rand::rand', 'rand::Rng::gen')
def m_random(x):
    return P(atom('app', sym('rand::random', 'fn'), tuple(x.I.iscope_polys()) + (x.I.fresh_id(x.node),)))


# ------------------------------------------------------------------ opaque but harmless
def opaque(x):
    return fresh(x, x.path)


for p in ('std::fmt', 'std::io', 'std::fs', 'std::path', 'std::str', 'std::string', 'std::hint::must_use', 'std::env', 'std::time'):
    PREFIX.append((p + '::', opaque))
MODELS['std::hint::must_use'] = ident
