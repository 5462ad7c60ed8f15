"""Hash-consed symbolic values.

Int values and element ("T") values are both `Poly`: multivariate (Laurent) polynomials over interned
`Atom`s.  Element arithmetic is modelled as exact field arithmetic, so re-association, distribution and
common-subexpression changes do not change a value's normal form.  Booleans are `B` nodes.
"""
import hashlib
from fractions import Fraction

_intern = {}
_cnt = [0]


class Node:
    __slots__ = ('k', 'a', 'id', 'free', 'mbv', 'info')

    def __repr__(self):
        return brief(self)

    def __lt__(self, o):
        return self.id < o.id


class Atom(Node):
    __slots__ = ()


class B(Node):
    __slots__ = ()


EMPTY = frozenset()


def _meta(args):
    fr = EMPTY
    mb = 0
    for x in args:
        if isinstance(x, (Node, Poly)):
            if x.free:
                fr = fr | x.free if fr else x.free
            if x.mbv > mb:
                mb = x.mbv
        elif isinstance(x, tuple):
            f2, m2 = _meta(x)
            fr = fr | f2
            mb = max(mb, m2)
    return fr, mb


def _mk(cls, k, *args):
    key = (cls, k, args)
    n = _intern.get(key)
    if n is None:
        n = cls.__new__(cls)
        n.k = k
        n.a = args
        _cnt[0] += 1
        n.id = _cnt[0]
        n.info = None
        fr, mb = _meta(args)
        if k in ('bv', 'accv'):
            mb = args[0]
        n.mbv = mb
        n.free = fr
        if k in ('sym', 'unk'):
            n.free = frozenset([n])
        _intern[key] = n
    return n


def atom(k, *args):
    return _mk(Atom, k, *args)


# ---------------------------------------------------------------- Poly
class Poly:
    __slots__ = ('t', 'key', 'free', 'mbv', 'id', '_h')

    def __new__(cls, terms):
        t = {m: c for m, c in terms.items() if c != 0}
        for m, c in t.items():
            if isinstance(c, Fraction) and c.denominator == 1:
                t[m] = int(c)
        key = tuple(sorted(((tuple((a.id, e) for a, e in m)), c) for m, c in t.items()))
        p = _intern.get((Poly, key))
        if p is not None:
            return p
        p = object.__new__(cls)
        p.t = t
        p.key = key
        fr = EMPTY
        mb = 0
        for m in t:
            for a, e in m:
                if a.free:
                    fr = fr | a.free if fr else a.free
                if a.mbv > mb:
                    mb = a.mbv
        p.free = fr
        p.mbv = mb
        _cnt[0] += 1
        p.id = _cnt[0]
        p._h = hash(key)
        _intern[(Poly, key)] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return brief(self)

    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mmul(m1, m2)
                if isinstance(r, Poly):
                    e = r * (c1 * c2) if True else None
                    extra = e if extra is None else extra + e
                else:
                    d[r] = d.get(r, 0) + c1 * c2
        p = Poly(d)
        return p if extra is None else p + extra

    __rmul__ = __mul__

    def const(self):
        """the constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def degree_in(self, a):
        return max((e for m in self.t for x, e in m if x is a), default=0)

    def coeff_of(self, a):
        """(coef poly of a^1, rest) if a occurs only linearly at top level, else None"""
        co, re = {}, {}
        for m, c in self.t.items():
            ex = 0
            for x, e in m:
                if x is a:
                    ex = e
            if ex == 0:
                re[m] = c
            elif ex == 1:
                co[tuple((x, e) for x, e in m if x is not a)] = c
            else:
                return None
        return Poly(co), Poly(re)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    red = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    for a, e in d.items():
        if (a.k == 'sqrt' and abs(e) >= 2) or (a.k == 'abs' and abs(e) >= 2) or (a.k == 'pq' and e > 0):
            red = True
    if not red:
        return tuple(sorted(d.items(), key=lambda x: x[0].id))
    out = ONE
    rest = {}
    for a, e in d.items():
        if a.k in ('sqrt', 'abs') and abs(e) >= 2:
            q, r = divmod(abs(e), 2)
            sg = 1 if e > 0 else -1
            base = a.a[0] if a.k == 'sqrt' else a.a[0] * a.a[0]
            if sg < 0:
                base = inv(base)
            for _ in range(q):
                out = out * base
            if r:
                rest[a] = sg
        elif a.k == 'pq' and e > 0:
            for _ in range(e):
                out = out * a.a[0]
        else:
            rest[a] = e
    return out * Poly({tuple(sorted(rest.items(), key=lambda x: x[0].id)): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    if isinstance(x, (int, Fraction)):
        return Poly({(): x}) if x != 0 else ZERO
    raise TypeError(repr(x))


ZERO = Poly({})
ONE = Poly({(): 1})


def sym(name, sort='int'):
    return atom('sym', name, sort)


def psym(name, sort='int'):
    return P(sym(name, sort))


_unk = [0]


def unk(reason, *dep):
    """an unknown value caused by an unmodelled construct (taints results as undecided)"""
    return P(atom('unk', reason, tuple(dep)))


def inv(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mono_poly(tuple((a, -e) for a, e in m)) * (Fraction(1) / c)
    if not p.t:
        return P(atom('inv0'))
    # factor common monomial and leading coefficient
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        common = {a: (min(e, dm[a])) for a, e in common.items() if a in dm and min(e, dm[a]) > 0}
    if common:
        cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
        icm = mono_poly(tuple((a, -e) for a, e in cm))
        return inv(p * icm) * icm
    lead = p.t[min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))]
    if lead != 1:
        q = p * (Fraction(1) / lead)
        return mono_poly(((atom('pq', q), -1),)) * (Fraction(1) / lead)
    return mono_poly(((atom('pq', p), -1),))


def mono_poly(m):
    m = tuple(sorted(m, key=lambda x: x[0].id))
    # run reductions
    out = ONE
    simple = True
    for a, e in m:
        if (a.k in ('sqrt', 'abs') and abs(e) >= 2) or (a.k == 'pq' and e > 0):
            simple = False
    if simple:
        return Poly({m: 1})
    for a, e in m:
        r = mmul((), ((a, e),)) if False else None
        x = ONE
        one = Poly({((a, 1 if e > 0 else -1),): 1}) if not (a.k == 'pq' and e > 0) else a.a[0]
        for _ in range(abs(e)):
            x = x * one
        out = out * x
    return out


def clear_den(p):
    """multiply by all denominators; returns a polynomial that is zero iff p is (generically)"""
    for _ in range(12):
        mn = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    mn[a] = min(mn.get(a, 0), e)
        if not mn:
            return p
        out = {}
        q = ZERO
        for m, c in p.t.items():
            d = dict(m)
            extra = ONE * c
            rest = {}
            for a in set(d) | set(mn):
                e = d.get(a, 0) - mn.get(a, 0)
                if e == 0:
                    continue
                rest[a] = e
            for a, e in rest.items():
                if a.k == 'pq' and e > 0:
                    for _ in range(e):
                        extra = extra * a.a[0]
                else:
                    extra = extra * mono_poly(((a, e),))
            q = q + extra
        p = q
    return p


def teq_poly(a, b):
    """exact-field equality of two element expressions"""
    if a is b:
        return True
    return clear_den(a - b) is ZERO


# ---------------------------------------------------------------- polynomial division
def pdivmod(p, s):
    """p = q*s + r; multivariate division by the single divisor s (leading monomial chosen)."""
    if s.const() is not None:
        c = s.const()
        if c == 0:
            return None
        q = {m: Fraction(x) / c for m, x in p.t.items()}
        qq = Poly({m: x for m, x in q.items() if (not isinstance(x, Fraction)) or x.denominator == 1})
        return qq, p - qq * s
    best = None
    lead = max(s.t, key=lambda m: (sum(e for _, e in m), tuple(-a.id for a, _ in m)))
    lc = s.t[lead]
    q = ZERO
    r = p
    for _ in range(40):
        hit = None
        for m, c in r.t.items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lead):
                cc = Fraction(c) / lc
                if cc.denominator != 1:
                    continue
                hit = (m, int(cc))
                break
        if hit is None:
            break
        m, cc = hit
        d = dict(m)
        for a, e in lead:
            d[a] -= e
        qm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
        t = Poly({qm: cc})
        q = q + t
        r = r - t * s
    return q, r


def exact_div(p, s):
    r = pdivmod(p, s)
    if r is None:
        return None
    q, rem = r
    return q if rem is ZERO else None


# ---------------------------------------------------------------- booleans
TRUE = _mk(B, 'true')
FALSE = _mk(B, 'false')


def bnode(k, *a):
    return _mk(B, k, *a)


def _normscale(p):
    # divide by the content for integer polys
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return p
        if m != ():
            g = gcd(g, abs(c))
    return g


def ge0(p):
    """p >= 0 over the integers"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    g = _normscale(p)
    if isinstance(g, int) and g > 1:
        d = {}
        for m, c in p.t.items():
            d[m] = c // g      # floor on the constant is exact tightening
        p = Poly(d)
    return bnode('ge', p)


def le(a, b):
    return ge0(P(b) - P(a))


def lt(a, b):
    return ge0(P(b) - P(a) - 1)


def ieq(a, b):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lead = p.key[0][1]
    if lead < 0:
        p = -p
    return bnode('eq', p)


def ine(a, b):
    return Not(ieq(a, b))


def tlt(a, b):
    if a is b:
        return FALSE
    d = b - a
    c = d.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    return bnode('tlt', a, b)


def tle(a, b):
    if a is b:
        return bnode('tle', a, b)     # NaN <= NaN is false: keep symbolic
    d = b - a
    c = d.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    return bnode('tle', a, b)


def teq(a, b):
    d = a - b
    c = d.const()
    if c is not None and (a.const() is not None and b.const() is not None):
        return TRUE if c == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return bnode('teq', a, b)


def batom(a):
    return bnode('batom', a)


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == 'not':
        return b.a[0]
    if b.k == 'ge':
        return ge0(-b.a[0] - 1)
    if b.k == 'and':
        return Or(*[Not(x) for x in b.a])
    if b.k == 'or':
        return And(*[Not(x) for x in b.a])
    if b.k == 'all':
        return bnode('ex', b.a[0], b.a[1], Not(b.a[2]))
    if b.k == 'ex':
        return bnode('all', b.a[0], b.a[1], Not(b.a[2]))
    return bnode('not', b)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        ys = x.a if x.k == 'and' else (x,)
        for y in ys:
            if y not in seen:
                if Not(y) in seen:
                    return FALSE
                seen.add(y)
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return bnode('and', *out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        ys = x.a if x.k == 'or' else (x,)
        for y in ys:
            if y not in seen:
                if Not(y) in seen:
                    return TRUE
                seen.add(y)
                out.append(y)
    if not out:
        return FALSE
    # absorption: x or (notx and y) == x or y
    if len(out) > 1:
        new = []
        chg = False
        for y in out:
            if y.k == 'and':
                ks = [z for z in y.a if Not(z) not in seen]
                if any(z in seen for z in y.a if z is not y):
                    chg = True
                    continue
                if len(ks) != len(y.a):
                    chg = True
                    y = And(*ks)
            new.append(y)
        if chg:
            return Or(*new)
    if len(out) == 1:
        return out[0]
    # factor common conjuncts
    sets = [set(y.a) if y.k == 'and' else {y} for y in out]
    common = set.intersection(*sets)
    if common:
        return And(*common, Or(*[And(*(s - common)) for s in sets]))
    out.sort(key=lambda n: n.id)
    return bnode('or', *out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if a is Not(b):
        return FALSE
    return Or(And(a, b), And(Not(a), Not(b)))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return Or(And(c, a), And(Not(c), b))


def binder(body, v):
    """close `v` (a sym atom) in body: returns (n, body')"""
    n = body.mbv + 1
    b2 = subst(body, {v: P(atom('bv', n))})
    return n, b2


def open_body(n, body, val):
    return subst(body, {atom('bv', n): P(val)})


def Forall(v, ln, body):
    """forall v in [0, ln): body"""
    if body is TRUE:
        return TRUE
    if ln.const() is not None and ln.const() <= 0:
        return TRUE
    if v not in body.free:
        return Or(ge0(-ln), body)
    if body.k == 'and':
        return And(*[Forall(v, ln, x) for x in body.a])
    if body.k == 'ge':
        # a linear bound is tightest at one end of the range
        r = body.a[0].coeff_of(v)
        if r is not None and r[0].const() is not None and v not in r[1].free:
            return Or(ge0(-ln), ge0(r[1] + r[0] * (ln - 1)) if r[0].const() < 0 else ge0(r[1]))
    if body.k == 'not' and body.a[0].k == 'eq':
        # other than one given number
        r = body.a[0].a[0].coeff_of(v)
        if r is not None and r[0].const() in (1, -1) and r[1].const() is not None:
            c = -r[1].const() * r[0].const()
            if c == int(c):
                return ge0(P(int(c)) - ln) if c >= 0 else TRUE
    n, b2 = binder(body, v)
    return bnode('all', n, ln, b2)


def Exists(v, ln, body):
    return Not(Forall(v, ln, Not(body)))


def pite(c, a, b):
    """poly-valued if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == 'not' or (c.k == 'ge' and Not(c).id < c.id):
        return pite(Not(c), b, a)
    # ite(c, ite(c,x,y), b)
    a2 = a.single_atom()
    if a2 is not None and a2.k == 'ite' and a2.a[0] is c:
        a = a2.a[1]
    b2 = b.single_atom()
    if b2 is not None and b2.k == 'ite' and b2.a[0] is c:
        b = b2.a[2]
    if a is b:
        return a
    if c.k == 'ge':
        # integer maximum and minimum have one form
        p, d = c.a[0], a - b
        if p is d or p is d - 1 or p is -d or p is -d - 1:
            mx = p is d or p is d - 1
            if okey(b) < okey(a):
                a, b = b, a
            return P(atom('ite', ge0(a - b if mx else b - a), a, b))
    return P(atom('ite', c, a, b))


# ---------------------------------------------------------------- special element/int functions
def tsqrt(p):
    c = p.const()
    if c in (0, 1):
        return P(c)
    return P(atom('sqrt', p))


def tabs(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    lead = p.key[0][1]
    a = p.single_atom()
    if a is not None and a.k in ('abs', 'sqrt'):
        return p
    if lead < 0:
        p = -p
        a = p.single_atom()
        if a is not None and a.k in ('abs', 'sqrt'):
            return p
    return P(atom('abs', p))


def i2t(p):
    c = p.const()
    if c is not None:
        return P(c)
    return P(atom('i2t', p))


def _sumlike(kind, v, ln, body):
    n, b2 = binder(body, v)
    # canonical orientation: also consider the reversed sum, pick the smaller key
    return P(atom(kind, n, ln, b2))


def _canon_orient(v, ln, body):
    rev = subst(body, {v: ln - 1 - P(v)})
    n1, a = binder(body, v)
    n2, b = binder(rev, v)
    return (n1, a) if okey(a) <= okey(b) else (n2, b)


_DIG = {}


def okey(x):
    """structural digest, linear in the number of distinct subterms"""
    r = _DIG.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        parts = sorted((tuple((okey(a), e) for a, e in m), str(c)) for m, c in x.t.items())
        parts = [(sorted(m), c) for m, c in parts]
        parts.sort()
        s = 'P%r' % (parts,)
    elif isinstance(x, (Atom, B)):
        ks = [okey(z) for z in x.a]
        if isinstance(x, B) and x.k in ('and', 'or'):
            ks.sort()
        s = '%s%s(%s)' % ('A' if isinstance(x, Atom) else 'B', x.k, ','.join(ks))
    elif isinstance(x, tuple):
        return '(' + ','.join(okey(z) for z in x) + ')'
    else:
        return repr(x)
    r = hashlib.blake2b(s.encode(), digest_size=12).hexdigest()
    _DIG[x] = r
    return r


def Sum(v, ln, body):
    """sum_{v in [0,ln)} body (element arithmetic, linear normal form)"""
    if body is ZERO:
        return ZERO
    c = ln.const()
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c == 1:
        return subst(body, {v: ZERO})
    out = ZERO
    for m, co in body.t.items():
        dep = []
        ind = []
        for a, e in m:
            (dep if v in a.free else ind).append((a, e))
        f = mono_poly(tuple(ind)) * co
        if not dep:
            out = out + f * i2t(ln)
            continue
        n, b2 = _canon_orient(v, ln, mono_poly(tuple(dep)))
        # sum of absolute value etc. stays
        out = out + f * P(atom('sum', n, ln, b2))
    return out


def Prod(v, ln, body):
    if body is ONE:
        return ONE
    c = ln.const()
    if c is not None and c <= 0:
        return ONE
    if c is not None and c == 1:
        return subst(body, {v: ZERO})
    if len(body.t) == 1:
        (m, co), = body.t.items()
        out = ONE
        if co != 1:
            out = out * P(atom('powi', P(co), ln))
        for a, e in m:
            if v not in a.free:
                out = out * P(atom('powi', mono_poly(((a, e),)), ln))
            else:
                n, b2 = _canon_orient(v, ln, mono_poly(((a, e),)))
                out = out * P(atom('prod', n, ln, b2))
        return out
    n, b2 = _canon_orient(v, ln, body)
    return P(atom('prod', n, ln, b2))


def Fold(kind, v, ln, init, body):
    """order-insensitive folds: kind in {'max','min'}"""
    n, b2 = _canon_orient(v, ln, body)
    return P(atom('fold_' + kind, n, ln, init, b2))


BINDERS = {'sum', 'prod', 'fold_max', 'fold_min', 'cnt', 'sel', 'gfold', 'argm'}


# ---------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    if not mp:
        return x
    if memo is None:
        memo = {}
    return _subst(x, mp, memo)


def _relevant(x, mp):
    fr = x.free
    mb = x.mbv
    for a in mp:
        if a.k == 'bv':
            if mb >= a.a[0]:
                return True
        elif a.k in ('sym', 'unk'):
            if a in fr:
                return True
        else:
            return True
    return False


def _subst(x, mp, memo):
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is not None:
            return r
        if not _relevant(x, mp):
            memo[x] = x
            return x
        out = ZERO
        acc = {}
        for m, c in x.t.items():
            chg = False
            parts = []
            for a, e in m:
                b = _subst_atom(a, mp, memo)
                if not (b.t == {((a, 1),): 1}):
                    chg = True
                parts.append((b, e))
            if not chg:
                acc[m] = acc.get(m, 0) + c
            else:
                t = P(c)
                for b, e in parts:
                    if e < 0:
                        b = inv(b)
                        e = -e
                    for _ in range(e):
                        t = t * b
                out = out + t
        out = out + Poly(acc)
        memo[x] = out
        return out
    if isinstance(x, B):
        r = memo.get(x)
        if r is not None:
            return r
        if not _relevant(x, mp):
            memo[x] = x
            return x
        r = _subst_b(x, mp, memo)
        memo[x] = r
        return r
    if isinstance(x, Atom):
        return _subst_atom(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(_keep(y, _subst(y, mp, memo)) for y in x)
    return x


def _keep(old, new):
    """atoms in argument position stay atoms"""
    if isinstance(old, Atom) and isinstance(new, Poly):
        n = new.single_atom()
        if n is None:
            raise ValueError('atom argument replaced by a compound value')
        return n
    return new


def _under(n, mp, memo):
    k = atom('bv', n)
    if k in mp:
        mp2 = {a: b for a, b in mp.items() if a is not k}
        return mp2, {}
    return mp, memo


def _subst_b(x, mp, memo):
    k = x.k
    if k == 'ge':
        return ge0(_subst(x.a[0], mp, memo))
    if k == 'eq':
        return ieq(_subst(x.a[0], mp, memo), ZERO)
    if k == 'tlt':
        return tlt(_subst(x.a[0], mp, memo), _subst(x.a[1], mp, memo))
    if k == 'tle':
        return tle(_subst(x.a[0], mp, memo), _subst(x.a[1], mp, memo))
    if k == 'teq':
        return teq(_subst(x.a[0], mp, memo), _subst(x.a[1], mp, memo))
    if k == 'not':
        return Not(_subst(x.a[0], mp, memo))
    if k == 'and':
        return And(*[_subst(y, mp, memo) for y in x.a])
    if k == 'or':
        return Or(*[_subst(y, mp, memo) for y in x.a])
    if k in ('all', 'ex'):
        n, ln, body = x.a
        ln2 = _subst(ln, mp, memo)
        mp2, mm2 = _under(n, mp, memo)
        b2 = _subst(body, mp2, mm2) if mp2 else body
        return _rebind_b(k, n, ln2, b2, mp2)
    if k == 'batom':
        a = _subst_atom(x.a[0], mp, memo)
        s = a.single_atom()
        if s is None:
            # boolean atoms may be replaced by 0/1 encodings
            c = a.const()
            if c is not None:
                return TRUE if c != 0 else FALSE
            return batom(atom('bp', a))
        if s.k == 'bool':
            return s.a[0]
        return batom(s)
    return x


def _rebind_b(k, n, ln, body, mp):
    v = atom('sym', ('$rb', n, body.id), 'int')
    body = subst(body, {atom('bv', n): P(v)})
    return Forall(v, ln, body) if k == 'all' else Exists(v, ln, body)


def _subst_atom(a, mp, memo):
    r = mp.get(a)
    if r is not None:
        return r
    if a.k in ('sym', 'bv', 'unk') and not (a.k == 'unk'):
        return P(a)
    r = memo.get(a)
    if r is not None:
        return r
    if not _relevant(a, mp):
        r = P(a)
        memo[a] = r
        return r
    r = _rebuild(a, mp, memo)
    memo[a] = r
    return r


REBUILD = {}


def _rebuild(a, mp, memo):
    k = a.k
    if k in BINDERS:
        n = a.a[0]
        mp2, mm2 = _under(n, mp, memo)
        v = atom('sym', ('$rb', n, a.id), 'int')
        body = a.a[-1]
        body = _subst(body, mp2, mm2) if mp2 else body
        body = subst(body, {atom('bv', n): P(v)})
        mid = [_subst(z, mp, memo) for z in a.a[1:-1]]
        if k == 'sum':
            return Sum(v, mid[0], body)
        if k == 'prod':
            return Prod(v, mid[0], body)
        if k in ('fold_max', 'fold_min'):
            return Fold(k[5:], v, mid[0], mid[1], body)
        if k == 'gfold':
            w = atom('sym', ('$ra', n, a.id), 'T')
            n2, b2 = binder(subst(body, {atom('accv', n): P(w)}), v)
            return P(atom(k, n2, *mid, subst(b2, {w: P(atom('accv', n2))})))
        n2, b2 = binder(body, v)
        return P(atom(k, n2, *mid, b2))
    args = [_subst(z, mp, memo) for z in a.a]
    args = [_keep(z, y) for z, y in zip(a.a, args)]
    if k == 'ite':
        return pite(*args)
    if k == 'sqrt':
        return tsqrt(*args)
    if k == 'abs':
        return tabs(*args)
    if k == 'i2t':
        return i2t(*args)
    if k == 'pq':
        return args[0]
    if k in REBUILD:
        return REBUILD[k](*args)
    return P(atom(k, *args))


_SIZE = {}


def tsize(y):
    """number of nodes of the term as a tree (saturating)"""
    if isinstance(y, tuple):
        return sum(tsize(z) for z in y)
    if not isinstance(y, (Node, Poly)):
        return 1
    r = _SIZE.get(y)
    if r is None:
        if isinstance(y, Poly):
            r = 1 + sum(2 + sum(tsize(a) for a, e in m) for m in y.t)
        else:
            r = 1 + sum(tsize(z) for z in y.a)
        r = _SIZE[y] = min(r, 10 ** 9)
    return r


# ---------------------------------------------------------------- printing
_budget = [None]


def brief(x, n=800):
    """printable form, cut off after n subterms"""
    if _budget[0] is not None:
        return show(x)
    _budget[0] = n
    try:
        return show(x)
    except RecursionError:
        return '..'
    finally:
        _budget[0] = None


def show(x, d=0):
    if _budget[0] is not None:
        _budget[0] -= 1
        if _budget[0] < 0:
            return '..'
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        out = []
        items = x.t.items() if _budget[0] is not None else sorted(x.t.items(), key=lambda mc: (-len(mc[0]), [show(a) for a, _ in mc[0]]))
        for m, c in items:
            s = '*'.join(show(a) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not s:
                out.append('%+d' % c if isinstance(c, int) else '+%s' % c)
            elif c == 1:
                out.append('+' + s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append(('%+d' % c if isinstance(c, int) else '+%s' % c) + '*' + s)
        r = ''.join(out)
        return r[1:] if r[0] == '+' else r
    if isinstance(x, Atom):
        k = x.k
        if k == 'sym':
            n = x.a[0]
            return n if isinstance(n, str) else '_'.join(str(z) for z in n)
        if k == 'bv':
            return '$%d' % x.a[0]
        if k == 'el':
            return '%s[%s]' % (show(x.a[0]), show(x.a[1]))
        if k == 'ite':
            return '(%s ? %s : %s)' % tuple(show(z) for z in x.a)
        if k in BINDERS:
            return '%s{$%d<%s: %s}' % (k, x.a[0], ', '.join(show(z) for z in x.a[1:-1]), show(x.a[-1]))
        if k == 'pq':
            return '(' + show(x.a[0]) + ')'
        return '%s(%s)' % (k, ', '.join(show(z) for z in x.a))
    if isinstance(x, B):
        k = x.k
        if k in ('true', 'false'):
            return k
        if k == 'ge':
            p = x.a[0]
            pos = Poly({m: c for m, c in p.t.items() if c > 0})
            neg = Poly({m: -c for m, c in p.t.items() if c < 0})
            return '%s >= %s' % (show(pos), show(neg))
        if k == 'eq':
            p = x.a[0]
            pos = Poly({m: c for m, c in p.t.items() if c > 0})
            neg = Poly({m: -c for m, c in p.t.items() if c < 0})
            return '%s == %s' % (show(pos), show(neg))
        if k in ('tlt', 'tle', 'teq'):
            return '%s %s %s' % (show(x.a[0]), {'tlt': '<.', 'tle': '<=.', 'teq': '==.'}[k], show(x.a[1]))
        if k == 'not':
            return '!(%s)' % show(x.a[0])
        if k in ('and', 'or'):
            return '(' + (' && ' if k == 'and' else ' || ').join(show(y) for y in x.a) + ')'
        if k in ('all', 'ex'):
            return '%s{$%d<%s: %s}' % ('ALL' if k == 'all' else 'EX', x.a[0], show(x.a[1]), show(x.a[2]))
        if k == 'batom':
            return show(x.a[0])
        return k
    if isinstance(x, tuple):
        return '(' + ','.join(show(z) for z in x) + ')'
    return str(x)
