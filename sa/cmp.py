"""Comparison of derived summaries with specification terms: equality under facts (case splitting, congruence,
oriented equalities), and evaluation of closed terms at sample points to refute an equality."""
import random, math, time
from fractions import Fraction
from .sym import *
from .facts import Facts, walk
from .vals import *

_N = [0]


def fresh(sort='nat'):
    _N[0] += 1
    return sym(('$c', _N[0]), sort)


# ------------------------------------------------------------------ oriented equalities
def eqmap(f):
    r = f.memo.get('eqmap')
    if r is not None:
        return r
    mp = {}
    for b in sorted((x for x in f.lits if x.k == 'eq'), key=lambda b: b.id):
        p = subst(b.a[0], mp) if mp else b.a[0]
        best = None
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
                continue
            a = m[0][0]
            if a.k not in ('sym', 'el', 'kap', 'sel', 'cnt'):
                continue
            co = p.coeff_of(a)
            if co is None or any(a is z for z in co[1].atoms()) or (a.k == 'sym' and a in co[1].free):
                continue
            pr = (0 if a.k == 'sym' else 1, -a.id)
            if best is None or pr < best[0]:
                best = (pr, a, co[1] * (-c) if c == 1 else co[1])
        if best is None:
            continue
        _, a, v = best
        mp = {k: subst(w, {a: v}) for k, w in mp.items()}
        mp[a] = v
    f.memo['eqmap'] = mp
    return mp


def simp(x, f, depth=0):
    """rewrite with the facts: equalities, decidable conditions"""
    mp = eqmap(f)
    if mp:
        x = subst(x, mp)
    return _simp(x, f, depth)


def _simp(x, f, depth):
    if depth > 8:
        return x
    key = ('simp', x)
    r = f.memo.get(key)
    if r is not None:
        return r
    r = x
    if isinstance(x, Poly):
        mp = {}
        for a in x.atoms():
            b = simp_atom(a, f, depth)
            if b is not P(a):
                mp[a] = b
        if mp:
            out = ZERO
            for m, c in x.t.items():
                t = P(c)
                for a, e in m:
                    b = mp.get(a)
                    b = P(a) if b is None else b
                    if e < 0:
                        b = inv(b)
                        e = -e
                    for _ in range(e):
                        t = t * b
                out = out + t
            r = out
    elif isinstance(x, B):
        r = simp_b(x, f, depth)
    f.memo[key] = r
    return r


def simp_b(x, f, depth):
    d = f.decide(x, 1)
    if d is True:
        return TRUE
    if d is False:
        return FALSE
    k = x.k
    if k == 'and':
        out = []
        g = f
        for y in x.a:
            z = _simp(y, g, depth + 1)
            if z is FALSE:
                return FALSE
            if z is not TRUE:
                out.append(z)
                g = g.plus(z)
        return And(*out)
    if k == 'or':
        out = []
        g = f
        for y in x.a:
            z = _simp(y, g, depth + 1)
            if z is TRUE:
                return TRUE
            if z is not FALSE:
                out.append(z)
                g = g.plus(Not(z))
        return Or(*out)
    if k == 'not':
        return Not(_simp(x.a[0], f, depth + 1))
    if k in ('all', 'ex'):
        n, ln, body = x.a
        v = fresh()
        g = f.plus(ge0(ln - 1 - P(v)))
        b = _simp(open_body(n, body, P(v)), g, depth + 1)
        return Forall(v, _simp(ln, f, depth + 1), b) if k == 'all' else Exists(v, _simp(ln, f, depth + 1), b)
    if k in ('tlt', 'tle', 'teq'):
        a, b = (_simp(y, f, depth + 1) for y in x.a)
        return {'tlt': tlt, 'tle': tle, 'teq': teq}[k](a, b)
    if k == 'eq':
        r = split_eq(x.a[0], f)
        if r is not None:
            return And(*[_simp(ieq(y, ZERO), f, depth + 1) for y in r])
    if k in ('eq', 'ge') and any(a.k == 'ite' for a in x.a[0].atoms()):
        p = _simp(x.a[0], f, depth + 1)
        if p is not x.a[0]:
            return _simp(ieq(p, ZERO) if k == 'eq' else ge0(p), f, depth + 1)
    if k == 'batom':
        a = simp_atom(x.a[0], f, depth + 1)
        s = a.single_atom()
        if s is not None:
            return s.a[0] if s.k == 'bool' else batom(s)
    return x


def split_eq(p, f):
    """S*q + r == 0 with -S < r < S: q == 0 and r == 0"""
    for S in strides(p):
        d = pdivmod(p, S)
        if d is None:
            continue
        q, r = d
        if q.const() is not None:
            continue
        for adj in (0, 1, -1):
            q2, r2 = q + adj, r - S * adj
            if f.prove(ge0(S - 1 - r2), 2) and f.prove(ge0(S - 1 + r2), 2):
                return (q2, r2)
    return None


def simp_atom(a, f, depth):
    k = a.k
    if k in ('sym', 'bv', 'unk'):
        return P(a)
    if k == 'ite':
        c = _simp(a.a[0], f, depth + 1)
        if c is TRUE:
            return _simp(a.a[1], f, depth + 1)
        if c is FALSE:
            return _simp(a.a[2], f, depth + 1)
        x = _simp(a.a[1], f.plus(c), depth + 1)
        y = _simp(a.a[2], f.plus(Not(c)), depth + 1)
        return pite(c, x, y)
    if k in BINDERS:
        n = a.a[0]
        v = fresh()
        ln = a.a[1] if isinstance(a.a[1], Poly) else None
        mid = [(_simp(z, f, depth + 1) if isinstance(z, (Poly, B)) else z) for z in a.a[1:-1]]
        g = f.plus(ge0(ln - 1 - P(v))) if ln is not None else f
        body = open_body(n, a.a[-1], P(v))
        b = _simp(body, g, depth + 1) if not g.inconsistent() else body
        if k == 'sum':
            return Sum(v, mid[0], b)
        if k == 'prod':
            return Prod(v, mid[0], b)
        if k in ('fold_max', 'fold_min'):
            return Fold(k[5:], v, mid[0], mid[1], b)
        n2, b2 = binder(b, v)
        return P(atom(k, n2, *mid, b2))
    if k in ('div', 'mod'):
        num, den = _simp(a.a[0], f, depth + 1), _simp(a.a[1], f, depth + 1)
        r = divide_range(num, den, f)
        if r is not None:
            return _simp(r[0] if k == 'div' else r[1], f, depth + 1)
    mp = {}
    for z in a.a:
        _collect(z, f, depth, mp)
    if not mp:
        return P(a)
    args = tuple(_repl(z, mp) for z in a.a)
    return mkatom(k, args)


def _collect(z, f, depth, mp):
    if isinstance(z, (Poly, B)):
        r = _simp(z, f, depth + 1)
        if r is not z:
            mp[z] = r
    elif isinstance(z, tuple):
        for y in z:
            _collect(y, f, depth, mp)


def _repl(z, mp):
    if isinstance(z, tuple):
        return tuple(_repl(y, mp) for y in z)
    if isinstance(z, (Poly, B)):
        return mp.get(z, z)
    return z


def mkatom(k, args):
    if k == 'ite':
        return pite(*args)
    if k == 'sqrt':
        return tsqrt(*args)
    if k == 'abs':
        return tabs(*args)
    if k == 'i2t':
        return i2t(*args)
    if k == 'pq':
        return args[0]
    if k in REBUILD:
        return REBUILD[k](*args)
    return P(atom(k, *args))


# ------------------------------------------------------------------ equality under facts
def find_cond(x, depth=0):
    """an ite condition usable for case splitting: free of bound variables"""
    out = []

    def go(y, seen):
        if isinstance(y, tuple):
            for z in y:
                go(z, seen)
            return
        if y in seen or not isinstance(y, (Node, Poly)):
            return
        seen.add(y)
        if isinstance(y, Poly):
            for m in y.t:
                for a, e in m:
                    go(a, seen)
            return
        if isinstance(y, Atom) and y.k == 'ite':
            if not open_bv(y.a[0]):
                c = y.a[0]
                out.append(c)
        for z in y.a:
            go(z, seen)
    go(x, set())
    return out


_OBV = {}
NOBV = frozenset()


def obv(y):
    """numbers of the bound variables (and fold accumulators) occurring free in y"""
    if isinstance(y, tuple):
        s = NOBV
        for z in y:
            s = s | obv(z)
        return s
    if not isinstance(y, (Node, Poly)):
        return NOBV
    if y.mbv == 0:
        return NOBV
    r = _OBV.get(y)
    if r is not None:
        return r
    if isinstance(y, Poly):
        r = NOBV
        for m in y.t:
            for a, e in m:
                r = r | obv(a)
    elif y.k in ('bv', 'accv'):
        r = frozenset([y.a[0]])
    elif isinstance(y, Atom) and y.k in BINDERS or isinstance(y, B) and y.k in ('all', 'ex'):
        r = obv(y.a[1:-1]) | (obv(y.a[-1]) - {y.a[0]})
    else:
        r = obv(y.a)
    _OBV[y] = r
    return r


def open_bv(x):
    """does x mention a bound variable that is not bound inside x?"""
    return bool(obv(x))


def atomic(c):
    while c.k in ('and', 'or'):
        c = c.a[0]
    return c


class Cmp:
    def __init__(self, budget=4000):
        self.left = budget
        self.bad = None       # facts under which equality could not be shown

    def eq(self, f, a, b, depth=0):
        if a is b:
            return True
        self.left -= 1
        if self.left < 0 or depth > 14:
            return False
        if f.inconsistent():
            return True
        if isinstance(a, B) or isinstance(b, B):
            return self.eqb(f, a, b, depth)
        a2, b2 = simp(a, f), simp(b, f)
        if a2 is b2:
            return True
        cs = find_cond(a2 - b2)
        # outermost, smallest first
        cs = sorted(set(cs), key=lambda c: (tsize(c), c.id))
        for c in cs[:1]:
            c = atomic(c)
            for cc in (c, Not(c)):
                g = f.plus(cc)
                if g.inconsistent():
                    continue
                if not self.eq(g, a2, b2, depth + 1):
                    return False
            return True
        if self.zero(f, a2 - b2, depth):
            return True
        # equalities entailed through congruence of integer arguments
        if self.bad is None:
            self.bad = (f, a2, b2)
        return False

    def zero(self, f, d, depth):
        if d is ZERO:
            return True
        if all_int(d) and f.prove(ieq(d, ZERO)):
            return True
        ats = sorted(d.atoms(), key=lambda x: x.id)
        for i, x in enumerate(ats):
            for y in ats[i + 1:]:
                if x.k == y.k and x.k not in ('sym',) and self.atom_eq(f, x, y, depth + 1):
                    d2 = subst_top(d, y, P(x))
                    return self.zero(f, d2, depth + 1)
        # inverse of compound denominators, products: try a common denominator
        e = clear_den(d)
        if e is not None and e is not d:
            return e is ZERO or self.zero2(f, e, depth)
        return False

    def zero2(self, f, d, depth):
        return d is ZERO

    def arg_eq(self, f, p, q, depth):
        if p is q:
            return True
        if type(p) is not type(q):
            return False
        if isinstance(p, tuple):
            return len(p) == len(q) and all(self.arg_eq(f, u, v, depth) for u, v in zip(p, q))
        if isinstance(p, Poly):
            if f.prove(ieq(p, q), 2):
                return True
            sb = self.bad
            r = self.eq(f, p, q, depth + 1)
            self.bad = sb
            return r
        if isinstance(p, B):
            sb = self.bad
            r = self.eqb(f, p, q, depth + 1)
            self.bad = sb
            return r
        return p == q

    def atom_eq(self, f, x, y, depth):
        if x is y:
            return True
        if x.k != y.k or len(x.a) != len(y.a) or depth > 14:
            return False
        if x.k in BINDERS:
            n, m = x.a[0], y.a[0]
            if not all(self.arg_eq(f, u, v, depth) for u, v in zip(x.a[1:-1], y.a[1:-1])):
                return False
            v = fresh()
            ln = x.a[1] if isinstance(x.a[1], Poly) else None
            g = f.plus(ge0(ln - 1 - P(v))) if ln is not None else f
            p, q = open_body(n, x.a[-1], P(v)), open_body(m, y.a[-1], P(v))
            sb = self.bad
            if self.eq(g, p, q, depth + 1):
                return True
            if x.k in ('sum', 'prod', 'fold_max', 'fold_min') and ln is not None:
                q = open_body(m, y.a[-1], ln - 1 - P(v))
                if self.eq(g, p, q, depth + 1):
                    self.bad = sb
                    return True
            self.bad = sb
            return False
        if x.k == 'app' and x.a[0] is y.a[0] and getattr(x.a[0], 'k', '') == 'sym' and len(x.a[1]) == 2 \
                and x.a[0].a[0] == 'approx_eq':
            if self.arg_eq(f, x.a[1], y.a[1][::-1], depth):
                return True
        return all(self.arg_eq(f, u, v, depth) for u, v in zip(x.a, y.a))

    def eqb(self, f, a, b, depth):
        a, b = simp(a, f), simp(b, f)
        if a is b:
            return True
        cs = sorted(set(find_cond(a) + find_cond(b)), key=lambda c: (tsize(c), c.id))
        for c in cs[:1]:
            c = atomic(c)
            for cc in (c, Not(c)):
                g = f.plus(cc)
                if not g.inconsistent() and not self.eqb(g, a, b, depth + 1):
                    return False
            return True
        if self.impl(f, a, b, depth) and self.impl(f, b, a, depth):
            return True
        if has_ex(a) or has_ex(b):
            na, nb = Not(a), Not(b)
            if self.impl(f, na, nb, depth) and self.impl(f, nb, na, depth):
                return True
        if self.bad is None:
            self.bad = (f, a, b)
        return False

    def impl(self, f, a, b, depth):
        """f and a imply b"""
        self.left -= 1
        if self.left < 0 or depth > 14:
            return False
        g = f.plus(a)
        if g.inconsistent() or g.prove(b):
            return True
        b = simp(b, g)
        if b is TRUE:
            return True
        if b.k == 'and':
            return all(self.impl(f, a, y, depth + 1) for y in b.a)
        if a.k == 'or':
            return all(self.impl(f, y, b, depth + 1) for y in a.a)
        if b.k == 'all':
            n, ln, body = b.a
            v = fresh()
            return self.impl(f.plus(ge0(ln - 1 - P(v))), a, open_body(n, body, P(v)), depth + 1)
        if a.k == 'ex':
            n, ln, body = a.a
            v = fresh()
            return self.impl(f.plus(ge0(ln - 1 - P(v))), open_body(n, body, P(v)), b, depth + 1)
        if b.k == 'or':
            # assume the others false
            for k, y in enumerate(b.a):
                oth = [Not(z) for j, z in enumerate(b.a) if j != k]
                h = f.plus(*oth)
                if h.plus(a).inconsistent() or (self.impl(h, a, y, depth + 1)):
                    return True
            return False
        # a universally quantified hypothesis matching the goal atom
        for al in g.alls + [x for x in g.lits if x.k == 'all']:
            for inst in self.instances(g, al, b):
                if inst is b or (inst.k == 'and' and b in inst.a) or self.lit_eq(g, inst, b, depth + 1):
                    return True
        for l in list(g.lits):
            if l.k == b.k and self.lit_eq(g, l, b, depth + 1):
                return True
        return False

    def lit_eq(self, f, x, y, depth):
        if x is y:
            return True
        if x.k == 'and':
            return any(self.lit_eq(f, z, y, depth) for z in x.a)
        if x.k == 'or':
            # resolve the other disjuncts away
            live = [z for z in x.a if not f.prove(Not(z), 1)]
            return len(live) == 1 and self.lit_eq(f, live[0], y, depth)
        if x.k != y.k:
            return False
        if x.k == 'not':
            return self.lit_eq(f, x.a[0], y.a[0], depth)
        if x.k == 'batom':
            return self.atom_eq(f, x.a[0], y.a[0], depth)
        if x.k in ('tlt', 'tle'):
            return all(self.arg_eq(f, u, v, depth) for u, v in zip(x.a, y.a))
        if x.k == 'teq':
            return all(self.arg_eq(f, u, v, depth) for u, v in zip(x.a, y.a)) or \
                all(self.arg_eq(f, u, v, depth) for u, v in zip(x.a, y.a[::-1]))
        if x.k in ('ge', 'eq'):
            return self.arg_eq(f, x.a[0], y.a[0], depth)
        return False

    def instances(self, f, al, goal):
        """instances of a (nested) universal fact suggested by the goal's element accesses"""
        vs = []
        mp = eqmap(f)
        if mp:
            al, goal = subst(al, mp), subst(goal, mp)
        body = al
        while body.k == 'all':
            n, ln, inner = body.a
            v = atom('sym', ('$q', len(vs)), 'nat')
            vs.append((v, ln))
            body = open_body(n, inner, P(v))
        vset = {v for v, ln in vs}
        pats, els = [], []

        def col(x, out):
            def g(nd):
                if isinstance(nd, Atom) and nd.k in ('el', 'app', 'lread', 'opqel'):
                    for w, ix in enumerate(nd.a[1:]):
                        for u, q in enumerate(ix if isinstance(ix, tuple) else (ix,)):
                            if isinstance(q, Poly):
                                out.append(((nd.k, nd.a[0], w, u), q))
            walk(x, g)
        col(body, pats)
        col(goal, els)
        seen = set()
        for key, ix in els:
            if open_bv(ix):
                continue
            for key2, pix in pats:
                if key != key2 or open_bv(pix):
                    continue
                live = [(v, ln) for v, ln in vs if v in pix.free]
                if len(live) < len(vs) or not live:
                    continue
                r = solve_layer(Layer(tuple(vs), TRUE, pix, ZERO), ix, f)
                if r[0] != 'sol' or r[2] is FALSE:
                    continue
                y = subst(body, r[1])
                if y in seen:
                    continue
                seen.add(y)
                if f.prove(r[2], 2):
                    yield y


def has_ex(b):
    return b.k == 'ex' or b.k in ('and', 'or', 'not') and any(has_ex(x) for x in b.a)


def subst_top(d, a, v):
    out = ZERO
    for m, c in d.t.items():
        t = P(c)
        for x, e in m:
            b = v if x is a else P(x)
            if e < 0:
                b = inv(b)
                e = -e
            for _ in range(e):
                t = t * b
        out = out + t
    return out


INTK = {'div', 'mod', 'cnt', 'sel', 'kap', 'max0', 't2i'}


def all_int(p):
    for a in p.atoms():
        if a.k == 'sym':
            if a.a[1] not in ('nat', 'int', 'dim'):
                return False
        elif a.k == 'el':
            if not (getattr(a.a[0], 'k', '') == 'sym' and a.a[0].a[1] == 'natarr'):
                return False
        elif a.k == 'ite':
            if not (all_int(a.a[1]) and all_int(a.a[2])):
                return False
        elif a.k not in INTK:
            return False
    return True


def equal(f, a, b):
    c = Cmp()
    r = c.eq(f, a, b)
    return r, c.bad


# ------------------------------------------------------------------ refutation at sample points
UNRESOLVED = {'unk', 'lread', 'lst', 'dirty', 'opqel', 'opqlen', 'unkpat', 'site'}


def resolved(*xs):
    bad = []

    def g(n):
        if n.k in UNRESOLVED:
            bad.append(n)
    for x in xs:
        walk(x, g)
    return not bad, bad


class NoVal(Exception):
    pass


def root(x):
    x = Fraction(x)
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n != x.numerator or d * d != x.denominator:
        raise NoVal('no exact root')
    return Fraction(n, d)


def around(rng, pool, tv):
    """a value at, beside or far from one of the constants, or one drawn before (or its negation)"""
    r = rng.random()
    if r < 0.3:
        old = [v for v in tv.values() if isinstance(v, Fraction) and v]
        if old:
            return rng.choice(old) * rng.choice((1, -1, -1))
    c = rng.choice(pool)
    return c * rng.choice((1, 1, -1, Fraction(1001, 1000), Fraction(999, 1000), 2, Fraction(1, 2), -2, Fraction(1, 1000), 1000))


class Eval:
    def __init__(self, rng, ints):
        self.rng = rng
        self.ints = ints
        self.tv = {}
        self.fuel = 40000
        # distributions: uniform, or nearly constant with rare exceptions (so that universally quantified terms discriminate)
        self.pb = rng.choice([0.5, 0.5, 0.93, 0.07, 0.98, 0.02])
        self.pt = rng.choice([0.0, 0.0, 0.0, 0.93])

    pool = None         # constants elements are compared with: values are drawn around them
    rational = False    # no value but exact ones

    def tval(self, key):
        v = self.tv.get(key)
        if v is None and self.pool and self.rng.random() < 0.7:
            v = self.tv[key] = around(self.rng, self.pool, self.tv)
        if v is None and self.pt and self.rng.random() < self.pt:
            v = self.tv[key] = Fraction(1)
        if v is None:
            v = self.tv[key] = Fraction(self.rng.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7]), self.rng.choice([1, 2, 3]))
        return v

    def ival(self, key, lim=3):
        v = self.tv.get(key)
        if v is None:
            v = self.tv[key] = self.rng.randrange(0, lim)
        return v

    def bval(self, key):
        v = self.tv.get(key)
        if v is None:
            v = self.tv[key] = self.rng.random() < self.pb
        return v

    def p(self, x, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoVal('fuel')
        tot = 0
        for m, c in x.t.items():
            v = c
            for a, e in m:
                w = self.atom(a, env)
                if e < 0:
                    if w == 0:
                        raise NoVal('0^-1')
                    w = (Fraction(1) / w if not isinstance(w, float) else 1 / w)
                    e = -e
                v = v * (w ** e)
            tot = tot + v
        return tot

    def arg(self, z, env):
        if isinstance(z, tuple):
            return tuple(self.arg(y, env) for y in z)
        if isinstance(z, Poly):
            v = self.p(z, env)
            return round(v, 9) if isinstance(v, float) else v
        if isinstance(z, B):
            return self.b(z, env)
        if isinstance(z, Atom):
            return z
        return z

    def atom(self, a, env):
        k = a.k
        if k == 'bv':
            return env[a.a[0]]
        if k == 'sym':
            if a in self.ints:
                return self.ints[a]
            if a.a[1] in ('nat', 'int', 'dim'):
                raise NoVal('free int %r' % a)
            return self.tval(a)
        if k == 'el':
            i = self.arg(a.a[1], env)
            s = getattr(a.a[0], 'a', (None, None))[1]
            if s == 'natarr':
                return self.ival((a.a[0], i))
            return self.tval((a.a[0], i))
        if k == 'ite':
            return self.p(a.a[1] if self.b(a.a[0], env) else a.a[2], env)
        if k in ('sum', 'prod'):
            n = self.p(a.a[1], env)
            t = 0 if k == 'sum' else 1
            for j in range(int(n)):
                v = self.p(a.a[2], {**env, a.a[0]: j})
                t = t + v if k == 'sum' else t * v
            return t
        if k in ('fold_max', 'fold_min'):
            n = self.p(a.a[1], env)
            init = a.a[2]
            vs = []
            if not (init.single_atom() is not None and init.single_atom().k == 'noinit'):
                vs.append(self.p(init, env))
            for j in range(int(n)):
                vs.append(self.p(a.a[3], {**env, a.a[0]: j}))
            if not vs:
                raise NoVal('empty fold')
            return max(vs) if k == 'fold_max' else min(vs)
        if k == 'cnt':
            n = self.p(a.a[1], env)
            return sum(1 for j in range(int(n)) if self.b(a.a[2], {**env, a.a[0]: j}))
        if k == 'sel':
            n = self.p(a.a[1], env)
            ix = self.p(a.a[2], env)
            c = 0
            for j in range(int(n)):
                if self.b(a.a[3], {**env, a.a[0]: j}):
                    if c == ix:
                        return j
                    c += 1
            raise NoVal('sel')
        if k == 'gfold':
            n, ln, init, body = a.a
            acc = self.p(init, env)
            for j in range(int(self.p(ln, env))):
                acc = self.p(body, {**env, n: j, ('acc', n): acc})
            return acc
        if k == 'accv':
            if ('acc', a.a[0]) not in env:
                raise NoVal('accv')
            return env[('acc', a.a[0])]
        if k == 'div':
            x, y = self.p(a.a[0], env), self.p(a.a[1], env)
            if y == 0:
                raise NoVal('div0')
            return x // y
        if k == 'mod':
            x, y = self.p(a.a[0], env), self.p(a.a[1], env)
            if y == 0:
                raise NoVal('div0')
            return x % y
        if k == 'pq':
            return self.p(a.a[0], env)
        if k == 'abs':
            return abs(self.p(a.a[0], env))
        if k == 'sqrt':
            x = self.p(a.a[0], env)
            if x < 0:
                raise NoVal('sqrt<0')
            if self.rational:
                return root(x)
            return math.sqrt(x)
        if k == 'powf':
            x, y = self.p(a.a[0], env), self.p(a.a[1], env)
            if x == 2 and y == int(y) and abs(y) < 1100:
                return Fraction(2) ** int(y)
            if x <= 0 or abs(y) > 20 or x > 1e6 or self.rational:
                raise NoVal('powf')
            return float(x) ** float(y)
        if k == 'powi':
            return self.p(a.a[0], env) ** int(self.p(a.a[1], env))
        if k == 'i2t':
            return self.p(a.a[0], env)
        if k == 'bool':
            return 1 if self.b(a.a[0], env) else 0
        if k == 'max0':
            return max(0, self.p(a.a[0], env))
        if k == 'app':
            ar = self.arg(a.a[1], env)
            nm = a.a[0].a[0] if isinstance(a.a[0], Atom) else a.a[0]
            if nm == 'approx_eq':
                ar = tuple(sorted(ar))
                return 1 if ar[0] == ar[1] else (1 if self.bval((a.a[0], ar)) else 0)
            return self.tval(('app', a.a[0], ar))
        if k == 'kap':
            return self.kap(a, env)
        if k in UNRESOLVED:
            raise NoVal(k)
        # any other function symbol: uninterpreted
        ar = tuple(self.arg(z, env) for z in a.a)
        return self.tval((k, ar))

    kaps = {}

    def kap(self, a, env):
        """the first iteration in which the loop is left"""
        d = self.kaps.get(a.a[0])
        if d is None:
            raise NoVal('kap')
        i, params, N, ex = d
        vs = self.arg(a.a[1], env)
        key = ('kap', a.a[0], vs)
        if key in self.tv:
            return self.tv[key]
        save = dict(self.ints)
        try:
            for q, v in zip(params, vs):
                self.ints[q] = v
            n = int(self.p(N, env)) if N is not None else 400
            for j in range(min(n, 400)):
                self.ints[i] = j
                if self.b(ex, env):
                    self.tv[key] = j
                    return j
        finally:
            self.ints.clear()
            self.ints.update(save)
        raise NoVal('kap')

    def b(self, x, env):
        k = x.k
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if k == 'ge':
            return self.p(x.a[0], env) >= 0
        if k == 'eq':
            return self.p(x.a[0], env) == 0
        if k == 'tlt':
            return self.p(x.a[0], env) < self.p(x.a[1], env)
        if k == 'tle':
            return self.p(x.a[0], env) <= self.p(x.a[1], env)
        if k == 'teq':
            return self.p(x.a[0], env) == self.p(x.a[1], env)
        if k == 'not':
            return not self.b(x.a[0], env)
        if k == 'and':
            return all(self.b(y, env) for y in x.a)
        if k == 'or':
            return any(self.b(y, env) for y in x.a)
        if k in ('all', 'ex'):
            n = int(self.p(x.a[1], env))
            it = (self.b(x.a[2], {**env, x.a[0]: j}) for j in range(n))
            return all(it) if k == 'all' else any(it)
        if k == 'batom':
            a = x.a[0]
            if a.k == 'app':
                ar = self.arg(a.a[1], env)
                nm = a.a[0].a[0]
                if nm == 'approx_eq':
                    ar = tuple(sorted(ar))
                    return ar[0] == ar[1] or self.bval((a.a[0], ar))
                return self.bval(('app', a.a[0], ar))
            if a.k == 'el':
                return self.bval((a.a[0], self.arg(a.a[1], env)))
            if a.k == 'sym':
                return self.bval(a)
            if a.k in UNRESOLVED:
                raise NoVal(a.k)
            return self.bval((a.k, tuple(self.arg(z, env) for z in a.a)))
        raise NoVal(k)


def int_syms(*xs):
    s = set()

    def g(n):
        if n.k == 'sym' and n.a[1] in ('nat', 'int', 'dim'):
            s.add(n)
    for x in xs:
        walk(x, g)
    return sorted(s, key=lambda a: a.id)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    return a == b


def refute(conds, a, b, tries=6000, seed=1, lim=4, kaps=None):
    """a point where all conds hold and a != b: dict of integer symbols, or None"""
    ok, _ = resolved(a, b)
    if not ok:
        return None
    cs = [c for c in conds if c is not TRUE]
    ok, _ = resolved(*cs)
    if not ok:
        return None
    a, b, cs = unify(a, b, cs)
    rng = random.Random(seed)
    syms = int_syms(a, b, *cs)
    quant = isinstance(a, B) and any(has_quant(x) for x in (a, b))

    def sizes(n):
        ints = {}
        same = rng.randrange(1, lim + 2) if n % 4 == 0 else None
        for s in syms:
            lo = 1 if s.a[1] == 'dim' else 0
            hi = lim if n % 3 else lim + 2
            ints[s] = rng.randrange(lo if s.a[1] != 'int' else -lim, hi + 1) if same is None or not str(s.a[0]).endswith(('.R', '.C', '.len')) else same
        return ints
    w = points(cs, a, b, rng, sizes, tries, 3000 if quant else 400, 40000, kaps=kaps)
    if w:
        return w
    pool = sorted(constants(a) ^ constants(b))
    if pool:
        w = points(cs, a, b, rng, sizes, tries, 3000 if quant else 1200, 40000, secs=3.0, kaps=kaps, pool=pool)
        if w:
            return w
    ks = thresholds(a, b, *cs, *[d[3] for d in (kaps or {}).values()])
    if not ks:
        return None
    big = [s for s in syms if str(s.a[0]).endswith(('.R', '.C', '.len')) or s.a[1] == 'dim']
    def near(k):
        return max(0, k + rng.randrange(-1, 5))

    def larger(n):
        ints = {}
        k = rng.choice(ks)
        mode = rng.randrange(4)
        top = rng.choice(big) if big else None
        for s in big:
            if mode == 0 or s is top:
                ints[s] = max(1, near(k))
            elif mode == 1:
                ints[s] = ints.get(top) or max(1, near(k))
            else:
                ints[s] = rng.randrange(1, 5)
            if mode == 3 and s is top:
                ints[s] = max(1, -(-k // rng.randrange(1, 5)) + rng.randrange(0, 3))
        if mode == 1 and top is not None and rng.random() < 0.8:
            for s in big:
                ints[s] = ints[top]
        ext = max(list(ints.values()) or [k])
        for s in syms:
            if s not in ints:
                r = rng.random()
                ints[s] = rng.randrange(0, ext + 1) if r < 0.4 else max(0, ext - rng.randrange(0, 3)) if r < 0.55 else near(k) if r < 0.7 else rng.randrange(0, 4)
        return ints
    return points(cs, a, b, rng, larger, tries, 4000 if quant else 600, 150000, secs=6.0 if quant else 4.0, quant=quant, kaps=kaps)


def unify(a, b, cs):
    """equal sizes become one symbol"""
    for _ in range(4):
        for c in cs:
            if c.k != 'eq' or len(c.a[0].t) != 2:
                continue
            ts = sorted((int(k), m) for m, k in c.a[0].t.items())
            if [k for k, m in ts] != [-1, 1] or any(len(m) != 1 or m[0][1] != 1 or m[0][0].k != 'sym' for k, m in ts):
                continue
            x, y = ts[0][1][0][0], ts[1][1][0][0]
            if x.a[1] not in ('nat', 'dim') or y.a[1] not in ('nat', 'dim'):
                continue
            mp = {y: P(x)} if x.a[1] == 'dim' else {x: P(y)}
            a, b, cs = subst(a, mp), subst(b, mp), [subst(z, mp) for z in cs]
            cs = [z for z in cs if z is not TRUE]
            break
        else:
            break
    return a, b, cs


def thresholds(*xs):
    """integer constants of comparisons, quotients, remainders and bounds, beyond the sizes sampled first"""
    ks = set()

    def see(p):
        if isinstance(p, Poly):
            for m, c in p.t.items():
                if c == int(c) and 2 < abs(c) <= 2 ** 33:
                    ks.add(int(abs(c)))

    def g(n):
        if n.k in ('ge', 'eq', 'div', 'mod', 'max0'):
            for y in n.a:
                see(y)
        elif n.k in BINDERS or n.k in ('all', 'ex'):
            see(n.a[1])
    for x in xs:
        walk(x, g)
    return sorted(ks)


def constants(*xs):
    """constants elements are compared with, beyond the values drawn first"""
    ks = set()

    def g(n):
        if n.k in ('tlt', 'tle', 'teq'):
            for y in n.a:
                for m, c in y.t.items() if isinstance(y, Poly) else ():
                    c = abs(Fraction(c))
                    if c and (c.denominator > 4 or c > 8):
                        ks.add(c)
    for x in xs:
        walk(x, g)
    return ks


def points(cs, a, b, rng, sizes, tries, hits, fuel, secs=None, quant=False, kaps=None, pool=None):
    hit = 0
    n = 0
    t0 = time.time()
    while n < tries and hit < hits and (secs is None or time.time() - t0 < secs):
        n += 1
        ints = sizes(n)
        ev = Eval(rng, ints)
        ev.fuel = fuel
        ev.kaps = kaps or {}
        if pool:
            ev.pool, ev.rational = pool, True
        if quant and rng.random() < 0.6:
            ev.pb = rng.choice([0.9, 0.96, 0.98])
        try:
            if not all(ev.b(c, {}) for c in cs):
                continue
            hit += 1
            x = ev.b(a, {}) if isinstance(a, B) else ev.p(a, {})
            y = ev.b(b, {}) if isinstance(b, B) else ev.p(b, {})
            if not close(x, y):
                w = {show(P(s)): int(v) for s, v in ints.items()}
                w['got'] = str(x)
                w['want'] = str(y)
                return w
        except (NoVal, OverflowError, ZeroDivisionError):
            continue
    return None


def has_quant(b):
    return b.k in ('all', 'ex') or b.k in ('and', 'or', 'not') and any(has_quant(x) for x in b.a)


def refute_cond(conds, goal, **kw):
    """a point where all conds hold and goal is false"""
    return refute(conds, goal, TRUE, **kw)
