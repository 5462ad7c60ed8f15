"""Abstract values of the interpreter: arrays as layered region writes, structs, enums, references."""
from .sym import *
from .facts import Facts, walk


class Undecided(Exception):
    """analysis gave up on a construct (never silently ignored: turns into an undecided obligation)"""


class St:
    __slots__ = ('n', 'f')

    def __init__(self, n, f):
        self.n = n
        self.f = f

    def __repr__(self):
        return '%s{%s}' % (self.n, ', '.join('%s: %r' % kv for kv in self.f.items()))


class En:
    """enum value: mutually exclusive guarded cases [(guard, variant, {field: value})]"""
    __slots__ = ('n', 'cases')

    def __init__(self, n, cases):
        self.n = n
        self.cases = cases

    def __repr__(self):
        return '%s<%s>' % (self.n, ' | '.join('%r=>%s%r' % c for c in self.cases))


class Ref:
    __slots__ = ('cell', 'proj', 'mut')

    def __init__(self, cell, proj=(), mut=False):
        self.cell = cell
        self.proj = proj
        self.mut = mut

    def __repr__(self):
        return '&%r%r' % (self.cell, self.proj)


class Clo:
    __slots__ = ('key', 'up', 'env')

    def __init__(self, key, up, env):
        self.key = key
        self.up = up
        self.env = env

    def __repr__(self):
        return 'closure(%s)' % self.key


class FnV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class FnParam:
    """an opaque callable argument; `pure` application is an uninterpreted function"""
    __slots__ = ('name', 'ret', 'last')

    def __init__(self, name, ret, last=False):
        self.name = name
        self.ret = ret
        self.last = last        # applied to its last argument (the others are the same at every call)

    def __repr__(self):
        return 'fnparam(%s)' % self.name


class Opq:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'opaque(%s)' % self.why


class Lit(Opq):
    """a literal piece of text"""
    __slots__ = ('text',)

    def __init__(self, text):
        Opq.__init__(self, 'literal')
        self.text = text


class VIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'vite(%r, %r, %r)' % (self.c, self.a, self.b)


class It:
    """iterator: `ln` elements, `at(st, i)` yields the i-th.  cond(st,i)->B marks filtered iterators."""
    __slots__ = ('ln', 'at', 'cond', 'inf')

    def __init__(self, ln, at, cond=None):
        self.ln = ln
        self.at = at
        self.cond = cond

    def __repr__(self):
        return 'iter(len=%r)' % (self.ln,)


UNIT = St('()', {})


class Layer:
    __slots__ = ('vars', 'guard', 'idx', 'val')

    def __init__(self, vars, guard, idx, val):
        self.vars = vars        # ((atom, len), ...)
        self.guard = guard
        self.idx = idx
        self.val = val

    def __repr__(self):
        return '[%s] := %r  for %s if %r' % (self.idx, self.val, ', '.join('%r<%r' % v for v in self.vars), self.guard)


class Arr:
    __slots__ = ('ln', 'base', 'layers', 'ek', 'cap')

    def __init__(self, ln, base, layers=(), ek='T', cap=None):
        self.ln = ln
        self.base = base
        self.layers = layers
        self.ek = ek
        self.cap = cap          # capacity of a vector just allocated

    def __repr__(self):
        return 'Arr(len=%r, %r, %r)' % (self.ln, self.base, list(self.layers))


DIRTY = P(atom('dirty'))


# ------------------------------------------------------------------ generic traversals
def vsubst(v, mp):
    if not mp:
        return v
    if isinstance(v, (Poly, B)):
        return subst(v, mp)
    if isinstance(v, St):
        return St(v.n, {k: vsubst(x, mp) for k, x in v.f.items()})
    if isinstance(v, En):
        return En(v.n, [(subst(g, mp), n, {k: vsubst(x, mp) for k, x in f.items()}) for g, n, f in v.cases])
    if isinstance(v, Arr):
        return Arr(subst(v.ln, mp), bsubst(v.base, mp), tuple(lsubst(l, mp) for l in v.layers), v.ek)
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(psubst(p, mp) for p in v.proj), v.mut)
    if isinstance(v, VIte):
        return VIte(subst(v.c, mp), vsubst(v.a, mp), vsubst(v.b, mp))
    if isinstance(v, Clo):
        return Clo(v.key, [vsubst(x, mp) for x in v.up], v.env)
    if isinstance(v, It):
        at, cond = v.at, v.cond
        return It(subst(v.ln, mp), lambda st, i: vsubst(at(st, i), mp), (lambda st, i: subst(cond(st, i), mp)) if cond else None)
    return v


def psubst(p, mp):
    return tuple(subst(x, mp) if isinstance(x, (Poly, B)) else x for x in p)


def bsubst(b, mp):
    if b[0] in ('sym', 'dirty'):
        return b
    if b[0] == 'const':
        return ('const', vsubst(b[1], mp))
    if b[0] == 'fn':
        return ('fn', b[1], vsubst(b[2], mp))
    if b[0] == 'lst':
        return ('lst', tuple(vsubst(x, mp) for x in b[1]))
    if b[0] == 'ite':
        return ('ite', subst(b[1], mp), vsubst(b[2], mp), vsubst(b[3], mp))
    if b[0] == 'sub':
        return ('sub', vsubst(b[1], mp), subst(b[2], mp))
    if b[0] == 'loop':
        return ('loop', subst(P(b[1]), mp).single_atom(), subst(b[2], mp))
    return b


def lsubst(l, mp):
    return Layer(tuple((a, subst(n, mp)) for a, n in l.vars), subst(l.guard, mp), subst(l.idx, mp), vsubst(l.val, mp))


def vfree(v):
    if isinstance(v, (Poly, B, Atom)):
        return v.free
    s = frozenset()
    if isinstance(v, St):
        for x in v.f.values():
            s |= vfree(x)
    elif isinstance(v, En):
        for g, n, f in v.cases:
            s |= g.free
            for x in f.values():
                s |= vfree(x)
    elif isinstance(v, Arr):
        s |= v.ln.free
        for l in v.layers:
            s |= lfree(l)
        b = v.base
        for x in b[1:]:
            if isinstance(x, tuple):
                for y in x:
                    s |= vfree(y)
            else:
                s |= vfree(x)
    elif isinstance(v, Ref):
        for p in v.proj:
            for x in p:
                if isinstance(x, (Poly, B)):
                    s |= x.free
    elif isinstance(v, VIte):
        s |= v.c.free | vfree(v.a) | vfree(v.b)
    elif isinstance(v, Clo):
        for x in v.up:
            s |= vfree(x)
    elif isinstance(v, It):
        s |= v.ln.free
    return s


def lfree(l):
    s = l.guard.free | l.idx.free | vfree(l.val)
    for a, n in l.vars:
        s |= n.free
    return s - frozenset(a for a, n in l.vars)


def same(a, b):
    """structural equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Poly, B)):
        return a is b
    if isinstance(a, St):
        return a.n == b.n and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, En):
        return len(a.cases) == len(b.cases) and all(
            x[0] is y[0] and x[1] == y[1] and x[2].keys() == y[2].keys() and all(same(x[2][k], y[2][k]) for k in x[2])
            for x, y in zip(a.cases, b.cases))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.proj == b.proj
    if isinstance(a, Arr):
        if a.ln is not b.ln or not same_base(a.base, b.base) or len(a.layers) != len(b.layers):
            return False
        return all(x is y or same_layer(x, y) for x, y in zip(a.layers, b.layers))
    if isinstance(a, Clo):
        return a.key == b.key and all(same(x, y) for x, y in zip(a.up, b.up))
    if isinstance(a, VIte):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FnParam):
        return a.name == b.name
    if isinstance(a, FnV):
        return a.c is b.c
    if isinstance(a, It):
        return False
    if isinstance(a, Opq):
        return a.why == b.why
    return False


def same_layer(x, y):
    return x.vars == y.vars and x.guard is y.guard and x.idx is y.idx and same(x.val, y.val)


def same_base(a, b):
    if a is b:
        return True
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple):
            if len(x) != len(y) or not all(same(p, q) for p, q in zip(x, y)):
                return False
        elif isinstance(x, (Poly, B, Atom)):
            if x is not y:
                return False
        elif not same(x, y):
            return False
    return True


def merge(c, a, b):
    """value that is `a` when c holds and `b` otherwise"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return pite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, St) and isinstance(b, St) and a.n == b.n and a.f.keys() == b.f.keys():
        return St(a.n, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, En) and isinstance(b, En):
        cs = []
        nc = Not(c)
        for g, n, f in a.cases:
            cs.append((And(c, g), n, f))
        for g, n, f in b.cases:
            g2 = And(nc, g)
            hit = False
            for k, (g0, n0, f0) in enumerate(cs):
                if n0 == n and f0.keys() == f.keys():
                    # merge payloads of the same variant
                    try:
                        cs[k] = (Or(g0, g2), n, {q: merge(c, f0[q], f[q]) for q in f})
                        hit = True
                    except Undecided:
                        pass
                    break
            if not hit:
                cs.append((g2, n, f))
        return En(a.n, [x for x in cs if x[0] is not FALSE])
    if isinstance(a, Arr) and isinstance(b, Arr):
        ln = pite(c, a.ln, b.ln)
        if same_base(a.base, b.base):
            k = 0
            while k < len(a.layers) and k < len(b.layers) and (a.layers[k] is b.layers[k] or same_layer(a.layers[k], b.layers[k])):
                k += 1
            # remaining layers guarded
            nc = Not(c)
            ls = list(a.layers[:k])
            ra, rb = a.layers[k:], b.layers[k:]
            # identical index regions: merge values
            if len(ra) == len(rb) and all(x.vars == y.vars and x.idx is y.idx and x.guard is y.guard for x, y in zip(ra, rb)):
                for x, y in zip(ra, rb):
                    ls.append(Layer(x.vars, x.guard, x.idx, merge(c, x.val, y.val)))
            else:
                for x in ra:
                    ls.append(Layer(x.vars, And(c, x.guard), x.idx, x.val))
                for x in rb:
                    ls.append(Layer(x.vars, And(nc, x.guard), x.idx, x.val))
            return Arr(ln, a.base, tuple(ls), a.ek)
        return Arr(ln, ('ite', c, a, b), (), a.ek)
    if isinstance(a, Opq):
        return a
    if isinstance(b, Opq):
        return b
    return VIte(c, a, b)


# ------------------------------------------------------------------ linear solving of index equations
def split_ites(layer, facts):
    """case-split a layer whose index or guard contains an ite over its own variables"""
    vs = {a for a, n in layer.vars}
    out = [layer]
    for _ in range(4):
        nxt = []
        chg = False
        for l in out:
            it = None
            for a in l.idx.atoms():
                if a.k == 'ite' and (a.free & vs):
                    it = a
                    break
            if it is None:
                nxt.append(l)
                continue
            chg = True
            c, x, y = it.a
            for cc, v in ((c, x), (Not(c), y)):
                mp = {it: v}
                g = And(subst(l.guard, mp), cc)
                if g is FALSE:
                    continue
                nxt.append(Layer(l.vars, g, subst(l.idx, mp), vsubst(l.val, mp)))
        out = nxt
        if not chg:
            break
    return out


def lin_decomp(idx, vs):
    """idx = sum S_k*v_k + c with S_k, c free of vs.  Returns (dict v->S, c) or None"""
    co = {}
    rest = idx
    for v in vs:
        r = rest.coeff_of(v)
        if r is None:
            return None
        S, rest = r
        co[v] = S
    for v, S in co.items():
        if S.free & vs or any(a in vs for a in S.atoms()):
            return None
    if rest.free & vs:
        return None
    return co, rest


def solve_layer(layer, e, facts):
    """solve layer.idx(vars) == e.  Returns ('no',) | ('sol', mapping, cond) | ('may', why)"""
    vs = [a for a, n in layer.vars]
    vset = frozenset(vs)
    if not vs:
        return ('sol', {}, And(layer.guard, ieq(layer.idx, e)))
    rng = []
    for a, n in layer.vars:
        rng.append(ge0(n - 1 - P(a)))
        rng.append(ge0(P(a)))
    # guards that do not mention the variables can be assumed while solving; guards that do restrict them
    f = facts.plus(*rng, layer.guard)
    if f.dead:
        return ('no',)
    dm = lin_decomp(layer.idx, vset)
    if dm is None:
        # strided/modular single variable patterns
        r = solve_modular(layer, e, facts)
        if r is not None:
            return r
        return ('may', 'non-affine index %s' % layer.idx)
    co, c = dm
    mapping = {}
    conds = []
    remaining = [v for v in vs if co[v] is not ZERO]
    free = [v for v in vs if co[v] is ZERO]
    if free:
        return ('may', 'index does not determine %s' % free)
    cur_c, cur_e = c, e
    while remaining:
        if len(remaining) == 1:
            v = remaining[0]
            S = co[v]
            d = cur_e - cur_c
            if S.const() in (1, -1):
                mapping[v] = d * S.const()
                remaining = []
                break
            if not (f.prove(ge0(S - 1), 1) or f.prove(ge0(-S - 1), 1)):
                return ('may', 'stride %s may be 0' % S)
            q = exact_div(d, S)
            if q is not None:
                mapping[v] = q
                remaining = []
                break
            r = divide_range(d, S, f)
            if r is None:
                r = split_both(cur_e, cur_c + S * P(v), v, facts, f)
                if r is None:
                    return ('may', 'cannot divide %s by %s' % (d, S))
                mapping[v] = r[0]
                conds.append(r[1])
                remaining = []
                break
            q, rem = r
            mapping[v] = q
            conds.append(ieq(rem, ZERO))
            remaining = []
            break
        done = False
        # a variable may also move the position within the row: its stride is that of the row plus a constant
        cand = [(v, co[v], ZERO) for v in remaining]
        for v in remaining:
            k = co[v].t.get((), 0)
            if k and co[v].const() is None:
                cand.append((v, co[v] - k, P(k)))
        for v, S, k in cand:
            if S.const() == 1 or not f.prove(ge0(S - 1), 1):
                continue
            rho = k * P(v)
            for w in remaining:
                if w is not v:
                    rho = rho + co[w] * P(w)
            dv = pdivmod(cur_c, S)
            if dv is None:
                continue
            cq, cr = dv
            okc = None
            for adj in (0, -1, 1):
                tq, tr = cq + adj, cr - S * adj
                if f.prove(ge0(rho + tr), 2) and f.prove(ge0(S - 1 - rho - tr), 2):
                    okc = (tq, tr)
                    break
            if okc is None:
                continue
            cq, cr = okc
            r = divide_range(cur_e, S, facts)
            if r is None:
                continue
            eq, er = r
            mapping[v] = eq - cq
            cur_c, cur_e = cr + k * mapping[v], er
            remaining.remove(v)
            done = True
            break
        if not done:
            return ('may', 'cannot delinearise %s == %s' % (layer.idx, e))
    # remaining equation for vars solved; check constant leftovers handled via mapping
    if len(vs) > 0 and not remaining:
        pass
    conds2 = []
    for a, n in layer.vars:
        v = mapping[a]
        nn = subst(n, mapping)
        conds2.append(ge0(v))
        conds2.append(ge0(nn - 1 - v))
    g = subst(layer.guard, mapping)
    return ('sol', mapping, And(*conds, *conds2, g))


def strides(e):
    """candidate moduli for a two-level decomposition of an index"""
    out = []
    for m in e.t:
        if len(m) >= 2 and all(x > 0 for a, x in m):
            for a, x in m:
                if a.k in ('sym', 'ite') and P(a) not in out:
                    out.append(P(a))
    return out


def split_both(e, idx, v, fe, fi):
    """e == idx(v) through the quotients and remainders of both sides by a common modulus: (value of v, condition)"""
    for T in strides(e):
        if v in T.free:
            continue
        a = divide_range(e, T, fe)
        if a is None:
            continue
        b = divide_range(idx, T, fi)
        if b is None:
            continue
        r = b[0].coeff_of(v)
        if r is None or r[0].const() not in (1, -1) or v in r[1].free:
            r = b[1].coeff_of(v)
            if r is None or r[0].const() not in (1, -1) or v in r[1].free:
                continue
            val = (a[1] - r[1]) * r[0].const()
        else:
            val = (a[0] - r[1]) * r[0].const()
        mp = {v: val}
        return val, And(ieq(a[0], subst(b[0], mp)), ieq(a[1], subst(b[1], mp)))
    return None


def divide_range(e, S, facts):
    """(q, r) with e = q*S + r and provably 0 <= r < S"""
    r = pdivmod(e, S)
    if r is None:
        return None
    q, rem = r
    for adj in (0, -1, 1):
        tq, tr = q + adj, rem - S * adj
        if facts.prove(ge0(tr), 2) and facts.prove(ge0(S - 1 - tr), 2):
            return tq, tr
    # every atom of e divided individually: a single atom index known to be < q*S has div/mod atoms
    return None


def solve_modular(layer, e, facts):
    vs = [a for a, n in layer.vars]
    if len(vs) != 1:
        return None
    v, n = layer.vars[0]
    # idx = S*mod(v, m) + div(v, m)   (transposition by a strided walk)
    idx = layer.idx
    for a in idx.atoms():
        if a.k == 'mod' and a.a[0] is P(v):
            m = a.a[1]
            d = atom('div', P(v), m)
            r1 = idx.coeff_of(a)
            if r1 is None:
                return None
            S, rest = r1
            r2 = rest.coeff_of(d)
            if r2 is None:
                return None
            S2, c = r2
            if v in c.free or v in S.free or S2 is not ONE:
                return None
            dr = divide_range(e - c, S, facts)
            if dr is None:
                return None
            q, r = dr          # q = v mod m, r = v div m
            val = r * m + q
            cond = And(ge0(q), ge0(m - 1 - q), ge0(val), ge0(subst(n, {v: val}) - 1 - val), subst(layer.guard, {v: val}))
            return ('sol', {v: val, a: q, d: r}, cond)
    return None
