"""Loop summarisation: havoc the modified state, run the body once symbolically, solve the recurrences for closed
forms over the iteration index, re-run the body under the closed forms, and generalise writes to array regions.
What cannot be solved stays a symbolic function of the loop state ('lst' / 'lread' atoms)."""
from .sym import *
from .facts import Facts, lemma, walk
from .vals import *
from .thir import span


@lemma('kap')
def _l_kap(a):
    return [ge0(P(a))]


def Cnt(v, ln, cond):
    """number of k in [0, ln) with cond(k)"""
    if cond is TRUE:
        return ln
    if cond is FALSE or ln is ZERO:
        return ZERO
    if ln is ONE:
        return pite(subst(cond, {v: ZERO}), ONE, ZERO)
    r = cnt_closed(v, ln, cond)
    if r is not None:
        return r
    n, b = binder(cond, v)
    return P(atom('cnt', n, ln, b))


def cnt_closed(v, ln, cond):
    """closed forms for single comparisons of the counter with a fixed value (ln >= 0)"""
    if v not in cond.free:
        return pite(cond, ln, ZERO)
    neg = cond.k == 'not'
    c = cond.a[0] if neg else cond
    if c.k not in ('eq', 'ge'):
        return None
    r = c.a[0].coeff_of(v)
    if r is None or r[0].const() not in (1, -1) or v in r[1].free:
        return None
    s, rest = r[0].const(), r[1]
    if c.k == 'eq':
        x = rest * (-s)                 # v == x
        hit = And(ge0(x), ge0(ln - 1 - x))
        return pite(hit, ln - 1, ln) if neg else pite(hit, ONE, ZERO)
    if neg:
        return None
    if s == 1:                          # v >= x
        x = -rest
        return pite(ge0(-x), ln, pite(ge0(ln - x), ln - x, ZERO))
    x = rest                            # v <= x
    return pite(ge0(x - ln + 1), ln, pite(ge0(x), x + 1, ZERO))


def Sel(v, ln, idx, cond):
    """the idx-th k in [0, ln) with cond(k)"""
    n, b = binder(cond, v)
    return P(atom('sel', n, ln, idx, b))


def Gfold(v, acc, ln, init, body):
    """acc_0 = init, acc_{k+1} = body(acc_k, k); value of acc_ln"""
    if ln is ZERO:
        return init
    n, b = binder(body, v)
    a2 = P(atom('accv', n))
    b = subst(b, {acc: a2})
    return P(atom('gfold', n, ln, init, b))


# ------------------------------------------------------------------ leaves
def leaves(v, path=()):
    if isinstance(v, Poly):
        yield path, 'p', v
    elif isinstance(v, B):
        yield path, 'b', v
    elif isinstance(v, Arr):
        yield path, 'a', v
    elif isinstance(v, En):
        yield path, 'e', v
    elif isinstance(v, St):
        for k in v.f:
            if v.n == '$iter' and k == 'it':
                continue
            yield from leaves(v.f[k], path + (k,))
    else:
        yield path, 'o', v


def part(v, what, vs):
    """whether an enum is its k-th variant, or a payload of that variant (a value only where it is)"""
    if isinstance(what, int):
        return Or(*[c[0] for c in v.cases if c[1] == vs[what][0]])
    r = None
    for g, vn, fs in v.cases:
        if vn == vs[what[0]][0]:
            x = fs.get(what[1])
            if not isinstance(x, (Poly, B)) or r is not None and type(r) is not type(x):
                return None
            r = x if r is None else pite(g, x, r) if isinstance(x, Poly) else bite(g, x, r)
    return r


def getleaf(v, path):
    for k in path:
        if not isinstance(v, St) or k not in v.f:
            return Opq('shape of loop-carried value changes')
        v = v.f[k]
    return v


def setleaf(v, path, new):
    if not path:
        return new
    d = dict(v.f)
    d[path[0]] = setleaf(v.f[path[0]], path[1:], new)
    return St(v.n, d)


class Leaf:
    __slots__ = ('cell', 'path', 'kind', 'x0', 'name', 'mode', 'lkl', 'atom', 'num', 'variants', 'nv', 'closed', 'lenvar', 'lenleaf', 'W', 'houd', 'inc')


class LInfo:
    __slots__ = ('lname', 'params', 'i', 'N', 'leafs', 'node')


class Rec:
    """per-loop record for structural checks (one per final analysis of a loop in its calling context)"""
    pass


def exec_loop(I, st, fr, node, N, run, labels, roots, kind='for'):
    from .interp import Dead
    I.loopdepth += 1
    try:
        if getattr(I, 'vg', False):
            from .vg import vexec
            return vexec(I, st, fr, node, N, run, labels, roots, kind)
        return _exec(I, st, fr, node, N, run, labels, roots, kind)
    finally:
        I.loopdepth -= 1


class LoopRun:
    def __init__(self, I, st, fr, node, N, run, labels, roots, kind):
        self.I, self.s0, self.fr, self.node, self.run, self.labels, self.kind = I, st.copy(), fr, node, run, set(labels), kind
        self.N = N
        self.isfor = kind == 'for'
        n = I.fresh()
        self.lname = sym(('L', n), 'loop')
        self.i = sym(('i', n), 'nat')
        self.ip = P(self.i)
        self.params = tuple(I.iscope_polys())
        self.roots = sorted(set(roots), key=repr)
        self.leafs = []
        self.special = {}      # (cell, path) -> mode forced by an earlier pass ('len', 'en', 'opq')
        self.extra = []        # invariant facts about iteration i
        self.exits = []
        self.merged = None

    # ---- set-up
    def setup(self):
        I = self.I
        self.leafs = []
        for c in self.roots:
            v = self.s0.store.get(c)
            if isinstance(v, It):
                v = St('$iter', {'it': v, 'pos': ZERO})
                self.s0.store[c] = v
            for path, kind, x0 in leaves(v):
                l = Leaf()
                l.cell, l.path, l.kind, l.x0 = c, path, kind, x0
                l.name = (I.leafpref, len(self.leafs))
                l.lkl = atom('lk', self.lname, l.name, self.params)
                l.mode = self.special.get((c, path))
                l.atom = atom('lst', l.lkl, self.ip)
                l.closed = None
                l.nv = None
                l.W = None
                l.houd = []
                l.num = self.numkind(l)
                l.lenvar = None
                l.lenleaf = None
                self.leafs.append(l)
                if kind == 'a' and l.mode == 'len':
                    q = Leaf()
                    q.cell, q.path, q.kind, q.x0 = c, path + ('$len',), 'p', x0.ln
                    q.name = (I.leafpref + 'n', len(self.leafs))
                    q.lkl = atom('lk', self.lname, q.name, self.params)
                    q.mode = 'lenof'
                    q.atom = atom('lst', q.lkl, self.ip)
                    q.closed = None
                    q.nv = None
                    q.W = None
                    q.houd = []
                    q.num = 'nat'
                    q.lenvar = None
                    q.lenleaf = l
                    l.lenleaf = q
                    self.leafs.append(q)
                if kind == 'e' and l.mode == 'en':
                    self.leafs += self.parts(l)
        info = LInfo()
        info.lname, info.params, info.i, info.N, info.node = self.lname, tuple(p.single_atom() for p in self.params), self.i, self.N, self.node
        info.leafs = {}
        self.info = info
        I.loops[self.lname] = info
        for l in self.leafs:
            if l.kind == 'a':
                info.leafs[l.name] = [None, l.x0, l]

    def parts(self, l):
        """the discriminant and the payloads of a loop-carried enum as variables of their own"""
        vs = self.special[(l.cell, l.path, 'variants')]
        out = []
        for k, (vn, fields) in enumerate(vs):
            new = [(('g', k), k)] if k < len(vs) - 1 else []
            new += [(('f', k, fn), (k, fn)) for fn, ex in fields.items() if isinstance(ex, (Poly, B))]
            for suf, what in new:
                q = Leaf()
                q.cell, q.path, q.mode, q.lenleaf, q.W = l.cell, l.path, 'sub', l, what
                q.name = l.name + suf
                q.lkl = atom('lk', self.lname, q.name, self.params)
                q.atom = atom('lst', q.lkl, self.ip)
                q.closed = q.nv = q.lenvar = None
                q.houd = []
                q.x0 = part(l.x0, what, vs)
                ex = TRUE if isinstance(what, int) else vs[what[0]][1][what[1]]
                q.kind = 'p' if isinstance(ex, Poly) else 'b'
                if q.x0 is None:
                    q.x0 = P(atom('dirty', ZERO, q.atom)) if q.kind == 'p' else FALSE
                q.num = guess_kind(ex) if q.kind == 'p' else None
                out.append(q)
        return out

    def numkind(self, l):
        I = self.I
        if l.kind != 'p':
            return None
        if l.path:
            v = self.s0.store[l.cell]
            for k in l.path[:-1]:
                v = v.f[k]
            if isinstance(v, St):
                if v.n == '$iter':
                    return 'nat'
                k = I.fieldkind(v.n, l.path[-1])
                if k:
                    return k
            return guess_kind(l.x0)
        return I.cellkind.get(l.cell) or guess_kind(l.x0)

    def value_at(self, l, closed=True):
        """the leaf's value at the start of iteration i"""
        if l.kind == 'o':
            return Opq('loop-variant reference') if l.mode == 'opq' else l.x0
        if l.mode == 'opq':
            return Opq('loop-variant value')
        if closed and l.closed is not None:
            return l.closed
        if l.kind == 'p':
            return P(l.atom)
        if l.kind == 'b':
            return batom(l.atom)
        if l.kind == 'e':
            if l.mode == 'en':
                vs = self.special[(l.cell, l.path, 'variants')]
                cases = []
                rest = TRUE
                for k, (vn, fields) in enumerate(vs):
                    g = self.havoc_like(TRUE, l.name + ('g', k)) if k < len(vs) - 1 else TRUE
                    fs = {}
                    for fn, ex in fields.items():
                        fs[fn] = self.havoc_like(ex, l.name + ('f', k, fn))
                    cases.append((And(rest, g), vn, fs))
                    rest = And(rest, Not(g))
                return En(l.x0.n, cases)
            return l.x0
        if l.kind == 'a':
            ln = l.x0.ln
            if l.mode == 'len':
                q = l.lenleaf
                ln = q.closed if (closed and q.closed is not None) else P(q.atom)
            return Arr(ln, ('loop', l.lkl, self.ip), (), l.x0.ek)
        raise AssertionError

    def havoc_like(self, ex, name):
        if isinstance(ex, (Poly, B)):
            for l in self.leafs:
                if l.name == name and l.closed is not None:
                    return l.closed
        if isinstance(ex, Poly):
            return P(atom('lst', atom('lk', self.lname, name, self.params), self.ip))
        if isinstance(ex, B):
            return batom(atom('lst', atom('lk', self.lname, name, self.params), self.ip))
        return Opq('loop-variant payload')

    # ---- one symbolic run of the body at iteration i
    def one(self, rec):
        from .interp import Dead
        I, fr = self.I, self.fr
        s = self.s0.copy()
        for l in self.leafs:
            if l.mode in ('lenof', 'sub'):
                continue
            s.store[l.cell] = setleaf(s.store[l.cell], l.path, self.value_at(l))
        if self.N is not None:
            s.know = s.know + tuple(x for x in (ge0(self.N - 1 - self.ip),) if x is not TRUE)
        s.know = s.know + tuple(self.extra)
        saved_exits, saved_rec = fr.exits, I.rec
        fr.exits = []
        I.rec = rec and saved_rec
        I.iscope.append(self.i)
        norm = []
        try:
            try:
                self.run(s, self.ip)
                norm.append((s, UNIT))
            except Dead:
                pass
            ex = fr.exits
        finally:
            fr.exits = saved_exits
            I.rec = saved_rec
            I.iscope.pop()
        self.exits = []
        for k, lab, se, v in ex:
            if k == 'cont' and lab in self.labels:
                norm.append((se, UNIT))
            else:
                self.exits.append((k, lab, se, v))
        self.merged = I.merge_many(norm)[0] if norm else None
        # cells changed outside the syntactic over-approximation
        if self.merged is not None:
            miss = []
            for c, v in self.s0.store.items():
                w = self.merged.store.get(c)
                if w is not v and c not in self.roots and w is not None and not same(w, v):
                    miss.append(c)
            if miss:
                self.roots = sorted(set(self.roots) | set(miss), key=repr)
                return False
        return True

    # ---- compare the state after one iteration with the state before
    def nexts(self):
        """fills nv for every leaf; returns False when the havoc has to be widened"""
        again = False
        for l in self.leafs:
            if l.mode == 'lenof':
                continue
            if l.mode == 'sub':
                w = getleaf(self.merged.store.get(l.cell), l.path)
                l.nv = part(w, l.W, self.special[(l.cell, l.path, 'variants')]) if isinstance(w, En) else None
                if l.nv is None:
                    l.nv = l.x0
                continue
            w = getleaf(self.merged.store.get(l.cell), l.path)
            cur = self.value_at(l)
            l.nv = w
            if l.kind == 'o':
                if not same(w, cur) and l.mode != 'opq':
                    self.special[(l.cell, l.path)] = 'opq'
                    again = True
            elif l.kind == 'e':
                if l.mode is None and not same(w, cur):
                    if isinstance(w, En):
                        vs = {}
                        for src in (l.x0, w):
                            for g, vn, f in src.cases:
                                vs.setdefault(vn, f)
                        self.special[(l.cell, l.path)] = 'en'
                        self.special[(l.cell, l.path, 'variants')] = sorted(vs.items(), key=lambda kv: kv[0], reverse=True)
                    else:
                        self.special[(l.cell, l.path)] = 'opq'
                    again = True
            elif l.kind == 'a':
                if l.mode == 'opq':
                    continue
                if isinstance(w, Arr):
                    w = flatten(self.I, w, l.lkl, self.ip, self.I.facts(self.merged)) or w
                if not isinstance(w, Arr) or w.base[0] != 'loop' or w.base[1] is not l.lkl or w.base[2] is not self.ip:
                    if isinstance(w, Arr) and l.mode is None and isinstance(l.x0, Arr):
                        self.special[(l.cell, l.path)] = 'opq'
                    else:
                        self.special[(l.cell, l.path)] = 'opq'
                    again = True
                    continue
                if w.ln is not cur.ln and l.mode != 'len':
                    if not self.I.facts(self.merged).prove(ieq(w.ln, cur.ln)):
                        self.special[(l.cell, l.path)] = 'len'
                        again = True
                        continue
                l.W = list(w.layers)
                if l.mode == 'len':
                    l.lenleaf.nv = w.ln
            elif l.kind in ('p', 'b'):
                if l.mode == 'opq':
                    continue
                if not isinstance(w, Poly if l.kind == 'p' else B):
                    self.special[(l.cell, l.path)] = 'opq'
                    again = True
        return not again

    # ---- recurrences
    def has_state(self, v):
        return self.lname in vfree(v)

    def solve_all(self):
        prog = True
        any_ = False
        while prog:
            prog = False
            mp = {}
            for l in self.leafs:
                if l.closed is not None and l.kind in ('p', 'b'):
                    mp[l.atom] = l.closed if l.kind == 'p' else P(atom('bool', l.closed))
            for l in self.leafs:
                if l.kind not in ('p', 'b') or l.closed is not None or l.mode == 'opq' or l.nv is None:
                    continue
                nv = subst(l.nv, mp)
                r = self.solve(l, nv)
                if r is not None:
                    if l.kind == 'p' and l.num in ('nat', 'int') and any(a.k == 'ite' for a in r.atoms()):
                        from .cmp import _simp
                        r = _simp(r, self.I.facts(self.s0), 0)
                    l.closed = r
                    prog = any_ = True
        return any_

    def solve(self, l, nv):
        I, i, ip = self.I, self.i, self.ip
        x0 = l.x0
        if l.kind == 'b':
            x = batom(l.atom)
            if nv is x:
                return x0
            if not self.has_state(nv):
                return bite(ieq(ip, ZERO), x0, subst(nv, {i: ip - 1})) if nv is not x0 else x0
            k = sym(('k', I.fresh()), 'nat')
            if nv.k == 'and' and x in nv.a:
                c = And(*[y for y in nv.a if y is not x])
                if not self.has_state(c):
                    return And(x0, Forall(k, ip, subst(c, {i: P(k)})))
            if nv.k == 'or' and x in nv.a:
                c = Or(*[y for y in nv.a if y is not x])
                if not self.has_state(c):
                    return Or(x0, Exists(k, ip, subst(c, {i: P(k)})))
            # x' = (x && a) || b with b => a?  keep general
            t1, t0 = subst(nv, {l.atom: ONE}), subst(nv, {l.atom: ZERO})
            if not self.has_state(t1) and not self.has_state(t0):
                if t0 is FALSE:
                    return And(x0, Forall(k, ip, subst(t1, {i: P(k)})))
                if t1 is TRUE:
                    return Or(x0, Exists(k, ip, subst(t0, {i: P(k)})))
            return None
        x = P(l.atom)
        if nv is x:
            return x0
        num = l.num
        if not self.has_state(nv):
            last = subst(nv, {i: ip - 1})
            if nv is x0:
                return x0
            if l.mode == 'sub' and x0.single_atom() is not None and x0.single_atom().k == 'dirty':
                return last
            if subst(nv, {i: P(-1)}) is x0:
                return last
            return pite(ieq(ip, ZERO), x0, last)
        d = self.delta(nv, x)
        k = sym(('k', I.fresh()), 'nat')
        if d is not None and not self.has_state(d):
            r = self.accumulate(x0, d, num, k)
            if r is not None:
                return r
        # products
        co = nv.coeff_of(l.atom)
        if co is not None and co[1] is ZERO and not self.has_state(co[0]):
            c = co[0]
            if num in ('nat', 'int'):
                if i in c.free:
                    return None
                return None
            return x0 * Prod(k, ip, subst(c, {i: P(k)}))
        # set in the first iteration and kept
        a = nv.single_atom()
        if a is not None and a.k == 'ite':
            c, u, v = a.a
            z = Facts.of([ge0(ip - 1)]).decide(c)
            if z is not None and (u if z else v) is x:
                w = subst(nv, {i: ZERO})
                if not self.has_state(w):
                    d = x0.single_atom()
                    return w if d is not None and d.k == 'dirty' else pite(ieq(ip, ZERO), x0, w)
        # running extremum
        if a is not None and a.k == 'ite':
            r = self.extremum(l, x, a, k)
            if r is not None:
                return r
        if num in ('nat', 'int'):
            r = self.modular(l, x, nv)
            if r is not None:
                return r
            return None
        # a fold of this variable alone
        if num == 'T' and not getattr(I, 'vg', False):
            t = subst(nv, {l.atom: ZERO})
            if not self.has_state(t):
                ac = atom('sym', ('$acc', I.fresh()), 'T')
                return Gfold(k, ac, ip, x0, subst(nv, {l.atom: P(ac), i: P(k)}))
        return None

    def delta(self, nv, x):
        a = nv.single_atom()
        if a is not None and a.k == 'ite':
            if self.has_state(a.a[0]):
                return None
            p, q = self.delta(a.a[1], x), self.delta(a.a[2], x)
            if p is None or q is None:
                return None
            return pite(a.a[0], p, q)
        d = nv - x
        # distribute over an ite hidden in a sum:  x + ite(c, a, b)
        return d

    def accumulate(self, x0, d, num, k):
        i, ip = self.i, self.ip
        if num in ('nat', 'int'):
            if i not in d.free:
                return x0 + d * ip
            a = d.single_atom()
            if a is not None and a.k == 'ite':
                c, u, v = a.a
                if i not in u.free and i not in v.free:
                    n = Cnt(k, ip, subst(c, {i: P(k)}))
                    return x0 + v * ip + (u - v) * n
            r = d.coeff_of(i)
            if r is not None and i not in r[0].free and i not in r[1].free:
                return x0 + r[0] * (ip * ip - ip) * Fraction(1, 2) + r[1] * ip
            # sum of several conditional terms
            return None
        a = d.single_atom()
        return x0 + Sum(k, ip, subst(d, {i: P(k)}))

    def extremum(self, l, x, a, k):
        c, u, v = a.a
        i, ip = self.i, self.ip
        neg = False
        if c.k == 'not':
            c = c.a[0]
            u, v = v, u
        if v is x and not self.has_state(u):
            e, take = u, True
        elif u is x and not self.has_state(v):
            e, take = v, False
        else:
            return None
        kind = None
        if c.k in ('tlt', 'tle'):
            p, q = c.a
            if p is x and q is e:
                kind = 'max' if take else 'min'
            elif p is e and q is x:
                kind = 'min' if take else 'max'
        elif c.k == 'ge':
            p = c.a[0]
            dd = e - x
            if p is dd or p is dd - 1:
                kind = 'max' if take else 'min'
            elif p is -dd or p is -dd - 1:
                kind = 'min' if take else 'max'
        if kind is None:
            return None
        return mkfold(kind, k, ip, l.x0, subst(e, {i: P(k)}))

    def modular(self, l, x, nv):
        I, i, ip, x0 = self.I, self.i, self.ip, l.x0
        f = I.facts(self.s0)
        if self.N is not None:
            f = f.plus(ge0(self.N - 1 - ip))
        a = nv.single_atom()
        if a is not None and a.k == 'mod':
            s = self.delta(a.a[0], x)
            M = a.a[1]
            if s is not None and not self.has_state(s) and not self.has_state(M) and i not in s.free and i not in M.free:
                if s is ONE or s.const() is not None or True:
                    if f.prove(And(ge0(x0), ge0(M - 1 - x0))):
                        return self.modpoly(x0 + s * ip, M, f)
            return None
        if a is not None and a.k == 'ite':
            c, u, v = a.a
            for cc, w, z in ((c, u, v), (Not(c), v, u)):
                # cc: wrap branch w; otherwise z = x + s
                s = z - x
                if self.has_state(s) or i in s.free or cc.k not in ('ge', 'eq'):
                    continue
                # wrap when x + s >= E (or == E)
                p = cc.a[0]
                E = None
                if cc.k == 'ge':
                    E = (x + s) - p
                else:
                    for sg in (1, -1):
                        t = (x + s) - p * sg
                        if not self.has_state(t):
                            E = t
                if E is None or self.has_state(E) or i in E.free:
                    continue
                if w is ZERO and s is ONE and f.prove(And(ge0(x0), ge0(E - 1 - x0))):
                    return self.modpoly(x0 + ip, E, f)
                if not self.has_state(w - x) and (w - x) is s - E and f.prove(And(ge0(x0), ge0(E - 1 - x0), ge0(s), ge0(E - s))):
                    return self.modpoly(x0 + s * ip, E, f)
                # strided walk:  x + s - E + 1  after wrapping
                R = exact_div(E, s) if s.const() != 0 else None
                if R is not None and (w - x - s + E - 1) is ZERO and x0 is ZERO and self.N is not None \
                        and f.prove(ge0(s - 1)) and f.prove(ge0(R - 1)) and f.prove(ge0(E - self.N)):
                    if R is ONE:
                        return s * ZERO + P(atom('div', ip, R)) if False else ip
                    return s * P(atom('mod', ip, R)) + P(atom('div', ip, R))
        return None

    def modpoly(self, p, M, f):
        if f.prove(And(ge0(p), ge0(M - 1 - p))):
            return p
        return P(atom('mod', p, M))

    # ---- trip count of while-like loops
    def find_N(self):
        I = self.I
        i, ip = self.i, self.ip
        f = I.facts(self.s0)
        mp = self.closedmap()
        for k, lab, se, v in self.exits:
            if not (k == 'brk' and lab in self.labels):
                continue
            suf = [subst(b, mp) for b in se.path[len(self.s0.path):]]
            c = And(*suf)
            cands = list(c.a) if c.k == 'or' else [c]
            for b in cands:
                if b.k == 'ge' and not self.has_state(b):
                    r = b.a[0].coeff_of(i)
                    if r is None or i in r[0].free or i in r[1].free:
                        continue
                    S, rest = r
                    if not f.prove(ge0(S - 1)):
                        continue
                    n = -rest
                    if S is ONE:
                        q = n
                    else:
                        q = exact_div(n, S)
                        if q is None:
                            if not f.prove(ge0(n)):
                                continue
                            q = I.idiv(n + S - 1, S, self.s0)
                    if f.prove(ge0(q)):
                        return q
                    if f.prove(ge0(-q)):
                        return ZERO
                    return pite(ge0(q), q, ZERO)
                if b.k == 'eq' and not self.has_state(b):
                    r = b.a[0].coeff_of(i)
                    if r is None or i in r[0].free or i in r[1].free:
                        continue
                    S, rest = r
                    q = exact_div(-rest, S) if S.const() != 0 else None
                    if q is not None and f.prove(ge0(q)):
                        return q
        return None

    def closedmap(self):
        mp = {}
        for l in self.leafs:
            if l.closed is not None and l.kind in ('p', 'b'):
                mp[l.atom] = l.closed if l.kind == 'p' else P(atom('bool', l.closed))
        return mp

    # ---- bounds for unsolved integers
    def houdini(self):
        I, i, ip = self.I, self.i, self.ip
        cands = []
        f0 = I.facts(self.s0)
        f0n = f0.plus(ge0(self.N - 1)) if self.N is not None else f0
        for l in self.leafs:
            if l.kind != 'p' or l.closed is not None or l.num not in ('nat', 'int') or l.mode == 'opq':
                continue
            x = P(l.atom)
            cs = [ge0(x), ge0(x - l.x0), ge0(l.x0 - x)]
            for v in ite_leaves(l.nv):
                if not self.has_state(v):
                    cs.append(ge0(subst(v, {i: ip - 1}) - x))
                    cs.append(ge0(x - subst(v, {i: ip - 1})))
                    if self.N is not None:
                        cs.append(ge0(subst(v, {i: self.N - 1}) - x))
                        cs.append(ge0(x - subst(v, {i: self.N - 1})))
            for c in dict.fromkeys(cs):
                if c is not TRUE and c is not FALSE:
                    cands.append((l, c))
        if not cands:
            return
        ok = []
        zero = {i: ZERO}
        for l, c in cands:
            mp0 = {q.atom: q.x0 for q in self.leafs if q.kind == 'p'}
            c0 = subst(subst(c, mp0), zero)
            if f0n.prove(c0):
                ok.append((l, c, f0.prove(c0)))
        nxt = {}
        for q in self.leafs:
            if q.kind == 'p':
                if q.closed is not None:
                    nxt[q.atom] = subst(q.closed, {i: ip + 1})
                elif isinstance(q.nv, Poly):
                    nxt[q.atom] = q.nv
        while ok:
            hyp = [c for l, c, z in ok]
            f = I.facts(self.merged).plus(*hyp)
            if self.N is not None:
                f = f.plus(ge0(self.N - 1 - ip))
            good = []
            for l, c, z in ok:
                # simultaneous step: x -> nv, i -> i + 1 (only explicit occurrences of i)
                stepped = step_subst(c, nxt, i, ip, l)
                if f.prove(stepped):
                    good.append((l, c, z))
            if len(good) == len(ok):
                break
            ok = good
        self.extra = [c for l, c, z in ok]
        for l in self.leafs:
            l.houd = [(c, z) for q, c, z in ok if q is l]


def step_subst(c, nxt, i, ip, l):
    """c[x := nv, i := i+1]"""
    t = sym(('$step', l.name), 'int')
    c2 = subst(c, {l.atom: P(t)})
    c2 = subst(c2, {i: ip + 1})
    return subst(c2, {t: nxt[l.atom]})


def ite_leaves(p):
    out = []
    st = [p]
    while st:
        q = st.pop()
        a = q.single_atom() if isinstance(q, Poly) else None
        if a is not None and a.k == 'ite':
            st.extend(a.a[1:])
        else:
            out.append(q)
    return out


def guess_kind(p):
    """scalar kind from the atoms of an initial value"""
    for m in p.t:
        for a, e in m:
            if e < 0 or a.k in ('sqrt', 'abs', 'pq', 'sum', 'prod', 'i2t', 'fold_max', 'fold_min', 'gfold'):
                return 'T'
            if a.k == 'sym' and a.a[1] in ('dim', 'nat'):
                return 'nat'
            if a.k == 'sym' and a.a[1] in ('int',):
                return 'int'
            if a.k == 'sym' and a.a[1] == 'T':
                return 'T'
            if a.k == 'el':
                return 'nat' if a.a[0].a[1] == 'natarr' else 'T'
    return None


def mkfold(kind, k, ln, init, body):
    """running max/min; an initial value that equals the element just before the range is absorbed"""
    prev = subst(body, {k: P(-1)})
    if init is prev:
        return Fold(kind, k, ln + 1, ZERO_INIT, subst(body, {k: P(k) - 1}))
    return Fold(kind, k, ln, init, body)


ZERO_INIT = P(atom('noinit'))


# ------------------------------------------------------------------ driver
def _exec(I, st, fr, node, N, run, labels, roots, kind):
    from .interp import Dead
    if N is not None and N is ZERO:
        if kind == 'for':
            return UNIT
    R = LoopRun(I, st, fr, node, N, run, labels, roots, kind)
    if R.isfor and N is not None and not I.facts(st).prove(ge0(N)):
        R.s0.learn(ge0(N))
    outer_rec = I.rec
    # ---- solve phase
    passes = 0
    while True:
        R.setup()
        for l in R.leafs:
            l.closed = None
        R.extra = []
        if passes > 12:
            I.note_unsupported('loop does not stabilise', node)
            break
        passes += 1
        if not R.one(False):
            continue
        if R.merged is None:
            return once(I, R, st, fr)
        if not R.nexts():
            continue
        R.solve_all()
        if not R.isfor or R.N is None:
            n = R.find_N()
            if n is not None:
                R.N = n
                R.solve_all()
        break
    for l in R.leafs:
        if l.kind == 'a' and l.mode != 'opq':
            R.info.leafs[l.name][0] = l.W
    R.info.N = R.N
    R.houdini()
    # ---- second pass under the closed forms: array reads resolve, conditions simplify
    for rnd in range(3):
        changed = False
        before = [(l, l.closed) for l in R.leafs]
        oldW = [(l, l.W) for l in R.leafs if l.kind == 'a']
        if not R.one(False) or R.merged is None:
            break
        if not R.nexts():
            I.note_unsupported('loop state changes shape late', node)
            break
        if R.solve_all():
            changed = True
        if R.N is None:
            n = R.find_N()
            if n is not None:
                R.N = n
                R.info.N = n
                changed = True
                R.solve_all()
        for l, w in oldW:
            if l.mode == 'opq':
                continue
            if w is None or len(w) != len(l.W) or not all(same_layer(a, b) for a, b in zip(w, l.W)):
                changed = True
            R.info.leafs[l.name][0] = l.W
        if changed:
            R.houdini()
        else:
            break
    # ---- final pass: obligations and effects are recorded here
    if outer_rec:
        R.one(True)
        if R.merged is not None:
            R.nexts()
            for l in R.leafs:
                if l.kind == 'a' and l.mode != 'opq':
                    R.info.leafs[l.name][0] = l.W
    if R.merged is None:
        return once(I, R, st, fr)
    return finish(I, R, st, fr, outer_rec)


def once(I, R, st, fr):
    """the body never reaches a second iteration"""
    from .interp import Dead

    def thn(s):
        saved = fr.exits
        fr.exits = []
        dead = False
        try:
            R.run(s, ZERO)
        except Dead:
            dead = True
        mine = [(x[2], x[3]) for x in fr.exits if x[0] in ('brk', 'cont') and x[1] in R.labels]
        rest = [x for x in fr.exits if not (x[0] in ('brk', 'cont') and x[1] in R.labels)]
        fr.exits = saved
        fr.exits.extend(rest)
        if not dead:
            mine.append((s.copy(), UNIT))
        if not mine:
            raise Dead()
        q, v = I.merge_many(mine)
        s.become(q)
        return v
    if R.isfor and R.N is not None:
        return I.fork(st, ge0(R.N - 1), thn, lambda s: UNIT)
    return thn(st)


def finish(I, R, st, fr, rec):
    from .interp import Dead, State
    i, ip = R.i, R.ip
    base = len(R.s0.path)
    nsuf = [b for b in R.merged.path[base:]]
    normc = And(*nsuf)
    N = R.N
    exits = R.exits
    conds = [And(*se.path[base:]) for k, lab, se, v in exits]
    anyexit = Or(*conds) if conds else FALSE
    kap = atom('kap', R.lname, R.params)
    k = sym(('k', I.fresh()), 'nat')
    if exits:
        I.kaps[R.lname] = (i, tuple(q.single_atom() for q in R.params), N, anyexit)

    def at(x, p):
        return vsubst(x, {i: p})

    recd = Rec()
    recd.node, recd.fn, recd.stack = R.node, (I.stack[-1][1] if I.stack else '?'), tuple(s[1] for s in I.stack)
    recd.i, recd.N, recd.lname, recd.R, recd.kind = i, N, R.lname, R, R.kind
    recd.path, recd.know = R.s0.path, R.s0.know
    recd.conds, recd.normc = conds, normc
    recd.body_path, recd.body_know = R.merged.path, R.merged.know
    recd.frame = fr.fid
    if rec and I.rec:
        I.records.append(recd)

    out = []       # normal continuations of the code after the loop: (state, value)

    def final_state(p, fs, src=None):
        """state at iteration p (leaf values instantiated)"""
        s = State(dict(R.s0.store), R.s0.path, R.s0.know)
        for l in R.leafs:
            if l.mode in ('lenof', 'sub'):
                continue
            s.store[l.cell] = setleaf(s.store[l.cell], l.path, final_leaf(I, R, l, p, fs))
        return s

    def post_facts(s, p):
        for l in R.leafs:
            if l.houd:
                x = subst(P(l.atom), {i: p})
                for c, z in l.houd:
                    cc = subst(c, {i: p})
                    s.learn(cc if z else Or(ge0(-p), cc))
                s.learn(Or(ge0(p - 1), ieq(x, l.x0)))

    if R.isfor and N is not None:
        s = final_state(N, I.facts(R.s0))
        if normc is not TRUE:
            s.assume(Forall(k, N, subst(normc, {i: P(k)})))
        post_facts(s, N)
        if not I.facts(s).inconsistent():
            out.append((s, UNIT))
    elif N is not None:
        # run the header once more at i = N: it must leave the loop
        s = final_state(N, I.facts(R.s0))
        if normc is not TRUE:
            s.assume(Forall(k, N, subst(normc, {i: P(k)})))
        post_facts(s, N)
        saved = fr.exits
        fr.exits = []
        cont = []
        try:
            R.run(s, N)
            cont.append(s)
        except Dead:
            pass
        ex = fr.exits
        fr.exits = saved
        for kk, lab, se, v in ex:
            if kk == 'brk' and lab in R.labels:
                out.append((se, v))
            elif kk == 'cont' and lab in R.labels:
                pass
            else:
                fr.exits.append((kk, lab, se, v))
    # early exits at the first iteration whose exit condition holds
    early = []
    for (kk, lab, se, v), c in zip(exits, conds):
        K = P(kap)
        if len(exits) == 1 and N is not None and not getattr(I, 'vg', False):
            K = crossing(I, R, c, i, N, K)
        store = {}
        for cc, val in se.store.items():
            if cc in R.s0.store:
                store[cc] = at(val, K)
        s = State(store, R.s0.path, R.s0.know)
        if N is not None:
            ex = Exists(k, N, subst(anyexit, {i: P(k)}))
            s.assume(ex)
            s.learn(ge0(N - 1 - K))
        if len(exits) > 1:
            s.assume(subst(c, {i: K}))
        else:
            for b in conj(subst(c, {i: K})):
                s.learn(b)
        if normc is not TRUE:
            for b in conj(Forall(k, K, subst(normc, {i: P(k)}))):
                s.learn(b)
        for b in se.know:
            if i in b.free:
                s.learn(subst(b, {i: K}))
        for b in R.extra:
            s.learn(subst(b, {i: K}))
        # leaves of arrays at iteration K
        f = I.facts(s)
        if f.inconsistent():
            continue
        v2 = at(v, K)
        if kk == 'brk' and lab in R.labels:
            out.append((s, v2))
        else:
            fr.exits.append((kk, lab, s, v2))
    if not out:
        raise Dead()
    s, v = I.merge_many(out)
    st.become(s)
    return v


def crossing(I, R, c, i, N, K):
    """the first iteration of the exit condition i >= bound, or K"""
    f = I.facts(R.s0).plus(ge0(N - 1 - P(i)), ge0(P(i)))
    cs = [b for b in conj(c) if not f.prove(b, 1)]
    if len(cs) != 1 or cs[0].k != 'ge':
        return K
    r = cs[0].a[0].coeff_of(i)
    if r is None or r[0] != ONE or i in r[1].free:
        return K
    b = -r[1]
    g = I.facts(R.s0)
    if g.prove(ge0(b), 1):
        return b
    if g.prove(ge0(-b), 1):
        return ZERO
    return pite(ge0(b), b, ZERO)


def flatten(I, w, lkl, ip, f, depth=0):
    """express an array as region writes over the state of the enclosing loop"""
    b = w.base
    if b[0] == 'loop' and b[1] is lkl and b[2] is ip:
        return w
    if depth > 6:
        return None
    if b[0] == 'ite':
        p, q = b[2], b[3]
        if not isinstance(p, Arr) or not isinstance(q, Arr):
            return None
        fp = flatten(I, p, lkl, ip, f.plus(b[1]), depth + 1)
        fq = flatten(I, q, lkl, ip, f.plus(Not(b[1])), depth + 1)
        if fp is None or fq is None:
            return None
        m = merge(b[1], fp, fq)
        if not isinstance(m, Arr) or m.base[0] != 'loop':
            return None
        return Arr(w.ln, m.base, m.layers + w.layers, w.ek)
    if b[0] == 'loop':
        info = I.loops.get(b[1].a[0])
        if info is None or b[1].a[1] not in info.leafs:
            return None
        s0 = info.leafs[b[1].a[1]][1]
        mp = instantiate(info, b[1])
        if mp:
            s0 = vsubst(s0, mp)
        fs = flatten(I, s0, lkl, ip, f, depth + 1)
        if fs is None:
            return None
        z = sym(('z', I.fresh()), 'nat')
        g = f.plus(ge0(w.ln - 1 - P(z)))
        lazy = Arr(w.ln, b, (), w.ek)
        sols = loop_solutions(I, b[1], b[2], P(z), g)
        guard = TRUE
        if sols != 'raw' and all(s[1] is not None for s in sols):
            guard = Or(*[s[1] for s in sols])
            g = g.plus(guard)
        if guard is FALSE:
            return Arr(w.ln, fs.base, fs.layers + w.layers, w.ek)
        val = I.aread(lazy, P(z), g)
        return Arr(w.ln, fs.base, fs.layers + (Layer(((z, w.ln),), guard, P(z), val),) + w.layers, w.ek)
    return None


def conj(b):
    return list(b.a) if b.k == 'and' else [b]


def final_leaf(I, R, l, p, f):
    i, ip = R.i, R.ip
    if l.kind == 'o' or l.mode == 'opq':
        return R.value_at(l)
    if l.kind in ('p', 'b', 'e'):
        return vsubst(R.value_at(l), {i: p})
    # arrays
    ln = l.x0.ln
    if l.mode == 'len':
        ln = subst(R.value_at(l.lenleaf), {i: p})
    W = l.W
    lazy = Arr(ln, ('loop', l.lkl, p), (), l.x0.ek)
    if W is None:
        return lazy
    if not W:
        return Arr(ln, l.x0.base, l.x0.layers, l.x0.ek)
    # conditional append: the selected iterations in order
    if l.mode == 'len' and len(W) == 1 and not W[0].vars and l.lenleaf.closed is not None and W[0].idx is l.lenleaf.closed \
            and l.lenleaf.closed is not ip and not R.has_state(W[0].val) and not R.has_state(W[0].guard) and l.x0.ln is ZERO:
        a = (l.lenleaf.closed).single_atom()
        if a is not None and a.k == 'cnt' and a.a[1] is ip:
            e = sym(('e', I.fresh()), 'nat')
            k = sym(('k', I.fresh()), 'nat')
            cond = open_body(a.a[0], a.a[2], P(k))
            sel = Sel(k, p, P(e), cond)
            return Arr(ln, ('fn', e, vsubst(W[0].val, {i: sel})), (), l.x0.ek)
    out = []
    iv = sym(('q', I.fresh()), 'nat')
    for w in W:
        if R.lname in w.idx.free or R.lname in w.guard.free or any(R.lname in n.free for a, n in w.vars):
            return lazy
        q = lsubst(w, {i: P(iv)})
        m = mod_layer(w, i, p)
        if m is not None:
            z = sym(('z', I.fresh()), 'nat')
            g = f.plus(ge0(m - 1 - P(z)))
            val = I.aread(lazy, P(z), g)
            out.append(Layer(((z, m),), TRUE, P(z), val))
            continue
        if i not in w.idx.free and i not in w.guard.free and not any(i in n.free for a, n in w.vars):
            # the same cells in every iteration
            g = f.plus(ge0(p - 1), w.guard, *[ge0(n - 1 - P(a)) for a, n in w.vars])
            val = I.aread(lazy, w.idx, g)
            out.append(Layer(w.vars, And(w.guard, ge0(p - 1)), w.idx, val))
            continue
        lay = Layer(q.vars + ((iv, p),), q.guard, q.idx, q.val)
        e = sym(('e', I.fresh()), 'nat')
        parts = split_ites(lay, f)
        for pt in parts:
            r = solve_layer(pt, P(e), f.plus(ge0(ln - 1 - P(e))))
            if r[0] == 'may':
                return lazy
        g = f.plus(*[ge0(n - 1 - P(a)) for a, n in lay.vars], lay.guard)
        val = I.aread(lazy, lay.idx, g)
        out.append(Layer(lay.vars, lay.guard, lay.idx, val))
    return Arr(ln, l.x0.base, l.x0.layers + tuple(out), l.x0.ek)


def mod_layer(w, i, p, f=None):
    """layer writing cell (i mod M) in iteration i, over a whole number of rounds"""
    if w.vars or w.guard is not TRUE:
        return None
    a = w.idx.single_atom()
    if a is None or a.k != 'mod' or a.a[0] is not P(i) or i in a.a[1].free:
        return None
    M = a.a[1]
    R = exact_div(p, M)
    if R is None and f is not None:
        from .cmp import simp
        R = exact_div(simp(p, f), simp(M, f))
    return M if R is not None else None


# ------------------------------------------------------------------ reading loop-carried arrays
def instantiate(info, lkl):
    """substitution of the loop's enclosing indices for this instance"""
    mp = {}
    for a, v in zip(info.params, lkl.a[2]):
        if v is not P(a):
            mp[a] = v
    return mp


def loop_solutions(I, lkl, i, e, f):
    """iterations < i that write cell e: ('raw', why) or list of (order, cond, iteration, value, layer)"""
    info = I.loops.get(lkl.a[0])
    if info is None or lkl.a[1] not in info.leafs:
        return 'raw'
    W, s0, leaf = info.leafs[lkl.a[1]]
    if W is None:
        return 'raw'
    mp = instantiate(info, lkl)
    iv = info.i
    sols = []
    for n, l in enumerate(W):
        q = atom('sym', ('$p', I.fresh()), 'nat')
        ql = lsubst(l, {**mp, iv: P(q)})
        dep = q in ql.idx.free or any(q in nn.free for a, nn in ql.vars)
        if not dep:
            if q in ql.guard.free:
                # conditional writes to a fixed cell
                r = solve_layer(Layer(ql.vars, TRUE, ql.idx, ql.val), e, f)
                if r[0] == 'no' or (r[0] == 'sol' and f.prove(Not(r[2]))):
                    continue
                sols.append((n, None, None, None, l))
                continue
            parts = split_ites(ql, f)
            for pt in parts:
                r = solve_layer(pt, e, f.plus(ge0(i - 1)))
                if r[0] == 'no':
                    continue
                if r[0] == 'may':
                    if I.layer_disjoint(pt, e, f):
                        continue
                    sols.append((n, None, None, None, l))
                    continue
                _, m2, c = r
                c = And(c, ge0(i - 1))
                d = f.decide(c)
                if d is False:
                    continue
                sols.append((n, TRUE if d else c, i - 1, vsubst(pt.val, {**m2, q: i - 1}), l))
            continue
        lay = Layer(ql.vars + ((q, i),), ql.guard, ql.idx, ql.val)
        for pt in split_ites(lay, f):
            r = solve_layer(pt, e, f)
            if r[0] == 'no':
                continue
            if r[0] == 'may':
                if I.layer_disjoint(pt, e, f):
                    continue
                sols.append((n, None, None, None, l))
                continue
            _, m2, c = r
            d = f.decide(c)
            if d is False:
                continue
            sols.append((n, TRUE if d else c, m2[q], vsubst(pt.val, m2), l))
    return sols


def loop_read(I, lkl, i, e, f, ek, depth):
    """element e of a loop-carried array at the start of iteration i"""
    la = atom('lread', lkl, i, e)
    raw = batom(la) if ek == 'bool' else P(la)
    info = I.loops.get(lkl.a[0])
    if info is None or lkl.a[1] not in info.leafs:
        return raw
    W, s0, leaf = info.leafs[lkl.a[1]]
    if W is None:
        return raw
    mp = instantiate(info, lkl)
    if mp:
        s0 = vsubst(s0, mp)
    if i is ZERO:
        return I.aread(s0, e, f, depth + 1)
    sols = loop_solutions(I, lkl, i, e, f)
    if sols == 'raw':
        return raw
    if not sols:
        return I.aread(s0, e, f, depth + 1)
    lname = lkl.a[0]
    # accumulating cells
    if any(s[1] is None or lname in vfree(s[3]) for s in sols):
        r = accumulated(I, info, lkl, i, e, f, s0, mp, sols, depth)
        return r if r is not None else raw
    chain = []
    rest = list(sols)
    # order candidates: exclusive conditions, or a provable order of iterations
    while rest:
        pick = None
        for x in rest:
            if all(y is x or later(x, y, f) for y in rest):
                pick = x
                break
        if pick is None:
            return raw
        chain.append(pick)
        rest.remove(pick)
    g = f
    val = None
    done = []
    for n, c, it, v, l in chain:
        d = g.decide(c)
        if d is False:
            continue
        done.append((c, v))
        if d is True:
            val = v
            done.pop()
            break
        g = g.plus(Not(c))
    if val is None:
        val = I.aread(s0, e, g, depth + 1) if not g.inconsistent() else done.pop()[1]
    for c, v in reversed(done):
        val = merge(c, v, val)
    return val


def later(x, y, f):
    """x's write (when both happen) is not before y's"""
    g = f.plus(x[1], y[1])
    if g.inconsistent():
        return True
    if g.prove(ge0(x[2] - y[2] - 1)):
        return True
    if x[0] > y[0] and g.prove(ge0(x[2] - y[2])):
        return True
    return False


def accumulated(I, info, lkl, i, e, f, s0, mp, sols, depth):
    """cells updated from their own previous value in several iterations"""
    ls = {id(s[4]) for s in sols}
    if len(ls) != 1:
        return None
    l = sols[0][4]
    iv = info.i
    lname = lkl.a[0]
    generic = atom('lk', lname, lkl.a[1], tuple(P(a) for a in info.params))
    own = atom('lread', generic, P(iv), l.idx)
    if not isinstance(l.val, Poly):
        return None
    k = sym(('k', I.fresh()), 'nat')
    if iv not in l.idx.free and not any(iv in n.free for a, n in l.vars):
        q = Layer(l.vars, TRUE, l.idx, l.val)
        q = lsubst(q, mp)
        r = solve_layer(q, e, f)
        if r[0] != 'sol':
            return None
        c = r[2]
        m2 = r[1]
        d = f.decide(c)
        if d is False:
            return None
        t = delta_own(l.val, P(own))
        base = I.aread(s0, e, f, depth + 1)
        if t is not None and lname not in t.free:
            t = pite(l.guard, t, ZERO)
            tt = subst(subst(subst(t, mp), m2), {iv: P(k)})
            val = base + Sum(k, i, tt)
        else:
            z = subst(l.val, {own: ZERO})
            if lname in z.free or l.guard is not TRUE:
                return None
            ac = atom('sym', ('$acc', I.fresh()), 'T')
            b = subst(subst(subst(subst(l.val, {own: P(ac)}), mp), m2), {iv: P(k)})
            val = Gfold(k, ac, i, base, b)
        if d is True:
            return val
        return merge(c, val, base)
    M = mod_layer(l, iv, subst(i, {}), f)
    if M is not None:
        M = subst(M, mp)
        R = exact_div(i, M)
        if R is None:
            from .cmp import simp
            M2 = simp(M, f)
            R = exact_div(simp(i, f), M2)
            M = M2
        if R is None:
            return None
        z = subst(l.val, {own: ZERO})
        if lname in z.free:
            return None
        base = I.aread(s0, e, f, depth + 1)
        t = delta_own(l.val, P(own))
        if t is not None and lname not in t.free:
            return base + Sum(k, R, subst(subst(t, mp), {iv: e + M * P(k), l.idx.single_atom(): e}))
        ac = atom('sym', ('$acc', I.fresh()), 'T')
        b = subst(l.val, {own: P(ac)})
        b = subst(subst(b, mp), {l.idx.single_atom(): e})
        b = subst(b, {iv: e + M * P(k)})
        return Gfold(k, ac, R, base, b)
    return None


def delta_own(v, x):
    a = v.single_atom()
    if a is not None and a.k == 'ite':
        p, q = delta_own(a.a[1], x), delta_own(a.a[2], x)
        if p is None or q is None:
            return None
        return pite(a.a[0], p, q)
    d = v - x
    return d


# ------------------------------------------------------------------ initialisedness
def maybe_dirty(I, arr, depth=0):
    if not isinstance(arr, Arr) or depth > 40:
        return False
    b = arr.base
    if b[0] == 'dirty':
        return True
    if b[0] == 'ite':
        return maybe_dirty(I, b[2], depth + 1) or maybe_dirty(I, b[3], depth + 1)
    if b[0] == 'sub':
        return maybe_dirty(I, b[1], depth + 1)
    if b[0] == 'loop':
        info = I.loops.get(b[1].a[0])
        if info is None or b[1].a[1] not in info.leafs:
            return False
        return maybe_dirty(I, info.leafs[b[1].a[1]][1], depth + 1)
    return False


def init_cond(I, arr, e, f, depth=0):
    """condition under which element e has been written"""
    if not maybe_dirty(I, arr):
        return TRUE
    out = FALSE
    layers = list(arr.layers)
    while layers:
        l0 = layers.pop()
        parts = split_ites(l0, f)
        if len(parts) > 1:
            layers.extend(reversed(parts))
            continue
        if not parts:
            continue
        r = solve_layer(parts[0], e, f)
        if r[0] != 'sol':
            if r[0] == 'may':
                out = Or(out, batom(atom('unk', 'may be written', (e,))))
            continue
        d = f.decide(r[2])
        if d is True:
            return TRUE
        if d is False:
            continue
        out = Or(out, r[2])
        f = f.plus(Not(r[2]))
        if f.inconsistent():
            return TRUE
    b = arr.base
    if b[0] == 'dirty':
        return out
    if b[0] == 'ite':
        d = f.decide(b[1])
        if d is True:
            return Or(out, init_cond(I, b[2], e, f, depth + 1))
        if d is False:
            return Or(out, init_cond(I, b[3], e, f, depth + 1))
        return Or(out, bite(b[1], init_cond(I, b[2], e, f.plus(b[1]), depth + 1), init_cond(I, b[3], e, f.plus(Not(b[1])), depth + 1)))
    if b[0] == 'sub':
        return Or(out, init_cond(I, b[1], b[2] + e, f, depth + 1))
    if b[0] == 'loop':
        lkl, i = b[1], b[2]
        sols = loop_solutions(I, lkl, i, e, f)
        info = I.loops[lkl.a[0]]
        s0 = info.leafs[lkl.a[1]][1]
        mp = instantiate(info, lkl)
        if mp:
            s0 = vsubst(s0, mp)
        if sols == 'raw':
            out = Or(out, batom(atom('unk', 'may be written', (e,))))
        else:
            for n, c, it, v, l in sols:
                if c is None:
                    out = Or(out, batom(atom('unk', 'may be written', (e,))))
                    continue
                if c is TRUE:
                    return TRUE
                out = Or(out, c)
                f = f.plus(Not(c))
                if f.inconsistent():
                    return TRUE
        return Or(out, init_cond(I, s0, e, f, depth + 1))
    return TRUE
