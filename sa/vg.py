"""Value graphs: a function is abstracted to the terms of its results over uninterpreted loop states; every loop
contributes, per carried variable, an initial value and a step function.  Two graphs are compared by bisimulation
(loops and variables of one are mapped to those of the other, then every initial value, step, trip count and exit
condition has to agree).  Nothing is unrolled or executed."""
from .sym import *
from .sym import tsize
from .facts import Facts, walk
from .vals import *
from .interp import Interp, Dead, State
from . import loops as LP
from .loops import LoopRun, finish, once


# ------------------------------------------------------------------ literal facts
class CF:
    """facts as a set of literals, closed only under cheap sign reasoning"""
    __slots__ = ('lits', 'dead', 'ges', 'memo')
    cache = {}

    def __init__(self, lits):
        self.lits = lits
        self.memo = {}
        self.dead = FALSE in lits or any(l.k == 'not' and l.a[0] in lits for l in lits)
        self.ges = [l.a[0] for l in lits if l.k == 'ge'] + [q for l in lits if l.k == 'eq' for q in (l.a[0], -l.a[0])]

    @staticmethod
    def of(bs):
        s = set()
        st = list(bs)
        while st:
            b = st.pop()
            if b.k == 'and':
                st.extend(b.a)
            elif b is not TRUE:
                s.add(b)
                if b.k == 'ge':
                    c = forced(b)
                    if c is not None:
                        st.extend(c)
        k = frozenset(s)
        r = CF.cache.get(k)
        if r is None:
            r = CF.cache[k] = CF(k)
        return r

    def plus(self, *bs):
        bs = [b for b in bs if b is not TRUE and b not in self.lits]
        return CF.of(list(self.lits) + bs) if bs else self

    def inconsistent(self):
        return self.dead

    def prove(self, g, depth=2, *a):
        return self.decide(g) is True

    def decide(self, g):
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        r = self.memo.get(g, 0)
        if r == 0:
            r = self.memo[g] = self._decide(g)
        return r

    def _decide(self, g):
        if g in self.lits:
            return True
        if Not(g) in self.lits:
            return False
        if g.k == 'and':
            rs = [self.decide(x) for x in g.a]
            return False if False in rs else True if all(r is True for r in rs) else None
        if g.k == 'or':
            rs = [self.decide(x) for x in g.a]
            return True if True in rs else False if all(r is False for r in rs) else None
        if g.k == 'not':
            r = self.decide(g.a[0])
            return None if r is None else not r
        if g.k == 'ge':
            if self.pos(g.a[0], 3):
                return True
            if self.pos(-g.a[0] - 1, 3):
                return False
        if g.k == 'eq':
            p = g.a[0]
            if self.pos(p - 1, 3) or self.pos(-p - 1, 3):
                return False
            if self.pos(p, 2) and self.pos(-p, 2):
                return True
        return None

    def nonneg(self, a):
        k = a.k
        return (k == 'sym' and a.a[1] in ('nat', 'dim')) or k in ('kap', 'div', 'mod', 'cnt') or (k == 'el' and a.a[0].a[1] == 'natarr')

    def pos(self, p, d):
        neg = None
        for m, c in p.t.items():
            if c < 0 or any(not self.nonneg(a) for a, e in m):
                if not m:
                    if c < 0:
                        neg = m if neg is None else neg
                    continue
                neg = m
                break
        if neg is None:
            return True
        if d == 0:
            return False
        for q in self.ges:
            if neg in q.t and (p.t[neg] > 0) == (q.t[neg] > 0):
                if len(q.t) <= 4 and self.pos(p - q, d - 1):
                    return True
        if neg == ():
            # a negative constant: use a lower bound of one of the positive terms
            for q in self.ges:
                c = q.t.get((), 0)
                if c < 0 and len(q.t) <= 3 and self.pos(p - q, d - 1):
                    return True
        return False


_forced = {}


def forced(b):
    """p[ite(c, u, v)] >= 0 with p[u] negative whatever its states: not c, and p[v] >= 0"""
    r = _forced.get(b, 0)
    if r != 0:
        return r
    r = None
    for m, k in b.a[0].t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'ite':
            a = m[0][0]
            c, u, v = a.a
            rest = b.a[0] - P(a) * k
            e = CF(frozenset())
            if e.pos(-(rest + u * k) - 1, 0):
                r = [Not(c), ge0(rest + v * k)]
            elif e.pos(-(rest + v * k) - 1, 0):
                r = [c, ge0(rest + u * k)]
            break
    _forced[b] = r
    return r


# ------------------------------------------------------------------ interpreter producing value graphs
class VInterp(Interp):
    vg = True
    accum = True        # solve recurrences into sums, maxima, counts, ...

    def __init__(self, crate, assume=(), hooks=None, base=0):
        Interp.__init__(self, crate, assume, hooks)
        self.rec = False
        self._n = base
        self.vloops = {}

    def facts(self, st):
        return CF.of(self.assume + st.path + st.know)

    def event(self, *a, **k):
        return None

    def aread(self, arr, e, facts, depth=0):
        f = facts
        chain = []
        layers = list(arr.layers)
        val = None
        while layers:
            l = layers.pop()
            if l.vars:
                r = solve_layer(l, e, f)
                if r[0] == 'no':
                    continue
                if r[0] == 'may':
                    if self.layer_disjoint(l, e, f):
                        continue
                    val = self.unkval(arr.ek, 'region: ' + r[1], e)
                    break
                _, mp, cond = r
                v = None
            else:
                cond, mp, v = And(l.guard, ieq(l.idx, e)), None, l.val
            d = f.decide(cond)
            if d is False:
                continue
            if v is None:
                v = vsubst(l.val, mp)
            if d is True:
                val = v
                break
            chain.append((cond, v))
            f = f.plus(Not(cond))
        if val is None:
            val = self.base_read(arr, e, f, depth)
        for c, v in reversed(chain):
            val = merge(c, v, val)
        return val

    def layer_disjoint(self, l, e, f):
        return False

    def loop_read(self, lkl, i, e, f, ek, depth):
        la = atom('lread', lkl, i, e)
        return batom(la) if ek == 'bool' else P(la)


class VLoop(LoopRun):
    def nexts(self):
        again = False
        for l in self.leafs:
            if l.mode == 'lenof' or l.kind != 'a' or l.mode == 'opq':
                continue
            w = getl(self.merged.store.get(l.cell), l.path)
            cur = self.value_at(l)
            if l.closed is not None:
                if not same(w, cur):
                    self.I.note_unsupported('array changes late', self.node)
                continue
            if not isinstance(w, Arr):
                self.special[(l.cell, l.path)] = 'opq'
                again = True
                continue
            if same(w, cur):
                l.closed = l.x0
                l.W = []
                l.nv = w
                continue
            if w.ln is not cur.ln and l.mode != 'len' and not self.I.facts(self.merged).prove(ieq(w.ln, cur.ln)):
                self.special[(l.cell, l.path)] = 'len'
                again = True
                continue
            l.nv = w
            if l.mode == 'len':
                l.lenleaf.nv = w.ln
        arrs = [l for l in self.leafs if l.kind == 'a']
        self.leafs, keep = [l for l in self.leafs if l.kind != 'a'], self.leafs
        ok = LoopRun.nexts(self)
        self.leafs = keep
        return ok and not again

    def solve_all(self):
        any_ = False
        prog = True
        while prog:
            prog = False
            mp = self.closedmap()
            for l in self.leafs:
                if l.kind not in ('p', 'b') or l.closed is not None or l.mode == 'opq' or l.nv is None:
                    continue
                r = self.solve(l, subst(l.nv, mp))
                if r is not None and (self.I.accum or not accumulated(r)):
                    l.closed = r
                    prog = any_ = True
        return any_


def accumulated(x):
    hit = []
    walk(x, lambda n: hit.append(n) if n.k in BINDERS or n.k in ('all', 'ex') else None)
    return bool(hit)


getl = LP.getleaf


def plain(x):
    """integer term over dimensions and iteration numbers only"""
    bad = []

    def g(n):
        if n.k in BINDERS or n.k in ('lst', 'lread', 'kap', 'el', 'batom', 'teq', 'tle', 'tlt', 'all', 'ex'):
            bad.append(n)
    walk(x, g)
    return not bad and tsize(x) < 60


def count(I, p, st):
    """a trip count with the case distinctions decided that the dimension conditions on the way here settle"""
    a = None
    for x in p.atoms():
        if x.k == 'ite' and plain(x.a[0]):
            a = x
            break
    if a is None:
        return p
    lits = [l for l in CF.of(I.assume + st.path + st.know).lits if plain(l)]
    d = Facts.of(sorted(lits, key=lambda l: l.id)).decide(a.a[0])
    if d is None:
        return p
    return count(I, subst(p, {a: a.a[1] if d else a.a[2]}), st)


def vexec(I, st, fr, node, N, run, labels, roots, kind):
    if N is not None and N is ZERO and kind == 'for':
        return UNIT
    if N is not None:
        N = count(I, N, st)
        if N is ZERO and kind == 'for':
            return UNIT
    R = VLoop(I, st, fr, node, N, run, labels, roots, kind)
    passes = 0
    while True:
        R.setup()
        passes += 1
        if passes > 12:
            I.note_unsupported('loop does not stabilise', node)
            break
        if not R.one(False):
            continue
        if R.merged is None:
            return once(I, R, st, fr)
        if not R.nexts():
            continue
        break
    for rnd in range(3):
        ch = R.solve_all()
        if R.N is None:
            n = R.find_N()
            if n is not None:
                R.N = count(I, n, R.s0)
                ch = True
        if not ch and rnd:
            break
        if not R.one(False) or R.merged is None:
            break
        if not R.nexts():
            I.note_unsupported('loop state changes shape late', node)
            break
    if R.merged is None:
        return once(I, R, st, fr)
    R.info.N = R.N
    R.path = R.s0.path
    base = len(R.s0.path)
    R.normc = And(*R.merged.path[base:])
    R.anyexit = Or(*[And(*se.path[base:]) for k, lab, se, v in R.exits]) if R.exits else FALSE
    I.vloops[R.lname] = R
    return finish(I, R, st, fr, False)
