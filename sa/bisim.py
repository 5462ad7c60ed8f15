"""Comparison of two value graphs (sa/vg.py): the code under analysis against a reference algorithm.

1. alignment: loops and carried variables of the reference are mapped to those of the code by simultaneous traversal from
   the results, with votes (structural digests decide which summands and conjuncts correspond);
2. renaming of the reference's loop states to the code's;
3. obligations, one per aligned variable (initial value, step), per aligned loop (trip count, leaving condition), per
   result and for acceptance.  Each is an equality of two terms over uninterpreted loop states: discharged by hash-consing
   or the comparison prover, refuted by a point of the uninterpreted state space, otherwise left open."""
from fractions import Fraction
import heapq, random, math, time, signal, threading
from .sym import *
from .sym import REBUILD, tsize
from .facts import Facts, walk
from .vals import *
from . import cmp as CMP
from .cmp import Cmp, Eval, NoVal, close
from .loops import leaves
from .vg import VLoop as VL

UNK = {'unk', 'dirty', 'opqel', 'opqlen', 'unkpat', 'site'}


def allinfo(I):
    """leafs by (lname, leafname)"""
    d = {}
    for ln, R in I.vloops.items():
        for l in R.leafs:
            d[(ln, l.name)] = (R, l)
    return d


class Skel:
    """digest of terms modulo the identity of loops; level k looks k steps into the recurrences"""
    def __init__(self, info, level, prev=None):
        self.info, self.level, self.prev = info, level, prev
        self.memo = {}
        self.cmemo = {}

    def color(self, lk):
        key = (lk.a[0], lk.a[1])
        c = self.cmemo.get(key)
        if c is None:
            rl = self.info.get(key)
            if rl is None:
                c = hash(('?', len(lk.a[2])))
            else:
                R, l = rl
                base = (l.kind, str(l.num), len(R.params))
                if self.prev is None:
                    c = hash(base)
                else:
                    c = hash((base, self.prev.v(l.x0), self.prev.v(l.nv)))
            self.cmemo[key] = c
        return c

    def v(self, x):
        if x is None:
            return 0
        if isinstance(x, (Poly, B, Atom)):
            r = self.memo.get(x)
            if r is None:
                r = self.memo[x] = self.node(x)
            return r
        if isinstance(x, tuple):
            return hash(tuple(self.v(y) for y in x))
        if isinstance(x, Arr):
            return hash(('arr', self.base(x.base), tuple(self.layer(l) for l in x.layers)))
        if isinstance(x, VIte):
            return hash(('vite', self.v(x.c), self.v(x.a), self.v(x.b)))
        if isinstance(x, St):
            return hash(('st', tuple(self.v(y) for y in x.f.values())))
        if isinstance(x, En):
            return hash(('en', tuple((self.v(g), n, tuple(self.v(y) for y in f.values())) for g, n, f in x.cases)))
        if isinstance(x, (int, str, Fraction)):
            return hash(x)
        return hash(type(x).__name__)

    def layer(self, l):
        return hash((len(l.vars), self.v(l.guard), self.v(l.idx), self.v(l.val)))

    def base(self, b):
        if b[0] == 'loop':
            return hash(('loop', self.color(b[1]), self.v(b[2])))
        if b[0] == 'sym':
            return hash(('sym', str(b[1].a[0])))
        return hash((b[0],) + tuple(self.v(y) for y in b[1:]))

    def node(self, x):
        if isinstance(x, Poly):
            return hash(('p', frozenset((frozenset((self.v(a), e) for a, e in m), c) for m, c in x.t.items())))
        if isinstance(x, Atom):
            k = x.k
            if k == 'sym':
                s, sort = x.a[0], x.a[1]
                if isinstance(s, tuple):
                    return hash((s[0], sort))
                return hash((s, sort))
            if k == 'lk':
                return hash(('lk', self.color(x), self.v(x.a[2])))
            if k == 'kap':
                return hash(('kap', len(x.a[1])))
            if k == 'bv':
                return hash(('bv', x.a[0]))
            return hash((k,) + tuple(self.v(y) for y in x.a))
        k = x.k
        if k in ('and', 'or'):
            return hash((k, frozenset(self.v(y) for y in x.a)))
        if k == 'teq':
            return hash((k, frozenset(self.v(y) for y in x.a)))
        if k in ('eq',):
            return hash((k, self.v(x.a[0]) ^ self.v(-x.a[0])))
        return hash((k,) + tuple(self.v(y) for y in x.a))


def alike(xs, ys):
    """xs and ys with those of the same kind opposite each other"""
    def kind(x):
        if isinstance(x, tuple) and isinstance(x[0], Atom):
            x = x[0]
        return x.k if isinstance(x, (Atom, B)) else None
    ys = list(ys)
    front, rest = [], []
    for x in xs:
        k = kind(x)
        y = next((y for y in ys if kind(y) == k), None) if k is not None else None
        if y is None:
            rest.append(x)
        else:
            ys.remove(y)
            front.append((x, y))
    return [x for x, _ in front] + rest, [y for _, y in front] + ys


class Align:
    def __init__(self, IA, IB):
        self.A, self.B = IA, IB
        self.ia, self.ib = allinfo(IA), allinfo(IB)
        self.sk = []
        pa = pb = None
        for lev in range(4):
            pa, pb = Skel(self.ia, lev, pa), Skel(self.ib, lev, pb)
            self.sk.append((pa, pb))
        self.sk.reverse()
        self.votes = {}
        self.lvotes = {}
        self.loopm, self.looprev = {}, {}
        self.leafm, self.leafrev = {}, {}
        self.seen = {}
        self.heap = []
        self.order = []
        self.vexpr = {}        # A leaf -> B expressions seen against it

    # ---- voting
    def vote(self, lkA, lkB, w):
        a, b = (lkA.a[0], lkA.a[1]), (lkB.a[0], lkB.a[1])
        ra, rb = self.ia.get(a), self.ib.get(b)
        if ra is None or rb is None:
            return
        if ra[1].kind != rb[1].kind or len(ra[0].params) != len(rb[0].params):
            return
        v = self.votes.get((a, b), 0) + w
        self.votes[(a, b)] = v
        self.n += 1
        heapq.heappush(self.heap, (-v, self.n, a, b))

    n = 0

    def kvote(self, ka, kb, w):
        v = self.lvotes.get((ka, kb), 0) + w
        self.lvotes[(ka, kb)] = v

    def match(self, x, y, w):
        """iterative simultaneous traversal"""
        st = [(x, y, w)]
        while st:
            x, y, w = st.pop()
            if x is None or y is None or x is y and isinstance(x, (Poly, B, Atom)):
                continue
            if isinstance(x, (Poly, B, Atom)):
                if type(x) is not type(y):
                    continue
                o = self.seen.get((x, y), 0)
                if o >= w:
                    continue
                self.seen[(x, y)] = w
            if isinstance(x, Poly):
                if w < 0.0005:
                    continue
                self.pair_bags(list(x.t.items()), list(y.t.items()), w, st, self.mono_sk, self.mono_push)
            elif isinstance(x, Atom):
                if x.k != y.k or len(x.a) != len(y.a):
                    if w > 0.001:
                        for a, b in ((x, y),):
                            self.loose(a, b, w * 0.3, st)
                    continue
                if x.k == 'lk':
                    self.vote(x, y, w)
                    self.push_args(x.a[2], y.a[2], w, st)
                    continue
                if x.k == 'kap':
                    self.kvote(x.a[0], y.a[0], w)
                    self.push_args(x.a[1], y.a[1], w, st)
                    continue
                self.push_args(x.a, y.a, w, st)
            elif isinstance(x, B):
                if x.k == y.k and x.k in ('and', 'or'):
                    self.pair_bags(list(x.a), list(y.a), w, st, self.v_sk, lambda p, q, w, st: st.append((p, q, w)))
                elif x.k == y.k and x.k == 'teq':
                    self.pair_bags(list(x.a), list(y.a), w, st, self.v_sk, lambda p, q, w, st: st.append((p, q, w)))
                elif x.k == y.k:
                    self.push_args(x.a, y.a, w, st)
                elif x.k in ('and', 'or') or y.k in ('and', 'or'):
                    xs = list(x.a) if x.k in ('and', 'or') else [x]
                    ys = list(y.a) if y.k in ('and', 'or') else [y]
                    self.pair_bags(xs, ys, w * 0.5, st, self.v_sk, lambda p, q, w, st: st.append((p, q, w)), strict=True)
                elif x.k == 'not' or y.k == 'not':
                    st.append((x.a[0] if x.k == 'not' else x, y.a[0] if y.k == 'not' else y, w * 0.5))
            elif isinstance(x, Arr) and isinstance(y, Arr):
                st.append((x.ln, y.ln, w))
                self.arrs(x, y, w, st)
            elif isinstance(x, VIte) and isinstance(y, VIte):
                st += [(x.c, y.c, w), (x.a, y.a, w), (x.b, y.b, w)]

    def loose(self, a, b, w, st):
        if a.k == 'ite' and b.k != 'ite':
            for p in a.a[1:]:
                st.append((p, P(b), w))
        elif b.k == 'ite' and a.k != 'ite':
            for p in b.a[1:]:
                st.append((P(a), p, w))

    def arrs(self, x, y, w, st):
        if x.base[0] == y.base[0] and len(x.base) == len(y.base):
            if x.base[0] == 'loop':
                self.vote(x.base[1], y.base[1], w)
                self.push_args((x.base[1].a[2], x.base[2]), (y.base[1].a[2], y.base[2]), w, st)
            elif x.base[0] == 'ite':
                a = (x.base[2], x.base[3])
                b = (y.base[2], y.base[3])
                if self.v_eq(x.base[1], y.base[1]) or not self.v_eq(x.base[1], Not(y.base[1])):
                    st.append((x.base[1], y.base[1], w))
                else:
                    b = b[::-1]
                    st.append((x.base[1], Not(y.base[1]), w))
                st += [(a[0], b[0], w), (a[1], b[1], w)]
            elif x.base[0] in ('fn', 'const', 'sub'):
                for p, q in zip(x.base[1:], y.base[1:]):
                    if type(p) is type(q):
                        st.append((p, q, w))
        elif x.base[0] == 'ite':
            for p in x.base[2:]:
                if isinstance(p, Arr):
                    st.append((p, Arr(y.ln, y.base, (), y.ek), w * 0.5))
        elif y.base[0] == 'ite':
            for p in y.base[2:]:
                if isinstance(p, Arr):
                    st.append((Arr(x.ln, x.base, (), x.ek), p, w * 0.5))
        self.pair_bags(list(x.layers)[::-1], list(y.layers)[::-1], w, st, lambda s, l: s.layer(l), self.layer_push)

    def v_eq(self, p, q):
        return any(sa.v(p) == sb.v(q) for sa, sb in self.sk)

    def layer_push(self, l, m, w, st):
        st += [(l.guard, m.guard, w), (l.idx, m.idx, w), (l.val, m.val, w)]

    def v_sk(self, s, x):
        return s.v(x)

    def mono_sk(self, s, mc):
        m, c = mc
        return hash((frozenset((s.v(a), e) for a, e in m), c))

    def mono_push(self, p, q, w, st):
        (m1, c1), (m2, c2) = p, q
        if len(m1) == 1 and len(m2) == 1:
            st.append((m1[0][0], m2[0][0], w))
            return
        self.pair_bags(list(m1), list(m2), w, st, lambda s, ae: hash((s.v(ae[0]), ae[1])), lambda a, b, w, st: st.append((a[0], b[0], w)))

    def pair_bags(self, xs, ys, w, st, sk, push, strict=False):
        for n, (sa, sb) in enumerate(self.sk):
            if not xs or not ys:
                return
            ga, gb = {}, {}
            for x in xs:
                ga.setdefault(sk(sa, x), []).append(x)
            for y in ys:
                gb.setdefault(sk(sb, y), []).append(y)
            rx, ry = [], []
            for k, l in ga.items():
                m = gb.get(k, [])
                if not m:
                    rx += l
                    continue
                if len(l) == 1 and len(m) == 1:
                    push(l[0], m[0], w, st)
                elif n < len(self.sk) - 1 and len(l) != len(m):
                    rx += l
                    ry += m
                    continue
                else:
                    for p, q in zip(l, m):
                        push(p, q, w / (2.0 * max(len(l), len(m))), st)
                rx += l[len(m):]
                ry += m[len(l):]
            for k, m in gb.items():
                if k not in ga:
                    ry += m
            xs, ys = rx, ry
        if strict:
            return
        if len(xs) > 1 or len(ys) > 1:
            xs, ys = alike(xs, ys)
        for p, q in zip(xs, ys):
            push(p, q, w * (0.5 if len(xs) == 1 and len(ys) == 1 else 0.1), st)

    def push_args(self, p, q, w, st):
        if isinstance(p, tuple) and isinstance(q, tuple):
            for a, b in zip(p, q):
                self.push_args(a, b, w, st)
        elif isinstance(p, (Poly, B, Atom)) and isinstance(q, (Poly, B, Atom)):
            st.append((p, q, w))

    # ---- greedy assignment
    def accept(self, a, b):
        la, lb = a[0], b[0]
        if self.loopm.get(la, lb) is not lb or self.looprev.get(lb, la) is not la:
            return False
        if a in self.leafm or b in self.leafrev:
            return False
        RA, RB = self.ia[a][0], self.ib[b][0]
        # nesting: enclosing loops agree
        if la not in self.loopm:
            for p, q in zip(RA.params, RB.params):
                pa, pb = self.loop_of(self.A, p), self.loop_of(self.B, q)
                if pa is None or pb is None or self.loopm.get(pa, pb) is not pb or self.looprev.get(pb, pa) is not pa:
                    return False
            for p, q in zip(RA.params, RB.params):
                self.enter(self.loop_of(self.A, p), self.loop_of(self.B, q))
        self.leafm[a] = b
        self.leafrev[b] = a
        self.enter(la, lb)
        return True

    def enter(self, la, lb):
        if la in self.loopm:
            return
        self.loopm[la] = lb
        self.looprev[lb] = la
        self.order.append((la, lb))
        RA, RB = self.A.vloops[la], self.B.vloops[lb]
        w = 1.0
        if RA.N is not None and RB.N is not None:
            self.match(RA.N, RB.N, w)
        self.match(RA.anyexit, RB.anyexit, w)
        self.match(RA.normc, RB.normc, w)

    def loop_of(self, I, p):
        a = p.single_atom()
        d = getattr(I, '_byi', None)
        if d is None or len(d) != len(I.vloops):
            d = I._byi = {R.i: ln for ln, R in I.vloops.items()}
        return d.get(a)

    def run(self, pairs):
        for x, y in pairs:
            self.match(x, y, 1.0)
        while True:
            while self.heap:
                v, n, a, b = heapq.heappop(self.heap)
                if -v != self.votes.get((a, b)):
                    continue
                if not self.accept(a, b):
                    continue
                l, m = self.ia[a][1], self.ib[b][1]
                self.match(l.x0, m.x0, 1.0)
                if l.nv is not None and m.nv is not None:
                    self.match(l.nv, m.nv, 1.0)
            # loops known only through their exit iteration
            prog = False
            for (la, lb), v in sorted(self.lvotes.items(), key=lambda kv: -kv[1]):
                if la in self.loopm or lb in self.looprev or la not in self.A.vloops or lb not in self.B.vloops:
                    continue
                if len(self.A.vloops[la].params) != len(self.B.vloops[lb].params):
                    continue
                self.enter(la, lb)
                prog = True
                break
            if not prog:
                break

    # ---- renaming reference terms
    def renaming(self):
        mp = {}
        for la, lb in self.loopm.items():
            mp[la] = P(lb)
            mp[self.A.vloops[la].i] = P(self.B.vloops[lb].i)
        lm = {}
        for (la, na), (lb, nb) in self.leafm.items():
            lm[(lb, na)] = nb
        for ln in self.loopm.values():
            lm.setdefault(ln, True)
        return mp, lm


class Rename:
    def __init__(self, al):
        self.mp, self.lm = al.renaming()
        self.memo = {}

    def __call__(self, v):
        old = REBUILD.get('lk')

        def lk(ln, nm, ps):
            n2 = self.lm.get((ln, nm))
            if n2 is None and ln in self.lm:
                n2 = nm
            return P(atom('lk', ln, n2 if n2 is not None else nm, ps))
        REBUILD['lk'] = lk
        try:
            return self.go(v)
        finally:
            if old is None:
                del REBUILD['lk']
            else:
                REBUILD['lk'] = old

    def go(self, v):
        if v is None:
            return None
        if isinstance(v, (Poly, B)):
            return subst(v, self.mp, self.memo)
        return vsubst(v, self.mp)


# ------------------------------------------------------------------ refutation over uninterpreted loop states
class Stuck(Exception):
    pass


_BULKY = {}


def bulky(arr):
    """deciding which elements an iteration writes takes evaluating large terms"""
    r = _BULKY.get(id(arr))
    if r is None or r[0] is not arr:
        n = 0
        for l in arr.layers:
            n += tsize(l.guard) + tsize(l.idx)
        b = arr.base
        if b[0] == 'ite':
            n += tsize(b[1]) + (4000 if bulky(b[2]) or bulky(b[3]) else 0)
        elif b[0] == 'loop':
            n += tsize(b[2]) if isinstance(b[2], Poly) else 0
        r = _BULKY[id(arr)] = (arr, n > 4000)
    return r[1]


class UEval(Eval):
    """loop states, loop-carried arrays and exit iterations are arbitrary functions of their arguments, except that a
    location no iteration so far has written keeps its value, and that iteration 0 starts from the initial values"""
    exact = False       # leave no doubt about which elements have been written

    def __init__(self, rng, ints, kinds, info=None, tv=None, like=None):
        Eval.__init__(self, rng, ints)
        self.kinds = kinds
        self.info = info or {}
        self.lim = rng.choice([4, 5, 7])
        if like is not None:
            self.lim, self.pb, self.pt = like
        if tv is not None:
            self.tv = tv
        self.memo = {}
        self.kids = {}
        self.frame = {}
        self.budget = [150000]
        self.log = None
        self.trace = None
        self.root = self

    def tval(self, key):
        if self.root.log is not None:
            self.root.log[('T', key)] = 1
        return Eval.tval(self, key)

    def ival(self, key, lim=3):
        if self.root.log is not None:
            self.root.log[('N', key)] = 1
        return Eval.ival(self, key, lim)

    def bval(self, key):
        if self.root.log is not None:
            self.root.log[('B', key)] = 1
        return Eval.bval(self, key)

    def kid(self, R, params, i):
        """evaluator inside iteration i of loop R"""
        key = (R.lname, params, i)
        k = self.root.kids.get(key)
        if k is None:
            k = type(self).__new__(type(self))
            k.__dict__.update(self.root.__dict__)
            k.ints = dict(self.root.ints)
            for p, v in zip(R.params, params):
                k.ints[p.single_atom()] = v
            k.ints[R.i] = i
            k.memo = {}
            k.fuel = 20000
            self.root.kids[key] = k
        return k

    def key(self, x, env):
        """terms are evaluated once per value of the bound variables in them"""
        s = CMP.obv(x)
        if not s:
            return x
        return (x,) + tuple([(env.get(b), env.get(('acc', b))) for b in s])

    def p(self, x, env):
        c = self.key(x, env)
        v = self.memo.get(c)
        if v is not None:
            return v
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise NoVal('budget')
        v = self.memo[c] = Eval.p(self, x, env)
        return v

    def atom(self, a, env):
        if a.k in ('sym', 'bv'):
            return self.atom1(a, env)
        c = self.key(a, env)
        v = self.memo.get(c)
        if v is None:
            v = self.memo[c] = self.atom1(a, env)
        return v

    def b(self, x, env):
        c = self.key(x, env)
        v = self.memo.get(c)
        if v is None:
            v = self.memo[c] = self.b1(x, env)
        return v

    # ---- arrays at a concrete index
    def elem(self, arr, e, env=None):
        env = env or {}
        for l in reversed(arr.layers):
            if l.vars:
                k = self.within(l, e, env)
                if k is not None:
                    return k.b(l.val, env) if isinstance(l.val, B) else k.p(l.val, env)
                continue
            if self.p(l.idx, env) == e and self.b(l.guard, env):
                return self.b(l.val, env) if isinstance(l.val, B) else self.p(l.val, env)
        b = arr.base
        if b[0] == 'sym':
            s = b[1].a[1]
            return self.ival((b[1], e)) if s == 'natarr' else self.bval((b[1], e)) if s == 'boolarr' else self.tval((b[1], e))
        if b[0] == 'const':
            v = b[1]
            return self.b(v, env) if isinstance(v, B) else self.p(v, env)
        if b[0] == 'loop':
            return self.state('lread', b[1], (self.p(b[2], env), e), env)
        if b[0] == 'ite':
            return self.elem(b[2] if self.b(b[1], env) else b[3], e, env)
        if b[0] == 'sub':
            return self.elem(b[1], e + self.p(b[2], env), env)
        if b[0] == 'dirty':
            raise NoVal('dirty')
        if b[0] == 'fn':
            k = type(self).__new__(type(self))
            k.__dict__.update(self.__dict__)
            k.ints = dict(self.ints)
            k.ints[b[1]] = e
            k.memo = {}
            return k.b(b[2], env) if isinstance(b[2], B) else k.p(b[2], env)
        raise Stuck

    def within(self, l, e, env):
        raise Stuck

    def unwritten(self, arr, e, lk, i):
        """arr is the content after an iteration of loop lk whose content at its start is ('loop', lk, i)"""
        for l in reversed(arr.layers):
            if l.vars:
                return self.unsure()
            if self.p(l.idx, {}) == e and self.b(l.guard, {}):
                return False
        b = arr.base
        if b[0] == 'loop':
            if b[1] is lk:
                return True
            rl = self.info.get((b[1].a[0], b[1].a[1]))
            if rl is None:
                return self.unsure()
            R, l = rl
            ps = tuple(self.p(z, {}) for z in b[1].a[2])
            n = self.p(b[2], {})
            k = self.kid(R, ps, 0)
            return self.untouched(R, l, ps, n, e) and k.unwritten(l.x0, e, lk, i)
        if b[0] == 'ite':
            return self.unwritten(b[2] if self.b(b[1], {}) else b[3], e, lk, i)
        return False

    def unsure(self):
        if self.root.exact:
            raise NoVal('frame')
        return False

    def untouched(self, R, l, ps, n, e):
        """no iteration before n of R (at outer iterations ps) writes element e of leaf l"""
        key = (R.lname, l.name, ps, n, e)
        r = self.root.frame.get(key)
        if r is None:
            r = self.root.frame[key] = self._untouched(R, l, ps, n, e)
        return r

    def _untouched(self, R, l, ps, n, e):
        if n <= 0:
            return True
        if n > (100 if self.root.exact else 12) or not isinstance(l.nv, Arr) or l.closed is not None or bulky(l.nv) and not self.root.exact:
            return self.unsure()
        if not self.untouched(R, l, ps, n - 1, e):
            return False
        return self.kid(R, ps, n - 1).unwritten(l.nv, e, l.lkl, None)

    def counted(self, R, l, ps, n):
        """a counter whose increments do not depend on what the loop carries has the value they add up to"""
        d = getattr(l, 'inc', None)
        if d is None:
            d = False
            if isinstance(l.nv, Poly) and isinstance(l.x0, Poly) and l.closed is None:
                x = l.nv - P(l.atom)
                if not R.has_state(x):
                    d = x
            l.inc = d
        if d is False:
            return None
        try:
            return int(self.kid(R, ps, 0).p(l.x0, {})) + sum(int(self.kid(R, ps, j).p(d, {})) for j in range(n))
        except Stuck:
            self.unsure()
        except NoVal as x:
            if x.args[0] != 'dirty':
                raise
        return None

    def state(self, k, lk, args, env):
        kind = self.kinds.get((lk.a[0], lk.a[1]), 'T')
        ps = self.arg(lk.a[2], env)
        rl = self.info.get((lk.a[0], lk.a[1]))
        if rl is not None and all(isinstance(v, int) or v == int(v) for v in ps + args):
            ps, args = tuple(int(v) for v in ps), tuple(int(v) for v in args)
            R, l = rl
            if kind == 'nat' and k == 'lst' and 0 < args[0] <= 64:
                v = self.counted(R, l, ps, args[0])
                if v is not None:
                    return v
            if self.root.trace is not None and k == 'lread':
                self.root.trace.add(((lk.a[0], lk.a[1]), args[0], args[1]))
            try:
                if k == 'lst' and args[0] <= 0 and isinstance(l.x0, (Poly, B)):
                    kd = self.kid(R, ps, 0)
                    return kd.b(l.x0, {}) if isinstance(l.x0, B) else kd.p(l.x0, {})
                if k == 'lread' and isinstance(l.x0, Arr) and self.untouched(R, l, ps, args[0], args[1]):
                    return self.kid(R, ps, 0).elem(l.x0, args[1])
            except Stuck:
                self.unsure()
            except NoVal as x:
                if x.args[0] != 'dirty':
                    raise
        ar = (lk.a[0], lk.a[1], ps, args)
        if kind == 'nat':
            return self.ival((k, ar), self.lim)
        if kind == 'int':
            if self.root.log is not None:
                self.root.log[('Z', (k, ar))] = 1
            v = self.tv.get((k, ar))
            if v is None:
                v = self.tv[(k, ar)] = self.rng.randrange(-1, self.lim)
            return v
        if kind in ('b', 'bool'):
            return self.bval((k, ar))
        return self.tval((k, ar))

    def atom1(self, a, env):
        k = a.k
        if k == 'sym' and self.root.log is not None and a in self.root.ints:
            self.root.log[('D', a)] = 1
        if k in ('lst', 'lread'):
            return self.state(k, a.a[0], tuple(self.arg(z, env) for z in a.a[1:]), env)
        if k == 'kap':
            return self.ival((k, a.a[0], self.arg(a.a[1], env)), self.lim if self.rng.random() < 0.5 else 1)
        if k in UNK:
            raise NoVal(k)
        return Eval.atom(self, a, env)

    def b1(self, x, env):
        if x.k == 'batom':
            a = x.a[0]
            if a.k in ('lst', 'lread'):
                v = self.state(a.k, a.a[0], tuple(self.arg(z, env) for z in a.a[1:]), env)
                return bool(v) if not isinstance(v, bool) else v
            if a.k in UNK:
                raise NoVal(a.k)
        return Eval.b(self, x, env)


class REval(UEval):
    """the states of the loops `ran` are the values of their recurrences, the others arbitrary"""
    exact = True
    ran = frozenset()
    MAXIT = 40

    def within(self, l, e, env):
        """evaluator at the last of the writes of a layer that reaches element e"""
        def go(k, vs):
            if not vs:
                return k if k.p(l.idx, env) == e and k.b(l.guard, env) else None
            a, n = vs[-1]
            n = int(k.p(n, env))
            if n > self.MAXIT:
                raise NoVal('iteration')
            for v in range(n - 1, -1, -1):
                q = type(self).__new__(type(self))
                q.__dict__.update(k.__dict__)
                q.ints = dict(k.ints)
                q.ints[a] = v
                q.memo = {}
                q.fuel = 20000
                r = go(q, vs[:-1])
                if r is not None:
                    return r
            return None
        return go(self, list(l.vars))

    def state(self, k, lk, args, env):
        if lk.a[0] not in self.root.ran:
            return UEval.state(self, k, lk, args, env)
        rl = self.info.get((lk.a[0], lk.a[1]))
        if rl is None:
            raise NoVal('no such state')
        R, l = rl
        ps = tuple(int(v) for v in self.arg(lk.a[2], env))
        i = int(args[0])
        if i < 0 or i > self.MAXIT:
            raise NoVal('iteration')
        d = self.root.__dict__.setdefault('sm', {})
        key = (R.lname, l.name, ps) + tuple(args)
        if key in d:
            r = d[key]
            if r is None:
                raise NoVal('dirty')
            return r
        try:
            r = d[key] = self.value_at(k, lk, args, env, R, l, ps, i)
        except NoVal as x:
            if x.args[0] == 'dirty':
                d[key] = None
            raise
        return r

    def value_at(self, k, lk, args, env, R, l, ps, i):
        if l.closed is not None:
            v, ev = l.closed, self.kid(R, ps, i)
        elif i == 0:
            v, ev = l.x0, self.kid(R, ps, 0)
        else:
            for j in range(1, i):       # from the first on, to keep the recursion flat
                try:
                    self.state(k, lk, (j,) + tuple(args[1:]), env)
                except NoVal as x:
                    if x.args[0] != 'dirty':
                        raise
            v, ev = l.nv, self.kid(R, ps, i - 1)
        if v is None:
            raise NoVal('no step')
        return ev.elem(v, int(args[1])) if isinstance(v, Arr) else ev.b(v, {}) if isinstance(v, B) else ev.p(v, {})

    def atom1(self, a, env):
        if a.k == 'kap' and a.a[0] in self.root.ran:
            R = self.root.loops.get(a.a[0])
            if R is None:
                raise NoVal('loop')
            ps = tuple(int(v) for v in self.arg(a.a[1], env))
            for i in range(self.MAXIT):
                if self.kid(R, ps, i).b(R.anyexit, {}):
                    return i
            raise NoVal('iteration')
        return UEval.atom1(self, a, env)


def lnames(*xs):
    s = set()

    def g(n):
        if n.k in ('kap', 'lk'):
            s.add(n.a[0])
    for x in xs:
        walk(x, g)
    return s


def clean(*xs):
    bad = []

    def g(n):
        if n.k in UNK:
            bad.append(n)
    for x in xs:
        walk(x, g)
    return not bad


def states(x):
    s = set()

    def g(n):
        if n.k in ('lst', 'lread'):
            s.add((n.a[0].a[0], n.a[0].a[1]))
        elif n.k == 'kap':
            s.add(n.a[0])
        elif n.k == 'el':
            s.add(n.a[0])
        elif n.k == 'sym' and n.a[1] == 'T':
            s.add(n)
    walk(x, g)
    return s


def relevant(cs, a, b):
    """conditions connected with a or b through a loop state (the others only say that the point is reached)"""
    have = states(a) | states(b)
    rest = [(c, states(c)) for c in cs]
    out = [c for c, s in rest if not s]
    rest = [(c, s) for c, s in rest if s]
    prog = True
    while prog:
        prog = False
        for c, s in list(rest):
            if s & have:
                out.append(c)
                rest.remove((c, s))
                if len(s - have) <= 2:
                    have |= s
                prog = True
    return out


ERR = (NoVal, OverflowError, ZeroDivisionError, RecursionError, KeyError, TypeError)


def instances(c):
    """a comparison at the first few values of the bound variable in it"""
    o = list(CMP.obv(c))
    if not o:
        return [c]
    if len(o) > 1:
        return []
    v = atom('bv', o[0])
    r = [subst(c, {v: P(i)}) for i in range(3)]
    return [m for m in r if isinstance(m, B) and m.k == c.k and not CMP.obv(m)]


def compares(a, b):
    """comparisons that occur in one of the two terms only"""
    def nodes(x):
        s = {}

        def g(n):
            if isinstance(n, B) and n.k in ('tlt', 'tle', 'teq', 'ge', 'eq'):
                for m in instances(n):
                    s[m] = 1
        walk(x, g)
        return s
    na, nb = nodes(a), nodes(b)
    d = [n for n in na if n not in nb] + [n for n in nb if n not in na]
    for x in (a, b):
        # where an array element is written
        s = x.single_atom() if isinstance(x, Poly) else None
        while s is not None and s.k == 'ite':
            if s.a[0].k == 'eq':
                d.append(s.a[0])
            s = s.a[2].single_atom()
    return d or list(na)


class Search:
    """points of the uninterpreted state space: values of the states, arrays and function symbols at the arguments where
    they are read.  Local search: values read by a condition that does not hold are redrawn, or solved for"""
    def __init__(self, conds, a, b, kinds, info, seed=1):
        self.kinds, self.info = kinds, info
        self.a, self.b = a, b
        self.rng = random.Random(seed)
        self.all = [c for c in conds if c is not TRUE and clean(c)]
        self.syms = CMP.int_syms(a, b, *self.all)
        self.cmps = compares(a, b)
        self.hit = self.dif = 0
        self.first = None
        self.only = frozenset()      # loops only the reference's side depends on
        ka, kb = set(CMP.thresholds(a)), set(CMP.thresholds(b))
        self.near = sorted(k for k in ka ^ kb if k <= 80)     # constants only one side compares with
        self.k = None
        self.far = sorted(CMP.constants(a) ^ CMP.constants(b))         # constants only one side compares elements with
        self.pool = None

    def fresh(self):
        rng = self.rng
        lim = rng.choice((4, 6, 8))
        self.ints = {}
        for s in self.syms:
            lo = 1 if s.a[1] == 'dim' else 0
            self.ints[s] = rng.randrange(lo if s.a[1] != 'int' else -2, lim + 1)
        self.k = None
        if self.near and rng.random() < 0.6:
            # sizes around a constant of one side
            self.k = k = rng.choice(self.near)
            for s in self.syms:
                if rng.random() < 0.75:
                    self.ints[s] = max(1 if s.a[1] == 'dim' else 0, k + rng.randrange(-2, 4))
        self.tv = {}
        self.pool = self.far if self.far and rng.random() < 0.5 else None
        e = Eval(rng, {})
        self.like = (rng.choice([4, 5, 7, 5, 15]) if self.k is None or rng.random() < 0.4 else self.k + 3, e.pb, e.pt)

    def ev(self, log=False):
        e = UEval(self.rng, dict(self.ints), self.kinds, self.info, self.tv, self.like)
        e.fuel = 8000
        if self.pool:
            e.pool, e.rational = self.pool, True
        if log:
            e.log = {}
        return e

    def holds(self, e, c):
        try:
            return bool(e.b(c, {}))
        except ERR:
            return False

    def val(self, e, x):
        return e.b(x, {}) if isinstance(x, B) else e.p(x, {})

    def reads(self, x):
        e = self.ev(True)
        try:
            self.val(e, x)
        except ERR:
            pass
        return list(e.log)

    def get(self, key):
        return self.ints[key[1]] if key[0] == 'D' else self.tv.get(key[1])

    def put(self, key, v):
        if key[0] == 'D':
            self.ints[key[1]] = v
        elif v is None:
            self.tv.pop(key[1], None)
        else:
            self.tv[key[1]] = v

    def propose(self, key):
        rng, v = self.rng, self.get(key)
        k = key[0]
        if k == 'B':
            return not v
        if k == 'T':
            if self.pool and rng.random() < 0.5:
                return CMP.around(rng, self.pool, self.tv)
            r = rng.random()
            if r < 0.25:
                return Fraction(rng.choice([0, 0, 1, -1]))
            if r < 0.5 and self.tv:
                o = rng.choice([x for x in self.tv.values() if isinstance(x, Fraction)] or [Fraction(0)])
                return o if rng.random() < 0.7 else -o
            if r < 0.6 and isinstance(v, Fraction):
                return v * rng.choice([-1, 2, 100])
            return Fraction(rng.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7]), rng.choice([1, 2, 3]))
        lo = 0
        if k == 'D':
            lo = 1 if key[1].a[1] == 'dim' else 0 if key[1].a[1] != 'int' else -2
        if k == 'Z':
            lo = -1
        r = rng.random()
        if r < 0.5 and isinstance(v, int):
            return max(lo, v + rng.choice([1, -1]))
        if r < 0.7:
            o = [x for x in self.ints.values()]
            return max(lo, rng.choice(o) + rng.choice([0, 0, -1, 1])) if o else lo
        if self.k is not None and r < 0.9:
            return max(lo, self.k + rng.randrange(-2, 4))
        return rng.randrange(lo, 8)

    def solve(self, x, y, keys):
        """one value of type T such that x == y (secant)"""
        ks = [k for k in keys if k[0] == 'T' and isinstance(self.get(k), Fraction)]
        if not ks:
            return False
        k = self.rng.choice(ks)
        v0 = self.get(k)

        def f(v):
            self.put(k, v)
            e = self.ev()
            return self.val(e, x) - self.val(e, y)
        try:
            f0 = f(v0)
            v1 = v0 + self.rng.choice([1, -1, Fraction(1, 2), 3])
            f1 = f(v1)
            if f1 == f0:
                raise ZeroDivisionError
            v = Fraction(v0 - f0 * (v1 - v0) / (f1 - f0))
            most = 10 ** 6 if isinstance(f0, float) or isinstance(f1, float) else 10 ** 20
            if abs(v) > most or v.denominator > most:
                raise ZeroDivisionError
            self.put(k, v)
            return True
        except ERR:
            self.put(k, v0)
            return False

    def isolve(self, p):
        """one dimension or index such that p == 0"""
        rng = self.rng
        ks = [a for a in self.ints if ((a, 1),) in p.t and p.t[((a, 1),)] in (1, -1) and all(z is not a for m in p.t for z, e in m if m != ((a, 1),))]
        ks = [a for a in ks if p.coeff_of(a) is not None]
        if not ks:
            return False
        ks.sort(key=lambda a: a.id)
        a = ks[-1] if rng.random() < 0.7 else rng.choice(ks)
        try:
            e = self.ev()
            v = self.ints[a] - p.t[((a, 1),)] * e.p(p, {})
        except ERR:
            return False
        if v != int(v) or v < 0 or v > 200:
            return False
        self.ints[a] = int(v)
        return True

    def flip(self, c):
        """change the truth of a comparison, or get to its boundary"""
        keys = self.reads(c)
        if c.k in ('teq', 'tle', 'tlt') and self.rng.random() < 0.6:
            if self.solve(c.a[0], c.a[1], keys):
                return
        if c.k in ('eq', 'ge') and self.rng.random() < 0.7:
            if self.isolve(c.a[0]):
                return
        if keys:
            k = self.rng.choice(keys)
            self.put(k, self.propose(k))

    def move(self, c, want=True):
        """change a value that condition c reads"""
        keys = self.reads(c)
        if not keys:
            return False
        rng = self.rng
        leaf = c
        while leaf.k in ('not', 'and', 'or'):
            leaf = rng.choice(list(leaf.a))
        if leaf.k in ('teq', 'tle', 'tlt') and not CMP.obv(leaf) and rng.random() < 0.4:
            if self.solve(leaf.a[0], leaf.a[1], self.reads(leaf)):
                return True
        if leaf.k == 'eq' and not CMP.obv(leaf) and rng.random() < 0.4 and self.isolve(leaf.a[0]):
            return True
        k = rng.choice(keys)
        self.put(k, self.propose(k))
        return True

    def satisfied(self, cs):
        e = self.ev()
        return [self.holds(e, c) for c in cs]

    def climb(self, cs, steps):
        """to a point where all of cs hold"""
        rng = self.rng
        ok = self.satisfied(cs)
        n = sum(ok)
        for _ in range(steps):
            if all(ok):
                return True
            if self.late():
                return False
            bad = [c for c, o in zip(cs, ok) if not o]
            c = rng.choice(bad)
            old = (dict(self.ints), dict(self.tv))
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                if not self.move(c):
                    return False
            ok2 = self.satisfied(cs)
            if sum(ok2) >= n or rng.random() < 0.03:
                ok, n = ok2, sum(ok2)
            else:
                self.ints, self.tv = old
        return all(ok)

    def late(self):
        return time.time() > self.until

    def run(self, cs, rest, restarts, steps, probes, hits=120, secs=6.0):
        self.until = time.time() + secs
        self.cs = cs
        rng = self.rng
        tested = {}
        for r in range(restarts):
            if self.late() or self.hit >= hits or self.dif >= 3:
                break
            self.fresh()
            if not self.climb(cs, steps):
                continue
            for q in range(probes):
                e = self.ev()
                try:
                    x, y = self.val(e, self.a), self.val(e, self.b)
                except ERR:
                    x = y = None
                if x is not None:
                    self.hit += 1
                    if not close(x, y):
                        if self.exactly() and (not self.only or self.really()) and self.confirm(rest, tested):
                            self.dif += 1
                            if self.first is None:
                                self.first = {show(P(s)): int(v) for s, v in self.ints.items() if not isinstance(s.a[0], tuple)}
                                self.first['code'], self.first['reference'] = str(y)[:24], str(x)[:24]
                        break
                if q == probes - 1 or self.late():
                    break
                old = (dict(self.ints), dict(self.tv))
                if self.cmps and rng.random() < 0.6:
                    self.flip(rng.choice(self.cmps))
                else:
                    keys = self.reads(self.a) + self.reads(self.b)
                    if keys:
                        k = rng.choice(keys)
                        self.put(k, self.propose(k))
                if not self.climb(cs, 6):
                    self.ints, self.tv = old
        return self.first, self.hit, self.dif

    def exactly(self):
        """the difference is there when no element is taken for changed that no iteration writes"""
        def f():
            e = self.ev()
            e.exact = True
            e.fuel, e.budget = 60000, [600000]
            try:
                return all(e.b(c, {}) for c in self.cs) and not close(self.val(e, self.a), self.val(e, self.b))
            except ERR:
                return False
        return limited(f, 10, False)

    def really(self):
        """the difference is there when the loops the code's side does not need are given the values of their recurrences"""
        def f():
            e = REval(self.rng, dict(self.ints), self.kinds, self.info, self.tv, self.like)
            e.ran, e.loops = self.only, {R.lname: R for R, l in self.info.values()}
            e.fuel, e.budget = 200000, [2000000]
            try:
                return all(e.b(c, {}) for c in self.cs) and not close(self.val(e, self.a), self.val(e, self.b))
            except ERR + (Stuck,):
                return False
        return limited(f, 5, False)

    def confirm(self, rest, tested):
        """the conditions that do not concern the difference can hold with these dimensions"""
        if not rest:
            return True
        k = tuple(sorted((s.id, v) for s, v in self.ints.items()))
        r = tested.get(k)
        if r is None:
            r = tested[k] = all(self.possible1(c) for c in rest)
        return r

    def possible1(self, c):
        s = Search([c], ONE, ONE, self.kinds, self.info, 7)
        s.until = time.time() + 0.7
        for _ in range(8):
            s.fresh()
            s.ints = dict(self.ints)
            for t in range(12):
                e = s.ev()
                if s.holds(e, c):
                    return True
                keys = [k for k in s.reads(c) if k[0] != 'D']
                if not keys or s.late():
                    break
                k = s.rng.choice(keys)
                s.put(k, s.propose(k))
        return False


def urefute(conds, a, b, kinds, info=None, quick=False, seed=1, secs=None, keep=None):
    """(point where the conditions hold and a != b, number of points that satisfy the conditions, number that differ)"""
    if not clean(a, b):
        return None, 0, 0
    S = Search(conds, a, b, kinds, info, seed)
    cs = relevant(S.all, a, b)
    rest = [c for c in S.all if c not in cs]
    cs.sort(key=lambda c: (CMP.has_quant(c), c.id))
    if keep is not None:
        S.only = oneside(a, b, info, keep)
    if quick:
        return S.run(cs, rest, 40, 12, 1, hits=12, secs=secs or 1.0)
    paths = diffpaths(a, b)
    if len(paths) == 1 and not paths[0][0]:
        return S.run(cs, rest, 240, 40, 10, hits=300, secs=secs or 8.0)
    hits = 0
    until = time.time() + (secs or 8.0)
    for n, (pc, x, y) in enumerate(paths):
        left = (until - time.time()) / (len(paths) - n)
        if left < 0.05:
            break
        near, far = S.near, S.far
        S = Search(conds + pc, x, y, kinds, info, seed)
        S.near, S.far = near, far
        if keep is not None:
            S.only = oneside(x, y, info, keep)
        cs = relevant(S.all, x, y)
        cs += [c for c in pc if c not in cs and c in S.all]
        rest = [c for c in S.all if c not in cs]
        cs.sort(key=lambda c: (CMP.has_quant(c), c.id))
        w, h, d = S.run(cs, rest, 240, 40, 9, hits=300, secs=left)
        hits += h
        if d:
            return w, hits, d
    return None, hits, 0


def oneside(x, y, info, keep):
    """the loops x depends on, directly or through the steps of others, and y does not"""
    by = {}
    for R, l in info.values():
        by.setdefault(R.lname, (R, []))[1].append(l)
    out = set()
    no = set(keep) | lnames(y)
    todo = lnames(x) - no
    while todo:
        ln = todo.pop()
        if ln in out or ln in no or ln not in by:
            continue
        out.add(ln)
        R, ls = by[ln]
        new = set()
        for v in [R.N, R.anyexit] + [z for l in ls for z in (l.x0, l.nv, l.closed)]:
            if v is not None:
                from .judge import values
                values(v, lambda t: new.update(lnames(t)))
        todo |= new - out - no
    return frozenset(out)


def diffpaths(a, b, most=12):
    """where two terms differ: (conditions that select the subterms, subterm of a, subterm of b)"""
    out = []
    todo = [([], a, b)]
    while todo:
        cs, x, y = todo.pop(0)
        if x is y:
            continue
        sx = x.single_atom() if isinstance(x, Poly) else None
        sy = y.single_atom() if isinstance(y, Poly) else None
        ix, iy = sx is not None and sx.k == 'ite', sy is not None and sy.k == 'ite'
        if len(out) + len(todo) >= most or not (ix or iy):
            out.append((cs, x, y))
        elif ix and iy and sx.a[0] is sy.a[0]:
            todo += [(cs + [sx.a[0]], sx.a[1], sy.a[1]), (cs + [Not(sx.a[0])], sx.a[2], sy.a[2])]
        elif ix and iy:
            c, d = sx.a[0], sy.a[0]
            for p, u in ((c, sx.a[1]), (Not(c), sx.a[2])):
                for q, v in ((d, sy.a[1]), (Not(d), sy.a[2])):
                    if And(p, q) is not FALSE:
                        todo.append((cs + [p, q], u, v))
        elif ix:
            todo += [(cs + [sx.a[0]], sx.a[1], y), (cs + [Not(sx.a[0])], sx.a[2], y)]
        else:
            todo += [(cs + [sy.a[0]], x, sy.a[1]), (cs + [Not(sy.a[0])], x, sy.a[2])]
    return out or [([], a, b)]


class Late(Exception):
    pass


def limited(f, secs, dflt):
    """f(), or dflt when it takes too long"""
    if threading.current_thread() is not threading.main_thread():
        return f()

    def ring(*a):
        raise Late
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f()
    except (Late, RecursionError):
        return dflt
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ obligations
class Ob:
    """one equality: reference term `a`, code term `b`, under `facts`"""
    def __init__(self, what, loc, a, b, conds):
        self.what, self.loc, self.a, self.b, self.conds = what, loc, a, b, conds
        self.res = None
        self.info = None


class Bisim:
    def __init__(self, IA, IB, pairs, assume, al=None, deep=True):
        """pairs: (label, reference value, code value, extra conditions)"""
        self.A, self.B, self.assume = IA, IB, list(assume)
        self.pairs = pairs
        self.al = al or Align(IA, IB)
        self.deep = deep
        self.obs = []
        self.kinds = {}
        self.undecided = []
        self.times = {}
        self.lenient = False
        self.left = 100.0        # seconds for the search of counterexamples

    def run(self):
        self.al.run([(x, y) for _, x, y, _ in self.pairs])
        ren = self.ren = Rename(self.al)
        for key, (R, l) in self.al.ib.items():
            self.kinds[key] = self.kindof(l)
        for key, (R, l) in self.al.ia.items():
            m = self.al.leafm.get(key)
            if m is None:
                ln = self.al.loopm.get(key[0])
                self.kinds[(ln, key[1]) if ln is not None else key] = self.kindof(l)
        self.info = self.al.ib
        self.hard = []
        for label, x, y, conds in self.pairs:
            x = ren(x)
            if self.lenient and label.startswith('accepts'):
                y = And(x, y)       # accepting what the reference leaves undefined is no difference
            self.value(label, None, x, y, conds)
        for la, lb in self.al.order:
            self.loop(la, lb)
        self.search()
        return self

    def kindof(self, l):
        if l.kind == 'p':
            return l.num or 'T'
        if l.kind == 'a':
            return {'T': 'T', 'nat': 'nat', 'bool': 'bool'}.get(l.x0.ek, 'T') if isinstance(l.x0, Arr) else 'T'
        return l.kind

    def loop(self, la, lb):
        RA, RB = self.A.vloops[la], self.B.vloops[lb]
        ren = self.ren
        out = list(RB.path) + list(RB.s0.know)
        inn = out + ([ge0(RB.N - 1 - RB.ip)] if RB.N is not None else [])
        loc = RB
        if (RA.N is None) != (RB.N is None):
            self.undecided.append(('trip count known on one side only', RB))
        elif RA.N is not None:
            self.value('number of iterations', loc, ren(RA.N), RB.N, out)
        self.value('condition for leaving the loop', loc, ren(RA.anyexit), RB.anyexit, inn)
        fin = inn + [RB.normc]
        for l in RB.leafs:
            key = (lb, l.name)
            k2 = self.al.leafrev.get(key)
            if k2 is None:
                continue
            m = self.al.ia[k2][1]
            self.leaf(l, m, RB, RA, out, fin)

    def leaf(self, l, m, RB, RA, out, fin):
        ren = self.ren
        self.value('initial value', (RB, l), ren(m.x0), l.x0, out)
        if l.closed is not None and m.closed is not None:
            self.value('value in iteration i', (RB, l), ren(m.closed), l.closed, fin)
        elif l.closed is not None or m.closed is not None:
            # a closed form against a recurrence
            self.value('value in iteration i', (RB, l), ren(self.cur(m, RA)), self.cur(l, RB), fin)
        elif l.nv is not None and m.nv is not None:
            self.value('step', (RB, l), ren(m.nv), l.nv, fin)
        else:
            self.undecided.append(('no step', RB))

    def cur(self, l, R):
        return R.value_at(l)

    def value(self, what, loc, a, b, conds):
        if a is None or b is None:
            self.undecided.append((what, loc))
            return
        if isinstance(a, (Poly, B)) and type(a) is type(b):
            self.term(what, loc, a, b, conds)
        elif isinstance(a, Arr) and isinstance(b, Arr):
            self.array(what, loc, a, b, conds)
        elif isinstance(a, VIte) and isinstance(b, VIte):
            self.term(what, loc, a.c, b.c, conds)
            self.value(what, loc, a.a, b.a, conds + [b.c])
            self.value(what, loc, a.b, b.b, conds + [Not(b.c)])
        elif isinstance(a, En) and isinstance(b, En) and len(a.cases) == len(b.cases) and [c[1] for c in a.cases] == [c[1] for c in b.cases]:
            for x, y in zip(a.cases, b.cases):
                self.term(what, loc, x[0], y[0], conds)
                for k in x[2]:
                    self.value(what, loc, x[2][k], y[2].get(k), conds + [y[0]])
        else:
            self.undecided.append((what, loc))

    def array(self, what, loc, a, b, conds):
        if same(a, b):
            return self.ok(what, loc)
        self.term(what + ' (length)', loc, a.ln, b.ln, conds)
        e = sym(('e', self.B.fresh()), 'nat')
        cs = conds + [ge0(b.ln - 1 - P(e))]
        from .vg import CF
        f = CF.of(self.assume + cs)
        x = self.B.aread(a, P(e), f)
        y = self.B.aread(b, P(e), f)
        if not isinstance(x, (Poly, B)) or type(x) is not type(y):
            self.undecided.append((what, loc))
            return
        self.term(what, loc, x, y, cs)

    def ok(self, what, loc):
        o = Ob(what, loc, None, None, None)
        o.res = 'same'
        self.obs.append(o)

    def term(self, what, loc, a, b, conds):
        t = time.time()
        self.term1(what, loc, a, b, conds)
        self.times[(what, str(loc[0].lname) + str(loc[1].cell) if isinstance(loc, tuple) else str(loc and loc.lname))] = time.time() - t

    def term1(self, what, loc, a, b, conds):
        o = Ob(what, loc, a, b, conds)
        self.obs.append(o)
        if a is b:
            o.res = 'same'
            return
        s = isinstance(a, Poly) and a.single_atom()
        if s and s.k == 'dirty':
            o.res = 'any'
            return
        conds = list(conds)
        a, b, conds = self.reduce(a, b, conds)
        if a is b:
            o.res = 'proved'
            return
        cs = self.assume + conds + self.kapfacts(a, b)
        if self.prove(a, b, cs, 600) or (urefute(cs, a, b, self.kinds, info=self.info, quick=True)[2] == 0 and self.prove(a, b, cs)):
            o.res = 'proved'
            return
        o.goal = (cs, a, b)
        o.info = (None, 0, 0)
        o.res = 'open'
        self.hard.append(o)

    def search(self):
        """counterexamples for what was not proved"""
        until = time.time() + self.left
        for n, o in enumerate(self.hard):
            left = until - time.time()
            if left < 1:
                break
            cs, a, b = o.goal
            o.info = urefute(cs, a, b, self.kinds, info=self.info, secs=min(8.0, max(2.0, left / (len(self.hard) - n))), keep=self.around(o))
            if o.info[2]:
                o.res = 'refuted'

    def around(self, o):
        """names of the loops around an obligation"""
        if o.loc is None:
            return set()
        R = o.loc[0] if isinstance(o.loc, tuple) else o.loc
        byi = {Q.i: Q.lname for Q in self.B.vloops.values()}
        return {R.lname} | {byi[p.single_atom()] for p in R.params if p.single_atom() in byi}

    def prove(self, a, b, cs, fuel=3000):
        return limited(lambda: self.prove1(a, b, cs, fuel), 6, False)

    def prove1(self, a, b, cs, fuel):
        a, b, cs = self.generalise(a, b, cs)
        if a is b:
            return True
        f = Facts.of([c for c in cs if not heavy(c)])
        c = Cmp(fuel)
        return c.eqb(f, a, b, 0) if isinstance(a, B) else c.eq(f, a, b)

    def generalise(self, a, b, cs):
        """replace the large subterms both sides share by fresh symbols"""
        def nodes(x):
            s = set()

            def g(n):
                if n.k not in ('sym', 'lk') and tsize(n) > 25 and not CMP.obv(n) and not plain(n):
                    s.add(n)
            walk(x, g)
            return s
        from .vg import plain
        com = nodes(a) & nodes(b)
        if not com:
            return a, b, cs
        memo = {}
        for n in com:
            v = sym(('g', n.id), self.sort(n) if isinstance(n, Atom) else 'bool')
            memo[n] = P(v) if isinstance(n, Atom) else batom(v)
        mp = {atom('never'): ZERO}
        return subst(a, mp, memo), subst(b, mp, memo), [subst(c, mp, memo) for c in cs]

    def sort(self, a):
        k = a.k
        if k in ('lst', 'lread'):
            return {'nat': 'nat', 'int': 'int'}.get(self.kinds.get((a.a[0].a[0], a.a[0].a[1])), 'T')
        if k in ('kap', 'cnt', 'sel', 'mod', 'div', 'max0'):
            return 'nat'
        if k == 'el':
            return 'nat' if a.a[0].a[1] == 'natarr' else 'T'
        if k == 'ite':
            ss = [self.psort(x) for x in a.a[1:]]
            return 'T' if 'T' in ss else 'int'
        if k in ('sum', 'prod', 'fold_max', 'fold_min', 'gfold'):
            return 'T' if self.psort(a.a[-1]) == 'T' else 'int'
        if k == 'bv':
            return 'int'
        return 'T'

    def psort(self, p):
        ss = [(a.a[1] if a.k == 'sym' else self.sort(a)) for a in p.atoms()]
        if any(c != int(c) for c in p.t.values()):
            return 'T'
        return 'T' if 'T' in ss else 'int'

    def reduce(self, a, b, conds):
        """assume what both sides have in common, rewrite with the equalities known"""
        for _ in range(6):
            a0, b0 = a, b
            if isinstance(a, B) and a.k == b.k and a.k in ('and', 'or'):
                com = [x for x in a.a if x in b.a]
                if com:
                    mk = And if a.k == 'and' else Or
                    a, b = mk(*[x for x in a.a if x not in com]), mk(*[x for x in b.a if x not in com])
                    conds = conds + (com if a0.k == 'and' else [Not(x) for x in com])
            elif isinstance(a, B) and (a in b.a and b.k in ('and', 'or') or b in a.a and a.k in ('and', 'or')):
                # a against a && c, a || c
                x, y = (a, b) if a in b.a else (b, a)
                r = (And if y.k == 'and' else Or)(*[z for z in y.a if z is not x])
                conds = conds + [x if y.k == 'and' else Not(x)]
                c = TRUE if y.k == 'and' else FALSE
                a, b = (c, r) if x is a else (r, c)
            mp = CMP.eqmap(Facts.of([c for c in self.assume + conds if c.k in ('eq', 'and')]))
            if mp:
                a, b = subst(a, mp), subst(b, mp)
            if a is b or a is a0 and b is b0:
                break
        return a, b, conds

    def kapfacts(self, *xs):
        ks = {}

        def g(n):
            if n.k == 'kap' and not CMP.open_bv(P(n)):
                ks[n] = 1
        for x in xs:
            walk(x, g)
        out = []
        for n in sorted(ks, key=lambda n: n.id):
            R = self.B.vloops.get(n.a[0])
            if R is None:
                continue
            K = P(n)
            mp = {p.single_atom(): v for p, v in zip(R.params, n.a[1]) if p is not v}
            ex = subst(R.anyexit, mp)
            k = sym(('k', self.B.fresh()), 'nat')
            here = subst(ex, {R.i: K})
            before = Forall(k, K, Not(subst(ex, {R.i: P(k)})))
            if R.N is not None:
                N = subst(R.N, mp)
                out.append(Or(Not(Exists(k, N, subst(ex, {R.i: P(k)}))), And(here, before, ge0(N - 1 - K))))
            else:
                out += [here, before]
        return out


def heavy(c):
    n = [0]

    def g(x):
        n[0] += 1
    walk(c, g)
    return n[0] > 400
