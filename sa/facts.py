"""Entailment over path conditions: a polyhedral domain (exact rational LP on monomials, with product
lemmas) plus propositional literals.  `Facts.prove(b)` is sound: True means the facts imply b."""
from fractions import Fraction
from .sym import *

LEMMAS = {}      # atom kind -> fn(atom) -> list of B facts
INSTANT = []     # extra instantiation hooks
STATS = {'lp': 0, 'prove': 0}


def lemma(kind):
    def deco(f):
        LEMMAS[kind] = f
        return f
    return deco


@lemma('sym')
def _l_sym(a):
    s = a.a[1]
    if s == 'dim':
        return [ge0(P(a) - 1)]
    if s == 'nat':
        return [ge0(P(a))]
    return []


NATARR = set()     # names of arrays whose elements are unsigned


@lemma('el')
def _l_el(a):
    if a.a[0].k == 'sym' and a.a[0].a[1] == 'natarr':
        return [ge0(P(a))]
    return []


@lemma('div')
def _l_div(a):
    p, q = a.a
    # callers only build div atoms for p >= 0, q > 0
    d = P(a)
    m = P(atom('mod', p, q))
    return [ge0(d), ge0(m), ge0(q - 1 - m), ieq(q * d + m, p)]


@lemma('mod')
def _l_mod(a):
    p, q = a.a
    d = P(atom('div', p, q))
    m = P(a)
    return [ge0(d), ge0(m), ge0(q - 1 - m), ieq(q * d + m, p)]


@lemma('cnt')
def _l_cnt(a):
    return [ge0(P(a)), ge0(a.a[1] - P(a))]


@lemma('sel')
def _l_sel(a):
    return [ge0(P(a)), ge0(a.a[1] - 1 - P(a))]


@lemma('ite')
def _l_ite(a):
    """minimum and maximum of two integers"""
    c, x, y = a.a
    if c.k != 'ge' or not isinstance(x, Poly) or not isinstance(y, Poly):
        return []
    d = (c.a[0] - (y - x)).const()
    if d in (0, -1):
        return [ge0(x - P(a)), ge0(y - P(a))]
    d = (c.a[0] - (x - y)).const()
    if d in (0, -1):
        return [ge0(P(a) - x), ge0(P(a) - y)]
    return []


@lemma('max0')
def _l_max0(a):
    return [ge0(P(a)), ge0(P(a) - a.a[0]), Or(ieq(P(a), ZERO), ieq(P(a), a.a[0]))]


def max0(p):
    c = p.const()
    if c is not None:
        return P(max(0, c))
    return pite(ge0(p), p, ZERO)


# ------------------------------------------------------------------ LP
def lp_infeasible(rows, maxpiv=400):
    """rows: list of (dict var->coef, const) meaning sum + const >= 0.  True if infeasible over Q."""
    STATS['lp'] += 1
    # quick: constant rows
    rr = []
    for a, c in rows:
        if not a:
            if c < 0:
                return True
            continue
        rr.append((a, c))
    rows = rr
    n = len(rows)
    # eliminate free variables with a pivot: tableau basics = slacks s_j = a_j x ; bound s_j >= -c_j
    tab = {}
    lo = {}
    for j, (a, c) in enumerate(rows):
        tab[('s', j)] = dict(a)
        lo[('s', j)] = -c
    val = {}

    def value(v):
        return val.get(v, 0)
    for j in range(n):
        val[('s', j)] = 0
    order = {}

    def rank(v):
        return (0, v[1]) if isinstance(v, tuple) and v[0] == 's' else (1, v)
    piv = 0
    while True:
        # choose violated basic, Bland
        bad = None
        for b in tab:
            if b in lo and val.get(b, 0) < lo[b]:
                if bad is None or rank(b) < rank(bad):
                    bad = b
        if bad is None:
            return False
        row = tab[bad]
        # prefer free variables
        ent = None
        for v, co in row.items():
            if co == 0:
                continue
            if v not in lo:
                if ent is None or rank(v) > rank(ent) and ent in lo or (ent not in lo and rank(v) < rank(ent)):
                    ent = v
            else:
                if co > 0 or val.get(v, 0) > lo[v]:
                    if ent is None or (ent in lo and rank(v) < rank(ent)):
                        ent = v
        if ent is None:
            return True
        piv += 1
        if piv > maxpiv:
            return False
        co = row[ent]
        delta = Fraction(lo[bad] - val.get(bad, 0)) / co
        # pivot: ent = (bad - rest)/co
        newrow = {bad: Fraction(1) / co}
        for v, c2 in row.items():
            if v != ent:
                newrow[v] = -Fraction(c2) / co
        del tab[bad]
        val[ent] = val.get(ent, 0) + delta
        val[bad] = lo[bad]
        for b, r in tab.items():
            c2 = r.get(ent)
            if c2:
                del r[ent]
                for v, c3 in newrow.items():
                    nv = r.get(v, 0) + c2 * c3
                    if nv == 0:
                        r.pop(v, None)
                    else:
                        r[v] = nv
                val[b] = val.get(b, 0) + c2 * delta
        tab[ent] = newrow
        # nonbasic values stay; recompute handled by delta


def _row(p):
    d = {}
    c = 0
    for m, k in p.t.items():
        if m == ():
            c = k
        else:
            d[m] = k
    return d, c


class MonoIdx:
    def __init__(self):
        self.d = {}

    def __call__(self, m):
        r = self.d.get(m)
        if r is None:
            r = self.d[m] = len(self.d)
        return r


def nnf_split(b):
    return b


_cache = {}


class Facts:
    """an immutable conjunction of B nodes"""
    __slots__ = ('conj', 'ineq', 'lits', 'ors', 'alls', 'memo', 'dead', 'exs', '_ax', 'depth')

    @staticmethod
    def of(bs):
        key = tuple(bs)
        f = _cache.get(key)
        if f is None:
            f = Facts(key)
            _cache[key] = f
        return f

    def __init__(self, bs):
        self.conj = bs
        self.ineq = []
        self.lits = set()
        self.ors = []
        self.alls = []
        self.exs = []
        self.memo = {}
        self.dead = None
        self._ax = {}
        self.depth = 0
        seen = set()
        st = list(bs)
        while st:
            b = st.pop()
            if b in seen or b is TRUE:
                continue
            seen.add(b)
            k = b.k
            if b is FALSE:
                self.dead = True
            if k == 'and':
                st.extend(b.a)
                continue
            self.lits.add(b)
            if k == 'ge':
                self.ineq.append(b.a[0])
            elif k == 'eq':
                self.ineq.append(b.a[0])
                self.ineq.append(-b.a[0])
            elif k == 'not' and b.a[0].k == 'eq':
                p = b.a[0].a[0]
                self.ors.append((ge0(p - 1), ge0(-p - 1)))
            elif k == 'or':
                self.ors.append(b.a)
            elif k == 'all':
                self.alls.append(b)
            elif k == 'ex':
                # skolemise
                n, ln, body = b.a
                v = atom('sym', ('$sk', b.id), 'nat')
                st.append(open_body(n, body, P(v)))
                st.append(ge0(ln - 1 - P(v)))
        for al in self.alls:
            self._trigger(al)
        # unit propagation on ors
        ch = True
        while ch:
            ch = False
            new = []
            for o in self.ors:
                alive = [d for d in o if Not(d) not in self.lits]
                if any(d in self.lits for d in alive):
                    continue
                if len(alive) == 1 and len(o) > 1:
                    sub = [alive[0]]
                    while sub:
                        b = sub.pop()
                        if b.k == 'and':
                            sub.extend(b.a)
                            continue
                        if b in self.lits:
                            continue
                        self.lits.add(b)
                        if b.k == 'ge':
                            self.ineq.append(b.a[0])
                        elif b.k == 'eq':
                            self.ineq += [b.a[0], -b.a[0]]
                        elif b.k == 'not' and b.a[0].k == 'eq':
                            p = b.a[0].a[0]
                            new.append((ge0(p - 1), ge0(-p - 1)))
                        elif b.k == 'or':
                            new.append(b.a)
                        elif b.k == 'all':
                            self.alls.append(b)
                    ch = True
                    continue
                if not alive:
                    self.dead = True
                new.append(tuple(alive))
            self.ors = new

    def _trigger(self, al):
        """instances of `for all k: T-literal(k) or integer literals` at the elements a known T-literal speaks of"""
        n, ln, body = al.a
        if body.k != 'or':
            return
        tl = [d for d in body.a if tlit(d)]
        if not tl or not all(d.k in ('ge', 'eq') or d.k == 'not' and d.a[0].k == 'eq' for d in body.a if d not in tl):
            return
        bva = atom('bv', n)
        arrs = set()
        pats = []
        for d in tl:
            collect_el(d, bva, pats)
        arrs = {p[0] for p in pats}
        for l in list(self.lits):
            if not tlit(l):
                continue
            els = []
            collect_els(l, els)
            for arr, ix in els:
                if arr not in arrs:
                    continue
                for parr, pix in pats:
                    r = pix.coeff_of(bva) if parr is arr else None
                    if r is None or r[0].const() not in (1, -1):
                        continue
                    x = (ix - r[1]) * r[0].const()
                    inst = open_body(n, body, x)
                    if inst.k == 'or' and Not(l) in inst.a:
                        self.ors.append(tuple([ge0(-x - 1), ge0(x - ln)] + list(inst.a)))

    def plus(self, *bs):
        return Facts.of(self.conj + tuple(b for b in bs if b not in self.lits and b is not TRUE))

    # ---------------------------------------------------------------- prove
    def inconsistent(self):
        if self.dead is None:
            self.dead = self._contra(ge0(P(0)), None)
        return self.dead

    def prove(self, b, depth=3):
        if b is TRUE:
            return True
        if b in self.lits:
            return True
        if self.dead:
            return True
        key = (b, depth)
        r = self.memo.get(key)
        if r is None:
            STATS['prove'] += 1
            self.memo[key] = False
            r = self._prove(b, depth)
            self.memo[key] = r
        return r

    def decide(self, b, depth=2):
        if b is TRUE or b is FALSE:
            return b is TRUE
        if self.prove(b, depth):
            return True
        if self.prove(Not(b), depth):
            return False
        return None

    def _prove(self, b, depth):
        k = b.k
        if b is FALSE:
            return self.inconsistent()
        if k == 'and':
            return all(self.prove(x, depth) for x in b.a)
        if k == 'ge':
            return self._prove_ge(b.a[0], depth)
        if k == 'eq':
            return self._prove_ge(b.a[0], depth) and self._prove_ge(-b.a[0], depth)
        if k == 'not' and b.a[0].k == 'eq':
            p = b.a[0].a[0]
            if self._prove_ge(p - 1, depth) or self._prove_ge(-p - 1, depth):
                return True
            return self._contra(b.a[0], depth) or (depth >= 2 and self.plus(b.a[0])._absurd(depth))
        if k == 'or':
            # assume the negation of all but one
            if any(self.prove(x, 0) for x in b.a):
                return True
            xs = list(b.a)
            for i, x in enumerate(xs):
                oth = [Not(y) for j, y in enumerate(xs) if j != i]
                f = self.plus(*oth)
                if f.prove(x, max(0, depth - 1)):
                    return True
                if depth >= 2 and any(y.k == 'not' and y.a[0].k == 'eq' for y in xs) and self.plus(*[Not(y) for y in xs])._absurd(depth):
                    return True
                break
            return False
        if k == 'all':
            n, ln, body = b.a
            v = atom('sym', ('$q', n, self.depth), 'nat')
            while v in body.free or v in ln.free or any(v in f.free for f in self.conj):
                v = atom('sym', (v.a[0], "'"), 'nat')
            f = self.plus(ge0(ln - 1 - P(v)))
            return f.prove(open_body(n, body, P(v)), depth)
        # literal: contradiction of facts with Not(b)?
        if k == 'tle' and tlt(b.a[0], b.a[1]) in self.lits:
            return True
        if k == 'not' and b.a[0].k == 'tlt':
            x, y = b.a[0].a
            if tlt(y, x) in self.lits or tle(y, x) in self.lits or teq(x, y) in self.lits:
                return True
        # instantiate foralls whose body can match
        for al in self.alls:
            for inst in self._inst(al, b):
                if inst is b or (inst.k == 'and' and b in inst.a):
                    return True
                if inst.k == 'or' and b in inst.a:
                    if all(self.prove(Not(y), 1) for y in inst.a if y is not b):
                        return True
        if depth > 0:
            for o in self.ors[:6]:
                if b in o or any(x.k == 'and' and b in x.a for x in o):
                    if all((x is b) or (x.k == 'and' and b in x.a) or self.plus(x).inconsistent() for x in o):
                        return True
        return self.inconsistent()

    def _absurd(self, depth):
        """inconsistent after solving the equalities and splitting the remaining ites"""
        if self.inconsistent():
            return True
        mp = {}
        for b in self.lits:
            if b.k != 'eq':
                continue
            p = subst(b.a[0], mp) if mp else b.a[0]
            for a in sorted(p.atoms(), key=lambda x: x.id):
                if a.k not in ('sym', 'lst', 'el', 'kap'):
                    continue
                r = p.coeff_of(a)
                if r is not None and r[0].const() in (1, -1) and a not in r[1].free:
                    v = r[1] * (-r[0].const())
                    mp = {k: subst(w, {a: v}) for k, w in mp.items()}
                    mp[a] = v
                    break
        if not mp:
            return False
        f = Facts.of(tuple(subst(z, mp) for z in self.conj) + tuple(ge0(v) for a, v in mp.items() if a.k == 'sym' and a.a[1] in ('nat', 'dim')))
        return f.inconsistent()

    def _inst(self, al, goal):
        n, ln, body = al.a
        bva = atom('bv', n)
        pats = []
        collect_el(body, bva, pats)
        cands = set()
        for g in (goal,):
            els = []
            collect_els(g, els)
            for arr, ix in els:
                for (parr, pix) in pats:
                    if parr is arr:
                        # pix = c*bv + rest with c=+-1
                        r = pix.coeff_of(bva)
                        if r is None:
                            continue
                        c, rest = r
                        cc = c.const()
                        if cc in (1, -1):
                            cands.add((ix - rest) * cc)
        out = []
        for x in cands:
            if self.prove(ge0(x), 1) and self.prove(ge0(ln - 1 - x), 1):
                out.append(open_body(n, body, x))
        return out

    def _contra(self, b, depth):
        """facts + b inconsistent? (cheap)"""
        f = self.plus(b) if b is not None else self
        if f.dead:
            return True
        return f._lp(None)

    def _prove_ge(self, p, depth):
        c = p.const()
        if c is not None:
            return c >= 0 or (depth is not None and depth > 0 and bool(self.inconsistent()))
        # quick scan
        for q in self.ineq:
            d = p - q
            c = d.const()
            if c is not None and c >= 0:
                return True
        if self._lp(p):
            return True
        if depth is None or depth <= 0:
            return False
        # split on ite atoms in goal
        its = []
        for a in atoms_deep_int(p):
            if a.k == 'ite':
                its.append(a)
        for a in its[:1]:
            cnd, x, y = a.a
            ok = True
            for cc, v in ((cnd, x), (Not(cnd), y)):
                if self.prove(Not(cc), 0):
                    continue
                f = self.plus(cc)
                if f.inconsistent():
                    continue
                p2 = subst(p, {a: v})
                if not f._prove_ge(p2, depth):
                    ok = False
                    break
            return ok
        # instantiate foralls
        extra = []
        for al in self.alls:
            extra += self._inst(al, ge0(p) if p.const() is None else TRUE)
        extra = [e for e in extra if e not in self.lits and e is not TRUE]
        if extra:
            f = self.plus(*extra)
            if f is not self and f._prove_ge(p, depth):
                return True
        # split on disjunctions sharing atoms
        pa = rel_atoms(p, self.ineq)
        n = 0
        for o in self.ors:
            if not all(isinstance(x, B) and x.k in ('ge', 'eq', 'and', 'not', 'or') for x in o):
                continue
            if not any(int_atoms_b(x) & pa for x in o):
                continue
            n += 1
            if n > 4:
                break
            if all(self.plus(x).inconsistent() or self.plus(x)._prove_ge(p, depth - 1) for x in o):
                return True
        # split on ite atoms in relevant facts
        n = 0
        for q in self.ineq:
            if not (q.atoms() & pa):
                continue
            for a in atoms_deep_int(q):
                if a.k == 'ite':
                    n += 1
                    if n > 2:
                        return False
                    cnd, x, y = a.a
                    ok = True
                    for cc, v in ((cnd, x), (Not(cnd), y)):
                        f = self.plus(cc)
                        f2 = Facts.of(tuple(subst(z, {a: v}) for z in f.conj))
                        if f2.inconsistent():
                            continue
                        if not f2._prove_ge(subst(p, {a: v}), depth - 1):
                            ok = False
                            break
                    if ok:
                        return True
        return False

    def _lp(self, goal):
        """infeasibility of facts (and goal < 0)"""
        rows = []
        if goal is not None:
            neg = -goal - 1
            rel = set(goal.atoms())
        else:
            neg = None
            rel = None
        # relevant facts by atom connectivity
        base = list(self.ineq)
        if rel is None:
            sel = base
            at = set()
            for q in sel:
                at |= q.atoms()
        else:
            at = set(rel)
            sel = []
            pending = base
            chg = True
            while chg:
                chg = False
                rest = []
                for q in pending:
                    if q.atoms() & at:
                        sel.append(q)
                        na = q.atoms() - at
                        at |= na
                        chg = chg or True
                    else:
                        rest.append(q)
                if len(rest) == len(pending):
                    break
                pending = rest
        # lemma facts
        done = set()
        todo = list(at)
        ax = []
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            fn = LEMMAS.get(a.k)
            if fn:
                for b in fn(a):
                    for q in ineqs_of(b):
                        ax.append(q)
                        for z in q.atoms():
                            if z not in done:
                                todo.append(z)
                if a.k == 'div' or a.k == 'mod':
                    # p <= T with T + 1 = q*Z bounds the quotient by Z - 1
                    for q in self.ineq:
                        t = q + a.a[0]
                        if len(t.t) <= 3:
                            z = exact_div(t + 1, a.a[1])
                            if z is not None:
                                ax.append(z - 1 - P(atom('div', a.a[0], a.a[1])))
        facts = list(dict.fromkeys(sel + ax))
        need = set()
        allp = facts + ([neg] if neg is not None else [])
        for q in allp:
            for m in q.t:
                if sum(e for _, e in m) > 1:
                    need.add(m)
        if goal is not None:
            # restrict needed monomials to connected ones
            pass
        prods = []
        if need:
            lin = facts
            bym = {}
            for q in facts + ([neg] if neg is not None else []):
                for m in q.t:
                    if m:
                        bym.setdefault(m, []).append(q)
            seenp = set()
            doneM = set()
            for rnd in range(2):
                new = set()
                for m in need - doneM:
                    for (u, w) in mono_splits(m):
                        for f in bym.get(u, ())[:14]:
                            for g in bym.get(w, ())[:14]:
                                kk = (f.id, g.id) if f.id <= g.id else (g.id, f.id)
                                if kk in seenp:
                                    continue
                                seenp.add(kk)
                                pr = f * g
                                prods.append(pr)
                                for mm in pr.t:
                                    if sum(e for _, e in mm) == 2:
                                        new.add(mm)
                doneM |= need
                new -= doneM
                if not new or len(prods) > 60:
                    break
                need = need | new
            if len(prods) > 160:
                prods.sort(key=lambda q: sum(1 for m in q.t if m not in need and sum(e for _, e in m) > 1))
                prods = prods[:160]
        mi = MonoIdx()
        rows = []
        for q in allp + prods:
            d, c = _row(q)
            rows.append(({mi(m): k for m, k in d.items()}, c))
        # prune: variables appearing with only one sign can be dropped iteratively
        rows = prune(rows)
        return lp_infeasible(rows)


def prune(rows):
    ch = True
    while ch:
        ch = False
        pos, neg = set(), set()
        for a, c in rows:
            for v, k in a.items():
                (pos if k > 0 else neg).add(v)
        only = pos ^ neg
        if only:
            n = [(a, c) for a, c in rows if not any(v in only for v in a)]
            if len(n) != len(rows):
                rows = n
                ch = True
    return rows


def mono_splits(m):
    out = []
    fl = []
    for a, e in m:
        fl += [a] * e
    n = len(fl)
    if n > 4:
        return out
    for mask in range(1, (1 << n) - 1):
        u, w = {}, {}
        for i, a in enumerate(fl):
            d = u if mask >> i & 1 else w
            d[a] = d.get(a, 0) + 1
        ut = tuple(sorted(u.items(), key=lambda x: x[0].id))
        wt = tuple(sorted(w.items(), key=lambda x: x[0].id))
        out.append((ut, wt))
    return list(dict.fromkeys(out))


def ineqs_of(b):
    if b.k == 'ge':
        return [b.a[0]]
    if b.k == 'eq':
        return [b.a[0], -b.a[0]]
    if b.k == 'and':
        return [q for x in b.a for q in ineqs_of(x)]
    return []


def atoms_deep_int(p):
    """int-level atoms in p including inside el indices etc. (ite first)"""
    return [a for m in p.t for a, e in m]


def int_atoms_b(b):
    if b.k in ('ge', 'eq'):
        return b.a[0].atoms()
    if b.k in ('and', 'or', 'not'):
        s = set()
        for x in b.a:
            s |= int_atoms_b(x)
        return s
    return set()


def rel_atoms(p, ineq):
    at = set(p.atoms())
    ch = True
    n = 0
    while ch and n < 3:
        ch = False
        n += 1
        for q in ineq:
            qa = q.atoms()
            if qa & at and not qa <= at:
                at |= qa
                ch = True
    return at


def walk(x, f):
    """preorder over all nodes"""
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, (Node, Poly)) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            for m in y.t:
                for a, e in m:
                    st.append(a)
        else:
            f(y)
            st.extend(y.a)


def tlit(d):
    return d.k in ('tlt', 'tle', 'teq') or d.k == 'not' and d.a[0].k in ('tlt', 'tle', 'teq')


def collect_el(x, bva, out):
    def f(n):
        if n.k == 'el' and bva.a[0] <= n.mbv:
            ix = n.a[1]
            if isinstance(ix, Poly) and bva in ix.atoms():
                out.append((n.a[0], ix))
    walk(x, f)


def collect_els(x, out):
    def f(n):
        if n.k == 'el' and isinstance(n.a[1], Poly):
            out.append((n.a[0], n.a[1]))
    walk(x, f)
