"""From the outcome of a bisimulation to obligations: which differences are violations, which stay undecided.

A refuted equality is a point of the uninterpreted state space where the code's next state (result, trip count, ...) is not
the reference's.  It is a violation only when the states on both sides mean the same, so differences are set aside
 - when they involve loops or carried variables that have no counterpart (the code is organised differently there),
 - when they vanish under a change of representation of a carried variable (negation, offset by one),
 - when they vanish if the iterations of independent loops are taken in another order (reversed, interchanged),
 - when too much differs for the correspondence itself to be believed.
What remains is a local difference between two otherwise identical state machines."""
import time
from .sym import *
from .sym import REBUILD
from .facts import walk
from .vals import *
from .thir import span
from .spec import Ob
from . import bisim as BS
from .bisim import states, UEval, ERR, clean
from .cmp import NoVal

MAXSITES = 12


def values(v, f):
    """apply f to every term inside a value"""
    if v is None:
        return
    if isinstance(v, (Poly, B)):
        f(v)
    elif isinstance(v, St):
        for x in v.f.values():
            values(x, f)
    elif isinstance(v, En):
        for g, n, d in v.cases:
            f(g)
            for x in d.values():
                values(x, f)
    elif isinstance(v, VIte):
        f(v.c)
        values(v.a, f)
        values(v.b, f)
    elif isinstance(v, Arr):
        f(v.ln)
        b = v.base
        if b[0] == 'loop':
            f(P(b[1]) if not isinstance(b[1], Poly) else b[1])
            f(b[2])
        else:
            for x in b[1:]:
                if isinstance(x, tuple):
                    for y in x:
                        values(y, f)
                else:
                    values(x, f)
        for l in v.layers:
            f(l.guard)
            f(l.idx)
            values(l.val, f)


def reach(I, info, roots):
    """loops and carried variables (loop, name) that the values depend on"""
    leafs, loops = set(), set()
    todo = []

    def term(x):
        def g(n):
            if n.k == 'lk':
                key = (n.a[0], n.a[1])
                if key not in leafs and key in info:
                    leafs.add(key)
                    todo.append(('leaf', key))
                loop(n.a[0])
            elif n.k == 'kap':
                loop(n.a[0])
        walk(x, g)

    def loop(ln):
        if ln not in loops and ln in I.vloops:
            loops.add(ln)
            todo.append(('loop', ln))
    for v in roots:
        values(v, term)
    while todo:
        k, key = todo.pop()
        if k == 'leaf':
            R, l = info[key]
            for v in (l.x0, l.nv, l.closed):
                values(v, term)
            loop(key[0])
        else:
            R = I.vloops[key]
            for v in (R.N, R.anyexit, R.normc):
                values(v, term)
    return leafs, loops


class Judge:
    def __init__(self, bs):
        self.bs = bs
        al = self.al = bs.al
        self.la, self.pa = reach(bs.A, al.ia, [x for _, x, _, _ in bs.pairs])
        self.lb, self.pb = reach(bs.B, al.ib, [y for _, _, y, _ in bs.pairs])
        self.byi = {R.i: R for R in bs.B.vloops.values()}
        self.unA = [ln for ln in self.pa if ln not in al.loopm]
        self.unB = [ln for ln in self.pb if ln not in al.looprev]
        self.failing = [o for o in bs.obs if o.res not in ('same', 'proved', 'any')]
        self.why = {}
        self.until = time.time() + 60

    # ---- structure
    def chain(self, o):
        """loops around the obligation, outermost first"""
        if o.loc is None:
            return []
        R = o.loc[0] if isinstance(o.loc, tuple) else o.loc
        out = []
        for p in R.params:
            a = p.single_atom()
            if a in self.byi:
                out.append(self.byi[a])
        return out + [R]

    def parent(self, I, R):
        return R.params[-1].single_atom() if R.params else None

    def scope(self, o):
        """is an unmatched loop nearby?"""
        ch = self.chain(o)
        around = {None} | {R.i for R in ch}
        for ln in self.unB:
            R = self.bs.B.vloops[ln]
            if self.parent(self.bs.B, R) in around or any(p.single_atom() in around for p in R.params):
                return 'loop without counterpart in the code'
        ra = {None} | {self.bs.A.vloops[self.al.looprev[R.lname]].i for R in ch if R.lname in self.al.looprev}
        for ln in self.unA:
            R = self.bs.A.vloops[ln]
            if self.parent(self.bs.A, R) in ra or any(p.single_atom() in ra for p in R.params):
                return 'loop without counterpart in the reference'
        return None

    def unmatched(self, o):
        bs, al = self.bs, self.al
        cs = BS.relevant([c for c in o.conds or [] if c is not TRUE], o.a, o.b)
        for x in [o.a, o.b] + cs:
            for s in states(x):
                if isinstance(s, tuple):
                    if s not in al.leafrev and not self.forgotten(s):
                        return 'carried variable without counterpart'
                elif getattr(s, 'k', None) == 'sym' and s.a[1] == 'loop' and s not in al.looprev:
                    return 'loop without counterpart'
        return None

    def forgotten(self, key):
        """a carried variable of the reference that accumulates from values its loop overwrites, in code that carries nothing
        the reference does not: nothing is left from which it could be computed again"""
        al = self.al
        key = (al.looprev.get(key[0]), key[1])         # the loop is named as in the code
        if self.unA or self.unB or key not in al.ia or key in al.leafm:
            return False
        if any(k not in al.leafrev for k in self.lb):
            return False
        R, l = al.ia[key]
        if l.kind == 'a' or l.closed is not None or l.nv is None:
            return False
        own = {(R.lname, m.name) for m in R.leafs if m.closed is None and m is not l}
        st = set()
        values(l.nv, lambda x: st.update(t for t in states(x) if isinstance(t, tuple)))
        return key in st and bool(st & own)

    def loops(self, *xs):
        s = set()

        def g(n):
            if n.k in ('kap', 'lk'):
                s.add(n.a[0])
        for x in xs:
            if x is not None:
                walk(x, g)
        return s

    def accumulates(self, o):
        """accumulations (maximum, count, selection, ...) that one side writes and the other does not"""
        def kinds(x):
            s = set()

            def g(n):
                if n.k in ('fold_max', 'fold_min', 'cnt', 'sel', 'gfold', 'argm', 'prod', 'sum'):
                    s.add(n.k)
            walk(x, g)
            return s
        a, b = kinds(o.a), kinds(o.b)
        return 'written as an accumulation on one side only' if a != b else None

    def siblings(self, cand):
        """the steps of neighbouring loops are those of the reference, in another order"""
        by = {}
        for o in cand:
            if isinstance(o.loc, tuple) and o.what == 'step':
                by.setdefault(tuple(o.loc[0].params), []).append(o)
        bs = self.bs
        for os in by.values():
            loops = {o.loc[0].lname for o in os}
            if len(loops) < 2:
                continue
            sa, sb = BS.Skel(self.al.ia, 0), BS.Skel(self.al.ib, 0)
            da, db = set(), set()
            for o in os:
                R, l = o.loc
                m = self.al.ia[self.al.leafrev[(R.lname, l.name)]][1]
                da.add(sa.v(m.nv))
                db.add(sb.v(l.nv))
            if da & db:
                for o in os:
                    self.why[o] = 'neighbouring loops in another order'

    # ---- transformations
    def agree(self, a, b, conds):
        if a is b:
            return True
        bs = self.bs
        a, b, conds = bs.reduce(a, b, list(conds))
        if a is b:
            return True
        cs = bs.assume + conds + bs.kapfacts(a, b)
        w, hit, dif = BS.urefute(cs, a, b, bs.kinds, info=bs.info, secs=3.0)
        if dif:
            return False
        return hit >= 10 or bs.prove(a, b, cs)

    def restate(self, x, key, tau):
        """replace the state `key` in x by tau of it"""
        mp = {}

        def g(n):
            if n.k in ('lst', 'lread') and (n.a[0].a[0], n.a[0].a[1]) == key:
                mp[n] = tau(P(n))
        walk(x, g)
        return subst(x, mp) if mp else x

    def represent(self, fail):
        """carried variables whose difference is one of representation"""
        by = {}
        for o in fail:
            if isinstance(o.loc, tuple):
                by.setdefault((o.loc[0].lname, o.loc[1].name), []).append(o)
        for key, own in by.items():
            if not any(isinstance(o.a, Poly) for o in own):
                continue
            uses = [o for o in fail if o not in own and key in states(o.a) | states(o.b)]
            if not uses and len(own) < 2:
                continue
            for inv, fwd in ((lambda x: -x, lambda x: -x), (lambda x: x - 1, lambda x: x + 1), (lambda x: x + 1, lambda x: x - 1)):
                if time.time() > self.until:
                    return
                every = [o for o in self.bs.obs if o.a is not None and isinstance(o.loc, tuple) and (o.loc[0].lname, o.loc[1].name) == key]
                if all(self.agree(fwd(self.restate(o.a, key, inv)), o.b, o.conds) for o in every if isinstance(o.a, Poly)):
                    for o in own + [o for o in uses if self.agree(self.restate(o.a, key, inv), o.b, o.conds)]:
                        self.why[o] = 'same values in another representation'
                    break

    def reorder(self, o):
        """equal when iterations are taken in another order?"""
        ch = [R for R in self.chain(o)]
        if not ch or o.a is None:
            return False
        cand = []
        for R in ch:
            if R.N is not None:
                cand.append(([R], {R.i: R.N - 1 - R.ip}))
        for x in range(len(ch)):
            for y in range(x):
                cand.append(([ch[x], ch[y]], {ch[x].i: P(ch[y].i), ch[y].i: P(ch[x].i)}))
        for Rs, mp in cand:
            if time.time() > self.until:
                return False
            a = self.reindex(o.a, ch, mp)
            if a is None or a is o.a or not self.agree(a, o.b, o.conds):
                continue
            if all(self.independent(R) for R in Rs):
                return True
        return False

    def reindex(self, x, ch, mp):
        names = {R.lname for R in ch}
        hide = {R.i: sym(('hide', R.i.id), 'nat') for R in ch}
        hm = {i: P(h) for i, h in hide.items()}
        back = {h: P(i) for i, h in hide.items()}
        m1 = {}

        def g(n):
            if n.k in ('lst', 'lread') and n.a[0].a[0] in names:
                lk = n.a[0]
                m1[n] = P(atom(n.k, atom('lk', lk.a[0], lk.a[1], subst(lk.a[2], hm)), subst(n.a[1], hm), *n.a[2:]))
        walk(x, g)
        try:
            x = subst(x, m1) if m1 else x
            return subst(subst(x, mp), back)
        except ValueError:
            return None

    def independent(self, R):
        """no iteration reads what another one has written (at sample points)"""
        import random
        bs = self.bs
        arrs = [l for l in R.leafs if l.kind == 'a' and l.closed is None and isinstance(l.nv, Arr)]
        for l in R.leafs:
            if l.kind != 'a' and l.closed is None and l.nv is not None:
                # a carried scalar: reads of its own value
                for m in R.leafs:
                    if self.mentions(m.nv, (R.lname, l.name)):
                        return False
        rng = random.Random(3)
        seen = 0
        syms = set()
        for l in arrs:
            values(l.nv, lambda x: walk(x, lambda n: syms.add(n) if n.k == 'sym' and n.a[1] in ('nat', 'int', 'dim') else None))
        for t in range(60):
            ints = {s: rng.randrange(1 if s.a[1] == 'dim' else 0, 5) for s in sorted(syms, key=lambda s: s.id)}
            try:
                ev = UEval(rng, ints, bs.kinds, bs.info)
                ev.budget = [400000]
                N = int(ev.p(R.N, {})) if R.N is not None else 3
                if N < 2 or N > 8:
                    continue
                ps = tuple(int(ev.p(p, {})) for p in R.params)
                for l in arrs:
                    ln = min(int(ev.p(l.nv.ln, {})), 40)
                    wr, rd = {}, {}
                    for i in range(N):
                        k = ev.kid(R, ps, i)
                        wr[i] = {e for e in range(ln) if not k.unwritten(l.nv, e, l.lkl, i)}
                        ev.trace = set()
                        for m in arrs:
                            for e in range(ln):
                                if not k.unwritten(m.nv, e, m.lkl, i):
                                    k2 = ev.kid(R, ps, i)
                                    k2.memo = {}
                                    k2.elem(m.nv, e)
                        rd[i] = {x[2] for x in ev.trace if x[0] == (R.lname, l.name) and x[1] == i}
                        ev.trace = None
                    for i in range(N):
                        for j in range(N):
                            if i != j and wr[i] & rd[j]:
                                return False
                seen += 1
            except ERR + (BS.Stuck,):
                continue
            if seen >= 8:
                break
        return seen >= 2

    def mentions(self, v, key):
        hit = []
        values(v, lambda x: hit.append(1) if key in states(x) else None)
        return bool(hit)

    # ---- verdict
    def run(self):
        bs = self.bs
        unproved = set()
        for o in self.failing:
            if isinstance(o.loc, BS.VL) and o.what.startswith(('number of iterations', 'condition for leaving')):
                unproved.add(o.loc.lname)
        exits = [o for o in self.failing if o.what == 'condition for leaving the loop']
        trips = {}
        for o in self.failing:
            if o.what == 'number of iterations' and o.loc is not None:
                trips.setdefault(id(o.loc.node), o)
        cand = []
        for o in self.failing:
            w = None
            if o.res != 'refuted':
                w = 'neither proved nor refuted'
            else:
                w = self.unmatched(o) or self.scope(o) or self.accumulates(o)
                if w is None and o.what.endswith('(length)'):
                    w = 'length'
                if w is None and o.what == 'number of iterations' and len(trips) > 1:
                    w = 'several trip counts differ'
                own = o.loc[0].lname if isinstance(o.loc, tuple) else o.loc.lname if o.loc is not None else None
                if w is None and self.loops(o.a, o.b) - {own} & unproved:
                    w = 'depends on where another loop is left'
                if w is None and len(trips) > 1 and own in unproved and o.what != 'condition for leaving the loop':
                    w = 'several trip counts differ'
                if w is None and own is None and exits and isinstance(o.a, B):
                    w = 'depends on where a loop is left'
            if w:
                self.why[o] = w
            else:
                cand.append(o)
        self.represent(cand)
        self.siblings([o for o in cand if o not in self.why])
        cand = [o for o in cand if o not in self.why]
        sites = {(id(o.loc[0].node), o.loc[1].cell, o.loc[1].path) if isinstance(o.loc, tuple) else (id(o.loc.node) if o.loc is not None else 0, o.what) for o in cand}
        if len(sites) > MAXSITES:
            for o in cand:
                self.why[o] = 'too many differences'
            cand = []
        for o in cand:
            if self.reorder(o):
                self.why[o] = 'same when the iterations of independent loops are taken in another order'
        return self


def judge(bs, j, variant, fns=None):
    from .special import special
    obs = []
    names = Names(bs)
    J = Judge(bs).run()
    if j.get('refine'):
        j['refine'](bs, J)
    for p in bs.pairs:
        for o in bs.obs:
            if o in J.why and o.loc is None and o.what == p[0]:
                w = special(bs, p)
                if w:
                    del J.why[o]
                    o.info = (w,)
    for o in bs.obs:
        where, label, rf = names.of(o.loc, o.what)
        if fns is not None and rf is not None and not any(rf.endswith(f) for f in fns):
            continue
        wit = None
        if o.res in ('same', 'proved', 'any'):
            st, det = 'ok', ''
        elif o in J.why:
            st, det = 'und', '%s: %s %s' % (o.res, J.why[o], o.info)
        else:
            st, det = 'viol', 'differs from the reference algorithm: code %s, reference %s' % (brief(o.b, 200), brief(o.a, 200))
            wit = str(o.info[0])
        x = Ob(j['code'], 'bisim', '%s%s' % ('accept: ' if variant == 'accept' else '', label), st, det, where)
        if wit:
            x.witness = wit
        obs.append(x)
    for u in bs.undecided:
        where, label, rf = names.of(u[1], u[0])
        obs.append(Ob(j['code'], 'bisim', label, 'und', 'not comparable', where))
    for I, side in ((bs.A, 'reference'), (bs.B, 'code')):
        for m in sorted(set(repr(x) for x in I.unsupported)):
            obs.append(Ob(j['code'], 'bisim', 'model of the ' + side, 'und', m[:200], span(bs.fb['body'])))
    return obs


class Names:
    def __init__(self, bs):
        self.bs = bs
        self.ord = {}
        n = {}
        seen = {}
        for ln, R in sorted(bs.A.vloops.items(), key=lambda kv: kv[0].a[0]):
            f = fnof(R.node)
            o = seen.get(id(R.node))
            if o is None:
                n[f] = n.get(f, 0) + 1
                o = seen[id(R.node)] = n[f]
            self.ord[ln] = (f, o)
        self.vars = {}

    def of(self, loc, what):
        bs = self.bs
        if loc is None:
            return span(bs.fb['body']), what, None
        R, l = loc if isinstance(loc, tuple) else (loc, None)
        la = bs.al.looprev.get(R.lname)
        f, k = self.ord.get(la, (None, 0))
        if f is None and la is None:
            f, k = self.ord.get(R.lname, (None, 0))
        v = ''
        if l is not None:
            v = ' of %s%s' % (self.var(l.cell), ''.join('.' + str(p) for p in l.path if p != 'data'))
        return span(R.node), '%s%s in loop %d of %s' % (what, v, k, (f or '?').replace('refla::', '')), f

    def var(self, cell):
        key = cell[-1] if isinstance(cell, tuple) else cell
        if not isinstance(key, str) or '.' not in key:
            return str(key)
        fn = key.rsplit('.', 1)[0]
        d = self.vars.get(fn)
        if d is None:
            d = self.vars[fn] = {}
            f = self.bs.B.cr.fns.get(fn)
            if f is not None:
                binds(f['body'], d)
                binds(f['params'], d)
        return d.get(key, key)


def binds(x, d):
    if isinstance(x, dict):
        if x.get('k') == 'bind':
            d[x.get('var')] = x.get('name')
        for v in x.values():
            if isinstance(v, (dict, list)):
                binds(v, d)
    elif isinstance(x, list):
        for v in x:
            binds(v, d)


def fnof(node):
    return node.get('_id', '').split('#')[0] if '#' in node.get('_id', '') and not node.get('_id', '').startswith('la::') else node.get('_id', '').rsplit('#', 1)[0]
