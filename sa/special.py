"""Branches of the code that the reference algorithm does not have and that need none of its loops (a shortcut for small,
diagonal, zero, ... arguments): their result is a closed form over the arguments, which is compared with the value the
reference algorithm assigns to the same arguments, by evaluating its recurrences at sample arguments.
Only refutes; a point where the code's result involves any loop of the code is passed over."""
import random
from fractions import Fraction
from .sym import *
from .facts import walk
from .vals import *
from .cmp import NoVal
from .bisim import UEval, REval, ERR, Stuck

MAXIT = 60


class SEval(UEval):
    """values of the recurrences of a reference algorithm"""
    exact = True
    closed_only = False

    def __init__(self, rng, ints, kinds, info, I, inputs, closed_only=False):
        UEval.__init__(self, rng, ints, kinds, info)
        self.I = I
        self.inputs = inputs
        self.closed_only = closed_only
        self.budget = [400000]
        self.pt = 0.0

    def kid(self, R, params, i):
        key = (R.lname, params, i)
        k = self.root.kids.get(key)
        if k is None:
            k = SEval.__new__(SEval)
            k.__dict__.update(self.root.__dict__)
            k.ints = dict(self.root.ints)
            for p, v in zip(R.params, params):
                k.ints[p.single_atom()] = v
            k.ints[R.i] = i
            k.memo = {}
            k.fuel = 20000
            self.root.kids[key] = k
        return k

    within = REval.within

    def tval(self, key):
        return self.inputs(key)

    def ival(self, key, lim=3):
        raise NoVal('integer input')

    def bval(self, key):
        raise NoVal('unknown condition')

    def state(self, k, lk, args, env):
        if self.root.closed_only:
            raise NoVal('state')
        rl = self.info.get((lk.a[0], lk.a[1]))
        if rl is None:
            raise NoVal('no such state')
        R, l = rl
        ps = tuple(int(v) for v in self.arg(lk.a[2], env))
        i = int(args[0])
        if i < 0 or i > MAXIT:
            raise NoVal('iteration')
        d = self.root.__dict__.setdefault('sm', {})
        key = (R.lname, l.name, ps) + tuple(args)
        if key in d:
            return d[key]
        if l.closed is not None:
            v, ev = l.closed, self.kid(R, ps, i)
        elif i == 0:
            v, ev = l.x0, self.kid(R, ps, 0)
        else:
            # earlier iterations first
            for j in range(1, i):
                self.state(k, lk, (j,) + tuple(args[1:]), env)
            v, ev = l.nv, self.kid(R, ps, i - 1)
        if v is None:
            raise NoVal('no step')
        r = ev.elem(v, int(args[1])) if isinstance(v, Arr) else ev.b(v, {}) if isinstance(v, B) else ev.p(v, {})
        d[key] = r
        return r

    def atom1(self, a, env):
        if a.k == 'kap':
            if self.root.closed_only:
                raise NoVal('state')
            R = self.I.vloops.get(a.a[0])
            if R is None:
                raise NoVal('loop')
            ps = tuple(int(v) for v in self.arg(a.a[1], env))
            for i in range(MAXIT):
                if self.kid(R, ps, i).b(R.anyexit, {}):
                    return i
            raise NoVal('iteration')
        return UEval.atom1(self, a, env)


SHAPES = ('any', 'any', 'sym', 'diag', 'zero', 'one', 'lower', 'row', 'col', 'unit')


def inputs(rng, ints):
    """elements of the argument matrices, of various patterns"""
    cols = {s.a[0]: v for s, v in ints.items() if isinstance(s.a[0], str)}
    tv, pat = {}, {}

    def get(key):
        v = tv.get(key)
        if v is None:
            v = tv[key] = fresh(key)
        return v

    def fresh(key):
        r = Fraction(rng.choice([-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 7]))
        if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], Atom)):
            return r
        m = key[0]
        nm = m.a[0] if m.a and isinstance(m.a[0], str) else None
        c = cols.get('%s.C' % nm) or cols.get('%s.R' % nm)
        if not c:
            return r
        p = pat.setdefault(m, rng.choice(SHAPES))
        i, j = divmod(int(key[1]), c)
        if p == 'sym' and i > j:
            return get((m, j * c + i))
        if p == 'zero' or p == 'diag' and i != j or p == 'lower' and i < j or p == 'unit' and i != j:
            return Fraction(0)
        if p == 'one' or p == 'unit':
            return Fraction(1)
        if p == 'row' and i > 0:
            return get((m, j))
        if p == 'col' and j > 0:
            return get((m, i * c))
        return r
    return get


def special(bs, pair, tries=400, secs=4.0):
    """a point where a closed form of the code differs from the reference: description or None"""
    import time
    label, x, y, conds = pair
    syms = set()

    def see(n):
        if n.k == 'sym' and n.a[1] in ('nat', 'int', 'dim'):
            syms.add(n)
    from .judge import values
    for v in (x, y):
        values(v, lambda t: walk(t, see))
    for c in list(conds or []) + bs.assume:
        walk(c, see)
    syms = sorted(syms, key=lambda s: s.id)
    rng = random.Random(7)
    t0 = time.time()
    hits, n = [], 0
    for t in range(tries):
        if time.time() - t0 > secs:
            break
        small = rng.choice([1, 2, 2, 3, 4])
        ints = {s: rng.randrange(1, small + 1) for s in syms}
        if rng.random() < 0.5:
            ints = {s: small for s in syms}
        ip = inputs(rng, ints)
        try:
            eb = SEval(rng, ints, bs.kinds, bs.al.ib, bs.B, ip, True)
            if not all(eb.b(c, {}) for c in bs.assume):
                continue
            if not all(eb.b(c, {}) for c in conds or []):
                continue
            e = None
            if isinstance(y, Arr):
                ln = int(eb.p(y.ln, {}))
                if ln <= 0:
                    continue
                e = rng.randrange(ln)
                vb = eb.elem(y, e)
            else:
                vb = eb.b(y, {}) if isinstance(y, B) else eb.p(y, {})
            n += 1
            ea = SEval(rng, ints, bs.kinds, bs.al.ia, bs.A, ip)
            if not isinstance(y, B) and not all(ea.b(p[1], {}) for p in bs.pairs if p[0].startswith('accepts') and isinstance(p[1], B)):
                continue        # not a valid argument
            va = ea.elem(x, e) if isinstance(x, Arr) else ea.b(x, {}) if isinstance(x, B) else ea.p(x, {})
        except ERR + (Stuck,):
            continue
        if isinstance(va, bool) or isinstance(vb, bool):
            differ = bool(va) != bool(vb) and not (label.startswith('accepts') and vb)     # shortcuts may accept more
        else:
            fa, fb = float(va), float(vb)
            if abs(fa) > 1e8 or abs(fb) > 1e8 or fa != fa:
                continue
            differ = abs(fa - fb) > 1e-6 * (1 + abs(fa) + abs(fb))
        if differ:
            hits.append(dict({repr(s): v for s, v in ints.items()}, element=e, code=str(vb), reference=str(va)))
            if len(hits) >= 2:
                return hits[0]
    return None
