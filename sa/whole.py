"""The results of both sides of a comparison (sa/bisim.py) at sample points, every loop state the value of its recurrence.
Used only to discard: a refuted step of a loop whose counterpart is in doubt (the two sides need not do the same at each
iteration) is reported only where the results differ as well."""
import random, time
from fractions import Fraction
from .sym import *
from .vals import *
from . import cmp as CMP
from .cmp import NoVal
from .bisim import REval, ERR, Stuck, limited, clean

DBG = []


class Whole(REval):
    MAXIT = 300
    generic = False
    symm = None         # (array, order) of an argument drawn symmetric and positive definite

    def tval(self, key):
        if not self.generic or key in self.tv:
            return REval.tval(self, key)
        if self.symm and key[0] is self.symm[0] and len(key) == 2:
            n = self.symm[1]
            i, j = divmod(key[1], n)
            if i > j:
                v = self.tv[key] = self.tval((key[0], j * n + i))
                return v
            if i == j:
                v = self.tv[key] = Fraction(self.rng.randrange(5, 60)) * n
                return v
        v = self.tv[key] = Fraction(self.rng.randrange(1, 60) * self.rng.choice((1, -1)), self.rng.choice((3, 5, 7, 8)))
        return v


def close(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    return a == b


def given(f):
    """None where the value is that of storage never written"""
    try:
        return f()
    except NoVal as x:
        if x.args[0] != 'dirty':
            raise
        return None


def parts(x):
    """the terms of a value"""
    if not isinstance(x, Arr):
        return [x]
    out = [x.ln]
    for l in x.layers:
        out += [l.idx, l.guard, l.val]
    b = x.base
    if b[0] == 'ite':
        out += [b[1]] + parts(b[2]) + parts(b[3])
    elif b[0] == 'sub':
        out += parts(b[1])
    elif b[0] == 'fn':
        out.append(b[2])
    return out


def whole(bs, points=900, secs=40.0, generic=False, need=1, tol=1e-6):
    """'equal', 'differ' (at `need` points at least), or None when there is no value at any point"""
    info = dict(bs.al.ia)
    info.update(bs.al.ib)
    kinds = {k: bs.kindof(l) for k, (R, l) in info.items()}
    loops = {R.lname: R for R, l in info.values()}
    loops.update(bs.A.vloops)
    loops.update(bs.B.vloops)
    seen = []
    until = time.time() + secs

    def consts(al, side, of=CMP.thresholds):
        xs = [x for R, l in al.values() for x in (l.nv, l.x0, R.N, R.anyexit) if x is not None] + [p[side] for p in bs.pairs]
        return set(of(*[y for x in xs for y in parts(x)]))
    far = sorted(consts(bs.al.ia, 1, CMP.constants) ^ consts(bs.al.ib, 2, CMP.constants))
    ka, kb = consts(bs.al.ia, 1), consts(bs.al.ib, 2)
    near = sorted(k for k in ka | kb if k <= 140)
    own = sorted(k for k in ka ^ kb if k <= 40)         # sizes at which the two sides may part

    assume = list(bs.assume) + list(getattr(bs, 'sane', ()))

    def point(seed):
        rng = random.Random(seed)
        terms = [x for _, a, b, cs in bs.pairs for x in [a, b] + list(cs)] + assume
        syms = CMP.int_syms(*terms)
        if own and seed % 3 == 2:
            k = rng.choice(own) + rng.choice((0, 1, 1, 2))
            vary = rng.random() < 0.4
            ints = {s: max(1 if s.a[1] == 'dim' else 0, k + (rng.choice((-1, 0, 1)) if vary else 0)) if len(syms) == 1 or rng.random() < 0.7 else rng.randrange(1, 3) for s in syms}
        elif seed < 300:
            ints = {s: rng.randrange(1 if s.a[1] == 'dim' else 0, 2 + seed % 4) for s in syms}
        else:               # one of the sizes is larger than the others
            ints = {s: rng.randrange(1 if s.a[1] == 'dim' else 0, 3) for s in syms}
            for s in rng.sample(sorted(syms, key=lambda z: z.id), min(len(syms), rng.choice((1, 1, 2)))):
                ints[s] = rng.randrange(4, 17)
            if near and seed % 2 and ints:
                ints[rng.choice(sorted(ints, key=lambda z: z.id))] = max(1, rng.choice(near) + rng.choice((-1, 0, 1, 1, 2, 3)))
        symm = getattr(bs, 'symmetric', None) if seed % 2 else None
        r = both(ints, {}, rng, symm)
        if r is None:
            return
        vals, tv = r
        if not differ(vals):
            seen.append(True)
            return
        if generic:
            # not where the results are mostly rounding: they have to be nearly the same for nearly the same arguments
            for d in (1, -2):
                tw = {k: v * (1 + Fraction(d * (1 if symm else rng.choice((1, 2, -1))), 10 ** 10)) if isinstance(v, Fraction) else v for k, v in tv.items()}
                r = both(ints, tw, rng, symm)
                if r is None or not differ(r[0]) or any(type(x) is not type(z) or not near1(x, z) for p, q in zip(vals, r[0]) for x, z in zip(p, q)):
                    return
        seen.append(False)

    def near1(x, z):
        if isinstance(x, list):
            return len(x) == len(z) and all(near1(u, v) for u, v in zip(x, z))
        return x == z if isinstance(x, bool) else close(float(x), float(z), 1e-4)

    def differ(vals):
        for x, y in vals:
            if isinstance(x, list):
                if len(x) != len(y) or any(not close(u, v, tol) for u, v in zip(x, y)):
                    return True
            elif not close(x, y, tol):
                return True
        return False

    def both(ints, tv, rng, symm=None):
        e = Whole(rng, dict(ints), kinds, info, dict(tv))
        e.ran, e.loops, e.generic = frozenset(loops), loops, generic
        e.fuel, e.budget = 200000, [3000000]
        if far and not generic and rng.random() < 0.3:
            e.pool = far
        out = []
        if symm:
            e.symm = (symm[0], int(e.p(symm[1], {})))
        try:
            if not all(e.b(c, {}) for c in assume if clean(c)):
                return None
            for label, a, b, cs in bs.pairs:
                if not all(e.b(c, {}) for c in cs):
                    continue
                if label.startswith('accepts'):
                    if not e.b(a, {}):
                        return None
                    out.append((True, bool(e.b(b, {}))))
                    if not out[-1][1]:
                        break
                elif isinstance(a, Arr):
                    n, m = int(e.p(a.ln, {})), int(e.p(b.ln, {}))
                    if n != m:
                        out.append((n, m))
                        continue
                    pick = range(n) if n <= 40 else sorted(random.Random(n).sample(range(n), 40))
                    vs = [(e.elem(a, k), given(lambda: e.elem(b, k))) for k in pick]
                    if any(y is None for x, y in vs):
                        out.append((0, 1))
                    else:
                        out.append(([x for x, y in vs], [y for x, y in vs]))
                else:
                    x = e.b(a, {}) if isinstance(a, B) else e.p(a, {})
                    y = given(lambda: e.b(b, {}) if isinstance(b, B) else e.p(b, {}))
                    out.append((0, 1) if y is None else (x, y))
            return out, e.tv
        except ERR + (Stuck,) as x:
            if DBG:
                import traceback
                DBG.append((ints, traceback.format_exc()[-300:]))
            return None
    for seed in range(points):
        if time.time() > until or seen.count(False) >= need:
            break
        limited(lambda: point(seed), 4, None)
    return 'differ' if seen.count(False) >= need else 'equal' if seen else None
