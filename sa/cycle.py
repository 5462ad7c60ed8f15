"""What a difference means in the transposition by cycles: the marks of the elements already moved matter only where a cycle could
be entered again, and the starts only as far as they reach every cycle.  Withdraws differences that cannot show."""
from .sym import *
from .facts import walk
from .vals import *
from .cmp import NoVal
from . import bisim as BS
import random


def cycles(m, n):
    """the cycles longer than one of p -> m*p mod (m*n - 1) on the inner positions"""
    last = m * n - 1
    seen, out = set(), []
    for s in range(1, last):
        if s not in seen:
            c, p = [s], (m * s) % last
            while p != s:
                c.append(p)
                p = (m * p) % last
            seen.update(c)
            if len(c) > 1:
                out.append(c)
    return out


def refine(bs, J):
    al = bs.al
    outer = [ln for ln in J.pa if not bs.A.vloops[ln].params]
    inner = [ln for ln in J.pa if bs.A.vloops[ln].params]
    if len(outer) != 1 or len(inner) != 1:
        return
    outer, inner = outer[0], inner[0]
    RA, QA = bs.A.vloops[outer], bs.A.vloops[inner]
    OB, IB = al.loopm.get(outer), al.loopm.get(inner)
    bad = [o for o in J.failing if o not in J.why]

    def leaf(R, kind):
        for l in R.leafs:
            if bs.kindof(l) == kind[0] and (l.kind == 'a') == kind[1]:
                return l
        return None
    at, done, cells = leaf(QA, ('nat', False)), leaf(QA, ('bool', True)), leaf(RA, ('T', True))
    if OB is None or IB is None or at is None or done is None or cells is None:
        for o in bad:
            if o.loc is not None:
                J.why[o] = 'not a transposition by cycles'
        return
    RB, QB = bs.B.vloops[OB], bs.B.vloops[IB]
    mark = {al.leafm.get((inner, done.name)), al.leafm.get((outer, leaf(RA, ('bool', True)).name))}
    ka = al.leafm.get((inner, at.name))
    m, n = [p for p in (bs.ren(P(s)) for s in sorted(BS.CMP.int_syms(RA.N), key=lambda s: s.id))][:2]
    last = m * n - 1
    lb = next((l for l in QB.leafs if ka and l.name == ka[1]), None)
    same = lb is not None and all(o.res in ('same', 'proved', 'any') for o in bs.obs
                                  if isinstance(o.loc, tuple) and o.loc[0] is QB and o.loc[1] is lb and o.what == 'initial value')
    for o in bad:
        if o.loc is None:
            continue
        if not same:
            J.why[o] = 'cycles start elsewhere'
            continue
        if o.what == 'number of iterations':
            if not misses(bs, o.b, lb.x0, RB):
                J.why[o] = 'every cycle is reached'
            continue
        start = lb.x0
        pos = bs.cur(lb, QB)
        to = P(atom('mod', m * pos, last))
        extra = [ge0(pos - 1), ge0(last - 1 - pos), Or(Not(mark_at(bs, mark, IB, QB, to)), ieq(to, start))]
        if isinstance(o.loc, tuple) and (o.loc[0].lname, o.loc[1].name) in mark:
            es = set()
            for x in (o.a, o.b):
                walk(x, lambda t: es.add(t) if t.k == 'sym' and isinstance(t.a[0], tuple) and t.a[0][0] == 'e' else None)
            for e in es:
                extra += [Not(ieq(P(e), start)), ge0(P(e) - 1), ge0(last - 1 - P(e))]
        if o.loc is RB or isinstance(o.loc, tuple) and o.loc[0] is RB:
            extra = extra[3:]
        a, b, cs = bs.reduce(o.a, o.b, list(o.conds) + extra)
        w = BS.urefute(bs.assume + cs + bs.kapfacts(o.a, o.b), a, b, bs.kinds, info=bs.info, secs=8.0, keep=bs.around(o))
        if not w[2]:
            J.why[o] = 'no difference for the cycles there are'
    # no marks at all: longer cycles are moved more than once
    hit = [o for o in J.failing if isinstance(o.loc, tuple) and o.loc[0] is RB and o.what == 'step' and al.leafrev.get((OB, o.loc[1].name)) == (outer, cells.name)]
    if len(J.failing) == 1 and hit and same and not any(bs.kindof(l) == 'bool' for l in RB.leafs) and isinstance(hit[0].b, Poly) and always(hit[0].b, IB):
        J.why.pop(hit[0], None)


def always(x, loop):
    """x comes from the loop, whatever the circumstances"""
    a = x.single_atom()
    if a is None:
        return False
    if a.k == 'ite':
        return loop in BS.lnames(a.a[0]) and always(a.a[1], loop) and always(a.a[2], loop)
    return a.k in ('lst', 'lread') and a.a[0].a[0] is loop


def mark_at(bs, mark, IB, QB, to):
    for k in mark:
        if k and k[0] is IB:
            l = next(l for l in QB.leafs if l.name == k[1])
            r = bs.B.aread(bs.cur(l, QB), to, BS.Facts.of([]))
            if isinstance(r, B):
                return r
    return FALSE


def misses(bs, N, x0, RB):
    """dimensions for which some cycle has none of its positions among the starts"""
    syms = sorted(BS.CMP.int_syms(N, x0), key=lambda s: s.id)
    dims = [s for s in syms if s is not RB.i]
    if not dims or len(dims) > 2:
        return False
    by = {s.a[0]: s for s in dims}
    r, c = by.get('a.R'), by.get('a.C')
    for m in range(1, 9):
        for n in range(1, 9):
            ints = {s: v for s, v in ((r, m), (c, n)) if s is not None}
            try:
                e = BS.UEval(random.Random(1), dict(ints), bs.kinds, bs.info)
                k = int(e.p(N, {}))
                got = set()
                for i in range(k):
                    e = BS.UEval(random.Random(1), dict(ints, **{}) | {RB.i: i}, bs.kinds, bs.info)
                    got.add(int(e.p(x0, {})))
            except BS.ERR:
                return False
            if any(not got & set(z) for z in cycles(m, n)):
                return True
    return False
