"""Contracts: what each public function must do, compared with the summary derived from the source.

A contract builder receives a Case, creates the symbolic arguments and returns a dict:
  args : argument values           pre  : condition under which the call must return (otherwise it must panic)
  ret  : result specification      mut  : {argument name: specification of its value afterwards}
Every comparison yields one obligation: ok / viol (refuted, with a witness) / und (neither proved nor refuted)."""
import time, traceback
from .sym import *
from .facts import Facts, walk
from .vals import *
from .thir import normpath, span
from .interp import Dead, Budget
from .harness import *
from . import cmp as C
from .bisim import urefute
from .loops import init_cond, maybe_dirty, Cnt, Sel, Gfold

SPECS = {}


def spec(*paths, name=None, **kw):
    def d(fn):
        for p in paths:
            SPECS[name or p] = (p, fn, kw)
        return fn
    return d


# ------------------------------------------------------------------ specification values
class Mat:
    """matrix value: shape and elements (el(i,j) or flat(k))"""
    def __init__(self, R, C, el=None, flat=None, rand=False):
        self.R, self.C, self.elf, self.flat, self.rand = P(R), P(C), el, flat, rand


class Vec:
    def __init__(self, ln, el, ek='T'):
        self.ln, self.el, self.ek = P(ln), el, ek


class Sc:
    """scalar (T, integer or boolean)"""
    def __init__(self, v):
        self.v = v


class Opt:
    """Option: Some(inner) exactly when cond"""
    def __init__(self, cond, inner):
        self.cond, self.inner = cond, inner


class Deref:
    """a reference whose target is the given specification"""
    def __init__(self, inner):
        self.inner = inner


class Fields:
    """struct: field -> specification"""
    def __init__(self, name, **f):
        self.name, self.f = name, f


class Unit:
    pass


class Any:
    pass


class Cust:
    """fn(chk, value, facts)"""
    def __init__(self, fn):
        self.fn = fn


class MatArg:
    def __init__(self, name, v, R, C):
        self.name, self.v, self.R, self.C = name, v, R, C

    def el(self, i, j):
        return el(self.name, P(i), self.C, P(j))

    def fl(self, k):
        return flat(self.name, P(k))

    def spec(self):
        return Mat(self.R, self.C, flat=self.fl)


class Case:
    def __init__(self):
        self.assume = []
        self.refs = []          # (name, value, mut)
        self.bind = {}
        self.unch = {}

    def mat(self, name, R=None, Cc=None):
        v, a, R, Cc = M(name, R, Cc)
        self.assume += a
        return MatArg(name, v, R, Cc)

    def vec(self, name, ln=None, ek='T'):
        return V(name, psym(name + '.len', 'nat') if ln is None else P(ln), ek)

    def nat(self, name):
        return psym(name, 'nat')

    def T(self, name):
        return psym(name, 'T')

    def fn(self, name, ret='T'):
        return FnParam(name, ret)

    def ref(self, x, mut=False, name=None):
        """argument passed by reference"""
        v = x.v if isinstance(x, MatArg) else x
        n = name or (x.name if isinstance(x, MatArg) else 'arg%d' % len(self.refs))
        self.refs.append((n, v, mut))
        return ('ref', n)

    def val(self, x):
        return x.v if isinstance(x, MatArg) else x


class Ob:
    def __init__(self, fn, kind, name, st, detail='', where='', witness=None):
        self.fn, self.kind, self.name, self.st, self.detail, self.where, self.witness = fn, kind, name, st, detail, where, witness

    def key(self):
        return '%s|%s|%s' % (self.fn, self.kind, self.name)

    def __repr__(self):
        return '<%s %s:%s %s%s%s>' % (self.st, self.fn, self.kind, self.name, ' ' + self.detail if self.detail else '',
                                     ' witness %s' % self.witness if self.witness else '')


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '…'


def search(conds, a, b, secs=4):
    """a point where conds hold and a != b, by local search (sampling does not get to the boundary of a comparison)"""
    cs = [c for c in conds if c is not TRUE]
    if not settled(a, b, *cs):
        return None
    return urefute(cs, a, b, {}, None, secs=secs)[0]


def settled(*xs):
    """no term stands for a value that was not derived (a loop state, the iteration of an exit)"""
    if not C.resolved(*xs)[0]:
        return False
    bad = []
    for x in xs:
        walk(x, lambda n: bad.append(n) if n.k == 'kap' else None)
    return not bad


def first(I, conds, a, b, secs=4):
    """as search, in the first iteration of the loops involved, where every carried value is the initial one"""
    cs = [c for c in conds if c is not TRUE]
    if C.resolved(a, b, *cs)[0]:
        return None
    its = {}

    def see(n):
        if n.k in ('lst', 'lread'):
            s = n.a[1].single_atom()
            if s is not None and s.k == 'sym' and s.a[1] in ('nat', 'int'):
                its[s] = ZERO
    for x in [a, b] + cs:
        walk(x, see)
    if not its:
        return None
    fs = Facts.of([])

    def start(x):
        x = subst(x, its)
        for _ in range(3):
            mp = {}

            def g(n):
                if n.k == 'lread' and n.a[1] is ZERO:
                    info = I.loops.get(n.a[0].a[0])
                    lf = info.leafs.get(n.a[0].a[1]) if info else None
                    if lf is not None and isinstance(lf[1], Arr) and not info.params:
                        mp[n] = I.aread(lf[1], subst(n.a[2], its), fs)
            walk(x, g)
            if not mp:
                return x
            x = subst(x, mp)
        return x
    try:
        cs, a, b = [start(c) for c in cs], start(a), start(b)
    except (ValueError, TypeError, Undecided):
        return None
    if not settled(a, b, *cs):
        return None
    return urefute(cs, a, b, {}, None, secs=secs)[0]


class Chk:
    """compares values with specifications, collecting obligations"""
    def __init__(self, fname, run, where, kinds=None):
        self.fn, self.run, self.where, self.obs, self.kinds = fname, run, where, [], kinds
        self.known = None

    @property
    def I(self):
        return self.run.I

    def want(self, kind):
        return self.kinds is None or kind in self.kinds or kind.split(':')[0] in self.kinds

    def ob(self, kind, name, st, detail='', where=None, witness=None):
        self.obs.append(Ob(self.fn, kind, name, st, detail, where or self.where, witness))

    def eq(self, kind, name, f, got, want, where=None):
        if not self.want(kind):
            return
        if isinstance(got, Opq) or not isinstance(got, (Poly, B)):
            self.ob(kind, name, 'und', 'not modelled: %s' % short(got), where)
            return
        if isinstance(got, B) != isinstance(want, B):
            self.ob(kind, name, 'und', 'sort: %s' % short(got), where)
            return
        try:
            r, bad = C.equal(f, got, want)
        except (RecursionError, Undecided) as e:
            r, bad = False, None
        if r:
            self.ob(kind, name, 'ok')
            return
        w = None
        for (g, a, b) in ([bad] if bad else []) + [(f, got, want)]:
            w = C.refute(list(g.lits), undirt(a), undirt(b), kaps=self.I.kaps) or search(list(g.lits), undirt(a), undirt(b)) or first(self.I, list(g.lits), undirt(a), undirt(b))
            if w:
                break
        self.ob(kind, name, 'viol' if w else 'und', 'derived %s, required %s' % (short(C.simp(got, f)), short(want)), where, w)

    def holds(self, kind, name, f, goal, where=None, detail=''):
        """goal must follow from f"""
        if not self.want(kind):
            return
        if f.prove(goal):
            self.ob(kind, name, 'ok')
            return
        g2 = C.simp(goal, f)
        if f.prove(g2):
            self.ob(kind, name, 'ok')
            return
        w = C.refute_cond(list(f.lits), goal, kaps=self.I.kaps) or search(list(f.lits), goal, TRUE) or first(self.I, list(f.lits), goal, TRUE)
        self.ob(kind, name, 'viol' if w else 'und', '%s does not follow%s' % (short(g2), ' ' + detail if detail else ''), where, w)

    # -------------------------------------------------------------- structured values
    def value(self, name, v, s, f, pfx=''):
        if f.inconsistent():
            return
        if isinstance(s, Any):
            return
        if isinstance(s, Cust):
            s.fn(self, v, f)
            return
        if isinstance(v, VIte):
            self.value(name, v.a, s, f.plus(v.c), pfx)
            self.value(name, v.b, s, f.plus(Not(v.c)), pfx)
            return
        if isinstance(s, Unit):
            return
        if isinstance(s, Deref):
            for _ in range(4):
                if isinstance(v, Ref):
                    v = self.I.rplace(self.run.st, v)
            self.value(name, v, s.inner, f, pfx)
            return
        if isinstance(s, Sc):
            self.eq(pfx + 'val', name, f, v, s.v)
            return
        if isinstance(s, Opt):
            self.opt(name, v, s, f, pfx)
            return
        if isinstance(s, Mat):
            self.mat(name, v, s, f, pfx)
            return
        if isinstance(s, Vec):
            self.vec(name, v, s, f, pfx)
            return
        if isinstance(s, Fields):
            if not isinstance(v, St):
                self.ob(pfx + 'val', name, 'und', 'not modelled: %s' % short(v))
                return
            for k, x in s.f.items():
                if k not in v.f:
                    self.ob(pfx + 'val', name + '.' + k, 'und', 'no field %s' % k)
                    continue
                self.value(name + '.' + k, v.f[k], x, f, pfx)
            return
        raise AssertionError(s)

    def opt(self, name, v, s, f, pfx):
        if not isinstance(v, En):
            self.ob(pfx + 'val', name, 'und', 'not modelled: %s' % short(v))
            return
        some = FALSE
        for g, n, fl in v.cases:
            if n == 'Some':
                some = Or(some, g)
        if s.cond is not None:
            self.eq(pfx + 'some', name + ' is Some', f, some, s.cond)
        for g, n, fl in v.cases:
            if n == 'Some':
                self.value(name, fl['0'], s.inner, f.plus(g) if s.cond is None else f.plus(g, s.cond), pfx)

    def mat(self, name, v, s, f, pfx):
        if not isinstance(v, St) or 'data' not in v.f or not isinstance(v.f['data'], Arr):
            self.ob(pfx + 'shape', name, 'und', 'not modelled: %s' % short(v))
            return
        self.eq(pfx + 'shape', name + ' rows', f, v.f['no_rows'], s.R)
        self.eq(pfx + 'shape', name + ' length', f, v.f['data'].ln, s.R * s.C)
        if self.want(pfx + 'wf'):
            self.wf(name, v, f, pfx)
        self.elems(name, v.f['data'], s, f, pfx)

    def wf(self, name, v, f, pfx=''):
        """rows >= 1, length a positive multiple of rows"""
        R, ln = C.simp(v.f['no_rows'], f), C.simp(v.f['data'].ln, f)
        if self.known is not None and not pfx:
            # a recorded defect: outside the recorded class of inputs the obligation must hold as usual
            what, cond = self.known
            for nm, g in (('has a row', ge0(R - 1)), ('has an element', ge0(ln - 1))):
                self.holds('wf', '%s %s, %s' % (name, nm, what), f.plus(Not(cond)), g)
            f = f.plus(cond)
        self.holds(pfx + 'wf', name + ' has a row', f, ge0(R - 1))
        self.holds(pfx + 'wf', name + ' has an element', f, ge0(ln - 1))
        q = exact_div(ln, R) if isinstance(R, Poly) else None
        if q is not None:
            self.ob(pfx + 'wf', name + ' rows divide length', 'ok')
        else:
            self.eq(pfx + 'wf', name + ' rows divide length', f.plus(ge0(R - 1)), self.I.imod(ln, R, self.run.st) if R.const() != 0 else ONE, ZERO)

    def elems(self, name, arr, s, f, pfx):
        s = Mat(C.simp(s.R, f), C.simp(s.C, f), s.elf, s.flat)
        if s.flat is not None:
            k = C.fresh()
            g = f.plus(ge0(s.R * s.C - 1 - P(k)), ge0(P(k)))
            ix, want = P(k), s.flat and s.flat(P(k))
        else:
            i, j = C.fresh(), C.fresh()
            g = f.plus(ge0(s.R - 1 - P(i)), ge0(s.C - 1 - P(j)))
            ix = P(i) * s.C + P(j)
            g = g.plus(ge0(s.R * s.C - 1 - ix))
            want = None if s.elf is None else s.elf(P(i), P(j))
        self.elem1(name, arr, ix, want, g, pfx)

    def elem1(self, name, arr, ix, want, g, pfx):
        if g.inconsistent():
            return
        if self.want(pfx + 'init'):
            if not maybe_dirty(self.I, arr):
                self.ob(pfx + 'init', name + ' initialised', 'ok')
            else:
                self.holds(pfx + 'init', name + ' initialised', g, init_cond(self.I, arr, ix, g))
        if want is None or not self.want(pfx + 'val'):
            return
        try:
            got = self.I.aread(arr, ix, g)
        except Undecided as e:
            got = Opq(str(e))
        self.eq(pfx + 'val', name + ' element', g, got, want)

    def vec(self, name, v, s, f, pfx):
        if not isinstance(v, Arr):
            self.ob(pfx + 'val', name, 'und', 'not modelled: %s' % short(v))
            return
        self.eq(pfx + 'shape', name + ' length', f, v.ln, s.ln)
        if s.el is None:
            return
        k = C.fresh()
        g = f.plus(ge0(s.ln - 1 - P(k)))
        self.elem1(name, v, P(k), s.el(P(k)), g, pfx)


_dn = [0]


def undirt(x):
    """an uninitialised element is an arbitrary value: a fresh symbol, so that a difference can be witnessed"""
    hit = []

    def g(n):
        if n.k == 'dirty':
            hit.append(n)
    walk(x, g)
    if not hit:
        return x
    d = sym('$uninit', 'T')
    return subst(x, {h: P(d) for h in hit})


# ------------------------------------------------------------------ running a contract
def find_fn(cr, path):
    r = [f for f in cr.fns.values() if normpath(f['path']) == path]
    return r[0] if len(r) == 1 else None


EVK = {'bounds', 'sub', 'castneg', 'div0', 'panic', 'unwrap'}


def stable(ev, cr):
    """where an obligation sits, without line numbers"""
    return '%s in %s' % (ev.kind, ev.fn)


def run_case(cr, sname, kinds=None, hooks=None):
    """analyse one function against its contract; returns (obligations, info)"""
    path, build, kw = SPECS[sname]
    t0 = time.time()
    fn = kw['find'](cr) if 'find' in kw else find_fn(cr, path)
    if fn is None:
        return [Ob(sname, 'anchor', path, 'und', 'function not found')], dict(fn=sname, secs=0)
    where = span(fn['body'])
    obs = []
    info = dict(fn=sname, where=where)
    try:
        c = Case()
        d = build(c)
        pre = d.get('pre', TRUE)
        pre_known = 'pre' in d or not d.get('nopre')
        want = lambda k: kinds is None or k in kinds or any(k == x.split(':')[0] for x in kinds)

        def go(extra, hk):
            r = Run(cr, tuple(c.assume) + extra, hk)
            # equalities required of valid arguments are solved beforehand (one symbol per dimension)
            mp = C.eqmap(Facts.of(tuple(c.assume) + extra)) if extra else {}
            c.now = {n: vsubst(v, mp) for n, v, mut in c.refs}
            if d.get('types'):
                r.I.argtypes = d['types']
            args = []
            for a in d['args']:
                if isinstance(a, tuple) and a and a[0] == 'ref':
                    n, v, mut = next(x for x in c.refs if x[0] == a[1])
                    args.append(r.byref(c.now[n], mut, n))
                else:
                    args.append(vsubst(a, mp))
            for n, v, mut in c.refs:
                r.st.store.setdefault(('arg', n), c.now[n])
            r.call(fn, args)
            return r
        hk = dict(hooks or {})
        if 'hooks' in d:
            hk.update(d['hooks'](cr))
        r = None
        if want('accept'):
            r = go((), hk)
            ch = Chk(sname, r, where, kinds)
            base = Facts.of(tuple(c.assume))
            ok_path = FALSE if r.dead else And(*r.st.path)
            if d.get('pre_only_ret'):
                pass
            ch.holds('accept', 'rejects invalid arguments', base.plus(*r.st.know).plus(ok_path), pre)
            obs += ch.obs
            info['accepts'] = short(ok_path)
        if kinds is not None and 'safe' in kinds:
            # whatever the arguments
            if r is None:
                r = go((), hk)
            ch = Chk(sname, r, where, {'uninit', 'ub'})
            events(ch, r, d, cr)
            if not r.I.unsupported:
                ch.ob('ub', 'every operation is modelled', 'ok')
            else:
                ch.ob('ub', 'every operation is modelled', 'und', short(r.I.unsupported[0]))
            obs += ch.obs
            if pre is not TRUE:
                r = None
        if kinds is None or set(kinds) - {'accept', 'safe'}:
            if pre is not TRUE or r is None:
                r = go((pre,) if pre is not TRUE else (), hk)
            ch = Chk(sname, r, where, kinds)
            ch.known = d.get('wf_known')
            if r.dead:
                ch.ob('total', 'returns for valid arguments', 'viol' if pre is TRUE else 'und', 'every path panics')
            else:
                events(ch, r, d, cr)
                f = r.facts()
                ch.value('result', r.ret, d.get('ret', Any()), f)
                for n, v, mut in c.refs:
                    now = r.st.store.get(('arg', n))
                    v = c.now[n]
                    if n in d.get('mut', {}):
                        ch.value(n, now, d['mut'][n], f, 'mut:')
                    elif mut:
                        if now is v or same(now, v):
                            ch.ob('frame', n + ' unchanged', 'ok')
                        else:
                            ch.ob('frame', n + ' unchanged', 'und')
                    elif ch.want('frame'):
                        same_ = now is v or same(now, v)
                        ch.ob('frame', n + ' unchanged', 'ok' if same_ else 'und')
                if 'post' in d:
                    d['post'](ch, r, f)
            info['summary'] = short(r.ret)
            info['loops'] = len(r.I.loops)
            info['unsupported'] = list(r.I.unsupported)
            info['events'] = len(r.I.events)
            obs += ch.obs
            if r.I.unsupported:
                info['und_note'] = r.I.unsupported[:3]
    except Dead:
        obs.append(Ob(sname, 'engine', 'analysis', 'und', 'dead'))
    except (Undecided, Budget, RecursionError) as e:
        obs.append(Ob(sname, 'engine', 'analysis', 'und', '%s: %s' % (type(e).__name__, e)))
    except Exception as e:
        obs.append(Ob(sname, 'engine', 'analysis', 'und', 'internal: %s' % traceback.format_exc()[-400:]))
    info['secs'] = round(time.time() - t0, 2)
    return obs, info


def events(ch, r, d, cr):
    skip = d.get('skip_events', ())
    for e in r.I.events:
        kind = e.kind if e.kind in ('uninit', 'tdiv', 'ub') else 'total'
        if not ch.want(kind) or e.kind in skip:
            continue
        if kind == 'tdiv' and not d.get('tdiv'):
            continue
        name = stable(e, cr)
        if e.ok:
            ch.ob(kind, name, 'ok', where=e.where)
            continue
        f = Facts.of(e.path)
        if e.goal is FALSE:
            # a panic: must be unreachable
            if f.inconsistent():
                ch.ob(kind, name, 'ok', where=e.where)
                continue
        ch.holds(kind, name, f, e.goal, e.where, e.detail)
