"""Abstract interpreter over THIR: one structured pass, merges at joins, loops summarised by recurrence
solving (closed forms) and array-region writes.  Shapes and elements stay symbolic throughout."""
import sys
from .sym import *
from .facts import Facts, walk, LEMMAS, lemma, max0
from .vals import *
from .thir import normpath, span

sys.setrecursionlimit(20000)


class Dead(Exception):
    """the current path ended (panic, return, break, continue)"""


class Budget(Exception):
    pass


class State:
    __slots__ = ('store', 'path', 'know')

    def __init__(self, store=None, path=(), know=()):
        self.store = store if store is not None else {}
        self.path = path
        self.know = know

    def copy(self):
        return State(dict(self.store), self.path, self.know)

    def become(self, o):
        self.store = o.store
        self.path = o.path
        self.know = o.know

    def assume(self, b):
        if b.k == 'and':
            for x in b.a:
                self.assume(x)
        elif b is not TRUE and b not in self.path:
            self.path = self.path + (b,)

    def learn(self, b):
        if b is not TRUE and b not in self.know and b not in self.path:
            self.know = self.know + (b,)


class Frame:
    def __init__(self, fid, fn, tyenv, parent=None):
        self.fid = fid
        self.fn = fn
        self.tyenv = tyenv
        self.exits = []
        self.parent = parent
        self.upvars = {}


class Event:
    __slots__ = ('kind', 'where', 'fn', 'goal', 'path', 'ok', 'detail', 'stack', 'node')

    def __init__(self, kind, where, fn, goal, path, ok, detail, stack, node):
        self.kind, self.where, self.fn, self.goal, self.path, self.ok, self.detail, self.stack, self.node = \
            kind, where, fn, goal, path, ok, detail, stack, node

    def __repr__(self):
        return '<%s %s %s ok=%s goal=%r %s>' % (self.kind, self.where, self.fn, self.ok, self.goal, self.detail)


class LoopInfo:
    def __init__(self, sym):
        self.sym = sym
        self.arr = {}       # leafkey -> dict(s0, W, i)


class LoopRec:
    """what one loop does per iteration (recorded on the final pass)"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def disp(p):
    return p


WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 8, 'i16': 16, 'i32': 32}


class Interp:
    leafpref = 'v'

    def __init__(self, crate, assume=(), extra=None, max_steps=3000000):
        self.cr = crate
        self.assume = tuple(assume)
        self.events = []
        self.evkey = set()
        self.rec = True
        self.loops = {}
        self.kaps = {}
        self.records = []
        self.steps = 0
        self.max_steps = max_steps
        self.stack = []
        self.unsupported = []
        self.callhook = extra or {}
        self.calls_seen = []
        self.event_kinds = None
        self.panics = 0
        self.cellkind = {}
        self.iscope = []
        self.loopdepth = 0
        self._n = 0

    def fresh(self):
        self._n += 1
        return self._n

    def fresh_id(self, node):
        return P(atom('site', str(node.get('_id'))))

    def iscope_polys(self):
        return [P(x) for x in self.iscope]

    def fieldkind(self, sname, field):
        s = self.cr.structs.get(sname)
        if s:
            for f in s['f']:
                if f['n'] == field:
                    return self.tyk(f['ty'], None)
        return None

    def follow_cells(self, v, st, out, d=0):
        """cells reachable through mutable references held by v"""
        if isinstance(v, Ref):
            if d < 8 and v.cell not in out:
                out.append(v.cell)
                self.follow_cells(st.store.get(v.cell), st, out, d + 1)
        elif isinstance(v, VIte):
            self.follow_cells(v.a, st, out, d)
            self.follow_cells(v.b, st, out, d)
        elif isinstance(v, Clo):
            for x in v.up:
                self.follow_cells(x, st, out, d)
        elif isinstance(v, St):
            for x in v.f.values():
                self.follow_cells(x, st, out, d)
        elif isinstance(v, It):
            for r in getattr(v, 'refs', ()) or ():
                self.follow_cells(r, st, out, d)

    def check_region(self, st, arr, node):
        """every element of arr is about to be read"""
        from .loops import maybe_dirty, init_cond
        if not self.rec or not maybe_dirty(self, arr):
            return
        e = sym(('ce', node.get('_id')), 'nat')
        f = self.facts(st).plus(ge0(arr.ln - 1 - P(e)))
        c = init_cond(self, arr, P(e), f)
        self.event('uninit', node, Or(ge0(P(e) - arr.ln), c), st, 'whole-array read')

    # ------------------------------------------------------------ misc
    def facts(self, st):
        return Facts.of(self.assume + st.path + st.know)

    def note_unsupported(self, what, node=None):
        w = '%s @%s' % (what, span(node) if node else '?')
        if w not in self.unsupported:
            self.unsupported.append(w)
        return w

    def event(self, kind, node, goal, st, detail=''):
        """record an obligation; returns True/False/None-ish: proven?"""
        if not self.rec:
            return None
        if self.event_kinds is not None and kind not in self.event_kinds:
            return None
        key = (kind, node.get('_id') if node else None, tuple(s[0] for s in self.stack), goal, self.facts(st))
        if key in self.evkey:
            return None
        self.evkey.add(key)
        ok = self.facts(st).prove(goal)
        fn = self.stack[-1][1] if self.stack else '?'
        self.events.append(Event(kind, span(node) if node else '?', fn, goal, self.assume + st.path + st.know, ok, detail,
                                 tuple(s[1] for s in self.stack), node))
        return ok

    def tyk(self, ti, fr):
        """scalar kind of a type: 'nat','int','T','bool', or None"""
        t = self.cr.types[ti]
        k = t['k']
        if k == 'uint':
            return 'nat'
        if k == 'int':
            return 'int'
        if k == 'float':
            return 'T'
        if k == 'bool':
            return 'bool'
        if k == 'param':
            e = fr.tyenv.get(t['n']) if fr else None
            if e is not None and e != ti:
                return self.tyk(e, None)
            return 'T'
        if k == 'other':
            return 'T' if 'Output' in t['t'] else None
        return None

    def reslv(self, ti, fr):
        t = self.cr.types[ti]
        while t['k'] == 'param' and fr and t['n'] in fr.tyenv and fr.tyenv[t['n']] != ti:
            ti = fr.tyenv[t['n']]
            t = self.cr.types[ti]
            break
        return t

    # ------------------------------------------------------------ fresh symbolic values
    def fresh_of_type(self, ti, fr, name, depth=0):
        t = self.reslv(ti, fr)
        k = t['k']
        sk = self.tyk(ti, fr)
        if sk in ('nat', 'int'):
            return psym(name, sk)
        if sk == 'T':
            return psym(name, 'T')
        if sk == 'bool':
            return batom(sym(name, 'bool'))
        if k == 'tuple':
            return St('()', {str(n): self.fresh_of_type(x, fr, (name, n)) for n, x in enumerate(t['a'])})
        return Opq('value of type %s' % t['t'])

    # ------------------------------------------------------------ array read
    def aread(self, arr, e, facts, depth=0):
        if depth > 60:
            return self.unkval(arr.ek, 'read depth')
        chain = []
        f = facts
        layers = list(arr.layers)
        val = None
        while layers:
            l0 = layers.pop()
            parts = split_ites(l0, f)
            if len(parts) > 1:
                layers.extend(reversed(parts))
                continue
            l = parts[0] if parts else None
            if l is None:
                continue
            r = solve_layer(l, e, f)
            if r[0] == 'no':
                continue
            if r[0] == 'may':
                if self.layer_disjoint(l, e, f):
                    continue
                val = self.unkval(arr.ek, 'region: ' + r[1], e)
                break
            _, mp, cond = r
            d = f.decide(cond)
            if d is False:
                continue
            v = vsubst(l.val, mp)
            if d is True:
                val = v
                break
            chain.append((cond, v))
            f = f.plus(Not(cond))
            if f.inconsistent():
                val = v
                chain.pop()
                break
        if val is None:
            val = self.base_read(arr, e, f, depth)
        for c, v in reversed(chain):
            val = merge(c, v, val)
        return val

    def layer_disjoint(self, l, e, f):
        rng = [ge0(n - 1 - P(a)) for a, n in l.vars]
        g = f.plus(*rng, l.guard)
        return g.prove(ine(l.idx, e), 3)

    def unkval(self, ek, why, *dep):
        p = unk(why, *dep)
        return batom(p.single_atom()) if ek == 'bool' else p

    def base_read(self, arr, e, f, depth):
        b = arr.base
        if b[0] == 'sym':
            a = atom('el', b[1], e)
            return batom(a) if arr.ek == 'bool' else P(a)
        if b[0] == 'dirty':
            return DIRTY if arr.ek != 'bool' else batom(atom('dirty'))
        if b[0] == 'const':
            return b[1]
        if b[0] == 'fn':
            return vsubst(b[2], {b[1]: e})
        if b[0] == 'lst':
            c = e.const()
            if c is not None and 0 <= c < len(b[1]):
                return b[1][c]
            v = b[1][-1] if b[1] else self.unkval(arr.ek, 'empty list')
            for k in range(len(b[1]) - 2, -1, -1):
                v = merge(ieq(e, P(k)), b[1][k], v)
            return v
        if b[0] == 'ite':
            d = f.decide(b[1])
            if d is True:
                return self.aread(b[2], e, f, depth + 1)
            if d is False:
                return self.aread(b[3], e, f, depth + 1)
            return merge(b[1], self.aread(b[2], e, f.plus(b[1]), depth + 1), self.aread(b[3], e, f.plus(Not(b[1])), depth + 1))
        if b[0] == 'sub':
            return self.aread(b[1], b[2] + e, f, depth + 1)
        if b[0] == 'loop':
            return self.loop_read(b[1], b[2], e, f, arr.ek, depth)
        if b[0] == 'opq':
            a = atom('opqel', b[1], e)
            return batom(a) if arr.ek == 'bool' else P(a)
        raise Undecided('base ' + b[0])

    def loop_read(self, lkl, i, e, f, ek, depth):
        from .loops import loop_read
        return loop_read(self, lkl, i, e, f, ek, depth)

    # ------------------------------------------------------------ places
    def rplace(self, st, ref, node=None):
        v = st.store.get(ref.cell)
        if v is None:
            return Opq('unbound')
        return self.rproj(st, v, ref.proj, node)

    def rproj(self, st, v, proj, node=None):
        for n, p in enumerate(proj):
            if isinstance(v, VIte):
                rest = proj[n:]
                return merge(v.c, self.rproj(st, v.a, rest, node), self.rproj(st, v.b, rest, node))
            if isinstance(v, Opq):
                return v
            if p[0] == 'f':
                if isinstance(v, St):
                    if p[1] not in v.f:
                        return Opq('field ' + p[1])
                    v = v.f[p[1]]
                else:
                    return Opq('field of %r' % type(v).__name__)
            elif p[0] == 'i':
                if isinstance(v, Arr):
                    if node is not None and self.rec:
                        from .loops import maybe_dirty, init_cond
                        if maybe_dirty(self, v):
                            self.event('uninit', node, init_cond(self, v, p[1], self.facts(st)), st, 'read of element %s' % p[1])
                    v = self.aread(v, p[1], self.facts(st))
                else:
                    return Opq('index of %r' % type(v).__name__)
            elif p[0] == 'sub':
                if isinstance(v, Arr):
                    v = self.subarr(v, p[1], p[2])
                else:
                    return Opq('slice')
            elif p[0] == 'v':
                if isinstance(v, En):
                    r = None
                    for g, vn, f in v.cases:
                        if vn == p[1] and p[2] in f:
                            r = f[p[2]]
                            break
                    v = r if r is not None else Opq('variant')
                else:
                    return Opq('variant of %r' % type(v).__name__)
        return v

    def mentions_dirty(self, v):
        hit = [False]

        def f(n):
            if n.k == 'dirty':
                hit[0] = True
        walk(v, f)
        return hit[0]

    def uninit(self, st, v, node):
        """an element that may be uninitialised is read; goal: condition under which the value is clean"""
        self.event('uninit', node, clean_cond(v), st, 'read of %s' % v)

    def subarr(self, v, lo, ln):
        if lo is ZERO and ln is v.ln:
            return v
        if v.base[0] == 'sub' and not v.layers:
            return Arr(ln, ('sub', v.base[1], v.base[2] + lo), (), v.ek)
        return Arr(ln, ('sub', v, lo), (), v.ek)

    def wplace(self, st, ref, val, node=None):
        cell = ref.cell
        old = st.store.get(cell)
        st.store[cell] = self.wproj(st, old, ref.proj, val)

    def wproj(self, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if isinstance(v, VIte):
            a = self.wproj(st, v.a, proj, val)
            b = self.wproj(st, v.b, proj, val)
            return VIte(v.c, a, b)
        if p[0] == 'f':
            if isinstance(v, St):
                d = dict(v.f)
                d[p[1]] = self.wproj(st, v.f.get(p[1]), proj[1:], val)
                return St(v.n, d)
            return Opq('write field')
        if p[0] == 'i':
            if isinstance(v, Arr):
                if len(proj) > 1:
                    old = self.aread(v, p[1], self.facts(st))
                    val = self.wproj(st, old, proj[1:], val)
                return self.awrite(v, p[1], val, st)
            return Opq('write index')
        if p[0] == 'sub':
            if isinstance(v, Arr):
                if len(proj) > 1 and proj[1][0] in ('i', 'sub'):
                    q = proj[1]
                    if q[0] == 'i':
                        return self.wproj(st, v, (('i', p[1] + q[1]),) + proj[2:], val)
                    return self.wproj(st, v, (('sub', p[1] + q[1], q[2]),) + proj[2:], val)
                if isinstance(val, Arr):
                    # whole-slice replacement
                    k = atom('sym', ('$w', len(v.layers)), 'nat')
                    f = self.facts(st).plus(ge0(p[2] - 1 - P(k)))
                    return Arr(v.ln, v.base, v.layers + (Layer(((k, p[2]),), TRUE, p[1] + P(k), self.aread(val, P(k), f)),), v.ek)
            return Opq('write slice')
        if p[0] == 'v':
            if isinstance(v, En):
                cs = []
                for g, vn, f in v.cases:
                    if vn == p[1] and p[2] in f:
                        f = dict(f)
                        f[p[2]] = self.wproj(st, f[p[2]], proj[1:], val)
                    cs.append((g, vn, f))
                return En(v.n, cs)
            return Opq('write variant')
        return Opq('write')

    def awrite(self, arr, e, val, st):
        # drop an immediately shadowed point write
        ls = arr.layers
        if ls and not ls[-1].vars and ls[-1].idx is e and ls[-1].guard is TRUE:
            ls = ls[:-1]
        return Arr(arr.ln, arr.base, ls + (Layer((), TRUE, e, val),), arr.ek)

    # ------------------------------------------------------------ running functions
    def call_fn(self, fn, args, st, node, tyargs=None, upvals=None, fr=None):
        key = fn['key']
        if len(self.stack) > 24 or sum(1 for s in self.stack if s[2] == key) >= 1:
            self.calls_seen.append(('recursive', key, args, st.path))
            h = self.callhook.get(('rec', key))
            if h:
                return h(self, args, st, node)
            return Opq('recursive call to %s' % key)
        h = self.callhook.get(key)
        if h:
            return h(self, args, st, node)
        tyenv = {}
        if tyargs and fn.get('gens'):
            for g, a in zip(fn['gens'], tyargs):
                t = self.cr.types[g]
                if t['k'] == 'param':
                    # resolve through the caller's environment
                    at = self.cr.types[a]
                    if at['k'] == 'param' and fr is not None and at['n'] in fr.tyenv:
                        a = fr.tyenv[at['n']]
                    tyenv[t['n']] = a
        elif fr is not None and fn['dk'] == 'Closure':
            tyenv = fr.tyenv
        nid = node.get('_id') if node else 'top'
        fid = (self.stack[-1][0] if self.stack else ()) + (nid,)
        f = Frame(fid, fn, tyenv, fr)
        if upvals is not None:
            f.upvars = upvals
        self.stack.append((fid, key, key))
        try:
            params = fn['params']
            if fn['dk'] == 'Closure' and len(params) == len(args) + 1:
                params = params[1:]
            try:
                for p, a in zip(params, args):
                    if p['p'] is not None:
                        self.bind(p['p'], a, st, f)
                v = self.ev(fn['body'], st, f)
                f.exits.append(('ret', None, st.copy(), v))
            except Dead:
                pass
            rets = [(s, v) for k, l, s, v in f.exits if k == 'ret']
            if not rets:
                raise Dead()
            s, v = self.merge_many(rets)
            st.become(s)
            # drop the callee's cells
            n = len(fid)
            for c in [c for c in st.store if isinstance(c, tuple) and c[0] == fid]:
                if not self.escapes(v, c):
                    del st.store[c]
            return v
        finally:
            self.stack.pop()

    def escapes(self, v, c):
        return True

    def merge_many(self, lst):
        """merge [(state, value)]"""
        s, v = lst[0]
        for s2, v2 in lst[1:]:
            s, v = self.merge2(s, v, s2, v2)
        return s, v

    def merge2(self, a, va, b, vb):
        pa, pb = a.path, b.path
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        ra, rb = pa[n:], pb[n:]
        ca = self.discr(ra, rb)
        path = pa[:n]
        if ra and rb:
            o = Or(And(*ra), And(*rb))
            if o is not TRUE:
                path = path + (o,)
        store = {}
        for k in a.store:
            if k in b.store:
                x, y = a.store[k], b.store[k]
                store[k] = x if x is y else merge(ca, x, y)
            else:
                store[k] = a.store[k]
        for k in b.store:
            if k not in a.store:
                store[k] = b.store[k]
        kb = set(b.know)
        know = tuple(x for x in a.know if x in kb)
        v = merge(ca, va, vb)
        return State(store, path, know), v

    def discr(self, ra, rb):
        if ra and rb:
            for x in ra:
                for y in rb:
                    if x is Not(y):
                        return x
            nb = [Not(y) for y in rb]
            if len(rb) == 1 and len(ra) >= 1:
                # b-side is a single condition: its negation discriminates
                return Not(rb[0])
        if ra:
            return And(*ra)
        if rb:
            return Not(And(*rb))
        return TRUE

    # ------------------------------------------------------------ branching
    def fork(self, st, cond, then, els, node=None):
        """evaluate then()/els() under cond; merge"""
        f = self.facts(st)
        d = True if cond is TRUE else False if cond is FALSE else f.decide(cond)
        if d is True:
            return then(st)
        if d is False:
            return els(st)
        a = st.copy()
        b = st.copy()
        a.assume(cond)
        b.assume(Not(cond))
        va = vb = None
        da = db = False
        try:
            va = then(a)
        except Dead:
            da = True
        try:
            vb = els(b)
        except Dead:
            db = True
        if da and db:
            raise Dead()
        if da:
            st.become(b)
            return vb
        if db:
            st.become(a)
            return va
        m, v = self.merge2(a, va, b, vb)
        st.become(m)
        return v

    # ------------------------------------------------------------ patterns
    def cellof(self, fr, var):
        return (fr.fid, var)

    def bind(self, p, v, st, fr):
        """irrefutable binding of value v"""
        k = p['k']
        if k == 'wild':
            return
        if k == 'bind':
            c = self.cellof(fr, p['var'])
            st.store[c] = v
            self.cellkind[c] = self.tyk(p['ty'], fr)
            if p['sub']:
                self.bind(p['sub'], v, st, fr)
            return
        if k == 'deref':
            self.bind(p['sub'], self.deref(v, st), st, fr)
            return
        if k == 'leaf':
            for n, q in p['sub']:
                self.bind(q, self.getf(v, n, p, st), st, fr)
            return
        if k == 'variant':
            for n, q in p['sub']:
                self.bind(q, self.rproj(st, v, (('v', p['v'], str(n)),)), st, fr)
            return
        if k == 'slice':
            for n, q in enumerate(p['pre']):
                if isinstance(v, Arr):
                    self.bind(q, self.aread(v, P(n), self.facts(st)), st, fr)
            return
        self.note_unsupported('pattern ' + k)

    def getf(self, v, n, p, st):
        if isinstance(v, St):
            if str(n) in v.f:
                return v.f[str(n)]
            t = self.cr.types[p['ty']]
            s = self.cr.structs.get(t.get('n'))
            if s:
                return v.f.get(s['f'][n]['n'], Opq('field'))
        if isinstance(v, VIte):
            return merge(v.c, self.getf(v.a, n, p, st), self.getf(v.b, n, p, st))
        return Opq('field')

    def deref(self, v, st, node=None):
        if isinstance(v, Ref):
            return self.rplace(st, v, node)
        if isinstance(v, VIte):
            return merge(v.c, self.deref(v.a, st, node), self.deref(v.b, st, node))
        return v

    def pat_test(self, p, v, st, fr, ref=None):
        """(cond, [(var, value)]) for a refutable pattern against value v; ref: place of v if known"""
        k = p['k']
        if k == 'wild':
            return TRUE, []
        if k == 'bind':
            val = v
            if p['ref']:
                if ref is None:
                    ref = self.temp(st, v, fr, p['var'])
                val = ref
            c, b = TRUE, []
            if p['sub']:
                c, b = self.pat_test(p['sub'], v, st, fr, ref)
            return c, b + [(p['var'], val)]
        if k == 'deref':
            r = v if isinstance(v, Ref) else None
            return self.pat_test(p['sub'], self.deref(v, st), st, fr, r)
        if k == 'leaf':
            c = TRUE
            b = []
            for n, q in p['sub']:
                fname = str(n)
                if isinstance(v, St) and fname not in v.f:
                    t = self.cr.types[p['ty']]
                    s = self.cr.structs.get(t.get('n'))
                    if s:
                        fname = s['f'][n]['n']
                r2 = Ref(ref.cell, ref.proj + (('f', fname),), ref.mut) if ref is not None else None
                c2, b2 = self.pat_test(q, self.getf(v, n, p, st), st, fr, r2)
                c = And(c, c2)
                b += b2
            return c, b
        if k == 'variant':
            if isinstance(v, VIte):
                return batom(atom('unkpat', p['v'])), []
            if not isinstance(v, En):
                a = batom(unk('pattern %s on %s' % (p['v'], getattr(v, 'why', type(v).__name__))).single_atom())
                bs = []
                for n, q in p['sub']:
                    c2, b2 = self.pat_test(q, Opq('payload of opaque'), st, fr)
                    bs += b2
                return a, bs
            c = FALSE
            b = []
            for g, vn, f in v.cases:
                if vn == p['v']:
                    cc = g
                    for n, q in p['sub']:
                        r2 = Ref(ref.cell, ref.proj + (('v', vn, str(n)),), ref.mut) if ref is not None else None
                        c2, b2 = self.pat_test(q, f.get(str(n), Opq('payload')), st, fr, r2)
                        cc = And(cc, c2)
                        b += b2
                    c = Or(c, cc)
            if c is FALSE and not b:
                for n, q in p['sub']:
                    c2, b2 = self.pat_test(q, Opq('payload of absent variant'), st, fr)
                    b += b2
            return c, b
        if k == 'const':
            t = self.cr.types[p['ty']]
            s = p['v']
            if isinstance(v, B):
                return (v if s == 'true' else Not(v)), []
            if isinstance(v, Poly):
                n = parse_num(s)
                if n is not None:
                    if self.tyk(p['ty'], fr) == 'T':
                        return teq(v, P(n)), []
                    return ieq(v, P(n)), []
            return batom(unk('constant pattern ' + s).single_atom()), []
        if k == 'or':
            c = FALSE
            b = []
            for q in p['sub']:
                c2, b2 = self.pat_test(q, v, st, fr, ref)
                c = Or(c, c2)
                b += b2
            return c, b
        if k == 'range' and isinstance(v, Poly):
            s = p['v']
            incl = '..=' in s
            a, z = s.split('..=' if incl else '..')
            a = parse_num(a) if a else None
            z = parse_num(z) if z else None
            c = TRUE
            if a is not None:
                c = And(c, le(P(a), v))
            if z is not None:
                c = And(c, le(v, P(z)) if incl else lt(v, P(z)))
            return c, []
        self.note_unsupported('pattern ' + k)
        return batom(unk('pattern ' + k).single_atom()), []

    def temp(self, st, v, fr, tag):
        c = (fr.fid, '$tmp', tag)
        st.store[c] = v
        return Ref(c, (), True)

    # ------------------------------------------------------------ places
    def place(self, e, st, fr):
        """evaluate a place expression to a Ref"""
        k = e['k']
        if k == 'scope':
            return self.place(e['e'], st, fr)
        if k == 'var':
            return Ref(self.cellof(fr, e['v']), ())
        if k == 'upvar':
            r = self.upvar(e['v'], fr)
            if isinstance(r, Ref) and r.cell is not None:
                return r
            return self.temp(st, r, fr, e['_id'])
        if k == 'field':
            r = self.place(e['e'], st, fr)
            return self.addproj(r, ('f', e['n']))
        if k == 'deref':
            v = self.ev(e['e'], st, fr)
            if isinstance(v, (Ref, VIte)):
                return v
            return self.temp(st, v, fr, e['_id'])
        if k == 'index':
            r = self.place(e['e' if 'l' not in e else 'l'], st, fr)
            i = self.ev(e['i'], st, fr)
            return self.index_place(r, i, st, fr, e)
        if k == 'call':
            v = self.ev(e, st, fr)
            return self.temp(st, v, fr, e['_id'])
        v = self.ev(e, st, fr)
        return self.temp(st, v, fr, e['_id'])

    def addproj(self, r, p):
        if isinstance(r, VIte):
            return VIte(r.c, self.addproj(r.a, p), self.addproj(r.b, p))
        if isinstance(r, Ref):
            # collapse nested slices
            if r.proj and r.proj[-1][0] == 'sub' and p[0] in ('i', 'sub'):
                lo = r.proj[-1][1]
                q = ('i', lo + p[1]) if p[0] == 'i' else ('sub', lo + p[1], p[2])
                return Ref(r.cell, r.proj[:-1] + (q,), r.mut)
            return Ref(r.cell, r.proj + (p,), r.mut)
        return r

    def upvar(self, var, fr):
        f = fr
        while f is not None:
            if var in f.upvars:
                return f.upvars[var]
            f = f.parent
        return Opq('upvar')

    def rd(self, r, st, node=None):
        if isinstance(r, VIte):
            return merge(r.c, self.rd(r.a, st, node), self.rd(r.b, st, node))
        return self.rplace(st, r, node)

    def wr(self, r, val, st, node=None):
        if isinstance(r, VIte):
            old = self.rd(r.a, st)
            self.wr(r.a, merge(r.c, val, old), st)
            old = self.rd(r.b, st)
            self.wr(r.b, merge(Not(r.c), val, old), st)
            return
        self.wplace(st, r, val, node)

    def length(self, v):
        if isinstance(v, Arr):
            return v.ln
        if isinstance(v, VIte):
            return pite(v.c, self.length(v.a), self.length(v.b))
        return unk('length of opaque', )

    def arr_of(self, r, st):
        """the array value a reference designates (auto-deref)"""
        v = r
        for _ in range(6):
            if isinstance(v, Ref):
                v = self.rplace(st, v)
            else:
                break
        return v

    def ref_to_arr(self, r, st):
        """follow references until the place holding the array itself"""
        for _ in range(6):
            if isinstance(r, Ref):
                v = self.rplace(st, r)
                if isinstance(v, Ref):
                    r = v
                    continue
            break
        return r

    def index_place(self, r, i, st, fr, node):
        r = self.ref_to_arr(r, st)
        v = self.rd(r, st) if isinstance(r, (Ref, VIte)) else r
        if isinstance(i, Poly):
            if isinstance(v, (Arr, VIte)):
                ln = self.length(v)
                self.event('bounds', node, And(ge0(i), ge0(ln - 1 - i)), st, 'index %s in len %s' % (i, ln))
                f = self.facts(st)
                g = ge0(ln - 1 - i)
                if not f.prove(g, 1):
                    st.learn(g)
            return self.addproj(r, ('i', i))
        if isinstance(i, St) and i.n.startswith('range'):
            ln = self.length(v) if isinstance(v, (Arr, VIte)) else unk('len')
            lo = i.f.get('start', ZERO)
            hi = i.f.get('end')
            if hi is None:
                hi = ln
            elif i.n == 'rangeincl':
                hi = hi + 1
            self.event('bounds', node, And(ge0(hi - lo), ge0(ln - hi), ge0(lo)), st, 'slice %s..%s of len %s' % (lo, hi, ln))
            return self.addproj(r, ('sub', lo, hi - lo))
        self.note_unsupported('index by %r' % (i,), node)
        return Ref(('opaque',), ())

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        return getattr(self, 'e_' + e['k'], self.e_unk)(e, st, fr)

    def e_unk(self, e, st, fr):
        return Opq(self.note_unsupported('expression ' + e['k'], e))

    def e_scope(self, e, st, fr):
        inner = e['e']
        labels = [e['id']]
        while inner['k'] == 'scope':
            labels.append(inner['id'])
            inner = inner['e']
        if inner['k'] == 'loop':
            return self.do_loop(inner, st, fr, labels)
        return self.ev(inner, st, fr)

    def e_loop(self, e, st, fr):
        return self.do_loop(e, st, fr, [])

    def e_blk(self, e, st, fr):
        return self.block(e['b'], st, fr)

    def block(self, b, st, fr):
        lab = b['label']
        if lab is None:
            return self.block2(b, st, fr)
        saved = fr.exits
        fr.exits = []
        v = None
        dead = False
        try:
            v = self.block2(b, st, fr)
        except Dead:
            dead = True
        mine = [(s, x) for k, l, s, x in fr.exits if k == 'brk' and l == lab]
        saved.extend(x for x in fr.exits if not (x[0] == 'brk' and x[1] == lab))
        fr.exits = saved
        if not dead:
            mine.append((st.copy(), v))
        if not mine:
            raise Dead()
        s, v = self.merge_many(mine)
        st.become(s)
        return v

    def block2(self, b, st, fr):
        for s in b['st']:
            if s['k'] == 'expr':
                self.ev(s['e'], st, fr)
            else:
                if s['i'] is None:
                    self.declare(s['p'], st, fr)
                    continue
                if s['else'] is not None:
                    v = self.ev(s['i'], st, fr)
                    c, bs = self.pat_test(s['p'], v, st, fr)

                    def thn(x, bs=bs):
                        for var, val in bs:
                            x.store[self.cellof(fr, var)] = val
                        return UNIT

                    def els(x, s=s):
                        self.block(s['else'], x, fr)
                        raise Dead()
                    self.fork(st, c, thn, els)
                    continue
                if s['p']['k'] == 'bind' and s['p']['ref']:
                    r = self.place(s['i'], st, fr)
                    st.store[self.cellof(fr, s['p']['var'])] = r
                    continue
                v = self.ev(s['i'], st, fr)
                if s['p']['k'] == 'bind':
                    v = self.retag(v, s['p']['ty'], fr)
                self.bind(s['p'], v, st, fr)
        if b['e'] is not None:
            return self.ev(b['e'], st, fr)
        return UNIT

    def retag(self, v, ti, fr):
        return v

    def declare(self, p, st, fr):
        if p['k'] == 'bind':
            st.store[self.cellof(fr, p['var'])] = Opq('unassigned')
            self.cellkind[self.cellof(fr, p['var'])] = self.tyk(p['ty'], fr)
        elif p['k'] == 'leaf':
            for n, q in p['sub']:
                self.declare(q, st, fr)

    def e_var(self, e, st, fr):
        v = st.store.get(self.cellof(fr, e['v']))
        if v is None:
            return Opq(self.note_unsupported('unbound variable', e))
        return v

    def e_upvar(self, e, st, fr):
        r = self.upvar(e['v'], fr)
        return self.rd(r, st, e) if isinstance(r, (Ref,)) else r

    def e_deref(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        return self.deref(v, st, e)

    def e_field(self, e, st, fr):
        r = self.place(e, st, fr)
        return self.rd(r, st, e)

    def e_index(self, e, st, fr):
        r = self.place(e, st, fr)
        return self.rd(r, st, e)

    def e_borrow(self, e, st, fr):
        r = self.place(e['e'], st, fr)
        if isinstance(r, Ref):
            return Ref(r.cell, r.proj, e['mut'])
        return r

    e_rawborrow = e_borrow

    def e_coerce(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_never(self, e, st, fr):
        self.ev(e['e'], st, fr)
        raise Dead()

    def e_cast(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        src = self.tyk(self.ety(e['e']), fr)
        dst = self.tyk(e['ty'], fr)
        if isinstance(v, B) and dst in ('nat', 'int'):
            return pite(v, ONE, ZERO)
        if isinstance(v, Poly):
            if src in ('nat', 'int') and dst in ('nat', 'int'):
                w = WIDTH.get(self.cr.types[e['ty']].get('t'))
                if w is not None and not (WIDTH.get(self.cr.types[self.ety(e['e'])].get('t')) or 99) <= w and v.const() is None:
                    f = self.facts(st)
                    if dst == 'nat':
                        return v if f.prove(ge0(P(2 ** w - 1) - v), 1) and f.prove(ge0(v), 1) else self.imod(v, P(2 ** w), st)
                    if not (f.prove(ge0(P(2 ** (w - 1) - 1) - v), 1) and f.prove(ge0(v + 2 ** (w - 1)), 1)):
                        return self.imod(v + 2 ** (w - 1), P(2 ** w), st) - 2 ** (w - 1)
                    return v
            if src == 'int' and dst == 'nat':
                self.event('castneg', e, ge0(v), st, 'cast of %s to usize' % v)
                g = ge0(v)
                return v
            if src in ('nat', 'int') and dst == 'T':
                return i2t(v)
            if src == 'T' and dst in ('nat', 'int'):
                return P(atom('t2i', v))
        return v

    def ety(self, e):
        return e['ty']

    def e_lit(self, e, st, fr):
        lk = e['lk']
        if lk in ('int', 'float'):
            n = parse_num(e['v'])
            if e['neg']:
                n = -n
            return P(n)
        if lk == 'bool':
            return TRUE if e['v'] == 'true' else FALSE
        if lk in ('str', 'char'):
            return Lit(e['v'])
        return Opq('literal')

    def e_zst(self, e, st, fr):
        return FnV(e['c'])

    def e_const(self, e, st, fr):
        k = self.tyk(e['ty'], fr)
        if e['p'].endswith('usize::MAX') or e['p'].endswith('u64::MAX'):
            return psym('usize::MAX', 'dim')
        f = self.cr.fns.get(e['key'])
        if f is not None:
            return self.call_fn(f, [], st, e, fr=fr)
        name = ('const', normpath(e['p']))
        if k == 'bool':
            return batom(sym(name, 'bool'))
        if k:
            return P(sym(name, k))
        return Opq('const ' + e['p'])

    def e_static(self, e, st, fr):
        return Opq('static ' + e['p'])

    def e_tuple(self, e, st, fr):
        return St('()', {str(n): self.ev(x, st, fr) for n, x in enumerate(e['a'])}) if e['a'] else UNIT

    def e_array(self, e, st, fr):
        vs = tuple(self.ev(x, st, fr) for x in e['a'])
        return Arr(P(len(vs)), ('lst', vs), (), self.elk(e['ty'], fr))

    def e_repeat(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        n = P(e['n']) if e['n'] is not None else unk('repeat count')
        return Arr(n, ('const', v), (), self.elk(e['ty'], fr))

    def elk(self, ti, fr):
        """element kind of a Vec/slice/array type"""
        t = self.reslv(ti, fr)
        while t['k'] == 'ref':
            t = self.reslv(t['e'], fr)
        if t['k'] in ('array', 'slice'):
            return self.tyk(t['e'], fr) or 'other'
        if t['k'] == 'adt' and t['a']:
            return self.tyk(t['a'][0], fr) or 'other'
        return 'other'

    def e_adt(self, e, st, fr):
        fs = {}
        for n, x in e['f']:
            fs[n] = self.ev(x, st, fr)
        name = e['n']
        if name in ('std::ops::Range', 'core::ops::Range'):
            return St('range', {'start': fs['start'], 'end': fs['end']})
        if name.endswith('ops::RangeFrom'):
            return St('range', {'start': fs['start']})
        if name.endswith('ops::RangeTo'):
            return St('range', {'start': ZERO, 'end': fs['end']})
        if name.endswith('ops::RangeFull'):
            return St('range', {'start': ZERO})
        if name.endswith('ops::RangeToInclusive'):
            return St('rangeincl', {'start': ZERO, 'end': fs['end']})
        if e['enum']:
            return En(name, [(TRUE, e['v'], fs)])
        if e['base']:
            b = self.ev(e['base'], st, fr)
            if isinstance(b, St):
                d = dict(b.f)
                d.update(fs)
                fs = d
        return St(name, fs)

    def e_closure(self, e, st, fr):
        ups = []
        names = []
        for u in e['up']:
            ups.append(self.ev(u, st, fr))
            names.append(upname(u))
        c = Clo(e['key'], ups, None)
        c.env = (names, fr)
        return c

    def call_clo(self, c, args, st, node):
        fn = self.cr.fns.get(c.key)
        if fn is None:
            return Opq('closure body missing')
        names, fr = c.env
        up = {}
        for n, v in zip(names, c.up):
            up[n] = v
        key = ('clo', node.get('_id') if node else None)
        # upvars: by-ref captures are Refs to cells, by-value captures are values
        f_up = {}
        for n, v in up.items():
            f_up[n] = v
        return self.call_fn(fn, args, st, node, upvals=f_up, fr=fr)

    def apply(self, fv, args, st, node, ret_ti=None, fr=None):
        fv2 = fv
        for _ in range(4):
            if isinstance(fv2, Ref):
                fv2 = self.rplace(st, fv2)
        if isinstance(fv2, Clo):
            return self.call_clo(fv2, args, st, node)
        if isinstance(fv2, FnV):
            return self.do_call(fv2.c, args, st, node, fr, ret_ti)
        if isinstance(fv2, FnParam):
            keys = []
            for a in args[-1:] if fv2.last else args:
                keys.append(self.appkey(a, st))
            a = atom('app', sym(fv2.name, 'fn'), tuple(keys))
            return batom(a) if fv2.ret == 'bool' else P(a)
        return Opq(self.note_unsupported('call of unknown function value', node))

    def appkey(self, a, st):
        for _ in range(4):
            if isinstance(a, Ref):
                a = self.rplace(st, a)
            else:
                break
        if isinstance(a, (Poly, B)):
            return a
        if isinstance(a, St) and '$name' in a.f:
            return a.f['$name']
        if isinstance(a, St) and a.n == '()':
            return tuple(self.appkey(x, st) for x in a.f.values())
        if isinstance(a, St):
            return tuple([a.n] + [self.appkey(x, st) for x in a.f.values()])
        if isinstance(a, Arr):
            if a.base[0] == 'sym' and not a.layers:
                return a.base[1]
            return unk('array argument')
        return 'opaque'

    # ------------------------------------------------------------ operators
    def e_bin(self, e, st, fr):
        l = self.ev(e['l'], st, fr)
        r = self.ev(e['r'], st, fr)
        return self.binop(e['op'], l, r, e, st, fr, self.ety(e['l']))

    def binop(self, op, l, r, e, st, fr, lty):
        k = self.tyk(lty, fr)
        if isinstance(l, B) and isinstance(r, B):
            if op == 'Eq':
                return Iff(l, r)
            if op == 'Ne' or op == 'BitXor':
                return Not(Iff(l, r))
            if op in ('BitAnd',):
                return And(l, r)
            if op in ('BitOr',):
                return Or(l, r)
        if isinstance(l, Poly) and isinstance(r, Poly):
            if k in ('nat', 'int'):
                if op == 'Add':
                    return l + r
                if op == 'Sub':
                    d = l - r
                    if k == 'nat':
                        self.event('sub', e, ge0(d), st, '%s - %s' % (l, r))
                        if not self.facts(st).prove(ge0(d), 1):
                            st.learn(ge0(d))
                    return d
                if op == 'Mul':
                    return l * r
                if op == 'Div':
                    self.event('div0', e, ine(r, ZERO), st, '%s / %s' % (l, r))
                    return self.idiv(l, r, st)
                if op == 'Rem':
                    self.event('div0', e, ine(r, ZERO), st, '%s %% %s' % (l, r))
                    return self.imod(l, r, st)
                if op == 'BitAnd' and k == 'nat':
                    for x, y in ((l, r), (r, l)):
                        c = y.const()
                        if c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
                            return self.imod(x, P(c + 1), st)
                if op == 'Shl' and r.const() is not None:
                    return l * (2 ** r.const())
                if op == 'Shr' and r.const() is not None:
                    return self.idiv(l, P(2 ** r.const()), st)
                if op == 'Eq':
                    return ieq(l, r)
                if op == 'Ne':
                    return ine(l, r)
                if op == 'Lt':
                    return lt(l, r)
                if op == 'Le':
                    return le(l, r)
                if op == 'Gt':
                    return lt(r, l)
                if op == 'Ge':
                    return le(r, l)
            elif k == 'T':
                return self.tbin(op, l, r, e, st)
        self.note_unsupported('operator %s' % op, e)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return batom(unk('op ' + op).single_atom())
        return unk('op ' + op)

    def tbin(self, op, l, r, e, st):
        if op == 'Add':
            return l + r
        if op == 'Sub':
            return l - r
        if op == 'Mul':
            return l * r
        if op == 'Div':
            self.event('tdiv', e, Not(teq(r, ZERO)), st, '%s / %s' % (l, r))
            return l * inv(r)
        if op == 'Rem':
            return P(atom('tmod', l, r))
        if op == 'Eq':
            return teq(l, r)
        if op == 'Ne':
            return Not(teq(l, r))
        if op == 'Lt':
            return tlt(l, r)
        if op == 'Le':
            return tle(l, r)
        if op == 'Gt':
            return tlt(r, l)
        if op == 'Ge':
            return tle(r, l)
        return unk('op ' + op)

    def idiv(self, l, r, st):
        c, d = l.const(), r.const()
        if d == 1:
            return l
        q = exact_div(l, r)
        if q is not None:
            return q
        if c is not None and d:
            return P(c // d)
        f = self.facts(st)
        if l.single_atom() is not None and l.single_atom().k == 'ite':
            a = l.single_atom()
            return pite(a.a[0], self.idiv(a.a[1], r, st), self.idiv(a.a[2], r, st))
        if r.single_atom() is not None and r.single_atom().k == 'ite':
            a = r.single_atom()
            return pite(a.a[0], self.idiv(l, a.a[1], st), self.idiv(l, a.a[2], st))
        dr = divide_range(l, r, f)
        if dr is not None:
            return dr[0]
        # equal lengths known by an equality fact: len == a*b
        for q2 in f.lits:
            if q2.k == 'eq':
                p = q2.a[0]
                for s in (1, -1):
                    x = exact_div(l + p * s, r)
                    if x is not None:
                        return x
        return P(atom('div', l, r))

    def imod(self, l, r, st):
        c, d = l.const(), r.const()
        if c is not None and d:
            return P(c % d)
        if exact_div(l, r) is not None:
            return ZERO
        dr = divide_range(l, r, self.facts(st))
        if dr is not None:
            return dr[1]
        return P(atom('mod', l, r))

    def e_un(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        if e['op'] == 'Not':
            if isinstance(v, B):
                return Not(v)
        elif e['op'] == 'Neg' and isinstance(v, Poly):
            return -v
        self.note_unsupported('unary ' + e['op'], e)
        return batom(unk('unary').single_atom()) if e['op'] == 'Not' else unk('unary')

    def asB(self, v, node):
        if isinstance(v, B):
            return v
        return batom(unk(self.note_unsupported('boolean value %r' % (v,), node)).single_atom())

    def e_logic(self, e, st, fr):
        l = self.asB(self.ev(e['l'], st, fr), e)
        if e['op'] == 'And':
            return self.fork(st, l, lambda s: self.asB(self.ev(e['r'], s, fr), e), lambda s: FALSE)
        return self.fork(st, l, lambda s: TRUE, lambda s: self.asB(self.ev(e['r'], s, fr), e))

    def cond(self, e, st, fr):
        """evaluate a condition that may contain `let` patterns: (B, bindings)"""
        x = e
        while x['k'] == 'scope':
            x = x['e']
        if x['k'] == 'letc':
            v, ref = self.scrut(x['e'], st, fr)
            return self.pat_test(x['p'], v, st, fr, ref)
        if x['k'] == 'logic' and x['op'] == 'And' and has_letc(x):
            c1, b1 = self.cond(x['l'], st, fr)
            s2 = st.copy()
            s2.assume(c1)
            for var, val in b1:
                s2.store[self.cellof(fr, var)] = val
            c2, b2 = self.cond(x['r'], s2, fr)
            for k, v in s2.store.items():
                if k not in st.store:
                    st.store[k] = v
            return And(c1, c2), b1 + b2
        return self.asB(self.ev(e, st, fr), e), []

    def scrut(self, e, st, fr):
        x = e
        while x['k'] == 'scope':
            x = x['e']
        if x['k'] in ('var', 'field', 'deref', 'index', 'upvar'):
            r = self.place(x, st, fr)
            if isinstance(r, Ref):
                return self.rd(r, st, x), r
            return self.rd(r, st, x), None
        return self.ev(e, st, fr), None

    def e_letc(self, e, st, fr):
        c, b = self.cond(e, st, fr)
        for var, val in b:
            st.store[self.cellof(fr, var)] = val
        return c

    def e_if(self, e, st, fr):
        c, bs = self.cond(e['c'], st, fr)

        def thn(s):
            for var, val in bs:
                s.store[self.cellof(fr, var)] = val
            return self.ev(e['t'], s, fr)

        def els(s):
            if e['e'] is None:
                return UNIT
            return self.ev(e['e'], s, fr)
        return self.fork(st, c, thn, els, e)

    def e_match(self, e, st, fr):
        fl = self.as_for(e)
        if fl is not None:
            return self.do_for(e, fl, st, fr)
        v, ref = self.scrut(e['e'], st, fr)
        if ref is None and self.needs_ref(e):
            ref = self.temp(st, v, fr, e['_id'])
        arms = e['arms']

        def go(n):
            def f(s):
                if n >= len(arms):
                    raise Dead()
                a = arms[n]
                c, bs = self.pat_test(a['p'], v, s, fr, ref)
                last = n == len(arms) - 1

                def body(s2):
                    for var, val in bs:
                        s2.store[self.cellof(fr, var)] = val
                    if a['g'] is not None:
                        g, gb = self.cond(a['g'], s2, fr)

                        def t2(s3):
                            for var, val in gb:
                                s3.store[self.cellof(fr, var)] = val
                            return self.ev(a['b'], s3, fr)
                        return self.fork(s2, g, t2, go(n + 1))
                    return self.ev(a['b'], s2, fr)
                if last and a['g'] is None:
                    # exhaustive match
                    return body(s)
                return self.fork(s, c, body, go(n + 1))
            return f
        return go(0)(st)

    def needs_ref(self, e):
        def go(p):
            if p is None:
                return False
            if p['k'] == 'bind' and p['ref']:
                return True
            s = p.get('sub')
            if isinstance(s, dict):
                return go(s)
            if isinstance(s, list):
                return any(go(x[1] if isinstance(x, list) else x) for x in s)
            return False
        return any(go(a['p']) for a in e['arms'])

    def e_assign(self, e, st, fr):
        v = self.ev(e['r'], st, fr)
        r = self.place(e['l'], st, fr)
        self.dirty_store(v, st, e)
        self.wr(r, v, st, e)
        return UNIT

    def dirty_store(self, v, st, e):
        pass

    def e_assignop(self, e, st, fr):
        r = self.ev(e['r'], st, fr)
        pl = self.place(e['l'], st, fr)
        l = self.rd(pl, st, e)
        op = e['op'].replace('Assign', '')
        r = self.deref(r, st) if isinstance(r, Ref) else r
        v = self.binop(op, l, r, e, st, fr, e['l']['ty'])
        self.wr(pl, v, st, e)
        return UNIT

    def e_return(self, e, st, fr):
        v = self.ev(e['v'], st, fr) if e['v'] is not None else UNIT
        fr.exits.append(('ret', None, st.copy(), v))
        raise Dead()

    def e_break(self, e, st, fr):
        v = self.ev(e['v'], st, fr) if e['v'] is not None else UNIT
        fr.exits.append(('brk', e['label'], st.copy(), v))
        raise Dead()

    def e_continue(self, e, st, fr):
        fr.exits.append(('cont', e['label'], st.copy(), UNIT))
        raise Dead()

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        from . import models
        c = e['c']
        if c is None:
            f = self.ev(e['f'], st, fr)
            args = [self.ev(a, st, fr) for a in e['a']]
            return self.apply(f, args, st, e, e['ty'], fr)
        if c['dk'].startswith('Ctor'):
            args = [self.ev(a, st, fr) for a in e['a']]
            t = self.cr.types[e['ty']]
            vn = c['p'].split('::')[-1]
            if t['k'] == 'adt' and t['enum']:
                return En(t['n'], [(TRUE, vn, {str(n): a for n, a in enumerate(args)})])
            return St(t.get('n', '?'), {str(n): a for n, a in enumerate(args)})
        args = [self.ev(a, st, fr) for a in e['a']]
        return self.do_call(c, args, st, e, fr, e['ty'])

    def do_call(self, c, args, st, node, fr, ret_ti=None):
        from . import models
        rk = c.get('rk') or c['k']
        fn = self.cr.fns.get(rk)
        if fn is not None and fn['dk'] == 'Closure' and args:
            # a call of a local closure
            v = args[0]
            for _ in range(4):
                if isinstance(v, Ref):
                    v = self.rplace(st, v)
            if isinstance(v, Clo) and len(args) == 2:
                t = args[1]
                return self.call_clo(v, list(t.f.values()) if isinstance(t, St) else [t], st, node)
        if fn is not None:
            ta = c.get('ra') if c.get('rk') else c.get('a')
            return self.call_fn(fn, args, st, node, tyargs=ta, fr=fr)
        h = self.callhook.get(c['k'])
        if h:
            return h(self, args, st, node)
        return models.call(self, c, args, st, node, fr, ret_ti)

    # ------------------------------------------------------------ loops
    def as_for(self, e):
        """recognise the desugared for loop: (iterable expr, pattern, body, labels)"""
        if not e.get('src', '').startswith('ForLoopDesugar') or len(e['arms']) != 1:
            return None
        it = e['e']
        while it['k'] == 'scope':
            it = it['e']
        if it['k'] != 'call' or not it['c'] or not it['c']['p'].endswith('IntoIterator::into_iter'):
            return None
        lp = e['arms'][0]['b']
        labels = []
        while lp['k'] == 'scope':
            labels.append(lp['id'])
            lp = lp['e']
        if lp['k'] != 'loop':
            return None
        b = lp['b']
        m = b
        while True:
            if m['k'] == 'scope':
                m = m['e']
            elif m['k'] == 'blk':
                bb = m['b']
                if bb['st'] and bb['e'] is None and len(bb['st']) == 1:
                    m = bb['st'][0]['e']
                elif not bb['st'] and bb['e'] is not None:
                    m = bb['e']
                else:
                    return None
            elif m['k'] == 'match':
                break
            else:
                return None
        some = None
        for a in m['arms']:
            if a['p']['k'] == 'variant' and a['p']['v'] == 'Some':
                some = a
        if some is None:
            return None
        pat = some['p']['sub'][0][1]
        return it, pat, some['b'], labels, lp

    def do_for(self, e, fl, st, fr):
        from . import models
        it, pat, body, labels, lp = fl
        src = self.ev(it['a'][0], st, fr)
        seq = models.to_iter(self, src, st, it, fr)
        if isinstance(seq, Opq):
            seq = It(P(atom('opqlen', lp['_id'])), lambda s, i: Opq('element of opaque iterator'))

        def run(s, i):
            if seq.cond is not None:
                c = seq.cond(s, i)

                def thn(s2):
                    self.bind(pat, seq.at(s2, i), s2, fr)
                    self.ev(body, s2, fr)
                    return UNIT
                self.fork(s, c, thn, lambda s2: UNIT)
                return
            self.bind(pat, seq.at(s, i), s, fr)
            self.ev(body, s, fr)
        from .loops import exec_loop
        roots = self.modroots(body, st, fr)
        exec_loop(self, st, fr, lp, seq.ln, run, labels, roots, kind='for')
        return UNIT

    def do_loop(self, e, st, fr, labels):
        from .loops import exec_loop
        roots = self.modroots(e['b'], st, fr)

        def run(s, i):
            self.ev(e['b'], s, fr)
        return exec_loop(self, st, fr, e, None, run, labels, roots, kind='loop')

    def modroots(self, body, st, fr):
        """cells that the loop body may modify (over-approximation from the syntax)"""
        cells = set()

        def follow(v, d=0):
            if isinstance(v, Ref) and d < 8:
                cells.add(v.cell)
                x = st.store.get(v.cell)
                follow(x, d + 1)
            elif isinstance(v, VIte):
                follow(v.a, d)
                follow(v.b, d)
            elif isinstance(v, Clo):
                for x in v.up:
                    follow(x, d)
            elif isinstance(v, St):
                for x in v.f.values():
                    follow(x, d)
            elif isinstance(v, It):
                for r in getattr(v, 'refs', ()) or ():
                    follow(r, d)

        def root(x):
            while True:
                k = x['k']
                if k in ('scope', 'field', 'deref', 'coerce', 'borrow'):
                    x = x['e']
                elif k == 'index':
                    x = x['l'] if 'l' in x else x['e']
                elif k == 'call' and x['a']:
                    x = x['a'][0]
                else:
                    return x

        def mark(x):
            r = root(x)
            if r['k'] == 'var':
                c = self.cellof(fr, r['v'])
                cells.add(c)
                follow(st.store.get(c))
            elif r['k'] == 'upvar':
                u = self.upvar(r['v'], fr)
                follow(u)

        def go(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('assign', 'assignop'):
                    mark(x['l'])
                elif k in ('borrow', 'rawborrow') and x.get('mut'):
                    mark(x['e'])
                elif k == 'var':
                    t = self.cr.types[x['ty']]
                    if t['k'] == 'ref' and t.get('mut'):
                        mark(x)
                    elif t['k'] == 'closure':
                        mark(x)
                        v = st.store.get(self.cellof(fr, x['v']))
                        follow(v)
                elif k == 'upvar':
                    t = self.cr.types[x['ty']]
                    if t['k'] == 'ref' and t.get('mut'):
                        mark(x)
                elif k == 'call':
                    # a by-value iterator or closure captured before the loop may own &mut borrows
                    pass
                elif k == 'closure':
                    for u in x['up']:
                        go(u)
                    return
                elif k == 'match' and x.get('src', '').startswith('ForLoopDesugar'):
                    pass
                for kk, v in x.items():
                    if isinstance(v, (dict, list)) and kk != 's':
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(body)
        return [c for c in cells if c in st.store]


def upname(u):
    x = u
    while x['k'] in ('scope', 'borrow', 'deref', 'rawborrow', 'field', 'coerce'):
        x = x['e']
    return x.get('v')


def has_letc(e):
    if e['k'] == 'letc':
        return True
    if e['k'] in ('scope',):
        return has_letc(e['e'])
    if e['k'] == 'logic':
        return has_letc(e['l']) or has_letc(e['r'])
    return False


def parse_num(s):
    import re
    s = s.strip().replace('_', '')
    m = re.match(r'^(-?[0-9.]+(?:[eE][-+]?[0-9]+)?)', s)
    if not m:
        return None
    t = m.group(1)
    f = Fraction(t) if not t.endswith('.') else Fraction(t[:-1])
    return int(f) if f.denominator == 1 else f


def clean_cond(v):
    """condition under which v does not involve an uninitialised element"""
    if isinstance(v, B):
        if v.k == 'batom':
            return FALSE if v.a[0].k == 'dirty' else TRUE
        if v.k in ('and', 'or'):
            return And(*[clean_cond(x) for x in v.a])
        return TRUE
    if isinstance(v, Poly):
        out = TRUE
        for a in v.atoms():
            out = And(out, clean_atom(a))
        return out
    return TRUE


def clean_atom(a):
    if a.k == 'dirty':
        return FALSE
    if a.k == 'ite':
        return bite(a.a[0], clean_cond(a.a[1]), clean_cond(a.a[2]))
    if a.k in ('sum', 'prod'):
        return TRUE
    out = TRUE
    for x in a.a:
        if isinstance(x, Poly) and a.k not in ('el', 'lread', 'fin', 'lst'):
            out = And(out, clean_cond(x))
    return out
