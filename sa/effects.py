"""Effects over the resolved call graph: what each exported function can do besides computing from its arguments.

Every call (and every function used as a value) is resolved by the type checker to a definition; calls inside the crate are
followed, calls into other crates are classified by the module that defines them, calls through a type parameter or a callback
belong to the caller."""
import re
from .thir import normpath, span
from .spec import Ob

# effects of definitions outside the crate, by the path of the definition; the first match decides.  None: no effect
EXTERNAL = [
    (r'rand(_core|_chacha)?::|getrandom::|fastrand::', 'draws random numbers'),
    (r'std::hash::random|.*RandomState|std::collections::hash', 'depends on a randomly seeded hash order'),
    (r'std::io::stdio::|std::io::_print|std::io::_eprint', 'uses the standard streams'),
    (r'std::fs::|std::os::|std::net::|std::process::', 'reaches the file system or another process'),
    (r'alloc::io::|std::io::', 'reads or writes a stream'),
    (r'std::env::', 'reads the environment'),
    (r'std::time::|core::time::.*now', 'reads the clock'),
    (r'std::thread::', 'uses threads or thread-local state'),
    (r'(std|core|alloc)::(sync::|cell::)?.*(once|Once|lazy|Lazy)', None),
    (r'(std|core|alloc)::sync::|core::cell::|std::cell::|alloc::rc::', 'uses shared mutable state'),
    (r'(core|std)::(intrinsics|ptr)::|core::mem::(transmute|maybe_uninit|manually_drop)|core::slice::raw|alloc::alloc::', 'works on raw memory'),
    (r'.*::(get_unchecked|get_unchecked_mut|from_raw_parts|from_raw_parts_mut|from_raw|into_raw|set_len|as_ptr|as_mut_ptr|assume_init|unwrap_unchecked)$', 'works on raw memory'),
    (r'std::path::', None),
    (r'(core|alloc)::', None),
    (r'std::(f32|f64|num|vec|string|collections::(btree|binary|linked|vec)|panicking::panic|panicking::begin_panic|rt::|macros)', None),
    (r'num(_traits|_complex|_integer|_rational|_bigint|_iter)?::', None),
]
ALLOW = {'matrix::Matrix::random': {'draws random numbers'},
         'matrix::Matrix::print': {'uses the standard streams'},
         'util::read_csv': {'reaches the file system or another process', 'reads or writes a stream'}}
RAW = 'works on raw memory'
SHARED = 'uses shared mutable state'
STATIC = 'static'


def calls(body):
    """(node, callee) of every call and every function value; statics; raw pointers"""
    out = []
    st = [body]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            k = x.get('k')
            if k in ('call', 'zst') and isinstance(x.get('c'), dict):
                out.append((x, 'call', x['c']))
            elif k == 'static':
                out.append((x, 'static', x['p']))
            elif k in ('rawborrow', 'asm'):
                out.append((x, 'raw', k))
            elif k == 'closure':
                out.append((x, 'closure', x['key']))
            for n, v in x.items():
                if isinstance(v, (dict, list)) and n not in ('s',) and not (n == 'c' and k in ('call', 'zst')):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
    return out


def external(c):
    """(known, effect or None) of a definition outside the crate"""
    for p in (c.get('rk'), c.get('k'), c.get('rp'), c.get('p')):
        if not p:
            continue
        p = normpath(p).lstrip('<')
        for rx, e in EXTERNAL:
            if re.match(rx, p):
                return True, e
    return False, None


class Graph:
    def __init__(self, cr):
        self.cr = cr
        self.pre = cr.name + '::'
        self.direct = {}
        self.succ = {}
        self.n = 0
        self.byname = {}
        for f in cr.fns.values():
            self.byname.setdefault(f.get('name'), []).append(f)
        for key, f in cr.fns.items():
            self.scan(key, f)

    def scan(self, key, f):
        eff, succ = [], []
        for node, kind, c in calls(f['body']):
            self.n += 1
            where = span(node)
            if kind == 'static':
                s = next((s for s in self.cr.statics if s['path'] == c), None)
                # an immutable static is a constant; with interior mutability it is reached through SHARED operations
                eff.append(('uses mutable static state' if s is None or 'mutability: Mut' in s['dk'] else STATIC, c, where))
            elif kind == 'raw':
                eff.append((RAW, 'a raw pointer', where))
            elif kind == 'closure':
                succ.append((c, where))
            else:
                k = c.get('rk') or c['k']
                if k.startswith(self.pre):
                    if k in self.cr.fns:
                        succ.append((k, where))
                    elif c.get('rk') is None and c.get('trait'):
                        # a method of a trait of the crate at a type parameter: any implementation in the crate
                        for g in self.byname.get(k.rsplit('::', 1)[-1], []):
                            if g.get('impl_trait') == c['trait']:
                                succ.append((g['key'], where))
                elif c.get('rk') is None and c.get('trait') and not self.named(c):
                    pass        # through a type parameter or a callback: the caller's
                else:
                    known, e = external(c)
                    name = normpath(c.get('rp') or c['p'])
                    if not known:
                        eff.append((None, name, where))
                    elif e:
                        eff.append((e, name, where))
        self.direct[key] = eff
        self.succ[key] = succ

    def named(self, c):
        """an unresolved trait method that has an effect whatever the type"""
        return external(c)[1] is not None

    def reach(self, key):
        """effects of the closure of key: {(effect, what): path}"""
        out, seen, todo = {}, {key}, [(key, ())]
        while todo:
            k, path = todo.pop(0)
            for e, what, where in self.direct.get(k, ()):
                out.setdefault((e, what), path + ((what, where),))
            for s, where in self.succ.get(k, ()):
                if s not in seen:
                    seen.add(s)
                    f = self.cr.fns.get(s)
                    todo.append((s, path + ((normpath(f['path']) if f else s, where),)))
        return out, seen


def show(path):
    return ' -> '.join('%s (%s)' % p for p in path)


def run(cr):
    """obligations: no exported function has an effect that its contract does not name"""
    g = Graph(cr)
    obs, infos = [], []
    for key, f in sorted(cr.fns.items()):
        if f.get('dk') == 'Closure' or '{closure' in key or f.get('exported') is False:
            continue
        name = normpath(f['path'])
        eff, seen = g.reach(key)
        allow = ALLOW.get(name, set())
        where = '%s:%s' % (f['span']['f'], f['span']['l'])
        bad = False
        for (e, what), path in sorted(eff.items(), key=str):
            if e is None:
                obs.append(Ob(name, 'effect', what, 'und', 'calls %s, whose effects are not known: %s' % (what, show(path)), where))
                bad = True
            elif e in (RAW, STATIC) or e == SHARED and not any(x[0] == STATIC for x in eff):
                continue        # raw memory: C01; constants; state that is local to the call
            elif e not in allow:
                obs.append(Ob(name, 'effect', e, 'viol', '%s %s: %s' % (name, e, show(path)), path[-1][1]))
                bad = True
        if not bad:
            obs.append(Ob(name, 'effect', 'only its declared effects', 'ok', '', where))
        infos.append(dict(fn=name, where=where, summary='%d functions reached; %s' % (len(seen), ', '.join(sorted({e for e, w in eff if e and e not in (RAW, STATIC)})) or 'no effect')))
    return obs, infos


MODELLED = ('set_len', 'get_unchecked')


def raw(cr):
    """obligations: memory is only reached past the type system by operations the storage analysis models"""
    g = Graph(cr)
    obs, infos = [], []
    n = 0
    for key, f in sorted(cr.fns.items()):
        name = normpath(f['path'])
        for e, what, where in g.direct[key]:
            if e == 'uses mutable static state':
                obs.append(Ob(name, 'raw', what, 'und', 'a mutable static is not analysed', where))
            if e != RAW:
                continue
            n += 1
            ok = what.rsplit('::', 1)[-1] in MODELLED
            obs.append(Ob(name, 'raw', what, 'ok' if ok else 'und', '' if ok else 'raw memory operation %s is not analysed' % what, where))
    infos.append(dict(fn='crate', where='', summary='%d functions searched, %d raw memory operations, each analysed at its callers' % (len(cr.fns), n)))
    return obs, infos
