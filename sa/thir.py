"""Loads the THIR dump produced by the rustc driver."""
import json, re


MT, VT, VU = 'matrix::Matrix<T>', 'std::vec::Vec<T>', 'std::vec::Vec<usize>'
CANON = {
    'matrix::Matrix': [('no_rows', 'usize'), ('data', VT)],
    'decomp::lu::LUDecomposition': [('lu', MT), ('pospivsign', 'bool'), ('piv', VU)],
    'decomp::cholesky::CholeskyDecomposition': [('l', MT)],
    'decomp::qr::QRDecomposition': [('qr', MT), ('rdiag', VT)],
    'decomp::svd::SVD': [('u', MT), ('s', MT), ('v', MT)],
    'decomp::eigen::EigenDecomposition': [('n', 'usize'), ('d', VT), ('e', VT), ('v', MT)],
}


class Crate:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.fns = {f['key']: f for f in j['fns']}
        self.structs = {s['path']: s for s in j['structs']}
        self.impls = j['impls']
        self.statics = j['statics']
        self.foreign = j['foreign']
        self.errors = j['errors']
        self.name = j['crate']
        n = [0]
        for key, f in self.fns.items():
            self._ids(f, key)
        self.canon()
        self.bypath = {}
        for f in self.fns.values():
            self.bypath.setdefault(f['path'], f)

    def canon(self):
        """private field names are not part of any contract: name the fields of the known types by their types"""
        ren = {}
        for path, want in CANON.items():
            s = self.structs.get(path)
            if s is None:
                continue
            have = [f['n'] for f in s['f']]
            if sorted(have) == sorted(n for n, t in want):
                continue
            ts = [self.types[f['ty']].get('t') for f in s['f']]
            mp, left = {}, list(want)
            for n, t in zip(have, ts):
                c = [w for w in left if w[0] == n and w[1] == t]
                if c:
                    mp[n] = n
                    left.remove(c[0])
            for n, t in zip(have, ts):
                if n in mp:
                    continue
                c = [w for w in left if w[1] == t]
                if c:
                    mp[n] = c[0][0]
                    left.remove(c[0])
            if len(mp) == len(have) == len(want):
                ren[path] = mp
                for f in s['f']:
                    f['n'] = mp[f['n']]
        if not ren:
            return

        def go(x):
            if isinstance(x, dict):
                if x.get('k') == 'field' and 'e' in x:
                    t = self.types[x['e']['ty']]
                    mp = ren.get(t.get('n'))
                    if mp:
                        x['n'] = mp.get(x['n'], x['n'])
                elif x.get('k') == 'adt' and x.get('n') in ren:
                    mp = ren[x['n']]
                    x['f'] = [[mp.get(n, n), v] for n, v in x['f']]
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        for f in self.fns.values():
            go(f['body'])

    def _ids(self, f, key):
        st = [f['body']]
        n = 0
        # deterministic pre-order numbering
        def go(x):
            nonlocal n
            if isinstance(x, dict):
                if 'k' in x and ('ty' in x or x['k'] in ('block', 'let', 'expr')):
                    n += 1
                    x['_id'] = key + '#' + str(n)
                for k, v in x.items():
                    if k != 's' and k != 'c' or (k == 'c' and x.get('k') in ('if',)):
                        if isinstance(v, (dict, list)):
                            go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(f['body'])

    def ty(self, i):
        return self.types[i]


_strip = re.compile(r'::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>')


def normpath(p):
    """std::vec::Vec::<T, A>::len -> std::vec::Vec::len"""
    q = p
    while True:
        r = _strip.sub('', q)
        if r == q:
            break
        q = r
    return q


def span(n):
    s = n.get('s') or {}
    return '%s:%s' % (s.get('f'), s.get('l'))
