"""Entry points: symbolic arguments, running one function of the analysed crate, collecting obligations."""
import os, sys, json, time
from .sym import *
from .facts import Facts, walk
from .vals import *
from .thir import Crate, normpath, span
from .interp import Interp, State, Dead, Budget


class Ent:
    """the result of analysing one function from symbolic arguments"""
    def __init__(self):
        self.st = None
        self.ret = None
        self.dead = False


def M(name, R=None, C=None, ek='T'):
    """a symbolic valid matrix (R, C >= 1, len = R*C)"""
    R = psym(name + '.R', 'nat') if R is None else R
    C_ = psym(name + '.C', 'nat') if C is None else C
    v = St('matrix::Matrix', {'no_rows': R, 'data': Arr(R * C_, ('sym', sym(name, ARRK[ek])), (), ek)})
    return v, [ge0(R - 1), ge0(C_ - 1)], R, C_


ARRK = {'T': 'Tarr', 'nat': 'natarr', 'bool': 'boolarr'}


def V(name, ln, ek='T'):
    return Arr(ln, ('sym', sym(name, ARRK[ek])), (), ek)


def el(name, i, C, j, ek='T'):
    return flat(name, i * C + j, ek)


def flat(name, k, ek='T'):
    a = atom('el', sym(name, ARRK[ek]), k)
    return batom(a) if ek == 'bool' else P(a)


class Run:
    def __init__(self, cr, assume=(), hooks=None):
        self.I = Interp(cr, assume, hooks)
        self.st = State()
        self.n = 0

    def byref(self, v, mut=False, name=None):
        self.n += 1
        c = ('arg', name or self.n)
        self.st.store[c] = v
        return Ref(c, (), mut)

    def call(self, fn, args):
        self.dead = False
        self.ret = None
        I = self.I
        try:
            self.ret = I.call_fn(fn, args, self.st, None, tyargs=None)
        except Dead:
            self.dead = True
        return self.ret

    def get(self, ref):
        return self.I.rplace(self.st, ref)

    def facts(self):
        return self.I.facts(self.st)


_CR = {}


def load(path):
    if path not in _CR:
        _CR[path] = Crate(path)
    return _CR[path]
