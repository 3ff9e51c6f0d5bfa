"""Helpers for writing specification graphs."""
from terms import *
from interp import L, LV, map1, map2, VEnum, VAgg

DEV = ('dev',)
DISK = ('disk', DEV)


def u(off, n, en='le', src=DISK):
    """n-byte unsigned integer at byte `off` of the medium"""
    return LV(load(src, off if isinstance(off, tuple) else const(off), n, en))


def eqc(x, c):
    return map_b(lambda l: eq(l, const(c)), x)


def map_b(f, *xs):
    return apply(lambda *v: f(*v), *xs)


def lec(x, c):
    return map_b(lambda l: le(l, const(c)), x)


def gec(x, c):
    return Not(lec(x, c - 1))


def le_(x, y):
    return map_b(le, x, y)


def lt_(x, y):
    return map_b(lt, x, y)


def eq_(x, y):
    return map_b(eq, x, y)


def add_(x, y):
    return map2(add, x, y)


def mul_(x, y):
    return map2(mul, x, y)


def div_(x, y):
    return map2(udiv, x, y)


def rem_(x, y):
    return apply(gurem, x, y)


def sub_(x, y):
    return map2(sub, x, y)


def C(n):
    return L(n)


def bit(x, i):
    return map_b(lambda l: Not(eq(trunc(shr(l, i), 1), const(0))), x)


def case(*alts):
    """((guard, value), ..., default)"""
    r = alts[-1]
    for g, v in reversed(alts[:-1]):
        r = ite(g, v, r)
    return r
