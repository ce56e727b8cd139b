"""Abstract values: hash-consed linear terms over atoms, and the facts (intervals
with excluded points, per linear key) that a path knows about them."""
from math import gcd

INF = None


class Atom:
    __slots__ = ('kind', 'a', 'id', 'lo', 'hi', 'deps', 'stype')

    def __repr__(self):
        if self.kind == 's':
            return '%s' % (self.a[0],) if isinstance(self.a[0], str) else 's%d' % self.id
        if self.kind in ('g', 'p'):
            return '%s' % (self.a[0],)
        if self.kind == 'o':
            return 'obj%d' % self.id
        return '%s%r' % (self.kind, self.a)

    @property
    def isbool(self):
        return self.lo == 0 and self.hi == 1


_atoms = {}
_lins = {}


def atom(kind, *a, lo=None, hi=None):
    k = (kind, lo, hi) + a
    x = _atoms.get(k)
    if x is None:
        x = Atom()
        x.kind = kind
        x.a = a
        x.id = len(_atoms)
        x.lo = lo
        x.hi = hi
        x.stype = None
        d = set()
        for y in a:
            if isinstance(y, Lin):
                d |= y.deps
        x.deps = frozenset(d) if d else frozenset((x,))
        _atoms[k] = x
    return x


class Lin:
    __slots__ = ('c', 'm', 'deps')

    def __repr__(self):
        if not self.m:
            return str(self.c)
        s = '+'.join(('%r' % a) if k == 1 else '%d*%r' % (k, a) for a, k in self.m)
        return s if self.c == 0 else '%s%+d' % (s, self.c)


def lin(c, m):
    k = (c, m)
    x = _lins.get(k)
    if x is None:
        x = Lin()
        x.c = c
        x.m = m
        if len(m) == 1:
            x.deps = m[0][0].deps
        elif m:
            d = set()
            for a, _ in m:
                d |= a.deps
            x.deps = frozenset(d)
        else:
            x.deps = frozenset()
        _lins[k] = x
    return x


def const(c):
    return lin(c, ())


ZERO = const(0)
ONE = const(1)


def of(a):
    return lin(0, ((a, 1),))


def add(x, y, k=1):
    """x + k*y"""
    if not y.m:
        return lin(x.c + k * y.c, x.m)
    if not x.m and k == 1:
        return lin(x.c + y.c, y.m)
    d = dict(x.m)
    for a, f in y.m:
        n = d.get(a, 0) + k * f
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return lin(x.c + k * y.c, tuple(sorted(d.items(), key=lambda z: z[0].id)))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return lin(x.c * k, tuple((a, f * k) for a, f in x.m))


def neg(x):
    return scale(x, -1)


def is_const(x):
    return not x.m


def rest(x):
    """the term without its constant"""
    return lin(0, x.m)


def norm(x):
    """x = g*K + c, with K's coefficients coprime and the first one positive"""
    g = 0
    for _, f in x.m:
        g = gcd(g, f)
    if x.m[0][1] < 0:
        g = -g
    if g == 1:
        return lin(0, x.m), 1, x.c
    return lin(0, tuple((a, f // g) for a, f in x.m)), g, x.c


def mk_eq(x):
    """the 0/1 term: x == 0"""
    if not x.m:
        return ONE if x.c == 0 else ZERO
    K, g, c = norm(x)
    if c % g:
        return ZERO
    # K == -c/g
    v = -c // g
    if len(K.m) == 1 and K.m[0][0].isbool:
        b = K
        if v == 1:
            return b
        if v == 0:
            return sub(ONE, b)
        return ZERO
    return of(atom('eq', lin(-v, K.m), lo=0, hi=1))


def mk_le(x):
    """the 0/1 term: x <= 0"""
    if not x.m:
        return ONE if x.c <= 0 else ZERO
    # canonical: leading coefficient positive, else negate:  x<=0  <=> not(-x <= -1)
    if x.m[0][1] < 0:
        return sub(ONE, mk_le(add(neg(x), ONE)))
    return of(atom('le', x, lo=0, hi=1))


def bnot(x):
    return sub(ONE, x)


def subst(x, mp):
    """replace atoms (dict atom -> Lin) in x, also inside compound atoms"""
    if not x.m:
        return x
    for a in x.deps:
        if a in mp:
            break
    else:
        return x
    r = const(x.c)
    for a, f in x.m:
        r = add(r, subst_atom(a, mp), f)
    return r


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if not any(d in mp for d in a.deps):
        return of(a)
    k = a.kind
    if k == 'eq':
        return mk_eq(subst(a.a[0], mp))
    if k == 'le':
        return mk_le(subst(a.a[0], mp))
    args = tuple(subst(y, mp) if isinstance(y, Lin) else y for y in a.a)
    return of(atom(k, *args, lo=a.lo, hi=a.hi))


# ---------------------------------------------------------------- intervals
def imax(a, b):
    return b if a is None else a if b is None else max(a, b)


def imin(a, b):
    return b if a is None else a if b is None else min(a, b)


NOEX = frozenset()
TOP = (None, None, NOEX)


def tighten(lo, hi, ex):
    if ex:
        while lo is not None and lo in ex and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ex and (lo is None or hi >= lo):
            hi -= 1
        ex = frozenset(e for e in ex if (lo is None or e > lo) and (hi is None or e < hi))
    return lo, hi, ex


class Infeasible(Exception):
    pass


def bounds(facts, x, deep=True):
    if not x.m:
        return (x.c, x.c, NOEX)
    K, g, c = norm(x)
    lo = hi = None
    ex = NOEX
    f = facts.get(K)
    if f:
        lo, hi, ex = f
    if len(K.m) == 1 and K.m[0][1] == 1:
        a = K.m[0][0]
        lo = imax(lo, a.lo)
        hi = imin(hi, a.hi)
        if a.kind in ('eq', 'le', 'ult', 'band', 'bor') and lo != hi and deep:
            v = ev_atom(facts, a)
            if v is not None:
                lo = hi = v
                ex = NOEX
    else:
        slo, shi = 0, 0
        for a, k in K.m:
            fa = facts.get(of(a))
            alo, ahi = a.lo, a.hi
            if fa:
                alo = imax(alo, fa[0])
                ahi = imin(ahi, fa[1])
            if k < 0:
                alo, ahi = ahi, alo
            slo = None if slo is None or alo is None else slo + k * alo
            shi = None if shi is None or ahi is None else shi + k * ahi
        lo = imax(lo, slo)
        hi = imin(hi, shi)
        if deep and (lo is None or hi is None or lo != hi):
            mine = dict(K.m)
            for K2, f2 in facts.items():
                if len(K2.m) < 2 or K2 is K:
                    continue
                for a, k2 in K2.m:
                    k1 = mine.get(a)
                    if k1 and k1 % k2 == 0:
                        q = k1 // k2
                        R = add(K, K2, -q)
                        rl, rh, _ = bounds(facts, R, False)
                        l2, h2 = f2[0], f2[1]
                        if q < 0:
                            l2, h2 = h2, l2
                        if rl is not None and l2 is not None:
                            lo = imax(lo, rl + q * l2)
                        if rh is not None and h2 is not None:
                            hi = imin(hi, rh + q * h2)
    if ex:
        lo, hi, ex = tighten(lo, hi, ex)
    if g < 0:
        lo, hi = hi, lo
    return (None if lo is None else lo * g + c, None if hi is None else hi * g + c,
            frozenset(e * g + c for e in ex) if ex else NOEX)


def bounds2(facts, x):
    """bounds, also through what a single symbol is compared with"""
    lo, hi = bounds(facts, x)[:2]
    if len(x.m) != 1:
        return lo, hi
    a, k = x.m[0]
    alo, ahi = bounds(facts, of(a))[:2]
    for K2, (l2, h2, _) in facts.items():
        if len(K2.m) != 2 or a not in K2.deps:
            continue
        (a1, k1), (a2, k2) = K2.m
        if a1 is not a:
            a1, k1, a2, k2 = a2, k2, a1, k1
        if a1 is not a or k1 not in (1, -1):
            continue
        # k1*a = K2 - k2*a2
        bl, bh = bounds(facts, scale(of(a2), -k2))[:2]
        rl = None if l2 is None or bl is None else l2 + bl
        rh = None if h2 is None or bh is None else h2 + bh
        if k1 < 0:
            rl, rh = (None if rh is None else -rh), (None if rl is None else -rl)
        alo, ahi = imax(alo, rl), imin(ahi, rh)
    if k < 0:
        alo, ahi = ahi, alo
    return imax(lo, None if alo is None else alo * k + x.c), imin(hi, None if ahi is None else ahi * k + x.c)


def ev_atom(facts, a):
    k = a.kind
    if k == 'eq':
        lo, hi, ex = bounds(facts, a.a[0])
        if lo == 0 and hi == 0:
            return 1
        if (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in ex:
            return 0
    elif k == 'le':
        lo, hi, ex = bounds(facts, a.a[0])
        if hi is not None and hi <= 0:
            return 1
        if lo is not None and lo > 0:
            return 0
    elif k == 'ult':
        x, y = a.a
        lx, hx, _ = bounds(facts, x)
        ly, hy, _ = bounds(facts, y)
        if lx is not None and lx >= 0 and ly is not None and ly >= 0:
            lo, hi, _ = bounds(facts, sub(x, y))
            if hi is not None and hi < 0:
                return 1
            if lo is not None and lo >= 0:
                return 0
        if ly is not None and ly >= 0 and hx is not None and hx < 0:
            return 0
    elif k in ('band', 'bor'):
        x = value(facts, a.a[0])
        y = value(facts, a.a[1])
        if k == 'band':
            if x == 0 or y == 0:
                return 0
            if x is not None and y is not None:
                return 1
        else:
            if (x is not None and x != 0) or (y is not None and y != 0):
                return 1
            if x == 0 and y == 0:
                return 0
    return None


def value(facts, x):
    """the constant x is known to be, or None"""
    if not x.m:
        return x.c
    lo, hi, ex = bounds(facts, x)
    if lo is not None and lo == hi:
        return lo
    return None


def nonzero(facts, x):
    if not x.m:
        return x.c != 0
    lo, hi, ex = bounds(facts, x)
    return (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in ex


def restrict(facts, x, lo=None, hi=None, ex=None):
    """add lo <= x <= hi, x != ex to the facts (a dict owned by the caller)"""
    if not x.m:
        if (lo is not None and x.c < lo) or (hi is not None and x.c > hi) or x.c == ex:
            raise Infeasible()
        return
    K, g, c = norm(x)
    if lo is not None:
        lo -= c
    if hi is not None:
        hi -= c
    if g < 0:
        lo, hi = hi, lo
    if g != 1:
        if lo is not None:
            lo = _ceil(lo, g)
        if hi is not None:
            hi = _floor(hi, g)
    e = None
    if ex is not None:
        if (ex - c) % g == 0:
            e = (ex - c) // g
    blo, bhi, bex = bounds(facts, K)
    nlo = imax(blo, lo)
    nhi = imin(bhi, hi)
    nex = bex if e is None else bex | {e}
    nlo, nhi, nex = tighten(nlo, nhi, nex)
    if nlo is not None and nhi is not None and nlo > nhi:
        raise Infeasible()
    facts[K] = (nlo, nhi, nex)
    # a value that becomes known says something about those it is compared with
    if len(K.m) == 1 and nlo == nhi and nlo is not None and (blo != nlo or bhi != nhi) and \
            K.m[0][0].kind in ('s', 'p', 'fld'):
        a = K.m[0][0]
        for K2 in [k for k in facts if len(k.m) == 2 and a in k.deps]:
            l2, h2, _ = facts[K2]
            (a1, k1), (a2, k2) = K2.m
            if a1 is not a:
                a1, k1, a2, k2 = a2, k2, a1, k1
            if a2 is a or k2 not in (1, -1):
                continue
            l2 = None if l2 is None else l2 - k1 * nlo
            h2 = None if h2 is None else h2 - k1 * nlo
            if k2 < 0:
                l2, h2 = (None if h2 is None else -h2), (None if l2 is None else -l2)
            ol, oh, _ = bounds(facts, of(a2), False)
            if (l2 is not None and (ol is None or ol < l2)) or (h2 is not None and (oh is None or oh > h2)):
                restrict(facts, of(a2), l2, h2)
    # so does a bound of a value about one it has a fixed sum or difference with
    if len(K.m) == 1 and (nlo != blo or nhi != bhi) and nlo != nhi:
        a = K.m[0][0]
        for K2 in [k for k in facts if len(k.m) == 2 and a in k.deps]:
            if facts[K2][0] is not None and facts[K2][0] == facts[K2][1]:
                carry(facts, K2, a, nlo, nhi)
    elif len(K.m) == 2 and nlo == nhi and nlo is not None and (blo != nlo or bhi != nhi):
        for a, _ in K.m:
            l2, h2, _ = bounds(facts, of(a), False)
            carry(facts, K, a, l2, h2)
    # a decided comparison says something about its operands
    if len(K.m) == 1 and nlo == nhi and nlo is not None and \
            K.m[0][0].kind in ('eq', 'le', 'ult', 'band', 'bor'):
        assume_atom(facts, K.m[0][0], nlo != 0)


def carry(facts, K, a, lo, hi):
    """K, a sum or difference, is fixed: what follows for the other value from the bounds of a"""
    (a1, k1), (a2, k2) = K.m
    if a1 is not a:
        a1, k1, a2, k2 = a2, k2, a1, k1
    if a2 is a or abs(k1) != 1 or abs(k2) != 1 or a2.kind not in ('s', 'p', 'fld') or a.kind not in ('s', 'p', 'fld'):
        return
    c = facts[K][0]
    # k2*a2 = c - k1*a
    if k1 > 0:
        lo, hi = hi, lo
    l2 = None if lo is None else (c - k1 * lo)
    h2 = None if hi is None else (c - k1 * hi)
    if k2 < 0:
        l2, h2 = (None if h2 is None else -h2), (None if l2 is None else -l2)
    ol, oh, _ = bounds(facts, of(a2), False)
    if (l2 is not None and (ol is None or ol < l2)) or (h2 is not None and (oh is None or oh > h2)):
        restrict(facts, of(a2), l2, h2)


def _ceil(a, g):
    return -((-a) // g)


def _floor(a, g):
    return a // g


def assume_atom(facts, a, t):
    k = a.kind
    if k == 'eq':
        if t:
            restrict(facts, a.a[0], 0, 0)
        else:
            restrict(facts, a.a[0], ex=0)
    elif k == 'le':
        if t:
            restrict(facts, a.a[0], hi=0)
        else:
            restrict(facts, a.a[0], lo=1)
    elif k == 'ult':
        x, y = a.a
        ly = bounds(facts, y)[0]
        lx = bounds(facts, x)[0]
        if t:
            if ly is not None and ly >= 0:
                restrict(facts, x, lo=0)
                restrict(facts, sub(x, y), hi=-1)
        else:
            if ly is not None and ly >= 0 and lx is not None and lx >= 0:
                restrict(facts, sub(x, y), lo=0)
    elif k == 'band':
        if t:
            assume(facts, a.a[0], True)
            assume(facts, a.a[1], True)
    elif k == 'bor':
        if not t:
            assume(facts, a.a[0], False)
            assume(facts, a.a[1], False)


def assume(facts, x, truth):
    """assume x != 0 (truth) or x == 0"""
    if not x.m:
        if (x.c != 0) != truth:
            raise Infeasible()
        return
    v = value(facts, x)
    if v is not None:
        if (v != 0) != truth:
            raise Infeasible()
    elif truth and 0 in bounds(facts, x)[2]:
        pass
    if len(x.m) == 1:
        a, k = x.m[0]
        if a.isbool and k in (1, -1):
            # b + c != 0
            if x.c == 0:
                want = 1 if truth else 0
            elif x.c == -k:
                want = 0 if truth else 1
            else:
                want = None
            if want is not None:
                restrict(facts, of(a), want, want)
                if a.kind in ('eq', 'le', 'ult', 'band', 'bor'):
                    assume_atom(facts, a, want == 1)
                return
    if truth:
        restrict(facts, x, ex=0)
    else:
        restrict(facts, x, 0, 0)
