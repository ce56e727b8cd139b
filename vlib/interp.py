"""A path-sensitive abstract interpreter for the IR (property simulation in the
style of ESP): internal functions are followed at their call sites, the states
of a loop are joined (with widening) until nothing changes, and everything that
other coroutines may change is forgotten where the coroutine can be suspended.
Nothing is executed and no solver is asked: a branch is pruned only when the
interval facts of the path decide it.

Rules are `Monitor`s that see the events of a path and keep ghost values in it.
"""
from fractions import Fraction
import heapq
from ir import AnalysisBroken, Ty
from terms import *
import terms as T

MAXSTATES = 6000
I63 = (1 << 63) - 1
I64 = (1 << 64) - 1
BIG = 1 << 65


class S:
    """abstract state of one path"""
    __slots__ = ('env', 'mem', 'zero', 'facts', 'g', 'esc', 'cnt', 'loops', 'trace', 'own', 'dead')

    def copy(self):
        n = S()
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.zero = dict(self.zero)
        n.facts = dict(self.facts)
        n.g = dict(self.g)
        n.esc = self.esc
        n.cnt = dict(self.cnt)
        n.loops = self.loops
        n.trace = self.trace
        n.dead = self.dead
        return n

    def sig(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.facts.items()), frozenset(self.g.items()), self.esc,
                frozenset(self.zero.items()), tuple(sorted(self.loops.items())), self.dead)

    # -- helpers for rules
    def val(self, x):
        return T.value(self.facts, x)

    def nonzero(self, x):
        return T.nonzero(self.facts, x)

    def bounds(self, x):
        return T.bounds(self.facts, x)

    def assume(self, x, truth=True):
        """refine in place; False when the path is not possible"""
        try:
            T.assume(self.facts, x, truth)
            return True
        except Infeasible:
            return False

    def le(self, x, y):
        h = T.bounds(self.facts, sub(x, y))[1]
        return h is not None and h <= 0

    def eq(self, x, y):
        if x is y:
            return True
        return T.value(self.facts, sub(x, y)) == 0

    def ne(self, x, y):
        return T.nonzero(self.facts, sub(x, y))

    def line_trace(self, n=40):
        r = []
        t = self.trace
        while t and len(r) < n:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r


def new_state():
    s = S()
    s.env = {}
    s.mem = {}
    s.zero = {}
    s.facts = {}
    s.g = {}
    s.esc = frozenset()
    s.cnt = {}
    s.loops = {}
    s.trace = None
    s.dead = None
    return s


class Outcome:
    __slots__ = ('kind', 'ret', 'st')

    def __init__(self, kind, ret, st):
        self.kind, self.ret, self.st = kind, ret, st


class Monitor:
    name = 'monitor'

    def attach(self, eng):
        self.eng = eng

    def on_call(self, st, name, args, ins):
        pass

    def on_ret(self, st, name, args, ret, ins):
        pass

    def on_store(self, st, tag, addr, val, ins, old):
        pass

    def on_load(self, st, tag, addr, val, ins):
        pass

    def on_suspend(self, st, kind, args, ins):
        pass

    def on_copy(self, st, kind, dst, src, n, ins):
        pass

    def on_branch(self, st, cond, truth, ins):
        pass


class Engine:
    def __init__(self, mod, model, monitors=(), maxdepth=40):
        self.mod = mod
        self.model = model
        self.objsize = {}
        self.stypes = {}     # rest term -> struct name
        model.attach(self)
        self.monitors = list(monitors)
        for m in self.monitors:
            m.attach(self)
        self._ov = {}
        for ev in ('on_call', 'on_ret', 'on_store', 'on_load', 'on_suspend', 'on_copy', 'on_branch'):
            self._ov[ev] = [m for m in self.monitors
                            if getattr(type(m), ev) is not getattr(Monitor, ev)]
        self.defs = {}       # func -> {var: inst}
        self.keep = [frozenset()]
        self.stack = []      # (function name, call inst)
        self.cs = ()         # call string
        self.nstates = 0
        self.nblocks = 0
        self.seenfuncs = set()
        self.violations = []
        self._vkeys = set()
        self.maxdepth = maxdepth
        self.sizecache = {}
        self.undecided = set()
        self.exits = []      # states of the paths that ended in a coroutine exit
        self.globalinit = {}

    # -------------------------------------------------------- reporting
    def report(self, st, rule, msg, ins=None, key=None):
        if st is not None and st.dead:
            return
        fn = ins.fn if ins is not None else (self.stack[-1][0] if self.stack else '?')
        line = self.mod.line(ins) if ins is not None else 0
        k = key or (rule, fn, line, msg)
        if k in self._vkeys:
            return
        self._vkeys.add(k)
        entry = self.stack[0][0] if self.stack else fn
        self.violations.append({
            'rule': rule, 'function': fn, 'line': line, 'message': msg, 'entry': entry,
            'calls': [x[0] for x in self.stack],
            'path': st.line_trace() if st is not None else []})

    # -------------------------------------------------------- symbols
    def fresh(self, st, site, lo=None, hi=None, what=None):
        key = (self.cs, site)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return of(atom('s', what or '', self.cs, site, n, lo=lo, hi=hi))

    def newobj(self, st, site, kind):
        key = (self.cs, site)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return of(atom('o', kind, self.cs, site, n, lo=4096))

    # -------------------------------------------------------- values
    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'v':
            r = st.env.get(v[1])
            if r is None:
                # undefined on this path (dead value): anything
                return self.fresh(st, ('undef', v[1]))
            return r
        if k == 'c':
            return const(v[1])
        if k == 'g':
            return of(atom('g', v[1], lo=4096))
        if k == 'undef':
            return self.fresh(st, 'undef')
        if k == 'zero':
            return ZERO
        if k == 'ce_gep':
            return self.gep(st, v[1], self.val(st, v[2]), v[3])
        if k == 'ce_bin':
            a, b = self.val(st, v[2]), self.val(st, v[3])
            return self.binop(st, v[1], a, b, 64, ('ce',))
        return self.fresh(st, ('const', k))

    def gep(self, st, sty, base, idx):
        m = self.mod
        r = base
        ty = sty
        first = True
        for ity_, v in idx:
            x = self.val(st, v)
            if first:
                sz = m.sizeof(sty)
                c = st.val(x) if sz > 1 else None
                r = add(r, const(c) if c is not None else x, sz)
                first = False
                ty = sty
                if sty.k == 'named':
                    rr = rest(r)
                    if rr not in self.stypes and rr.m:
                        self.note_stype(r, sty.a)
                continue
            t = m.resolve(ty)
            if t.k == 'struct':
                off, ty = m.field_off(t, x.c)
                r = add(r, const(off))
            elif t.k in ('arr', 'vec'):
                ty = t.b
                c = st.val(x)
                r = add(r, const(c) if c is not None else x, m.sizeof(ty))
            else:
                raise AnalysisBroken('gep into ' + t.k)
        return r

    def note_stype(self, addr, sname):
        """addr (a term) points at a struct sname"""
        if addr.c == 0:
            self.stypes.setdefault(rest(addr), sname)

    # -------------------------------------------------------- tags
    def tag(self, addr):
        """(struct, member path) of an address, or None"""
        r = rest(addr)
        s = self.stypes.get(r)
        if s is None and len(r.m) == 1 and r.m[0][1] == 1 and r.m[0][0].kind == 'g':
            return (r.m[0][0].a[0], '+%d' % addr.c if addr.c else '')
        if s is None:
            # base + k*index: an array of structs inside of a known one?
            return None
        return self.leaf(s, addr.c)

    def leaf(self, sname, off):
        key = (sname, off)
        r = self.sizecache.get(key)
        if r is None:
            r = self._leaf(sname, off)
            self.sizecache[key] = r
        return r

    def _leaf(self, sname, off):
        m = self.mod
        short = sname.split('.', 1)[1] if '.' in sname else sname
        t = m.types.get(sname)
        path = []
        cur = sname
        ty = Ty('named', sname)
        if t is None or t.k != 'struct':
            return (short, '+%d' % off)
        size = m.sizeof(t)
        if off < 0 or off >= size:
            if size and off >= 0:
                # flexible array / array of structs
                off = off % size if size else off
            else:
                return (short, '+%d' % off)
        while True:
            t = m.resolve(ty)
            if t.k == 'struct':
                di = m.fields.get(cur.split('.', 1)[1] if cur and '.' in cur else cur, {})
                for i in range(len(t.a) - 1, -1, -1):
                    o, et = m.field_off(t, i)
                    if o <= off:
                        path.append(di.get(o, ('#%d' % i, 0))[0] or '#%d' % i)
                        off -= o
                        ty = et
                        cur = et.a if et.k == 'named' else None
                        break
                else:
                    break
                if cur is None and m.resolve(ty).k != 'arr':
                    break
            elif t.k == 'arr':
                es = m.sizeof(t.b)
                path.append('[]')
                off = off % es if es else off
                ty = t.b
                cur = ty.a if ty.k == 'named' else None
                if cur is None:
                    break
            else:
                break
        return (short, '.'.join(path))

    # -------------------------------------------------------- memory
    def roots(self, r):
        for a, k in r.m:
            if k == 1 and (a.kind in ('o', 'g') or a.stype or of(a) in self.stypes):
                return a
        for a, k in r.m:
            if k == 1 and a.lo is not None and a.lo >= 4096:
                return a
        for a, k in r.m:
            if k == 1:
                return a
        return None

    def may_alias(self, st, r1, r2):
        if r1 is r2:
            return True
        a = self.roots(r1)
        b = self.roots(r2)
        if a is None or b is None:
            return True
        if a is b:
            # same object, different index
            d = sub(r1, r2)
            return not st.nonzero(d)
        ao = a.kind in ('o', 'g')
        bo = b.kind in ('o', 'g')
        if ao and bo:
            return False
        if ao and a not in st.esc:
            return False
        if bo and b not in st.esc:
            return False
        # an object made during the analysed call is not what a pointer given to it points to
        if (ao and a.kind == 'o' and b.kind == 'p') or (bo and b.kind == 'o' and a.kind == 'p'):
            return False
        if not self.model.may_equal(st, a, b):
            return False
        if len(r1.m) == 1 and len(r2.m) == 1 and st.nonzero(sub(r1, r2)):
            return False
        return True

    def kill_cell(self, st, key):
        v = st.mem.pop(key)
        if self.in_zero(st, key[0], key[1], v[1]) is not None:
            st.mem[key] = (self.fresh(st, ('kill', key)), v[1])

    def in_zero(self, st, r, off, size):
        z = st.zero.get(r)
        if z:
            for lo, hi in z:
                if lo <= off and off + size <= hi:
                    return 0
        return None

    def load(self, st, addr, size, ins, bits=None):
        r = rest(addr)
        key = (r, addr.c)
        c = st.mem.get(key)
        if c is not None:
            if c[1] == size:
                return c[0]
            return self.fresh(st, ('ld', ins.id))
        # overlapping cells of another size
        for d in range(1, 16):
            k2 = (r, addr.c - d)
            c2 = st.mem.get(k2)
            if c2 is not None and c2[1] > d:
                return self.fresh(st, ('ld', ins.id))
        if self.in_zero(st, r, addr.c, size) is not None:
            return ZERO
        v = self.model.init_load(st, r, addr.c, size, ins)
        if v is None:
            v = self.global_init(st, r, addr.c, size)
        if v is None:
            lo, hi = self.model.field_range(self.tag(addr), size)
            if bits is not None and bits == 1:
                lo, hi = 0, 1
            v = self.fresh(st, ('ld', ins.id if ins is not None else key), lo=lo, hi=hi)
        st.mem[key] = (v, size)
        return v

    def global_init(self, st, r, off, size):
        if len(r.m) != 1 or r.m[0][1] != 1 or r.m[0][0].kind != 'g':
            return None
        g = self.mod.globals.get(r.m[0][0].a[0])
        if not g or not g['const'] or g['init'] is None:
            return None
        key = (g['name'], off, size)
        if key not in self.globalinit:
            self.globalinit[key] = self._ginit(g['ty'], g['init'], off, size)
        x = self.globalinit[key]
        if x is None:
            return None
        return self.val(st, x)

    def _ginit(self, ty, v, off, size):
        m = self.mod
        t = m.resolve(ty)
        if v[0] == 'zero':
            return ('c', 0)
        if v[0] == 'agg':
            o = 0
            for i, (et, ev) in enumerate(v[1]):
                if t.k == 'struct':
                    o = m.field_off(t, i)[0]
                es = m.sizeof(et)
                if o <= off < o + es:
                    return self._ginit(et, ev, off - o, size)
                if t.k != 'struct':
                    o += es
            return None
        if off == 0 and v[0] in ('c', 'g', 'ce_gep') and m.sizeof(ty) == size:
            return v
        return None

    def store(self, st, addr, val, size, ins, quiet=False):
        r = rest(addr)
        key = (r, addr.c)
        tag = self.tag(addr)
        if not quiet and self._ov['on_store']:
            oc = st.mem.get(key)
            old = oc[0] if oc is not None and oc[1] == size else None
            for m in self._ov['on_store']:
                m.on_store(st, tag, addr, val, ins, old)
        # overlapping cells of the same base
        for d in range(-15, 16):
            if d == 0:
                continue
            k2 = (r, addr.c + d)
            c2 = st.mem.get(k2)
            if c2 is not None and (0 < d < size or (d < 0 and c2[1] > -d)):
                self.kill_cell(st, k2)
        # other bases
        for k2 in [k for k in st.mem if k[0] is not r]:
            c2 = st.mem[k2]
            t2 = self.tag(add(k2[0], const(k2[1])))
            if tag is not None and t2 is not None:
                if tag != t2 and not self.model.same_field(tag, t2):
                    continue
            elif tag is None and t2 is None:
                # untyped memory: the same object, or unknown pointers
                a, b = self.roots(r), self.roots(k2[0])
                if a is not b and not (a and b and a.kind not in 'og' and b.kind not in 'og'):
                    continue
                # what two different members point to: objects of different sizes are different objects
                if a is not b and a.kind == 'fld' and b.kind == 'fld' and size != c2[1] and a.a[2] != b.a[2]:
                    continue
            else:
                # assumption: a caller's untyped buffer is not a struct of the runtime
                a, b = self.roots(r), self.roots(k2[0])
                if a is not b:
                    continue
            if self.may_alias(st, r, k2[0]):
                if self.roots(r) is self.roots(k2[0]):
                    lo, hi = T.bounds2(st.facts, sub(addr, add(k2[0], const(k2[1]))))
                    if (lo is not None and lo >= c2[1]) or (hi is not None and hi <= -size):
                        continue
                self.kill_cell(st, k2)
        if st.zero and r.m:
            root = self.roots(r)
            for z in [z for z in st.zero if z is not r and root is not None and self.roots(z) is root]:
                lo, hi = T.bounds2(st.facts, sub(addr, z))
                iv = []
                for a, b in st.zero[z]:
                    if lo is not None and a < lo:
                        iv.append((a, min(b, lo)))
                    if hi is not None and b > hi + size:
                        iv.append((max(a, hi + size), b))
                    # what is not known to lie beside it is lost
                st.zero = dict(st.zero)
                st.zero[z] = tuple(iv) if isinstance(st.zero[z], tuple) else iv
        st.mem[key] = (val, size)
        if val.m:
            for a in val.deps:
                if a.kind == 'o' and a not in st.esc:
                    root = self.roots(r)
                    if root is None or root.kind != 'o' or root in st.esc:
                        self.escape(st, a)

    def escape(self, st, a):
        """the object's address is now known to others, and so is what it points to"""
        if a in st.esc:
            return
        st.esc = st.esc | {a}
        for (r, off), (v, sz) in list(st.mem.items()):
            if a in r.deps and v.m:
                for b in v.deps:
                    if b.kind == 'o' and b not in st.esc:
                        self.escape(st, b)

    def escape_val(self, st, v):
        for a in v.deps:
            if a.kind == 'o':
                self.escape(st, a)

    def memset(self, st, dst, val, n, ins):
        for m in self._ov['on_copy']:
            m.on_copy(st, 'memset', dst, val, n, ins)
        r = rest(dst)
        nv = st.val(n)
        for k in [k for k in st.mem if k[0] is r]:
            if nv is None or (dst.c - 15 <= k[1] < dst.c + nv and k[1] + st.mem[k][1] > dst.c):
                st.mem.pop(k)
        if nv is None:
            st.zero.pop(r, None)
            lo = st.bounds(n)[0]
            if st.val(val) == 0 and lo is not None and lo > 0 and len(r.m) == 1 and r.m[0][0].kind == 'o':
                st.zero[r] = ((dst.c, dst.c + lo),)
            return
        # other bases that may be the same struct
        sname = self.stypes.get(r)
        if sname is not None:
            for k in [k for k in st.mem if k[0] is not r and self.stypes.get(k[0]) == sname]:
                if self.may_alias(st, r, k[0]):
                    self.kill_cell(st, k)
        z = []
        for lo, hi in st.zero.get(r, ()):
            if lo < dst.c:
                z.append((lo, min(hi, dst.c)))
            if hi > dst.c + nv:
                z.append((max(lo, dst.c + nv), hi))
        if st.val(val) == 0:
            z.append((dst.c, dst.c + nv))
        if z:
            st.zero[r] = tuple(sorted(z))
        else:
            st.zero.pop(r, None)

    def memcpy(self, st, dst, src, n, ins, kind='memcpy'):
        for m in self._ov['on_copy']:
            m.on_copy(st, kind, dst, src, n, ins)
        nv = st.val(n)
        rd, rs = rest(dst), rest(src)
        if nv is None:
            lo = dst.c if st.le(ZERO, n) else None
            hi = T.bounds2(st.facts, n)[1]
            hi = None if hi is None or hi >= 1 << 62 else dst.c + hi
            for k in [k for k in st.mem if k[0] is rd and (lo is None or k[1] + st.mem[k][1] > lo) and
                      (hi is None or k[1] < hi)]:
                self.kill_cell(st, k)
            return
        copies = []
        for k, v in st.mem.items():
            if k[0] is rs and src.c <= k[1] and k[1] + v[1] <= src.c + nv:
                copies.append((k[1] - src.c, v))
        zs = [(max(lo, src.c) - src.c, min(hi, src.c + nv) - src.c)
              for lo, hi in st.zero.get(rs, ()) if lo < src.c + nv and hi > src.c]
        g = None
        if len(rs.m) == 1 and rs.m[0][0].kind == 'g':
            g = self.mod.globals.get(rs.m[0][0].a[0])
        if rd not in self.stypes and rs in self.stypes:
            self.stypes[rd] = self.stypes[rs]
        for k in [k for k in st.mem if k[0] is rd]:
            if dst.c <= k[1] + st.mem[k][1] - 1 and k[1] < dst.c + nv:
                st.mem.pop(k)
        z = []
        for lo, hi in st.zero.get(rd, ()):
            if lo < dst.c:
                z.append((lo, min(hi, dst.c)))
            if hi > dst.c + nv:
                z.append((max(lo, dst.c + nv), hi))
        for lo, hi in zs:
            z.append((lo + dst.c, hi + dst.c))
        if g is not None and g['const'] and g['init'] is not None:
            # fields of a constant aggregate
            if g['init'][0] == 'zero':
                z.append((dst.c, dst.c + nv))
            else:
                self.copy_const(st, g['ty'], g['init'], dst, src.c, nv, 0)
        if z:
            st.zero[rd] = tuple(sorted(z))
        else:
            st.zero.pop(rd, None)
        for off, v in copies:
            st.mem[(rd, dst.c + off)] = v
            for a in v[0].deps:
                if a.kind == 'o':
                    root = self.roots(rd)
                    if root is None or root.kind != 'o' or root in st.esc:
                        self.escape(st, a)

    def copy_const(self, st, ty, v, dst, lo, n, base):
        m = self.mod
        t = m.resolve(ty)
        if v[0] == 'agg':
            o = 0
            for i, (et, ev) in enumerate(v[1]):
                if t.k == 'struct':
                    o = m.field_off(t, i)[0]
                self.copy_const(st, et, ev, dst, lo, n, base + o)
                if t.k != 'struct':
                    o += m.sizeof(et)
        elif v[0] in ('c', 'g', 'ce_gep'):
            st.mem[(rest(dst), dst.c + base - lo)] = (self.val(st, v), m.sizeof(ty))
        elif v[0] == 'zero':
            r = rest(dst)
            st.zero[r] = tuple(st.zero.get(r, ())) + ((dst.c + base - lo, dst.c + base - lo + m.sizeof(ty)),)

    # -------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, w, site):
        va = st.val(a) if a.m else a.c
        vb = st.val(b) if b.m else b.c
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if vb is not None:
                return scale(a, vb)
            if va is not None:
                return scale(b, va)
            x, y = (a, b) if a.m[0][0].id <= b.m[0][0].id else (b, a)
            lx = st.bounds(x)[0]
            ly = st.bounds(y)[0]
            lo = 0 if lx is not None and lx >= 0 and ly is not None and ly >= 0 else None
            return of(atom('mul', x, y, lo=lo))
        if va is not None and vb is not None:
            try:
                return const(self.fold(op, va, vb, w))
            except ZeroDivisionError:
                return self.fresh(st, ('op', site))
        if op == 'shl' and vb is not None:
            return scale(a, 1 << vb)
        if op == 'xor':
            if w == 1:
                if vb == 1:
                    return bnot(a)
                if vb == 0:
                    return a
                if va == 1:
                    return bnot(b)
            if vb == 0:
                return a
            if vb == -1:
                return sub(const(-1), a)
        if op == 'and':
            if vb == 0 or va == 0:
                return ZERO
            if w == 1:
                if vb == 1:
                    return a
                if va == 1:
                    return b
                return of(atom('band', a, b, lo=0, hi=1))
            if vb == -1:
                return a
            if va == -1:
                return b
            m = vb if vb is not None else va
            x = a if vb is not None else b
            if m is not None and m >= 0:
                lo, hi, _ = st.bounds(x)
                if lo is not None and lo >= 0 and hi is not None and hi <= m and (m & (m + 1)) == 0:
                    return x
                return of(atom('and', x, const(m), lo=0, hi=m))
        if op == 'or':
            if vb == 0:
                return a
            if va == 0:
                return b
            if w == 1:
                if vb == 1 or va == 1:
                    return ONE
                return of(atom('bor', a, b, lo=0, hi=1))
        if op in ('and', 'or', 'xor'):
            x, y = (a, b)
            if (y.m and x.m and y.m[0][0].id < x.m[0][0].id) or (y.m and not x.m):
                x, y = y, x
            return of(atom(op, x, y))
        if op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            la = st.bounds(a)[0]
            ha = st.bounds(a)[1]
            lo = hi = None
            d = vb if op in ('udiv', 'sdiv') else (1 << vb if vb is not None and 0 <= vb < 64 else None)
            if la is not None and la >= 0:
                lo = 0 if d is None or d <= 0 else la // d
                if d and d > 0 and ha is not None:
                    hi = ha // d
            return of(atom(op, a, b, w, lo=lo, hi=hi))
        if op in ('urem', 'srem'):
            la = st.bounds(a)[0]
            lo = hi = None
            if vb is not None and vb > 0:
                hi = vb - 1
                lo = 0 if (op == 'urem' or (la is not None and la >= 0)) else -(vb - 1)
            return of(atom(op, a, b, w, lo=lo, hi=hi))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fresh(st, ('f', site))
        return of(atom(op, a, b, w))

    def fold(self, op, a, b, w):
        mask = (1 << w) - 1
        ua, ub = a & mask, b & mask

        def sg(x):
            x &= mask
            return x - (1 << w) if w > 1 and x >> (w - 1) else x
        if op == 'and':
            return sg(ua & ub)
        if op == 'or':
            return sg(ua | ub)
        if op == 'xor':
            return sg(ua ^ ub) if w > 1 else (ua ^ ub)
        if op == 'shl':
            return sg(ua << (ub & (w - 1)))
        if op == 'lshr':
            return sg(ua >> (ub & (w - 1)))
        if op == 'ashr':
            return a >> (ub & (w - 1))
        if op == 'udiv':
            return sg(ua // ub)
        if op == 'urem':
            return sg(ua % ub)
        if op == 'sdiv':
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == 'srem':
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return a - q * b
        raise AnalysisBroken('fold ' + op)

    def icmp(self, st, pred, a, b, w):
        # pinned terms as constants
        if a.m:
            v = st.val(a)
            if v is not None:
                a = const(v)
        if b.m:
            v = st.val(b)
            if v is not None:
                b = const(v)
        if pred in ('eq', 'ne') and w and w <= 32 and not b.m and b.c < 0 and a.m:
            lo = st.bounds(a)[0]
            # an unsigned value compared with a large constant
            if lo is not None and lo >= 0:
                b = const(b.c & ((1 << w) - 1))
        d = sub(a, b)
        if pred == 'eq':
            r = mk_eq(d)
        elif pred == 'ne':
            r = bnot(mk_eq(d))
        elif pred == 'slt':
            r = mk_le(add(d, ONE))
        elif pred == 'sle':
            r = mk_le(d)
        elif pred == 'sgt':
            r = mk_le(add(neg(d), ONE))
        elif pred == 'sge':
            r = mk_le(neg(d))
        else:
            if pred in ('ugt', 'ule'):
                a, b = b, a      # ugt a b = ult b a ; ule a b = not ult b a
            la = st.bounds(a)[0]
            lb = st.bounds(b)[0]
            if not a.m and not b.m and w:
                m = (1 << w) - 1
                r = const(int((a.c & m) < (b.c & m)))
            elif la is not None and la >= 0 and lb is not None and lb >= 0:
                r = mk_le(add(sub(a, b), ONE))
            elif not a.m and a.c == 0:
                r = bnot(mk_eq(b))
            elif not b.m and b.c == 1:
                r = mk_eq(a)
            else:
                if not b.m and b.c < 0 and la is not None and la >= 0:
                    r = ONE
                elif not a.m and a.c < 0 and lb is not None and lb >= 0:
                    r = ZERO
                else:
                    r = of(atom('ult', a, b, lo=0, hi=1))
            if pred in ('uge', 'ule'):
                r = bnot(r)
        if r.m:
            v = st.val(r)
            if v is not None:
                return const(v)
        return r

    def cast(self, st, op, x, sw, dw, site):
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'sext', 'addrspacecast'):
            return x
        if op == 'zext':
            if sw == 1:
                return x
            lo, hi, _ = st.bounds(x)
            if lo is not None and lo >= 0:
                return x
            if not x.m:
                return const(x.c & ((1 << sw) - 1))
            return of(atom('zext', x, sw, lo=0, hi=(1 << sw) - 1))
        if op == 'trunc':
            lo, hi, _ = st.bounds(x)
            if dw == 1:
                if lo is not None and hi is not None and lo >= 0 and hi <= 1:
                    return x
                return bnot(mk_eq(x))
            if lo is not None and hi is not None and lo >= -(1 << (dw - 1)) and hi < (1 << (dw - 1)):
                return x
            if not x.m:
                v = x.c & ((1 << dw) - 1)
                return const(v - (1 << dw) if v >> (dw - 1) else v)
            if len(x.m) == 1 and x.m[0][1] == 1 and x.c == 0 and x.m[0][0].kind == 'zext' and x.m[0][0].a[1] == dw:
                return x.m[0][0].a[0]
            return of(atom('trunc', x, dw))
        return self.fresh(st, ('cast', site))

    # -------------------------------------------------------- executing
    def width(self, ty):
        return ty.a if ty.k == 'int' else 64

    def step(self, st, ins, f):
        """execute one non-terminator; returns None (in place) or a list of states"""
        op = ins.op
        env = st.env
        if op == 'call':
            return self.call(st, ins)
        if op == 'load':
            addr = self.val(st, ins.args[0])
            size = self.mod.sizeof(ins.ty)
            if ins.ty.k in ('struct', 'arr', 'named'):
                env[ins.res] = self.fresh(st, ('ldagg', ins.id))
                return None
            v = self.load(st, addr, size, ins, self.width(ins.ty) if ins.ty.k == 'int' else None)
            if ins.ty.k == 'int' and ins.ty.a == 8 and v.m:
                pass
            if self._ov['on_load']:
                tag = self.tag(addr)
                for m in self._ov['on_load']:
                    m.on_load(st, tag, addr, v, ins)
            env[ins.res] = v
            return None
        if op == 'store':
            v = self.val(st, ins.args[0])
            addr = self.val(st, ins.args[1])
            if ins.ty.k in ('struct', 'arr', 'named', 'vec'):
                return None
            self.store(st, addr, v, self.mod.sizeof(ins.ty), ins)
            return None
        if op == 'getelementptr':
            env[ins.res] = self.gep(st, ins.ty, self.val(st, ins.args[0]), ins.x)
            return None
        if op == 'alloca':
            o = self.newobj(st, ins.id, 'alloca')
            if ins.ty.k == 'named' and not ins.args:
                self.stypes.setdefault(o, ins.ty.a)
            if not ins.args:
                self.objsize[o.m[0][0]] = const(self.mod.sizeof(ins.ty))
            env[ins.res] = o
            return None
        if op == 'icmp':
            w = self.width(ins.ty)
            env[ins.res] = self.icmp(st, ins.x, self.val(st, ins.args[0]), self.val(st, ins.args[1]), w)
            return None
        if op in T_BIN:
            a, b = self.val(st, ins.args[0]), self.val(st, ins.args[1])
            env[ins.res] = self.binop(st, op, a, b, self.width(ins.ty), ins.id)
            return None
        if op in T_CAST:
            env[ins.res] = self.cast(st, op, self.val(st, ins.args[0]),
                                     self.width(ins.x), self.width(ins.ty), ins.id)
            return None
        if op == 'select':
            c = self.val(st, ins.args[0])
            a = self.val(st, ins.args[1])
            b = self.val(st, ins.args[2])
            v = st.val(c)
            if v is not None:
                env[ins.res] = a if v else b
                return None
            if a is b:
                env[ins.res] = a
                return None
            s2 = st.copy()
            out = []
            if st.assume(c, True):
                st.env[ins.res] = a
                out.append(st)
            if s2.assume(c, False):
                s2.env[ins.res] = b
                out.append(s2)
            return out
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.args[0])
            return None
        if op == 'atomicrmw':
            addr = self.val(st, ins.args[0])
            v = self.val(st, ins.args[1])
            old = self.load(st, addr, self.mod.sizeof(ins.ty), ins)
            new = add(old, v) if ins.x == 'add' else sub(old, v) if ins.x == 'sub' else \
                v if ins.x == 'xchg' else self.fresh(st, ('rmw', ins.id))
            self.store(st, addr, new, self.mod.sizeof(ins.ty), ins)
            env[ins.res] = old
            return None
        if op == 'fence':
            return None
        if ins.res:
            env[ins.res] = self.fresh(st, ('misc', ins.id),
                                      lo=0 if op == 'fcmp' else None, hi=1 if op == 'fcmp' else None)
        return None

    def call(self, st, ins):
        # callee
        cv = ins.x
        args = [self.val(st, v) for t, v in ins.args]
        name = None
        if cv[0] == 'g':
            name = cv[1]
        elif cv[0] == 'v':
            x = st.env.get(cv[1])
            if x is not None:
                v = st.val(x)
                if v == 0:
                    st.dead = 'null call'
                    return []
                if x.c == 0 and len(x.m) == 1 and x.m[0][0].kind == 'g':
                    name = x.m[0][0].a[0]
            else:
                x = ZERO
        elif cv[0] == 'asm':
            if ins.res:
                st.env[ins.res] = self.fresh(st, ('asm', ins.id))
            return None
        if name is None:
            # a call through an unknown pointer
            outs = self.model.indirect(st, x if cv[0] == 'v' else ZERO, args, ins)
            return self.bind(outs, ins)
        return self.call_named(st, name, args, ins)

    def call_named(self, st, name, args, ins):
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, ins)
        for m in self._ov['on_call']:
            m.on_call(st, name, args, ins)
            if st.dead:
                return []
        outs = self.model.call(st, name, args, ins)
        if outs is None:
            f = self.mod.funcs.get(name)
            if f is None:
                outs = self.model.external(st, name, args, ins)
            else:
                outs = self.invoke(st, f, args, ins)
        if self._ov['on_ret']:
            for s, r in outs:
                for m in self._ov['on_ret']:
                    m.on_ret(s, name, args, r, ins)
            outs = [(s, r) for s, r in outs if not s.dead]
        return self.bind(outs, ins)

    def bind(self, outs, ins):
        res = []
        for s, r in outs:
            if ins.res:
                s.env[ins.res] = r if r is not None else self.fresh(s, ('ret', ins.id))
            res.append(s)
        return res

    def intrinsic(self, st, name, args, ins):
        if name.startswith('llvm.threadlocal.address'):
            st.env[ins.res] = args[0]
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2], ins, name.split('.')[1])
        elif name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2], ins)
        elif name.startswith('llvm.va_'):
            if args:
                self.havoc_obj(st, args[0])
        elif name.startswith('llvm.expect'):
            st.env[ins.res] = args[0]
        elif name in ('llvm.trap', 'llvm.unreachable'):
            return []
        elif ins.res:
            st.env[ins.res] = self.fresh(st, ('intr', ins.id))
        return None

    def havoc_obj(self, st, addr):
        """forget what is stored in the object addr points into"""
        root = self.roots(rest(addr))
        for k in [k for k in st.mem if self.roots(k[0]) is root]:
            st.mem.pop(k)
        for k in [k for k in st.zero if self.roots(k) is root]:
            st.zero.pop(k)

    def inv_depth(self, name):
        return sum(1 for x in self.stack if x[0] == name)

    def invoke(self, st, f, args, ins):
        """follow a call: list of (state, return value)"""
        if len(self.stack) > self.maxdepth or self.inv_depth(f.name) > 0:
            r = self.model.recursion(st, f, args, ins)
            if r is not None:
                return r
        saved = st.env
        keepset = set(self.keep[-1])
        for v in saved.values():
            keepset |= v.deps
        for v in args:
            keepset |= v.deps
        self.keep.append(frozenset(keepset))
        self.stack.append((f.name, ins))
        ocs = self.cs
        if ins is not None:
            self.cs = ocs + (ins.id,)
        sloops = st.loops
        try:
            outs = self.exec_func(f, args, st)
        finally:
            self.keep.pop()
            self.stack.pop()
            self.cs = ocs
        res = []
        for s, r in outs:
            s.env = dict(saved)
            s.loops = sloops
            res.append((s, r))
        if len(res) > 1:
            res = self.dedupe_rets(res)
            if len(res) > self.model.retlimit:
                res = self.merge_rets(res, f)
        return res

    def retkey(self, s, r):
        if r is None:
            return None
        v = s.val(r)
        if v is not None:
            return v if -64 <= v <= 64 else 'big'
        lo, hi, ex = s.bounds(r)
        if lo is not None and lo > 0:
            return '>0'
        if lo is not None and lo >= 0:
            return '>=0'
        if hi is not None and hi < 0:
            return '<0'
        return ('?', 0 in ex)

    def merge_rets(self, res, f):
        groups = {}
        for s, r in res:
            k = (self.retkey(s, r), frozenset((k, v) for k, v in s.g.items() if self.ghash(v)),
                 self.model.mergekey(s))
            groups.setdefault(k, []).append((s, r))
        out = []
        for k, l in groups.items():
            s, r = l[0]
            s.env['$ret'] = r if r is not None else ZERO
            for s2, r2 in l[1:]:
                s2.env['$ret'] = r2 if r2 is not None else ZERO
                s = self.join(s, s2, (f.name, '$ret'), False)
            v = s.env.pop('$ret')
            out.append((s, v if r is not None else None))
        return out

    def dedupe_rets(self, res):
        seen = {}
        out = []
        for s, r in res:
            s.env['$ret'] = r if r is not None else ZERO
            self.gc(s)
            k = s.sig()
            s.env.pop('$ret')
            if k not in seen:
                seen[k] = 1
                out.append((s, r))
        return out

    def exec_func(self, f, args, st):
        self.seenfuncs.add(f.name)
        env = {}
        for (ty, nm, info), a in zip(f.params, args):
            env[nm] = a
        st.env = env
        st.loops = {}
        pend = {}       # block name -> list of states
        heap = []
        outs = []
        H = {}          # (head, key) -> (state, count)
        ents = {}       # head -> {sig: origin}
        queued = set()
        seen = {}       # merge block -> set of signatures
        hkey = {}
        keepalive = []
        order = f.order

        def push(bn, s):
            pend.setdefault(bn, []).append(s)
            if bn not in queued:
                queued.add(bn)
                heapq.heappush(heap, (order[bn], bn))

        def enter(bn, b, s):
            key = (bn, s.loops.get(bn), self.loopkey(s, f, b))
            cur = H.get(key)
            if cur is None:
                H[key] = (s, 0)
                push(bn, s.copy())
                return
            j, n = cur
            if self.subsumed(j, s):
                return
            if n > 40:
                if self.violations:
                    return      # the verdict is known
                raise AnalysisBroken('loop does not stabilise: %s in %s' % (bn, f.name))
            nj = self.join(j, s, (f.name, bn), n)
            if n >= 4 and self.subsumed(j, nj):
                return
            H[key] = (nj, n + 1)
            # a state of this key that is still waiting is covered by the join
            pend[bn] = [x for x in pend.get(bn, ()) if hkey.get(id(x)) != key]
            x = nj.copy()
            hkey[id(x)] = key
            keepalive.append(x)
            push(bn, x)

        def arrive(src, bn, s):
            b = f.bmap[bn]
            if b.phis:
                vals = {}
                for p in b.phis:
                    for v, pb in p.x:
                        if pb == src:
                            vals[p.res] = self.val(s, v)
                            break
                s.env.update(vals)
            if b.is_head:
                live = b.livein
                s.env = {k: v for k, v in s.env.items() if k in live}
                self.gc(s)
                if order[src] >= order[bn]:
                    # loops nested inside are left
                    s.loops = {h: x for h, x in s.loops.items() if order[h] <= order[bn]}
                    o, it = s.loops.get(bn, (-1, 0))
                    s.loops[bn] = (o, min(it + 1, self.model.unroll))
                    enter(bn, b, s)
                    return
                s.loops = {h: x for h, x in s.loops.items() if order[h] < order[bn]}
                sg = s.sig()
                e = ents.setdefault(bn, {})
                if sg in e:
                    return
                e[sg] = len(e)
                s.loops = dict(s.loops)
                if len(e) > self.model.entlimit:
                    # too many ways into this loop: treat it like one more iteration
                    s.loops[bn] = (-1, self.model.unroll)
                    enter(bn, b, s)
                    return
                s.loops[bn] = (e[sg], 0)
                push(bn, s)
                return
            if len(b.preds) > 1:
                live = b.livein
                s.env = {k: v for k, v in s.env.items() if k in live}
                self.gc(s)
                sg = s.sig()
                d = seen.setdefault(bn, set())
                if sg in d:
                    return
                d.add(sg)
            push(bn, s)

        push(f.blocks[0].name, st)
        while heap:
            _, bn = heapq.heappop(heap)
            queued.discard(bn)
            states = pend.pop(bn)
            b = f.bmap[bn]
            if len(states) > self.model.mergelimit and len(b.preds) > 1:
                states = self.merge_many(states, f, b)
            for s in states:
                self.nblocks += 1
                cur = [s]
                insts = b.insts
                for ins in insts[len(b.phis):-1]:
                    nxt = []
                    for x in cur:
                        r = self.step(x, ins, f)
                        if r is None:
                            if not x.dead:
                                nxt.append(x)
                        else:
                            nxt.extend(y for y in r if not y.dead)
                    cur = nxt
                    if not cur:
                        break
                self.nstates += len(cur)
                term = insts[-1]
                for x in cur:
                    op = term.op
                    if op == 'ret':
                        r = self.val(x, term.args[0]) if term.args else None
                        outs.append((x, r))
                    elif op == 'br':
                        if len(term.x) == 1:
                            arrive(bn, term.x[0], x)
                            continue
                        c = self.val(x, term.args[0])
                        v = x.val(c)
                        if v is not None:
                            arrive(bn, term.x[0] if v else term.x[1], x)
                            continue
                        y = x.copy()
                        ln = self.mod.line(term)
                        if x.assume(c, True):
                            x.trace = ((f.name, ln, 'T'), x.trace)
                            for m in self._ov['on_branch']:
                                m.on_branch(x, c, True, term)
                            arrive(bn, term.x[0], x)
                        if y.assume(c, False):
                            y.trace = ((f.name, ln, 'F'), y.trace)
                            for m in self._ov['on_branch']:
                                m.on_branch(y, c, False, term)
                            arrive(bn, term.x[1], y)
                    elif op == 'switch':
                        c = self.val(x, term.args[0])
                        v = x.val(c)
                        d, cases = term.x
                        if v is not None:
                            for cv, tb in cases:
                                if cv == v:
                                    arrive(bn, tb, x)
                                    break
                            else:
                                arrive(bn, d, x)
                            continue
                        groups = {}
                        for cv, tb in cases:
                            y = x.copy()
                            if y.assume(mk_eq(sub(c, const(cv))), True):
                                y.trace = ((f.name, self.mod.line(term), 'case %d' % cv), y.trace)
                                arrive(bn, tb, y)
                        ok = True
                        for cv, tb in cases:
                            if not x.assume(mk_eq(sub(c, const(cv))), False):
                                ok = False
                                break
                        if ok:
                            x.trace = ((f.name, self.mod.line(term), 'default'), x.trace)
                            arrive(bn, d, x)
                    elif op == 'unreachable':
                        pass
                    else:
                        raise AnalysisBroken('terminator ' + op)
            if self.nstates > self.model.maxstates:
                raise AnalysisBroken('too many states in ' + f.name)
        return outs

    # -------------------------------------------------------- joining
    def gc(self, s):
        reach = set(self.keep[-1])
        for v in s.env.values():
            if v.m:
                reach |= v.deps
        for k, v in s.g.items():
            self.gdeps(v, reach)
            self.gdeps(k, reach)
        reach |= self.model.roots
        # cells
        pending = []
        keepm = {}
        for k, v in s.mem.items():
            if all(a in reach or a.kind == 'g' for a in k[0].deps):
                keepm[k] = v
                if v[0].m:
                    reach |= v[0].deps
            else:
                pending.append((k, v))
        ch = True
        while ch and pending:
            ch = False
            rem = []
            for k, v in pending:
                if all(a in reach or a.kind == 'g' for a in k[0].deps):
                    keepm[k] = v
                    if v[0].m and not v[0].deps <= reach:
                        reach |= v[0].deps
                        ch = True
                else:
                    rem.append((k, v))
            pending = rem
        s.mem = keepm
        if s.zero:
            s.zero = {k: v for k, v in s.zero.items() if all(a in reach or a.kind == 'g' for a in k.deps)}
        s.facts = {k: v for k, v in s.facts.items() if k.deps <= reach and v != TOP}
        if s.esc:
            s.esc = frozenset(a for a in s.esc if a in reach)

    def gdeps(self, v, reach):
        if isinstance(v, Lin):
            reach |= v.deps
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.gdeps(x, reach)

    def ghash(self, v):
        """ghost values that are not terms partition the states of a loop"""
        return not isinstance(v, Lin)

    def loopkey(self, s, f, b):
        g = frozenset((k, v) for k, v in s.g.items() if self.ghash(v))
        e = []
        for k, v in s.env.items():
            if not v.m:
                if v.c in (0, 1) and self.boolvar(f, k):
                    e.append((k, v.c))
                elif v.c == 0 and self.ptrvar(f, k):
                    e.append((k, 'null'))
            elif self.ptrvar(f, k):
                e.append((k, s.nonzero(v)))
        return (g, frozenset(e), self.model.flagkey(s))

    def vartype(self, f, k):
        d = self.defs.get(f.name)
        if d is None:
            d = {}
            for ty, nm, info in f.params:
                d[nm] = ty
            for b in f.blocks:
                for i in b.insts:
                    if i.res:
                        t = i.ty
                        if i.op in ('getelementptr', 'alloca'):
                            t = Ty('ptr')
                        elif i.op in ('icmp', 'fcmp'):
                            t = Ty('int', 1)
                        d[i.res] = t
            self.defs[f.name] = d
        return d.get(k)

    def boolvar(self, f, k):
        t = self.vartype(f, k)
        return t is not None and t.k == 'int' and t.a in (1, 8)

    def ptrvar(self, f, k):
        t = self.vartype(f, k)
        return t is not None and t.k == 'ptr'

    def slots(self, s):
        for k, v in s.env.items():
            yield ('e', k), v
        for k, v in s.g.items():
            if isinstance(v, Lin):
                yield ('g', k), v

    def subsumed(self, j, s):
        """is s an instance of j?"""
        sg = {}
        fixed = self.keep[-1]
        defer = []

        def match(p, v):
            if not p.m:
                return p is v or (s.val(v) == p.c)
            un = [(a, k) for a, k in p.m if a not in sg]
            bad = [a for a, k in un if a.kind not in ('s',)]
            if not un or bad or len(un) > 1 or abs(un[0][1]) != 1:
                if len(un) == 0:
                    return s.eq(subst(p, sg), v)
                defer.append((p, v))
                return True
            a, k = un[0]
            # c + rest + k*a = v
            o = sub(v, subst(add(p, of(a), -k), sg))
            t = scale(o, k)
            if a in fixed and t is not of(a):
                return False
            sg[a] = t
            return True
        if set(j.env) != set(s.env) or j.dead != s.dead:
            return False
        for k, v in sorted(j.env.items(), key=lambda z: len(z[1].m)):
            if not match(v, s.env[k]):
                return False
        for k, v in j.g.items():
            if k not in s.g:
                return False
            if isinstance(v, Lin):
                if not isinstance(s.g[k], Lin) or not match(v, s.g[k]):
                    return False
            elif v != s.g[k]:
                return False
        for k, v in s.g.items():
            if k not in j.g and not isinstance(v, Lin):
                return False
        todo = sorted(j.mem.items(), key=lambda z: len(z[0][0].m))
        for rounds in range(3):
            rem = []
            for k, v in todo:
                r = k[0]
                un = [a for a in r.deps if a not in sg and a.kind == 's' and a not in fixed]
                if un and rounds < 2:
                    rem.append((k, v))
                    continue
                rr = subst(r, sg)
                c = s.mem.get((rest(rr), k[1] + rr.c))
                if c is None or c[1] != v[1]:
                    if self.in_zero(s, rest(rr), k[1] + rr.c, v[1]) is not None:
                        c = (ZERO, v[1])
                    else:
                        return False
                if not match(v[0], c[0]):
                    return False
            todo = rem
            if not todo:
                break
        d = defer
        for p, v in d:
            if not s.eq(subst(p, sg), v):
                return False
        for r, z in j.zero.items():
            rr = subst(r, sg)
            z2 = s.zero.get(rest(rr), ())
            for lo, hi in z:
                if not any(a <= lo + rr.c and hi + rr.c <= b for a, b in z2):
                    return False
        for K, (lo, hi, ex) in j.facts.items():
            x = subst(K, sg)
            l2, h2, e2 = s.bounds(x)
            if lo is not None and (l2 is None or l2 < lo):
                return False
            if hi is not None and (h2 is None or h2 > hi):
                return False
            for e in ex:
                if not ((l2 is not None and l2 > e) or (h2 is not None and h2 < e) or e in e2):
                    return False
        if not s.esc <= j.esc:
            return False
        return True

    def join(self, a, b, site, widen):
        strong = widen >= 10
        n = S()
        n.trace = b.trace
        n.loops = b.loops
        n.dead = a.dead
        n.cnt = dict(a.cnt)
        for k, v in b.cnt.items():
            if v > n.cnt.get(k, 0):
                n.cnt[k] = v
        n.esc = a.esc | b.esc
        pm = {}
        rows = []
        base = []
        amap = {}
        phis = []
        derived = []
        lim = []

        def limits():
            if not lim:
                l = set()
                for v in n.env.values():
                    if len(v.m) == 1 and v.m[0][1] == 1 and v.m[0][0].kind in ('p', 's') or len(v.m) == 2 and \
                            all(c in (1, -1) and x.kind in ('p', 's') for x, c in v.m):
                        t = lin(0, v.m)
                        lo = a.bounds(t)[0]
                        if lo is not None and 0 < lo < 4096:
                            l.add(t)
                    elif len(v.m) == 2:
                        # the end of an array: its begin and a multiple of the number of its elements
                        for q, c in v.m:
                            if c > 1 and q.kind in ('p', 's'):
                                lo = a.bounds(of(q))[0]
                                if lo is not None and 0 < lo < 4096:
                                    l.add(of(q))
                lim.append(l)
            return lim[0]

        def red(s, x):
            m = {}
            for q, _ in x.m:
                f = s.facts.get(of(q))
                if f is not None and f[0] == f[1] == 0:
                    m[q] = const(f[0])
            return subst(x, m) if m else x

        def same(s, x, y):
            """does x, which both states know, equal y in s?"""
            return x.m and all(q.kind in 'pog' for q in x.deps) and s.eq(x, y)

        def span(d, new=None):
            """d as an integer combination of the changes of the values joined so far"""
            lam = {}
            d = {q: Fraction(c) for q, c in d.m + (((None, d.c),) if d.c else ())}
            for piv, row, comb in rows:
                c = d.get(piv)
                if c:
                    for q, v in row.items():
                        w = d.get(q, 0) - c * v
                        if w:
                            d[q] = w
                        else:
                            d.pop(q, None)
                    for q, v in comb.items():
                        lam[q] = lam.get(q, 0) + c * v
            if new is None:
                lam = {q: v for q, v in lam.items() if v}
                if d or any(v.denominator != 1 for v in lam.values()):
                    return None
                return {q: int(v) for q, v in lam.items()}
            if d:
                piv = next(iter(d))
                c = d[piv]
                comb = {q: -v / c for q, v in lam.items()}
                comb[new] = 1 / c
                rows.append((piv, {q: v / c for q, v in d.items()}, comb))

        def J(x, y):
            if x is y:
                return x
            if not widen:
                x, y = red(a, x), red(b, y)
                if x is y:
                    return x
            if len(x.m) > 1 and x.m != y.m:
                v = a.val(x)
                if v is not None:
                    x = const(v)
            if len(y.m) > 1 and x.m != y.m:
                v = b.val(y)
                if v is not None:
                    y = const(v)
            if x is y:
                return x
            if x.m != y.m:
                if same(b, x, y):
                    return x
                if same(a, y, x):
                    return y
            if x.m and not y.m and a.val(x) == y.c:
                x = y
                return x
            if y.m and not x.m and b.val(y) == x.c:
                return x
            k = x.c
            X = lin(0, x.m)
            Y = lin(y.c - k, y.m)
            p = pm.get((X, Y))
            if p is None:
                # does the relation it has with other joined values persist?
                if widen and len(X.m) > 1 and any(q in amap for q, _ in X.m):
                    X2 = subst(X, {q: t[1] for q, t in amap.items() if q in X.deps})
                    if X2 is Y:
                        p = subst(X, {q: t[0] for q, t in amap.items() if q in X.deps})
                        derived.append((p, X, Y))
                # or does it have one with other joined values?
                d = sub(Y, X)
                if p is None:
                    lam = span(d) if widen < 7 else None
                    if lam is not None:
                        p = X
                        for k2, c2 in lam.items():
                            p = add(p, sub(base[k2][0], base[k2][1]), c2)
                        derived.append((p, X, Y))
                if p is None:
                    p = self.fresh(n, ('phi', site))
                    span(d, len(base))
                    base.append((p, X))
                    phis.append((p, X, Y))
                    if len(X.m) == 1 and X.m[0][1] == 1:
                        amap[X.m[0][0]] = (p, Y)
                pm[(X, Y)] = p
            return add(p, const(k))
        # the simplest terms first: the others are expressed by them where possible
        todo = [(v, b.env[k]) for k, v in a.env.items() if k in b.env]
        todo += [(v, b.g[k]) for k, v in a.g.items() if isinstance(v, Lin) and isinstance(b.g.get(k), Lin)]
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is not None and w[1] == v[1]:
                todo.append((v[0], w[0]))
        todo = [(x, y) for x, y in todo if x is not y]
        todo.sort(key=lambda z: len(z[0].m))
        for x, y in todo:
            J(x, y)
        n.env = {k: J(v, b.env[k]) for k, v in a.env.items() if k in b.env}
        n.g = {}
        for k, v in a.g.items():
            if k in b.g:
                w = b.g[k]
                n.g[k] = J(v, w) if isinstance(v, Lin) and isinstance(w, Lin) else v
        n.mem = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None and self.in_zero(b, k[0], k[1], v[1]) is not None:
                w = (ZERO, v[1])
            if w is not None and w[1] == v[1]:
                n.mem[k] = (J(v[0], w[0]), v[1])
        for k, w in b.mem.items():
            if k not in a.mem and self.in_zero(a, k[0], k[1], w[1]) is not None:
                n.mem[k] = (J(ZERO, w[0]), w[1])
        # what is known of the objects that a joined pointer points to
        for p, X, Y in list(phis):
            if len(X.m) != 1 or X.m[0][1] != 1 or len(Y.m) != 1 or Y.m[0][1] != 1:
                continue
            RX, RY = rest(X), rest(Y)
            if RX is RY:
                continue
            sx = self.stypes.get(RX)
            if sx is None or Y.c or sx != self.stypes.get(RY):
                continue
            self.note_stype(p, sx)
            for k in [k for k in a.mem if k[0] is RX]:
                w = b.mem.get((RY, k[1]))
                if w is not None and w[1] == a.mem[k][1] and (p, k[1]) not in n.mem:
                    n.mem[(p, k[1])] = (J(a.mem[k][0], w[0]), w[1])
        n.zero = {}
        for r, z in a.zero.items():
            z2 = b.zero.get(r, ())
            zz = []
            for lo, hi in z:
                for l2, h2 in z2:
                    if max(lo, l2) < min(hi, h2):
                        zz.append((max(lo, l2), min(hi, h2)))
            if zz:
                n.zero[r] = tuple(sorted(zz))
        # cells that only one side has, inside a region both know to be zero
        for r in n.zero:
            for src in (a, b):
                for k in src.mem:
                    if k[0] is r and k not in n.mem and self.in_zero(n, r, k[1], src.mem[k][1]) is not None:
                        n.mem[k] = (self.fresh(n, ('phi', site)), src.mem[k][1])
        n.facts = {}
        for K in set(a.facts) | set(b.facts):
            h = self.hull(a.bounds(K), b.bounds(K))
            if h != TOP:
                n.facts[K] = h
        for p, X, Y in phis:
            ba, bb = a.bounds(X), b.bounds(Y)
            h = self.hull(ba, bb)
            if widen:
                lo, hi, ex = h
                if lo is not None and ba[0] != lo:
                    lo = 0 if lo >= 0 and not strong else None
                if hi is not None and ba[1] != hi:
                    hi = None if strong else I63 if hi <= I63 else I64 if hi <= I64 else None
                h = (lo, hi, ex)
            if h != TOP:
                n.facts[p] = h
            # relations with unchanged terms
            cand = set()
            if widen and len(X.m) == 1 and X.m[0][1] == 1 and X.m[0][0].kind in ('p', 'o', 'g', 'fld'):
                # a pointer that moves: from where it began
                cand.add(X)
            for src, Z in ((a, X), (b, Y)):
                for K in src.facts:
                    if len(K.m) == 2:
                        (a1, k1), (a2, k2) = K.m
                        if k1 == 1 and k2 == -1 or k1 == -1 and k2 == 1:
                            if a1 in Z.deps:
                                cand.add(of(a2))
                            elif a2 in Z.deps:
                                cand.add(of(a1))
                    elif len(K.m) == 3 and len(Z.m) == 1 and Z.m[0][1] == 1:
                        for x, c in K.m:
                            if x is Z.m[0][0] and c in (1, -1):
                                t = sub(Z, K) if c == 1 else add(Z, K)
                                cand.add(lin(0, t.m))
            if not X.m and not strong:
                # from a constant to another: compare with the terms that bound the loop
                fb = n.facts.get(p, TOP)
                for c in limits():
                    if c in cand:
                        continue
                    t = c
                    h = self.hull(a.bounds(sub(X, t)), b.bounds(sub(Y, t)))
                    tb = self.hull(a.bounds(t), b.bounds(t))
                    if h[1] is not None and (h[1] < 0 or fb[1] is None or tb[0] is None or h[1] < fb[1] - tb[0]):
                        cand.add(c)
            elif widen and not strong and len(X.m) == 1 and X.m[0][1] == 1 and X.m[0][0].kind == 's' and \
                    n.facts.get(p, TOP)[0] is not None:
                # a counter: the terms that bound the loop
                cand |= limits()
            for t in cand:
                h = self.hull(a.bounds(sub(X, t)), b.bounds(sub(Y, t)))
                if widen:
                    ra = a.bounds(sub(X, t))
                    lo, hi, ex = h
                    if lo is not None and lo != ra[0]:
                        lo = None if strong else 1 if lo > 0 else 0 if lo == 0 else None
                    if hi is not None and hi != ra[1]:
                        hi = None if strong else -1 if hi < 0 else 0 if hi == 0 else None
                    h = (lo, hi, ex)
                if h[0] is not None or h[1] is not None:
                    try:
                        restrict(n.facts, sub(p, t), h[0], h[1])
                    except Infeasible:
                        pass
                for e in h[2]:
                    if e not in (0, -1) or len(t.m) == 1 and (t.m[0][0].lo is None or t.m[0][0].lo < 4096):
                        try:
                            T.assume(n.facts, mk_eq(sub(sub(p, t), const(e))), False)
                        except Infeasible:
                            pass
        for p, X, Y in derived:
            ba = a.bounds(X)
            lo, hi, ex = self.hull(ba, b.bounds(Y))
            if widen:
                if lo is not None and ba[0] != lo:
                    lo = 0 if lo >= 0 and not strong else None
                if hi is not None and ba[1] != hi:
                    hi = None if strong else I63 if hi <= I63 else I64 if hi <= I64 else None
            if lo is not None or hi is not None:
                try:
                    restrict(n.facts, p, lo, hi)
                except Infeasible:
                    pass
        for i in range(len(phis)):
            for q in range(i + 1, len(phis)):
                p1, X1, Y1 = phis[i]
                p2, X2, Y2 = phis[q]
                ra = a.bounds(sub(X1, X2))
                rb = b.bounds(sub(Y1, Y2))
                h = self.hull(ra, rb)
                lo, hi, ex = h
                if widen:
                    if lo is not None and lo != ra[0]:
                        lo = None if strong else 1 if lo > 0 else 0 if lo == 0 else None
                    if hi is not None and hi != ra[1]:
                        hi = None if strong else -1 if hi < 0 else 0 if hi == 0 else None
                if lo is not None or hi is not None:
                    try:
                        restrict(n.facts, sub(p1, p2), lo, hi)
                    except Infeasible:
                        pass
        # relations the property is about
        ra, rb, rn = self.model.relations(a), self.model.relations(b), self.model.relations(n)
        for k, t in rn.items():
            if k in ra and k in rb:
                lo = a.bounds(ra[k])[0]
                l2 = b.bounds(rb[k])[0]
                if lo is not None and l2 is not None and min(lo, l2) >= 0:
                    try:
                        restrict(n.facts, t, 0)
                    except Infeasible:
                        pass
        self.gc(n)
        return n

    def hull(self, x, y):
        lo = None if x[0] is None or y[0] is None else min(x[0], y[0])
        hi = None if x[1] is None or y[1] is None else max(x[1], y[1])
        if lo is not None and lo < -BIG:
            lo = None
        if hi is not None and hi > BIG:
            hi = None
        ex = set()
        for e in x[2] | y[2] | {0, -1}:
            def out(z):
                return (z[0] is not None and z[0] > e) or (z[1] is not None and z[1] < e) or e in z[2]
            if out(x) and out(y):
                ex.add(e)
        l, h, e = tighten(lo, hi, frozenset(ex))
        return (l, h, e)

    def merge_many(self, states, f, b):
        """too many states at a merge point: join those the rules cannot tell apart"""
        groups = {}
        for s in states:
            k = (tuple(sorted(s.loops.items())), self.loopkey(s, f, b), self.model.mergekey(s),
                 tuple(s.env[p.res].c for p in b.phis if p.res in s.env and not s.env[p.res].m))
            groups.setdefault(k, []).append(s)
        out = []
        for k, l in groups.items():
            j = l[0]
            for s in l[1:]:
                j = self.join(j, s, (f.name, b.name, 'merge'), 0)
            out.append(j)
        return out


T_BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
         'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
T_CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp',
          'fptosi', 'fptoui', 'fpext', 'fptrunc'}
