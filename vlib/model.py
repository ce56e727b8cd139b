"""What the analyses know about neco's primitives: the running coroutine, the
points where it can be suspended, who may change what meanwhile, and the
effects of the list, tree, worker, allocation and system calls."""
from ir import AnalysisBroken
from terms import *
import terms as T

SELF_A = atom('p', 'SELF', lo=4096)
RT_A = atom('p', 'RT', lo=4096)
ERRNO_A = atom('p', 'ERRNO', lo=4096)
SELF = of(SELF_A)
RT = of(RT_A)
ERRNO = of(ERRNO_A)
LASTERR = of(atom('g', 'lasterr', lo=4096))

# members of the running coroutine that only it changes
PRIVATE = {'deadline', 'cleanup', 'evfd', 'evkind', 'canceltype', 'cancelstate', 'sigwatch',
           'rlocked', 'suspended', 'working', 'paused', 'gen', 'argc', 'argv', 'aargv', 'coroutine',
           'id', 'kind', 'starterid', 'stack', 'pool_ts'}

# members that are set when the object is made and never again
STREAM_LEN = ('rd.len', 'rd.pos', 'wr.len')

IMMUTABLE = {
    ('runtime', 'id'), ('runtime', 'mainthread'), ('runtime', 'worker'),
    ('neco_chan', 'rtid'), ('neco_chan', 'msgsize'), ('neco_chan', 'bufcap'),
    ('neco_mutex', 'rtid'), ('neco_cond', 'rtid'), ('neco_waitgroup', 'rtid'),
    ('neco_stream', 'rtid'), ('neco_stream', 'fd'), ('neco_stream', 'buffered'), ('neco_stream', 'cap'),
    ('coroutine', 'kind'),
    ('coselectcase', 'kind'), ('coselectcase', 'chan'), ('coselectcase', 'co'), ('coselectcase', 'data'),
    ('coselectcase', 'ok'), ('coselectcase', 'idx'), ('coselectcase', 'ret_idx'),
    ('cleanup', 'routine'), ('cleanup', 'arg'), ('cleanup', 'next'),
}
# ids: 0 or that of a coroutine
NONNEG_FIELDS = {('coroutine', 'lastid'), ('coroutine', 'starterid')}
CONST_GLOBALS = {'rt', 'env_paniconerror', 'env_canceltype', 'env_cancelstate', 'malloc_', 'realloc_', 'free_'}

TREES = ('all', 'dlqueue', 'evaat', 'sco_aat')
TREE_OPS = ('insert', 'delete', 'search', 'delete_first', 'delete_last', 'first', 'last', 'iter', 'next',
            'prev')
LISTS = {'colist_push_back', 'colist_pop_front', 'colist_is_empty', 'colist_init', 'remove_from_list'}
CANCEL_ENABLE, CANCEL_DISABLE, CANCEL_ASYNC = 3, 4, 1
SUSPEND = {'sco_pause', 'sco_yield', 'sco_resume', 'sco_start'}

NONNEG = {'strlen', 'time', 'sco_info_scheduled', 'sco_info_paused', 'sco_info_running'}
SYSCALLS = {'read', 'write', 'accept', 'connect', 'socket', 'bind', 'listen', 'close', 'fcntl', 'pipe',
            'epoll_create1', 'epoll_ctl', 'epoll_wait', 'setsockopt', 'nanosleep', 'unlink', 'sigaction',
            'sigaltstack', 'mmap', 'munmap', 'mprotect', 'clock_gettime', 'kqueue', 'kevent', 'recv', 'send',
            'accept4', 'pipe2', 'socketpair', 'shutdown', 'dup', 'dup2', 'poll'}
QUIET = {'print_stacktrace'}

# the interfaces of the stack manager and of the background threads: analysed on their own
OPAQUE = {'stack_get', 'stack_put', 'stack_size', 'stack_addr', 'stack_mgr_init', 'stack_mgr_destroy', 'worker_new',
          'worker_free'}


class Model:
    maxstates = 600000
    mergelimit = 100
    retlimit = 16
    entlimit = 12
    exit_fn = 'coexit'
    tracknow = False
    unroll = 1
    followend = False       # look into functions that do not return

    def __init__(self, mod, inline_exit=False, outside=False, sco_prims=True, nopanic=True, fork=False,
                 summaries=(), unroll=1, tracknow=False, sched=False, **limits):
        self.mod = mod
        self.unroll = unroll
        self.tracknow = tracknow
        for k, v in limits.items():
            assert hasattr(Model, k), k
            setattr(self, k, v)
        self.sched = sched      # the scheduler itself runs, no coroutine
        self.fork = fork
        self.summaries = set(summaries)
        self.has_flag = {k: k in {v[0] for v in mod.fields.get('coroutine', {}).values()}
                         for k in ('deadlined', 'granted', 'canceled')}
        self.nopanic = nopanic
        self.outside = outside
        self.inline_exit = inline_exit
        self.sco_prims = sco_prims
        self.roots = {SELF_A, RT_A, ERRNO_A}
        self.popped = set()
        self.boolf = {k for k, v in mod.ftypes.items() if v in ('_Bool', 'bool')}
        self.sizet = {k for k, v in mod.ftypes.items() if v in ('unsigned long', 'size_t', 'long unsigned int')}
        for n in ('struct.coroutine', 'struct.runtime', 'struct.colist'):
            if n not in mod.types:
                raise AnalysisBroken('anchor vanished: ' + n)
        self.o_next = mod.off('colist', 'head') + mod.off('colink', 'next')
        self.o_tail = mod.off('colist', 'tail')
        for p in LISTS | {'copause', 'checkdl'}:
            if sco_prims and p not in mod.funcs and p in LISTS:
                raise AnalysisBroken('anchor vanished: function ' + p)
        f = mod.funcs.get(self.exit_fn)
        self.has_exit = f is not None and any(n == 'sco_exit' for n, _ in mod.callee_names(f))

    def attach(self, eng):
        self.eng = eng
        eng.stypes[SELF] = 'struct.coroutine'
        eng.stypes[RT] = 'struct.runtime'

    def relations(self, st):
        """differences whose sign has to survive joins"""
        return {}

    def mergekey(self, st):
        """states that differ in this are not joined"""
        r = []
        for k in ((LASTERR, 0), (ERRNO, 0)):
            c = st.mem.get(k)
            r.append('unset' if c is None else (st.val(c[0]), not c[0].m))
        return tuple(r) + self.flagkey(st)

    def flagkey(self, st):
        if not self.fork:
            return ()
        return tuple(self.selfval(st, m) for m in ('canceled', 'deadlined', 'granted') if self.has_flag[m])

    # ------------------------------------------------ addresses of members
    def field(self, base, struct, *path):
        o = 0
        st = struct
        for p in path:
            o += self.mod.off(st, p)
            st = {'head': 'colink', 'tail': 'colink'}.get(p, 'colist')
        return add(base, const(o))

    def get(self, st, base, struct, member):
        """current value of a member (materialised when unknown)"""
        a = self.field(base, struct, member)
        self.eng.note_stype(base, 'struct.' + struct)
        return self.eng.load(st, a, self.mod.fsize(struct, member), None)

    # ------------------------------------------------ aliasing, initial values
    def may_equal(self, st, a, b):
        if a.kind == 'p' and b.kind == 'p':
            return a is b
        for x, y in ((a, b), (b, a)):
            if x is SELF_A and y in self.popped:
                return False
            if x is RT_A or x is ERRNO_A:
                return False
        return True

    def same_field(self, t1, t2):
        return False

    def leafkey(self, tag):
        """(innermost struct, member) of a tag"""
        s, path = tag[0], tag[1].split('.')
        for p in path[:-1]:
            t = self.mod.types.get('struct.' + s)
            if t is None or p.startswith('[') or p.startswith('#'):
                return (s, path[-1])
            want = self.mod.off(s, p)
            for i in range(len(t.a)):
                o, et = self.mod.field_off(t, i)
                if o == want:
                    break
            if et.k != 'named':
                return (s, path[-1])
            s = et.a.split('.', 1)[1]
        return (s, path[-1])

    def field_range(self, tag, size):
        if tag is None:
            return (None, None)
        k = self.leafkey(tag)
        if k in self.boolf:
            return (0, 1)
        if k in self.sizet or k in NONNEG_FIELDS:
            return (0, None)
        return (None, None)

    def init_load(self, st, r, off, size, ins):
        if len(r.m) == 1 and r.m[0][0].kind == 'g' and r.m[0][1] == 1 and off == 0:
            n = r.m[0][0].a[0]
            if n == 'rt':
                return ZERO if self.outside else RT
            if n == 'env_paniconerror' and self.nopanic:
                return ZERO
        tag = self.eng.tag(add(r, const(off)))
        if tag is not None and tag[0] == 'coroutine' and self.is_case(st, r):
            tag = self.eng.leaf('struct.coselectcase', off)
        if tag == ('coroutine', 'id'):
            return of(atom('idof', r, lo=1))
        if tag is not None and tag[0] == 'neco_stream' and tag[1] in STREAM_LEN:
            # the invariant of stream buffers (rule C24): bytes held fit the buffer
            v = self.eng.fresh(st, ('len', tag[1]), lo=0, hi=(1 << 62) - 1)
            cap = self.get(st, r, 'neco_stream', 'cap')
            st.assume(mk_le(sub(v, cap)), True)
            o = {'rd.len': 'pos', 'rd.pos': 'len'}.get(tag[1])
            if o:
                c = st.mem.get((r, self.mod.off('neco_stream', 'rd') + self.mod.off('bufrd', o)))
                if c is not None:
                    st.assume(mk_le(sub(add(v, c[0]), cap)), True)
            return v
        if tag in IMMUTABLE:
            lo, hi = self.field_range(tag, size)
            if tag in (('neco_chan', 'msgsize'), ('neco_chan', 'bufcap')):
                lo, hi = 0, (1 << 31) - 1
            if tag == ('runtime', 'id'):
                lo = 1
            v = of(atom('fld', r, off, tag[1], lo=lo, hi=hi))
            if tag[0] == 'coselectcase' and tag[1] in ('co', 'ret_idx', 'ok', 'chan') and self.is_case(st, r):
                # a queued case is complete (rule C15)
                st.assume(mk_le(sub(const(4096), v)), True)
            if tag == ('coselectcase', 'co'):
                self.eng.note_stype(v, 'struct.coroutine')
            return v
        return None

    def is_case(self, st, r):
        """is this element of a queue known to be the case of a select?"""
        if 'struct.coselectcase' not in self.mod.types or 'SELECTCASE' not in self.mod.enums:
            return False
        c = st.mem.get((r, self.mod.off('coroutine', 'kind')))
        return c is not None and st.val(c[0]) == self.mod.enums['SELECTCASE']

    # ------------------------------------------------ suspension
    def keep_cell(self, st, key):
        r, off = key
        eng = self.eng
        root = eng.roots(r)
        if root is None:
            return False
        if root.kind == 'o' and root not in st.esc:
            return True
        tag = eng.tag(add(r, const(off)))
        if root.kind == 'g':
            n = root.a[0]
            g = self.mod.globals.get(n)
            return n in CONST_GLOBALS or bool(g and g['const'])
        if root.kind == 'o' and tag is not None and tag[0] == 'coroutine':
            return False
        if tag is None:
            return False
        if root is SELF_A:
            return tag[1].split('.')[0] in PRIVATE
        return tag in IMMUTABLE

    def suspend(self, st, kind, args, ins):
        """the coroutine may be switched out here: list of the states it continues in"""
        eng = self.eng
        for m in eng._ov['on_suspend']:
            m.on_suspend(st, kind, args, ins)
            if st.dead:
                return []
        if kind == 'sco_pause' and self.fork:
            return self.pause(st, ins)
        if self.fork:
            return self.other_switch(st, kind, ins)
        self.havoc(st, kind, ins)
        return [st]

    def other_switch(self, st, kind, ins):
        """a switch that is not a pause: a cancelation may arrive"""
        ca = self.get(st, SELF, 'coroutine', 'canceled')
        cs = self.get(st, SELF, 'coroutine', 'cancelstate')
        v0 = st.val(ca)
        if kind.startswith('api:'):
            # it may also have consumed one
            v0 = None
        out = []
        for c in (0, 1):
            if v0 == 1 and c == 0:
                continue
            s = st.copy()
            if v0 == 0 and c == 1 and not s.assume(mk_eq(sub(cs, const(CANCEL_ENABLE))), True):
                continue
            self.havoc(s, kind, ins)
            self.setself(s, 'canceled', const(c))
            out.append(s)
        return out

    def selfval(self, st, member):
        c = st.mem.get((SELF, self.mod.off('coroutine', member)))
        return None if c is None else st.val(c[0])

    def setself(self, st, member, v):
        st.mem[(SELF, self.mod.off('coroutine', member))] = (v, self.mod.fsize('coroutine', member))

    def havoc(self, st, kind, ins):
        """others ran: forget what they may have changed. They set the running
        coroutine's flags only as its registrations allow."""
        flags = {}
        ca = self.get(st, SELF, 'coroutine', 'canceled')
        cs = self.get(st, SELF, 'coroutine', 'cancelstate')
        if st.val(ca) == 1 or (st.val(cs) is not None and st.val(cs) != CANCEL_ENABLE):
            flags['canceled'] = ca
        if self.has_flag['deadlined'] and 'D' not in st.g:
            flags['deadlined'] = self.get(st, SELF, 'coroutine', 'deadlined')
        if self.has_flag['granted'] and 'L' not in st.g and 'S' not in st.g and \
                self.selfval(st, 'suspended') == 0:
            flags['granted'] = self.get(st, SELF, 'coroutine', 'granted')
        st.mem = {k: v for k, v in st.mem.items() if self.keep_cell(st, k)}
        for k, v in flags.items():
            self.setself(st, k, v)
        z = {}
        for r, iv in st.zero.items():
            root = self.eng.roots(r)
            if root is not None and root.kind == 'o' and root not in st.esc:
                z[r] = iv
        st.zero = z
        st.g['woke'] = st.g.get('woke', 0) + 1 if st.g.get('woke', 0) < 2 else 2

    def pause(self, st, ins):
        """every way in which a pause can end, as one state each: g['why'] is the
        set of 'g'ranted, 'd'eadline passed, 'c'anceled, or 'e'vent (none of them)"""
        ca0 = self.get(st, SELF, 'coroutine', 'canceled')
        cs = self.get(st, SELF, 'coroutine', 'cancelstate')
        working = self.selfval(st, 'working') == 1
        v0 = st.val(ca0)
        canc = [v0] if v0 is not None else [0, 1]
        if v0 == 0 and st.val(cs) in (None, CANCEL_ENABLE):
            canc = [0, 1]
        sel = self.select_result(st)
        listed = 'L' in st.g or 'S' in st.g or self.selfval(st, 'suspended') == 1
        out = []
        for g in ([0, 1] if listed else [0]):
            for d in ([0, 1] if 'D' in st.g else [0]):
                for c in canc:
                    ev = 'E' in st.g or working
                    if not g and not d and not c and not ev:
                        continue
                    s = st.copy()
                    if v0 is None and not s.assume(mk_eq(ca0), c == 0):
                        continue
                    if c == 1 and v0 != 1 and not s.assume(mk_eq(sub(cs, const(CANCEL_ENABLE))), True):
                        if v0 == 0:
                            continue
                    self.havoc(s, 'sco_pause', ins)
                    self.setself(s, 'canceled', const(c))
                    self.setself(s, 'deadlined', const(d))
                    self.setself(s, 'granted', const(g))
                    why = ('g' if g else '') + ('d' if d else '') + ('c' if c else '')
                    s.g['why'] = why or 'e'
                    if sel is not None:
                        p, old = sel
                        s.mem[p] = (self.eng.fresh(s, ('selidx', ins.id), lo=0, hi=(1 << 31) - 1), 4) if g else old
                    s.g.setdefault('w1', why or 'e')
                    if d:
                        s.g['late'] = (s.g['D'][1],)
                        s.g['latewhy'] = why
                    if g:
                        if 'L' in s.g and self.listtag(s.g['L'][0]) == ('runtime', 'sigwaiters'):
                            # the scheduler tells which signal it was (C25)
                            self.setself(s, 'sigmask', self.eng.fresh(s, ('signo', ins.id), lo=1, hi=31))
                        s.g.pop('L', None)
                    s.trace = ((ins.fn, self.mod.line(ins), 'woken:' + (why or 'e')), s.trace)
                    out.append(s)
        return out

    def select_result(self, st):
        """where a select is told which of its cases was served"""
        if 'S' not in st.g:
            return None
        co = st.g['S'][0]
        c = st.mem.get((rest(co), co.c + self.mod.off('coselectcase', 'ret_idx')))
        if c is None:
            return None
        k = (rest(c[0]), c[0].c)
        old = st.mem.get(k)
        return (k, old) if old is not None else None

    # ------------------------------------------------ lists
    def listtag(self, lst):
        t = self.eng.tag(lst)
        return (t[0], t[1].split('.')[0]) if t else None

    def list_first(self, st, lst, ins):
        return self.eng.load(st, add(lst, const(self.o_next)), 8, ins)

    def list_call(self, st, name, args, ins):
        eng = self.eng
        if name == 'colist_init':
            eng.store(st, add(args[0], const(self.o_next)), add(args[0], const(self.o_tail)), 8, ins, quiet=True)
            return [(st, None)]
        if name == 'colist_is_empty':
            v = self.list_first(st, args[0], ins)
            return [(st, eng.icmp(st, 'eq', v, add(args[0], const(self.o_tail)), 64))]
        if name == 'colist_pop_front':
            v = self.list_first(st, args[0], ins)
            emp = eng.icmp(st, 'eq', v, add(args[0], const(self.o_tail)), 64)
            out = []
            e = st.copy()
            if e.assume(emp, True):
                out.append((e, ZERO))
            if st.assume(emp, False):
                if st.assume(mk_eq(v), False):
                    for a in v.deps:
                        if a.kind == 's':
                            self.popped.add(a)
                    nx = eng.fresh(st, ('popnext', ins.id), lo=4096)
                    eng.store(st, add(args[0], const(self.o_next)), nx, 8, ins, quiet=True)
                    eng.note_stype(v, 'struct.coroutine')
                    out.append((st, v))
            return out
        if name == 'colist_push_back':
            lst, co = args
            if co is SELF:
                st.g['L'] = (lst,)
            else:
                root = eng.roots(rest(co))
                if root is not None and root.kind == 'o':
                    if 'S' not in st.g:
                        st.g['S'] = (co,)
                        st.g['np'] = st.g['nr'] = ZERO
                    st.g['np'] = add(st.g['np'], ONE)
            eng.escape_val(st, co)
            v = self.list_first(st, lst, ins)
            emp = eng.icmp(st, 'eq', v, add(lst, const(self.o_tail)), 64)
            ev = st.val(emp)
            self.drop_links(st, co)
            if ev == 1:
                eng.store(st, add(lst, const(self.o_next)), co, 8, ins, quiet=True)
            elif ev is None:
                nv = eng.fresh(st, ('pushfirst', ins.id), lo=4096)
                st.assume(mk_eq(sub(nv, add(lst, const(self.o_tail)))), False)
                eng.store(st, add(lst, const(self.o_next)), nv, 8, ins, quiet=True)
            return [(st, None)]
        if name == 'remove_from_list':
            co = args[0]
            if co is SELF:
                st.g.pop('L', None)
            elif 'S' in st.g:
                root = eng.roots(rest(co))
                if root is not None and root.kind == 'o':
                    st.g['nr'] = add(st.g['nr'], ONE)
            self.drop_links(st, co)
            # it may have been the first of any list
            for k in [k for k, v in st.mem.items()
                      if self.is_head(k) and v[0].m and (not st.ne(v[0], co))]:
                if st.mem[k][0] is co or self.may_be(st, st.mem[k][0], co):
                    eng.kill_cell(st, k)
            return [(st, None)]

    def may_be(self, st, a, b):
        ra, rb = self.eng.roots(rest(a)), self.eng.roots(rest(b))
        if ra is None or rb is None:
            return True
        return self.may_equal(st, ra, rb)

    def is_head(self, key):
        t = self.eng.tag(add(key[0], const(key[1])))
        return t is not None and t[1].endswith('head.next')

    def drop_links(self, st, co):
        for o in (0, 8):
            st.mem.pop((rest(co), co.c + o), None)

    # ------------------------------------------------ calls
    def call(self, st, name, args, ins):
        """effect of a primitive: list of (state, value); None: follow the call"""
        eng = self.eng
        if name in self.summaries:
            return self.summary(st, name, args, ins)
        if name in LISTS:
            return self.list_call(st, name, args, ins)
        if self.sco_prims and name.startswith('sco_'):
            return self.sco_call(st, name, args, ins)
        p, _, op = name.partition('_')
        if p in TREES and op in TREE_OPS:
            return self.tree_call(st, p, op, args, ins)
        if name == 'mix13' or name == 'sco_mix13':
            return [(st, of(atom('mix13', *args)))]
        if name == self.exit_fn and self.has_exit and not self.inline_exit:
            return self.exit_call(st, args, ins)
        if name in ('neco_malloc', 'malloc', 'calloc'):
            return self.alloc(st, name, args, ins)
        if name in ('neco_realloc', 'realloc'):
            o = self.alloc(st, name, args, ins)
            return o
        if name in ('neco_free', 'free'):
            return [(st, None)]
        if name == 'getnow':
            v = eng.fresh(st, ('now', ins.id), lo=0, hi=(1 << 63) - 1, what='now')
            if self.tracknow:
                st.g['now'] = v
            if 'late' in st.g:
                st.assume(mk_le(sub(add(st.g['late'][0], ONE), v)), True)
            return [(st, v)]
        if name == 'worker_submit':
            return self.worker_submit(st, args, ins)
        if name in QUIET:
            return [(st, None)]
        if name in OPAQUE:
            return self.external(st, name, args, ins)
        if name == 'is_main_thread':
            return [(st, eng.fresh(st, ('mainth', ins.id), lo=0, hi=1))]
        f = self.mod.funcs.get(name)
        if f is not None and f.noreturn and not self.followend:
            return []
        return None

    def summary(self, st, name, args, ins):
        """an API function that is analysed on its own: it may suspend, end the
        coroutine when cancelation is asynchronous, and return anything it may"""
        eng = self.eng
        for x in args:
            eng.escape_val(st, x)
        out = []
        for s in self.suspend(st, 'api:' + name, args, ins):
            e = s.copy()
            if e.assume(mk_eq(sub(self.get(e, SELF, 'coroutine', 'canceltype'), ONE)), True):
                self.path_exit(e, ins)
            out += self.results(s, name, args, ins)
        return out

    def results(self, s, name, args, ins):
        """what a summarised function can return, with the last error and errno"""
        eng = self.eng

        def last(st, v):
            st.mem[(LASTERR, 0)] = (v, 4)

        def failed(st):
            self.set_errno(st, ins)
            last(st, eng.fresh(st, ('lasterr', ins.id), hi=-1))
            return (st, const(-1))
        if name == 'neco_getaddrinfo_dl':
            ok, sysf, other = s, s.copy(), s.copy()
            self.set_errno(sysf, ins)
            eng.store(ok, args[3], eng.fresh(ok, ('gai', ins.id), lo=4096, what='ainfo'), 8, ins, quiet=True)
            last(ok, ZERO)
            last(sysf, eng.fresh(sysf, ('lasterr', ins.id), hi=-1))
            last(other, const(-14))
            out = [(ok, ZERO), (sysf, const(-11))]
            v = eng.fresh(other, ('gaierr', ins.id))
            if other.assume(mk_eq(v), False) and other.assume(mk_eq(sub(v, const(-11))), False):
                out.append((other, v))
            return out
        if name == 'neco_connect_dl':
            f = s.copy()
            last(s, ZERO)
            return [(s, ZERO), failed(f)]
        if name == 'neco_accept_dl':
            f = s.copy()
            last(s, ZERO)
            return [(s, eng.fresh(s, ('api', ins.id), lo=0, what=name)), failed(f)]
        if name in ('neco_read_dl', 'neco_write_dl'):
            f = s.copy()
            n = args[2]
            out = [failed(f)]
            if name == 'neco_write_dl':
                p = s.copy()
                v = eng.fresh(p, ('apipart', ins.id), lo=1, what='written')
                last(p, const(-16))
                try:
                    T.restrict(p.facts, n, lo=2)
                    T.restrict(p.facts, sub(v, n), hi=-1)
                    out.append((p, v))
                except Infeasible:
                    pass
                last(s, ZERO)
                out.append((s, n))
                return out
            v = eng.fresh(s, ('api', ins.id), lo=0, what='nread')
            last(s, ZERO)
            try:
                T.restrict(s.facts, sub(v, n), hi=0)
            except Infeasible:
                return out
            out.append((s, v))
            return out
        raise AnalysisBroken('no summary of ' + name)

    def sco_call(self, st, name, args, ins):
        eng = self.eng
        if name == 'sco_udata':
            return [(st, ZERO if self.outside else SELF)]
        if name == 'sco_id':
            return [(st, of(atom('idof', SELF, lo=1)) if not self.outside else ZERO)]
        if name == 'sco_exit':
            self.path_exit(st, ins)
            return []
        if self.sched and name == 'sco_resume' and st.nonzero(args[0]):
            return [(st, None)]
        if name in SUSPEND:
            return [(s, None) for s in self.suspend(st, name, args, ins)]
        if name == 'sco_active':
            return [(st, eng.fresh(st, ('act', ins.id), lo=0, hi=1))]
        return [(st, eng.fresh(st, ('sco', ins.id), lo=0))]

    def path_exit(self, st, ins):
        self.eng.exits.append((st, ins))

    def exit_call(self, st, args, ins):
        v = st.val(args[0]) if args else 1
        if v != 0:
            self.path_exit(st, ins)
            return []
        return [(s, None) for s in self.suspend(st, 'coexit', args, ins)]

    def tree_call(self, st, p, op, args, ins):
        eng = self.eng
        if op == 'insert':
            if p == 'dlqueue' and args[1] is SELF:
                st.g['D'] = (args[0], self.get(st, SELF, 'coroutine', 'deadline'))
            if p == 'evaat' and args[1] is SELF:
                st.g['E'] = (args[0], self.get(st, SELF, 'coroutine', 'evfd'),
                             self.get(st, SELF, 'coroutine', 'evkind'))
            return [(st, eng.fresh(st, ('tree', ins.id), lo=0))]
        if op == 'delete':
            if p == 'dlqueue' and args[1] is SELF:
                st.g.pop('D', None)
            if p == 'evaat' and args[1] is SELF:
                st.g.pop('E', None)
            return [(st, eng.fresh(st, ('tree', ins.id), lo=0))]
        v = eng.fresh(st, ('tree', ins.id), lo=0)
        if p != 'sco_aat':
            eng.note_stype(v, 'struct.coroutine')
        return [(st, v)]

    def alloc(self, st, name, args, ins):
        eng = self.eng
        z = st.copy()
        self.set_errno(z, ins)
        o = eng.newobj(st, ins.id, 'heap')
        if name in ('malloc0', 'malloc', 'neco_malloc') and args:
            eng.objsize[o.m[0][0]] = args[0]
        return [(z, ZERO), (st, o)]

    def worker_submit(self, st, args, ins):
        eng = self.eng
        no = st.copy()
        for a in args:
            eng.escape_val(st, a)
        return [(no, ZERO), (st, ONE)]

    def set_errno(self, st, ins):
        st.mem[(ERRNO, 0)] = (self.eng.fresh(st, ('errno', ins.id), lo=1, what='errno'), 4)

    def external(self, st, name, args, ins):
        eng = self.eng
        if name in ('abort', '_Exit', 'exit', '_exit', '__assert_fail', 'llvm.trap'):
            return []
        a = self.mod.decls.get(name)
        if a and 'noreturn' in self.mod.attrs.get(a, ''):
            return []
        if name == '__errno_location':
            return [(st, ERRNO)]
        if name in ('pthread_create', 'pthread_mutex_init'):
            for x in args[1:]:
                eng.escape_val(st, x)
        # what it was given a pointer to may have changed
        for x in args:
            if x.m:
                root = eng.roots(rest(x))
                if root is not None and root.kind == 'o':
                    eng.havoc_obj(st, x)
        if ins.res is None:
            return [(st, None)]
        lo = hi = None
        if name in SYSCALLS:
            lo = -1
            if name in ('read', 'write', 'recv', 'send') and len(args) > 2:
                v = eng.fresh(st, ('ext', ins.id), lo=-1, what=name)
                if st.bounds(args[2])[0] is not None and st.bounds(args[2])[0] >= 0:
                    try:
                        T.restrict(st.facts, sub(v, args[2]), hi=0)
                    except Infeasible:
                        pass
                self.set_errno(st, ins)
                return [(st, v)]
            if name in ('connect', 'bind', 'listen', 'close', 'pipe', 'epoll_ctl', 'setsockopt',
                        'nanosleep', 'unlink', 'sigaction', 'sigaltstack', 'clock_gettime', 'pipe2'):
                hi = 0
            self.set_errno(st, ins)
        elif name in NONNEG:
            lo = 0
        elif name.startswith('pthread_'):
            lo = 0
        elif ins.ty is not None and ins.ty.k == 'ptr':
            lo = 0
        return [(st, eng.fresh(st, ('ext', ins.id), lo=lo, hi=hi, what=name))]

    def indirect(self, st, fn, args, ins):
        """a call of the user's function"""
        eng = self.eng
        for m in eng._ov['on_call']:
            m.on_call(st, '<indirect>', [fn] + args, ins)
            if st.dead:
                return []
        for x in args:
            eng.escape_val(st, x)
        return [(s, eng.fresh(s, ('ind', ins.id)) if ins.res else None)
                for s in self.suspend(st, 'callback', [fn] + args, ins)]

    def recursion(self, st, f, args, ins):
        self.havoc(st, 'recursion', ins)
        return [(st, self.eng.fresh(st, ('rec', ins.id)))]
