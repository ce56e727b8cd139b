"""C22, C23: who owns descriptors, memory and address lists."""
from common import *
from model import SUSPEND, LASTERR
from checks_sync import configs, put, valid

O_NONBLOCK, F_SETFL = 2048, 4
OPENS = {'socket', 'accept', 'accept4', 'epoll_create1', 'epoll_create', 'dup', 'dup3', 'eventfd', 'timerfd_create',
         'signalfd', 'open', 'kqueue', 'inotify_init', 'memfd_create', 'openat'}
PAIRS = {'pipe': 0, 'pipe2': 0, 'socketpair': 3}
DISABLE = 4
# C14, C19 and C20 decide these
OTHERS = {'neco_chan_release', 'neco_gen_release', 'neco_exit', 'neco_start', 'neco_startv', 'neco_gen_start',
          'neco_gen_startv', 'neco_malloc', 'neco_realloc', 'neco_free', 'neco_panic'}
RETFD = ('neco_accept', 'neco_dial', 'neco_serve')
PIPESUM = {'neco_serve', 'neco_accept_dl', 'neco_read_dl', 'neco_join', 'neco_rand', 'neco_start', 'neco_dial',
           'neco_write'}


class OwnModel(Model):
    def mergekey(self, st):
        g = st.g
        return Model.mergekey(self, st) + (g.get('own'), g.get('lent'), g.get('child'), g.get('nb'), g.get('dead'))

    def keep_cell(self, st, key):
        # a handler has the address of a local, but only the coroutine itself calls it
        root = self.eng.roots(key[0])
        if root is not None and root.kind == 'o' and root.a[0] == 'alloca':
            return True
        # nobody else uses a stream that is being closed
        if self.eng.tag(add(key[0], const(key[1]))) in (('neco_stream', 'rd.data'), ('neco_stream', 'wr.data')) and \
                root is not None and root.kind == 'p':
            return True
        return Model.keep_cell(self, st, key)

    def exit_call(self, st, args, ins):
        """C19: at its end a coroutine calls the handlers that it pushed"""
        if (st.val(args[0]) if args else 1) == 0:
            return [(s, None) for s in self.suspend(st, 'coexit', args, ins)]
        todo = [st]
        for _ in range(8):
            nxt = []
            for s in todo:
                h = self.get(s, SELF, 'coroutine', 'cleanup')
                if s.val(h) == 0:
                    self.path_exit(s, ins)
                    continue
                c = [s.mem.get((rest(h), h.c + self.mod.off('cleanup', f))) for f in ('routine', 'arg', 'next')]
                fn = None if c[0] is None or len(c[0][0].m) != 1 else c[0][0].m[0][0]
                if fn is None or fn.kind != 'g' or fn.a[0] not in self.mod.funcs or None in c:
                    raise AnalysisBroken('a handler that is not known')
                self.setself(s, 'cleanup', c[2][0])
                for m in self.eng._ov['on_call']:
                    m.on_call(s, fn.a[0], [c[1][0]], ins)
                nxt += [x for x, _ in self.eng.invoke(s, self.mod.funcs[fn.a[0]], [c[1][0]], ins)]
            todo = nxt
            if not todo:
                return []
        raise AnalysisBroken('too many handlers')

    def summary(self, st, name, args, ins):
        eng = self.eng
        for x in args:
            eng.escape_val(st, x)
        out = []
        if name in ('neco_read_dl', 'neco_rand'):
            a = args[1 if name == 'neco_read_dl' else 0]
            if a.m and self.eng.roots(rest(a)) is not None:
                eng.havoc_obj(st, a)
        if name in ('neco_rand', 'neco_start'):
            return self.results(st, name, args, ins)
        for s in self.suspend(st, 'api:' + name, args, ins):
            if self.selfval(s, 'cancelstate') != DISABLE:
                e = s.copy()
                if e.assume(mk_eq(sub(self.get(e, SELF, 'coroutine', 'canceltype'), ONE)), True):
                    self.exit_call(e, [ONE], ins)
            out += self.results(s, name, args, ins)
        return out

    def results(self, s, name, args, ins):
        eng = self.eng
        if name in ('neco_serve', 'neco_accept_dl', 'neco_dial'):
            f = s.copy()
            v = eng.fresh(s, ('api', ins.id), lo=1, hi=(1 << 31) - 1, what='descriptor')
            self.set_errno(f, ins)
            return [(s, v), (f, eng.fresh(f, ('apif', ins.id), hi=-1, what='failure'))]
        if name in ('neco_join', 'neco_rand', 'neco_start', 'neco_write'):
            f = s.copy()
            n = eng.fresh(f, ('apif', ins.id), hi=-1, what='failure')
            if name == 'neco_join':
                return [(s, ZERO)]
            if name == 'neco_start':
                self.setself(s, 'lastid', eng.fresh(s, ('lastid', ins.id), lo=1, what='identity of the child'))
            return [(s, ZERO), (f, n)]
        return Model.results(self, s, name, args, ins)

    def external(self, st, name, args, ins):
        eng = self.eng
        if name in OPENS:
            f = st.copy()
            self.set_errno(f, ins)
            return [(f, const(-1)), (st, eng.fresh(st, ('fd', ins.id), lo=1, hi=(1 << 31) - 1, what='descriptor'))]
        if name in PAIRS:
            f = st.copy()
            self.set_errno(f, ins)
            a = args[PAIRS[name]]
            for i in (0, 1):
                v = eng.fresh(st, ('fd%d' % i, ins.id), lo=1, hi=(1 << 31) - 1, what='descriptor')
                eng.store(st, add(a, const(4 * i)), v, 4, ins, quiet=True)
            return [(f, const(-1)), (st, ZERO)]
        if name == 'getaddrinfo':
            f = st.copy()
            self.set_errno(f, ins)
            v = eng.fresh(st, ('gai', ins.id), lo=4096, what='address list')
            eng.store(st, args[3], v, 8, ins, quiet=True)
            e = eng.fresh(f, ('gaierr', ins.id), what='failure')
            if not f.assume(mk_eq(e), False):
                return [(st, ZERO)]
            return [(f, e), (st, ZERO)]
        if name == 'fcntl':
            f = st.copy()
            self.set_errno(f, ins)
            return [(f, const(-1)), (st, eng.fresh(st, ('fcntl', ins.id), lo=0))]
        if name == 'pthread_create':
            for x in args[1:]:
                eng.escape_val(st, x)
            f = st.copy()
            return [(f, eng.fresh(f, ('pth', ins.id), lo=1)), (st, ZERO)]
        if name == 'sched_yield':
            for k in [k for k in st.mem if (self.eng.tag(add(k[0], const(k[1]))) or ('', ''))[1] == 'returned']:
                st.mem.pop(k)
            return [(st, ZERO)]
        return Model.external(self, st, name, args, ins)


class Own(Monitor):
    def __init__(self, rules, child=None):
        self.rules = rules
        self.childk = child

    def R(self, st, rule, m, ins=None):
        if rule in self.rules:
            self.eng.report(st, rule, m, ins)

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        self.n = {'descriptor': 0, 'memory': 0, 'address list': 0, 'released': 0}
        g = st.g
        g['own'] = frozenset()
        g['nb'] = frozenset()
        g['dead'] = frozenset()
        g['lent'] = None
        g['child'] = None
        self.given = frozenset()
        if not self.m.outside:
            for f in ('gen', 'argv', 'sigwatch', 'cleanup'):
                self.m.setself(st, f, ZERO)
        i = r.entry.info
        if i and i[0] == 'stream':
            self.stream(r, st, i)
        if i and i[0] == 'thread':
            self.thread(r, st, i)

    def stream(self, r, st, i):
        s = r.args[0]
        valid(r, st, s, 'neco_stream')
        _, fn, buffered, rd, wr = i
        put(r, st, s, 'neco_stream', 'buffered', const(buffered))
        fd = self.m.get(st, s, 'neco_stream', 'fd')
        T.restrict(st.facts, fd, 1, None)
        own = {('memory', s)}
        if 'close' in fn:
            own.add(('descriptor', fd))
        inline = add(s, const(r.mod.off('neco_stream', 'data')))
        for k, what in (('rd', rd), ('wr', wr)):
            if not buffered:
                continue
            o = r.mod.off('neco_stream', k) + r.mod.off('buf' + k, 'data')
            v = {'none': ZERO, 'own': inline, 'heap': of(atom('p', 'HEAP' + k, lo=4096))}[what]
            st.mem[(rest(s), s.c + o)] = (v, 8)
            if what == 'heap':
                own.add(('memory', v))
                st.assume(mk_eq(sub(v, inline)), False)
        st.g['own'] = self.given = frozenset(own)

    def thread(self, r, st, i):
        a = r.args[0]
        T.restrict(st.facts, a, 4096, None)
        r.eng.note_stype(a, 'struct.getaddrinfo_args')
        own = {('memory', a)}
        for f in ('node', 'service', 'hints'):
            v = of(atom('p', 'GAI' + f, lo=4096)) if i[1] else ZERO
            put(r, st, a, 'getaddrinfo_args', f, v)
            if i[1]:
                own.add(('memory', v))
        put(r, st, a, 'getaddrinfo_args', 'res', ZERO)
        for k in (0, 1):
            v = of(atom('p', 'GAIFD%d' % k, lo=1, hi=(1 << 31) - 1))
            st.mem[(a, r.mod.off('getaddrinfo_args', 'fds') + 4 * k)] = (v, 4)
            own.add(('descriptor', v))
        st.g['own'] = self.given = frozenset(own)

    # -------------------------------------------------- acquire, release
    def acquire(self, st, kind, v):
        self.n[kind] += 1
        st.g['own'] = st.g['own'] | {(kind, v)}

    def find(self, st, kind, v):
        for o in st.g['own']:
            if o[0] == kind and st.eq(o[1], v):
                return o
        return None

    def release(self, st, kind, v, ins):
        if kind == 'descriptor':
            if st.le(v, const(-1)):
                return
        elif st.val(v) == 0:
            return
        o = self.find(st, kind, v)
        self.n['released'] += 1
        if o is None:
            self.R(st, kind, 'releases a %s that it does not own, or a second time' % kind, ins)
            return
        i = self.r.entry.info
        if i and i[0] == 'thread' and o in self.given:
            c = st.mem.get((self.r.args[0], self.r.mod.off('getaddrinfo_args', 'returned')))
            if c is None or not st.nonzero(c[0]):
                self.R(st, kind, 'releases a %s that the waiting coroutine may still use' % kind, ins)
        st.g['own'] = st.g['own'] - {o}
        if kind == 'memory':
            st.g['dead'] = frozenset(list(st.g['dead'])[-6:]) | {o[1]}
        if kind == 'descriptor':
            st.g['nb'] = frozenset(x for x in st.g['nb'] if not st.eq(x, v))

    def on_ret(self, st, name, args, ret, ins):
        g = st.g
        if name in ('neco_malloc', 'malloc', 'calloc', 'strdup', 'strndup'):
            if st.val(ret) != 0:
                self.acquire(st, 'memory', ret)
        elif name in ('neco_realloc', 'realloc'):
            if st.val(ret) != 0:
                o = self.find(st, 'memory', args[0])
                if o is not None:
                    st.g['own'] = st.g['own'] - {o}
                self.acquire(st, 'memory', ret)
        elif name in OPENS or name in ('neco_serve', 'neco_accept_dl', 'neco_dial') and name in self.m.summaries:
            if not st.le(ret, const(-1)):
                self.acquire(st, 'descriptor', ret)
                if name.startswith('neco') or name in ('accept4',) and self.has_nb(st, args[3]):
                    g['nb'] = g['nb'] | {ret}
        elif name in PAIRS:
            if st.val(ret) == 0:
                for i in (0, 1):
                    a = add(args[PAIRS[name]], const(4 * i))
                    self.acquire(st, 'descriptor', self.eng.load(st, a, 4, None))
        elif name in ('getaddrinfo', 'neco_getaddrinfo_dl') and (name == 'getaddrinfo' or name in self.m.summaries):
            if st.val(ret) == 0:
                v = self.eng.load(st, args[3], 8, None)
                if st.val(v) != 0:
                    self.acquire(st, 'address list', v)
        elif name == 'pthread_create' and st.val(ret) == 0:
            a = args[3]
            g['lent'] = a
            inside = [v[0] for k, v in st.mem.items() if k[0] is rest(a)]
            g['own'] = frozenset(o for o in g['own'] if not st.eq(o[1], a) and not any(x is o[1] for x in inside))
        elif name == 'fcntl' and st.val(args[1]) == F_SETFL and len(args) > 2:
            if st.val(ret) == -1:
                pass
            elif self.has_nb(st, args[2]):
                g['nb'] = g['nb'] | {args[0]}
            else:
                g['nb'] = frozenset(x for x in g['nb'] if not st.eq(x, args[0]))
        elif name == 'neco_start' and name in self.m.summaries and st.val(ret) == 0:
            k = self.childk
            g['child'] = args[2 + k] if k is not None and len(args) > 2 + k else ZERO
        elif name == 'neco_join' and g['child'] is not None:
            p = g['child']
            g['child'] = None
            if p.m:
                v = self.eng.fresh(st, ('childfd', ins.id), lo=-1, hi=(1 << 31) - 1, what='descriptor of the child')
                self.eng.store(st, p, v, 4, None, quiet=True)
                self.acquire(st, 'descriptor', v)
                g['nb'] = g['nb'] | {v}

    def has_nb(self, st, v):
        if not v.m:
            return bool(v.c & O_NONBLOCK)
        if len(v.m) == 1 and v.c == 0 and v.m[0][1] == 1 and v.m[0][0].kind == 'or':
            return any(self.has_nb(st, x) for x in v.m[0][0].a[:2] if hasattr(x, 'm') and not x.m or hasattr(x, 'm'))
        return False

    def on_call(self, st, name, args, ins):
        if name in ('neco_free', 'free'):
            self.release(st, 'memory', args[0], ins)
        elif name == 'close':
            self.release(st, 'descriptor', args[0], ins)
        elif name == 'freeaddrinfo':
            self.release(st, 'address list', args[0], ins)

    def touch(self, st, addr, ins):
        if ins is None or not addr.m:
            return
        for d in st.g['dead']:
            if rest(addr) is rest(d) or self.eng.roots(rest(addr)) in d.deps and len(d.m) == 1:
                self.R(st, 'memory', 'uses memory that was released', ins)

    def on_load(self, st, tag, addr, val, ins):
        if st.g.get('dead'):
            self.touch(st, addr, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        g = st.g
        if g.get('dead'):
            self.touch(st, addr, ins)
        i = self.r.entry.info
        if i and i[0] == 'child' and val.m and not is_local(self.eng, st, addr):
            o = self.find(st, 'descriptor', val)
            if o is not None:
                g['own'] = g['own'] - {o}
        if rest(addr) is RT and val.m and g['own']:
            # the runtime has it now
            o = self.find(st, 'descriptor', val)
            if o is not None:
                g['own'] = g['own'] - {o}
        elif tag is not None and val.m and g['own'] and not is_local(self.eng, st, addr):
            # it is part of an object that remains
            o = self.find(st, 'memory', val)
            if o is not None and o not in self.given:
                g['own'] = g['own'] - {o}
        if g.get('lent') is not None and tag == ('getaddrinfo_args', 'returned') and rest(addr) is rest(g['lent']) \
                and st.val(val) != 0:
            a = g['lent']
            c = st.mem.get((rest(a), a.c + self.r.mod.off('getaddrinfo_args', 'res')))
            if c is not None and c[0].m and any(v[0] is c[0] for k, v in st.mem.items()
                                               if k[0] is not rest(a) and not is_local(self.eng, st, k[0])):
                for k in ('memory', 'address list'):
                    self.R(st, k, 'the address list given to the caller is also freed by the thread', ins)
            g['lent'] = None
            g['dead'] = g['dead'] | {a}

    def on_copy(self, st, kind, dst, src, n, ins):
        if st.g.get('dead'):
            self.touch(st, dst, ins)
            if kind != 'memset':
                self.touch(st, src, ins)

    def on_suspend(self, st, kind, args, ins):
        pass

    # -------------------------------------------------- the end
    def handed(self, st, o, ret):
        kind, v = o
        fn = self.r.entry.func
        if kind == 'descriptor':
            if ret is not None and st.eq(ret, v):
                return True
            if st.le(v, const(-1)):
                return True
            if fn == 'neco_pipe' and ret is not None and st.val(ret) == 0:
                return any(st.eq(c[0], v) for k, c in st.mem.items() if k[0] is self.r.args[0])
            return False
        ok = ret is not None and not st.le(ret, const(-1))
        for k, c in st.mem.items():
            if c[0] is v or st.eq(c[0], v):
                if is_local(self.eng, st, k[0]):
                    continue
                if kind == 'address list':
                    if ret is not None and st.val(ret) == 0 and k[0].deps & frozenset(
                            a for x in self.r.args for a in x.deps):
                        return True
                    continue
                if ok or self.eng.tag(add(k[0], const(k[1]))) is not None:
                    return True
        return False

    def finish(self, r):
        fn = r.entry.func
        info = r.entry.info
        refused = {codes()['NECO_INVAL'], codes()['NECO_PERM']}
        for st, ret, ins in [(s, x, None) for s, x in r.rets] + [(s, None, i) for s, i in r.eng.exits]:
            g = st.g
            for o in sorted(g['own'], key=str):
                if not self.handed(st, o, ret):
                    self.R(st, o[0], 'ends with a %s that belongs to nobody' % o[0] if o not in self.given else
                           'ends without releasing a %s of what it closes' % o[0], ins)
            if g['lent'] is not None:
                self.R(st, 'memory', 'ends and the thread waits for ever to release its memory', ins)
            if g['child'] is not None:
                self.R(st, 'memory', 'ends while a coroutine that it started uses its variables', ins)
            if ret is None:
                continue
            if fn.startswith(RETFD) and not st.le(ret, const(-1)):
                if self.find(st, 'descriptor', ret) is None:
                    self.R(st, 'descriptor', 'returns a descriptor that it did not open, or has closed')
                elif not any(st.eq(x, ret) for x in g['nb']):
                    self.R(st, 'descriptor', 'returns a descriptor that is not in non-blocking mode')
            if fn == 'neco_pipe' and st.val(ret) == 0:
                vs = []
                for i in (0, 1):
                    c = st.mem.get((r.args[0], 4 * i))
                    vs.append(None if c is None else c[0])
                    if c is None or (self.find(st, 'descriptor', c[0]) is None):
                        self.R(st, 'descriptor', 'returns a descriptor that it did not open, or has closed')
                    elif not any(st.eq(x, c[0]) for x in g['nb']):
                        self.R(st, 'descriptor', 'returns a descriptor that is not in non-blocking mode')
                if vs[0] is not None and vs[0] is vs[1]:
                    self.R(st, 'descriptor', 'returns the same descriptor twice')
        self.n['ends'] = len(r.rets) + len(r.eng.exits)
        return self.n


class Child(Monitor):
    """which argument of the coroutine of a pipe receives its descriptor"""

    def start(self, r, st):
        self.r = r
        self.k = None
        self.seen = {}

    def on_ret(self, st, name, args, ret, ins):
        if name == 'neco_dial':
            st.g['fd'] = ret

    def on_load(self, st, tag, addr, val, ins):
        if rest(addr) is self.r.args[1]:
            self.seen[val] = addr.c // 8

    def on_store(self, st, tag, addr, val, ins, old):
        if 'fd' in st.g and val is st.g['fd'] and addr in self.seen:
            self.k = self.seen[addr]


def owners(ck, rules):
    es = []
    child = {}
    for d in configs(ck):
        child[d] = None
        if 'co_pipe' in module(d).funcs:
            e = Entry('co_pipe', defs=d, info=('child',), model={'cls': OwnModel, 'summaries': PIPESUM})
            for _, k in ck.run([e], lambda e: [Own(rules), Child()], lambda r, m: (m[0].finish(r), m[1].k)):
                child[d] = k[1]
    for d in configs(ck):
        mod = module(d)
        for n in ops() + ['neco_stream_release', 'neco_pipe']:
            if n in OTHERS or n not in mod.funcs or n in [e.func for e in es if e.defs == d]:
                continue
            if n.startswith(('neco_stream_close', 'neco_stream_release')):
                continue
            m = {'cls': OwnModel, 'retlimit': 60}
            if n == 'neco_pipe':
                m['summaries'] = PIPESUM
            es.append(Entry(n, defs=d, model=m))
        for n in ('neco_stream_close', 'neco_stream_close_dl', 'neco_stream_release'):
            if n not in mod.funcs:
                continue
            for b, rd, wr in ((0, 'none', 'none'), (1, 'none', 'none'), (1, 'own', 'heap'), (1, 'heap', 'own'),
                              (1, 'none', 'own'), (1, 'own', 'none')):
                es.append(Entry(n, label='%s[%s, %s, %s]' % (n, b, rd, wr), defs=d, info=('stream', n, b, rd, wr),
                                model={'cls': OwnModel, 'retlimit': 60}))
        if 'getaddrinfo_th' in mod.funcs:
            for b in (0, 1):
                es.append(Entry('getaddrinfo_th', defs=d, info=('thread', b), model={'cls': OwnModel, 'outside': True}))
    for e, n in ck.run(es, lambda e: [Own(rules, child[e.defs])], lambda r, m: m[0].finish(r)):
        ck.count('ends of operations', n['ends'])
        for k in ('descriptor', 'memory', 'address list'):
            if k in rules:
                ck.count('%s acquired' % k, n[k])
        ck.count('releases', n['released'])


# ---------------------------------------------------------------- the configured allocator
LIBC = {'malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'posix_memalign', 'aligned_alloc', 'memalign',
        'valloc', 'reallocarray'}
HOOK = {'neco_malloc': 'malloc_', 'neco_realloc': 'realloc_', 'neco_free': 'free_'}
# heap stacks are a build option, the symbols of a stack trace belong to the C library,
# and the worker has a default for callers that give it no allocator
APART = {'print_symbol', 'worker_new'}


def operands(i):
    ops = [i.x] + [v for _, v in i.args] if i.op == 'call' else [v for v, _ in i.x] if i.op == 'phi' else list(i.args)
    return [v[1] for v in ops if isinstance(v, tuple) and v and v[0] == 'g']


def apart(mod):
    """the functions that only those of a stack trace use"""
    refs = {f.name: {n for b in f.blocks for i in b.insts for n in operands(i)} for f in mod.funcs.values()}
    r = set(APART)
    while True:
        more = {n for n in mod.funcs if n not in r and n not in HOOK and not n.startswith('neco_') and
                any(n in v for v in refs.values()) and all(f in r for f, v in refs.items() if n in v)}
        if not more:
            return r | {n for n in mod.funcs if n.startswith('stack_')}
        r |= more


class Alloc(Monitor):
    """neco_malloc, neco_realloc, neco_free"""

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        st.g['calls'] = 0
        st.g['got'] = ZERO
        g = of(atom('g', HOOK[r.entry.func], lo=4096))
        self.hook = r.eng.load(st, g, 8, None)
        if r.entry.func != 'neco_free':
            T.restrict(st.facts, r.args[-1], 0, 1 << 47)
        T.restrict(st.facts, self.hook, *((4096, None) if r.entry.info else (0, 0)))
        self.n = 0

    def R(self, st, m, ins=None):
        self.eng.report(st, 'allocator', m, ins)

    def on_call(self, st, name, args, ins):
        fn = self.r.entry.func
        if name == '<indirect>':
            ok = self.r.entry.info and st.eq(args[0], self.hook)
            args = args[1:]
        elif name in LIBC or name in HOOK:
            ok = not self.r.entry.info or name in HOOK
            if name in HOOK and fn == 'neco_realloc' and name == 'neco_malloc':
                ok = st.val(self.r.args[0]) == 0
                args = [ZERO] + args
        else:
            return
        self.n += 1
        st.g['calls'] += 1
        if not ok:
            self.R(st, 'memory is requested from or given to another allocator than the one configured', ins)
        elif len(args) != len(self.r.args) or not all(st.eq(a, b) for a, b in zip(args, self.r.args)):
            self.R(st, 'the allocator is called with other arguments than given', ins)

    def on_suspend(self, st, kind, args, ins):
        pass

    def finish(self, r):
        fn = r.entry.func
        for st, ret in r.rets:
            if fn == 'neco_free':
                if st.g['calls'] != 1 and st.val(r.args[0]) != 0:
                    self.R(st, 'memory is not given back')
                if st.g['calls'] and st.val(r.args[0]) == 0:
                    self.R(st, 'nothing is given to the allocator')
            else:
                if st.g['calls'] == 0 and st.val(ret) != 0:
                    self.R(st, 'returns memory that was not allocated')
                if st.g['calls'] > 1:
                    self.R(st, 'memory is allocated twice')
                if st.g['calls'] == 0:
                    self.R(st, 'an allocation is refused without asking the allocator')
        return self.n


class SetAlloc(Monitor):
    def finish(self, r):
        for st, ret in r.rets:
            for i, g in enumerate(('malloc_', 'realloc_', 'free_')):
                c = st.mem.get((of(atom('g', g, lo=4096)), 0))
                if c is None or not st.eq(c[0], r.args[i]):
                    r.eng.report(st, 'allocator', 'the configured %s is not used' % g.strip('_'))


def allocator(ck):
    es = []
    for d in configs(ck):
        mod = module(d)
        for f, g in HOOK.items():
            if f in mod.funcs and g in mod.globals:
                for h in (0, 1):
                    es.append(Entry(f, label='%s[%s]' % (f, 'configured' if h else 'default'), info=h, defs=d))
        # who asks the C library directly?
        refs = 0
        skip = apart(mod)
        for f in mod.funcs.values():
            if f.name in HOOK or f.name in skip:
                continue
            for b in f.blocks:
                for i in b.insts:
                    for v in operands(i):
                        if v in LIBC:
                            ck.violate('allocator', 'uses %s of the C library instead of the configured allocator' % v,
                                       f.name, mod.line(i))
                        elif v in HOOK:
                            refs += 1
        ck.count('uses of the configured allocator', refs)
    for e, n in ck.run(es, lambda e: [Alloc()], lambda r, m: m[0].finish(r)):
        ck.count('calls of an allocator', n)
    es = [Entry('neco_env_setallocator', defs=d, model={'outside': True}) for d in configs(ck)]
    ck.run(es, lambda e: [SetAlloc()], lambda r, m: m[0].finish(r))
    ck.need('uses of the configured allocator', 10)
    ck.need('calls of an allocator', 6)


def c22(ck):
    ck.rule('every operation, at every return and at every end of the coroutine by an immediate cancelation (the '
            'handlers that it pushed run): each descriptor and address list that it acquired was released exactly once '
            'or is what it returns; a returned descriptor is in non-blocking mode; nothing else is closed')
    owners(ck, {'descriptor', 'address list'})
    ck.need('descriptor acquired', 6)
    ck.need('releases', 10)


def c23(ck):
    ck.rule('every operation, at every return and at every end of the coroutine by an immediate cancelation: each '
            'allocation that it made was released exactly once or is part of an object that remains; nothing is used '
            'after it was released, also not what a background thread or another coroutine releases')
    ck.rule('only the three allocation functions use the C library (heap stacks, symbols of stack traces and the default '
            'of the worker apart); each asks exactly the configured function, or the C library when none is configured, '
            'once and with its own arguments')
    owners(ck, {'memory'})
    allocator(ck)
    ck.need('memory acquired', 8)
    ck.need('releases', 10)


CHECKS = {'C22': c22, 'C23': c23}
