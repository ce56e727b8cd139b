"""C25, C33, C35: what one step of the scheduler wakes, and for how long it sleeps."""
import itertools
from common import *
from checks_sync import configs, put

IN, OUT, ERR, HUP, RDHUP, ONESHOT, ET = 1, 4, 8, 16, 0x2000, 1 << 30, 1 << 31
ADD, DEL, MOD = 1, 2, 3
EVREAD, EVWRITE = 1, 2
SIGPIPE = 13
STEP = 'rt_sched_paused_step'
BIG = {'retlimit': 4000, 'mergelimit': 4000, 'entlimit': 4000, 'unroll': 60}
FDS = {n: of(atom('p', 'fd' + n, lo=0, hi=(1 << 31) - 1)) for n in 'abc'}


def node(name):
    return of(atom('o', 'node', name, 0, 0, lo=4096))


def descriptors(st):
    f = list(FDS.values())
    T.restrict(st.facts, sub(f[0], f[1]), hi=-1)
    T.restrict(st.facts, sub(f[1], f[2]), hi=-1)
    T.restrict(st.facts, sub(f[0], f[2]), hi=-2)
    for i, x in enumerate(f):
        st.mem[(node('descriptors'), 4 * i)] = (x, 4)


class SchedModel(Model):
    """the scheduler runs; who waits for what is given, everything else is not"""
    resumers = sigwaiters = iolist = dl = ev = ()
    events = ()
    nsched = ZERO

    def list_call(self, st, name, args, ins):
        return None

    def tree_call(self, st, p, op, args, ins):
        if p == 'dlqueue':
            if op == 'first':
                return [(st, node(self.dl[0]) if self.dl else ZERO)]
            if op == 'next':
                return [(st, self.after(self.dl, args[1]))]
        if p == 'evaat':
            self.eng.evroot(st, args, ins)
            if op == 'iter':
                return self.ev_iter(st, args[1])
            if op == 'next':
                return [(st, self.after([e[0] for e in self.ev], args[1]))]
            if op == 'first':
                return [(st, node(self.ev[0][0]) if self.ev else ZERO)]
        return Model.tree_call(self, st, p, op, args, ins)

    def after(self, names, co):
        for i, n in enumerate(names):
            if node(n) is co:
                return node(names[i + 1]) if i + 1 < len(names) else ZERO
        raise AnalysisBroken('the next element of one that is not in the index')

    def ev_iter(self, st, key):
        fd, kind = (self.get(st, key, 'coroutine', x) for x in ('evfd', 'evkind'))
        for n, f, k in self.ev:
            f, k = FDS[f], const(k)
            if st.eq(f, fd):
                if st.le(kind, k):
                    return [(st, node(n))]
                if not st.le(add(k, ONE), kind):
                    raise AnalysisBroken('the kind that is looked for is not known')
            elif st.le(add(fd, ONE), f):
                return [(st, node(n))]
            elif not st.le(add(f, ONE), fd):
                raise AnalysisBroken('the descriptor that is looked for is not known')
        return [(st, ZERO)]

    def sco_call(self, st, name, args, ins):
        if name == 'sco_info_scheduled':
            return [(st, add(self.nsched, const(len(st.g['res']))))]
        return Model.sco_call(self, st, name, args, ins)

    def external(self, st, name, args, ins):
        if name == 'epoll_wait':
            no = st.copy()
            self.set_errno(no, ins)
            no.mem[(ERRNO, 0)] = (const(4), 4)
            sz = self.mod.sizeof(self.mod.types['struct.epoll_event'])
            for i, (f, e) in enumerate(self.events):
                for o, v in ((0, const(e)), (4, FDS[f])):
                    a = add(args[1], const(i * sz + o))
                    st.mem[(rest(a), a.c)] = (v, 4)
            st.g['polled'] = 1
            return [(no, const(-1)), (st, const(len(self.events)))]
        if name == 'epoll_ctl':
            self.set_errno(st, ins)
            no = st.copy()
            return [(no, const(-1)), (st, ZERO)]
        return Model.external(self, st, name, args, ins)


def link_list(r, st, lst, names):
    """a queue of coroutines"""
    mod = r.mod
    on, op = mod.off('colink', 'next'), mod.off('colink', 'prev')
    q = r.eng.model.field(RT, 'runtime', lst)
    h, t = add(q, const(mod.off('colist', 'head'))), add(q, const(mod.off('colist', 'tail')))
    ns = [h] + [node(n) for n in names] + [t]

    def cell(p, o, v):
        k = add(p, const(o))
        st.mem[(rest(k), k.c)] = (v, 8)
    for n in r.world:
        for x in (h, t):
            st.assume(mk_eq(sub(node(n), x)), False)
    for a, b in zip(ns, ns[1:]):
        cell(a, on, b)
        cell(b, op, a)


def list_names(r, st, lst, world):
    mod = r.mod
    on = mod.off('colink', 'next')
    q = r.eng.model.field(RT, 'runtime', lst)
    t = add(q, const(mod.off('colist', 'tail')))
    k = add(q, const(mod.off('colist', 'head') + on))
    out = []
    for _ in range(10):
        c = st.mem.get((rest(k), k.c))
        if c is None:
            return None
        if c[0] is t:
            return out
        n = [x for x in world if node(x) is c[0]]
        if not n:
            return None
        out.append(n[0])
        k = add(c[0], const(on))
    return None


class World:
    """what one step of the scheduler finds"""

    def __init__(self, resumers=(), sig=(), io=(), dl=(), ev=(), events=(), nsched=0, pending=(), watched=(),
                 poll=True, late=0):
        self.resumers, self.sig, self.io, self.dl, self.ev, self.events = resumers, sig, io, dl, ev, events
        self.nsched, self.pending, self.watched, self.poll, self.late = nsched, pending, watched, poll, late

    def label(self):
        return ', '.join('%s=%s' % (k, v) for k, v in vars(self).items() if v and v is not True)

    def setup(self, r, st):
        m = r.eng.model
        m.dl, m.ev, m.events = self.dl, self.ev, self.events
        m.nsched = ZERO if not self.nsched else of(atom('p', 'nsched', lo=1, hi=1 << 40))
        names = list(self.resumers) + [s[0] for s in self.sig] + list(self.io) + list(self.dl) + [e[0] for e in self.ev]
        r.world = sorted(set(names))
        for n in r.world:
            r.eng.note_stype(node(n), 'struct.coroutine')
            for x in r.world:
                if x < n:
                    st.assume(mk_eq(sub(node(n), node(x))), False)
            for f in ('granted', 'deadlined', 'canceled', 'sigmask'):
                put(r, st, node(n), 'coroutine', f, ZERO)
        descriptors(st)
        link_list(r, st, 'resumers', self.resumers)
        link_list(r, st, 'sigwaiters', [s[0] for s in self.sig])
        link_list(r, st, 'iolist', self.io)

        def cell(nm, v):
            put(r, st, RT, 'runtime', nm, v)

        def some(n, what):
            return ZERO if not n else r.eng.fresh(st, ('in', what), lo=max(1, n if isinstance(n, int) else 1), hi=1 << 40)
        cell('nresumers', some(len(self.resumers), 'nresumers'))
        if 'niowaiters' in {v[0] for v in r.mod.fields['runtime'].values()}:
            cell('niowaiters', some(len(self.io), 'niowaiters'))
        cell('nevwaiters', some(len(self.ev), 'nevwaiters'))
        cell('ndeadlines', some(len(self.dl), 'ndeadlines'))
        cell('nsigwaiters', some(len(self.sig), 'nsigwaiters'))
        # C25: a bit of the mask for every signal that is queued
        mask = 0
        for s in range(32):
            n = dict(self.pending).get(s, 0)
            k = m.field(RT, 'runtime', 'sigqueue')
            st.mem[(rest(k), k.c + 4 * s)] = (const(n), 4)
            mask |= (1 << s) if n else 0
            k = m.field(RT, 'runtime', 'sigwatchers')
            st.mem[(rest(k), k.c + 4 * s)] = (const(dict(self.watched).get(s, 0)), 4)
        cell('sigmask', const(mask))
        for n, mk in self.sig:
            put(r, st, node(n), 'coroutine', 'sigmask', const(mk))
        for n, f, k in self.ev:
            put(r, st, node(n), 'coroutine', 'evfd', FDS[f])
            put(r, st, node(n), 'coroutine', 'evkind', const(k))
        prev = None
        for n in self.dl:
            d = r.eng.fresh(st, ('in', 'deadline', n), lo=-(1 << 63), hi=(1 << 63) - 1, what='deadline of ' + n)
            put(r, st, node(n), 'coroutine', 'deadline', d)
            if prev is not None:
                T.restrict(st.facts, sub(prev, d), hi=0)
            prev = d


class Step(Monitor):
    """what a step resumes, in which order, and how long it blocks"""

    def start(self, r, st):
        self.r = r
        self.eng.evroot = lambda st, args, ins: self.root(st, args, ins)
        st.g['res'] = ()
        st.g['blocked'] = 0
        st.g['marked'] = ()
        self.roots = set()
        self.nblock = 0
        self.w = r.entry.info[0]

    def rep(self, st, msg, ins=None, rule=None):
        self.eng.report(st, rule or self.r.entry.info[1], msg, ins)

    def root(self, st, args, ins):
        pass

    def name(self, st, i):
        for n in self.r.world:
            if st.eq(i, self.eng.model.get(st, node(n), 'coroutine', 'id')):
                return n
        return '?'

    def on_call(self, st, name, args, ins):
        if name == 'sco_resume' and st.nonzero(args[0]):
            n = self.name(st, args[0])
            if n == '?':
                self.rep(st, 'a coroutine is resumed that is none of those found', ins)
            st.g['res'] += (n,)
        elif name == 'nanosleep':
            self.block(st, self.timespec(st, args[0]), ins)
        elif name in ('epoll_wait', 'epoll_pwait'):
            t = args[3]
            v = st.val(t)
            self.block(st, None if v is not None and v < 0 else ('ms', t), ins)
        elif name in ('usleep', 'sleep', 'poll', 'select', 'pause', 'clock_nanosleep', 'ppoll', 'sigsuspend'):
            self.rep(st, 'the thread sleeps with %s, which is not understood' % name, ins, 'sleep')
        elif name.startswith('pthread_mutex_') and name != 'pthread_mutex_unlock' and st.g.get('lk'):
            self.rep(st, 'the lock is taken twice', ins)

    def timespec(self, st, p):
        c = [st.mem.get((rest(p), p.c + o)) for o in (0, 8)]
        return None if None in c else ('ts', c[0][0], c[1][0])

    def block(self, st, t, ins):
        pass


class Sleep(Step):
    """C35"""

    def block(self, st, t, ins):
        self.nblock += 1
        w = self.w
        if t is None:
            self.rep(st, 'the thread sleeps without a limit', ins)
            return
        if t[0] == 'ts':
            sec, ns = t[1:]
            u = self.whole(st, sec, ns)
        else:
            u = self.millis(st, t[1])
        zero = st.val(u) is not None and st.val(u) <= 0
        if not zero:
            why = None
            if w.nsched or w.resumers:
                why = 'coroutines are ready to run'
            elif w.pending:
                why = 'a signal is pending'
            elif w.io:
                why = 'a background job is done or running'
            if why:
                self.rep(st, 'the thread sleeps although ' + why, ins)
        if not st.le(u, const(10 ** 9)):
            self.rep(st, 'the thread may sleep for longer than a second', ins)
        if w.dl and not zero:
            d = self.eng.model.get(st, node(w.dl[0]), 'coroutine', 'deadline')
            now = st.g.get('now')
            if now is None or not st.le(u, sub(d, now)):
                self.rep(st, 'the thread may sleep past the earliest deadline', ins)
        st.g['blocked'] = 1

    def whole(self, st, sec, ns):
        """seconds and the rest of a division: the dividend"""
        if len(sec.m) == 1 and len(ns.m) == 1 and sec.c == 0 and ns.c == 0:
            a, b = sec.m[0][0], ns.m[0][0]
            if a.kind == 'sdiv' and b.kind == 'srem' and a.a[:2] == b.a[:2] and a.a[1] is const(10 ** 9):
                return a.a[0]
        if len(sec.m) == 0 and len(ns.m) == 1 and ns.c == 0 and ns.m[0][0].kind == 'srem':
            x = ns.m[0][0]
            if st.le(x.a[0], const(10 ** 9 - 1)) and st.le(ZERO, x.a[0]):
                ns = x.a[0]
        return add(scale(sec, 10 ** 9), ns)

    def millis(self, st, t):
        x = t
        while len(x.m) == 1 and x.c == 0 and x.m[0][0].kind in ('trunc', 'sext', 'zext'):
            x = x.m[0][0].a[0]
        if len(x.m) == 1 and x.c == 0 and x.m[0][1] == 1 and x.m[0][0].kind == 'sdiv':
            a = x.m[0][0]
            d = st.val(a.a[1])
            if d is not None and d >= 10 ** 6 and st.le(ZERO, a.a[0]):
                return a.a[0]
        return scale(t, 10 ** 6)

    def finish(self, r):
        w = self.w
        for st, _ in r.rets:
            res = st.g['res']
            if w.ev and not st.g.get('polled') and st.mem.get((ERRNO, 0)) is None:
                self.rep(st, 'the descriptors are not looked at although coroutines wait for some')
            want = list(w.resumers) + list(w.io)
            got = [x for x in res if x in want]
            if sorted(got) != sorted(want) or [x for x in got if x in w.resumers] != list(w.resumers) or \
                    [x for x in got if x in w.io] != list(w.io):
                self.rep(st, 'resumed: %s, to be resumed: %s' % (list(res), want))
            if want and list_names(r, st, 'resumers', r.world) != [] or \
                    w.io and list_names(r, st, 'iolist', r.world) != []:
                self.rep(st, 'the coroutines that were resumed remain in their queue')
            now = st.g.get('now')
            for n in w.dl:
                d = r.eng.model.get(st, node(n), 'coroutine', 'deadline')
                fl = st.val(r.eng.model.get(st, node(n), 'coroutine', 'deadlined'))
                if res.count(n) > 1:
                    self.rep(st, 'a coroutine is resumed twice for its deadline')
                if n in res and (fl != 1 or now is None or not st.le(d, now)):
                    self.rep(st, 'a coroutine is resumed before its deadline has passed or without being told')
                if n not in res and (fl != 0 or not st.le(now, d)):
                    self.rep(st, 'the deadline of a coroutine has passed but it is not resumed')
        return len(r.rets), self.nblock


def c35(ck):
    ck.rule('one step of the scheduler, for every combination of what it may find (resumed coroutines, ready ones, '
            'pending signals, background jobs, deadlines at any time, descriptors): every call that blocks the thread '
            'blocks not at all when something can run, is bounded by one second otherwise, and never lasts beyond the '
            'earliest deadline; the descriptors are looked at whenever coroutines wait for some')
    ck.rule('the step resumes all of the resumed coroutines, those whose background job is done, and those whose '
            'deadline has passed, each once and in order')
    ws = []
    for rs, ns, sg, io, dl, ev in itertools.product(
            ((), ('A',), ('A', 'B')), (0, 1), (0, 1), ((), ('I',), ('I', 'J')), ((), ('D',), ('D', 'E')), (0, 1)):
        if sum(map(bool, (rs, ns, sg, io, dl, ev))) > 3 and ck.tier != 'thorough':
            continue
        ws.append(World(resumers=rs, nsched=ns, io=io, dl=dl, ev=(('V', 'a', EVREAD),) if ev else (),
                        sig=(), pending=((10, 1),) if sg else (), watched=((10, 1),) if sg else ()))
    for d in configs(ck):
        es = [Entry(STEP, label='step of the scheduler: ' + w.label(), setup=w.setup, defs=d, info=(w, 'sleep'),
                    model=dict(BIG, cls=SchedModel, sched=True, tracknow=True)) for w in ws
              if not (w.io and '-DNECO_NOWORKERS' in d)]
        for e, (n, b) in ck.run(es, lambda e: [Sleep()], lambda r, m: m[0].finish(r)):
            ck.count('steps', n)
            ck.count('calls that block', b)
            if not n:
                ck.violate('sleep', 'the step does not end: ' + e.label, function=STEP)
    ck.need('steps', 100)
    ck.need('calls that block', 50)



# ---------------------------------------------------------------- C25
class Deliver(Step):
    """a step with pending signals"""

    def start(self, r, st):
        Step.start(self, r, st)
        self.ends = []

    def on_call(self, st, name, args, ins):
        if name in ('_Exit', '_exit', 'exit', 'abort', 'raise', 'kill'):
            self.ends.append((name, st.val(args[0]) if args else None, st.g['res']))
        Step.on_call(self, st, name, args, ins)

    def finish(self, r):
        m, w = r.eng.model, self.w
        fatal = [s for s, n in sorted(w.pending) if not dict(w.watched).get(s) and s != SIGPIPE]
        if fatal:
            for st, _ in r.rets:
                self.rep(st, 'signal %d is watched by nobody and does not end the program' % fatal[0])
            if not any(e[1] == 128 + fatal[0] for e in self.ends):
                self.rep(None, 'signal %d is watched by nobody and does not end the program with its status' % fatal[0])
            return 1
        if self.ends or not r.rets:
            self.rep(None, 'a signal that is watched or SIGPIPE ends the program')
        for st, _ in r.rets:
            def q(s):
                k = m.field(RT, 'runtime', 'sigqueue')
                return st.val(st.mem[(rest(k), k.c + 4 * s)][0])
            waiting = list(w.sig)
            res = []
            told = {}
            for s in range(32):
                n = dict(w.pending).get(s, 0)
                left = q(s)
                if left is None or left > n or left < 0:
                    self.rep(st, 'the number of pending occurrences of signal %d becomes %s' % (s, left))
                    continue
                if n and not dict(w.watched).get(s):
                    continue
                k = n - left
                can = [x for x in waiting if x[1] & (1 << s)]
                if n and can and k == 0:
                    self.rep(st, 'signal %d is pending and a coroutine waits for it, but it is not delivered' % s)
                if k > len(can):
                    self.rep(st, 'an occurrence of signal %d disappears although no coroutine waits for it' % s)
                for x in can[:k]:
                    res.append(x[0])
                    told[x[0]] = s
                    waiting.remove(x)
            got = [x for x in st.g['res'] if x in dict(w.sig)]
            if got != res:
                self.rep(st, 'resumed for signals: %s, to be resumed: %s' % (got, res))
            if list_names(r, st, 'sigwaiters', r.world) != [x[0] for x in waiting]:
                self.rep(st, 'the queue of those who wait for signals is wrong after a delivery')
            for n, mk in w.sig:
                v = st.val(m.get(st, node(n), 'coroutine', 'sigmask'))
                if v != told.get(n, mk):
                    self.rep(st, 'a coroutine is told signal %s instead of %s' % (v, told.get(n, mk)))
                if m.has_flag['granted'] and st.val(m.get(st, node(n), 'coroutine', 'granted')) != (n in told):
                    self.rep(st, 'a coroutine is not told that it got a signal')
            mask = st.val(m.get(st, RT, 'runtime', 'sigmask'))
            if mask is None or mask & 0xffffffff != sum(1 << s for s in range(32) if q(s)):
                self.rep(st, 'the mask of pending signals does not agree with what is pending')
        return len(r.rets)


class Handler(Monitor):
    """the handler of a signal"""

    def start(self, r, st):
        self.r = r
        st.g['stores'] = ()
        st.g['calls'] = ()
        self.ends = []

    def on_call(self, st, name, args, ins):
        if name in self.eng.mod.funcs or name.startswith('llvm.') or name == '__errno_location':
            return
        if name in ('_Exit', '_exit', 'exit'):
            self.ends.append(st.val(args[0]))
        elif name in ('abort', 'raise', 'kill', 'quick_exit'):
            self.ends.append(name)
        if name not in st.g['calls']:
            st.g['calls'] += (name,)

    def on_store(self, st, tag, addr, val, ins, old):
        if not is_local(self.eng, st, addr):
            st.g['stores'] += ((tag, str(addr)),)

    def finish(self, r):
        m = r.eng.model
        signo, run, crashed, watched, mask, cnt, kind = r.entry.info

        def rep(st, msg):
            r.eng.report(st, 'handler', 'signal %d: %s' % (signo, msg))
        if kind == 'other':
            return len(r.rets)
        ok = kind == 'allowed' and not crashed and (signo == SIGPIPE or (run and watched))
        if not ok:
            if kind == 'allowed' and signo == SIGPIPE and crashed:
                return 1
            for st, _ in r.rets:
                rep(st, 'the handler returns' + (', although nobody watches it' if kind == 'allowed' else ''))
            if signo not in [x - 128 for x in self.ends if isinstance(x, int)] and not crashed:
                rep(None, 'the program does not end with the status of the signal')
            return 1
        if not r.rets or self.ends:
            rep(None, 'the program ends although ' + ('somebody watches it' if watched else 'SIGPIPE is to be ignored'))
        for st, _ in r.rets:
            if st.g['calls']:
                rep(st, 'the handler calls %s' % ', '.join(st.g['calls']))
            if not run:
                if st.g['stores']:
                    rep(st, 'the handler changes something without a runtime')
                continue
            take = watched

            def arr(nm, i):
                k = m.field(RT, 'runtime', nm)
                c = st.mem.get((rest(k), k.c + 4 * i))
                return None if c is None else st.val(c[0])
            q = arr('sigqueue', signo)
            if q != cnt + (1 if take else 0):
                rep(st, 'the number of pending occurrences becomes %s instead of %d' % (q, cnt + (1 if take else 0)))
            v = st.val(m.get(st, RT, 'runtime', 'sigmask'))
            want = mask | (1 << signo) if take else mask
            if v is None or v & 0xffffffff != want:
                rep(st, 'the mask of pending signals becomes %s instead of %x' % (v, want))
            k = m.field(RT, 'runtime', 'sigqueue')
            good = {str(add(k, const(4 * signo))), str(m.field(RT, 'runtime', 'sigmask'))}
            for t, a in st.g['stores']:
                if a not in good:
                    rep(st, 'the handler changes %s' % (t,))
        return len(r.rets)


def handler_setup(signo, run, crashed, watched, mask, cnt):
    def su(r, st):
        m = r.eng.model
        r.args[0] = const(signo)
        if not run:
            return
        put(r, st, RT, 'runtime', 'sigcrashed', const(crashed))
        put(r, st, RT, 'runtime', 'sigmask', const(mask))
        for i in range(32):
            for nm, v in (('sigwatchers', watched if i == signo else 1), ('sigqueue', cnt if i == signo else 7)):
                k = m.field(RT, 'runtime', nm)
                st.mem[(rest(k), k.c + 4 * i)] = (const(v), 4)
    return su


def handlers(mod):
    """the functions that are installed as the handler of signals"""
    out = set()
    for f in mod.funcs.values():
        if any(c == 'sigaction' for c, _ in mod.callee_names(f)):
            out |= {x for x in re.findall(r"\b(\w+)\b", ' '.join(str(i.raw) for b in f.blocks for i in b.insts))
                    if x in mod.funcs and len(mod.funcs[x].params) == 3}
    return sorted(out) or ['sighandler']


class Watch(Monitor):
    def start(self, r, st):
        self.r = r
        self.changed = set()

    def finish(self, r):
        m = r.eng.model
        op, signo, w = r.entry.info

        def rep(st, msg):
            r.eng.report(st, 'watchers', 'signal %d, watched %x: %s' % (signo, w, msg))
        bit = 1 << signo
        nw = w | bit if op == 'watch' else w & ~bit
        for st, ret in r.rets:
            if st.val(ret) != 0:
                rep(st, 'refused')
                continue
            v = st.val(m.get(st, SELF, 'coroutine', 'sigwatch'))
            if v is None or v & 0xffffffff != nw:
                rep(st, 'the set of watched signals becomes %s instead of %x' % (v, nw))
            for i in range(32):
                k = m.field(RT, 'runtime', 'sigwatchers')
                c = st.val(st.mem[(rest(k), k.c + 4 * i)][0])
                d = (1 if nw != w else 0) * (1 if op == 'watch' else -1) if i == signo else 0
                if c != 7 + d:
                    rep(st, 'the number of watchers of signal %d becomes %s instead of %d' % (i, c, 7 + d))
        if not r.rets:
            rep(None, 'does not return')
        return len(r.rets)


def watch_setup(signo, w):
    def su(r, st):
        m = r.eng.model
        r.args[0] = const(signo)
        put(r, st, RT, 'runtime', 'mainthread', ONE)
        put(r, st, SELF, 'coroutine', 'sigwatch', const(w if w < 1 << 31 else w - (1 << 32)))
        for i in range(32):
            k = m.field(RT, 'runtime', 'sigwatchers')
            st.mem[(rest(k), k.c + 4 * i)] = (const(7), 4)
    return su


class SigWait(Monitor):
    def start(self, r, st):
        self.n = 0
        put(r, st, RT, 'runtime', 'mainthread', ONE)
        self.r = r

    def on_suspend(self, st, kind, args, ins):
        if kind != 'sco_pause':
            return
        self.n += 1
        m = self.eng.model
        if 'L' not in st.g or m.listtag(st.g['L'][0]) != ('runtime', 'sigwaiters'):
            self.eng.report(st, 'waiting', 'the coroutine waits for a signal without being in the queue for them', ins)
        if not st.eq(m.get(st, SELF, 'coroutine', 'sigmask'), m.get(st, SELF, 'coroutine', 'sigwatch')):
            self.eng.report(st, 'waiting', 'the signals that are waited for are not those that are watched', ins)
        if not st.nonzero(m.get(st, SELF, 'coroutine', 'sigwatch')):
            self.eng.report(st, 'waiting', 'waits although no signal is watched', ins)

    def on_store(self, st, tag, addr, val, ins, old):
        if st.g.get('woke') and tag == ('coroutine', 'sigmask') and st.g.get('why', '').startswith('g') and \
                'told' not in st.g and old is not None:
            st.g['told'] = (old,)

    def finish(self, r):
        for st, ret in r.rets:
            if st.g.get('w1') == 'g':
                t = st.g.get('told', (r.eng.model.get(st, SELF, 'coroutine', 'sigmask'),))[0]
                if not st.eq(ret, t):
                    r.eng.report(st, 'waiting', 'a signal was delivered but the wait does not report its number')
        return self.n


ALLOWED = (1, 2, 3, 15, 13, 10, 12, 14)
TRAPPED = (4, 8, 11, 7, 5)


def c25(ck):
    ck.rule('the signal handler, for each of the 31 signals, with and without a runtime, watched or not, for empty, '
            'partial and full masks: a path that returns calls no library function and changes nothing but one bit of '
            'the mask and one count; a watched signal is recorded exactly once; one that nobody watches ends the '
            'program with its status, except for SIGPIPE, which is dropped')
    ck.rule('watching and unwatching, for each signal and for several sets of watched signals: the set and the number of '
            'watchers change together, by exactly one, and only when the set changes')
    ck.rule('a wait for signals waits in the queue with all the watched signals and reports the number that it was told')
    ck.rule('one step of the scheduler, for queues of up to three waiting coroutines with every combination of masks, '
            'and one to two pending signals: each signal, lowest first, goes to the coroutines that wait for it in the '
            'order in which they began to wait, each occurrence to one, which leaves the queue, is told the number and '
            'is resumed once; everything else stays pending, and the mask agrees with the counts')
    for d in configs(ck):
        if '-DNECO_NOSIGNALS' in d:
            continue
        mod = module(d)
        es = []
        full = ck.tier == 'thorough'
        for h in handlers(mod):
            for s in range(1, 32):
                kind = 'allowed' if s in ALLOWED else 'trapped' if s in TRAPPED else 'other'
                for run, cr, w, mask, cnt in ((0, 0, 0, 0, 0), (1, 0, 0, 0x400, 0), (1, 0, 1, 0, 0),
                                              (1, 0, 3, 0x7ffffffe & ~(1 << s), 0), (1, 0, 2, 1 << s, 5), (1, 11, 1, 0, 0)):
                    es.append(Entry(h, label='handler of signal %d' % s, defs=d, info=(s, run, cr, w, mask, cnt, kind),
                                    setup=handler_setup(s, run, cr, w, mask, cnt),
                                    model=dict(BIG, outside=not run, followend=True)))
        for e, n in ck.run(es, lambda e: [Handler()], lambda r, m: m[0].finish(r)):
            ck.count('arrivals', n)
        es = []
        for s in range(1, 32):
            for w in sorted({0, 1 << s, 0xfffffffe, 0xfffffffe & ~(1 << s), 1 << (32 - s) & 0xfffffffe}):
                for op in ('watch', 'unwatch'):
                    es.append(Entry('neco_signal_' + op, defs=d, info=(op, s, w), setup=watch_setup(s, w),
                                    model=dict(BIG)))
        for e, n in ck.run(es, lambda e: [Watch()], lambda r, m: m[0].finish(r)):
            ck.count('changes of what is watched', n)
        for e, n in ck.run([Entry(f, defs=d, model=dict(BIG, fork=True)) for f in ('neco_signal_wait_dl', 'neco_signal_wait')],
                           lambda e: [SigWait()], lambda r, m: m[0].finish(r)):
            ck.count('waits', n)
        ws = []
        names = 'PQR'
        b = {0: 0, 1: 1 << 10, 2: 1 << 12, 3: 1 << 10 | 1 << 12, 4: 0xfffffffe - (1 << 32)}
        for k in range(4 if full else 3):
            for mk in itertools.product((1, 2, 3) if k < 3 else (1, 2), repeat=k):
                for pend in (((10, 1),), ((10, 2),), ((10, 1), (12, 1)), ((12, 1),), ((10, 3), (12, 2))):
                    for wt in (((10, 3), (12, 2)), ((10, 1),)):
                        ws.append(World(sig=tuple((names[i], b[x]) for i, x in enumerate(mk)), pending=pend, watched=wt))
        for pend in (((13, 1),), ((13, 2), (14, 1)), ((1, 1), (31, 1)), ((2, 1),), ((15, 1), (30, 4))):
            for wt in ((), ((13, 1), (14, 1), (1, 1), (31, 1), (30, 1))):
                ws.append(World(sig=(('P', 0x7ffffffe),) if wt else (), pending=pend, watched=wt))
        es = [Entry(STEP, label='step of the scheduler: ' + w.label(), setup=w.setup, defs=d, info=(w, 'delivery'),
                    model=dict(BIG, cls=SchedModel, sched=True, followend=True)) for w in ws]
        for e, n in ck.run(es, lambda e: [Deliver()], lambda r, m: m[0].finish(r)):
            ck.count('deliveries', n)
    ck.need('arrivals', 80)
    ck.need('changes of what is watched', 200)
    ck.need('deliveries', 80)
    ck.need('waits', 2)



# ---------------------------------------------------------------- C33
class Ctl:
    """a call that arms a descriptor"""

    def ctl(self, st, args):
        p = args[3]
        c = [st.mem.get((rest(p), p.c + o)) for o in (0, 4)]
        ev = None if c[0] is None else st.val(c[0][0])
        return st.val(args[1]), args[2], None if ev is None else ev & 0xffffffff, None if c[1] is None else c[1][0]


class Ready(Step, Ctl):
    """descriptors become ready"""

    def start(self, r, st):
        Step.start(self, r, st)
        st.g['arm'] = ()

    def root(self, st, args, ins):
        fd = self.eng.model.get(st, args[1], 'coroutine', 'evfd')
        for n, f in FDS.items():
            if fd is f:
                self.roots.add(str(args[0]).replace(str(f), 'FD'))
                return
        self.rep(st, 'the index is searched for a descriptor that no event named', ins)

    def on_call(self, st, name, args, ins):
        Step.on_call(self, st, name, args, ins)
        if name == 'epoll_wait':
            root = self.eng.roots(rest(args[1]))
            n = st.val(args[2])
            sz = self.room(root)
            if sz is not None and (n is None or n * self.eng.mod.sizeof(self.eng.mod.types['struct.epoll_event']) > sz):
                self.rep(st, 'there is room for fewer events than are asked for', ins)
            if not st.eq(args[0], self.eng.model.get(st, RT, 'runtime', 'qfd')):
                self.rep(st, 'another event queue is asked', ins)
        if name == 'epoll_ctl':
            op, fd, ev, dfd = self.ctl(st, args)
            f = [n for n, x in FDS.items() if x is fd]
            if not f or dfd is None or not st.eq(dfd, fd) or ev is None or \
                    not st.eq(args[0], self.eng.model.get(st, RT, 'runtime', 'qfd')):
                self.rep(st, 'a descriptor is armed with another or an unknown one', ins)
                return
            if op == DEL or op not in (ADD, MOD):
                ev = 0
            st.g['arm'] = tuple(x for x in st.g['arm'] if x[0] != f[0]) + ((f[0], ev),)

    def room(self, root):
        if root is None or root.kind != 'o' or root.a[0] != 'alloca':
            return None
        for f in self.eng.mod.funcs.values():
            for b in f.blocks:
                for i in b.insts:
                    if i.op == 'alloca' and i.id == root.a[2]:
                        return self.eng.mod.sizeof(i.ty)
        return None

    def finish(self, r):
        w = self.w
        for st, _ in r.rets:
            res = st.g['res']
            if not st.g.get('polled'):
                if res:
                    self.rep(st, 'coroutines are resumed although no event arrived: %s' % (res,))
                continue
            want = []
            left = {}
            got = {}
            for f, e in w.events:
                k = set()
                if e & (IN | HUP | ERR | RDHUP):
                    k.add(EVREAD)
                if e & (OUT | HUP | ERR):
                    k.add(EVWRITE)
                got[f] = got.get(f, set()) | k
            for n, f, k in w.ev:
                if k in got.get(f, ()):
                    want.append(n)
                elif f in got:
                    left.setdefault(f, set()).add(k)
            if sorted(set(res)) != sorted(want):
                self.rep(st, 'events %s: resumed %s, to be resumed %s' % (w.events, sorted(res), sorted(want)))
            if len(set(res)) != len(res):
                self.rep(st, 'a coroutine is resumed twice for an event')
            for f, ks in left.items():
                need = (IN if EVREAD in ks else 0) | (OUT if EVWRITE in ks else 0)
                a = dict(st.g['arm']).get(f, 0)
                if a & need != need:
                    self.rep(st, 'a coroutine still waits for the descriptor, which is no longer armed for it')
        return len(r.rets), sorted(self.roots)


class WaitModel(SchedModel):
    """a coroutine begins to wait for a descriptor while others may do so"""

    def list_call(self, st, name, args, ins):
        return Model.list_call(self, st, name, args, ins)

    def tree_call(self, st, p, op, args, ins):
        if p == 'evaat' and op in ('insert', 'delete'):
            self.eng.evroot(st, args, ins)
        elif p == 'evaat' and op in ('iter', 'next', 'first') and not st.g.get('woke'):
            return SchedModel.tree_call(self, st, p, op, args, ins)
        return Model.tree_call(self, st, p, op, args, ins)

    def external(self, st, name, args, ins):
        if name == 'epoll_ctl':
            self.set_errno(st, ins)
            no = st.copy()
            no.g['ctl'] = (None,)
            return [(no, const(-1)), (st, ZERO)]
        return Model.external(self, st, name, args, ins)

    def sco_call(self, st, name, args, ins):
        return Model.sco_call(self, st, name, args, ins)

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('ctl'), st.g.get('armed'))


class Arm(Monitor, Ctl):
    """the coroutine sleeps only when the descriptor is armed for it"""

    def start(self, r, st):
        self.r = r
        self.n = 0
        self.roots = set()
        self.eng.evroot = lambda st, args, ins: self.root(st, args, ins)
        m = r.eng.model
        others, kind = r.entry.info
        self.kind = kind
        ev = []
        r.world = [o[0] for o in others]
        for n, f, k in others:
            r.eng.note_stype(node(n), 'struct.coroutine')
            put(r, st, node(n), 'coroutine', 'evfd', FDS[f])
            put(r, st, node(n), 'coroutine', 'evkind', const(k))
            ev.append((n, f, k))
        m.ev = tuple(ev)
        descriptors(st)
        r.args[0] = FDS['b']
        if r.entry.func.startswith('neco_wait'):
            r.args[1] = const(kind)
        st.g['ctl'] = (None,)

    def rep(self, st, msg, ins):
        self.eng.report(st, 'arming', msg, ins)

    def root(self, st, args, ins):
        fd = self.eng.model.get(st, args[1], 'coroutine', 'evfd')
        if fd is FDS['b'] or st.eq(fd, FDS['b']):
            self.roots.add(str(args[0]).replace(str(FDS['b']), 'FD'))

    def on_call(self, st, name, args, ins):
        if name == 'epoll_ctl':
            op, fd, ev, dfd = self.ctl(st, args)
            good = op in (ADD, MOD) and fd is FDS['b'] and dfd is fd and ev is not None and \
                st.eq(args[0], self.eng.model.get(st, RT, 'runtime', 'qfd'))
            st.g['ctl'] = (ev if good else None,)

    def on_ret(self, st, name, args, ret, ins):
        if name == 'epoll_ctl' and st.val(ret) == 0:
            st.g['armed'] = st.g['ctl']

    def on_suspend(self, st, kind, args, ins):
        if kind == 'sco_pause' and 'E' in st.g and not st.g.get('woke'):
            self.n += 1
            ev = st.g.get('armed', (None,))[0]
            e = st.g['E']
            if e[1] is not FDS['b'] or st.val(e[2]) != self.kind:
                self.rep(st, 'the coroutine waits for another descriptor or kind of event than it asked for', ins)
            if ev is None:
                self.rep(st, 'the coroutine waits for a descriptor that is not armed', ins)
                return
            need = IN if self.kind == EVREAD else OUT
            if ev & (IN | OUT) & ~need and not ev & (IN | OUT) & need or not ev & need:
                self.rep(st, 'the descriptor is not armed for what the coroutine waits for', ins)
            for n, f, k in self.eng.model.ev:
                if f == 'b' and not ev & (IN if k == EVREAD else OUT):
                    self.rep(st, 'the descriptor is no longer armed for a coroutine that already waits for it', ins)
            if ev & (ET | RDHUP) & ~RDHUP:
                self.rep(st, 'the descriptor is armed edge-triggered: an earlier event is missed', ins)
        st.g['armed'] = (None,)


class Forget(Monitor):
    def start(self, r, st):
        self.r = r
        self.n = 0
        put(r, st, RT, 'runtime', 'npool', ZERO)
        put(r, st, RT, 'runtime', 'nevwaiters', r.eng.fresh(st, ('in', 'nev'), lo=1, hi=1 << 40) if r.entry.info else ZERO)
        st.g['q'] = ()

    def on_call(self, st, name, args, ins):
        if name == 'close':
            self.n += 1
            if self.r.entry.info:
                self.eng.report(st, 'queue', 'the event queue is closed although coroutines wait for descriptors', ins)
            if not st.eq(args[0], self.eng.model.get(st, RT, 'runtime', 'qfd')):
                self.eng.report(st, 'queue', 'another descriptor than that of the event queue is closed', ins)
            st.g['q'] = (1,)

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['q'] and st.val(r.eng.model.get(st, RT, 'runtime', 'qfd')) != 0:
                r.eng.report(st, 'queue', 'the closed event queue is not forgotten')
        return self.n


RC = 'rt_rc_step'


def c33(ck):
    ck.rule('one step of the scheduler with up to two events on descriptors that are given symbolically, for every '
            'combination of readiness, hang-up and error and of who waits for what: exactly the coroutines that wait '
            'for one of the reported events of that descriptor are resumed, once each; whoever still waits for another '
            'event of a reported descriptor has it armed again')
    ck.rule('an operation that waits for a descriptor, for every combination of others that wait already: on every path '
            'to the wait the descriptor was armed successfully, last of all, for what is waited for and for what others '
            'wait for, and the coroutine is in the index under that descriptor and kind')
    ck.rule('the index of waiting coroutines is always searched where a coroutine with that descriptor was put')
    ck.rule('the event queue is closed only while nobody waits for descriptors, and then forgotten')
    for d in configs(ck):
        if any('NOPOLL' in x or 'KQUEUE' in x for x in d):
            continue
        es = []
        base = [(), (('A', 'a', EVREAD),), (('B', 'b', EVREAD),), (('B', 'b', EVWRITE),),
                (('B', 'b', EVREAD), ('C', 'b', EVWRITE)),
                (('B', 'b', EVREAD), ('C', 'b', EVREAD)), (('B', 'b', EVWRITE), ('C', 'b', EVWRITE)),
                (('A', 'a', EVWRITE), ('B', 'b', EVREAD), ('C', 'b', EVWRITE), ('D', 'c', EVREAD)),
                (('A', 'a', EVREAD), ('B', 'b', EVREAD), ('C', 'b', EVREAD), ('D', 'b', EVWRITE), ('E', 'c', EVWRITE))]
        evs = [IN, OUT, IN | OUT, HUP, ERR, IN | HUP, OUT | ERR, IN | RDHUP, HUP | ERR | IN | OUT, OUT | HUP]
        for ev in base:
            if not ev:
                continue
            for e in evs:
                es.append(World(ev=ev, events=(('b', e),)))
            for e1, e2 in itertools.product((IN, OUT, IN | OUT, HUP), repeat=2):
                es.append(World(ev=ev, events=(('b', e1), ('a', e2))))
                es.append(World(ev=ev, events=(('c', e1), ('b', e2))))
            es.append(World(ev=ev, events=()))
        roots = set()
        for e, (n, rt) in ck.run([Entry(STEP, label='step of the scheduler: ' + w.label(), setup=w.setup, defs=d,
                                        info=(w, 'delivery'), model=dict(BIG, cls=SchedModel, sched=True)) for w in es],
                                 lambda e: [Ready()], lambda r, m: m[0].finish(r)):
            ck.count('steps', n)
            roots |= set(rt)
        es = []
        for fn, kinds in (('neco_wait_dl', (1, 2)), ('neco_wait', (1, 2)), ('neco_read_dl', (1,)), ('neco_write_dl', (2,)),
                          ('neco_accept_dl', (1,)), ('neco_connect_dl', (2,))):
            for k in kinds:
                for ev in base:
                    es.append(Entry(fn, label='%s, others %s' % (fn, ev), defs=d, info=(ev, k),
                                    model=dict(retlimit=200, mergelimit=200, cls=WaitModel, fork=True)))
        for e, (n, rt) in ck.run(es, lambda e: [Arm()], lambda r, m: (m[0].n, sorted(m[0].roots))):
            ck.count('waits for a descriptor', n)
            roots |= set(rt)
        if len(roots) > 1:
            ck.violate('index', 'coroutines that wait for a descriptor are put at one place and searched at another: %s'
                       % ' / '.join(sorted(roots)), function=STEP)
        ck.count('places in the index', len(roots))
        if RC in module(d).funcs:
            for e, n in ck.run([Entry(RC, info=i, defs=d) for i in (0, 1)], lambda e: [Forget()],
                               lambda r, m: m[0].finish(r)):
                ck.count('closes of the event queue', n)
    ck.need('steps', 100)
    ck.need('waits for a descriptor', 50)
    ck.need('places in the index', 1)


CHECKS = {'C25': c25, 'C33': c33, 'C35': c35}
