"""C26, C34: background threads, and the begin and end of a runtime."""
from common import *
from model import LASTERR
from checks_sync import configs, put
from checks_sched import node, list_names, link_list, BIG, STEP, World, SchedModel

GRT = of(atom('g', 'rt', lo=4096))
POOL = of(atom('o', 'node', 'zchanpool', 0, 0, lo=4096))
HANDLE = of(atom('o', 'node', 'dlhandle', 0, 0, lo=4096))
LISTS = ('resumers', 'pool', 'sigwaiters', 'iolist')


def rt_fields(mod):
    return {v[0] for v in mod.fields['runtime'].values()}


class RunModel(Model):
    """a runtime is made, run and released; the first coroutine and the scheduler are looked at elsewhere"""

    def list_call(self, st, name, args, ins):
        return None

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('R'), st.g.get('ran'), st.g.get('started'))

    def give(self, st, *r):
        st.g['R'] = tuple(sorted(st.g['R'] + (r,)))

    def take(self, st, *r):
        l = [x for x in st.g['R'] if x[:len(r)] == r]
        if not l:
            return None
        x = list(st.g['R'])
        x.remove(l[0])
        st.g['R'] = tuple(x)
        return l[0]

    def rt(self, st):
        c = st.mem.get((GRT, 0))
        return None if c is None else c[0]

    def alloc(self, st, name, args, ins):
        out = Model.alloc(self, st, name, args, ins)
        for s, v in out:
            if s.val(v) != 0:
                self.give(s, 'memory', str(v))
        return out

    def call(self, st, name, args, ins):
        eng = self.eng
        if name == 'start' and len(args) > 3:
            no = st.copy()
            st.g['started'] = no.g['started'] = 1
            no.g['failed'] = 1
            return [(st, ZERO), (no, const(-4))]
        if name == 'rt_scheduler':
            return self.scheduler(st, ins)
        if name in ('neco_free', 'free') and args and st.val(args[0]) != 0:
            if st.val(args[0]) is None and not st.nonzero(args[0]):
                z = st.copy()
                out = [(z, None)] if z.assume(mk_eq(args[0]), True) else []
                if not st.assume(mk_eq(args[0]), False):
                    return out
            else:
                out = []
            if self.take(st, 'memory', str(args[0])) is None:
                eng.report(st, 'released', 'memory is freed that was not allocated or is freed already', ins)
            if any(x[0] == 'signal stack' and x[1] == str(args[0]) for x in st.g['R']):
                eng.report(st, 'released', 'the signal stack is freed while signals may use it', ins)
            st.g['freed'] = st.g.get('freed', ()) + (str(args[0]),)
            return out + [(st, None)]
        if name == 'stack_mgr_init':
            self.give(st, 'stacks', str(args[0]))
            return [(st, None)]
        if name == 'stack_mgr_destroy':
            if self.take(st, 'stacks', str(args[0])) is None:
                eng.report(st, 'released', 'the stacks are released without having been set up', ins)
            return [(st, None)]
        if name == 'worker_new':
            no = st.copy()
            o = eng.newobj(st, ins.id, 'worker')
            self.give(st, 'background threads', str(o))
            no.g['failed'] = 1
            return [(no, ZERO), (st, o)]
        if name == 'worker_free':
            if st.val(args[0]) != 0 and self.take(st, 'background threads', str(args[0])) is None:
                eng.report(st, 'released', 'the background threads are released twice or without having been made', ins)
            return [(st, None)]
        return Model.call(self, st, name, args, ins)

    def scheduler(self, st, ins):
        """the coroutines ran and ended: channels wait for being used again, a library may be open"""
        rt = self.rt(st)
        mod = self.mod
        st.g['ran'] = 1
        for m in self.eng.monitors:
            m.running(st, rt, ins)
        out = []

        def cell(s, nm, v):
            a = self.field(rt, 'runtime', nm)
            s.mem[(rest(a), a.c)] = (v, mod.fsize('runtime', nm))
        for n, arr in ((0, 0), (0, 1), (2, 1)):
            for h in ((0, 1) if 'libbsd_handle' in rt_fields(mod) else (0,)):
                s = st.copy()
                cell(s, 'zchanpoollen', const(n))
                cell(s, 'zchanpool', POOL if arr else ZERO)
                if arr:
                    self.give(s, 'memory', str(POOL))
                for i in range(n):
                    s.mem[(POOL, 8 * i)] = (node('ch%d' % i), 8)
                    self.give(s, 'memory', str(node('ch%d' % i)))
                if 'libbsd_handle' in rt_fields(mod):
                    cell(s, 'libbsd_handle', HANDLE if h else ZERO)
                    if h:
                        self.give(s, 'library', str(HANDLE))
                out.append((s, ZERO))
        return out

    def external(self, st, name, args, ins):
        eng = self.eng
        if name == 'sigaltstack':
            if st.val(args[1]) != 0:
                p = args[0]
                c = st.mem.get((rest(p), p.c))
                self.give(st, 'signal stack', str(c[0]) if c else '?', str(args[1]))
            else:
                x = self.take(st, 'signal stack')
                if x is None or x[2] != str(args[0]):
                    eng.report(st, 'released', 'another signal stack than the previous one is restored', ins)
            return [(st, ZERO)]
        if name == 'sigaction':
            s = st.val(args[0])
            if s is None:
                raise AnalysisBroken('sigaction of a signal that is not known')
            if st.val(args[2]) != 0:
                if any(x[:2] == ('signal', s) for x in st.g['R']):
                    eng.report(st, 'released', 'the handler of signal %d is installed twice: the previous one is lost' % s, ins)
                self.give(st, 'signal', s, str(args[2]))
            else:
                x = self.take(st, 'signal', s)
                if x is None or x[2] != str(args[1]):
                    eng.report(st, 'released', 'signal %d gets another handler than the previous one' % s, ins)
            return [(st, ZERO)]
        if name.startswith('pthread_mutex') or name.startswith('pthread_cond'):
            return [(st, ZERO)]
        if name == 'dlclose':
            if self.take(st, 'library', str(args[0])) is None:
                eng.report(st, 'released', 'a library is closed twice', ins)
            return [(st, ZERO)]
        return Model.external(self, st, name, args, ins)


class Whole(Monitor):
    def start(self, r, st):
        self.r = r
        self.n = 0
        st.g['R'] = ()
        st.g['ran'] = 0
        st.g['started'] = 0
        r.args[0] = of(atom('g', 'user_function', lo=4096))
        T.restrict(st.facts, r.args[1], 0, 1 << 20)
        if r.entry.func == 'neco_startv':
            st.mem[(GRT, 0)] = (ZERO, 8)
        st.mem[(GRT, 0)] = (ZERO, 8)

    def on_store(self, st, tag, addr, val, ins, old):
        self.used(st, addr, ins)
        root = self.eng.roots(rest(addr))
        if root is not None and root.kind == 'g' and ins is not None and ins.op == 'atomicrmw' and old is not None and \
                sub(val, old) is ONE and not self.eng.mod.globals.get(root.a[0], {}).get('tls'):
            i = self.eng.mod.globals[root.a[0]].get('init')
            st.g['ctr'] = old
            st.g['ctr0'] = self.number(i)
        if tag == ('runtime', 'id') and val.m:
            c = st.g.get('ctr')
            d = None if c is None else sub(val, c)
            if d is None or d.m or st.g['ctr0'] is None or d.c + st.g['ctr0'] < 1:
                self.eng.report(st, 'identity', 'the identity of the runtime is not one of its own, beginning with 1', ins)
            else:
                st.g['id'] = 1

    def number(self, i):
        m = re.search(r'(-?\d+)', str(i)) if i is not None else None
        return int(m.group(1)) if m else 0 if 'zeroinit' in str(i) else None

    def used(self, st, addr, ins):
        f = st.g.get('freed', ())
        if f and str(rest(addr)) in f:
            self.eng.report(st, 'released', 'memory is used after it was freed', ins)

    def on_load(self, st, tag, addr, val, ins):
        self.used(st, addr, ins)

    def running(self, st, rt, ins):
        """the state in which the scheduler begins"""
        self.n += 1
        m, mod = self.eng.model, self.eng.mod
        if st.g.get('id') != 1:
            self.eng.report(st, 'identity', 'the runtime has no identity', ins)
        for l in LISTS:
            if l not in rt_fields(mod):
                continue
            q = m.field(rt, 'runtime', l)
            h, t = add(q, const(mod.off('colist', 'head'))), add(q, const(mod.off('colist', 'tail')))
            a = st.mem.get((rest(h), h.c + mod.off('colink', 'next')))
            b = st.mem.get((rest(t), t.c + mod.off('colink', 'prev')))
            if a is None or b is None or a[0] is not t or b[0] is not h:
                self.eng.report(st, 'set up', 'the scheduler begins with a queue that is not set up: %s' % l, ins)
        for f in ('nevwaiters', 'ndeadlines', 'nsigwaiters', 'niowaiters', 'nresumers', 'npool', 'qfd', 'sigmask'):
            if f in rt_fields(mod) and st.val(m.get(st, rt, 'runtime', f)) != 0:
                self.eng.report(st, 'set up', 'the scheduler begins with a runtime that is not empty: %s' % f, ins)
        want = {'stacks'} | ({'background threads'} if 'worker' in rt_fields(mod) else set())
        if not want <= {x[0] for x in st.g['R']}:
            self.eng.report(st, 'set up', 'the scheduler begins before %s are set up' % ' and '.join(sorted(want)), ins)
        if not st.g['started']:
            self.eng.report(st, 'set up', 'the scheduler begins without a coroutine', ins)
        sig = sorted(x[1] for x in st.g['R'] if x[0] == 'signal')
        mt = st.val(m.get(st, rt, 'runtime', 'mainthread'))
        if '-DNECO_NOSIGNALS' not in mod.defs:
            if mt is None or bool(sig) != bool(mt):
                self.eng.report(st, 'set up', 'the handlers of signals are installed in another thread than the main one, '
                                'or not at all', ins)
            from checks_sched import ALLOWED
            if sig and not set(ALLOWED) <= set(sig):
                self.eng.report(st, 'set up', 'not all signals that can be watched have a handler', ins)
        if st.g.get('freed'):
            self.eng.report(st, 'set up', 'the scheduler begins after something was freed', ins)

    def finish(self, r):
        for st, ret in r.rets:
            for x in st.g['R']:
                r.eng.report(st, 'released', 'the runtime ends, but this remains: %s' % ' '.join(map(str, x[:2])))
            c = st.mem.get((GRT, 0))
            if c is None or st.val(c[0]) != 0:
                r.eng.report(st, 'released', 'the thread still has a runtime after it ended')
            v = st.val(ret)
            if st.g['ran'] and v != 0:
                r.eng.report(st, 'result', 'all coroutines ran, but the result is %s' % v)
            if not st.g['ran'] and (v is None or v >= 0):
                r.eng.report(st, 'result', 'the runtime did not start, but the result is %s' % v)
        for st, ins in r.eng.exits:
            r.eng.report(st, 'result', 'a path does not return', ins)
        return len(r.rets), self.n


class InsideModel(Model):
    def call(self, st, name, args, ins):
        if name == 'start' and len(args) > 3:
            no = st.copy()
            st.g['started'] = st.g.get('started', 0) + 1
            no.g['started'] = no.g.get('started', 0) + 1
            return [(st, ZERO), (no, const(-4))]
        if name == 'rt_scheduler':
            self.eng.report(st, 'once', 'a second scheduler is run in a thread', ins)
            return []
        return Model.call(self, st, name, args, ins)


class Inside(Monitor):
    def start(self, r, st):
        r.args[0] = of(atom('g', 'user_function', lo=4096))
        T.restrict(st.facts, r.args[1], 0, 1 << 20)
        st.g['started'] = 0

    def on_store(self, st, tag, addr, val, ins, old):
        if rest(addr) is GRT:
            self.eng.report(st, 'once', 'a thread that has a runtime gets another', ins)

    def finish(self, r):
        for st, ret in r.rets:
            if st.g['started'] != 1:
                r.eng.report(st, 'once', 'a start inside of a runtime starts %d coroutines' % st.g['started'])
        return len(r.rets)


class LoopModel(RunModel):
    """the loop of the scheduler; its steps are looked at elsewhere (C25, C33, C35)"""
    STEPS = ('rt_sched_paused_step', 'rt_rc_step')

    def mergekey(self, st):
        return RunModel.mergekey(self, st) + (st.g.get('active'), st.g.get('turn'), st.g.get('step'))

    def rt(self, st):
        return RT

    def call(self, st, name, args, ins):
        if name == 'rt_scheduler':
            return None
        if name in self.STEPS:
            if name == self.STEPS[0]:
                st.g['step'] = 1
            return [(st, None)]
        if name == 'stack_put':
            o = self.mod.off('coroutine', 'stack')
            st.g['stack'] = tuple(sorted(st.g.get('stack', ()) + (str(sub(args[1], const(o))),)))
            if not st.eq(args[0], self.field(RT, 'runtime', 'stkmgr')):
                self.eng.report(st, 'released', 'a stack is given back to another owner', ins)
            return [(st, None)]
        return RunModel.call(self, st, name, args, ins)

    def sco_call(self, st, name, args, ins):
        if name == 'sco_active':
            if st.g['active'] == 1:
                if not st.g['turn']:
                    self.eng.report(st, 'loop', 'a turn of the scheduler runs no coroutine', ins)
                if not st.g['step']:
                    self.eng.report(st, 'loop', 'a turn of the scheduler does not look after the paused coroutines', ins)
            st.g['turn'] = st.g['step'] = 0
            no = st.copy()
            st.g['active'], no.g['active'] = 1, 0
            return [(st, ONE), (no, ZERO)]
        if name == 'sco_info_paused':
            no = st.copy()
            no.g['step'] = 1
            return [(no, ZERO), (st, self.eng.fresh(st, ('paused', ins.id), lo=1, hi=1 << 40))]
        if name == 'sco_resume':
            if st.val(args[0]) == 0:
                st.g['turn'] = 1
            return [(st, None)]
        return RunModel.sco_call(self, st, name, args, ins)

    def external(self, st, name, args, ins):
        if name == 'close':
            if not st.eq(args[0], self.get(st, RT, 'runtime', 'qfd')) or st.g['closed']:
                self.eng.report(st, 'released', 'another descriptor than that of the event queue is closed', ins)
            st.g['closed'] = 1
        return RunModel.external(self, st, name, args, ins)


class Loop(Monitor):
    def start(self, r, st):
        self.r = r
        st.g.update(R=(), ran=0, active=0, turn=1, step=1, closed=0, stack=(), started=1)
        npool, qfd = r.entry.info
        r.world = ['A', 'B'][:npool]
        m = r.eng.model
        for n in r.world:
            r.eng.note_stype(node(n), 'struct.coroutine')
            put(r, st, node(n), 'coroutine', 'argc', ZERO)
            put(r, st, node(n), 'coroutine', 'argv', ZERO)
            m.give(st, 'memory', str(node(n)))
        for i, a in enumerate(r.world):
            for b in r.world[:i]:
                st.assume(mk_eq(sub(node(a), node(b))), False)
        link_list(r, st, 'pool', r.world)
        put(r, st, RT, 'runtime', 'npool', const(npool))
        put(r, st, RT, 'runtime', 'qfd', ZERO if not qfd else r.eng.fresh(st, ('in', 'qfd'), lo=1, hi=1 << 30))

    def finish(self, r):
        for st, ret in r.rets:
            if st.g['active']:
                r.eng.report(st, 'loop', 'the scheduler ends while coroutines remain')
            if bool(st.g['closed']) != bool(r.entry.info[1]):
                r.eng.report(st, 'released', 'the event queue is not closed at the end, or closed without being open')
            for x in st.g['R']:
                r.eng.report(st, 'released', 'an ended coroutine is not freed at the end')
            if sorted(st.g['stack']) != sorted(str(node(n)) for n in r.world):
                r.eng.report(st, 'released', 'the stack of an ended coroutine is not given back once')
            if st.val(ret) != 0:
                r.eng.report(st, 'result', 'all coroutines ended, but the result is %s' % st.val(ret))
        return len(r.rets)


def c34(ck):
    ck.rule('starting in a thread without a runtime, for every failure of an allocation, of the background threads and '
            'of the first coroutine, on the main and on other threads: on every path everything that was acquired '
            '(memory, stacks, background threads, handlers of signals, signal stack, library) is released exactly once, '
            'in a safe order and to its previous state, nothing is used after it was freed, the thread has no runtime '
            'afterwards, and the result tells whether the coroutines ran')
    ck.rule('when the scheduler begins, the runtime is set up: empty queues and counts, an identity of its own, handlers '
            'for all signals exactly on the main thread')
    ck.rule('starting in a thread with a runtime starts one coroutine and no scheduler')
    ck.rule('the loop of the scheduler looks after the paused coroutines and runs the ready ones in every turn, ends only '
            'when none is left, and then closes the event queue and frees the coroutines kept for reuse')
    for d in configs(ck):
        es = [Entry(f, label=f + ' in a thread without a runtime', defs=d,
                    model=dict(BIG, cls=RunModel, outside=True)) for f in ('neco_start', 'neco_startv')]
        for e, (n, k) in ck.run(es, lambda e: [Whole()], lambda r, m: m[0].finish(r)):
            ck.count('ends of a runtime', n)
            ck.count('begins of the scheduler', k)
        es = [Entry(f, label=f + ' in a thread with a runtime', defs=d,
                    model=dict(BIG, cls=InsideModel)) for f in ('neco_start', 'neco_startv')]
        for e, n in ck.run(es, lambda e: [Inside()], lambda r, m: m[0].finish(r)):
            ck.count('starts inside of a runtime', n)
        es = [Entry('rt_scheduler', label='loop of the scheduler', defs=d, info=(p, q),
                    model=dict(BIG, cls=LoopModel, sched=True, unroll=4)) for p in (0, 1, 2) for q in (0, 1)]
        for e, n in ck.run(es, lambda e: [Loop()], lambda r, m: m[0].finish(r)):
            ck.count('ends of the scheduler', n)
    ck.need('ends of a runtime', 10)
    ck.need('begins of the scheduler', 2)
    ck.need('starts inside of a runtime', 4)
    ck.need('ends of the scheduler', 6)



# ---------------------------------------------------------------- C26
SHARED = ('pos', 'len', 'th', 'end')
WT = 'worker_thread'


class ThreadModel(Model):
    """what threads share is as the invariant says whenever the lock is taken:
    0 <= pos < nentries, 0 <= len <= nentries, and the first entry is a job"""

    def mergekey(self, st):
        g = st.g
        return Model.mergekey(self, st) + (g.get('held'), g.get('todo'), g.get('sig'), g.get('made'), g.get('wrote'),
                                           g.get('joined'), g.get('detached'))

    def init_load(self, st, r, off, size, ins):
        tag = self.eng.tag(add(r, const(off)))
        if tag == (WT, 'nentries'):
            return of(atom('fld', r, off, 'nentries', lo=1, hi=65536))
        if tag == (WT, 'entries'):
            return of(atom('fld', r, off, 'entries', lo=4096))
        if tag == ('worker', 'nthreads'):
            return of(atom('fld', r, off, 'nthreads', lo=1, hi=65536))
        if tag == ('worker', 'threads'):
            return of(atom('fld', r, off, 'threads', lo=4096))
        return Model.init_load(self, st, r, off, size, ins)

    def thread(self, st, mu):
        return sub(mu, const(self.mod.off(WT, 'mu')))

    def acquire(self, st, th, ins):
        """others may have changed everything while the lock was free"""
        eng = self.eng
        eng.note_stype(th, 'struct.' + WT)
        n = self.get(st, th, WT, 'nentries')
        e = self.get(st, th, WT, 'entries')
        for k in [k for k in st.mem if k[0] is not rest(th) and e.m[0][0] in dict(k[0].m)]:
            st.mem.pop(k)
        v = {}
        for f, lo, hi in (('pos', 0, None), ('len', 0, None), ('th', 0, None), ('end', 0, 1)):
            x = eng.fresh(st, ('shared', f, ins.id), lo=lo, hi=hi, what=f)
            a = self.field(th, WT, f)
            st.mem[(rest(a), a.c)] = (x, self.mod.fsize(WT, f))
            v[f] = x
            st.g['v_' + f] = x
        T.restrict(st.facts, sub(v['pos'], n), hi=-1)
        T.restrict(st.facts, sub(v['len'], n), hi=0)
        slot = add(e, scale(v['pos'], self.mod.sizeof(self.mod.types['struct.worker_entry'])))
        for f in ('work', 'udata'):
            x = eng.fresh(st, ('job', f, ins.id), lo=4096 if f == 'work' else 0, what=f)
            st.mem[(rest(slot), slot.c + self.mod.off('worker_entry', f))] = (x, 8)
            st.g['v_' + f] = x
        st.g['held'] = 1
        st.g['lock'] = add(th, const(self.mod.off(WT, 'mu')))
        st.g['thread'] = th
        st.g['wrote'] = ()

    def external(self, st, name, args, ins):
        eng = self.eng
        if name in ('pthread_mutex_lock', 'pthread_mutex_trylock'):
            if st.g.get('held'):
                eng.report(st, 'lock', 'a lock is taken while one is held', ins)
            self.acquire(st, self.thread(st, args[0]), ins)
            return [(st, ZERO)]
        if name == 'pthread_mutex_unlock':
            if not st.g.get('held') or not st.eq(args[0], st.g['lock']):
                eng.report(st, 'lock', 'a lock is released that is not held', ins)
            for m in eng.monitors:
                m.released(st, ins, 'unlock')
            st.g['held'] = 0
            return [(st, ZERO)]
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            if not st.g.get('held') or not st.eq(args[1], st.g['lock']):
                eng.report(st, 'lock', 'a condition is waited for without its lock', ins)
            for m in eng.monitors:
                m.released(st, ins, 'wait')
            self.acquire(st, self.thread(st, args[1]), ins)
            return [(st, eng.fresh(st, ('wait', ins.id), lo=0))]
        if name in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            st.g['sig'] = 1
            return [(st, ZERO)]
        if name == 'pthread_create':
            no = st.copy()
            no.g['made'] = 'failed'
            st.g['made'] = 'made'
            a = args[0]
            for s in (st, no):
                s.mem[(rest(a), a.c)] = (eng.fresh(s, ('pth', ins.id), lo=1 if s is st else 0), 8)
            for m in eng.monitors:
                m.created(st, args, ins)
            return [(st, ZERO), (no, eng.fresh(no, ('err', ins.id), lo=1, hi=200))]
        if name == 'pthread_join':
            for m in eng.monitors:
                m.joins(st, args, ins)
            st.g['joined'] = 1
            return [(st, ZERO)]
        if name == 'pthread_detach':
            st.g['detached'] = 1
            return [(st, ZERO)]
        if name.startswith('pthread_'):
            return [(st, ZERO)]
        return Model.external(self, st, name, args, ins)

    def call(self, st, name, args, ins):
        if name.startswith('worker_'):
            return None
        return Model.call(self, st, name, args, ins)

    def indirect(self, st, fn, args, ins):
        for m in self.eng._ov['on_call']:
            m.on_call(st, '<indirect>', [fn] + args, ins)
        return [(st, self.eng.fresh(st, ('ind', ins.id)) if ins.res else None)]


def modulo(st, v, at, n, k):
    """v is k * (at mod n), for positive numbers"""
    if len(v.m) == 1 and v.c == 0 and v.m[0][1] == k and v.m[0][0].kind in ('srem', 'urem'):
        a = v.m[0][0].a
        return st.eq(a[0], at) and st.le(ZERO, at) and st.eq(a[1], n)
    return False


class Shared(Monitor):
    """every access to what threads share happens under the lock"""

    def __init__(self):
        self.n = 0
        self.nlock = 0

    def start(self, r, st):
        self.r = r
        st.g.update(held=0, todo=0, sig=0, made='', wrote=(), joined=0, detached=0)

    def rep(self, st, msg, ins=None, rule='lock'):
        self.eng.report(st, rule, msg, ins)

    def access(self, st, tag, addr, ins):
        if tag is None or tag[0] not in (WT, 'worker_entry') or (tag[0] == WT and tag[1] not in SHARED):
            return
        if is_local(self.eng, st, addr) or (st.g.get('joined') == 1 and tag[0] == WT):
            return
        self.n += 1
        if not st.g['held']:
            self.rep(st, 'what the threads share (%s) is used without the lock' % tag[1], ins)
        elif tag[0] == WT and not st.eq(sub(addr, const(self.eng.mod.off(WT, tag[1]))), st.g['thread']):
            self.rep(st, 'what the threads share (%s) is used under the lock of another thread' % tag[1], ins)

    def on_load(self, st, tag, addr, val, ins):
        self.access(st, tag, addr, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        self.access(st, tag, addr, ins)
        if not st.g.get('held'):
            return
        e = self.eng.model.get(st, st.g['thread'], WT, 'entries')
        if e.m[0][0] in dict(addr.m):
            st.g['wrote'] = tuple(sorted(set(st.g['wrote'] + (self.slot(st, addr, val, e),))))

    def on_copy(self, st, kind, dst, src, n, ins):
        if not st.g.get('held'):
            for p in (dst, src):
                if p is not None and any(a.kind == 'fld' and a.a[2] == 'entries' for a, _ in p.m):
                    self.rep(st, 'the queue of jobs is used without the lock', ins)

    def slot(self, st, addr, val, e):
        return 'other'

    def on_call(self, st, name, args, ins):
        pass

    def created(self, st, args, ins):
        pass

    def joins(self, st, args, ins):
        pass

    def now(self, st, f):
        return self.eng.model.get(st, st.g['thread'], WT, f)

    def released(self, st, ins, how):
        """the invariant holds whenever the lock is released"""
        self.nlock += 1
        m = self.eng.model
        n = self.now(st, 'nentries')
        pos, ln = self.now(st, 'pos'), self.now(st, 'len')
        if not (st.le(ZERO, pos) and st.le(add(pos, ONE), n) or
                modulo(st, pos, add(st.g['v_pos'], ONE), n, 1)):
            self.rep(st, 'the position in the queue of jobs is outside of it when the lock is released', ins, 'queue')
        if not (st.le(ZERO, ln) and st.le(ln, n)):
            self.rep(st, 'the number of jobs is outside of the queue when the lock is released', ins, 'queue')
        if st.eq(pos, st.g['v_pos']) and st.eq(ln, st.g['v_len']):
            st.g['todo'] = 0
        elif st.eq(ln, sub(st.g['v_len'], ONE)) and (
                st.eq(pos, add(st.g['v_pos'], ONE)) and st.le(add(pos, ONE), n) or
                st.val(pos) == 0 and st.eq(add(st.g['v_pos'], ONE), n) or
                modulo(st, pos, add(st.g['v_pos'], ONE), n, 1)):
            st.g['todo'] = 1
        elif st.eq(pos, st.g['v_pos']) and st.eq(ln, add(st.g['v_len'], ONE)):
            st.g['todo'] = 2
        else:
            self.rep(st, 'the queue of jobs is neither unchanged nor one job shorter or longer', ins, 'queue')

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['held']:
                self.rep(st, 'the lock is still held at the end')
        return self.n, self.nlock, len(r.rets)


class Thread(Shared):
    """the life of a background thread"""

    def on_call(self, st, name, args, ins):
        if name == '<indirect>':
            if st.g['held']:
                self.rep(st, 'a job is run while the lock is held', ins, 'job')
            if st.g['todo'] != 1:
                self.rep(st, 'a job is run that was not taken from the queue, or is run twice', ins, 'job')
            elif args[0] is not st.g['v_work'] or args[1] is not st.g['v_udata']:
                self.rep(st, 'another job is run than the one taken from the queue', ins, 'job')
            st.g['todo'] = 0
        if name in ('pthread_mutex_lock',) and st.g['todo'] == 1:
            self.rep(st, 'a job is taken from the queue and not run', ins, 'job')

    def released(self, st, ins, how):
        Shared.released(self, st, ins, how)
        if st.g['wrote'] or st.g['todo'] == 2:
            self.rep(st, 'the thread adds jobs', ins, 'queue')
        if how == 'wait' and not st.le(self.now(st, 'len'), ZERO):
            self.rep(st, 'the thread sleeps although there are jobs', ins, 'job')

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['todo']:
                self.rep(st, 'the thread ends without running the job it took', None, 'job')
            if not st.le(self.now(st, 'len'), ZERO):
                self.rep(st, 'the thread ends although there are jobs', None, 'job')
            if st.val(self.now(st, 'th')) != 0:
                self.rep(st, 'the thread ends without this being recorded: no other is made for later jobs', None, 'job')
            if not st.g['detached'] and not st.nonzero(st.g['v_end']):
                self.rep(st, 'the thread ends and is neither joined nor detached', None, 'job')
            if st.g['detached'] and st.val(st.g['v_end']) != 0:
                self.rep(st, 'the thread is detached although it is going to be joined', None, 'job')
        return Shared.finish(self, r)


class Submit(Shared):
    """a job is given to a background thread"""

    def start(self, r, st):
        Shared.start(self, r, st)
        st.assume(mk_eq(r.args[0]), False)
        st.assume(mk_eq(r.args[2]), False)
        r.eng.note_stype(r.args[0], 'struct.worker')

    def slot(self, st, addr, val, e):
        m, mod = self.eng.model, self.eng.mod
        sz = mod.sizeof(mod.types['struct.worker_entry'])
        n = self.now(st, 'nentries')
        at = add(st.g['v_pos'], st.g['v_len'])
        for f, want in (('work', self.r.args[2]), ('udata', self.r.args[3])):
            d = sub(sub(addr, e), const(mod.off('worker_entry', f)))
            if st.eq(d, scale(at, sz)) and st.le(add(at, ONE), n) or \
                    st.eq(d, scale(sub(at, n), sz)) and st.le(n, at) or modulo(st, d, at, n, sz):
                return f if val is want else 'wrong'
        return 'other'

    def created(self, st, args, ins):
        f = args[2]
        if not st.eq(args[0], add(st.g['thread'], const(self.eng.mod.off(WT, 'th')))) or \
                not st.eq(args[3], st.g['thread']):
            self.rep(st, 'the new thread does not get its own queue', ins, 'job')
        n = f.m[0][0].a[0] if len(f.m) == 1 and f.m[0][0].kind == 'g' else None
        self.entries = getattr(self, 'entries', set()) | {n}
        if st.val(st.g['v_th']) != 0:
            self.rep(st, 'a thread is made although there is one', ins, 'job')

    def on_load(self, st, tag, addr, val, ins):
        Shared.on_load(self, st, tag, addr, val, ins)
        ths = self.eng.model.get(st, self.r.args[0], 'worker', 'threads')
        if ths.m[0][0] in dict(addr.m):
            n = self.eng.model.get(st, self.r.args[0], 'worker', 'nthreads')
            i = sub(addr, ths)
            ok = st.le(ZERO, i) and st.le(add(i, const(8)), scale(n, 8))
            if len(i.m) == 1 and i.c == 0 and i.m[0][1] == 8 and i.m[0][0].kind in ('srem', 'urem'):
                a = i.m[0][0].a
                ok = ok or st.le(ZERO, a[0]) and st.eq(a[1], n)
            if not ok:
                self.rep(st, 'a thread outside of the list is used', ins, 'queue')

    def finish(self, r):
        for st, ret in r.rets:
            v = st.val(ret)
            if v is None:
                self.rep(st, 'the result is not determined', None, 'job')
            elif v & 1:
                if st.g['todo'] != 2 or 'work' not in st.g['wrote'] or 'udata' not in st.g['wrote'] or \
                        set(st.g['wrote']) - {'work', 'udata'}:
                    self.rep(st, 'a job is reported as accepted that is not at the end of the queue', None, 'job')
                if not (st.g['made'] == 'made' or st.nonzero(st.g['v_th']) and st.g['sig']):
                    self.rep(st, 'a job is accepted, but no thread is made or signaled for it', None, 'job')
            else:
                if st.g['todo'] == 2:
                    self.rep(st, 'a job is reported as refused that is in the queue', None, 'job')
                if 'thread' in st.g:
                    if st.g['made'] != 'failed' and not st.le(self.now(st, 'nentries'), st.g['v_len']):
                        self.rep(st, 'a job is refused although there is room for it', None, 'job')
                    if st.g['made'] == 'failed' and st.val(self.now(st, 'th')) != 0:
                        self.rep(st, 'a thread that could not be made is recorded as made', None, 'job')
        return Shared.finish(self, r) + (sorted(map(str, getattr(self, 'entries', ()))),)


class Free(Shared):
    """the background threads are ended and freed"""

    def start(self, r, st):
        Shared.start(self, r, st)
        r.eng.note_stype(r.args[0], 'struct.worker')
        m = r.eng.model
        self.k = r.entry.info
        st.assume(mk_eq(r.args[0]), False)
        a = of(atom('o', 'node', 'threads', 0, 0, lo=4096))
        put(r, st, r.args[0], 'worker', 'threads', a)
        put(r, st, r.args[0], 'worker', 'nthreads', const(2))
        self.fn = m.get(st, r.args[0], 'worker', 'free')
        for i in range(2):
            t = node('thread%d' % i) if self.k[i] else ZERO
            st.mem[(a, 8 * i)] = (t, 8)
            if self.k[i]:
                r.eng.note_stype(t, 'struct.' + WT)
                put(r, st, t, WT, 'nentries', of(atom('fld', t, 0, 'nentries', lo=1, hi=65536)))
                put(r, st, t, WT, 'entries', of(atom('fld', t, 0, 'entries', lo=4096)))
        self.want = sorted([str(r.args[0]), str(a)] + [
            str(x) for i in range(2) if self.k[i] for x in
            (node('thread%d' % i), of(atom('fld', node('thread%d' % i), 0, 'entries', lo=4096)))])
        st.g['freed'] = ()
        st.g['ended'] = ()

    def released(self, st, ins, how):
        Shared.released(self, st, ins, how)
        th = str(st.g['thread'])
        if st.val(self.now(st, 'end')) == 1 and st.g['sig']:
            st.g['ended'] = st.g['ended'] + ((th, 'told'),)
        st.g['sig'] = 0
        if st.val(st.g['v_th']) == 0:
            st.g['ended'] = st.g['ended'] + ((th, 'none'),)
        st.g['joined'] = 0

    def joins(self, st, args, ins):
        if not st.eq(args[0], st.g['v_th']):
            self.rep(st, 'another thread is joined', ins, 'job')
        if (str(st.g['thread']), 'told') not in st.g['ended']:
            self.rep(st, 'a thread is waited for that was not told to end', ins, 'job')
        st.g['ended'] = st.g['ended'] + ((str(st.g['thread']), 'joined'),)

    def on_call(self, st, name, args, ins):
        if name == '<indirect>' and args[0] is self.fn and st.val(args[1]) != 0:
            p = str(args[1])
            if p in st.g['freed'] or p not in self.want:
                self.rep(st, 'memory is freed twice or is not that of the threads', ins, 'job')
            st.g['freed'] = tuple(sorted(st.g['freed'] + (p,)))
            for i in range(2):
                t = node('thread%d' % i)
                if p in (str(t), str(of(atom('fld', t, 0, 'entries', lo=4096)))):
                    e = {x for q, x in st.g['ended'] if q == str(t)}
                    if 'joined' not in e and not ('v_th' in st.g and st.eq(st.g['thread'], t) and
                                                  st.val(st.g['v_th']) == 0) and 'none' not in e:
                        self.rep(st, 'the memory of a thread is freed while it may run', ins, 'job')

    def finish(self, r):
        for st, ret in r.rets:
            if sorted(st.g['freed']) != self.want:
                self.rep(st, 'not all memory of the threads is freed', None, 'job')
        return Shared.finish(self, r)


class Job(Monitor):
    """what a background thread runs for a waiting coroutine"""

    def start(self, r, st):
        self.r = r
        st.g.update(lk=0, done=0, pushed=0)
        self.struct = r.entry.info
        r.eng.note_stype(r.args[0], self.struct)
        T.restrict(st.facts, r.args[0], 4096, None)
        self.co = self.rt = None

    def rep(self, st, msg, ins=None):
        self.eng.report(st, 'handing back', msg, ins)

    def on_load(self, st, tag, addr, val, ins):
        if rest(addr) is self.r.args[0]:
            if st.g['pushed'] == 2:
                self.rep(st, 'the job is used after its coroutine may go on', ins)
            if tag is not None and tag[1] == 'co':
                self.co = val
            if tag is not None and tag[1] == 'rt':
                self.rt = val

    def on_store(self, st, tag, addr, val, ins, old):
        if rest(addr) is self.r.args[0] and st.g['pushed'] == 2:
            self.rep(st, 'the job is used after its coroutine may go on', ins)

    def on_call(self, st, name, args, ins):
        m = self.eng.model
        if name in ('<indirect>', 'read', 'write', 'recv', 'send'):
            if st.g['lk']:
                self.rep(st, 'a job is run while the lock is held', ins)
            if st.g['pushed']:
                self.rep(st, 'a job is run after it was reported as done', ins)
            st.g['done'] += 1
            if name == '<indirect>':
                b = self.r.args[0]
                k = [st.mem.get((b, self.eng.mod.off(self.struct.split('.')[1], f))) for f in ('work', 'udata')]
                if None in k or args[0] is not k[0][0] or args[1] is not k[1][0]:
                    self.rep(st, 'another function or argument than those of the job is used', ins)
        elif name == 'pthread_mutex_lock':
            if self.rt is None or not st.eq(args[0], m.field(self.rt, 'runtime', 'iomu')) or st.g['lk']:
                self.rep(st, 'another lock than that of the runtime is taken, or twice', ins)
            st.g['lk'] = 1
        elif name == 'pthread_mutex_unlock':
            if not st.g['lk']:
                self.rep(st, 'the lock is released without being held', ins)
            st.g['lk'] = 0
            if st.g['pushed']:
                st.g['pushed'] = 2
        elif name == 'colist_push_back':
            if not st.g['lk']:
                self.rep(st, 'the queue of those whose job is done is used without the lock', ins)
            if self.rt is None or not st.eq(args[0], m.field(self.rt, 'runtime', 'iolist')) or args[1] is not self.co:
                self.rep(st, 'another coroutine or queue than that of the job is used', ins)
            if st.g['pushed'] or st.g['done'] != 1:
                self.rep(st, 'the coroutine is told that its job is done before it was run once, or twice', ins)
            st.g['pushed'] = 1
        elif name.startswith('sco_') or name.startswith('neco_'):
            self.rep(st, 'a background thread calls %s' % name, ins)

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['lk'] or st.g['pushed'] != 2:
                self.rep(st, 'the job ends without its coroutine being told, or with the lock held')
        return len(r.rets)


class JobModel(Model):
    def init_load(self, st, r, off, size, ins):
        tag = self.eng.tag(add(r, const(off)))
        if tag is not None and tag[0] in ('iowork', 'ioread', 'iowrite') and tag[1] in ('work', 'rt', 'co'):
            v = of(atom('fld', r, off, tag[1], lo=4096))
            if tag[1] in ('rt', 'co'):
                self.eng.note_stype(v, 'struct.runtime' if tag[1] == 'rt' else 'struct.coroutine')
            return v
        return Model.init_load(self, st, r, off, size, ins)

    def indirect(self, st, fn, args, ins):
        for m in self.eng._ov['on_call']:
            m.on_call(st, '<indirect>', [fn] + args, ins)
        return [(st, None)]

    def external(self, st, name, args, ins):
        if name.startswith('pthread_'):
            return [(st, ZERO)]
        return Model.external(self, st, name, args, ins)


class Caller(Monitor):
    """the coroutine that has a job done"""

    def start(self, r, st):
        self.r = r
        self.jobs = set()
        self.n = 0
        st.g.update(sub='', io=0, ran=0, idle=0)

    def rep(self, st, msg, ins=None):
        self.eng.report(st, 'waiting', msg, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        if tag == ('runtime', 'niowaiters'):
            d = sub(val, old) if old is not None else None
            if d is None or d.m or d.c not in (1, -1):
                self.rep(st, 'the number of coroutines with background jobs changes by something else than one', ins)
            else:
                st.g['io'] += d.c

    def on_call(self, st, name, args, ins):
        if name == 'worker_submit':
            self.n += 1
            f = args[2]
            n = f.m[0][0].a[0] if len(f.m) == 1 and f.m[0][0].kind == 'g' else None
            info = args[3]
            root = self.eng.roots(rest(info))
            ty = self.eng.stypes.get(rest(info))
            self.jobs.add((n, ty))
            if st.g['sub'] == 'given' or st.g['sub'] and self.r.entry.func == 'neco_work':
                self.rep(st, 'the job is given away twice', ins)
            if root is None or ty is None:
                self.rep(st, 'the job is not known', ins)
                return
            s = ty.split('.')[1]

            def cell(x):
                c = st.mem.get((rest(info), info.c + self.eng.mod.off(s, x)))
                return None if c is None else c[0]
            if cell('co') is not SELF or cell('rt') is not RT:
                self.rep(st, 'the job does not name the coroutine that waits for it', ins)
            if s == 'iowork' and (cell('work') is not self.r.args[1] or cell('udata') is not self.r.args[2]):
                self.rep(st, 'the job has another function or argument than those asked for', ins)
            if not st.eq(args[0], self.eng.model.get(st, RT, 'runtime', 'worker')):
                self.rep(st, 'the job is given to other threads than those of the runtime', ins)
        if name == '<indirect>' and args[0] is self.r.args[1]:
            if args[1] is not self.r.args[2] or st.g['sub'] or st.g['ran']:
                self.rep(st, 'the job is run twice or with another argument', ins)
            st.g['ran'] = 1

    def on_ret(self, st, name, args, ret, ins):
        if name == 'worker_submit':
            if st.val(ret) is None:
                raise AnalysisBroken('worker_submit')
            st.g['sub'] = 'given' if st.val(ret) else ''
            if not st.val(ret):
                st.g['idle'] = 0

    def on_suspend(self, st, kind, args, ins):
        m = self.eng.model
        if kind == 'sco_pause':
            if st.g['sub'] == 'given':
                if st.g['io'] != 1:
                    self.rep(st, 'the scheduler is not told that a coroutine waits for a background job', ins)
                if m.has_working and m.selfval(st, 'working') != 1:
                    self.rep(st, 'a coroutine waits for its job and is not protected from being woken early', ins)
                if 'L' in st.g or 'D' in st.g or 'E' in st.g:
                    self.rep(st, 'a coroutine that waits for its job may be woken by something else', ins)
                st.g['sub'] = 'done'
            elif self.r.entry.func.startswith('neco_work'):
                self.rep(st, 'the coroutine waits for a job that nobody runs', ins)
        elif st.g['sub'] == 'given':
            self.rep(st, 'the coroutine goes on before its job is done', ins)

    def finish(self, r):
        for st, ret in r.rets + [(s, None) for s, _ in r.eng.exits]:
            if st.g['sub'] == 'given':
                self.rep(st, 'the operation ends before its job is done')
            if st.g['io']:
                self.rep(st, 'the number of coroutines with background jobs is not restored')
            if r.entry.func.startswith('neco_work') and ret is not None:
                v = st.val(ret)
                if v == 0 and st.g['sub'] != 'done' and not st.g['ran']:
                    self.rep(st, 'success is reported although the job did not run')
                if v != 0 and (st.g['sub'] or st.g['ran']):
                    self.rep(st, 'failure is reported although the job ran')
        return self.n, sorted(self.jobs, key=str)


class CallerModel(Model):
    def __init__(self, mod, **kw):
        Model.__init__(self, mod, **kw)
        self.has_working = 'working' in {v[0] for v in mod.fields['coroutine'].values()}

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('sub'), st.g.get('io'), st.g.get('ran'))

    def worker_submit(self, st, args, ins):
        out = Model.worker_submit(self, st, args, ins)
        return out


class Drain(Monitor):
    """the scheduler takes those whose job is done under the lock"""

    def start(self, r, st):
        self.n = 0
        st.g.update(lk=0, res=())
        self.eng.evroot = lambda st, args, ins: None

    def access(self, st, tag, ins):
        if tag and tag[0] == 'runtime' and tag[1].startswith('iolist'):
            self.n += 1
            if not st.g['lk']:
                self.eng.report(st, 'lock', 'the queue of those whose background job is done is used without its lock', ins)

    def on_load(self, st, tag, addr, val, ins):
        self.access(st, tag, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        self.access(st, tag, ins)

    def on_call(self, st, name, args, ins):
        m = self.eng.model
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock') and \
                st.eq(args[0], m.field(RT, 'runtime', 'iomu')):
            lk = name == 'pthread_mutex_lock'
            if bool(st.g['lk']) == lk:
                self.eng.report(st, 'lock', 'the lock of those whose background job is done is %s' % (
                    'taken twice' if lk else 'released without being held'), ins)
            st.g['lk'] = int(lk)

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['lk']:
                self.eng.report(st, 'lock', 'the step ends with the lock held')
        return self.n


class NoResume(Monitor):
    """nobody else resumes a coroutine that waits for its job"""

    def start(self, r, st):
        self.n = 0

    def on_call(self, st, name, args, ins):
        if name != 'sco_resume' or st.val(args[0]) == 0:
            return
        m = self.eng.model
        for a in args[0].deps:
            if a.kind == 'idof':
                co = a.a[0]
                self.n += 1
                w, s = (m.get(st, co, 'coroutine', f) for f in ('working', 'suspended'))
                if st.val(w) != 0 and st.val(s) != 1:
                    self.eng.report(st, 'early', 'a coroutine may be resumed that waits for its background job', ins)
                return
        co = st.g.get('found')
        if co is not None:
            self.n += 1
            w, s = (m.get(st, co, 'coroutine', f) for f in ('working', 'suspended'))
            if st.val(w) != 0 and st.val(s) != 1:
                self.eng.report(st, 'early', 'a coroutine may be resumed that waits for its background job', ins)

    def on_ret(self, st, name, args, ret, ins):
        if name in ('all_search', 'cofind'):
            st.g['found'] = ret


def c26(ck):
    ck.rule('giving a job to a background thread, for every state of its queue (positions symbolic) and every failure to '
            'make a thread: what the threads share is used only under the lock, which is released on every path; an '
            'accepted job is put at the end of the queue, once and unchanged, and a thread is made or signaled for it; '
            'a refused job leaves the queue as it was')
    ck.rule('a background thread takes each job once and in order, runs it exactly once, with its argument and without '
            'the lock, sleeps and ends only when the queue is empty, and records its end')
    ck.rule('freeing the threads: each is told to end and joined before its memory is freed, once')
    ck.rule('the job of a coroutine runs its function once with its argument, then puts the coroutine into the queue of '
            'its runtime under the lock, and uses nothing of the coroutine afterwards')
    ck.rule('the caller waits exactly once for each job it gave away and continues only then; the scheduler is told; '
            'nobody else resumes it meanwhile; success is reported exactly when the job ran')
    for d in configs(ck):
        if '-DNECO_NOWORKERS' in d:
            continue
        mod = module(d)
        big = dict(retlimit=2000, mergelimit=2000, entlimit=2000)
        jobs = set()
        threads = set()
        for e, n in ck.run([Entry('worker_submit', defs=d, model=dict(big, cls=ThreadModel, outside=True))],
                           lambda e: [Submit()], lambda r, m: m[0].finish(r)):
            ck.count('accesses to shared state', n[0])
            ck.count('releases of the lock', n[1])
            threads |= set(n[3])
        for t in sorted(threads):
            if t not in mod.funcs:
                raise AnalysisBroken('the function of the background threads is not known')

            def su(r, st):
                T.restrict(st.facts, r.args[0], 4096, None)
                r.eng.note_stype(r.args[0], 'struct.' + WT)
            for e, n in ck.run([Entry(t, defs=d, setup=su, model=dict(big, cls=ThreadModel, outside=True))],
                               lambda e: [Thread()], lambda r, m: m[0].finish(r)):
                ck.count('accesses to shared state', n[0])
                ck.count('releases of the lock', n[1])
                ck.count('ends of a thread', n[2])
        for e, n in ck.run([Entry('worker_free', defs=d, info=k, model=dict(big, cls=ThreadModel, outside=True, unroll=6))
                            for k in ((1, 1), (1, 0), (0, 0))], lambda e: [Free()], lambda r, m: m[0].finish(r)):
            ck.count('ends of all threads', n[2])
        es = [Entry(f, defs=d, model=dict(big, cls=CallerModel, fork=True)) for f in ('neco_work',)]
        # other operations that use background threads
        for f in sorted(api()):
            if f in mod.funcs and f != 'neco_work' and f in ('neco_read_dl', 'neco_write_dl', 'neco_getaddrinfo_dl'):
                es.append(Entry(f, defs=d, model=dict(cls=CallerModel, fork=True)))
        for e, (n, j) in ck.run(es, lambda e: [Caller()], lambda r, m: m[0].finish(r)):
            ck.count('jobs given away', n)
            jobs |= set(j)
        es = []
        for f, ty in sorted(jobs, key=str):
            if f not in mod.funcs or ty is None:
                raise AnalysisBroken('the function of a background job is not known')
            es.append(Entry(f, defs=d, info=ty, model=dict(big, cls=JobModel, outside=True)))
        for e, n in ck.run(es, lambda e: [Job()], lambda r, m: m[0].finish(r)):
            ck.count('jobs handed back', n)
        ws = [World(io=io) for io in ((), ('I',), ('I', 'J'))] + [World(io=('I',), resumers=('A',), nsched=1)]
        for e, n in ck.run([Entry(STEP, label='step of the scheduler: ' + w.label(), setup=w.setup, defs=d,
                                  model=dict(BIG, cls=SchedModel, sched=True)) for w in ws],
                           lambda e: [Drain()], lambda r, m: m[0].finish(r)):
            ck.count('uses of the queue of jobs done', n)
        if 'working' in {v[0] for v in mod.fields['coroutine'].values()}:
            for e, n in ck.run([Entry(f, defs=d, model=dict(fork=True)) for f in ('neco_cancel_dl', 'neco_resume')],
                               lambda e: [NoResume()], lambda r, m: m[0].n):
                ck.count('resumptions of others', n)
            ck.need('resumptions of others', 2)
    ck.need('accesses to shared state', 10)
    ck.need('ends of a thread', 1)
    ck.need('uses of the queue of jobs done', 4)
    ck.need('ends of all threads', 3)
    ck.need('jobs given away', 1)
    ck.need('jobs handed back', 1)


CHECKS = {'C26': c26, 'C34': c34}
