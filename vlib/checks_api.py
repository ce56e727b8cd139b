"""C01 - C04, C10, C28, C32: what every function of the API promises about its
results, whatever it does."""
from common import *
from model import SYSCALLS, SUSPEND

ERRNO_FAMILY = {'neco_read', 'neco_read_dl', 'neco_write', 'neco_write_dl', 'neco_accept', 'neco_accept_dl',
                'neco_connect', 'neco_connect_dl', 'neco_setnonblock'}
GAI = {'neco_getaddrinfo', 'neco_getaddrinfo_dl'}
EPERM, EINVAL, ENOMEM, ECANCELED, ETIMEDOUT, EINTR, EAGAIN = 1, 22, 12, 125, 110, 4, 11
EAI_SYSTEM = -11
BENIGN = {'__errno_location', 'clock_gettime', 'getpid', 'syscall', 'gettid', 'strlen', 'strcmp', 'strncmp',
          'getnow', 'sco_udata', 'sco_id', 'is_main_thread', '_is_main_thread_', 'pthread_self', 'memcmp'}
EFFECTS = set(SYSCALLS) - {'clock_gettime'} | SUSPEND | {
    'sco_exit', 'getaddrinfo', 'pthread_create', 'dlopen', 'dlsym', 'neco_malloc', 'neco_realloc', 'neco_free',
    'colist_push_back', 'colist_pop_front', 'remove_from_list', 'worker_submit', 'dlqueue_insert', 'evaat_insert',
    'all_insert', 'all_delete', 'pthread_mutex_lock', 'sigaction', 'freeaddrinfo', 'sco_start', '<indirect>'}


class NoEffect(Monitor):
    """nothing happens but the recording of the error"""
    rule = 'no-effect'

    def __init__(self, allow=()):
        self.allow = set(allow)

    def ok_addr(self, st, addr):
        eng = self.eng
        root = eng.roots(rest(addr))
        if root is None:
            return False
        if root.kind == 'o':
            return root not in st.esc or True
        if root.kind == 'g' and root.a[0] == 'lasterr':
            return True
        from model import ERRNO_A
        return root is ERRNO_A

    def on_store(self, st, tag, addr, val, ins, old):
        if not addr.m and 0 <= addr.c < 65536:
            self.eng.report(st, 'null-dereference', 'stores through a null pointer (offset %d)' % addr.c, ins)
            st.dead = 'null'
        elif not self.ok_addr(st, addr):
            self.eng.report(st, self.rule, 'a refused call changes %s' % (tag,), ins)

    def on_load(self, st, tag, addr, val, ins):
        if not addr.m and 0 <= addr.c < 65536:
            self.eng.report(st, 'null-dereference', 'loads through a null pointer (offset %d)' % addr.c, ins)
            st.dead = 'null'

    def on_copy(self, st, kind, dst, src, n, ins):
        if not self.ok_addr(st, dst):
            self.eng.report(st, self.rule, 'a refused call writes memory (%s)' % kind, ins)

    def on_call(self, st, name, args, ins):
        if name in EFFECTS and name not in self.allow:
            self.eng.report(st, self.rule, 'a refused call reaches %s' % name, ins)
            if name in SUSPEND:
                st.dead = 'suspended'


def errno_of(st):
    c = st.mem.get((ERRNO, 0))
    return None if c is None else st.val(c[0])


def describe(r, st, ret):
    v = st.val(ret) if ret is not None else None
    return 'returns %s, last error %s' % (v if v is not None else st.bounds(ret)[:2] if ret is not None else 'void',
                                          lasterr(r, st))


def check_refusal(r, st, ret, want, what, errno_want):
    """ret is the refusal `want` (a set of codes)"""
    n = r.entry.func
    v = st.val(ret)
    e = errno_of(st)
    if n in ERRNO_FAMILY:
        good = v == -1 and e in errno_want
    elif n in GAI:
        good = v == EAI_SYSTEM and e in errno_want
    else:
        good = v in want
    if not good:
        r.eng.report(st, 'wrong-result', '%s: %s%s instead of %s' % (
            what, describe(r, st, ret), ', errno %s' % e if n in ERRNO_FAMILY | GAI else '', sorted(want)),
            key=('wrong-result', r.entry.label, v, e))
    return good


# ---------------------------------------------------------------- C01
C01_EXEMPT = {'neco_start', 'neco_startv', 'neco_setnonblock'}


def c01(ck):
    C = codes()
    ck.rule('every API function, analysed with no runtime on the thread: each return is the permission error '
            '(or the invalid-argument error, when the path looked at an argument), errno is set for the functions '
            'that report through it, and the path stores nothing but the error, dereferences no null pointer, '
            'and reaches no system call, allocation, suspension or registration')
    es = [Entry(n, model={'outside': True}) for n in ops() if n not in C01_EXEMPT]
    es.append(Entry('neco_exit', model={'outside': True}))
    if ck.tier == 'thorough':
        es += [Entry(e.func, model={'outside': True}, defs=d) for d in CONFIGS for e in list(es)
               if not e.defs]

    def fin(r, mons):
        if r.eng.exits:
            r.eng.report(r.eng.exits[0][0], 'no-effect', 'ends the coroutine outside of one')
        if r.entry.func == 'neco_exit':
            return (len(r.rets), [])
        perm = False
        for st, ret in r.rets:
            if check_refusal(r, st, ret, {C['NECO_PERM'], C['NECO_INVAL']}, 'outside of a coroutine',
                             {EPERM, EINVAL}):
                v = st.val(ret)
                if v == C['NECO_PERM'] or r.entry.func in ERRNO_FAMILY | GAI:
                    perm = True
                elif not looked_at_args(r, st):
                    r.eng.report(st, 'wrong-result', 'reports an invalid argument without looking at one')
        if not perm:
            r.eng.report(None, 'wrong-result', 'no path reports the missing permission')
        return (len(r.rets), [describe(r, *x) for x in r.rets[:2]])
    for e, (n, s) in ck.run(es, lambda e: [NoEffect()], fin):
        ck.count('returns outside of a coroutine', n)
        ck.sample({'call': e.label, 'paths': s})
    ck.count('functions', len(es))
    ck.need('functions', 100)


def looked_at_args(r, st):
    aa = {a for x in r.args for a in x.deps}
    return any(K.deps & aa for K in st.facts)


CONFIGS = [('NECO_NOPOOL',), ('NECO_NOSIGNALS',), ('NECO_USEREADWORKERS', 'NECO_USEWRITEWORKERS'),
           ('NECO_NOWORKERS',), ('NECO_BURST=2',)]


# ---------------------------------------------------------------- C02
def invalid_cases():
    """[(function, what, setup)]"""
    out = []

    def null(fn, i, what):
        def setup(r, st):
            r.args[i] = ZERO
        out.append((fn, 'NULL ' + what, setup))

    def rng(fn, i, lo, hi, what):
        def setup(r, st):
            r.args[i] = of(atom('p', 'bad%d' % i, lo, hi, lo=lo, hi=hi))
        out.append((fn, what, setup))
    A = api()
    for fn, p in A.items():
        if fn in PLAIN:
            continue
        for i, t in enumerate(split_params(p)):
            if t.startswith('neco_') and t.count('*') >= 1 and '[]' not in t:
                null(fn, i, t)
            elif 'neco_stats' in t:
                null(fn, i, t)
            elif '(*coroutine)' in t or '(*work)' in t:
                null(fn, i, 'function')
            elif t == 'int argc' or t == 'int nchans':
                rng(fn, i, -(1 << 31), -1, 'negative ' + t)
            elif t == 'size_t data_size' or (t == 'size_t capacity'):
                rng(fn, i, 1 << 31, (1 << 63) - 1, t + ' over INT_MAX')
            elif t == 'const char *network' or t == 'const char *address':
                null(fn, i, t)
            elif t == 'int signo':
                rng(fn, i, -(1 << 31), 0, 'signo < 1')
                rng(fn, i, 32, (1 << 31) - 1, 'signo > 31')
            elif t == 'int mode':
                rng(fn, i, -(1 << 31), 0, 'mode < 1')
                rng(fn, i, 3, (1 << 31) - 1, 'mode > 2')
            elif t == 'int type':
                rng(fn, i, -(1 << 31), 0, 'type < 1')
                rng(fn, i, 3, (1 << 31) - 1, 'type > 2')
            elif t == 'int state':
                rng(fn, i, -(1 << 31), 2, 'state < 3')
                rng(fn, i, 5, (1 << 31) - 1, 'state > 4')
            elif t == 'int attr':
                rng(fn, i, -(1 << 31), -1, 'attr < 0')
                rng(fn, i, 2, (1 << 31) - 1, 'attr > 1')
            elif t == 'int fd' and fn.startswith('neco_stream_make'):
                rng(fn, i, -(1 << 31), -1, 'fd < 0')
    # a null channel among the cases of a select
    for fn in ('neco_chan_selectv', 'neco_chan_selectv_dl', 'neco_chan_tryselectv'):
        for n, bad in ((1, 0), (2, 0), (2, 1), (3, 1)):
            def setup(r, st, n=n, bad=bad):
                r.args[0] = const(n)
                arr = r.args[1]
                st.assume(mk_eq(arr), False)
                for i in range(n):
                    v = ZERO if i == bad else of(atom('p', 'chan%d' % i, lo=4096))
                    st.mem[(arr, i * 8)] = (v, 8)
                    if i != bad:
                        same_rt(r, st, v, 'neco_chan')
            out.append((fn, 'NULL channel %d of %d' % (bad, n), setup))
    return out


def same_rt(r, st, base, struct):
    """the object belongs to the running runtime"""
    eng = r.eng
    eng.note_stype(base, 'struct.' + struct)
    m = eng.model
    b = m.get(st, RT, 'runtime', 'id')
    st.mem[(base, m.mod.off(struct, 'rtid'))] = (b, 8)


def other_rt(r, st, base, struct):
    eng = r.eng
    eng.note_stype(base, 'struct.' + struct)
    m = eng.model
    st.assume(mk_eq(base), False)
    a = m.get(st, base, struct, 'rtid')
    b = m.get(st, RT, 'runtime', 'id')
    st.assume(mk_eq(a), False)
    st.assume(mk_eq(sub(a, b)), False)


class NoEffectBut(NoEffect):
    rule = 'no-effect'

    def ok_addr(self, st, addr):
        return NoEffect.ok_addr(self, st, addr)


def c02(ck):
    C = codes()
    ck.rule('every API parameter with an invalid range (null object, null function, negative count, size over '
            'INT_MAX, signal outside 1..31, unknown mode, type, state or attribute): each path returns the '
            'invalid-argument error and changes nothing')
    cases = invalid_cases()
    ds = [()] + (CONFIGS if ck.tier == 'thorough' else [])
    # the other objects of the call are sound
    es = []
    for d in ds:
        for fn, what, setup in cases:
            def su(r, st, setup=setup):
                for i, t in enumerate(split_params(api()[r.entry.func])):
                    for s in ('neco_mutex', 'neco_cond', 'neco_waitgroup', 'neco_chan', 'neco_stream'):
                        if t.startswith(s + ' *') and '**' not in t:
                            same_rt(r, st, r.args[i], s)
                            st.assume(mk_eq(r.args[i]), False)
                setup(r, st)
            es.append(Entry(fn, label='%s(%s)' % (fn, what), setup=su, defs=d, model={'unroll': 5} if 'channel' in what else {}))

    def fin(r, mons):
        for st, ret in r.rets:
            check_refusal(r, st, ret, {C['NECO_INVAL']}, r.entry.label, {EINVAL})
        if r.eng.exits:
            r.eng.report(None, 'no-effect', 'ends the coroutine on an invalid argument')
        if not r.rets:
            r.eng.report(None, 'wrong-result', 'never returns on an invalid argument')
        return len(r.rets)
    allow = {'neco_malloc', 'neco_free'}
    for e, n in ck.run(es, lambda e: [NoEffectBut(allow if 'select' in e.func else ())], fin):
        ck.count('refused argument cases')
        ck.sample({'call': e.label, 'paths': n})
    ck.need('refused argument cases', 100)
    # an index into a fixed table is in its range
    ck.rule('every access of a fixed-size array inside of the runtime, a coroutine or a local table has an index '
            'within the array on every path')
    es2 = [Entry(n) for n in ops() if n not in ('neco_start', 'neco_startv', 'neco_dial', 'neco_dial_dl',
                                               'neco_serve', 'neco_serve_dl', 'neco_stream_write_dl')]
    es2 += [Entry('sighandler'), Entry('rt_sched_signal_step'), Entry('start', model={})]
    for e, n in ck.run(es2, lambda e: [Index()], lambda r, m: dict(m[0].seen)):
        for k, v in n.items():
            ck.count('table accesses', 1)
    ck.need('table accesses', 10)
    ck.rule('an address of the unix family is copied into the socket address only where its length was found to fit')
    es3 = [Entry(n) for n in ('neco_dial', 'neco_dial_dl', 'neco_serve', 'neco_serve_dl')]
    for e, n in ck.run(es3, lambda e: [Fits()], lambda r, m: len(m[0].seen)):
        ck.count('strings copied', n)


class Fits(Monitor):
    """a string is not cut off when it is copied"""

    def __init__(self):
        self.seen = set()

    def on_ret(self, st, name, args, ret, ins):
        if name in ('strlen', 'strnlen') and ret is not None:
            st.g['len'] = tuple(x for x in st.g.get('len', ()) if x[0] is not args[0]) + ((args[0], ret),)

    def on_call(self, st, name, args, ins):
        if name in ('strncpy', 'strcpy', 'stpcpy', 'stpncpy', 'strlcpy'):
            dst, src = args[0], args[1]
            if src.m and src.m[0][0].kind in ('g', 'o'):
                return
            z = self.eng.objsize.get(dst.m[0][0]) if len(dst.m) == 1 else None
            if z is None:
                return
            room = sub(z, const(dst.c))
            self.seen.add(ins.id)
            n = dict(st.g.get('len', ())).get(src)
            if n is None or not st.le(add(n, ONE), room) or len(args) > 2 and not st.le(n, args[2]):
                self.eng.report(st, 'truncated', 'a string is copied without its length being known to fit', ins)


class Index(Monitor):
    """indexes into fixed-size arrays stay inside"""

    def __init__(self):
        self.seen = {}

    def attach(self, eng):
        self.eng = eng
        old = eng.gep

        def gep(st, sty, base, idx):
            if len(idx) > 1:
                self.look(st, sty, idx)
            return old(st, sty, base, idx)
        eng.gep = gep

    def look(self, st, sty, idx):
        eng = self.eng
        m = eng.mod
        ty = sty
        for k, (t, v) in enumerate(idx):
            if k == 0:
                continue
            tt = m.resolve(ty)
            if tt.k == 'struct':
                x = eng.val(st, v)
                ty = m.field_off(tt, x.c)[1]
            elif tt.k == 'arr':
                x = eng.val(st, v)
                n = tt.a
                if n and x.m:
                    lo, hi, _ = st.bounds(x)
                    key = (eng.stack[-1][0], n, repr(sty))
                    self.seen[key] = 1
                    if lo is None or lo < 0 or hi is None or hi >= n:
                        eng.report(st, 'index-range', 'an array of %d elements (in %r) is indexed with a value in '
                                   '[%s, %s]' % (n, sty, lo, hi), None,
                                   key=('index', eng.stack[-1][0], n, repr(sty)))
                ty = tt.b
            else:
                return


# ---------------------------------------------------------------- C03
def c03(ck):
    C = codes()
    ck.rule('every API function that is given a channel, generator, mutex, condition, wait group or stream whose '
            'owner is another runtime: each path returns the permission error and changes nothing of it')
    es = []
    ds = [()] + (CONFIGS if ck.tier == 'thorough' else [])
    for d in ds:
        for fn, p in api().items():
            ps = split_params(p)
            for i, t in enumerate(ps):
                if '**' in t or fn.endswith('_init') or not t.startswith('neco_'):
                    continue
                s = t.split()[0]
                if s == 'neco_gen':
                    s = 'neco_chan'
                if s not in ('neco_mutex', 'neco_cond', 'neco_waitgroup', 'neco_chan', 'neco_stream') or '[]' in t:
                    continue

                def setup(r, st, i=i, s=s, ps=ps):
                    for j, t in enumerate(ps):
                        q = t.split()[0]
                        if j != i and q in ('neco_mutex', 'neco_cond'):
                            same_rt(r, st, r.args[j], q)
                            st.assume(mk_eq(r.args[j]), False)
                    other_rt(r, st, r.args[i], s)
                es.append(Entry(fn, label='%s(foreign %s)' % (fn, t), setup=setup, defs=d))
    for fn in ('neco_chan_selectv', 'neco_chan_selectv_dl', 'neco_chan_tryselectv'):
        for n, bad in ((1, 0), (2, 0), (2, 1)):
            def setup(r, st, n=n, bad=bad):
                r.args[0] = const(n)
                arr = r.args[1]
                st.assume(mk_eq(arr), False)
                for i in range(n):
                    v = of(atom('p', 'chan%d' % i, lo=4096))
                    st.mem[(arr, i * 8)] = (v, 8)
                    (other_rt if i == bad else same_rt)(r, st, v, 'neco_chan')
            es.append(Entry(fn, label='%s(foreign channel %d of %d)' % (fn, bad, n), setup=setup, model={'unroll': 5}))

    def fin(r, mons):
        for st, ret in r.rets:
            check_refusal(r, st, ret, {C['NECO_PERM']}, r.entry.label, {EPERM})
        if r.eng.exits:
            r.eng.report(None, 'no-effect', 'ends the coroutine on a foreign object')
        if not r.rets:
            r.eng.report(None, 'wrong-result', 'never returns on a foreign object')
        return len(r.rets)
    allow = {'neco_malloc', 'neco_free'}
    for e, n in ck.run(es, lambda e: [NoEffectBut(allow if 'select' in e.func else ())], fin):
        ck.count('foreign object cases')
        ck.sample({'call': e.label, 'paths': n})
    ck.need('foreign object cases', 50)


# ---------------------------------------------------------------- C04
def conv(e):
    C = codes()
    return {EINVAL: C['NECO_INVAL'], EPERM: C['NECO_PERM'], ENOMEM: C['NECO_NOMEM'],
            ECANCELED: C['NECO_CANCELED'], ETIMEDOUT: C['NECO_TIMEDOUT']}.get(e, C['NECO_ERROR'])


class ErrnoModel(Model):
    """knows whether errno was set since others could last change it"""

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('errno'),)

    def set_errno(self, st, ins):
        Model.set_errno(self, st, ins)
        st.g['errno'] = 1

    def external(self, st, name, args, ins):
        if name == 'getaddrinfo':
            st.g['errno'] = 1       # when it returns EAI_SYSTEM
        return Model.external(self, st, name, args, ins)


class ErrnoSet(Monitor):
    def start(self, r, st):
        st.g['errno'] = 0

    def on_suspend(self, st, kind, args, ins):
        st.g['errno'] = 0

    def on_store(self, st, tag, addr, val, ins, old):
        if rest(addr) is ERRNO:
            st.g['errno'] = 1


def c04(ck):
    C = codes()
    ck.rule('at every return of every API function: a result that is an error code is the last error; -1 with errno '
            'gives the code that errno converts to; a result that is not an error leaves no last error, but for a '
            'short write, whose last error says so; the value is set after the last point where another coroutine '
            'could have run')
    es = []
    for d in [()] + (CONFIGS if ck.tier == 'thorough' else []):
        for n in ops():
            if n in ('neco_start', 'neco_startv'):
                continue
            if d and ('dial' in n or 'serve' in n):
                continue
            es.append(Entry(n, defs=d, model={'fork': 'select' in n, 'cls': ErrnoModel}))
            es.append(Entry(n, model={'outside': True, 'cls': ErrnoModel}, label=n + ' outside', defs=d))
    special = {C['NECO_PARTIALWRITE']}

    def fin(r, mons):
        n = 0
        fn = r.entry.func
        for st, ret in r.rets:
            n += 1
            v = st.val(ret)
            lo, hi, ex = st.bounds(ret)
            g = of(atom('g', 'lasterr', lo=4096))
            cell = st.mem.get((g, 0))
            L = None if cell is None else st.val(cell[0])

            def bad(msg):
                r.eng.report(st, 'last-error', '%s, but last error is %s: %s' % (
                    'returns %s' % (v if v is not None else 'a value in [%s, %s]' % (lo, hi)),
                    L if L is not None else 'not set' if cell is None else 'undetermined', msg),
                    key=(fn, v, lo, L, msg))
            if cell is None:
                bad('it is not set after the last switch')
                continue
            errs = fn in ERRNO_FAMILY
            if fn in GAI:
                if v == 0:
                    if L != 0:
                        bad('expected none')
                elif v == EAI_SYSTEM:
                    sysconv(st, L, bad, True)
                elif v is None and EAI_SYSTEM in ex and st.nonzero(ret) or v is not None:
                    if L != C['NECO_GAIERROR']:
                        bad('expected the address error')
                else:
                    bad('the result is undetermined')
                continue
            if v is not None and v < -1 and not errs:
                if L != v:
                    bad('expected the result')
            elif v == -1:
                sysconv(st, L, bad, errs)
            elif lo is not None and lo >= 0:
                if fn.startswith('neco_write') and L in special:
                    if not st.le(add(ret, ONE), r.args[2]):
                        bad('a full write is reported as partial')
                elif L != 0:
                    bad('expected none')
                elif fn.startswith('neco_write') and not st.le(r.args[2], ret):
                    bad('a short write is not reported as partial')
            elif st.eq(cell[0], ret) and hi is not None and hi < 0:
                pass      # same undetermined code
            else:
                bad('the sign of the result is undetermined')
        return n

    def sysconv(st, L, bad, own):
        c = st.mem.get((ERRNO, 0))
        if c is None or own and not st.g['errno']:
            bad('errno is not set after the last switch')
            return
        e = st.val(c[0])
        if e is not None:
            if L != conv(e):
                bad('expected %d for errno %d' % (conv(e), e))
            return
        lo, hi, ex = st.bounds(c[0])
        if L != C['NECO_ERROR']:
            bad('expected the code of errno')
            return
        for k in (EINVAL, EPERM, ENOMEM, ECANCELED, ETIMEDOUT):
            if k not in ex and (lo is None or lo <= k) and (hi is None or k <= hi):
                bad('errno may still be %d' % k)
                return
    for e, n in ck.run(es, lambda e: [ErrnoSet()], fin):
        ck.count('returns', n)
    ck.count('functions', len(es))
    ck.need('functions', 200)
    ck.need('returns', 900)


# ---------------------------------------------------------------- C10
class NoWait(Monitor):
    def on_suspend(self, st, kind, args, ins):
        if kind in ('sco_pause',) or kind.startswith('callback'):
            self.eng.report(st, 'try-waits', 'a try operation can reach %s' % kind, ins)
            st.dead = 'pause'

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back' and self.eng.model is not None:
            if args[1] is SELF or is_local(self.eng, st, args[1]):
                self.eng.report(st, 'try-registers', 'a try operation registers itself as a waiter', ins)
        if name in ('dlqueue_insert', 'evaat_insert', 'nanosleep', 'epoll_wait'):
            self.eng.report(st, 'try-waits', 'a try operation can reach %s' % name, ins)
        if name in ('sco_resume', 'sco_yield'):
            st.g['eff'] = 1

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] in ('neco_chan', 'neco_mutex') and not is_local(self.eng, st, addr):
            if tag[1] == 'lok':
                return
            st.g['eff'] = 1

    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and st.nonzero(ret):
            st.g['eff'] = 1


def c10(ck):
    C = codes()
    ck.rule('every try operation (receive, select, lock, read lock): no path reaches a pause, registers the '
            'coroutine anywhere or gives up control before it reports busy or empty; the busy or empty result comes '
            'from paths that changed nothing of the object; every path that does not fail does the whole operation')
    names = [n for n in api() if re.search(r'_try', n)]

    def setup(r, st):
        for i, t in enumerate(split_params(api()[r.entry.func])):
            for s in ('neco_mutex', 'neco_chan'):
                if t.startswith(s + ' *') and '[]' not in t:
                    st.assume(mk_eq(r.args[i]), False)
                    same_rt(r, st, r.args[i], s)
    es = [Entry(n, setup=setup, defs=d) for n in names for d in [()] + (CONFIGS if ck.tier == 'thorough' else [])]

    def fin(r, mons):
        n = {}
        for st, ret in r.rets:
            v = st.val(ret)
            n[v] = n.get(v, 0) + 1
            if v in (C['NECO_BUSY'], C['NECO_EMPTY']) and st.g.get('eff'):
                r.eng.report(st, 'try-effect', 'reports %d after changing the object or waking others' % v)
        k = C['NECO_BUSY'] if 'lock' in r.entry.func else C['NECO_EMPTY']
        if k not in n:
            r.eng.report(None, 'try-result', 'no path reports %d: the operation never refuses to wait' % k)
        return n
    for e, n in ck.run(es, lambda e: [NoWait()], fin):
        ck.count('try operations')
        ck.count('returns', sum(n.values()))
        ck.sample({'call': e.label, 'results': {str(k): v for k, v in n.items()}})
    ck.need('try operations', 5)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C10': c10}
