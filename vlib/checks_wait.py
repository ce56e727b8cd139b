"""C05 - C09, C11: how an operation waits and how its wait ends."""
from common import *
from model import SYSCALLS, SUSPEND, LASTERR
from checks_api import CONFIGS, same_rt

ASYNC, INLINE, ENABLE, DISABLE = 1, 2, 3, 4
SKIP = {'neco_start', 'neco_startv', 'neco_gen_start', 'neco_gen_startv'}
IO = ('neco_read', 'neco_write', 'neco_accept', 'neco_connect', 'neco_wait', 'neco_getaddrinfo')
CODEF = {'canceled', 'deadlined', 'granted'}


def base(fn):
    return fn[:-3] if fn.endswith('_dl') else fn


def waits(fn):
    """API functions that can wait"""
    return fn not in SKIP


def deadline_param(fn):
    for i, t in enumerate(split_params(api()[fn])):
        if t.split()[-1] == 'deadline':
            return i
    return None


def variants(ck, names=None, model=None, canceled=(0, 1), types=(INLINE, ASYNC), extra=None):
    """entries: every API function, with and without a pending cancelation, for
    both ways to be canceled"""
    es = []
    for d in [()] + (CONFIGS if ck.tier == 'thorough' else []):
        for fn in ops():
            if not waits(fn) or (names is not None and fn not in names):
                continue
            if d and fn in SUMMARIES:
                continue
            for c in canceled:
                for t in types:
                    def setup(r, st, c=c, t=t):
                        m = r.eng.model
                        m.setself(st, 'canceled', const(c))
                        m.setself(st, 'canceltype', const(t))
                        if extra:
                            extra(r, st)
                    es.append(Entry(fn, label='%s[%s%s]' % (fn, 'async' if t == ASYNC else 'inline',
                                                            ',pending' if c else ''),
                                    setup=setup, defs=d, model=dict({'fork': True}, **(model or {})),
                                    info=(c, t)))
    return es


def listof(st, g='L'):
    """the queue in which the running coroutine waits: (base, tag)"""
    x = st.g.get(g)
    return x[0] if x else None


# ---------------------------------------------------------------- C05
class Registered(Monitor):
    def __init__(self):
        self.pauses = 0

    def where(self, st):
        r = []
        if 'L' in st.g:
            r.append('in the queue %r' % (self.eng.tag(st.g['L'][0]),))
        if 'D' in st.g:
            r.append('among the deadlines')
        if 'E' in st.g:
            r.append('among the descriptor waiters')
        if 'S' in st.g and not st.eq(st.g['np'], st.g['nr']):
            r.append('with the cases of a select')
        return r

    def on_call(self, st, name, args, ins):
        R = self.eng.report
        m = self.eng.model
        if name == 'colist_push_back' and args[1] is SELF:
            if 'L' in st.g:
                R(st, 'double-registration', 'enters a queue while it is in another one', ins)
            root = self.eng.tag(args[0])
            if root and root[1] in ('resumers', 'pool', 'iolist'):
                R(st, 'registration', 'the running coroutine puts itself into %s' % (root,), ins)
        elif name in ('dlqueue_insert', 'evaat_insert'):
            k = 'D' if name[0] == 'd' else 'E'
            if args[1] is SELF:
                if k in st.g:
                    R(st, 'double-registration', 'is inserted twice (%s)' % name, ins)
            elif self.eng.roots(rest(args[1])) is None or True:
                R(st, 'registration', 'inserts something that is not the running coroutine (%s)' % name, ins)
        elif name in ('dlqueue_delete', 'evaat_delete'):
            k = 'D' if name[0] == 'd' else 'E'
            if args[1] is SELF and k in st.g:
                reg = st.g[k]
                if not st.eq(reg[0], args[0]):
                    R(st, 'stale-registration', 'is deleted from another tree than it was inserted into (%s)' % name,
                      ins)
                now = (m.get(st, SELF, 'coroutine', 'deadline'),) if k == 'D' else (
                    m.get(st, SELF, 'coroutine', 'evfd'), m.get(st, SELF, 'coroutine', 'evkind'))
                for a, b in zip(reg[1:], now):
                    if not st.eq(a, b):
                        R(st, 'stale-registration', 'the key changed between insertion and deletion (%s): the '
                          'deletion misses it' % name, ins)
        elif name in ('neco_free', 'free') and 'S' in st.g and not st.eq(st.g['np'], st.g['nr']):
            ra = self.eng.roots(rest(args[0]))
            if ra is not None and ra is self.eng.roots(rest(st.g['S'][0])):
                R(st, 'stale-registration', 'frees the cases of a select that are still queued', ins)

    def on_suspend(self, st, kind, args, ins):
        if kind == 'sco_pause':
            self.pauses += 1
            m = self.eng.model
            ok = 'L' in st.g or 'D' in st.g or 'E' in st.g or m.selfval(st, 'working') == 1
            if 'S' in st.g and st.val(sub(st.g['np'], st.g['nr'])) != 0:
                ok = True
            if m.selfval(st, 'suspended') == 1:
                ok = True
            if not ok and not self.eng.stack[0][0].startswith('neco_sleep') \
                    and not self.eng.stack[0][0].startswith('neco_chan_select'):
                self.eng.report(st, 'unwakeable', 'waits without being registered with anything that wakes it', ins)
        elif kind in ('sco_yield', 'coexit', 'sco_start') or kind.startswith('api:') or kind == 'callback':
            w = self.where(st)
            if w:
                self.eng.report(st, 'stale-registration', 'gives up control (%s) while still registered %s' % (
                    kind, ' and '.join(w)), ins)

    def finish(self, r):
        n = 0
        for st, ret in r.rets:
            n += 1
            w = self.where(st)
            if w:
                r.eng.report(st, 'stale-registration', 'returns (last error %s) while still registered %s' % (
                    lasterr(r, st), ' and '.join(w)))
        for st, ins in r.eng.exits:
            n += 1
            w = self.where(st)
            if w:
                r.eng.report(st, 'stale-registration', 'ends the coroutine while still registered %s' %
                             ' and '.join(w), ins)
        return n


def c05(ck):
    ck.rule('every API function, each way in which each pause can end: when the function returns or ends the '
            'coroutine, the coroutine is in no queue, not among deadlines or descriptor waiters, and every queued '
            'case of a select was withdrawn; the same before it gives up control in any other way; deletion uses the '
            'tree and key of the insertion; no double registration; a pause is registered with something that wakes it')
    es = variants(ck)
    for e, n in ck.run(es, lambda e: [Registered()], lambda r, m: (m[0].finish(r), m[0].pauses)):
        ck.count('ends of an operation', n[0])
        ck.count('pauses', n[1])
        if n[1]:
            ck.sample({'entry': e.label, 'ends': n[0], 'pauses': n[1]})
    ck.need('pauses', 200)
    ck.need('ends of an operation', 1500)


# ---------------------------------------------------------------- C06
STAT_OF = [('neco_sleep', 'sleepers'), ('neco_signal_wait', 'sigwaiters'), ('neco_chan_send', 'senders'),
           ('neco_gen_yield', 'senders'), ('neco_chan_recv', 'receivers'), ('neco_chan_select', 'receivers'),
           ('neco_gen_next', 'receivers'), ('neco_mutex_', 'locked'), ('neco_waitgroup_wait', 'waitgroupers'),
           ('neco_suspend', 'suspended')]


def stat_counters(ck):
    """{statistic: member of the runtime that it reports}"""
    def setup(r, st):
        st.assume(mk_eq(r.args[0]), False)

    def fin(r, mons):
        m = r.eng.model
        out = {}
        d = m.mod.fields.get('neco_stats')
        if not d:
            raise AnalysisBroken('anchor vanished: struct neco_stats')
        for st, ret in r.rets:
            if st.val(ret) != 0:
                continue
            cells = {}
            for (b, o), (v, sz) in st.mem.items():
                if b is RT and v.m:
                    cells[v] = r.eng.tag(add(b, const(o)))
            for o, (nm, sz) in d.items():
                c = st.mem.get((r.args[0], o))
                out.setdefault(nm, set()).add(cells.get(c[0]) if c is not None else None)
        return {k: list(v) for k, v in out.items()}
    (e, out), = ck.run([Entry('neco_getstats', setup=setup)], lambda e: [], fin)
    r = {}
    for s in ('coroutines', 'sleepers', 'evwaiters', 'sigwaiters', 'senders', 'receivers', 'locked', 'waitgroupers',
              'condwaiters', 'suspended'):
        v = out.get(s, [None])
        if len(v) != 1 or v[0] is None:
            ck.violate('statistics', 'the statistic %s does not report a counter of the runtime' % s, 'neco_getstats')
        else:
            r[s] = v[0][1]
    if len(set(r.values())) != len(r):
        ck.violate('statistics', 'two statistics report the same counter: %s' % r, 'neco_getstats')
    return r


class Counters(Monitor):
    def __init__(self, cnt):
        self.cnt = {v: k for k, v in cnt.items()}
        self.pauses = 0

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] == 'runtime' and tag[1] in self.cnt and rest(addr) is RT:
            k = 'n:' + self.cnt[tag[1]]
            d = None if old is None else st.val(sub(val, old))
            if d is None:
                self.eng.report(st, 'counter', 'the counter of %s is set to an unrelated value' % k[2:], ins)
                return
            v = st.g.get(k, 0) + d
            if v:
                st.g[k] = v
            else:
                st.g.pop(k, None)

    def deltas(self, st):
        return {k[2:]: v for k, v in st.g.items() if isinstance(k, str) and k.startswith('n:')}

    def on_suspend(self, st, kind, args, ins):
        d = self.deltas(st)
        fn = self.eng.stack[0][0]
        if kind != 'sco_pause':
            if fn in ('coentry', 'coexit', 'start'):
                return
            if d:
                self.eng.report(st, 'counter', 'other coroutines run (%s) while it counts as %s' % (kind, d), ins)
            return
        self.pauses += 1
        want = self.want(st, fn)
        if want is not None and d != want:
            self.eng.report(st, 'counter', 'waits and counts as %s instead of %s' % (d or 'nothing', want or 'nothing'),
                            ins)

    def want(self, st, fn):
        if self.eng.model.selfval(st, 'working') == 1:
            return {}
        if 'E' in st.g:
            return {'evwaiters': 1}
        for p, s in STAT_OF:
            if fn.startswith(p):
                return {s: 1}
        if fn.startswith('neco_cond_wait'):
            if 'L' in st.g:
                t = self.eng.tag(st.g['L'][0])
                if t and t[0] == 'neco_cond':
                    return {'condwaiters': 1}
                if t and t[0] == 'neco_mutex':
                    return {'locked': 1}
            return None
        if fn.startswith('neco_join') or fn.startswith('neco_cancel'):
            return {}
        if 'L' in st.g:
            t = self.eng.tag(st.g['L'][0])
            if t and t[0] == 'coroutine':
                return {}
        return None

    def finish(self, r):
        n = 0
        for st, x in [(s, None) for s, _ in r.rets] + r.eng.exits:
            n += 1
            d = self.deltas(st)
            if d:
                r.eng.report(st, 'counter', 'ends (last error %s) with the statistics changed by %s' % (
                    lasterr(r, st), d))
        return n


class Started(Monitor):
    """the registry of all coroutines"""

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] == 'runtime' and tag[1] == self.member:
            d = None if old is None else st.val(sub(val, old))
            st.g['all'] = st.g.get('all', 0) + d if d is not None else 99

    def on_call(self, st, name, args, ins):
        if name in ('all_insert', 'all_delete') and args[1] is SELF:
            k = 'ins' if name == 'all_insert' else 'del'
            st.g[k] = min(st.g.get(k, 0) + 1, 2)


def c06(ck):
    ck.rule('the counters are those that the statistics report (taken from neco_getstats); at every pause exactly the '
            'counter of the operation is one higher than before the call, at every other switch, return and exit none '
            'is; the registry count goes up once per insertion of a starting coroutine and down once per deletion of '
            'an ending one')
    cnt = stat_counters(ck)
    waiting = {k: v for k, v in cnt.items() if k != 'coroutines'}
    es = variants(ck)
    for e, n in ck.run(es, lambda e: [Counters(waiting)], lambda r, m: (m[0].finish(r), m[0].pauses)):
        ck.count('ends of an operation', n[0])
        ck.count('pauses', n[1])
        if n[1]:
            ck.sample({'entry': e.label, 'ends': n[0], 'pauses': n[1]})
    ck.need('pauses', 200)
    # the registry
    mem = cnt.get('coroutines')

    class SM(Started):
        member = mem

        def on_call(self, st, name, args, ins):
            Started.on_call(self, st, name, args, ins)
            if name == '<indirect>' and self.eng.stack[0][0] == 'coentry' and (
                    st.g.get('all') != 1 or st.g.get('ins') != 1):
                self.eng.report(st, 'registry', 'the function of a new coroutine runs while it is counted %s times '
                                'and registered %s times' % (st.g.get('all', 0), st.g.get('ins', 0)), ins)

    def fin(r, mons):
        want = (1, 1, 0) if r.entry.func == 'coentry' else (-1, 0, 1)
        for st, x in [(s, None) for s, _ in r.rets] + r.eng.exits:
            got = (st.g.get('all', 0), st.g.get('ins', 0), st.g.get('del', 0))
            if got != want:
                r.eng.report(st, 'registry', 'ends with count %+d, %d insertions and %d deletions instead of %s' % (
                    got + (want,)))
        return len(r.rets) + len(r.eng.exits)

    def su(r, st):
        r.args[0] = SELF

    def one(r, st):
        r.args[0] = const(1)
    for e, n in ck.run([Entry('coentry', setup=su), Entry('coexit', setup=one), ], lambda e: [SM()], fin):
        ck.count('starts and ends', n)
    ck.need('starts and ends', 2)


# ---------------------------------------------------------------- C07
UPFRONT = ('neco_read_dl', 'neco_write_dl', 'neco_accept_dl', 'neco_connect_dl', 'neco_getaddrinfo_dl',
           'neco_sleep_dl', 'neco_mutex_lock_dl', 'neco_mutex_rdlock_dl', 'neco_join_dl', 'neco_cancel_dl',
           'neco_waitgroup_wait_dl', 'neco_rand_dl')


class Deadline(Monitor):
    def __init__(self):
        self.pauses = 0
        self.rets = 0

    def start(self, r, st):
        self.r = r
        i = deadline_param(r.entry.func)
        self.sleep = r.entry.func == 'neco_sleep'
        self.d = r.args[i] if i is not None else const(I64MAX)

    def wants(self, st, d):
        """is d the deadline of the operation?"""
        if self.sleep:
            return not d.m or (r0 := self.r.args[0]) is None or bool(d.deps & r0.deps)
        return st.eq(d, self.d)

    def relock(self, st):
        if 'L' in st.g and self.r.entry.func.startswith('neco_cond_wait'):
            t = self.eng.tag(st.g['L'][0])
            return bool(t) and t[0] == 'neco_mutex'
        return False

    def inner(self):
        """composite operations bound their steps themselves"""
        return self.r.entry.func in ('neco_pipe',)

    def on_suspend(self, st, kind, args, ins):
        R = self.eng.report
        if kind.startswith('api:'):
            d = args[-1]
            if not self.wants(st, d):
                R(st, 'deadline-lost', '%s is called with another deadline than that of the operation' % kind[4:], ins)
            return
        if kind != 'sco_pause' and 'late' in st.g:
            st.g['latesw'] = 1
        if kind != 'sco_pause' or self.inner():
            return
        if self.eng.model.selfval(st, 'working') == 1:
            return
        self.pauses += 1
        if self.relock(st):
            return
        if 'late' in st.g:
            R(st, 'waits-on', 'waits again although its deadline has passed', ins)
        if 'D' in st.g:
            if not self.wants(st, st.g['D'][1]):
                R(st, 'deadline-lost', 'waits with another deadline than that of the operation', ins)
            if self.eng.tag(st.g['D'][0]) != ('runtime', 'deadlines'):
                R(st, 'deadline-lost', 'is inserted into %s' % (self.eng.tag(st.g['D'][0]),), ins)
        elif self.sleep:
            pass
        elif st.val(self.d) != I64MAX:
            R(st, 'deadline-lost', 'waits without its deadline being watched', ins)

    def on_ret(self, st, name, args, ret, ins):
        # the operation succeeded, or failed for good, after the deadline
        if 'late' in st.g and name in ('read', 'write', 'accept', 'connect', 'getaddrinfo'):
            st.g['tried'] = 1

    def finish(self, r):
        C = codes()
        R = r.eng.report
        fn = r.entry.func
        T_ = C['NECO_TIMEDOUT']
        if self.inner():
            return 0
        for st, ret in r.rets:
            self.rets += 1
            L = lasterr(r, st)
            if L is None:
                continue
            late = st.g.get('late')
            if late and fn not in SUMMARIES:
                why = st.g['latewhy']
                ok = {T_} | ({C['NECO_CANCELED']} if st.g.get('latesw') else set()) | (
                    {C['NECO_NOTFOUND']} if fn.startswith('neco_cancel') else set())
                if why == 'd' and fn not in ('neco_sleep', 'neco_sleep_dl') and not st.g.get('tried'):
                    if L == 0 and fn.startswith('neco_write') and not st.le(add(ret, ONE), r.args[2]):
                        continue
                    if L not in ok and not (fn.startswith('neco_write') and L == C['NECO_PARTIALWRITE']):
                        R(st, 'no-timeout', 'its deadline passed while it waited, and nothing else happened, but the '
                          'last error is %d' % L)
                if why == 'd' and fn.startswith('neco_sleep') and L != 0:
                    R(st, 'sleep', 'a sleep that ended in time reports %d' % L)
            if L != T_:
                continue
            if late and (self.wants(st, late[0])):
                continue
            e = st.mem.get((ERRNO, 0))
            if e is not None and e[0].m:
                continue      # reported by the system
            if fn in SUMMARIES:
                continue
            now = st.g.get('now')
            if now is not None:
                if self.sleep:
                    continue
                elif st.le(add(self.d, ONE), now):
                    continue
            R(st, 'early-timeout', 'reports a timeout on a path on which its deadline is not known to have passed%s' %
              ('' if self.d.m else ' (it has none)'))
        return self.rets


class Nothing(Monitor):
    """no effect before the timeout"""

    def on_suspend(self, st, kind, args, ins):
        self.eng.report(st, 'late-timeout', 'switches (%s) although its deadline has passed before the call' % kind,
                        ins)
        st.dead = 'effect'

    def on_call(self, st, name, args, ins):
        if name in SYSCALLS - {'clock_gettime'} or name in ('getaddrinfo', 'pthread_create', 'dlopen') and \
                not self.eng.stack[0][0].startswith('neco_rand'):
            self.eng.report(st, 'late-timeout', 'calls %s although its deadline has passed before the call' % name,
                            ins)
        if name in ('colist_push_back', 'dlqueue_insert', 'evaat_insert', 'sco_resume', 'neco_malloc'):
            self.eng.report(st, 'late-timeout', 'reaches %s although its deadline has passed before the call' % name,
                            ins)


class Expiry(Monitor):
    """the scheduler wakes exactly those whose deadline passed"""

    def __init__(self):
        self.n = 0

    def expired(self, st, co):
        m = self.eng.model
        now = st.g.get('now')
        return now is not None and st.le(add(m.get(st, co, 'coroutine', 'deadline'), ONE), now)

    def on_store(self, st, tag, addr, val, ins, old):
        if tag == ('coroutine', 'deadlined') and st.val(val) != 0:
            co = sub(addr, const(self.eng.mod.off('coroutine', 'deadlined')))
            self.n += 1
            if not self.expired(st, co):
                self.eng.report(st, 'expiry', 'a coroutine is marked as late without its deadline having passed', ins)
            st.g['late!'] = co

    def on_call(self, st, name, args, ins):
        if name == 'sco_resume' and 'late!' in st.g and st.val(sub(args[0], of(atom('idof', st.g['late!'], lo=1)))) == 0:
            st.g.pop('late!')
        if name in ('dlqueue_next', 'dlqueue_delete') and 'late!' in st.g:
            self.eng.report(st, 'expiry', 'a coroutine that is marked as late is not resumed', ins)
        if name == 'dlqueue_next' and not self.expired(st, args[1]):
            self.eng.report(st, 'expiry', 'the search for expired deadlines goes on past one that has not passed', ins)

    def on_ret(self, st, name, args, ret, ins):
        if name in ('dlqueue_first', 'dlqueue_next'):
            if self.eng.tag(args[0]) != ('runtime', 'deadlines'):
                self.eng.report(st, 'expiry', 'looks into another tree than that of the deadlines', ins)
            st.g['cand'] = ret

    def finish(self, r):
        for st, ret in r.rets:
            c = st.g.get('cand')
            if 'late!' in st.g:
                r.eng.report(st, 'expiry', 'a coroutine that is marked as late is not resumed')
            if c is None or st.val(c) == 0:
                if c is None:
                    r.eng.report(st, 'expiry', 'the scheduler step does not look for expired deadlines')
                continue
            m = r.eng.model
            now = st.g.get('now')
            if now is None or not st.le(now, m.get(st, c, 'coroutine', 'deadline')):
                r.eng.report(st, 'expiry', 'the search for expired deadlines stops at one that may have passed')
        if not self.n:
            r.eng.report(None, 'expiry', 'no coroutine is ever marked as late')
        return self.n


def c07(ck):
    C = codes()
    ck.rule('at every pause of every operation with a deadline, the coroutine is in the deadline tree with exactly that '
            'deadline; after a pause that the deadline ended, no path waits again and all report the timeout (or a '
            'short write); every reported timeout comes from a pause that the deadline ended, from a comparison of the '
            'deadline with the clock, or from the system; an operation without a deadline never reports one')
    es = variants(ck, model={'tracknow': True}, types=(INLINE,))
    for e, n in ck.run(es, lambda e: [Deadline()], lambda r, m: (m[0].finish(r), m[0].pauses)):
        ck.count('returns', n[0])
        ck.count('pauses', n[1])
    ck.need('pauses', 100)
    ck.rule('with a deadline before the present, the operations that check it first time out without waiting, calling '
            'the system or registering anything')
    es = []
    for fn in UPFRONT:
        def setup(r, st):
            m = r.eng.model
            m.setself(st, 'canceled', ZERO)
            r.args[deadline_param(r.entry.func)] = of(atom('p', 'past', lo=-(1 << 63), hi=-1))
            if r.entry.func.startswith('neco_rand'):
                r.args[2] = ONE
            for i, t in enumerate(split_params(api()[r.entry.func])):
                for s in ('neco_mutex', 'neco_waitgroup'):
                    if t.startswith(s + ' *'):
                        same_rt(r, st, r.args[i], s)
                        st.assume(mk_eq(r.args[i]), False)
        es.append(Entry(fn, label=fn + '(past deadline)', setup=setup))

    def fin(r, mons):
        ok = {C['NECO_TIMEDOUT']}
        if r.entry.func == 'neco_join_dl':
            ok |= {0}
        if r.entry.func == 'neco_cancel_dl':
            ok |= {C['NECO_NOTFOUND']}
        seen = set()
        for st, ret in r.rets:
            L = lasterr(r, st)
            seen.add(L)
            if L not in ok:
                r.eng.report(st, 'late-timeout', 'the deadline has passed before the call, but the last error is %s' % L)
        if C['NECO_TIMEDOUT'] not in seen:
            r.eng.report(None, 'late-timeout', 'never times out although its deadline has passed before the call')
        return len(r.rets)
    for e, n in ck.run(es, lambda e: [Nothing()], fin):
        ck.count('calls with a past deadline', n)
    ck.rule('the scheduler marks and resumes exactly the coroutines whose deadline is before the clock, in order from '
            'the earliest one to the first that is not')
    for e, n in ck.run([Entry('rt_sched_paused_step', model={'tracknow': True, 'sched': True, 'retlimit': 2000})], lambda e: [Expiry()],
                       lambda r, m: m[0].finish(r)):
        ck.count('expiry', n)
    ck.need('expiry', 1)
    ck.need('calls with a past deadline', 12)


# ---------------------------------------------------------------- C08
class Cancel(Monitor):
    def __init__(self):
        self.eats = 0

    def on_store(self, st, tag, addr, val, ins, old):
        if tag != ('coroutine', 'canceled'):
            return
        m = self.eng.model
        co = sub(addr, const(self.eng.mod.off('coroutine', 'canceled')))
        v = st.val(val)
        if co is SELF:
            o = None if old is None else st.val(old)
            if v is None or o is None:
                self.eng.report(st, 'request-lost', 'the pending request of the running coroutine is overwritten without '
                                'having been looked at', ins)
                return
            self.eats += o == 1 and v == 0
            st.g['eat'] = max(-2, min(3, st.g.get('eat', 0) + o - v))
        else:
            if v != 1:
                if self.eng.stack[0][0] != 'start':
                    self.eng.report(st, 'request-lost', 'the pending request of another coroutine is taken back', ins)
                return
            cs = m.get(st, co, 'coroutine', 'cancelstate')
            if st.val(cs) != ENABLE:
                self.eng.report(st, 'request-refused', 'a request is made to a coroutine that may not allow it', ins)
            st.g['req'] = co

    def on_call(self, st, name, args, ins):
        if name == 'sco_resume' and 'req' in st.g:
            co = st.g['req']
            i = self.eng.model.get(st, co, 'coroutine', 'id')
            if st.eq(args[0], i) or args[0] is self.r.args[0]:
                st.g['reqdone'] = 1
                st.g.pop('req')

    def start(self, r, st):
        self.r = r

    def open_request(self, st):
        """a request was made and its target not resumed, unless it works in the background"""
        if 'req' not in st.g:
            return False
        w = self.eng.model.get(st, st.g['req'], 'coroutine', 'working') \
            if 'working' in {v[0] for v in self.eng.mod.fields['coroutine'].values()} else ZERO
        if st.val(w) == 1:
            st.g.pop('req')
            st.g['reqdone'] = 1
            return False
        return True

    def on_suspend(self, st, kind, args, ins):
        m = self.eng.model
        if self.open_request(st):
            self.eng.report(st, 'request-unnoticed', 'other coroutines run before the target of the request is woken',
                            ins)
        if kind == 'sco_pause' and m.selfval(st, 'working') != 1 and m.selfval(st, 'canceled') != 0:
            self.eng.report(st, 'waits-canceled', 'waits while a cancelation is pending', ins)

    def finish(self, r):
        C = codes()
        R = r.eng.report
        c, t = r.entry.info
        n = 0
        fn = r.entry.func
        composite = fn in SUMMARIES or fn in ('neco_pipe', 'neco_getaddrinfo', 'neco_getaddrinfo_dl')
        for st, ret in r.rets:
            n += 1
            L = lasterr(r, st)
            eat = st.g.get('eat', 0)
            pend = r.eng.model.selfval(st, 'canceled')
            if self.open_request(st):
                R(st, 'request-unnoticed', 'returns without having woken the target of the request')
            if L is None:
                continue
            need = 1 if L == C['NECO_CANCELED'] else 0
            e = st.mem.get((ERRNO, 0))
            if need and eat == 0 and e is not None and e[0].m:
                continue        # ECANCELED from the system
            if fn in SUMMARIES:
                continue
            if eat < need:
                R(st, 'request-invented', 'reports a cancelation that it did not consume')
            elif eat > need and pend != 1:
                R(st, 'request-lost', 'consumes a cancelation and reports %d' % L)
            if need and t == ASYNC and not composite:
                R(st, 'goes-on', 'is canceled and returns although the coroutine asked to end at once')
            if fn.startswith('neco_cancel'):
                if L == 0 and not st.g.get('reqdone'):
                    R(st, 'request-lost', 'reports success without having made the request')
                if L != 0 and st.g.get('reqdone'):
                    R(st, 'request-invented', 'reports %d after having made the request' % L)
        for st, ins in r.eng.exits:
            n += 1
            eat = st.g.get('eat', 0)
            pend = r.eng.model.selfval(st, 'canceled')
            if fn in SUMMARIES:
                continue
            e = st.mem.get((ERRNO, 0))
            if eat == 0 and e is not None and e[0].m and base(fn) in IO:
                continue        # ECANCELED from the system
            if t != ASYNC:
                R(st, 'ends', 'ends the coroutine although it did not ask to be canceled at once', ins)
            elif eat < 1 and pend == 0:
                R(st, 'ends', 'ends the coroutine without a cancelation', ins)
        return n


class CancelState(Monitor):
    pass


def c08(ck):
    C = codes()
    ck.rule('for every API function, with and without a pending request, both kinds of cancelation, requests arriving at '
            'every switch: the request is consumed exactly when the function reports canceled (or ends the coroutine, '
            'only when that was asked for), a request consumed on the way is put back, and no pause is reached while a '
            'request is pending (background work excepted)')
    ck.rule('neco_cancel sets the request only in a coroutine whose state allows it, then wakes it before anything else '
            'runs, and reports success exactly then; re-enabling cancelation leaves no waiter in the queue')
    es = variants(ck)
    for e, n in ck.run(es, lambda e: [Cancel()], lambda r, m: (m[0].finish(r), m[0].eats)):
        ck.count('ends of an operation', n[0])
        ck.count('consumptions', n[1])
    ck.need('consumptions', 60)
    ck.need('ends of an operation', 1500)

    def su(r, st):
        r.args[0] = const(ENABLE)

    def fin(r, mons):
        m = r.eng.model
        for st, ret in r.rets:
            if st.val(ret) != 0:
                continue
            lst = add(SELF, const(r.mod.off('coroutine', 'cancellist')))
            v = m.list_first(st, lst, None)
            if not st.eq(v, add(lst, const(m.o_tail))):
                r.eng.report(st, 'request-unnoticed', 'cancelation is enabled again while others still wait to cancel')
        return len(r.rets)
    for e, n in ck.run([Entry('neco_setcancelstate', setup=su)], lambda e: [], fin):
        ck.count('re-enabling', n)


# ---------------------------------------------------------------- C09
class Granted(Monitor):
    def __init__(self):
        self.n = 0

    def on_store(self, st, tag, addr, val, ins, old):
        if tag == ('coroutine', 'canceled') and addr is add(SELF, const(self.eng.mod.off('coroutine', 'canceled'))):
            o = None if old is None else st.val(old)
            v = st.val(val)
            if o == 1 and v == 0:
                st.g['ate'] = 1
            elif v == 1:
                st.g.pop('ate', None)

    def finish(self, r):
        C = codes()
        fn = r.entry.func
        cond = fn.startswith('neco_cond_wait')
        if fn.startswith('neco_cancel') or fn in SUMMARIES or fn == 'neco_pipe':
            return 0
        ok = {0}
        if fn.startswith('neco_chan_recv') or fn.startswith('neco_gen_next'):
            ok.add(C['NECO_CLOSED'])
        for st, ret in r.rets:
            why = st.g.get('w1' if cond else 'why', '')
            if 'g' not in why:
                continue
            self.n += 1
            L = lasterr(r, st)
            if L not in ok:
                r.eng.report(st, 'lost', 'its wait was completed (%s), but it reports %s: what it was handed is lost' % (
                    why, L))
            if 'c' in why and not cond and (r.eng.model.selfval(st, 'canceled') != 1 or st.g.get('ate')):
                r.eng.report(st, 'request-lost', 'completes and drops the pending cancelation')
        for st, ins in r.eng.exits:
            why = st.g.get('w1' if cond else 'why', '')
            if 'g' in why:
                r.eng.report(st, 'lost', 'its wait was completed (%s), but the coroutine ends: what it was handed is '
                             'lost' % why, ins)
        return self.n


def c09(ck):
    ck.rule('every operation that waits in a queue, each pause that ended because another coroutine completed the '
            'operation, combined with a passed deadline and a cancelation: the operation reports success (closed, for a '
            'receive), the cancelation stays pending, and the coroutine goes on')
    ck.rule('every coroutine that is taken from a queue or whose wait is ended is marked as completed before it is '
            'scheduled (shared with C11)')
    es = variants(ck)
    for e, n in ck.run(es, lambda e: [Granted()], lambda r, m: m[0].finish(r)):
        ck.count('completed waits', n)
        if n:
            ck.sample({'entry': e.label, 'completed waits': n})
    ck.need('completed waits', 100)
    wakers(ck, 'lost')


# ---------------------------------------------------------------- C11
QUEUES = {('neco_chan', 'queue'), ('neco_mutex', 'queue'), ('neco_waitgroup', 'queue'), ('neco_cond', 'queue'),
          ('coroutine', 'cancellist'), ('coroutine', 'joinlist')}


class Wake(Monitor):
    """every dequeued waiter is scheduled once, every scheduled one was due"""

    def __init__(self, only=None):
        self.pops = 0
        self.wakes = 0
        self.only = only

    def R(self, st, rule, msg, ins=None):
        if self.only is None or rule in self.only:
            self.eng.report(st, rule, msg, ins)

    def lst(self, addr):
        t = self.eng.tag(addr)
        return (t[0], t[1].split('.')[0]) if t else None

    def exempt(self, st, v):
        """the waiter is the case of a select that another case has completed"""
        m = self.eng.mod
        p = st.mem.get((rest(v), v.c + m.off('coselectcase', 'ret_idx')))
        p = p[0] if p is not None else self.eng.model.get(st, v, 'coselectcase', 'ret_idx') \
            if 'struct.coselectcase' in m.types else None
        if p is None:
            return False
        p = of(atom('fld', rest(v), m.off('coselectcase', 'ret_idx'), 'ret_idx'))
        c = st.mem.get((p, 0))
        return c is not None and st.ne(c[0], const(-1))

    def outstanding(self, st, ins, what):
        v = st.g.get('ob')
        if v is None:
            return
        if not self.exempt(st, v):
            self.R(st, 'not-woken', 'a waiter was taken from a queue and is not scheduled before %s' % what, ins)
        st.g.pop('ob')
        st.g.pop('obq', None)

    def on_branch(self, st, cond, truth, ins):
        v = st.g.get('ob')
        if v is not None and self.eng.model.is_case(st, rest(v)) and self.exempt(st, v):
            st.g.pop('ob')
            st.g.pop('obq', None)

    def target(self, st, v):
        """the coroutines that a dequeued element stands for"""
        m = self.eng.mod
        r = [v]
        if 'coselectcase' in m.fields:
            r.append(self.eng.model.get(st, v, 'coselectcase', 'co') if self.sel(st, v) else v)
        return r

    def sel(self, st, v):
        return True

    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and st.val(ret) != 0:
            q = self.lst(args[0])
            if q in QUEUES or q == ('runtime', 'resumers') or q == ('runtime', 'iolist'):
                self.outstanding(st, ins, 'the next one is')
                self.pops += 1
                st.g['ob'] = ret
                st.g['obq'] = q
            elif q is None:
                self.outstanding(st, ins, 'the next one is')
                st.g['ob'] = ret
                st.g['obq'] = ('?', '?')

    def co_of(self, st, id):
        """the coroutine that has this id, if the analysis knows"""
        if len(id.m) == 1 and id.c == 0 and id.m[0][1] == 1 and id.m[0][0].kind == 'idof':
            return id.m[0][0].a[0]
        return None

    def selco(self, v):
        m = self.eng.mod
        return of(atom('fld', rest(v), m.off('coselectcase', 'co'), 'co')) if 'coselectcase' in m.fields else None

    def is_ob(self, st, co):
        v = st.g.get('ob')
        if v is None or co is None:
            return False
        if st.eq(co, v):
            return True
        s = self.selco(v)
        return s is not None and st.eq(co, s)

    def granted(self, st, co):
        m = self.eng.model
        return st.val(m.get(st, co, 'coroutine', 'granted')) == 1

    def on_call(self, st, name, args, ins):
        m = self.eng.model
        if name == 'colist_push_back' and self.lst(args[0]) == ('runtime', 'resumers'):
            co = args[1]
            self.wakes += 1
            if self.is_ob(st, co):
                if not self.granted(st, co):
                    self.R(st, 'not-completed', 'a waiter is scheduled without being marked as completed', ins)
                st.g.pop('ob')
                st.g.pop('obq', None)
            else:
                self.R(st, 'woken-early', 'a coroutine is scheduled that was not taken from a queue', ins)
        elif name == 'sco_resume':
            id = args[0]
            if st.val(id) == 0:
                return
            self.wakes += 1
            co = self.co_of(st, id)
            if self.is_ob(st, co):
                if st.g['obq'] in QUEUES and not self.granted(st, co):
                    self.R(st, 'not-completed', 'a waiter is resumed without being marked as completed', ins)
                st.g.pop('ob')
                st.g.pop('obq', None)
                return
            why = self.due(st, id, co)
            if not why:
                self.R(st, 'woken-early', 'a coroutine is resumed that is not known to be due', ins)
        elif name in ('dlqueue_next', 'evaat_next', 'colist_push_back', 'sco_pause'):
            pass
        if name == 'remove_from_list' and args[0] is not SELF:
            st.g['removed'] = args[0]

    def due(self, st, id, co):
        m = self.eng.model
        tree = (st.g['treek'], st.g['tree']) if 'tree' in st.g and 'treek' in st.g else None
        fn = self.eng.stack[0][0]
        if co is not None:
            if st.val(m.get(st, co, 'coroutine', 'deadlined')) == 1:
                return 'deadline'
            if tree and tree[0] == 'evaat' and st.eq(tree[1], co):
                return 'event'
            if st.g.get('removed') is not None and st.eq(st.g['removed'], co):
                if self.granted(st, co):
                    return 'signal'
            if self.granted(st, co) and st.val(m.get(st, co, 'coroutine', 'suspended')) == 1:
                return 'resumed'
            if st.val(m.get(st, co, 'coroutine', 'canceled')) == 1:
                return 'canceled'
        if tree and tree[0] == 'all' and fn.startswith('neco_cancel'):
            if st.val(m.get(st, tree[1], 'coroutine', 'canceled')) == 1:
                return 'canceled'
        return None

    def start(self, r, st):
        self.r = r

    def on_suspend(self, st, kind, args, ins):
        if kind in ('sco_yield', 'sco_pause', 'coexit'):
            self.outstanding(st, ins, 'other coroutines run')

    def finish(self, r):
        for st, x in [(s, None) for s, _ in r.rets] + r.eng.exits:
            self.outstanding(st, x, 'the operation ends')
        return (self.pops, self.wakes)


class Wake2(Wake):
    def on_ret(self, st, name, args, ret, ins):
        p, _, op = name.partition('_')
        if p in ('dlqueue', 'evaat', 'all') and op in ('first', 'next', 'iter', 'search'):
            st.g['treek'] = p
            st.g['tree'] = ret
        Wake.on_ret(self, st, name, args, ret, ins)


def waker_entries(ck):
    es = []
    for d in [()] + (CONFIGS if ck.tier == 'thorough' else []):
        for fn in ops():
            if waits(fn) and fn not in SUMMARIES and fn not in ('neco_pipe',):
                es.append(Entry(fn, defs=d))
        es.append(Entry('coexit', defs=d, setup=lambda r, st: r.args.__setitem__(0, const(1))))
        es.append(Entry('rt_sched_paused_step', defs=d, model={'sched': True}))
    return es


def wakers(ck, mode):
    only = {'not-completed'} if mode == 'lost' else None
    for e, n in ck.run(waker_entries(ck), lambda e: [Wake2(only)], lambda r, m: m[0].finish(r)):
        ck.count('waiters taken from a queue', n[0])
        ck.count('wake-ups', n[1])
    ck.need('waiters taken from a queue', 15)
    ck.need('wake-ups', 15)


def c11(ck):
    ck.rule('every waiter that is taken from the front of a queue is, on every path, marked as completed and then '
            'scheduled exactly once before other coroutines run, the next one is taken or the operation ends (the case '
            'of a select that another case has completed is skipped); every coroutine that is scheduled otherwise has a '
            'passed deadline, a matching event or signal, a pending cancelation, or is suspended and being resumed')
    wakers(ck, 'all')


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C11': c11}
