"""C14, C19, C20: references, the end and the begin of coroutines."""
from common import *
from model import SUSPEND, LASTERR
from checks_sync import configs, put, valid, queue_state, is_empty

ASYNC, INLINE, ENABLE, DISABLE = 1, 2, 3, 4
POOLB = 8


def rt_field(r, st, nm):
    return r.eng.model.get(st, RT, 'runtime', nm)


def pool_state(r, st):
    """the pool of channels as every operation leaves it"""
    m = r.eng.model
    for nm in ('zchanpoollen', 'zchanpoolcap'):
        T.restrict(st.facts, m.get(st, RT, 'runtime', nm), 0, 1 << 20)
    T.restrict(st.facts, sub(rt_field(r, st, 'zchanpoollen'), rt_field(r, st, 'zchanpoolcap')), hi=0)
    st.g['plen'] = rt_field(r, st, 'zchanpoollen')
    st.g['pbytes'] = scale(rt_field(r, st, 'zchanpoolcap'), POOLB)
    st.g['parr'] = m.get(st, RT, 'runtime', 'zchanpool')


class Refs(Monitor):
    """one channel: its count, and where it goes"""

    def start(self, r, st):
        self.r = r
        self.op = r.entry.info[0]
        self.ch = r.args[0]
        valid(r, st, self.ch, 'neco_chan')
        self.R = r.eng.fresh(st, ('in', 'rc'), lo=0, hi=(1 << 31) - 2, what='references')
        put(r, st, self.ch, 'neco_chan', 'rc', self.R)
        ms = r.eng.model.get(st, self.ch, 'neco_chan', 'msgsize')
        T.restrict(st.facts, ms, *((0, 0) if r.entry.info[1] == 0 else (1, (1 << 31) - 1)))
        pool_state(r, st)
        st.g['gone'] = ()
        self.n = 0

    def rep(self, st, m, ins=None):
        self.eng.report(st, 'references', m, ins)

    def gone(self, st, what, ins):
        self.n += 1
        if st.g['gone']:
            self.rep(st, 'the channel is given away twice', ins)
        if not st.le(self.R, ZERO):
            self.rep(st, 'the channel is destroyed although references remain', ins)
        st.g['gone'] = st.g['gone'] + (what,)

    def on_call(self, st, name, args, ins):
        if name in ('neco_free', 'free') and args and st.eq(args[0], self.ch):
            self.gone(st, 'freed', ins)

    def on_ret(self, st, name, args, ret, ins):
        if name in ('neco_realloc', 'realloc') and st.val(ret) != 0:
            if st.eq(args[0], st.g['parr']):
                st.g['parr'] = ret
                st.g['pbytes'] = args[1]

    def touch(self, st, addr, ins):
        if 'gone' in st.g and st.g['gone'] and rest(addr) is self.ch:
            self.rep(st, 'the channel is used after it was destroyed', ins)

    def on_load(self, st, tag, addr, val, ins):
        self.touch(st, addr, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        self.touch(st, addr, ins)
        if val is self.ch and not is_local(self.eng, st, addr) or val is self.ch and \
                self.eng.roots(rest(addr)) in st.g['parr'].deps:
            d = sub(addr, st.g['parr'])
            if not st.eq(d, scale(st.g['plen'], POOLB)):
                self.rep(st, 'the channel is stored at another place than the end of the pool', ins)
            elif not st.le(add(d, const(POOLB)), st.g['pbytes']):
                self.rep(st, 'the channel is stored beyond the end of the pool', ins)
            self.gone(st, 'pooled', ins)

    def finish(self, r):
        m = r.eng.model
        for st, ret in r.rets:
            v = st.val(ret)
            rc = m.get(st, self.ch, 'neco_chan', 'rc')
            g = st.g
            if v != 0:
                self.rep(st, 'a valid channel is refused')
                continue
            if self.op == 'retain':
                if g['gone'] or not st.eq(rc, add(self.R, ONE)):
                    self.rep(st, 'retaining does not add one reference')
                continue
            last = st.le(self.R, ZERO)
            if not last and not st.le(ONE, self.R):
                last = None
            if last is None or (not last and not st.eq(rc, sub(self.R, ONE))):
                self.rep(st, 'releasing does not take away one reference')
            if last and not g['gone']:
                self.rep(st, 'the channel is not destroyed although its last reference is released')
            ln, cp = (m.get(st, RT, 'runtime', x) for x in ('zchanpoollen', 'zchanpoolcap'))
            if not st.eq(ln, add(g['plen'], ONE) if 'pooled' in g['gone'] else g['plen']):
                self.rep(st, 'the number of channels in the pool is wrong')
            arr = m.get(st, RT, 'runtime', 'zchanpool')
            if not st.eq(arr, g['parr']):
                self.rep(st, 'the pool is not the memory allocated for it')
            elif not st.le(scale(cp, POOLB), g['pbytes']) or not st.le(ln, cp):
                self.rep(st, 'the capacity of the pool is more than its memory')
        return len(r.rets), self.n


class Make(Monitor):
    """a new channel: enough memory, and as good as new"""

    def start(self, r, st):
        self.r = r
        if 'gen' not in r.entry.func:
            T.restrict(st.facts, r.args[1], 0, (1 << 64) - 1)
        pool_state(r, st)
        st.g['new'] = ZERO
        st.g['size'] = ZERO
        st.g['from'] = None

    def on_ret(self, st, name, args, ret, ins):
        if name in ('neco_malloc', 'malloc') and st.val(ret) != 0:
            st.g['new'], st.g['size'], st.g['from'] = ret, args[0], 'heap'

    def on_load(self, st, tag, addr, val, ins):
        d = sub(addr, st.g['parr'])
        if st.g['parr'].deps & addr.deps and st.eq(d, scale(sub(st.g['plen'], ONE), POOLB)):
            st.g['new'], st.g['from'] = val, 'pool'
            if not st.le(ONE, st.g['plen']):
                self.eng.report(st, 'references', 'a channel is taken from an empty pool', ins)
        elif st.g['parr'].deps & addr.deps and ins is not None and val.m and addr.deps != RT.deps:
            self.eng.report(st, 'references', 'a channel is taken from another place than the end of the pool', ins)

    def finish(self, r):
        m = r.eng.model
        off = r.mod.off
        n = dict(heap=0, pool=0)
        for st, ret in r.rets:
            if st.val(ret) != 0:
                continue

            def rep(x):
                r.eng.report(st, 'references', x)
            ch = st.g['new']
            c = st.mem.get((r.args[0], 0))
            if c is None or not ch.m or not st.eq(c[0], ch):
                rep('the channel made is not the one returned')
                continue
            n[st.g['from']] += 1
            size = sub(st.g['size'], const(off('neco_chan', 'data')))
            prod = self.product(st, r.args[1], add(r.args[2], ONE))
            if st.g['from'] == 'heap':
                if not (st.le(prod, size) or self.fits(st, size, r.args[1], r.args[2])):
                    rep('the memory of the channel is too small for its messages')
            elif st.val(r.args[1]) != 0 and not self.none(st, r.args[1], add(r.args[2], ONE)):
                rep('a pooled channel, which has no room for messages, is used for one with messages')
            ln = m.get(st, RT, 'runtime', 'zchanpoollen')
            if not st.eq(ln, sub(st.g['plen'], ONE) if st.g['from'] == 'pool' else st.g['plen']):
                rep('the number of channels in the pool is wrong')
            want = {'rtid': m.get(st, RT, 'runtime', 'id'), 'msgsize': r.args[1], 'bufcap': r.args[2]}
            for o, (nm, sz) in r.mod.fields['neco_chan'].items():
                if nm in ('queue', 'data'):
                    continue
                cell = st.mem.get((rest(ch), ch.c + o))
                v = cell[0] if cell is not None else ZERO if r.eng.in_zero(st, rest(ch), ch.c + o, sz) is not None \
                    else None
                if v is None or not st.eq(v, want.get(nm, ZERO)):
                    rep('a new channel begins with another %s than it should' % nm)
            if is_empty(m, st, add(ch, const(off('neco_chan', 'queue')))) is not True:
                rep('a new channel begins with somebody in its queue')
        return n

    def product(self, st, a, b):
        va, vb = st.val(a), st.val(b)
        if va is not None:
            return scale(b, va)
        if vb is not None:
            return scale(a, vb)
        return of(atom('mul', a, b))

    def none(self, st, a, b):
        """is a * b known to be zero?"""
        for K, f in st.facts.items():
            if len(K.m) == 1 and K.m[0][0].kind == 'mul' and f[0] == f[1] == 0:
                p, q = K.m[0][0].a[:2]
                if st.eq(p, a) and st.eq(q, b) or st.eq(p, b) and st.eq(q, a):
                    return True
        return False

    def fits(self, st, size, a, b):
        for x, c in size.m:
            if x.kind == 'mul' and len(size.m) == 1 and c == 1 and size.c >= 0:
                p, q = x.a[:2]
                for p, q in ((p, q), (q, p)):
                    if st.eq(p, a) and st.le(add(b, ONE), q):
                        return True
        return False


def c14(ck):
    ck.rule('releasing and retaining a valid channel or generator, for every number of references, message size and '
            'state of the pool: one reference is added or taken away; exactly when the last one is released the channel '
            'is freed or put at the end of the pool, once and inside of the memory of the pool, and it is not touched '
            'afterwards')
    ck.rule('making a channel: it has memory for its messages (one from the pool is only used when there is none to '
            'store), is taken from the end of a pool that has one, and every member begins as that of a new one')
    es = []
    for d in configs(ck):
        for fn, op in (('neco_chan_release', 'release'), ('neco_gen_release', 'release'),
                       ('neco_chan_retain', 'retain'), ('neco_gen_retain', 'retain')):
            for ms in (0, 1):
                es.append(Entry(fn, label='%s[%s]' % (fn, 'no message size' if not ms else 'message size'),
                                info=(op, ms), defs=d, model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, (n, k) in ck.run(es, lambda e: [Refs()], lambda r, m: m[0].finish(r)):
        ck.count('operations on references', 1)
        ck.count('outcomes', n)
        ck.count('places at which a channel is given away', k)
    es = [Entry('neco_chan_make', defs=d, model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000})
          for d in configs(ck)]
    for e, n in ck.run(es, lambda e: [Make()], lambda r, m: m[0].finish(r)):
        ck.count('channels made', n['heap'] + n['pool'])
        ck.count('channels taken from the pool', n['pool'])
    ck.need('operations on references', 8)
    ck.need('places at which a channel is given away', 4)
    ck.need('channels made', 2)


CHECKS = {'C14': c14}


# ---------------------------------------------------------------- C19
class EndModel(Model):
    """a coroutine that is not in the map of all of them is found by nobody"""

    def keep_cell(self, st, key):
        if st.g.get('unlisted') and key[0] is SELF:
            t = self.eng.tag(add(key[0], const(key[1])))
            if t is not None and t[1].split('.')[0] in ('joinlist', 'cancellist'):
                return True
        return Model.keep_cell(self, st, key)

    def mergekey(self, st):
        return Model.mergekey(self, st) + tuple(sorted((k, v) for k, v in st.g.items() if k in (
            'unlisted', 'closed', 'released', 'freed', 'taken', 'sched')))

    def suspend(self, st, kind, args, ins):
        out = Model.suspend(self, st, kind, args, ins)
        if kind == 'callback':
            # a handler runs in the coroutine itself
            for s in out:
                for f in ('cancelstate', 'canceltype'):
                    s.mem.pop((SELF, self.mod.off('coroutine', f)), None)
        return out

    def recursion(self, st, f, args, ins):
        st.g['again'] = 1
        self.eng.report(st, 'ends twice', 'the end of the coroutine begins once more while it ends', ins)
        return []


def end_setup(gen, argv, watch):
    def su(r, st):
        m = r.eng.model
        r.gen = ZERO
        r.eng.note_stype(SELF, 'struct.coroutine')
        if gen:
            r.gen = of(atom('p', 'GEN', lo=4096))
            r.eng.note_stype(r.gen, 'struct.neco_chan')
            valid(r, st, r.gen, 'neco_chan')
            r.rc = r.eng.fresh(st, ('in', 'rc'), lo=0, hi=(1 << 31) - 2, what='references')
            put(r, st, r.gen, 'neco_chan', 'rc', r.rc)
            put(r, st, r.gen, 'neco_chan', 'sclosed', ZERO)
        put(r, st, SELF, 'coroutine', 'gen', r.gen)
        r.argv = {'none': ZERO, 'own': add(SELF, const(r.mod.off('coroutine', 'aargv'))),
                  'heap': of(atom('p', 'ARGV', lo=4096))}[argv]
        put(r, st, SELF, 'coroutine', 'argv', r.argv)
        if argv == 'heap':
            st.assume(mk_eq(sub(r.argv, add(SELF, const(r.mod.off('coroutine', 'aargv'))))), False)
        put(r, st, SELF, 'coroutine', 'sigwatch', const(watch - (1 << 32) if watch >> 31 else watch))
        if watch:
            put(r, st, RT, 'runtime', 'mainthread', ONE)
            put(r, st, SELF, 'coroutine', 'cleanup', ZERO)
    return su


class End(Monitor):
    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        for k in ('unlisted', 'closed', 'released', 'freed', 'sched'):
            st.g[k] = 0
        st.g['unwatched'] = 0
        self.n = dict(handlers=0, woken=0)

    def R(self, st, m, ins=None):
        self.eng.report(st, 'end', m, ins)

    def on_load(self, st, tag, addr, val, ins):
        if addr is self.m.field(SELF, 'coroutine', 'cleanup'):
            st.g['h'] = val

    def on_call(self, st, name, args, ins):
        g = st.g
        if name == '<indirect>' and 'h' in g:
            self.n['handlers'] += 1
            h = g['h']
            fn = st.mem.get((rest(h), h.c + self.r.mod.off('cleanup', 'routine')))
            arg = st.mem.get((rest(h), h.c + self.r.mod.off('cleanup', 'arg')))
            nx = st.mem.get((rest(h), h.c + self.r.mod.off('cleanup', 'next')))
            top = self.m.get(st, SELF, 'coroutine', 'cleanup')
            if fn is None or not st.eq(fn[0], args[0]) or arg is None or not st.eq(arg[0], args[1]):
                self.R(st, 'another function is called than the handler pushed last, with its argument', ins)
            elif nx is None or not st.eq(top, nx[0]):
                self.R(st, 'a handler is called before it is removed, and runs again if it does not return', ins)
        elif name.endswith('_delete') and args and len(args) > 1 and args[1] is SELF and name.startswith('all'):
            if g['unlisted']:
                self.R(st, 'the coroutine is removed from the map of all coroutines twice', ins)
            g['unlisted'] = 1
        elif name == 'colist_push_back' and self.m.listtag(args[0]) == ('runtime', 'resumers'):
            if 'el' in g and st.eq(args[1], g['el']):
                g.pop('el')
                self.n['woken'] += 1
            g['sched'] = 1
        elif name == 'sco_resume' and 'el' in g and st.nonzero(args[0]):
            i = args[0]
            if len(i.m) == 1 and i.m[0][0].kind == 'idof' and st.eq(i.m[0][0].a[0], g['el']):
                g.pop('el')
                self.n['woken'] += 1
        elif name in ('neco_free', 'free') and args:
            if self.r.entry.info[1] == 'heap' and st.eq(args[0], self.r.argv):
                if g['freed']:
                    self.R(st, 'the arguments are freed twice', ins)
                g['freed'] = 1
            elif self.eng.roots(rest(args[0])) in SELF.deps:
                self.R(st, 'frees memory of the coroutine while it runs', ins)

    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and st.nonzero(ret):
            t = self.m.listtag(args[0])
            if t in (('coroutine', 'joinlist'), ('coroutine', 'cancellist')) and rest(args[0]) is SELF:
                if 'el' in st.g:
                    self.R(st, 'somebody who waits for the end is taken from the list and not woken', ins)
                st.g['el'] = ret

    def on_store(self, st, tag, addr, val, ins, old):
        gen = self.r.gen
        if rest(addr) is RT and tag is not None and tag[1].startswith('sigwatchers'):
            k = (addr.c - self.r.mod.off('runtime', 'sigwatchers')) // 4
            if old is None or not st.eq(val, sub(old, ONE)) or (st.g['unwatched'] >> k) & 1 or \
                    not (self.r.entry.info[2] >> k) & 1:
                self.R(st, 'the number of watchers of signal %d is not what it should be' % k, ins)
            st.g['unwatched'] |= 1 << k
        if not gen.m or rest(addr) is not gen:
            return
        if tag == ('neco_chan', 'sclosed') and st.val(val) == 1:
            st.g['closed'] = 1
        if tag == ('neco_chan', 'rc'):
            if st.val(self.m.get(st, gen, 'neco_chan', 'sclosed')) == 1:
                st.g['closed'] = 1
            if not st.g['closed']:
                self.R(st, 'the generator is released before it is closed', ins)
            if st.g['released']:
                self.R(st, 'the generator is released twice', ins)
            if old is None or not st.eq(val, sub(old, ONE)):
                self.R(st, 'the references of the generator do not become one less', ins)
            st.g['released'] = 1

    def on_suspend(self, st, kind, args, ins):
        if kind == 'callback':
            return
        if 'el' in st.g:
            self.R(st, 'somebody who waits for the end is taken from the list and not woken', ins)
            st.g.pop('el')

    def finish(self, r):
        m = self.m
        fn = r.entry.func
        ends = [(s, i) for s, i in r.eng.exits]
        if fn == 'neco_exit':
            for st, ret in r.rets:
                self.R(st, 'returns, and the coroutine goes on')
        else:
            ends += [(s, None) for s, _ in r.rets]
        for st, ins in ends:
            g = st.g
            if not g['unlisted']:
                self.R(st, 'the coroutine is not removed from the map of all coroutines', ins)
            for l in ('joinlist', 'cancellist'):
                if is_empty(m, st, m.field(SELF, 'coroutine', l)) is not True:
                    self.R(st, 'somebody may be left in the %s for ever' % l, ins)
            if 'el' in g:
                self.R(st, 'somebody who waits for the end is taken from the list and not woken', ins)
            zero = ['sigwatch', 'gen', 'argv', 'argc']
            if fn == 'neco_exit':
                zero.append('cleanup')
            for f in zero:
                if m.selfval(st, f) != 0:
                    self.R(st, 'the coroutine ends with its %s not cleared' % f, ins)
            if g['unwatched'] != r.entry.info[2]:
                self.R(st, 'a watch is not taken back', ins)
            if r.gen.m and not (g['closed'] and g['released']):
                self.R(st, 'the generator is not closed and released', ins)
            if r.entry.info[1] == 'heap' and not g['freed']:
                self.R(st, 'the memory of the arguments is not freed', ins)
        return len(ends), self.n


def c19(ck):
    ck.rule('the end of a coroutine, by exit or by return, with and without a generator and arguments: each handler is '
            'removed before it is called with its own argument; the coroutine is removed from the map of all coroutines '
            'exactly once; everybody taken from the lists of those who wait for its end is scheduled, both lists are '
            'empty at the end, and nobody can enter them after they were emptied; its generator is closed, then released '
            'once; its watches, arguments and handlers are gone; the end never begins a second time')
    es = []
    for d in configs(ck):
        for fn in ('neco_exit', 'coentry'):
            for gen, argv, watch in ((0, 'none', 0), (1, 'none', 0), (0, 'own', 0), (0, 'heap', 0), (1, 'heap', 0),
                                     (0, 'none', 2), (0, 'none', 1 << 31), (0, 'none', (1 << 32) - 2)):
                es.append(Entry(fn, label='%s[%s, %s, %#x]' % (fn, 'generator' if gen else 'no generator', argv, watch),
                                setup=end_setup(gen, argv, watch), info=(gen, argv, watch), defs=d,
                                model={'cls': EndModel, 'fork': True, 'inline_exit': True, 'unroll': 40 if watch else 0}))
    for e, (n, k) in ck.run(es, lambda e: [End()], lambda r, m: m[0].finish(r)):
        ck.count('ends of a coroutine', n)
        ck.count('calls of handlers', k['handlers'])
        ck.count('waiters woken', k['woken'])
    ck.need('ends of a coroutine', 12)
    ck.need('calls of handlers', 3)
    ck.need('waiters woken', 4)


CHECKS['C19'] = c19


# ---------------------------------------------------------------- C20
STACKFN = ('stack_addr', 'stack_size')


class StartModel(Model):
    """the stack manager only touches the stack member of the coroutine; what the
    caller points to is not a coroutine of the pool"""

    def may_equal(self, st, a, b):
        if any(x.kind == 'p' and str(x.a[0]).startswith('arg') for x in (a, b)):
            return False
        return Model.may_equal(self, st, a, b)

    def external(self, st, name, args, ins):
        if name.startswith('stack_'):
            eng = self.eng
            if name.startswith('stack_get'):
                a = args[1]
                n = self.mod.sizeof(self.mod.types['struct.stack']) if 'struct.stack' in self.mod.types else 32
                for k in [k for k in st.mem if k[0] is rest(a) and a.c <= k[1] < a.c + n]:
                    st.mem.pop(k)
                f = st.copy()
                self.set_errno(f, ins)
                return [(st, ZERO), (f, const(-1))]
            if ins.res is None:
                return [(st, None)]
            return [(st, of(atom(name, args[0], lo=1)))]
        return Model.external(self, st, name, args, ins)


def gone_states(r, st, co):
    """what C19 says of a coroutine that has ended, and so of one in the pool"""
    m = r.eng.model
    for f in ('gen', 'argv', 'argc', 'sigwatch', 'paused', 'suspended', 'working', 'deadline', 'rlocked'):
        put(r, st, co, 'coroutine', f, ZERO)
    for l in ('joinlist', 'cancellist'):
        queue_state(r, st, m.field(co, 'coroutine', l), True)


class Begin(Monitor):
    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        fn = r.entry.func
        self.va = not fn.endswith('v')
        self.gen = 'gen' in fn
        i = 2 if self.gen else 0
        self.fn, self.argc = r.args[i], r.args[i + 1]
        self.argv = None if self.va else r.args[i + 2]
        T.restrict(st.facts, self.fn, 4096, None)
        T.restrict(st.facts, self.argc, 0, None)
        if self.gen:
            T.restrict(st.facts, r.args[0], 4096, None)
            T.restrict(st.facts, r.args[1], 0, (1 << 31) - 1)
        pool_state(r, st)
        st.g.update(filled=ZERO, adv=ZERO, started=0, own=frozenset(), from_='', stk=ZERO, abytes=ZERO, aroot=ZERO)
        st.g['npool0'] = r.eng.model.get(st, RT, 'runtime', 'npool') if self.pool() else ZERO
        self.n = dict(started=0, failed=0, stores=0)

    def pool(self):
        return any(v[0] == 'npool' for v in self.r.mod.fields['runtime'].values())

    def R(self, st, m, ins=None):
        self.eng.report(st, 'begin', m, ins)

    def acquire(self, st, what, v):
        st.g['own'] = st.g['own'] | {(what, v)}

    def release(self, st, what, v, ins):
        for o in st.g['own']:
            if o[0] == what and st.eq(o[1], v):
                st.g['own'] = st.g['own'] - {o}
                return
        if st.val(v) != 0:
            self.R(st, 'releases a %s that is not the one acquired, or twice' % what, ins)

    def on_ret(self, st, name, args, ret, ins):
        g = st.g
        if name == 'colist_pop_front' and self.m.listtag(args[0]) == ('runtime', 'pool') and st.val(ret) != 0:
            g['co'], g['from_'] = ret, 'pool'
            self.acquire(st, 'memory', ret)
            stk = add(ret, const(self.r.mod.off('coroutine', 'stack')))
            self.acquire(st, 'stack', stk)
            self.eng.note_stype(ret, 'struct.coroutine')
            gone_states(self.r, st, ret)
        elif name in ('neco_malloc', 'malloc') and st.val(ret) != 0:
            self.acquire(st, 'memory', ret)
            if 'co' in g:
                g['aroot'], g['abytes'] = ret, args[0]
            else:
                g['co'], g['from_'] = ret, 'heap'
                if not st.le(const(self.r.mod.sizeof(self.r.mod.types['struct.coroutine'])), args[0]):
                    self.R(st, 'the memory of the coroutine is too small', ins)
        elif name.startswith('stack_get') and st.val(ret) == 0:
            self.acquire(st, 'stack', args[1])
        elif name in ('neco_realloc', 'realloc') and st.val(ret) != 0 and st.eq(args[0], g['parr']):
            g['parr'] = ret

    def on_load(self, st, tag, addr, val, ins):
        if ins is not None and self.gen and st.g['parr'].deps & addr.deps and addr.deps != RT.deps and val.m and \
                st.eq(sub(addr, st.g['parr']), scale(sub(st.g['plen'], ONE), POOLB)):
            T.restrict(st.facts, val, 4096, None)
            self.acquire(st, 'memory', val)

    def on_call(self, st, name, args, ins):
        if name in ('neco_free', 'free'):
            self.release(st, 'memory', args[0], ins)
        elif name.startswith('stack_put'):
            self.release(st, 'stack', args[1], ins)
        elif name == 'sco_start':
            self.begin(st, args[0], ins)

    def on_store(self, st, tag, addr, val, ins, old):
        g = st.g
        if tag is not None and tag[0] == '__va_list_tag' and tag[1] in ('gp_offset', 'overflow_arg_area'):
            if old is not None and st.eq(val, add(old, const(8))):
                g['adv'] = add(g['adv'], ONE)
            else:
                g['adv'] = const(-1 << 40)
            return
        if 'co' not in g:
            return
        if self.gen and val.m and self.eng.roots(rest(addr)) in g['parr'].deps:
            self.release(st, 'memory', val, ins)            # back to the pool of channels
        c = st.mem.get((rest(g['co']), g['co'].c + self.r.mod.off('coroutine', 'argv')))
        if c is None or not c[0].m:
            return
        av = c[0]
        root = self.eng.roots(rest(addr))
        if root is not None and (root in av.deps and (av is not add(g['co'], const(self.r.mod.off('coroutine', 'aargv')))
                                                      or rest(addr) is not rest(g['co']) or
                                                      (tag is not None and tag[1].startswith('aargv')))):
            if tag is not None and not tag[1].startswith('aargv'):
                return
            self.n['stores'] += 1
            if not st.eq(sub(addr, av), scale(g['filled'], 8)):
                self.R(st, 'an argument is stored at another place than the next one', ins)
            if self.va:
                if not st.eq(g['adv'], add(g['filled'], ONE)):
                    self.R(st, 'not exactly one argument of the caller is taken for each one stored', ins)
            else:
                at = val.m[0][0] if len(val.m) == 1 else None
                src = self.source(st, val)
                if src is None or not st.eq(sub(src, self.argv), scale(g['filled'], 8)):
                    self.R(st, 'an argument is not the one of the caller', ins)
            g['filled'] = add(g['filled'], ONE)

    def on_copy(self, st, kind, dst, src, n, ins):
        g = st.g
        c = 'co' in g and st.mem.get((rest(g['co']), g['co'].c + self.r.mod.off('coroutine', 'argv')))
        if not c or self.va or kind == 'memset' or not c[0].m:
            return
        f8 = scale(g['filled'], 8)
        if st.eq(sub(dst, c[0]), f8) and st.eq(sub(src, self.argv), f8):
            self.n['stores'] += 1
            left = sub(self.argc, g['filled'])
            if st.eq(n, scale(left, 8)):
                g['filled'] = self.argc

    def source(self, st, val):
        """the address a value was loaded from"""
        for k, v in st.mem.items():
            if v[0] is val and self.eng.roots(k[0]) is not None and self.eng.roots(k[0]) in self.argv.deps:
                return add(k[0], const(k[1]))
        return None

    def begin(self, st, desc, ins):
        g, m, mod = st.g, self.m, self.r.mod
        eng = self.eng
        self.n['started'] += 1
        if g['started']:
            self.R(st, 'the coroutine is started twice', ins)
        g['started'] = 1
        d = {f: eng.load(st, add(desc, const(mod.off('sco_desc', f))), 8, None)
             for f in ('stack', 'stack_size', 'entry', 'cleanup', 'udata')}
        co = d['udata']
        if 'co' not in g or not st.eq(co, g['co']):
            self.R(st, 'what is started is not the coroutine made', ins)
            return
        g['own'] = frozenset(o for o in g['own'] if not (o[0] == 'memory' and st.eq(o[1], co)))

        def get(f):
            a = add(co, const(mod.off('coroutine', f)))
            c = st.mem.get((rest(a), a.c))
            if c is not None:
                return c[0]
            return ZERO if eng.in_zero(st, rest(a), a.c, mod.fsize('coroutine', f)) is not None else None

        def want(f, v, msg):
            x = get(f)
            if x is None or not st.eq(x, v):
                self.R(st, msg, ins)
        want('coroutine', self.fn, 'the function that runs is not the one given')
        want('argc', self.argc, 'the number of arguments is not the one given')
        for f in ('canceltype', 'cancelstate'):
            want(f, eng.load(st, of(atom('g', 'env_' + f, lo=4096)), 4, None),
                 'the coroutine does not begin with the configured %s' % f)
        for f in ('lastid', 'canceled', 'deadlined', 'granted', 'cleanup', 'sigwatch', 'paused', 'suspended', 'working'):
            if any(v[0] == f for v in mod.fields['coroutine'].values()):
                want(f, ZERO, 'the coroutine may begin with the %s of an earlier one' % f)
        for l in ('joinlist', 'cancellist'):
            if is_empty(m, st, add(co, const(mod.off('coroutine', l)))) is not True:
                self.R(st, 'the coroutine may begin with somebody in its %s' % l, ins)
        # arguments
        av = get('argv')
        own = add(co, const(mod.off('coroutine', 'aargv')))
        if not st.eq(g['filled'], self.argc):
            self.R(st, 'not exactly the arguments given are passed', ins)
        if av is None:
            self.R(st, 'the coroutine begins without arguments', ins)
        elif st.eq(av, own):
            if not st.le(scale(self.argc, 8), const(mod.fsize('coroutine', 'aargv'))):
                self.R(st, 'more arguments than there is room for', ins)
        elif g['aroot'].m and st.eq(av, g['aroot']):
            if not st.le(scale(self.argc, 8), g['abytes']):
                self.R(st, 'the memory for the arguments is too small', ins)
            g['own'] = frozenset(o for o in g['own'] if not (o[0] == 'memory' and st.eq(o[1], av)))
        else:
            self.R(st, 'the arguments are in memory that is not of the coroutine', ins)
        # generator
        gn = get('gen')
        if not self.gen:
            want('gen', ZERO, 'a coroutine that is no generator begins with one')
        else:
            c = st.mem.get((rest(self.r.args[0]), self.r.args[0].c))
            if gn is None or not gn.m or c is None or not st.eq(c[0], gn):
                self.R(st, 'the generator returned is not that of the coroutine', ins)
            else:
                rc = m.get(st, gn, 'neco_chan', 'rc')
                if st.val(rc) != 1:
                    self.R(st, 'the generator does not begin with two references', ins)
                g['own'] = frozenset(o for o in g['own'] if not (o[0] == 'memory' and st.eq(o[1], gn)))
        # stack
        sk = add(co, const(mod.off('coroutine', 'stack')))
        for f in STACKFN:
            v = d['stack' if f == 'stack_addr' else 'stack_size']
            a = v.m[0][0] if len(v.m) == 1 and v.c == 0 else None
            if a is None or a.kind != f or not st.eq(a.a[0], sk):
                self.R(st, 'the stack given to the coroutine is not its own', ins)
        if not any(o[0] == 'stack' and st.eq(o[1], sk) for o in g['own']):
            self.R(st, 'the coroutine has no stack', ins)
        g['own'] = frozenset(o for o in g['own'] if not (o[0] == 'stack' and st.eq(o[1], sk)))
        for f, nm in (('entry', 'coentry'), ('cleanup', 'cleanup')):
            if not d[f].m:
                self.R(st, 'the coroutine is started without %s' % f, ins)
        if not st.eq(m.get(st, RT, 'runtime', 'costarter'), SELF):
            self.R(st, 'the new coroutine is not told who started it', ins)

    def finish(self, r):
        for st, ret in r.rets:
            g = st.g
            v = st.val(ret)
            if v == 0 and g['started'] != 1:
                self.R(st, 'reports success and starts nothing')
            if v != 0 and g['started']:
                self.R(st, 'reports a failure although the coroutine was started')
            if v != 0 and v != codes()['NECO_NOMEM']:
                self.R(st, 'refuses a valid start')
            if g['own']:
                self.R(st, 'keeps %s that belongs to nobody' % sorted(o[0] for o in g['own'])[0])
            if v != 0:
                self.n['failed'] += 1
        return self.n


class Entered(Monitor):
    """the first function of a coroutine"""

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        st.g.update(listed=0, ran=0)
        self.cs = self.m.get(st, RT, 'runtime', 'costarter')
        self.n = 0
        self.vals = {f: self.m.get(st, SELF, 'coroutine', f) for f in ('argc', 'argv', 'coroutine')}
        if not r.entry.info:
            st.assume(mk_eq(self.cs), True)
        else:
            T.restrict(st.facts, self.cs, 4096, None)
            r.eng.note_stype(self.cs, 'struct.coroutine')
            self.csid = self.m.get(st, self.cs, 'coroutine', 'id')

    def R(self, st, m, ins=None):
        self.eng.report(st, 'begin', m, ins)

    def on_call(self, st, name, args, ins):
        g, m = st.g, self.m
        if name == 'all_insert' and args[1] is SELF:
            if g['listed']:
                self.R(st, 'the coroutine is added to the map twice', ins)
            g['listed'] = 1
            idv = st.mem.get((SELF, self.r.mod.off('coroutine', 'id')))
            if idv is None or not (len(idv[0].m) == 1 and idv[0].m[0][0].kind == 'idof'):
                self.R(st, 'the coroutine is added to the map before it has its identity', ins)
        elif name == '<indirect>' and not g['ran']:
            g['ran'] = 1
            self.n += 1
            if not g['listed']:
                self.R(st, 'the coroutine runs before it can be found', ins)
            if not (st.eq(args[0], self.vals['coroutine']) and len(args) == 3 and st.eq(args[1], self.vals['argc'])
                    and st.eq(args[2], self.vals['argv'])):
                self.R(st, 'another function runs, or with other arguments, than given', ins)
            me = m.get(st, SELF, 'coroutine', 'id')
            by = m.get(st, SELF, 'coroutine', 'starterid')
            if self.r.entry.info:
                if not st.eq(m.get(st, self.cs, 'coroutine', 'lastid'), me):
                    self.R(st, 'the starter is not told the identity of the coroutine it started', ins)
                if not st.eq(by, self.csid):
                    self.R(st, 'the coroutine is not told the identity of its starter', ins)
            elif st.val(by) != 0:
                self.R(st, 'the first coroutine has a starter', ins)

    def finish(self, r):
        for st, ins in r.eng.exits + [(s, None) for s, _ in r.rets]:
            if not st.g['ran'] and st.val(self.vals['coroutine']) != 0:
                self.R(st, 'the function of the coroutine does not run', ins)
        return self.n


def c20(ck):
    ck.rule('starting a coroutine or generator, for every number of arguments, with a new or a reused one: it is given '
            'exactly the arguments of the caller in order, inside of memory for them, its own stack, the configured '
            'cancelation type and state, and nothing of an earlier coroutine; a failed start starts nothing and '
            'releases everything it acquired once')
    ck.rule('entering a coroutine: it has its identity before it is found by others, knows and is known to its starter, '
            'and its function runs with its arguments')
    es = []
    for d in configs(ck):
        for fn in ('neco_startv', 'neco_start', 'neco_gen_startv', 'neco_gen_start'):
            es.append(Entry(fn, defs=d, model={'cls': StartModel, 'fork': True, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [Begin()], lambda r, m: m[0].finish(r)):
        ck.count('starts', n['started'])
        ck.count('failed starts', n['failed'])
        ck.count('arguments stored', n['stores'])
    es = []
    for d in configs(ck):
        if 'coentry' in module(d).funcs:
            for by in (0, 1):
                es.append(Entry('coentry', label='coentry[%s]' % ('started by another' if by else 'first'), info=by,
                                setup=lambda r, st: r.args.__setitem__(0, SELF), defs=d, model={'fork': True}))
    for e, n in ck.run(es, lambda e: [Entered()], lambda r, m: m[0].finish(r)):
        ck.count('coroutines entered', n)
    ck.need('starts', 4)
    ck.need('failed starts', 4)
    ck.need('arguments stored', 4)


CHECKS['C20'] = c20


# ---------------------------------------------------------------- C14, generators
class GenEnd(End):
    def R(self, st, msg, *a):
        if 'generator' in msg:
            End.R(self, st, msg, *a)


class GenBegin(Begin):
    def R(self, st, msg, *a):
        if 'generator' in msg or 'belongs to nobody' in msg or 'free' in msg or 'released' in msg:
            Begin.R(self, st, msg, *a)


def c14g(ck):
    c14(ck)
    ck.rule('a generator begins with one reference of its coroutine and one of the caller, or none when the start fails; '
            'the coroutine closes it and gives up its reference exactly once when it ends')
    es, eb = [], []
    for d in configs(ck):
        for fn in ('neco_exit', 'coentry'):
            es.append(Entry(fn, label=fn + '[generator]', setup=end_setup(1, 'none', 0), info=(1, 'none', 0), defs=d,
                            model={'cls': EndModel, 'fork': True, 'inline_exit': True}))
        for fn in ('neco_gen_startv', 'neco_gen_start'):
            eb.append(Entry(fn, defs=d, model={'cls': StartModel, 'fork': True, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, (n, k) in ck.run(es, lambda e: [GenEnd()], lambda r, m: m[0].finish(r)):
        ck.count('ends of a generator', n)
    for e, n in ck.run(eb, lambda e: [GenBegin()], lambda r, m: m[0].finish(r)):
        ck.count('generators started', n['started'])
        ck.count('failed starts', n['failed'])
    ck.need('ends of a generator', 2)
    ck.need('generators started', 2)
    ck.need('failed starts', 2)


CHECKS['C14'] = c14g
