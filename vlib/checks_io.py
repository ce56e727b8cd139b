"""C21, C22, C24, C33: descriptors, transfers, streams and readiness events."""
from common import *
from model import SUSPEND, LASTERR
from checks_api import CONFIGS, EPERM, EINVAL, ENOMEM, ECANCELED, ETIMEDOUT
from checks_sync import configs, put

EINTR, EAGAIN, EISCONN, EINPROGRESS, EALREADY, ECONNREFUSED = 4, 11, 106, 115, 114, 111
CHECKS = {}

# the system call of each operation; the event it waits for
TRANSFER = {'read': ('read', 'EVREAD'), 'write': ('write', 'EVWRITE'), 'accept': ('accept', 'EVREAD'),
            'connect': ('connect', 'EVWRITE')}
SYSNAME = {'recv': 'read', 'send': 'write', 'accept4': 'accept'}


class IoModel(Model):
    """every result of the transferring system calls is a path of its own; work
    handed to a worker has happened when the coroutine is resumed"""
    special = {'connect': (EINTR, EAGAIN, EISCONN, EINPROGRESS, EALREADY, ENOMEM)}

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('res'), st.g.get('prog'), st.g.get('sus'))

    def external(self, st, name, args, ins):
        base = SYSNAME.get(name, name)
        if base not in TRANSFER or len(args) < 3:
            return Model.external(self, st, name, args, ins)
        eng = self.eng
        for x in args:
            root = eng.roots(rest(x)) if x.m else None
            if root is not None and root.kind == 'o':
                eng.havoc_obj(st, x)
        out = []
        special = self.special.get(base, (EINTR, EAGAIN))
        for e in special:
            s = st.copy()
            s.mem[(ERRNO, 0)] = (const(e), 4)
            s.g['res'] = e
            out.append((s, const(-1)))
        s = st.copy()
        v = eng.fresh(s, ('errno', ins.id), lo=1, hi=4095, what='errno')
        for e in special:
            s.assume(mk_eq(sub(v, const(e))), False)
        s.mem[(ERRNO, 0)] = (v, 4)
        s.g['res'] = 'error'
        out.append((s, const(-1)))
        st.g['res'] = 'done'
        st.mem[(ERRNO, 0)] = (eng.fresh(st, ('errno0', ins.id), lo=0), 4)
        out.append((st.copy(), ZERO))
        if base == 'connect':
            return out
        n = eng.fresh(st, ('ext', ins.id), lo=1, hi=(1 << 31) - 1 if base == 'accept' else None, what=name)
        try:
            if base != 'accept':
                T.restrict(st.facts, sub(n, args[2]), hi=0)
            out.append((st, n))
        except Infeasible:
            pass
        return out

    def worker_submit(self, st, args, ins):
        eng = self.eng
        no = st.copy()
        fn = args[2]
        out = [(no, ZERO)]
        a = fn.m[0][0] if len(fn.m) == 1 and fn.c == 0 else None
        f = self.mod.funcs.get(a.a[0]) if a is not None and a.a and isinstance(a.a[0], str) else None
        if f is None:
            raise AnalysisBroken('worker_submit of an undetermined function %r' % (fn,))
        st.g['work'] = 1
        for s, _ in eng.invoke(st, f, [args[3]], ins):
            s.g.pop('L', None)
            s.g.pop('work', None)
            # the errno of the worker's thread is not that of this one
            s.mem[(ERRNO, 0)] = (eng.fresh(s, ('errnow', ins.id), lo=0), 4)
            out.append((s, ONE))
        return out


class Transfer(Monitor):
    """one I/O operation over all sequences of results of its system call"""

    def start(self, r, st):
        self.r = r
        self.calls = self.waits = 0
        self.sys = r.entry.info
        st.g['res'] = None         # how the last call ended
        st.g['err'] = ZERO         # its errno
        st.g['val'] = ZERO         # its result
        st.g['w'] = ZERO           # bytes written
        st.g['prog'] = 0           # a connect is in progress
        st.g['sus'] = 1            # suspended since the last call

    def again(self, st):
        """the last call failed in a way that is to be retried"""
        e = st.g['res']
        return e in ((EINPROGRESS, EINTR, ENOMEM) if self.sys == 'connect' else (EINTR, EAGAIN))

    def open(self, st):
        """is the operation not finished by the result of the last call?"""
        return st.g['res'] is None or self.again(st) or self.sys == 'write' and st.g['res'] == 'done'

    def on_call(self, st, name, args, ins):
        name = SYSNAME.get(name, name)
        if name != self.sys or self.eng.mod.funcs.get(name) is not None:
            return
        self.calls += 1
        A = self.r.args

        def rep(m):
            self.eng.report(st, 'transfer', m, ins)
        if not st.eq(args[0], A[0]):
            rep('%s is called on another descriptor' % name)
        if not self.open(st):
            rep('%s is called again although its previous result (%s) ended the operation' % (name, st.g['res']))
        if not st.g['sus'] and st.g['res'] in (EAGAIN, EINPROGRESS):
            rep('%s is called again without letting the others run' % name)
        if name == 'write':
            if not st.eq(args[1], add(A[1], st.g['w'])):
                rep('write does not continue at the first byte that was not written')
            if not st.eq(args[2], sub(A[2], st.g['w'])):
                rep('write does not ask for exactly the bytes that remain')
        elif not st.eq(args[1], A[1]) or not st.eq(args[2], A[2]):
            rep('%s with other memory than was given' % name)
        if st.g['res'] == EINPROGRESS:
            st.g['prog'] = 1

    def on_ret(self, st, name, args, ret, ins):
        name = SYSNAME.get(name, name)
        if name != self.sys or self.eng.mod.funcs.get(name) is not None:
            return
        st.g['val'] = ret
        st.g['err'] = st.mem[(ERRNO, 0)][0]
        st.g['sus'] = 0
        if name == 'write' and st.g['res'] == 'done':
            st.g['w'] = add(st.g['w'], ret)

    def on_suspend(self, st, kind, args, ins):
        if kind not in SUSPEND:
            return
        st.g['sus'] = 1
        if self.open(st):
            st.g['val'] = ZERO
            st.g['err'] = ZERO
        if 'E' in st.g:
            self.waits += 1
            if not self.open(st):
                self.eng.report(st, 'transfer', 'waits although the last result of %s (%s) ended the operation' % (
                    self.sys, st.g['res']), ins)
            if not st.eq(st.g['E'][1], self.r.args[0]):
                self.eng.report(st, 'transfer', 'waits for another descriptor', ins)
            if st.val(st.g['E'][2]) != self.eng.mod.enums[TRANSFER[self.sys][1]]:
                self.eng.report(st, 'transfer', 'waits for the wrong kind of event', ins)

    def finish(self, r):
        n = {}
        for st, ret in r.rets:
            res, w = st.g['res'], st.g['w']
            e = st.mem.get((ERRNO, 0))
            e = e and e[0]
            ev = e and st.val(e)
            stopped = ev in (ECANCELED, ETIMEDOUT)

            def rep(m):
                r.eng.report(st, 'transfer', m)
            v = st.val(ret)
            n[str(res)] = n.get(str(res), 0) + 1
            if self.sys == 'write' and v != -1:
                if not st.eq(ret, w):
                    rep('the result is not the number of bytes written')
                if not st.eq(w, r.args[2]) and self.open(st) and not stopped:
                    rep('stops before everything is written although nothing failed (last result %s)' % res)
                continue
            if v == -1:
                if self.sys == 'write' and st.val(w) != 0:
                    rep('fails although something was written')
                if stopped:
                    continue
                if res == 'done' and not (self.sys == 'accept' and r.entry.info == 'accept'):
                    rep('fails although %s succeeded' % self.sys)
                elif self.open(st):
                    rep('gives up after a result (%s) that is to be retried' % res)
                elif res == 'done':
                    pass
                elif self.sys == 'connect' and res == EISCONN and st.g['prog']:
                    rep('fails although the connection in progress is established')
                elif self.sys == 'connect' and res == EAGAIN:
                    if ev != ECONNREFUSED:
                        rep('a refused local connection is reported as %s' % ev)
                elif e is None or not st.eq(e, st.g['err']):
                    rep('the errno reported is not that of %s (last result %s)' % (self.sys, res))
                continue
            ok = res == 'done' and st.eq(ret, st.g['val'])
            if self.sys == 'connect':
                ok = v == 0 and (res == 'done' or res == EISCONN and st.g['prog'])
            if not ok:
                rep('succeeds although the last result of %s was %s, or with another value' % (self.sys, res))
        return self.calls, self.waits, n


class WaitFor(Monitor):
    def start(self, r, st):
        self.r, self.waits = r, 0

    def on_suspend(self, st, kind, args, ins):
        if kind == 'sco_pause' and 'E' in st.g:
            self.waits += 1
            want = self.eng.mod.enums['EVREAD' if self.r.entry.info.endswith('READ') else 'EVWRITE']
            if not st.eq(st.g['E'][1], self.r.args[0]):
                self.eng.report(st, 'transfer', 'waits for another descriptor', ins)
            if st.val(st.g['E'][2]) != want:
                self.eng.report(st, 'transfer', 'waits for the wrong kind of event', ins)


def c21(ck):
    ck.rule('read, write, accept and connect over every sequence of results of their system call (success with any count, '
            'each of EINTR, EAGAIN, EISCONN, EINPROGRESS, EALREADY, ENOMEM, any other error), including calls made by a '
            'worker: the system call is made on the descriptor and memory given; a write on exactly the bytes that remain; '
            'again only if the last result is to be retried, and after "not ready" only once others could run')
    ck.rule('waiting is for this descriptor and the right kind of event; the result is what the system call reported '
            '(for a write the sum of what was written), and the operation ends only by success, an error that is not '
            'to be retried (with its errno), a deadline or a cancelation')
    es = []
    for d in configs(ck) + ([('NECO_USEWRITEWORKERS',), ('NECO_BURST=2',)] if ck.tier != 'thorough' else []):
        for op in TRANSFER:
            for sfx in ('_dl', ''):
                def su(r, st, op=op):
                    st.assume(mk_eq(r.args[1]), False)
                    if op in ('read', 'write'):
                        T.restrict(st.facts, r.args[2], 0, (1 << 62))
                es.append(Entry('neco_' + op + sfx, label='neco_%s%s' % (op, sfx), setup=su, info=op, defs=d,
                                model={'cls': IoModel, 'fork': True}))
    for e, (c, w, n) in ck.run(es, lambda e: [Transfer()], lambda r, m: m[0].finish(r)):
        ck.count('operations', 1)
        ck.count('system calls', c)
        ck.count('waits for events', w)
        ck.count('outcomes', sum(n.values()))
    C = codes()
    es = []
    for d in configs(ck):
        for fn in ('neco_wait', 'neco_wait_dl'):
            for m in ('NECO_WAIT_READ', 'NECO_WAIT_WRITE'):
                es.append(Entry(fn, label='%s(%s)' % (fn, m), info=m, defs=d, model={'fork': True},
                                setup=lambda r, st, m=m: r.args.__setitem__(1, const(C[m]))))
    for e, n in ck.run(es, lambda e: [WaitFor()], lambda r, m: m[0].waits):
        ck.count('operations', 1)
        ck.count('waits for events', n)
        if not n:
            ck.violate('transfer', '%s never waits for an event' % e.label, function=e.func)
    ck.need('operations', 24)
    ck.need('system calls', 24)
    ck.need('waits for events', 24)
    ck.need('outcomes', 60)


CHECKS['C21'] = c21


# ---------------------------------------------------------------- C24
class StreamModel(Model):
    """each direction of a stream is used by one coroutine at a time"""
    side = None

    def keep_cell(self, st, key):
        t = self.eng.tag(add(key[0], const(key[1])))
        if t is not None and t[0] == 'neco_stream' and t[1].startswith(self.side + '.'):
            return True
        return Model.keep_cell(self, st, key)

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('fill'), st.g.get('drain'))

    def results(self, s, name, args, ins):
        out = []
        for st, v in Model.results(self, s, name, args, ins):
            if name == 'neco_read_dl' and st.val(v) is None:
                z = st.copy()
                if z.assume(mk_eq(v), True):
                    out.append((z, ZERO))
                if not st.assume(mk_eq(v), False):
                    continue
            out.append((st, v))
        return out


    def relations(self, st):
        out = {}
        if 'cap' in st.g:
            for k, t in (('room', st.g['W']), ('end', add(st.g['P'], st.g['L']))):
                out[k] = sub(st.g['cap'], t)
        return out


class RdModel(StreamModel):
    side = 'rd'


class WrModel(StreamModel):
    side = 'wr'


def stream_setup(buffered, rd, wr, lens=None):
    """rd, wr: 0 (no buffer yet), 'in' (inside the object), 'heap'"""
    def su(r, st):
        s = r.args[0]
        m = r.eng.model
        st.assume(mk_eq(s), False)
        eng = r.eng
        eng.note_stype(s, 'struct.neco_stream')
        put(r, st, s, 'neco_stream', 'rtid', m.get(st, RT, 'runtime', 'id'))
        put(r, st, s, 'neco_stream', 'buffered', const(buffered))
        r.fd = m.get(st, s, 'neco_stream', 'fd')
        r.cap = r.eng.fresh(st, ('in', 'cap'), lo=1, hi=(1 << 62) - 1, what='cap')
        r.P = r.L = r.W = ZERO
        if len(r.args) > 2 and r.f.params[2][0].k == 'int':
            T.restrict(st.facts, r.args[2], 0, (1 << 62))
        if not buffered:
            return
        o = r.mod.off('neco_stream', 'rd')
        w = r.mod.off('neco_stream', 'wr')
        inl = add(s, const(r.mod.off('neco_stream', 'data')))

        def cell(off, v):
            st.mem[(s, off)] = (v, 8)
        cell(r.mod.off('neco_stream', 'cap'), r.cap)
        r.o = {'rd.len': o + r.mod.off('bufrd', 'len'), 'rd.pos': o + r.mod.off('bufrd', 'pos'),
               'rd.data': o + r.mod.off('bufrd', 'data'), 'wr.len': w + r.mod.off('bufwr', 'len'),
               'wr.data': w + r.mod.off('bufwr', 'data')}
        if rd:
            r.P = r.eng.fresh(st, ('in', 'pos'), lo=0, hi=(1 << 62) - 1, what='pos')
            r.L = r.eng.fresh(st, ('in', 'unread'), lo=0, hi=(1 << 62) - 1, what='unread')
            T.restrict(st.facts, sub(r.P, r.cap), hi=0)
            T.restrict(st.facts, sub(r.L, r.cap), hi=0)
            T.restrict(st.facts, sub(add(r.P, r.L), r.cap), hi=0)
        if wr:
            r.W = r.eng.fresh(st, ('in', 'unsent'), lo=0, hi=(1 << 62) - 1, what='unsent')
            T.restrict(st.facts, sub(r.W, r.cap), hi=0)
        cell(r.o['rd.len'], r.L)
        cell(r.o['rd.pos'], r.P)
        cell(r.o['wr.len'], r.W)
        for nm, k in (('rd.data', rd), ('wr.data', wr)):
            cell(r.o[nm], {0: ZERO, 'in': inl, 'heap': of(atom('p', 'heap:' + nm, lo=4096))}[k])
    return su


class Stream(Monitor):
    def start(self, r, st):
        self.r = r
        self.op, self.buffered = r.entry.info
        g = st.g
        g['P'], g['L'], g['W'], g['D'] = r.P, r.L, r.W, ZERO
        g['cap'] = r.cap
        g['got'] = ZERO       # bytes delivered to the caller
        g['acc'] = ZERO       # bytes accepted from the caller
        g['fill'] = None      # how the last read from / write to the descriptor ended
        g['drain'] = None
        self.n = dict(copies=0, transfers=0)

    # -- where an address lies
    def cell(self, st, nm):
        c = st.mem.get((self.r.args[0], self.r.o[nm]))
        return None if c is None else c[0]

    def within(self, st, addr, nm):
        """offset in the buffer, or None"""
        if not self.buffered:
            return None
        b = self.cell(st, nm)
        if b is None or st.val(b) == 0:
            return None
        r1, r2 = self.eng.roots(rest(addr)), self.eng.roots(rest(b))
        if r1 is None or r1 is not r2:
            return None
        if r1 in self.r.args[0].deps:
            # inside the object: only what is not a member
            d = st.bounds(sub(addr, b))
            if d[0] is not None and d[0] < 0:
                return None
        return sub(addr, b)

    def user(self, st, addr, done):
        """is this the next byte of the caller's memory?"""
        root = self.eng.roots(rest(addr))
        if self.op == 'byte':
            return root is not None and root.kind == 'o' and st.eq(done, ZERO)
        return st.eq(addr, add(self.r.args[1], done))

    def rep(self, st, m, ins):
        self.eng.report(st, 'stream', m, ins)

    def fits(self, st, k, n):
        return st.le(ZERO, k) and st.le(add(k, n), self.r.cap)

    def on_copy(self, st, kind, dst, src, n, ins):
        if kind == 'memset':
            if self.within(st, dst, 'rd.data') is not None or self.within(st, dst, 'wr.data') is not None:
                self.rep(st, 'bytes of a buffer are overwritten', ins)
            return
        g = st.g
        rs, ws = self.within(st, src, 'rd.data'), self.within(st, src, 'wr.data')
        rd, wd = self.within(st, dst, 'rd.data'), self.within(st, dst, 'wr.data')
        if rs is None and ws is None and rd is None and wd is None:
            return
        self.n['copies'] += 1
        if rs is not None and rd is None and wd is None:
            if not st.eq(rs, g['P']):
                self.rep(st, 'the bytes delivered do not start at the first one that was not read yet', ins)
            if not st.le(n, g['L']):
                self.rep(st, 'more bytes are delivered than were received', ins)
            if not self.user(st, dst, g['got']):
                self.rep(st, 'bytes are delivered to another place than next in the memory of the caller', ins)
            g['P'], g['L'], g['got'] = add(g['P'], n), sub(g['L'], n), add(g['got'], n)
        elif rs is not None and rd is not None:
            # unread bytes move inside the buffer
            if not st.eq(rs, g['P']) or not st.eq(n, g['L']) or not self.fits(st, rd, n):
                self.rep(st, 'other bytes are moved than those not read yet', ins)
            if kind != 'memmove':
                self.rep(st, 'overlapping bytes are moved with %s' % kind, ins)
            g['P'] = rd
        elif ws is not None and wd is not None:
            if not st.eq(ws, g['D']) or not st.eq(n, sub(g['W'], g['D'])) or not st.eq(wd, ZERO):
                self.rep(st, 'other bytes are moved to the front than those not written yet', ins)
            if kind != 'memmove':
                self.rep(st, 'overlapping bytes are moved with %s' % kind, ins)
            g['W'], g['D'] = n, ZERO
        elif wd is not None and rs is None:
            self.empty(st)
            if not st.eq(wd, g['W']):
                self.rep(st, 'bytes are buffered at another place than after those buffered before', ins)
            if not self.fits(st, wd, n):
                self.rep(st, 'bytes are buffered beyond the capacity', ins)
            if not self.user(st, src, g['acc']):
                self.rep(st, 'other bytes are buffered than the next ones of the caller', ins)
            g['W'], g['acc'] = add(g['W'], n), add(g['acc'], n)
        else:
            self.rep(st, 'bytes are copied between the buffers', ins)

    def empty(self, st):
        """everything buffered was written: the buffer begins anew"""
        g = st.g
        if st.eq(g['D'], g['W']) and self.buffered and st.val(self.cell(st, 'wr.len') or ONE) == 0:
            g['W'] = g['D'] = ZERO

    def on_load(self, st, tag, addr, val, ins):
        if ins is None or ins.op != 'load' or self.eng.mod.sizeof(ins.ty) != 1:
            return
        k = self.within(st, addr, 'rd.data')
        if k is None:
            if self.op == 'byte':
                root = self.eng.roots(rest(addr))
                if root is not None and root.kind == 'o':
                    st.g['byte'] = val
            return
        if not st.eq(k, st.g['P']) or not st.le(ONE, st.g['L']):
            self.rep(st, 'a byte is taken that is not the next one received', ins)
        st.g['P'], st.g['L'], st.g['got'] = add(st.g['P'], ONE), sub(st.g['L'], ONE), add(st.g['got'], ONE)
        st.g['byte'] = val

    def on_store(self, st, tag, addr, val, ins, old):
        if not self.buffered:
            return
        s = self.r.args[0]
        if rest(addr) is s:
            # the same term for what is known to be the same
            for nm, x in (('wr.len', 'W'), ('rd.len', 'L'), ('rd.pos', 'P')):
                if addr.c == self.r.o[nm] and st.eq(val, st.g[x]):
                    st.g[x] = val
        if rest(addr) is s and addr.c in (self.r.o['rd.data'], self.r.o['wr.data']):
            other = self.cell(st, 'wr.data' if addr.c == self.r.o['rd.data'] else 'rd.data')
            inl = add(s, const(self.r.mod.off('neco_stream', 'data')))
            if old is not None and st.eq(val, old):
                return
            if st.val(val) == 0:
                if old is not None and st.val(old) != 0:
                    self.rep(st, 'a buffer in use is given up', ins)
                return
            if val is inl:
                if other is None or other is inl:
                    self.rep(st, 'both directions use the same buffer', ins)
            else:
                root = self.eng.roots(rest(val))
                if root is None or root.kind != 'o':
                    self.rep(st, 'an undetermined buffer is used', ins)
                elif val.c or not st.le(self.r.cap, st.g.get('size', ZERO)):
                    self.rep(st, 'the buffer is smaller than the capacity', ins)
            if old is not None and st.val(old) != 0:
                self.rep(st, 'a buffer in use is replaced', ins)
        elif self.within(st, addr, 'rd.data') is not None or self.within(st, addr, 'wr.data') is not None:
            self.rep(st, 'a byte of a buffer is overwritten', ins)

    def on_call(self, st, name, args, ins):
        g = st.g
        if name in ('neco_malloc', 'malloc') and args:
            g['size'] = args[0]
        elif name == 'neco_read_dl':
            self.n['transfers'] += 1
            if not st.eq(args[0], self.r.fd):
                self.rep(st, 'reads from another descriptor', ins)
            k = self.within(st, args[1], 'rd.data')
            g['at'] = None
            if k is not None:
                g['at'] = 'buffer'
                g['k'] = k
                if not self.fits(st, k, args[2]):
                    self.rep(st, 'receives more than fits the buffer', ins)
                if not st.eq(g['L'], ZERO) and not st.eq(k, add(g['P'], g['L'])):
                    self.rep(st, 'receives over bytes that were not read yet', ins)
            elif self.user(st, args[1], g['got']):
                if not st.eq(g['L'], ZERO):
                    self.rep(st, 'receives although there are buffered bytes that were not read yet', ins)
                if self.op != 'byte' and not st.le(args[2], sub(self.r.args[2], g['got'])):
                    self.rep(st, 'receives more than was asked for', ins)
                if self.op == 'byte' and not st.eq(args[2], ONE):
                    self.rep(st, 'receives more than one byte', ins)
            else:
                self.rep(st, 'receives into other memory', ins)
        elif name == 'neco_write_dl':
            self.n['transfers'] += 1
            if not st.eq(args[0], self.r.fd):
                self.rep(st, 'writes to another descriptor', ins)
            g['at'] = None
            self.empty(st)
            left = sub(g['W'], g['D'])
            k = self.within(st, args[1], 'wr.data') if self.buffered else None
            if k is not None or st.val(args[2]) == 0:
                g['at'] = 'buffer'
                if k is not None and not st.eq(k, g['D']) and st.val(args[2]) != 0:
                    self.rep(st, 'does not continue with the first byte that was not written', ins)
                if not st.le(args[2], left):
                    self.rep(st, 'writes more than is buffered', ins)
            elif st.eq(left, ZERO) and st.eq(args[2], ZERO):
                g['at'] = 'buffer'
            elif self.op == 'write' and self.user(st, args[1], g['acc']):
                if not st.eq(left, ZERO):
                    self.rep(st, 'writes new bytes before those buffered', ins)
                if not st.le(args[2], sub(self.r.args[2], g['acc'])):
                    self.rep(st, 'writes more than was given', ins)
            else:
                self.rep(st, 'writes other bytes than those to be written', ins)

    def on_ret(self, st, name, args, ret, ins):
        g = st.g
        if name == 'neco_read_dl':
            v = st.val(ret)
            g['fill'] = 'fail' if v == -1 else 'end' if v == 0 else 'some'
            if g['fill'] == 'some' and not st.le(ONE, ret):
                g['fill'] = 'any'
            if v == -1:
                return
            if g['at'] == 'buffer':
                if not st.eq(g['L'], ZERO):
                    g['L'] = add(g['L'], ret)
                else:
                    g['P'], g['L'] = g['k'], ret
            else:
                g['got'] = add(g['got'], ret)
                g['P'] = ZERO
            g.pop('k', None)
        elif name == 'neco_write_dl':
            v = st.val(ret)
            if v == -1:
                g['drain'] = 'fail'
                return
            g['drain'] = 'all' if st.eq(ret, args[2]) else 'part'
            if g['at'] == 'buffer':
                g['D'] = add(g['D'], ret)
            else:
                g['acc'] = add(g['acc'], ret)

    def finish(self, r):
        C = codes()
        for st, ret in r.rets:
            g = st.g

            def rep(m):
                r.eng.report(st, 'stream', m)
            v = st.val(ret)
            bad = v is not None and v < 0
            if v is None and not st.le(ZERO, ret):
                rep('the result can be an error as well as a success')
                continue
            if self.buffered and self.op in ('read', 'full', 'byte', 'unread', 'size'):
                pos, ln = self.cell(st, 'rd.pos'), self.cell(st, 'rd.len')
                P, L = g['P'], g['L']
                if self.op == 'unread' and v == 0:
                    if not st.le(ONE, P):
                        rep('puts back a byte that was not read')
                    P, L = sub(P, ONE), add(L, ONE)
                if ln is None or not st.eq(ln, L):
                    rep('the number of bytes not read yet is not what it should be')
                if pos is None or not st.eq(pos, P):
                    if not (pos is not None and st.val(pos) == 0 and st.eq(L, ZERO)):
                        rep('the position of the next byte is not what it should be')
            if self.buffered and self.op in ('write', 'flush', 'wsize'):
                ln = self.cell(st, 'wr.len')
                W, D = g['W'], g['D']
                if ln is None or not st.eq(ln, sub(W, D)):
                    rep('the number of bytes to be written is not what it should be')
                elif not st.eq(D, ZERO) and not st.eq(W, D):
                    rep('the bytes not written yet are not moved to the front of the buffer')
            if self.op in ('read', 'full'):
                if bad:
                    if not st.eq(g['got'], ZERO):
                        rep('fails although bytes were delivered')
                    if v == C['NECO_EOF'] and g['fill'] != 'end':
                        rep('reports the end of the stream (last result of reading: %s)' % g['fill'])
                elif not st.eq(ret, g['got']):
                    rep('the result is not the number of bytes delivered')
                elif not st.eq(g['got'], r.args[2]) and self.op == 'full' and g['fill'] not in ('fail', 'end'):
                    rep('stops before all bytes are read')
            elif self.op == 'byte':
                if not bad:
                    if not st.eq(g['got'], ONE):
                        rep('returns a byte without taking one')
                    b = g.get('byte')
                    if b is None or not (ret is b or st.eq(ret, b) or b.deps and b.deps <= ret.deps | self.zx(ret)):
                        rep('returns another byte than the one taken')
                elif not st.eq(g['got'], ZERO):
                    rep('fails although a byte was taken')
                elif v == C['NECO_EOF'] and g['fill'] != 'end':
                    rep('reports the end of the stream (last result of reading: %s)' % g['fill'])
            elif self.op == 'write':
                if bad:
                    if not st.eq(g['acc'], ZERO):
                        rep('fails although bytes were accepted')
                elif not st.eq(ret, g['acc']):
                    rep('the result is not the number of bytes accepted')
                elif not st.eq(ret, r.args[2]) and g['drain'] not in ('fail', 'part'):
                    rep('stops before all bytes are accepted')
            elif self.op == 'flush' and self.buffered:
                if v == 0 and not st.eq(g['W'], g['D']):
                    rep('succeeds although bytes remain to be written')
                if v != 0 and g['drain'] not in ('fail', 'part'):
                    rep('fails although everything was written')
            elif self.op == 'size' and self.buffered and not st.eq(ret, g['L']):
                rep('reports another number of bytes than are buffered')
            elif self.op == 'wsize' and self.buffered and not st.eq(ret, g['W']):
                rep('reports another number of bytes than are buffered')
            if self.op in ('size', 'wsize', 'unread') and self.n['transfers']:
                rep('transfers bytes')
        return self.n, len(r.rets)

    def zx(self, t):
        out = set()
        for a in t.deps:
            for x in a.a:
                if isinstance(x, Lin):
                    out |= x.deps
        return out


class MakeStream(Monitor):
    """a new stream is an empty one"""

    def start(self, r, st):
        self.r = r
        st.g['size'] = ZERO
        st.g['new'] = ZERO
        if len(r.args) > 2:
            T.restrict(st.facts, r.args[2], 0, 1 << 40)

    def on_ret(self, st, name, args, ret, ins):
        if name == 'neco_malloc':
            st.g['size'] = args[0]
            st.g['new'] = ret

    def finish(self, r):
        n = 0
        off = r.mod.off
        for st, ret in r.rets:
            v = st.val(ret)

            def rep(m):
                r.eng.report(st, 'make', m)
            if v != 0:
                continue
            n += 1
            s = st.g['new']
            c = st.mem.get((r.args[0], 0))
            if not s.m or c is None or c[0] is not s:
                rep('the stream made is not the one returned')
                continue

            def f(nm):
                o = 0
                ty = 'neco_stream'
                for part in nm.split('.'):
                    o += off(ty, part)
                    ty = {'rd': 'bufrd', 'wr': 'bufwr'}.get(part)
                c = st.mem.get((s, o))
                if c is None:
                    return ZERO if r.eng.in_zero(st, s, o, 8) is not None else None
                return c[0]
            buf = st.val(f('buffered'))
            if f('fd') is None or not st.eq(f('fd'), r.args[1]):
                rep('the stream does not use the descriptor given')
            if buf is None or bool(buf) != ('buffered' in r.f.name):
                rep('buffering is not as asked for')
            if not buf:
                if not st.le(const(off('neco_stream', 'rd')), st.g['size']):
                    rep('the memory of the stream is too small')
                continue
            for nm in ('rd.len', 'rd.pos', 'rd.data', 'wr.len', 'wr.data'):
                if f(nm) is None or st.val(f(nm)) != 0:
                    rep('the stream is not empty: %s' % nm)
            cap = f('cap')
            if cap is None or not st.le(ONE, cap):
                rep('the capacity is not positive')
            elif not st.le(add(const(off('neco_stream', 'data')), cap), st.g['size']):
                rep('the memory of the stream is smaller than its capacity')
        return n


STREAM_OPS = {'neco_stream_read_dl': 'read', 'neco_stream_read': 'read', 'neco_stream_readfull_dl': 'full',
              'neco_stream_readfull': 'full', 'neco_stream_read_byte_dl': 'byte', 'neco_stream_read_byte': 'byte',
              'neco_stream_unread_byte': 'unread', 'neco_stream_buffered_read_size': 'size',
              'neco_stream_write_dl': 'write', 'neco_stream_write': 'write', 'neco_stream_flush_dl': 'flush',
              'neco_stream_flush': 'flush', 'neco_stream_buffered_write_size': 'wsize'}


def c24(ck):
    ck.rule('ghost accounting of every copy, byte access and transfer of the stream operations, for every capacity, '
            'fill level, position, size and result of the descriptor: bytes are delivered from the first one not read '
            'yet into the next place of the caller, never more than were received; receiving never overwrites bytes '
            'not read yet nor exceeds the capacity; bytes are accepted in order behind those buffered, within the '
            'capacity; the descriptor is given exactly the oldest bytes not written yet, and a partial write keeps the rest')
    ck.rule('at every return the stored position and counts equal the ghost ones (so the invariant 0 <= pos, '
            'pos + len <= cap assumed at entry holds again), the result is the number of bytes delivered or accepted, '
            'an error moved nothing, the end of the stream is reported only when the descriptor said so, the buffers '
            'of the two directions are never the same, and a byte is put back only if one was read before; a new stream '
            'is empty, uses the descriptor given and has the memory for its capacity')
    es = []
    bufs = [(0, 0), ('in', 0), (0, 'in'), ('in', 'heap'), ('heap', 'in')]
    for d in configs(ck):
        for fn, op in STREAM_OPS.items():
            cls = RdModel if op in ('read', 'full', 'byte', 'unread', 'size') else WrModel
            es.append(Entry(fn, label=fn + '[unbuffered]', setup=stream_setup(0, 0, 0), info=(op, False), defs=d,
                            model={'cls': cls, 'fork': True, 'summaries': SUMMARIES.get(fn, ())}))
            for b in bufs:
                es.append(Entry(fn, label='%s[%s,%s]' % ((fn,) + b), setup=stream_setup(1, *b), info=(op, True), defs=d,
                                model={'cls': cls, 'fork': True, 'summaries': SUMMARIES.get(fn, ())}))
    for e, (n, k) in ck.run(es, lambda e: [Stream()], lambda r, m: m[0].finish(r)):
        ck.count('operations on stream states', 1)
        ck.count('outcomes', k)
        for x, y in n.items():
            ck.count(x, y)
    es = [Entry(fn, defs=d) for d in configs(ck) for fn in ('neco_stream_make', 'neco_stream_make_buffered',
                                                            'neco_stream_make_buffered_size')]
    for e, n in ck.run(es, lambda e: [MakeStream()], lambda r, m: m[0].finish(r)):
        ck.count('streams made', n)
        ck.need('streams made', 1)
    ck.need('operations on stream states', 70)
    ck.need('copies', 20)
    ck.need('transfers', 40)


CHECKS['C24'] = c24
