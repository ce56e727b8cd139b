"""C12, C13, C15 - C18: what the operations on channels, mutexes, condition
variables and wait groups do to the object, as tables over its states."""
from common import *
from model import SUSPEND, LASTERR
from checks_api import CONFIGS, same_rt
from checks_wait import Wake2, waits

ASYNC, INLINE, ENABLE, DISABLE = 1, 2, 3, 4


def configs(ck):
    return [()] + (CONFIGS if ck.tier == 'thorough' else [])


def put(r, st, base, struct, member, v):
    m = r.eng.model
    r.eng.note_stype(base, 'struct.' + struct)
    a = m.field(base, struct, member)
    st.mem[(rest(a), a.c)] = (v, r.mod.fsize(struct, member))


def valid(r, st, obj, struct):
    """obj is an object of this runtime"""
    m = r.eng.model
    st.assume(mk_eq(obj), False)
    r.eng.note_stype(obj, 'struct.' + struct)
    T.restrict(st.facts, m.get(st, RT, 'runtime', 'id'), 1, None)      # C20: the identities of runtimes begin with 1
    T.restrict(st.facts, m.get(st, obj, struct, 'rtid'), 1, None)
    st.assume(mk_eq(sub(m.get(st, obj, struct, 'rtid'), m.get(st, RT, 'runtime', 'id'))), True)


def queue_state(r, st, q, empty):
    m = r.eng.model
    tail = add(q, const(m.o_tail))
    k = add(q, const(m.o_next))
    if empty:
        st.mem[(rest(k), k.c)] = (tail, 8)
    else:
        v = r.eng.fresh(st, ('first',), lo=4096, what='first')
        st.mem[(rest(k), k.c)] = (v, 8)
        st.assume(mk_eq(sub(v, tail)), False)
        r.eng.note_stype(v, 'struct.coroutine')


def is_empty(m, st, q):
    """True, False or None (not known)"""
    k = add(q, const(m.o_next))
    c = st.mem.get((rest(k), k.c))
    if c is None:
        return None
    t = add(q, const(m.o_tail))
    if st.eq(c[0], t):
        return True
    if st.ne(c[0], t):
        return False
    return None


# ---------------------------------------------------------------- channels
# the consistent states of a channel: who waits, what is buffered, closed
def chan_states():
    for cap in (0, 1):
        for q in ('empty', 'receivers', 'senders'):
            for cl in ('open', 'draining', 'closed'):
                if cl == 'draining' and (q == 'receivers' or (q == 'empty' and cap == 0)):
                    continue
                if cl == 'closed' and (q != 'empty'):
                    continue
                yield cap, q, cl


def chan_state(r, st, ch, cap, q, cl):
    m = r.eng.model
    valid(r, st, ch, 'neco_chan')
    r.eng.note_stype(ch, 'struct.neco_chan')
    cp = m.get(st, ch, 'neco_chan', 'bufcap')
    st.assume(mk_eq(cp), cap == 0)
    if cap:
        T.restrict(st.facts, cp, 1, None)
    z = ZERO
    if cap == 0:
        put(r, st, ch, 'neco_chan', 'buflen', z)
        put(r, st, ch, 'neco_chan', 'bufpos', z)
    else:
        bp = r.eng.fresh(st, ('bufpos',), lo=0, what='bufpos')
        T.restrict(st.facts, sub(bp, cp), None, -1)
        put(r, st, ch, 'neco_chan', 'bufpos', bp)
        if q == 'receivers' or cl == 'closed':
            bl = z
        elif q == 'senders':
            bl = cp
        else:
            bl = r.eng.fresh(st, ('buflen',), lo=1 if cl == 'draining' else 0, what='buflen')
            T.restrict(st.facts, sub(bl, cp), None, 0)
        put(r, st, ch, 'neco_chan', 'buflen', bl)
    queue_state(r, st, m.field(ch, 'neco_chan', 'queue'), q == 'empty')
    if q != 'empty':
        put(r, st, ch, 'neco_chan', 'qrecv', const(int(q == 'receivers')))
    put(r, st, ch, 'neco_chan', 'sclosed', const(int(cl != 'open')))
    put(r, st, ch, 'neco_chan', 'rclosed', const(int(cl == 'closed')))


def chan_setup(cap, q, cl, canceled=0):
    def su(r, st):
        m = r.eng.model
        chan_state(r, st, r.args[0], cap, q, cl)
        m.setself(st, 'canceled', const(canceled))
        m.setself(st, 'canceltype', const(INLINE))
        if len(r.args) > 1 and r.f.params[1][0].k == 'ptr':
            st.assume(mk_eq(r.args[1]), False)
    return su


class Chan(Monitor):
    """what one channel operation does before other coroutines run, and its result"""

    def __init__(self, rules):
        self.rules = rules
        self.copies = 0
        self.served = 0
        self.nothing = 0

    def R(self, st, rule, msg, ins=None):
        if rule in self.rules or rule == 'select' and self.op == 'close' and 'closed' in self.rules:
            self.eng.report(st, rule, 'with %s: %s' % (self.label, msg), ins)

    def attach(self, eng):
        self.eng = eng
        old = eng.binop

        def binop(st, op, a, b, w, site):
            if op == 'mul' and w == 32 and a.m and b.m:
                x, y = st.bounds(a), st.bounds(b)
                if None in x[:2] or None in y[:2] or max(abs(p * q) for p in x[:2] for q in y[:2]) >= 1 << 31:
                    self.R(st, 'message', 'the place of a message is computed by a multiplication that may overflow')
            return old(st, op, a, b, w, site)
        eng.binop = binop

    def start(self, r, st):
        self.r = r
        m = self.m = r.eng.model
        self.ch = r.args[0]
        self.data = r.args[1] if len(r.args) > 1 else None
        cap, q, cl = r.entry.info
        self.q, self.cl = q, cl
        self.label = '%s buffer, %s queue%s' % ('a' if cap else 'no', q if q == 'empty' else q[:-1],
                                              '' if cl == 'open' else ', ' + cl)
        self.queue = m.field(self.ch, 'neco_chan', 'queue')
        self.ms = self.get(st, 'msgsize')
        self.cap = self.get(st, 'bufcap')
        self.B0 = self.get(st, 'buflen')
        self.P0 = self.get(st, 'bufpos')
        st.g['dB'] = ZERO
        st.g['nw'] = ZERO
        fn = r.entry.func
        self.op = 'send' if 'send' in fn or 'gen_yield' in fn else 'broadcast' if 'broadcast' in fn else \
            'close' if 'close' in fn else 'recv'
        self.tryop = 'try' in fn
        if self.op == 'send' and isinstance(m, ChanModel):
            m.sender = (self.ch, self.cap)

    def get(self, st, member):
        return self.m.get(st, self.ch, 'neco_chan', member)

    # -- classification of copies
    def slot(self, st, a):
        """index expression when the address is that of a slot of the ring"""
        d = sub(a, self.m.field(self.ch, 'neco_chan', 'data'))
        if self.ch.m[0][0] in {x for x, _ in d.m}:
            return None
        if not d.m:
            return ZERO if d.c == 0 else None
        v = st.val(self.ms)
        if v is not None:
            return None
        if d.c == 0 and len(d.m) == 1 and d.m[0][1] == 1:
            at = d.m[0][0]
            if of(at) is self.ms:
                return ONE
            if at.kind == 'mul':
                x, y = at.a
                if x is self.ms:
                    return y
                if y is self.ms:
                    return x
        if d.m and all(False for _ in ()):
            pass
        q, rem = None, None
        if d.c == 0 and len(d.m) == 1 and of(d.m[0][0]) is self.ms:
            return const(d.m[0][1])
        return None

    def in_chan(self, a):
        return any(x is self.ch.m[0][0] for x, _ in a.m)

    def is_mod(self, st, idx, x):
        """idx == x mod cap, and inside of the ring"""
        if st.eq(idx, x):
            return st.le(add(x, ONE), self.cap)
        y = sub(x, self.cap)
        if st.eq(idx, y):
            return st.le(self.cap, x)
        if len(idx.m) == 1 and idx.c == 0 and idx.m[0][1] == 1 and idx.m[0][0].kind in ('srem', 'urem'):
            a = idx.m[0][0].a
            if not st.eq(a[1], self.cap):
                return False
            b = a[0]
            for t, k in a[0].m:
                if k == 1 and t.kind in ('srem', 'urem') and st.eq(t.a[1], self.cap):
                    b = add(sub(b, of(t)), t.a[0])
            return st.eq(b, x) or st.eq(sub(x, self.cap), b)
        return False

    def elem(self, st):
        return st.g.get('el')

    def elem_buf(self, st):
        """where the message of the dequeued waiter is"""
        e = st.g.get('el')
        if e is None:
            return []
        r = []
        mod = self.eng.mod
        if self.m.is_case(st, rest(e)):
            r.append(of(atom('fld', rest(e), mod.off('coselectcase', 'data'), 'data')))
        else:
            r.append(self.m.get(st, e, 'coroutine', 'cmsg'))
        return r

    def is_elem_buf(self, st, a):
        return any(st.eq(a, b) for b in self.elem_buf(st))

    def on_copy(self, st, kind, dst, src, n, ins):
        if kind == 'memset':
            if dst is self.data:
                st.g['zeroed'] = 1
                if not st.eq(n, self.ms) or st.val(src) != 0:
                    self.R(st, 'message', 'the output is not cleared exactly', ins)
            elif self.in_chan(dst):
                self.R(st, 'message', 'the channel is overwritten', ins)
            return
        di, si = self.in_chan(dst), self.in_chan(src)
        td, ts = dst is self.data, src is self.data
        if not (di or si or td or ts or self.is_elem_buf(st, dst) or self.is_elem_buf(st, src)):
            if self.elem(st) is not None or kind != 'memset' and not is_local(self.eng, st, dst):
                self.R(st, 'message', 'copies between places that are neither the message, its destination nor the '
                       'buffer', ins)
            return
        self.copies += 1
        if not st.eq(n, self.ms):
            self.R(st, 'message', 'copies another number of bytes than the message has', ins)
        if self.committed(st):
            self.R(st, 'message', 'a message is copied after others could run', ins)
        P, B = self.get(st, 'bufpos'), self.get(st, 'buflen')
        if di:
            i = self.slot(st, dst)
            # position after the pushes and pops so far
            if i is None or not self.is_mod(st, i, add(self.P0, add(self.B0, st.g.get('np_', ZERO)))):
                self.R(st, 'message', 'a message is put into a slot that is not the next one behind those in the buffer',
                       ins)
            if self.op == 'send' and not ts or self.op == 'recv' and not self.is_elem_buf(st, src):
                self.R(st, 'message', 'what is put into the buffer is not the message', ins)
            st.g['np_'] = add(st.g.get('np_', ZERO), ONE)
            if self.op == 'recv':
                st.g['got'] = 1
        elif si:
            i = self.slot(st, src)
            if i is None or not st.eq(i, self.P0) or 'nq_' in st.g:
                self.R(st, 'message', 'a message is taken from a slot that is not the first one', ins)
            if not td:
                self.R(st, 'message', 'a message is taken from the buffer but not delivered', ins)
            st.g['nq_'] = ONE
        elif self.op in ('send', 'broadcast'):
            if not ts or not self.is_elem_buf(st, dst):
                self.R(st, 'message', 'the message is not copied to where the receiver waits for it', ins)
            st.g['got'] = 1
        elif self.op == 'recv':
            if not td or not self.is_elem_buf(st, src):
                self.R(st, 'message', 'the message is not copied from the waiting sender', ins)
            if 'nq_' in st.g:
                self.R(st, 'message', 'two messages are received', ins)
            st.g['got'] = 1
            st.g['direct'] = 1
        else:
            self.R(st, 'message', 'closing copies a message', ins)

    def committed(self, st):
        return st.g.get('com')

    # -- the queue
    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and args[0] is self.queue and st.nonzero(ret):
            if self.committed(st):
                self.R(st, 'queue', 'a waiter is taken from the queue after others could run', ins)
            if 'el' in st.g:
                self.left(st, ins)
            st.g['el'] = ret
            st.g['popped'] = 1
            st.g.pop('got', None)
            st.g.pop('told', None)
            st.g.pop('okset', None)
            if self.q == 'senders' and self.op in ('send', 'broadcast', 'close'):
                self.R(st, 'queue', 'a waiting sender is taken from the queue', ins)
            if self.op == 'recv' and self.q == 'receivers':
                self.R(st, 'queue', 'a waiting receiver is taken from the queue', ins)
            if self.op == 'recv':
                self.m.eng.note_stype(ret, 'struct.coroutine')
                st.assume(mk_eq(sub(self.m.get(st, ret, 'coroutine', 'kind'),
                                    const(self.eng.mod.enums.get('SELECTCASE', 2)))), False)

    def done_case(self, st, e):
        """the case of a select that was completed by another case"""
        p = of(atom('fld', rest(e), self.eng.mod.off('coselectcase', 'ret_idx'), 'ret_idx'))
        c = st.mem.get((p, 0))
        return c is not None and st.ne(c[0], const(-1)) and not st.g.get('told')

    def left(self, st, ins):
        """the dequeued waiter is given up without being scheduled"""
        e = st.g.pop('el')
        if st.g.get('got') and self.done_case(st, e):
            self.R(st, 'select', 'a message is delivered to a select that was already completed', ins)

    def on_branch(self, st, cond, truth, ins):
        e = st.g.get('el')
        if e is not None and not st.g.get('told') and self.m.is_case(st, rest(e)) and self.done_case(st, e):
            self.left(st, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        e = st.g.get('el')
        if e is not None:
            f = self.eng.mod.off
            if len(addr.m) == 1 and addr.m[0][0].kind == 'fld' and addr.m[0][0].a[0] is rest(e):
                what = addr.m[0][0].a[2]
                if what == 'ret_idx':
                    idx = of(atom('fld', rest(e), f('coselectcase', 'idx'), 'idx'))
                    o = None if old is None else st.val(old)
                    if not self.is_case_idx(val, e):
                        self.R(st, 'select', 'the select is told another case than the one completed', ins)
                    if o != -1:
                        self.R(st, 'select', 'a select is completed that may already have been completed', ins)
                    st.g['told'] = 1
                elif what == 'ok':
                    v = st.val(val)
                    want = 0 if self.op == 'close' else 1
                    if v != want:
                        self.R(st, 'select', 'the select is told %s, expected %d' % (v, want), ins)
                    st.g['okset'] = 1
        if tag and tag[0] == 'neco_chan' and self.ch.m[0][0] in addr.deps and addr.m == self.ch.m:
            mem = tag[1]
            if self.committed(st):
                if mem in ('buflen', 'bufpos', 'sclosed', 'rclosed', 'qrecv', 'rc') and not (
                        mem == 'rclosed' and 'lv' in st.g):
                    self.R(st, 'queue', 'the channel is changed (%s) after others could run' % mem, ins)
            if mem not in ('buflen', 'bufpos', 'sclosed', 'rclosed', 'qrecv') and not mem.startswith('queue'):
                self.R(st, 'queue', 'an operation changes %s of the channel' % mem, ins)

    def is_case_idx(self, val, e):
        return len(val.m) == 1 and val.c == 0 and val.m[0][0].kind == 'fld' and val.m[0][0].a[0] is rest(e) and \
            val.m[0][0].a[2] == 'idx'

    def target(self, st, e):
        if self.m.is_case(st, rest(e)):
            return of(atom('fld', rest(e), self.eng.mod.off('coselectcase', 'co'), 'co'))
        return e

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back':
            if args[0] is self.queue:
                if args[1] is not SELF:
                    self.R(st, 'queue', 'something else than the running coroutine enters the queue', ins)
                elif self.op in ('broadcast', 'close'):
                    self.R(st, 'queue', 'a %s enters the queue' % self.op, ins)
                else:
                    st.g['self'] = 1
                    if self.committed(st):
                        self.R(st, 'queue', 'the coroutine enters the queue after others could run', ins)
            else:
                t = self.m.listtag(args[0])
                if t == ('runtime', 'resumers'):
                    self.wake(st, args[1], ins)
        elif name == 'sco_resume' and st.nonzero(args[0]):
            i = args[0]
            co = i.m[0][0].a[0] if len(i.m) == 1 and i.m[0][0].kind == 'idof' else None
            if co is not None:
                self.wake(st, co, ins)

    def wake(self, st, co, ins):
        e = st.g.get('el')
        if e is None or not st.eq(co, self.target(st, e)):
            return              # C11 reports it
        st.g.pop('el')
        self.served += 1
        case = self.m.is_case(st, rest(e))
        if self.op == 'close':
            if not case and st.val(self.m.get(st, co, 'coroutine', 'cclosed')) != 1:
                self.R(st, 'closed', 'a receiver is woken by the close but not told that the channel is closed', ins)
        else:
            if st.val(self.ms) != 0 and not st.g.get('got'):
                self.R(st, 'message', 'a waiter is woken without its message having been copied', ins)
            if self.op != 'recv' and not case and st.val(self.m.get(st, co, 'coroutine', 'cclosed')) == 1:
                self.R(st, 'closed', 'a receiver is told that the channel is closed', ins)
        if case and (not st.g.get('told') or not st.g.get('okset')):
            self.R(st, 'select', 'a select is woken without being told which case was completed and how', ins)
        st.g['nw'] = add(st.g['nw'], ONE)
        for k in ('got', 'told', 'okset'):
            st.g.pop(k, None)
        if self.op == 'recv':
            st.g['served'] = 1

    # -- the commit point
    def on_suspend(self, st, kind, args, ins):
        if not self.committed(st):
            self.commit(st, ins, kind)
            st.g['com'] = 1

    def val(self, st, member):
        return st.val(self.get(st, member))

    def commit(self, st, ins, kind):
        """the state of the channel when others can run for the first time (or at the return)"""
        m = self.m
        g = st.g
        B, P = self.get(st, 'buflen'), self.get(st, 'bufpos')
        emp = is_empty(m, st, self.queue)
        S, Rc = self.val(st, 'sclosed'), self.val(st, 'rclosed')
        ret = kind == 'return'
        lost = st.g.get('popped') and 'el' in g
        np_, nq_ = g.get('np_', ZERO), g.get('nq_', ZERO)
        touched = not st.eq(B, self.B0) or not st.eq(P, self.P0) or g.get('popped') or g.get('self')
        if self.cl == 'closed' or self.cl == 'draining' and self.op != 'recv':
            # refused
            if touched or np_ is not ZERO or S != 1 or Rc != int(self.cl == 'closed') or not ret:
                self.R(st, 'closed', 'an operation on a closed channel has an effect', ins)
            return
        if lost:
            self.R(st, 'queue', 'a waiter was taken from the queue and is not served', ins)
        # what happened to the buffer: by cells, so it also holds for messages without bytes
        dB = sub(B, self.B0)
        moved = None
        if st.eq(P, self.P0):
            moved = 0
        elif self.is_mod(st, P, add(self.P0, ONE)):
            moved = 1
        if moved is None:
            self.R(st, 'message', 'the front of the buffer moves otherwise than by one', ins)
            moved = 0
        d = st.val(dB)
        if not (st.le(B, self.cap) and st.le(ZERO, B)):
            self.R(st, 'capacity', 'the buffer may hold more than its capacity, or less than nothing', ins)
        zero = st.val(self.ms) == 0
        if not zero:
            if not st.eq(np_, add(dB, const(moved))) or not st.eq(nq_, const(moved)):
                self.R(st, 'message', 'the number of messages in the buffer does not agree with those put into and '
                       'taken from it', ins)
        if self.op == 'close':
            keeps = self.q == 'senders' or st.le(ONE, self.B0)
            if S != 1:
                self.R(st, 'closed', 'the channel is not closed when others can run', ins)
            if d != 0 or moved:
                self.R(st, 'closed', 'a close changes the buffer', ins)
            if keeps:
                if Rc != 0 or g.get('popped'):
                    self.R(st, 'closed', 'a close discards messages that were sent before', ins)
                if self.q == 'senders' and emp is not False:
                    self.R(st, 'closed', 'a close removes waiting senders', ins)
            else:
                if Rc != 1:
                    self.R(st, 'closed', 'a close without messages does not close the channel for receivers', ins)
                if emp is not True:
                    self.R(st, 'closed', 'receivers may still wait after the channel was closed', ins)
            return
        if S != int(self.cl == 'draining'):
            self.R(st, 'closed', 'a %s changes whether the channel is closed' % self.op, ins)
        if self.op in ('send', 'broadcast'):
            if Rc != 0:
                self.R(st, 'closed', 'a %s closes the channel' % self.op, ins)
            if moved:
                self.R(st, 'message', 'a %s takes a message from the buffer' % self.op, ins)
        if self.op == 'broadcast':
            if d != 0 or g.get('self'):
                self.R(st, 'message', 'a broadcast keeps the message', ins)
            if self.q == 'receivers' and emp is not True and self.val(st, 'qrecv') != 0:
                self.R(st, 'queue', 'a broadcast ends while receivers may still wait', ins)
            return
        if self.op == 'send':
            w = st.val(st.g['nw'])
            kinds = [k for k, x in (('handed over', w == 1), ('buffered', d == 1), ('waits', g.get('self'))) if x]
            if len(kinds) != 1 or w not in (0, 1) or d not in (0, 1):
                self.R(st, 'message', 'a message is not disposed of exactly once (%s)' % (' and '.join(kinds) or
                                                                                     'not at all'), ins)
            elif kinds[0] == 'buffered' and not (self.q == 'empty' or self.q == 'receivers' and emp):
                self.R(st, 'message', 'a message is buffered although somebody waits', ins)
            elif kinds[0] == 'waits':
                if not st.eq(B, self.cap):
                    self.R(st, 'queue', 'a sender waits although the buffer has room', ins)
                if self.q == 'receivers' and not g.get('popped'):
                    self.R(st, 'queue', 'a sender waits although a receiver waits', ins)
                if self.val(st, 'qrecv') != 0:
                    self.R(st, 'queue', 'a sender waits in a queue that is marked as one of receivers', ins)
                if kind != 'sco_pause':
                    self.R(st, 'queue', 'a sender enters the queue and does not wait', ins)
                if not st.eq(m.get(st, SELF, 'coroutine', 'cmsg'), self.data):
                    self.R(st, 'message', 'a sender waits without offering its message', ins)
            return
        # receive
        took = moved or g.get('direct') or (zero and g.get('served'))
        if g.get('self'):
            if kind != 'sco_pause' or self.tryop:
                self.R(st, 'queue', 'a receiver enters the queue and does not wait', ins)
            if self.q == 'senders' or not st.eq(self.B0, ZERO):
                self.R(st, 'queue', 'a receiver waits although there is a message', ins)
            if self.val(st, 'qrecv') != 1:
                self.R(st, 'queue', 'a receiver waits in a queue that is marked as one of senders', ins)
            if not st.eq(m.get(st, SELF, 'coroutine', 'cmsg'), self.data):
                self.R(st, 'message', 'a receiver waits without offering its buffer', ins)
            if st.val(m.get(st, SELF, 'coroutine', 'cclosed')) != 0:
                self.R(st, 'closed', 'a receiver waits and may already be told that the channel is closed', ins)
            if d != 0 or Rc != 0:
                self.R(st, 'message', 'a receiver that waits changes the channel', ins)
            return
        if st.le(ONE, self.B0):
            if not moved:
                self.R(st, 'message', 'a receive does not take the first message of the buffer', ins)
            if self.q == 'senders' and d != 0:
                self.R(st, 'queue', 'a receive makes room and does not let the first waiting sender fill it', ins)
            if self.q == 'empty' and d != -1:
                self.R(st, 'message', 'a receive takes %s messages' % (None if d is None else -d), ins)
        elif self.q == 'senders':
            if not took or d != 0:
                self.R(st, 'message', 'a receive does not take the message of the first waiting sender', ins)
        else:
            if took or d != 0:
                self.R(st, 'message', 'a receive takes a message where there is none', ins)
            if not self.tryop or not ret:
                self.R(st, 'queue', 'a receive neither takes a message nor waits', ins)
            g['none'] = 1
            if Rc != 0:
                self.R(st, 'closed', 'a receive closes the channel', ins)
            return
        # drained?
        b = st.val(mk_eq(B))
        if self.cl == 'open':
            if Rc != 0:
                self.R(st, 'closed', 'a receive closes an open channel', ins)
        elif Rc == 1:
            if emp is not True or not st.eq(B, ZERO):
                self.R(st, 'closed', 'the channel is closed for receivers before all messages were received', ins)
        elif emp is not False and not st.le(ONE, B):
            self.R(st, 'closed', 'the last message of a closed channel was received, but the channel is not closed for '
                   'receivers', ins)

    def finish(self, r):
        C = codes()
        n = 0
        for st, ret in r.rets:
            n += 1
            if not self.committed(st):
                self.commit(st, None, 'return')
            L = lasterr(r, st)
            v = st.val(ret)
            if self.cl == 'closed' or self.cl == 'draining' and self.op != 'recv':
                if v != C['NECO_CLOSED']:
                    self.R(st, 'closed', 'returns %s, expected closed' % v)
                continue
            why = st.g.get('why')
            if self.op == 'broadcast':
                if not st.eq(ret, st.g['nw']):
                    self.R(st, 'message', 'a broadcast does not return how many receivers got the message')
            elif self.op == 'close':
                if v != 0:
                    self.R(st, 'closed', 'closing an open channel returns %s' % v)
            elif 'self' in st.g:
                # a wait
                if why is None:
                    self.R(st, 'queue', 'returns without having waited')
                elif self.op == 'recv' and 'g' in why:
                    told = r.eng.model.selfval(st, 'cclosed')
                    was = st.g.get('clo')
                    cl = v == C['NECO_CLOSED']
                    if was is None or v not in (0, C['NECO_CLOSED']) or (was == 1) != cl:
                        self.R(st, 'closed', 'a receive that was told %s returns %s' % (
                            {1: 'that the channel is closed', 0: 'that it has its message'}.get(was, 'nothing'), v))
                    if cl and st.val(self.ms) != 0 and not st.g.get('zeroed'):
                        self.R(st, 'closed', 'a receive that was woken by the close leaves the output as it is')
                    if not cl and st.g.get('zeroed'):
                        self.R(st, 'message', 'a received message is cleared')
                elif self.op == 'send' and 'g' in why and v != 0:
                    self.R(st, 'message', 'a message was taken, but the send returns %s' % v)
                elif 'lv' in st.g:
                    cl, alone = st.g['lv']
                    S, Rc = self.val(st, 'sclosed'), self.val(st, 'rclosed')
                    zero = st.eq(self.cap, ZERO)
                    if S != cl or not st.eq(self.get(st, 'buflen'), self.cap):
                        self.R(st, 'closed', 'a sender that gives up changes the channel')
                    if cl and alone and zero:
                        if Rc != 1:
                            self.R(st, 'closed', 'the last sender of a closed channel gives up, and the channel is not '
                                   'closed for receivers')
                    elif Rc != 0:
                        self.R(st, 'closed', 'a sender that gives up closes a channel that %s' % (
                            'has messages' if cl else 'is open'))
            elif 'none' in st.g:
                if v != C['NECO_EMPTY']:
                    self.R(st, 'queue', 'returns %s, expected empty' % v)
            elif v != 0:
                self.R(st, 'message', 'returns %s although it is done' % v)
        return (n, self.copies, self.served)

    def on_load(self, st, tag, addr, val, ins):
        if tag == ('coroutine', 'cclosed') and st.g.get('com') and addr is add(
                SELF, const(self.eng.mod.off('coroutine', 'cclosed'))):
            pass


class ChanWake(Chan):
    """also splits on what a woken receiver was told"""


CHAN_OPS = ('neco_chan_send', 'neco_chan_send_dl', 'neco_chan_broadcast', 'neco_chan_recv', 'neco_chan_recv_dl',
            'neco_chan_tryrecv', 'neco_chan_close', 'neco_gen_next_dl', 'neco_gen_close')


def chan_table(ck, rules):
    es = []
    for d in configs(ck):
        for fn in CHAN_OPS:
            for s in chan_states():
                es.append(Entry(fn, label='%s[%s]' % (fn, ','.join(map(str, s))), setup=chan_setup(*s), info=s, defs=d,
                                model={'fork': True, 'cls': ChanModel, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [Chan(rules)], lambda r, m: m[0].finish(r)):
        ck.count('operations in a state', 1)
        ck.count('outcomes', n[0])
        ck.count('message copies', n[1])
        ck.count('waiters served', n[2])
    ck.need('operations in a state', 70)
    ck.need('message copies', 30)
    ck.need('waiters served', 20)


class ChanModel(Model):
    def pause(self, st, ins):
        out = []
        for s in Model.pause(self, st, ins):
            if 'g' in s.g['why']:
                for v in (0, 1):
                    t = s.copy()
                    self.setself(t, 'cclosed', const(v))
                    t.g['clo'] = v
                    out.append(t)
            elif getattr(self, 'sender', None) is not None:
                # meanwhile the channel may have been closed, and others may wait as well
                ch, cap = self.sender
                for cl in (0, 1):
                    for alone in (0, 1):
                        t = s.copy()
                        t.g['lv'] = (cl, alone)
                        for mem, v in (('sclosed', const(cl)), ('rclosed', ZERO), ('buflen', cap), ('qrecv', ZERO)):
                            a = self.field(ch, 'neco_chan', mem)
                            t.mem[(rest(a), a.c)] = (v, self.mod.fsize('neco_chan', mem))
                        self.queue(t, False)
                        out.append(t)
            else:
                out.append(s)
        return out

    def queue(self, st, empty):
        q = self.field(self.sender[0], 'neco_chan', 'queue')
        tail, k = add(q, const(self.o_tail)), add(q, const(self.o_next))
        v = tail
        if not empty:
            v = self.eng.fresh(st, ('first',), lo=4096, what='first')
            st.assume(mk_eq(sub(v, tail)), False)
            self.eng.note_stype(v, 'struct.coroutine')
        st.mem[(rest(k), k.c)] = (v, 8)

    def list_call(self, st, name, args, ins):
        res = Model.list_call(self, st, name, args, ins)
        if name == 'remove_from_list' and args[0] is SELF and 'lv' in st.g:
            for s, v in res:
                self.queue(s, bool(s.g['lv'][1]))
        return res


# ---------------------------------------------------------------- C15
class Select(Monitor):
    """a select over n channels, n fixed"""

    def __init__(self, states):
        self.states = states
        self.n = len(states)
        self.waits = 0
        self.taken = 0

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        self.tryop = 'try' in r.entry.func
        st.g['ch'] = ()

    def R(self, st, msg, ins=None):
        self.eng.report(st, 'select', 'a select over channels (%s): %s' % (', '.join(self.states), msg), ins)

    # which channel is case i: told by the stores into the cases
    def off(self, f):
        return self.eng.mod.off('coselectcase', f)

    def cell(self, st, case, f):
        k = add(case, const(self.off(f)))
        c = st.mem.get((rest(k), k.c))
        return None if c is None else c[0]

    def on_load(self, st, tag, addr, val, ins):
        pass

    def cases(self, st):
        """the address of the first case, from the pushes"""
        return st.g.get('case0')

    def ready(self, st, i):
        return self.states[i] in SEL_READY

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back':
            q, c = args
            t = self.m.listtag(q)
            if t != ('neco_chan', 'queue'):
                return
            ch = sub(q, const(self.eng.mod.off('neco_chan', 'queue')))
            if c is SELF:
                self.R(st, 'waits on one channel only', ins)
                return
            if self.tryop:
                self.R(st, 'a try registers itself', ins)
            v = self.cell(st, c, 'chan')
            if v is None or not st.eq(v, ch):
                self.R(st, 'a case is queued in another channel than its own', ins)
            pushed = st.g.get('pu', ())
            if not pushed:
                for i in range(self.n):
                    if self.ready(st, i):
                        self.R(st, 'starts to wait although the channel of case %d is ready' % i, ins)
            if self.enum(st, c) is None:
                self.R(st, 'a case is not set up completely before it is queued', ins)
            st.g['pu'] = pushed + (self.enum(st, c),)
        elif name == 'colist_pop_front' and self.m.listtag(args[0]) == ('neco_chan', 'queue'):
            self.touch(st, sub(args[0], const(self.eng.mod.off('neco_chan', 'queue'))), ins)

    def chans(self, st):
        out = []
        for i in range(self.n):
            out.append(self.chan(st, i))
        return out

    def chan(self, st, i):
        return self.eng.load(st, add(self.r.args[1], const(8 * i)), 8, None)

    def enum(self, st, c):
        """index of the case when it is set up completely, else None"""
        K = self.eng.mod.enums.get('SELECTCASE')
        idx = self.cell(st, c, 'idx')
        ri = self.cell(st, c, 'ret_idx')
        co = self.cell(st, c, 'co')
        kd = self.cell(st, c, 'kind')
        ok = self.cell(st, c, 'ok')
        da = self.cell(st, c, 'data')
        ch = self.cell(st, c, 'chan')
        if None in (idx, ri, co, kd, ok, da, ch) or st.val(idx) is None:
            return None
        rv = st.mem.get((rest(ri), ri.c))
        m = self.m
        if st.val(kd) != K or co is not SELF or rv is None or st.val(rv[0]) != -1:
            return None
        if not st.eq(ok, m.field(ch, 'neco_chan', 'lok')) or not self.isslot(st, ch, da):
            return None
        i = st.val(idx)
        if not 0 <= i < self.n or not st.eq(ch, self.chan(st, i)):
            return None
        return i

    def isslot(self, st, ch, a):
        """the slot behind the ring"""
        m = self.m
        d = sub(a, m.field(ch, 'neco_chan', 'data'))
        ms = m.get(st, ch, 'neco_chan', 'msgsize')
        cap = m.get(st, ch, 'neco_chan', 'bufcap')
        return d is self.eng.binop(st, 'mul', ms, cap, 64, 0)

    def touch(self, st, ch, ins):
        for i in range(self.n):
            if ch is self.chan(st, i):
                break
        else:
            self.R(st, 'takes from a channel that is not one of its cases', ins)
            return
        t = st.g.get('to', ())
        if ch not in t:
            st.g['to'] = t + (ch,)
        if st.g.get('pu'):
            self.R(st, 'takes a message after it has begun to wait', ins)

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] == 'neco_chan':
            ch = sub(addr, const(self.eng.mod.off('neco_chan', tag[1].split('.')[0]))) if '.' not in tag[1] else None
            if tag[1] in ('buflen', 'bufpos', 'rclosed', 'sclosed'):
                self.touch(st, ch, ins)
            if tag[1] == 'qrecv':
                st.g['qs'] = tuple(x for x in st.g.get('qs', ()) if x[0] is not ch) + ((ch, st.val(val)),)
            if tag[1] == 'lok':
                if 'lok' in st.g:
                    self.R(st, 'the outcome is told twice', ins)
                st.g['lok'] = (ch, st.val(val))
        self.inside(st, addr, ONE, ins)

    def inside(self, st, addr, n, ins):
        if len(addr.m) == 1 and addr.m[0][1] == 1:
            z = self.eng.objsize.get(addr.m[0][0])
            if z is not None and not st.le(add(const(addr.c), n), z):
                self.R(st, 'a case is put beyond the memory for the cases', ins)

    def on_copy(self, st, kind, dst, src, n, ins):
        self.inside(st, dst, n, ins)
        if kind == 'memset':
            return
        for i in range(self.n):
            ch = self.chan(st, i)
            if any(a is ch.m[0][0] for a, _ in dst.m):
                if not self.isslot(st, ch, dst):
                    # refill of the ring by a waiting sender
                    if 'cp' not in st.g:
                        self.R(st, 'the message does not go to the place of the case', ins)
                elif 'cp' in st.g:
                    self.R(st, 'two messages are received', ins)
                else:
                    st.g['cp'] = (ch,)
                    self.taken += 1

    def on_suspend(self, st, kind, args, ins):
        if kind == 'sco_pause':
            self.waits += 1
            pu = sorted(x for x in st.g.get('pu', ()) if x is not None)
            if pu != list(range(self.n)):
                self.R(st, 'waits without being queued in the channel of each case (queued: %s)' % pu, ins)
            if st.g.get('to'):
                self.R(st, 'waits after it has taken a message', ins)
            for i in range(self.n):
                if dict(st.g.get('qs', ())).get(self.chan(st, i), int(self.states[i] == 'receivers wait')) != 1:
                    self.R(st, 'waits in a queue that is not marked as one of receivers', ins)
            st.g['qset'] = 1

    def finish(self, r):
        C = codes()
        for st, ret in r.rets:
            v = st.val(ret)
            L = lasterr(r, st)
            why = st.g.get('why')
            to = st.g.get('to', ())
            if why is not None:
                if 'g' in why:
                    # the index that the waker stored
                    rv = st.g.get('S')
                    if v is not None or not (len(ret.m) == 1 and ret.m[0][0].a[2][0] == 'selidx'):
                        self.R(st, 'was completed by another coroutine, but does not return the case it was told')
                elif v is None or v >= 0:
                    self.R(st, 'was not completed, but returns a case')
                continue
            if v is None:
                self.R(st, 'returns an undetermined case')
            elif v >= 0:
                if v >= self.n:
                    self.R(st, 'returns case %d' % v)
                    continue
                ch = self.chan(st, v)
                if any(t is not ch for t in to):
                    self.R(st, 'returns case %d but takes from another channel' % v)
                lok = st.g.get('lok')
                if lok is None or lok[0] is not ch:
                    self.R(st, 'returns case %d without telling its outcome' % v)
                elif lok[1] != (1 if to else 0):
                    self.R(st, 'returns case %d and tells outcome %s, but it %s' % (
                        v, lok[1], 'received' if to else 'did not receive'))
                cp = st.g.get('cp')
                if to and cp is None and st.val(self.m.get(st, ch, 'neco_chan', 'msgsize')) != 0:
                    self.R(st, 'receives without copying the message')
            else:
                if to:
                    self.R(st, 'returns %d although it took a message' % v)
                if v == C['NECO_EMPTY']:
                    for i in range(self.n):
                        if self.ready(st, i):
                            self.R(st, 'reports empty although case %d is ready' % i)
        return (len(r.rets), self.waits, self.taken)


class SelSlot(Select):
    """only where the message goes"""

    def R(self, st, msg, ins=None):
        if 'the place of the case' in msg or 'not set up completely' in msg:
            Select.R(self, st, msg, ins)


# what a channel of a select may look like: buffer, queue, closed
SEL_STATES = {'idle': (0, 'empty', 'open'), 'idle, buffered': (1, 'empty', 'open'), 'receivers wait': (0, 'receivers', 'open'),
              'message': (1, 'empty', 'draining'), 'message, open': (1, 'empty', 'open'),
              'senders wait': (0, 'senders', 'open'), 'full, senders wait': (1, 'senders', 'open'),
              'last sender, closed': (0, 'senders', 'draining'), 'closed': (0, 'empty', 'closed')}
SEL_READY = ('message', 'message, open', 'senders wait', 'full, senders wait', 'last sender, closed', 'closed')


def sel_setup(states):
    n = len(states)

    def su(r, st):
        m = r.eng.model
        st.assume(mk_eq(r.args[1]), False)
        r.args[0] = const(n)
        for i, s in enumerate(states):
            c = r.eng.fresh(st, ('chan', i), lo=4096, what='chan%d' % i)
            st.mem[(r.args[1], 8 * i)] = (c, 8)
            chan_state(r, st, c, *SEL_STATES[s])
            B = m.get(st, c, 'neco_chan', 'buflen')
            if s == 'idle, buffered':
                put(r, st, c, 'neco_chan', 'buflen', ZERO)
            elif s == 'message, open':
                T.restrict(st.facts, B, 1, None)
            # in no queue, it does not matter what the queue was used for
        m.setself(st, 'canceled', ZERO)
        m.setself(st, 'canceltype', const(INLINE))
    return su


class SelModel(Model):
    def keep_cell(self, st, key):
        # the array of channels is the caller's
        if key[0].m and key[0].m[0][0].kind == 'p' and key[0].m[0][0].a[0] == 'arg1':
            return True
        return Model.keep_cell(self, st, key)


class Case(Monitor):
    def start(self, r, st):
        self.r = r
        self.m = r.eng.model

    def on_copy(self, st, kind, dst, src, n, ins):
        m = self.m
        ch = self.r.args[0]
        d = sub(src, m.field(ch, 'neco_chan', 'data'))
        ms = m.get(st, ch, 'neco_chan', 'msgsize')
        cap = m.get(st, ch, 'neco_chan', 'bufcap')
        if dst is not self.r.args[1] or not st.eq(n, ms) or d is not self.eng.binop(st, 'mul', ms, cap, 64, 0):
            self.eng.report(st, 'select', 'the message of a case is not copied exactly', ins)
        st.g['cp'] = 1

    def finish(self, r):
        C = codes()
        for st, ret in r.rets:
            v = st.val(ret)
            lok = st.val(self.m.get(st, r.args[0], 'neco_chan', 'lok'))
            if v == 0:
                if lok != 1 or (not st.g.get('cp') and st.val(self.m.get(st, r.args[0], 'neco_chan', 'msgsize')) != 0):
                    r.eng.report(st, 'select', 'a case succeeds without a message')
            elif v == C['NECO_CLOSED']:
                if lok != 0 or st.g.get('cp'):
                    r.eng.report(st, 'select', 'a case reports closed although there is a message')
            else:
                r.eng.report(st, 'select', 'a case returns %s' % v)
        return len(r.rets)


def sel_cases(full):
    for s in SEL_STATES:
        yield (s,)
        if full:
            for t in SEL_STATES:
                yield (s, t)
            yield ('idle', 'receivers wait', s)
    if full:
        yield ('idle',) * 9
        yield ('idle',) * 8 + ('senders wait',)
        yield ('idle, buffered',) * 4 + ('closed',) + ('idle',) * 4


def case_read(ck):
    def su(r, st):
        valid(r, st, r.args[0], 'neco_chan')
        st.assume(mk_eq(r.args[1]), False)
    for e, n in ck.run([Entry('neco_chan_case', setup=su)], lambda e: [Case()], lambda r, m: m[0].finish(r)):
        ck.count('cases read', n)
    ck.need('cases read', 3)


def c15(ck):
    ck.rule('a select over 1, 2, 3 and 9 channels, one and two in all combinations of their states: it takes from at most one channel, one that is ready, and '
            'returns its index, with outcome and message in the place of that case; it waits only when every channel is '
            'known not to be ready, with one complete case queued in each; completed by another coroutine it returns the '
            'index that it was told')
    ck.rule('every sender, broadcaster and closer that meets the case of a select skips it when the select was completed '
            'by another case, and else tells index and outcome before waking it')
    es = []
    for d in configs(ck):
        for fn in ('neco_chan_selectv_dl', 'neco_chan_selectv', 'neco_chan_tryselectv'):
            for ss in sel_cases(fn == 'neco_chan_selectv_dl' or ck.tier == 'thorough'):
                es.append(Entry(fn, label='%s[%s]' % (fn, '; '.join(ss)), setup=sel_setup(ss), info=ss, defs=d,
                                model={'fork': True, 'cls': SelModel, 'unroll': len(ss) + 2, 'retlimit': 1000,
                                       'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [Select(e.info)], lambda r, m: m[0].finish(r)):
        ck.count('selects', 1)
        ck.count('outcomes', n[0])
        ck.count('waits', n[1])
        ck.count('messages taken', n[2])
    ck.need('waits', 6)
    ck.need('messages taken', 8)

    case_read(ck)
    chan_table(ck, {'select'})


def c12(ck):
    ck.rule('every channel operation in every consistent state of the channel (open, closed with messages left, closed; '
            'empty queue, waiting receivers, waiting senders; with and without buffer): sends, broadcasts and closes on '
            'a closed channel report closed without effect; a close with messages left keeps them and its senders; '
            'otherwise it takes every receiver from the queue, tells it, and marks the channel closed for receivers; '
            'a receive marks it so exactly with the last message; a receive reports closed exactly then')
    chan_table(ck, {'closed', 'queue'})


def c13(ck):
    ck.rule('every channel operation in every consistent state of the channel: every copy has the size of a message and '
            'goes from the message, the first slot or the first waiting sender to the next free slot, the output or the '
            'first waiting receiver; position and length of the ring change accordingly and stay inside; a message is '
            'handed over, buffered or offered, exactly one of them, before other coroutines run; waiting happens only '
            'when the buffer is full (empty) and nobody on the other side waits; a broadcast serves every receiver and '
            'returns their number')
    chan_table(ck, {'message', 'capacity', 'queue'})
    ck.rule('a select receives into a place of its channel that is not part of the buffer, and neco_chan_case reads it '
            'from there')
    es = [Entry('neco_chan_selectv_dl', label='neco_chan_selectv_dl[%s]' % s, setup=sel_setup((s,)), info=(s,),
                model={'fork': True, 'cls': SelModel, 'unroll': 3, 'retlimit': 1000, 'mergelimit': 1000})
          for s in SEL_STATES]
    for e, n in ck.run(es, lambda e: [SelSlot(e.info)], lambda r, m: m[0].finish(r)):
        ck.count('selects', 1)
    case_read(ck)


CHECKS = {'C12': c12, 'C13': c13, 'C15': c15}


# ---------------------------------------------------------------- C16
MU_STATES = [('free', 'empty'), ('uninitialised', 'empty')] + [
    (s, q) for s in ('write locked', 'read locked once', 'read locked') for q in ('empty', 'writer', 'reader')]


def mutex_state(r, st, mu, lock, q):
    m = r.eng.model
    if lock == 'uninitialised':
        st.assume(mk_eq(mu), False)
        r.eng.note_stype(mu, 'struct.neco_mutex')
        put(r, st, mu, 'neco_mutex', 'rtid', ZERO)
        put(r, st, mu, 'neco_mutex', 'rlocked', ZERO)
        put(r, st, mu, 'neco_mutex', 'locked', ZERO)
        return
    valid(r, st, mu, 'neco_mutex')
    put(r, st, mu, 'neco_mutex', 'locked', const(int(lock != 'free')))
    if lock == 'read locked':
        v = r.eng.fresh(st, ('rlocked',), lo=2, hi=(1 << 31) - 2, what='rlocked')
    else:
        v = const(int(lock == 'read locked once'))
    put(r, st, mu, 'neco_mutex', 'rlocked', v)
    qa = m.field(mu, 'neco_mutex', 'queue')
    queue_state(r, st, qa, q == 'empty')
    if q != 'empty':
        first = m.list_first(st, qa, None)
        put(r, st, first, 'coroutine', 'rlocked', const(int(q == 'reader')))
        st.g['nk'] = int(q == 'reader')
        st.g['nq'] = add(qa, const(m.o_next))


class MutexModel(Model):
    """a waiter in the queue of a mutex is a reader or a writer: g['nk'] is the kind of the first one"""

    def init_load(self, st, r, off, size, ins):
        if off == self.mod.off('coroutine', 'rlocked') and 'nk' in st.g:
            q = st.g['nq']
            c = st.mem.get((rest(q), q.c))
            if c is not None and rest(c[0]) is r and c[0].c == 0:
                return const(st.g['nk'])
        return Model.init_load(self, st, r, off, size, ins)

    def list_call(self, st, name, args, ins):
        if name != 'colist_pop_front' or self.listtag(args[0]) != ('neco_mutex', 'queue'):
            return Model.list_call(self, st, name, args, ins)
        f = self.list_first(st, args[0], ins)
        self.get(st, f, 'coroutine', 'rlocked')
        res = []
        for s, v in Model.list_call(self, st, name, args, ins):
            if s.val(v) == 0 or not s.nonzero(v):
                res.append((s, v))
                continue
            x = self.get(s, v, 'coroutine', 'rlocked')
            for b in (0, 1):
                t = s.copy()
                if t.assume(mk_eq(sub(x, const(b))), True):
                    t.g['popped'] = b
                    for n in (0, 1):
                        u = t.copy()
                        u.g['nk'] = n
                        u.g['nq'] = add(args[0], const(self.o_next))
                        res.append((u, v))
        return res


class Mutex(Monitor):
    """the effect of an operation on a mutex before other coroutines run, and its result"""

    def __init__(self):
        self.waits = 0
        self.handed = 0

    def R(self, st, msg, ins=None):
        self.eng.report(st, 'mutex', 'with a mutex that is %s%s: %s' % (
            self.lock, '' if self.q == 'empty' else ', a %s waiting first' % self.q, msg), ins)

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        self.lock, self.q = r.entry.info[:2]
        self.mu = r.args[0]
        self.queue = self.m.field(self.mu, 'neco_mutex', 'queue')
        self.N0 = self.get(st, 'rlocked')
        fn = r.entry.func
        self.op = 'unlock' if 'unlock' in fn else 'rdlock' if 'rdlock' in fn else 'lock'
        self.tryop = 'try' in fn
        self.free = self.lock in ('free', 'uninitialised')
        st.g['nrd'] = ZERO

    def get(self, st, f):
        return self.m.get(st, self.mu, 'neco_mutex', f)

    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and args[0] is self.queue and st.nonzero(ret):
            if self.op != 'unlock':
                self.R(st, 'a lock operation takes a waiter from the queue', ins)
            if st.g.get('com'):
                self.R(st, 'a waiter is taken from the queue after others could run', ins)
            if 'el' in st.g:
                self.R(st, 'a waiter is taken from the queue and not woken', ins)
            p = st.g.get('popped')
            if 'last' in st.g and (st.g['last'] == 0 or p == 0):
                self.R(st, 'the mutex is handed to a writer and to somebody else at once', ins)
            st.g['last'] = p
            st.g['nrd'] = add(st.g['nrd'], const(p or 0))
            st.g['el'] = ret

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back':
            if args[0] is self.queue:
                if args[1] is not SELF or self.op == 'unlock' or st.g.get('com'):
                    self.R(st, 'the queue is entered in a wrong place', ins)
                st.g['self'] = 1
            elif self.m.listtag(args[0]) == ('runtime', 'resumers'):
                self.wake(st, args[1], ins)
        elif name == 'sco_resume' and st.nonzero(args[0]):
            i = args[0]
            co = i.m[0][0].a[0] if len(i.m) == 1 and i.m[0][0].kind == 'idof' else None
            if co is not None:
                self.wake(st, co, ins)

    def wake(self, st, co, ins):
        if 'el' in st.g and st.eq(co, st.g['el']):
            st.g.pop('el')
            self.handed += 1

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] == 'neco_mutex' and tag[1] in ('locked', 'rlocked') and st.g.get('com'):
            self.R(st, 'the mutex is changed after others could run', ins)

    def on_suspend(self, st, kind, args, ins):
        if not st.g.get('com'):
            self.commit(st, ins, kind)
            st.g['com'] = 1

    def commit(self, st, ins, kind, v=None):
        m = self.m
        l = st.val(self.get(st, 'locked'))
        n = self.get(st, 'rlocked')
        emp = is_empty(m, st, self.queue)
        same = l == int(not self.free) and st.eq(n, self.N0)
        if self.op == 'unlock':
            if 'el' in st.g:
                self.R(st, 'a waiter is taken from the queue and not woken', ins)
            if self.free:
                if not same:
                    self.R(st, 'an unlock of a free mutex changes it', ins)
            elif self.lock == 'read locked':
                if 'last' in st.g or l != 1 or not st.eq(n, sub(self.N0, ONE)):
                    self.R(st, 'an unlock by one of several readers does not just leave the others', ins)
            elif self.q == 'empty':
                if l != 0 or not st.eq(n, ZERO):
                    self.R(st, 'the mutex is not free after it was unlocked', ins)
            else:
                if 'last' not in st.g:
                    self.R(st, 'the mutex is not handed on although somebody waits', ins)
                elif l != 1:
                    self.R(st, 'the mutex is handed on, but marked as free', ins)
                elif not st.eq(n, st.g['nrd']):
                    self.R(st, 'the number of readers differs from the number of readers that were let in', ins)
                elif st.g['last'] == 1 and emp is not True:
                    f = m.list_first(st, self.queue, None)
                    if st.val(m.get(st, f, 'coroutine', 'rlocked')) != 0:
                        self.R(st, 'readers at the front of the queue are left waiting', ins)
            return
        if self.op == 'lock':
            can = self.free
        else:
            can = self.q == 'empty' and self.lock != 'write locked'
        if st.g.get('self'):
            if can:
                self.R(st, 'waits although the mutex can be locked', ins)
            if kind != 'sco_pause' or self.tryop:
                self.R(st, 'enters the queue and does not wait', ins)
            if not same:
                self.R(st, 'waits, but has changed the mutex', ins)
            if st.val(m.get(st, SELF, 'coroutine', 'rlocked')) != int(self.op == 'rdlock'):
                self.R(st, 'waits for the wrong kind of lock', ins)
            self.waits += 1
            return
        if v == 0:
            if not can:
                self.R(st, 'succeeds although the mutex is held by another', ins)
            elif l != 1 or not st.eq(n, add(self.N0, const(int(self.op == 'rdlock')))):
                self.R(st, 'succeeds, but does not hold the mutex', ins)
        else:
            if not same:
                self.R(st, 'fails (or lets others run) but has changed the mutex', ins)
            if kind != 'return':
                self.R(st, 'lets others run while it neither holds the mutex nor waits for it', ins)
            elif self.tryop and can:
                self.R(st, 'returns %s although the mutex can be locked' % v, ins)
            elif v == codes()['NECO_BUSY'] and not self.tryop:
                self.R(st, 'returns busy instead of waiting', ins)

    def finish(self, r):
        C = codes()
        for st, ret in r.rets:
            v = st.val(ret)
            if v is None:
                self.R(st, 'returns an undetermined result')
                continue
            if not st.g.get('com'):
                self.commit(st, None, 'return', v)
            if self.op == 'unlock':
                if v != 0:
                    self.R(st, 'unlock returns %s' % v)
            elif st.g.get('self'):
                why = st.g.get('why')
                if why is None or ('g' in why) != (v == 0):
                    self.R(st, 'returns %s although the mutex was %shanded to it' % (
                        v, '' if why and 'g' in why else 'not '))
        return len(r.rets), self.waits, self.handed


class Destroy(Monitor):
    def start(self, r, st):
        self.r, self.m = r, r.eng.model

    def finish(self, r):
        C = codes()
        lock, q = r.entry.info[:2]
        free = lock in ('free', 'uninitialised')
        for st, ret in r.rets:
            v = st.val(ret)
            if v != (0 if free or 'init' in r.entry.func else C['NECO_BUSY']):
                r.eng.report(st, 'mutex', '%s of a mutex that is %s returns %s' % (r.entry.func, lock, v))
            l = st.val(self.m.get(st, r.args[0], 'neco_mutex', 'locked'))
            n = self.m.get(st, r.args[0], 'neco_mutex', 'rlocked')
            if v == 0 and (l != 0 or not st.eq(n, ZERO)) or v != 0 and l == 0:
                r.eng.report(st, 'mutex', '%s of a mutex that is %s leaves it wrong' % (r.entry.func, lock))
        return len(r.rets)


def mu_setup(lock, q, canceled=0):
    def su(r, st):
        m = r.eng.model
        mutex_state(r, st, r.args[0], lock, q)
        m.setself(st, 'canceled', const(canceled))
        m.setself(st, 'canceltype', const(INLINE))
    return su


MU_OPS = ('neco_mutex_lock', 'neco_mutex_lock_dl', 'neco_mutex_trylock', 'neco_mutex_rdlock', 'neco_mutex_rdlock_dl',
          'neco_mutex_tryrdlock', 'neco_mutex_unlock')


def c16(ck):
    ck.rule('every lock operation in every consistent state of the mutex (free, uninitialised, write locked, read locked '
            'once or several times; nobody, a writer or a reader waiting first): a lock succeeds only when the mutex is '
            'free, a read lock only when no writer holds it and nobody waits, and then exactly that is recorded; it waits '
            'only otherwise, in the queue and with its kind recorded, without changing the mutex; one that fails '
            'changes nothing; after the wait it holds the mutex exactly when it was handed over')
    ck.rule('every unlock in every such state: with other readers left only their number decreases, with nobody waiting '
            'the mutex is free, else it is handed without interruption to the first waiter, or to the readers at the '
            'front, all of them, whose number is recorded, and each of them is woken')
    es = []
    for d in configs(ck):
        for fn in MU_OPS:
            for s in MU_STATES:
                for c in (0, 1) if 'unlock' not in fn and 'try' not in fn else (0,):
                    es.append(Entry(fn, label='%s[%s, %s%s]' % (fn, s[0], s[1], ', canceled' if c else ''),
                                    setup=mu_setup(*s, canceled=c), info=s, defs=d,
                                    model={'fork': True, 'cls': MutexModel, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [Mutex()], lambda r, m: m[0].finish(r)):
        ck.count('operations in a state', 1)
        ck.count('outcomes', n[0])
        ck.count('waits', n[1])
        ck.count('mutex handed on', n[2])
    ck.need('operations in a state', 100)
    ck.need('waits', 20)
    ck.need('mutex handed on', 4)
    es = [Entry(fn, label='%s[%s, %s]' % (fn, s[0], s[1]), setup=mu_setup(*s), info=s,
                model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000})
          for fn in ('neco_mutex_destroy', 'neco_mutex_init') for s in MU_STATES
          if fn == 'neco_mutex_destroy' or s[0] == 'uninitialised']
    for e, n in ck.run(es, lambda e: [Destroy()], lambda r, m: m[0].finish(r)):
        ck.count('creations and destructions', n)
    ck.need('creations and destructions', 10)


CHECKS['C16'] = c16


# ---------------------------------------------------------------- C17, C18
class Queue(Monitor):
    """waiters taken from one queue and woken, one by one, before others run"""
    rule = 'queue'
    struct = None

    def __init__(self):
        self.woken = 0
        self.waits = 0

    def R(self, st, msg, ins=None):
        self.eng.report(st, self.rule, 'with %s: %s' % (self.label, msg), ins)

    def start(self, r, st):
        self.r = r
        self.m = r.eng.model
        self.obj = r.args[0]
        self.queue = self.m.field(self.obj, self.struct, 'queue')
        self.label = r.entry.label
        self.begin(r, st)

    def begin(self, r, st):
        pass

    def get(self, st, f):
        return self.m.get(st, self.obj, self.struct, f)

    def on_ret(self, st, name, args, ret, ins):
        if name == 'colist_pop_front' and args[0] is self.queue and st.nonzero(ret):
            if st.g.get('com'):
                self.R(st, 'a waiter is taken from the queue after others could run', ins)
            if 'el' in st.g:
                self.R(st, 'a waiter is taken from the queue and not woken', ins)
            if 'pops' in st.g:
                st.g['pops'] = 2
            else:
                st.g['pops'] = 1
            st.g['el'] = ret

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back':
            if args[0] is self.queue:
                if args[1] is not SELF or st.g.get('com') or 'self' in st.g:
                    self.R(st, 'the queue is entered in a wrong place', ins)
                st.g['self'] = 1
            elif self.m.listtag(args[0]) == ('runtime', 'resumers'):
                self.wake(st, args[1], ins)
        elif name == 'sco_resume' and st.nonzero(args[0]):
            i = args[0]
            co = i.m[0][0].a[0] if len(i.m) == 1 and i.m[0][0].kind == 'idof' else None
            if co is not None:
                self.wake(st, co, ins)

    def wake(self, st, co, ins):
        if 'el' in st.g and st.eq(co, st.g['el']):
            st.g.pop('el')
            self.woken += 1

    def on_suspend(self, st, kind, args, ins):
        if not st.g.get('com'):
            self.commit(st, ins, kind)
            st.g['com'] = 1

    def all_woken(self, st, ins):
        if 'el' in st.g:
            self.R(st, 'a waiter is taken from the queue and not woken', ins)
        if is_empty(self.m, st, self.queue) is not True:
            self.R(st, 'waiters are left in the queue', ins)


class WaitGroup(Queue):
    rule = 'wait group'
    struct = 'neco_waitgroup'

    def begin(self, r, st):
        self.zero, self.empty = r.entry.info
        self.N0 = self.get(st, 'count')
        fn = r.entry.func
        self.op = 'add' if 'add' in fn else 'done' if 'done' in fn else 'wait'

    def on_store(self, st, tag, addr, val, ins, old):
        if tag == ('neco_waitgroup', 'count') and st.g.get('com'):
            self.R(st, 'the count is changed after others could run', ins)

    def commit(self, st, ins, kind, v=None):
        n = self.get(st, 'count')
        C = codes()
        if self.op == 'wait':
            if not st.eq(n, self.N0) or 'pops' in st.g:
                self.R(st, 'a wait changes the wait group', ins)
            if 'self' in st.g:
                self.waits += 1
                if self.zero:
                    self.R(st, 'waits although the count is zero', ins)
                if kind != 'sco_pause':
                    self.R(st, 'enters the queue and does not wait', ins)
            elif not self.zero and (kind != 'return' or v == 0):
                self.R(st, 'does not wait although the count is not zero', ins)
            return
        new = add(self.N0, self.m_delta(st))
        if v == C['NECO_NEGWAITGRP']:
            if not st.eq(n, self.N0) or 'pops' in st.g:
                self.R(st, 'an operation that was refused has an effect', ins)
            if not st.le(new, const(-1)):
                self.R(st, 'an operation is refused that would not make the count negative', ins)
            return
        if not st.le(ZERO, new):
            self.R(st, 'the count may become negative', ins)
        if not st.eq(n, new):
            self.R(st, 'the count is not the sum of the additions', ins)
        if not self.empty:
            z = st.val(mk_eq(n))
            if z is None:
                a = st.copy()
                a.assume(mk_eq(n), True)
                self.at_zero(a, ins)
                b = st.copy()
                b.assume(mk_eq(n), False)
                self.above(b, ins)
            elif z:
                self.at_zero(st, ins)
            else:
                self.above(st, ins)
        if v is not None and v != 0:
            self.R(st, 'returns %s although it is done' % v, ins)

    def at_zero(self, st, ins):
        if 'pops' not in st.g:
            self.R(st, 'the count reaches zero and the waiters are not released', ins)
        else:
            self.all_woken(st, ins)

    def above(self, st, ins):
        if 'pops' in st.g:
            self.R(st, 'waiters are released although the count is not zero', ins)

    def m_delta(self, st):
        return const(-1) if self.op == 'done' else self.r.args[1]

    def finish(self, r):
        for st, ret in r.rets:
            v = st.val(ret)
            if v is None:
                self.R(st, 'returns an undetermined result')
                continue
            if not st.g.get('com'):
                self.commit(st, None, 'return', v)
            elif self.op != 'wait':
                if v != 0:
                    self.R(st, 'returns %s although it is done' % v)
            elif 'self' in st.g:
                why = st.g.get('why')
                if why is None or ('g' in why) != (v == 0):
                    self.R(st, 'the wait returns %s although the count %s' % (
                        v, 'reached zero' if why and 'g' in why else 'did not reach zero'))
            elif v != 0:
                self.R(st, 'a wait with a count of zero lets others run and returns %s' % v)
        return len(r.rets), self.waits, self.woken


def wg_setup(zero, empty):
    def su(r, st):
        m = r.eng.model
        wg = r.args[0]
        if zero is None:
            st.assume(mk_eq(wg), False)
            r.eng.note_stype(wg, 'struct.neco_waitgroup')
            put(r, st, wg, 'neco_waitgroup', 'rtid', ZERO)
            put(r, st, wg, 'neco_waitgroup', 'count', ZERO)
        else:
            valid(r, st, wg, 'neco_waitgroup')
            v = ZERO if zero else r.eng.fresh(st, ('count',), lo=1, hi=(1 << 31) - 1, what='count')
            put(r, st, wg, 'neco_waitgroup', 'count', v)
            queue_state(r, st, m.field(wg, 'neco_waitgroup', 'queue'), empty)
        if r.entry.func == 'neco_waitgroup_add':
            # the sum has to be representable
            T.restrict(st.facts, r.args[1], -(1 << 31), (1 << 31) - 1)
            if zero is False:
                T.restrict(st.facts, add(v, r.args[1]), None, (1 << 31) - 1)
        m.setself(st, 'canceled', ZERO)
        m.setself(st, 'canceltype', const(INLINE))
    return su


def c18(ck):
    ck.rule('every operation on a wait group in every consistent state (zero, positive, uninitialised; with and without '
            'waiters) and for every delta: it is refused exactly when the sum would be negative, and then without '
            'effect; else the count is the sum; exactly when it is zero every waiter is taken from the queue and '
            'woken before others run; a wait waits exactly when the count is not zero, and changes nothing')
    es = []
    for d in configs(ck):
        for fn in ('neco_waitgroup_add', 'neco_waitgroup_done', 'neco_waitgroup_wait', 'neco_waitgroup_wait_dl'):
            for s in ((None, True), (True, True), (False, True), (False, False)):
                es.append(Entry(fn, label='%s[%s, %s]' % (fn, {None: 'uninitialised', True: 'count zero',
                                                               False: 'count positive'}[s[0]],
                                                          'nobody waiting' if s[1] else 'somebody waiting'),
                                setup=wg_setup(*s), info=(s[0] is not False, s[1]), defs=d,
                                model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [WaitGroup()], lambda r, m: m[0].finish(r)):
        ck.count('operations in a state', 1)
        ck.count('outcomes', n[0])
        ck.count('waits', n[1])
        ck.count('waiters released', n[2])
    ck.need('operations in a state', 16)
    ck.need('waits', 4)
    ck.need('waiters released', 3)


class Signal(Queue):
    rule = 'condition'
    struct = 'neco_cond'

    def commit(self, st, ins, kind):
        bc = 'broadcast' in self.r.entry.func
        if 'self' in st.g:
            self.R(st, 'a %s enters the queue' % ('broadcast' if bc else 'signal'), ins)
        if self.r.entry.info == 'nonempty':
            if 'pops' not in st.g:
                self.R(st, 'nobody is woken although somebody waits', ins)
            elif bc:
                self.all_woken(st, ins)
            else:
                if 'el' in st.g:
                    self.R(st, 'a waiter is taken from the queue and not woken', ins)
                if st.g['pops'] > 1:
                    self.R(st, 'a signal takes more than one waiter', ins)

    def finish(self, r):
        for st, ret in r.rets:
            if not st.g.get('com'):
                self.commit(st, None, 'return')
            if st.val(ret) != 0:
                self.R(st, 'returns %s' % st.val(ret))
        return len(r.rets), self.waits, self.woken


class CondWait(Mutex):
    """the mutex is given up exactly as by an unlock, the queue of the condition variable entered, and then others run"""

    def start(self, r, st):
        Mutex.start(self, r, st)
        self.op = 'unlock'
        self.cond = r.args[0]
        self.mu = r.args[1]
        self.queue = self.m.field(self.mu, 'neco_mutex', 'queue')
        self.cqueue = self.m.field(self.cond, 'neco_cond', 'queue')
        self.N0 = self.get(st, 'rlocked')

    def R(self, st, msg, ins=None):
        self.eng.report(st, 'condition', 'with a mutex that is %s%s: %s' % (
            self.lock, '' if self.q == 'empty' else ', a %s waiting first' % self.q, msg), ins)

    def on_call(self, st, name, args, ins):
        if name == 'colist_push_back':
            if args[0] is self.cqueue:
                if st.g.get('com') or args[1] is not SELF:
                    self.R(st, 'the queue of the condition variable is entered after others could run', ins)
                st.g['cself'] = 1
                return
            if args[0] is self.queue:
                if not st.g.get('com'):
                    self.R(st, 'waits for the mutex before it waits for the condition', ins)
                return
        Mutex.on_call(self, st, name, args, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        if tag and tag[0] == 'neco_mutex' and tag[1] in ('locked', 'rlocked') and st.g.get('com'):
            if tag[1] == 'locked' and st.val(val) == 1 and old is not None and st.val(old) == 0:
                st.g['held'] = 1
            else:
                self.R(st, 'the mutex is changed after others could run', ins)

    def on_suspend(self, st, kind, args, ins):
        if not st.g.get('com'):
            self.commit(st, ins, kind)
            st.g['com'] = 1
            if 'cself' not in st.g:
                self.R(st, 'lets others run before it waits for the condition', ins)
            if kind != 'sco_pause':
                self.R(st, 'does not wait for the condition', ins)
        elif st.g.get('held'):
            self.R(st, 'lets others run while it holds the mutex again', ins)
        if kind == 'sco_pause':
            self.waits += 1
            L = st.g.get('L')
            st.g['lastq'] = 'mu' if L and st.eq(L[0], self.queue) else 'cond'
            if st.g['lastq'] == 'mu' and st.val(self.m.get(st, SELF, 'coroutine', 'rlocked')) != 0:
                self.R(st, 'waits for the wrong kind of lock', ins)

    def finish(self, r):
        for st, ret in list(r.rets) + [(s[0] if isinstance(s, tuple) else s, None) for s in r.eng.exits]:
            if not st.g.get('com'):
                l = st.val(self.get(st, 'locked'))
                if 'cself' in st.g:
                    self.R(st, 'enters the queue and does not wait')
                if l != int(not self.free) or not st.eq(self.get(st, 'rlocked'), self.N0):
                    self.R(st, 'fails at once, but has changed the mutex')
                continue
            if not (st.g.get('held') or st.g.get('lastq') == 'mu' and 'g' in (st.g.get('why') or '')):
                self.R(st, 'returns without holding the mutex' if ret is not None else
                       'ends the coroutine without holding the mutex')
        return len(r.rets) + len(r.eng.exits), self.waits, self.handed


def cond_setup(q):
    def su(r, st):
        m = r.eng.model
        cv = r.args[0]
        if q == 'uninitialised':
            st.assume(mk_eq(cv), False)
            r.eng.note_stype(cv, 'struct.neco_cond')
            put(r, st, cv, 'neco_cond', 'rtid', ZERO)
        else:
            valid(r, st, cv, 'neco_cond')
            queue_state(r, st, m.field(cv, 'neco_cond', 'queue'), q == 'empty')
        m.setself(st, 'canceled', ZERO)
    return su


def cw_setup(lock, q, ctype, canceled):
    def su(r, st):
        m = r.eng.model
        valid(r, st, r.args[0], 'neco_cond')
        mutex_state(r, st, r.args[1], lock, q)
        st.assume(mk_eq(sub(r.args[0], r.args[1])), False)
        m.setself(st, 'canceled', const(canceled))
        m.setself(st, 'canceltype', const(ctype))
    return su


def c17(ck):
    ck.rule('every wait on a condition variable, in every consistent state of the mutex: before other coroutines run for '
            'the first time the mutex has been given up exactly as by an unlock and the coroutine has entered the '
            'queue; on every return, and every exit by cancelation, after that it holds the mutex again; when it '
            'fails before that, the mutex is unchanged')
    ck.rule('a signal takes exactly the first waiter, if there is one, a broadcast takes all; each of them is woken')
    es = []
    for d in configs(ck):
        for fn in ('neco_cond_wait', 'neco_cond_wait_dl'):
            for s in MU_STATES:
                for t in (ASYNC, INLINE):
                    for c in (0, 1):
                        es.append(Entry(fn, label='%s[%s, %s, %s%s]' % (
                            fn, s[0], s[1], 'inline' if t == INLINE else 'async', ', canceled' if c else ''),
                            setup=cw_setup(s[0], s[1], t, c), info=s, defs=d,
                            model={'fork': True, 'cls': MutexModel, 'retlimit': 1000, 'mergelimit': 1000}))
    for e, n in ck.run(es, lambda e: [CondWait()], lambda r, m: m[0].finish(r)):
        ck.count('waits in a state', 1)
        ck.count('outcomes', n[0])
        ck.count('suspensions', n[1])
        ck.count('mutex handed on', n[2])
    ck.need('waits in a state', 80)
    ck.need('suspensions', 80)
    ck.need('mutex handed on', 10)
    es = [Entry(fn, label='%s[%s]' % (fn, q), setup=cond_setup(q), info=q, defs=d,
                model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000})
          for d in configs(ck) for fn in ('neco_cond_signal', 'neco_cond_broadcast')
          for q in ('uninitialised', 'empty', 'nonempty')]
    for e, n in ck.run(es, lambda e: [Signal()], lambda r, m: m[0].finish(r)):
        ck.count('signals and broadcasts', 1)
        ck.count('waiters woken', n[2])
    ck.need('signals and broadcasts', 6)
    ck.need('waiters woken', 3)


CHECKS['C17'] = c17
CHECKS['C18'] = c18
