"""C29, C31: the switching core and the stacks."""
import itertools
import os
import re
import subprocess
import tempfile
from common import *
from checks_sync import configs, put

BIG = dict(retlimit=2000, mergelimit=2000, entlimit=2000, unroll=40)
NAMES = 'CRSYZPQN'


def node(name):
    return of(atom('o', 'node', name, 0, 0, lo=4096))


def glob(name):
    return of(atom('g', name, lo=4096))


def cell(st, p, off, v, size=8):
    k = add(p, const(off))
    st.mem[(rest(k), k.c)] = (v, size)


def read(st, p, off):
    k = add(p, const(off))
    c = st.mem.get((rest(k), k.c))
    if c is None and any(lo <= k.c < hi for lo, hi in st.zero.get(rest(k), ())):
        return ZERO
    return None if c is None else c[0]


class Sched:
    """the abstract state of the switching core"""

    def __init__(self, cur, run, yld, paused, want_exit):
        self.cur, self.run, self.yld, self.paused, self.want_exit = cur, list(run), list(yld), set(paused), want_exit
        self.detached = set()
        self.to = None          # where it switches to
        self.final = None

    def copy(self):
        s = Sched(self.cur, self.run, self.yld, self.paused, self.want_exit)
        s.detached = set(self.detached)
        return s

    def switch(self, frommain, final):
        self.final = final
        if not self.run:
            if not self.yld or self.want_exit or (not frommain and self.paused):
                self.cur, self.want_exit, self.to = None, 0, 'main'
                return
            self.run, self.yld = self.yld, []
        self.cur = self.to = self.run.pop(0)

    def op(self, op, arg=None):
        """what the operation does"""
        if op == 'yield':
            if self.cur:
                self.yld.append(self.cur)
                self.switch(False, 0)
        elif op == 'pause':
            if self.cur:
                self.paused.add(self.cur)
                self.switch(False, 0)
        elif op == 'resume':
            if arg is None and not self.cur:
                self.switch(True, 0)
            elif arg in self.paused:
                self.paused.discard(arg)
                self.yld.append(arg)
                self.op('yield')
        elif op == 'exit':
            if self.cur:
                self.want_exit = 1
                self.switch(False, 1)
        elif op == 'end':
            self.switch(False, 1)
        elif op == 'begin':
            if self.cur:
                self.run.append(self.cur)
            self.cur = 'N'
        elif op == 'detach':
            if arg in self.paused:
                self.paused.discard(arg)
                self.detached.add(arg)
        elif op == 'attach':
            if arg in self.detached:
                self.detached.discard(arg)
                self.paused.add(arg)
        return self

    def show(self):
        return 'running %s, next %s, then %s, paused %s%s' % (
            self.cur or 'none', ''.join(self.run) or 'none', ''.join(self.yld) or 'none',
            ''.join(sorted(self.paused)) or 'none', ', leaving' if self.want_exit else '')


IDS = {n: 3 + 5 * i for i, n in enumerate(NAMES)}


class CoreModel(Model):
    """the core is followed; the tree of paused ones and the machine switch are not"""

    def list_call(self, st, name, args, ins):
        return None

    def mergekey(self, st):
        return Model.mergekey(self, st) + (st.g.get('paused'), st.g.get('detached'), st.g.get('nsw'))

    def name(self, st, p):
        for n in NAMES:
            if p is node(n):
                return n
        if st.g.get('new') is not None and p is st.g['new']:
            return 'N'
        return None

    def tree(self, root):
        for a, _ in root.m:
            if a.kind == 'g':
                return a.a[0]
        return None

    def call(self, st, name, args, ins):
        if name in ('sco_aat_insert', 'sco_aat_delete', 'sco_aat_search'):
            what = self.tree(args[0])
            key = 'detached' if what == 'sco_detached' else 'paused' if what == 'sco_paused' else None
            if key is None:
                raise AnalysisBroken('another index of coroutines is used')
            have = st.g[key]
            i = read(st, args[1], self.mod.off('sco', 'id'))
            i = None if i is None else st.val(i)
            st.g['where'] = st.g.get('where', ()) + ((key, i, root_offset(args[0])),)
            if name == 'sco_aat_insert':
                n = self.name(st, args[1])
                if n is None:
                    self.eng.report(st, 'core', 'something that is no coroutine is put into the index', ins)
                    return [(st, ZERO)]
                if n in have:
                    self.eng.report(st, 'core', 'a coroutine is paused twice', ins)
                st.g[key] = tuple(sorted(set(have) | {n}))
                self.scramble(st, args[1])
                return [(st, ZERO)]
            for n in have:
                if IDS[n] == i:
                    if name == 'sco_aat_delete':
                        st.g[key] = tuple(x for x in have if x != n)
                        self.scramble(st, node(n))
                    return [(st, node(n))]
            return [(st, ZERO)]
        if name in ('mix13', 'sco_mix13'):
            return None
        if name == 'llco_switch':
            st.g['nsw'] += 1
            for m in self.eng._ov['on_call']:
                if hasattr(m, 'switched'):
                    m.switched(st, args, ins)
            return [(st, None)]
        if name == 'llco_current':
            return [(st, of(atom('p', 'llco', 'N', lo=4096)))]
        if name == 'llco_start':
            return [(st, None)]
        if name.startswith('sched_yield'):
            return [(st, None)]
        f = self.mod.funcs.get(name)
        if f is not None:
            return None
        return self.external(st, name, args, ins)

    def scramble(self, st, p):
        for o in (0, 8, 16):
            cell(st, p, o, self.eng.fresh(st, ('tree', o)))

    def indirect(self, st, fn, args, ins):
        for m in self.eng._ov['on_call']:
            m.on_call(st, '<indirect>', [fn] + args, ins)
        return [(st, None)]


def root_offset(p):
    return (str(rest(p)), p.c)


class Core(Monitor):
    def start(self, r, st):
        self.r = r
        self.w, self.op, self.arg = r.entry.info
        mod = r.mod
        st.g.update(paused=tuple(sorted(self.w.paused)), detached=tuple(sorted(self.w.detached)), nsw=0, calls=())
        on, op = mod.off('sco_link', 'next'), mod.off('sco_link', 'prev')
        for n in NAMES:
            cell(st, node(n), mod.off('sco', 'id'), const(IDS[n]))
            cell(st, node(n), mod.off('sco', 'llco'), of(atom('p', 'llco', n, lo=4096)))
            cell(st, node(n), on, node(n))
            cell(st, node(n), op, node(n))
            r.eng.note_stype(node(n), 'struct.sco')
            for x in NAMES:
                if x < n:
                    st.assume(mk_eq(sub(node(n), node(x))), False)
        for lst, names in (('sco_runners', self.w.run), ('sco_yielders', self.w.yld)):
            q = glob(lst)
            h, t = add(q, const(mod.off('sco_list', 'head'))), add(q, const(mod.off('sco_list', 'tail')))
            ns = [h] + [node(n) for n in names] + [t]
            for n in NAMES:
                for x in (h, t):
                    st.assume(mk_eq(sub(node(n), x)), False)
            cell(st, h, op, ZERO)
            cell(st, t, on, ZERO)
            for a, b in zip(ns, ns[1:]):
                cell(st, a, on, b)
                cell(st, b, op, a)
        for g, v in (('sco_nrunners', len(self.w.run)), ('sco_nyielders', len(self.w.yld)),
                     ('sco_npaused', len(self.w.paused)), ('sco_ndetached', len(self.w.detached))):
            cell(st, glob(g), 0, const(v))
        cell(st, glob('sco_exit_to_main_requested'), 0, const(self.w.want_exit), 1)
        cell(st, glob('sco_initialized'), 0, ONE, 1)
        cell(st, glob('sco_cur'), 0, node(self.w.cur) if self.w.cur else ZERO)
        for n in self.w.paused | self.w.detached:
            r.eng.model.scramble(st, node(n))
        self.want = self.w.copy().op(self.op, self.arg)
        self.where = set()
        self.n = 0

    def rep(self, st, msg, ins=None):
        self.eng.report(st, 'core', '%s (%s: %s)' % (msg, self.op + (' of ' + self.arg if self.arg else ''), self.w.show()), ins)

    def names(self, st, lst):
        mod = self.r.mod
        on = mod.off('sco_link', 'next')
        q = glob(lst)
        t = add(q, const(mod.off('sco_list', 'tail')))
        p = add(q, const(mod.off('sco_list', 'head')))
        out = []
        for _ in range(10):
            x = read(st, p, on)
            if x is None or st.val(x) == 0:
                return None
            back = read(st, x, mod.off('sco_link', 'prev'))
            if back is None or back is not p:
                return None
            if x is t:
                return out
            n = self.eng.model.name(st, x)
            if n is None:
                return None
            out.append(n)
            p = x
        return None

    def compare(self, st, want, ins):
        self.n += 1
        m = self.eng.model
        cur = read(st, glob('sco_cur'), 0)
        c = None if st.val(cur) == 0 else m.name(st, cur) or '?'
        if c != want.cur:
            self.rep(st, 'the running coroutine is %s, expected %s' % (c or 'none', want.cur or 'none'), ins)
        for lst, exp, cnt in (('sco_runners', want.run, 'sco_nrunners'), ('sco_yielders', want.yld, 'sco_nyielders')):
            got = self.names(st, lst)
            if got != exp:
                self.rep(st, 'those that are scheduled (%s) are %s, expected %s' % (
                    lst, 'not linked' if got is None else ''.join(got) or 'none', ''.join(exp) or 'none'), ins)
            v = st.val(read(st, glob(cnt), 0))
            if v != len(exp):
                self.rep(st, 'the number of those that are scheduled (%s) is %s, expected %d' % (cnt, v, len(exp)), ins)
        for key, exp, cnt in (('paused', want.paused, 'sco_npaused'), ('detached', want.detached, 'sco_ndetached')):
            if set(st.g[key]) != exp:
                self.rep(st, 'those that are %s are %s, expected %s' % (
                    key, ''.join(st.g[key]) or 'none', ''.join(sorted(exp)) or 'none'), ins)
            v = st.val(read(st, glob(cnt), 0))
            if v != len(exp):
                self.rep(st, 'the number of those that are %s is %s, expected %d' % (key, v, len(exp)), ins)
        v = st.val(read(st, glob('sco_exit_to_main_requested'), 0))
        if v != want.want_exit:
            self.rep(st, 'the request to leave is %s, expected %s' % (v, want.want_exit), ins)

    def on_call(self, st, name, args, ins):
        pass

    def switched(self, st, args, ins):
        w = self.want
        if st.g['nsw'] > 1:
            self.rep(st, 'the thread switches twice', ins)
            return
        if w.to is None:
            self.rep(st, 'the thread switches although there is no reason', ins)
            return
        self.compare(st, w, ins)
        if w.to == 'main':
            ok = st.val(args[0]) == 0
        else:
            ok = args[0] is of(atom('p', 'llco', w.to, lo=4096))
        if not ok:
            self.rep(st, 'the thread switches elsewhere than to %s' % w.to, ins)
        f = st.val(args[1])
        if f is None or (f & 1) != w.final:
            self.rep(st, 'the switch %s the running coroutine' % ('does not end' if w.final else 'ends'), ins)

    def finish(self, r):
        for st, ret in r.rets:
            if st.g['nsw'] == 0 and self.want.to is not None:
                self.rep(st, 'the coroutine is not left')
            if self.want.to is None or st.g['nsw']:
                # nothing changes once it is back
                self.compare(st, self.want, None)
        if not r.rets and self.op != 'exit' and self.op != 'end':
            raise AnalysisBroken('%s does not return' % r.entry.func)
        where = set()
        for st, _ in r.rets:
            where |= set(st.g.get('where', ()))
        return self.n, sorted(where, key=str)


class NewCo(Core):
    """a new coroutine begins and ends"""

    def start(self, r, st):
        Core.start(self, r, st)
        self.udata = r.args[0]
        self.fn = of(atom('p', 'userentry', lo=4096))
        cell(st, glob('sco_user_entry'), 0, self.fn)
        self.idcell = read(st, glob('sco_next_id'), 0)
        st.g['new'] = None
        st.g['ran'] = 0
        self.mid = self.w.copy().op('begin')
        self.want = self.mid.copy().op('end')

    def on_call(self, st, name, args, ins):
        if name != '<indirect>':
            return
        if args[0] is not self.fn or args[1] is not self.udata or st.g['ran']:
            self.rep(st, 'a new coroutine does not run its function once with its argument', ins)
        st.g['ran'] = 1
        cur = read(st, glob('sco_cur'), 0)
        st.g['new'] = cur
        if st.val(cur) == 0 or self.eng.roots(rest(cur)) is None:
            self.rep(st, 'a new coroutine runs without being the running one', ins)
            return
        off = self.r.mod.off
        if read(st, cur, off('sco', 'udata')) is not self.udata:
            self.rep(st, 'a new coroutine has another argument', ins)
        if read(st, cur, off('sco', 'llco')) is not of(atom('p', 'llco', 'N', lo=4096)):
            self.rep(st, 'a new coroutine has another machine state than its own', ins)
        i, nx = read(st, cur, off('sco', 'id')), read(st, glob('sco_next_id'), 0)
        if i is None or nx is None or not st.eq(i, nx):
            self.rep(st, 'a new coroutine has another identity than the next one', ins)
        for f in ('next', 'prev'):
            if read(st, cur, off('sco_link', f)) is not cur:
                self.rep(st, 'a new coroutine is linked to others', ins)
        self.compare(st, self.mid, ins)

    def finish(self, r):
        for st, _ in r.rets:
            if not st.g['ran']:
                self.rep(st, 'a new coroutine does not run')
        return Core.finish(self, r)


class Begin(Core):
    """a coroutine is started"""

    def start(self, r, st):
        Core.start(self, r, st)
        self.desc = r.args[0]
        self.entries = set()
        st.g['started'] = 0
        r.eng.note_stype(r.args[0], 'struct.sco_desc')
        T.restrict(st.facts, r.args[0], 4096, None)
        self.f = {}
        for f in ('stack', 'stack_size', 'entry', 'cleanup', 'udata'):
            self.f[f] = of(atom('p', 'desc', f, lo=0))
            cell(st, r.args[0], r.mod.off('sco_desc', f), self.f[f])

    def on_call(self, st, name, args, ins):
        if name != 'llco_start':
            return
        st.g['started'] += 1
        off = self.r.mod.off
        for f in ('stack', 'stack_size', 'cleanup', 'udata'):
            if read(st, args[0], off('llco_desc', f)) is not self.f[f]:
                self.rep(st, 'a coroutine is started with another %s than asked for' % f, ins)
        e = read(st, args[0], off('llco_desc', 'entry'))
        if e is None or len(e.m) != 1 or e.m[0][0].kind != 'g':
            raise AnalysisBroken('the first function of a coroutine')
        self.entries.add(e.m[0][0].a[0])
        u = read(st, glob('sco_user_entry'), 0)
        if u is not self.f['entry']:
            self.rep(st, 'a coroutine is started with another function than asked for', ins)
        if st.val(args[1]) not in (0, None) and st.val(args[1]) & 1:
            self.rep(st, 'starting a coroutine ends the running one', ins)
        self.compare(st, self.w, ins)

    def finish(self, r):
        for st, _ in r.rets:
            if st.g['started'] != 1:
                self.rep(st, 'a coroutine is started %d times' % st.g['started'])
            self.compare(st, self.w, None)
        return self.n, sorted(self.entries)


def worlds(thorough):
    k = 4 if thorough else 3
    for cur in (None, 'C'):
        for nr, ny, np, ex in itertools.product(range(k), range(k), range(3), (0, 1)):
            yield Sched(cur, 'RSU'[:nr], 'YZV'[:ny], 'PQ'[:np], ex)


NAMES = 'CRSUYZVPQDN'
IDS = {n: 3 + 5 * i for i, n in enumerate(NAMES)}


class Query(Core):
    def finish(self, r):
        w = self.w
        run = len(w.run) + (1 if w.cur else 0)
        want = {'sco_info_scheduled': len(w.yld), 'sco_info_running': run, 'sco_info_paused': len(w.paused),
                'sco_info_detached': len(w.detached),
                'sco_active': int(bool(run or w.yld or w.paused)), 'sco_id': IDS[w.cur] if w.cur else 0}[r.entry.func]
        for st, ret in r.rets:
            v = st.val(ret)
            if v is None or v & 0xffffffff != want:
                self.rep(st, '%s says %s, expected %s' % (r.entry.func, v, want))
            self.compare(st, self.w, None)
        if not r.rets:
            raise AnalysisBroken('no result')
        return self.n, []


def c29(ck):
    ck.rule('each operation of the switching core, for every number of scheduled and paused coroutines up to the bound, '
            'inside and outside of a coroutine: the queues, the index of paused ones, the counts, the running coroutine '
            'and the place that is switched to are those of the abstract scheduler, and nothing changes afterwards')
    ck.rule('a new coroutine runs its function once with its argument; whoever started it is scheduled once')
    ck.rule('the switch between machine states, for every kind of origin and destination: the state is saved in that of the '
            'one that is left, the running one is recorded, and the memory of one that ended is released once, with its '
            'own arguments, after it was left')
    ck.rule('the assembly of the switch (disassembled, registers and memory as terms): one that is left and switched to '
            'again returns to where it left with the stack pointer and every register a callee has to preserve')
    for d in configs(ck):
        mod = module(d)
        mo = dict(BIG, cls=CoreModel, sco_prims=False, outside=True)
        ws = list(worlds(ck.tier == 'thorough'))

        def arg(n):
            def setup(r, st):
                r.args[0] = const(IDS[n] if n else 0)
            return setup
        es = []
        for w in ws:
            lab = w.show()
            for op in ('yield', 'pause', 'exit'):
                es.append(Entry('sco_' + op, label='%s: %s' % (op, lab), defs=d, info=(w, op, None), model=mo))
            for a in (None, 'P', 'Q', 'R', 'C', 'N'):
                es.append(Entry('sco_resume', label='resume %s: %s' % (a, lab), setup=arg(a), defs=d,
                                info=(w, 'resume', a), model=mo))
            if 'sco_detach' in mod.funcs and not w.want_exit and len(w.run) < 2 and len(w.yld) < 2:
                for a in ('P', 'R'):
                    es.append(Entry('sco_detach', label='detach %s: %s' % (a, lab), setup=arg(a), defs=d,
                                    info=(w, 'detach', a), model=mo))
                w2 = w.copy()
                w2.detached = {'D'}
                for a in ('D', 'P'):
                    es.append(Entry('sco_attach', label='attach %s: %s' % (a, lab), setup=arg(a), defs=d,
                                    info=(w2, 'attach', a), model=mo))
        where = {}
        for e, (n, wh) in ck.run(es, lambda e: [Core()], lambda r, m: m[0].finish(r)):
            ck.count('operations of the core', 1)
            ck.count('states compared', n)
            for k, i, p in wh:
                where.setdefault((k, i), set()).add(p)
        for (k, i), ps in sorted(where.items(), key=str):
            ck.count('places in the index', 1)
            if len(ps) > 1 or i is None:
                ck.violate('core', 'a %s coroutine is not looked for where it was put' % k, function='sco_resume')
        es = [Entry(f, label='%s: %s' % (f, w.show()), defs=d, info=(w, f, None), model=mo)
              for f in ('sco_info_scheduled', 'sco_info_running', 'sco_info_paused', 'sco_active', 'sco_id')
              for w in ws if not w.want_exit and f in mod.funcs]
        for e, (n, _) in ck.run(es, lambda e: [Query()], lambda r, m: m[0].finish(r)):
            ck.count('states compared', n)
        es = [Entry('sco_start', label='start: ' + w.show(), defs=d, info=(w, 'start', None), model=mo)
              for w in ws if len(w.run) < 2 and len(w.yld) < 2]
        firsts = set()
        for e, (n, f) in ck.run(es, lambda e: [Begin()], lambda r, m: m[0].finish(r)):
            ck.count('states compared', n)
            firsts |= set(f)
        es = [Entry(f, label='a new coroutine: ' + w.show(), defs=d, info=(w, 'begin', None), model=mo)
              for f in sorted(firsts) for w in ws]
        for e, (n, _) in ck.run(es, lambda e: [NewCo()], lambda r, m: m[0].finish(r)):
            ck.count('states compared', n)
            ck.count('new coroutines', 1)
        machine(ck, d)
    ck.need('operations of the core', 100)
    ck.need('states compared', 500)
    ck.need('new coroutines', 20)
    ck.need('places in the index', 2)


# ---------------------------------------------------------------- the machine switch
DESC = ('stack', 'stack_size', 'entry', 'cleanup', 'udata')


class LlModel(Model):
    def mergekey(self, st):
        return Model.mergekey(self, st) + tuple(st.g.get(k) for k in ('nsw', 'clean', 'pend', 'ran'))

    def call(self, st, name, args, ins):
        if name == '_llco_asm_switch':
            return self.switch(st, args, ins)
        f = self.mod.funcs.get(name)
        if f is not None and f.noreturn and name != self.root:
            st.g['dead'] = 1
            return []
        if f is not None:
            return None
        return self.external(st, name, args, ins)

    root = None

    def external(self, st, name, args, ins):
        if name == 'abort':
            self.eng.exits.append((st, ins))
            return []
        return Model.external(self, st, name, args, ins)

    def switch(self, st, args, ins):
        st.g['nsw'] += 1
        for m in self.eng._ov['on_call']:
            m.switched(st, args, ins)
        out = []
        for pend in ('no', 'yes', 'null'):
            z = st.copy()
            z.g['pend'] = pend
            self.pending(z, pend)
            cell(z, glob('llco_cur'), 0, z.g['from'])
            out.append((z, ZERO))
        return out

    def pending(self, st, pend):
        cell(st, glob('llco_cleanup_needed'), 0, ZERO if pend == 'no' else ONE, 1)
        for f in DESC:
            v = of(atom('p', 'ended', f, lo=4096))
            cell(st, glob('llco_cleanup_desc'), self.mod.off('llco_desc', f),
                 ZERO if pend == 'null' and f == 'cleanup' else v)

    def indirect(self, st, fn, args, ins):
        for m in self.eng._ov['on_call']:
            m.on_call(st, '<indirect>', [fn] + args, ins)
        return [(st, None)]


class Ll(Monitor):
    """from the machine state of one coroutine to that of another"""

    def start(self, r, st):
        self.r = r
        self.n = 0
        self.first = set()
        off = r.mod.off
        self.cur, self.to, self.final = r.entry.info
        st.g.update(nsw=0, clean=0, pend='', ran=0)
        for n in 'AB':
            r.eng.note_stype(node(n), 'struct.llco')
            st.assume(mk_eq(sub(node(n), glob('llco_thread'))), False)
            for f in DESC:
                cell(st, node(n), off('llco', 'desc') + off('llco_desc', f), of(atom('p', 'desc', n, f, lo=4096)))
        st.assume(mk_eq(sub(node('A'), node('B'))), False)
        for f in DESC:
            cell(st, glob('llco_thread'), off('llco', 'desc') + off('llco_desc', f), ZERO)
        cell(st, glob('llco_cur'), 0, self.at(self.cur, ZERO))
        cell(st, glob('llco_cleanup_active'), 0, ZERO, 1)
        r.eng.model.pending(st, 'no')
        st.g['from'] = self.at(self.cur, glob('llco_thread')) if self.cur in ('A', 'B') else glob('llco_thread')

    def at(self, n, main):
        return node(n) if n in ('A', 'B') else glob('llco_thread') if n == 'main' else main

    def rep(self, st, msg, ins=None):
        self.eng.report(st, 'machine', msg + ' (from %s to %s%s)' % (self.cur or 'main', self.to or 'main',
                                                                  ', final' if self.final else ''), ins)

    def flag(self, st, g):
        v = read(st, glob(g), 0)
        v = None if v is None else st.val(v)
        return None if v is None else v & 1

    def switched(self, st, args, ins):
        self.n += 1
        off = self.r.mod.off
        fr = st.g['from']
        if st.g['nsw'] > 1:
            self.rep(st, 'it switches twice', ins)
        if not st.eq(args[0], add(fr, const(off('llco', 'ctx')))):
            self.rep(st, 'the machine state is not saved in that of the running coroutine', ins)
        if self.to == 'new':
            self.new(st, args, ins)
        else:
            to = self.at(self.to, glob('llco_thread'))
            if not st.eq(args[1], add(to, const(off('llco', 'ctx')))):
                self.rep(st, 'it switches to another machine state', ins)
            cur = read(st, glob('llco_cur'), 0)
            if not st.eq(cur, to) and not (to is glob('llco_thread') and st.val(cur) == 0):
                self.rep(st, 'the running coroutine is not the one that is switched to', ins)
        v = self.flag(st, 'llco_cleanup_needed')
        if v != self.final:
            self.rep(st, 'an ended coroutine is not released' if self.final else
                     'a coroutine is released that did not end', ins)
        elif self.final:
            for f in DESC:
                a = read(st, glob('llco_cleanup_desc'), off('llco_desc', f))
                if f != 'entry' and a is not read(st, fr, off('llco', 'desc') + off('llco_desc', f)):
                    self.rep(st, 'another %s than that of the ended coroutine is released' % f, ins)
        if self.flag(st, 'llco_cleanup_active') != 0:
            self.rep(st, 'it switches during a release', ins)
        st.g['clean'] = 0

    def new(self, st, args, ins):
        off = self.r.mod.off
        d = self.r.args[0]
        for f in DESC:
            if read(st, glob('llco_desc'), off('llco_desc', f)) is not read(st, d, off('llco_desc', f)):
                self.rep(st, 'the new coroutine does not get its own %s' % f, ins)
        c = {f: read(st, args[1], off('llco_asmctx', f)) for f in ('rip', 'rsp', 'r12', 'r13')}
        sp = read(st, d, off('llco_desc', 'stack'))
        sz = read(st, d, off('llco_desc', 'stack_size'))
        if c['rip'] is not glob('_llco_asm_entry'):
            self.rep(st, 'the new coroutine does not begin at the entry', ins)
        if c['rsp'] is None or not st.le(sp, c['rsp']) or not st.le(add(c['rsp'], const(8)), add(sp, sz)):
            self.rep(st, 'the stack pointer of the new coroutine is outside of its stack', ins)
        elif not (sub(c['rsp'], add(sp, sz)).m == () and sub(c['rsp'], add(sp, sz)).c % 16 == 8):
            self.rep(st, 'the stack pointer of the new coroutine is not aligned', ins)
        f = c['r12']
        if f is None or len(f.m) != 1 or f.m[0][0].kind != 'g':
            raise AnalysisBroken('the first function of a new coroutine')
        self.first.add(f.m[0][0].a[0])

    def on_call(self, st, name, args, ins):
        if name != '<indirect>':
            return
        e = {f: of(atom('p', 'ended', f, lo=4096)) for f in DESC}
        if args[0] is e['cleanup']:
            if st.g['clean'] or st.g['pend'] != 'yes':
                self.rep(st, 'an ended coroutine is released twice, or one that did not end', ins)
            if args[1] is not e['stack'] or args[2] is not e['stack_size'] or args[3] is not e['udata']:
                self.rep(st, 'an ended coroutine is released with other arguments', ins)
            if self.flag(st, 'llco_cleanup_active') != 1:
                self.rep(st, 'the release of a coroutine is not recorded as under way', ins)
            st.g['clean'] = 1
        else:
            self.user(st, args, ins)

    def user(self, st, args, ins):
        self.rep(st, 'a function is called that nobody asked for', ins)

    def after(self, st):
        if st.g['pend'] == 'yes' and not st.g['clean']:
            self.rep(st, 'a coroutine that ended before is not released')
        for g in ('llco_cleanup_needed', 'llco_cleanup_active'):
            if self.flag(st, g) != 0:
                self.rep(st, 'the release of an ended coroutine is not recorded as done')

    def finish(self, r):
        same = self.to == self.cur or (self.to == '' and self.cur == 'main')
        for st, _ in r.rets:
            if st.g['nsw'] != (0 if same else 1):
                self.rep(st, 'it switches %d times' % st.g['nsw'])
            elif not same:
                self.after(st)
        if self.to == 'new':
            for st, i in r.eng.exits:
                if st.g['nsw'] or st.nonzero(r.args[0]) and not st.le(
                        read(st, r.args[0], r.mod.off('llco_desc', 'stack_size')), const(1 << 16)):
                    self.rep(st, 'a coroutine with a large stack is refused')
        elif r.eng.exits:
            self.rep(None, 'switching ends the program')
        if not r.rets:
            raise AnalysisBroken('no switch')
        return self.n, sorted(self.first)


class LlEntry(Ll):
    """the first function of a coroutine"""

    def start(self, r, st):
        Ll.start(self, r, st)
        st.g['pend'] = self.to
        r.eng.model.pending(st, self.to)
        r.eng.model.root = r.entry.func
        self.d = {}
        for f in DESC:
            self.d[f] = of(atom('p', 'new', f, lo=4096))
            cell(st, glob('llco_desc'), r.mod.off('llco_desc', f), self.d[f])
        self.runs = 0

    def switched(self, st, args, ins):
        self.rep(st, 'a new coroutine leaves before it began', ins)

    def user(self, st, args, ins):
        off = self.r.mod.off
        self.runs += 1
        self.after(st)
        if args[0] is not self.d['entry'] or args[1] is not self.d['udata'] or st.g['ran']:
            self.rep(st, 'a new coroutine does not run its function once with its argument', ins)
        st.g['ran'] = 1
        cur = read(st, glob('llco_cur'), 0)
        if self.eng.roots(rest(cur)) is None or self.eng.roots(rest(cur)).kind != 'o' or cur in (node('A'), node('B')):
            self.rep(st, 'a new coroutine runs without being the running one', ins)
            return
        for f in DESC:
            if read(st, cur, off('llco', 'desc') + off('llco_desc', f)) is not self.d[f]:
                self.rep(st, 'a new coroutine has another %s' % f, ins)

    def finish(self, r):
        if self.runs != 1:
            self.rep(None, 'a new coroutine runs its function %d times' % self.runs)
        return self.runs, []


# ---------------------------------------------------------------- the assembly of the switch
SAVED = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')


def disassemble(text):
    lines = [re.sub(r'\\([0-9A-F]{2})', lambda m: chr(int(m.group(1), 16)), m.group(1))
             for m in re.finditer(r'^module asm "(.*)"$', text, re.M)]
    if not lines:
        raise AnalysisBroken('the assembly of the switch is not found')
    with tempfile.TemporaryDirectory(prefix='verif-asm-') as d:
        a, o = os.path.join(d, 'a.s'), os.path.join(d, 'a.o')
        open(a, 'w').write('\n'.join(lines) + '\n')
        r = subprocess.run(['clang-18', '-c', a, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('the assembly of the switch: ' + r.stderr[:300])
        r = subprocess.run(['objdump', '-d', '--no-show-raw-insn', o], capture_output=True, text=True)
    code, names = {}, {}
    order = []
    for ln in r.stdout.splitlines():
        m = re.match(r'^([0-9a-f]+) <(\w+)>:', ln)
        if m:
            names[m.group(2)] = int(m.group(1), 16)
        m = re.match(r'^\s*([0-9a-f]+):\t(\S+)\s*([^#<]*)(?:#\s*([0-9a-f]+))?', ln)
        if m:
            a = int(m.group(1), 16)
            order.append(a)
            code[a] = (m.group(2), m.group(3).strip(), int(m.group(4), 16) if m.group(4) else None)
    nxt = dict(zip(order, order[1:]))
    return code, nxt, names


class Asm:
    """registers and memory as terms over their values at the beginning: ('r', reg, offset) and ('m', term, 0)"""

    def __init__(self, code, nxt, regs, mem):
        self.code, self.nxt, self.regs, self.mem = code, nxt, dict(regs), dict(mem)

    def reg(self, r):
        return self.regs.get(r, ('r', r, 0))

    def addr(self, op):
        m = re.match(r'^(-?(?:0x)?[0-9a-f]+)?\(%(\w+)\)$', op)
        if not m:
            raise AnalysisBroken('assembly operand ' + op)
        b = self.reg(m.group(2))
        return (b[0], b[1], b[2] + (int(m.group(1), 0) if m.group(1) else 0))

    def load(self, a):
        return self.mem.get(a, ('m', a, 0))

    def run(self, pc):
        for _ in range(100):
            op, args, tgt = self.code[pc]
            op = op[:-1] if op in ('movq', 'leaq', 'jmpq', 'pushq', 'popq', 'retq', 'addq', 'subq') else op
            a = re.split(r',(?![^(]*\))', args) if args else []
            if op == 'mov':
                if a[0].startswith('%') and a[1].startswith('%'):
                    self.regs[a[1][1:]] = self.reg(a[0][1:])
                elif a[0].startswith('%'):
                    self.mem[self.addr(a[1])] = self.reg(a[0][1:])
                elif a[1].startswith('%'):
                    self.regs[a[1][1:]] = self.load(self.addr(a[0]))
                else:
                    raise AnalysisBroken('assembly ' + op + args)
            elif op == 'lea':
                self.regs[a[1][1:]] = ('code', tgt, 0) if tgt is not None else self.addr(a[0])
            elif op == 'push':
                sp = self.reg('rsp')
                sp = (sp[0], sp[1], sp[2] - 8)
                self.regs['rsp'] = sp
                self.mem[sp] = self.reg(a[0][1:])
            elif op == 'pop':
                sp = self.reg('rsp')
                self.regs[a[0][1:]] = self.load(sp)
                if a[0] != '%rsp':
                    self.regs['rsp'] = (sp[0], sp[1], sp[2] + 8)
            elif op in ('add', 'sub') and a[0].startswith('$') and a[1].startswith('%'):
                v = self.reg(a[1][1:])
                k = int(a[0][1:], 0)
                self.regs[a[1][1:]] = (v[0], v[1], v[2] + (k if op == 'add' else -k))
            elif op == 'xor' and a[0] == a[1] or op == 'xor' and a[0][2:] == a[1][2:]:
                self.regs['rax' if a[1] == '%eax' else a[1][1:]] = ('zero', None, 0)
            elif op in ('nop', 'endbr64', 'data16', 'cs'):
                pass
            elif op == 'ret':
                return 'ret', self.load(self.reg('rsp'))
            elif op == 'jmp' and args.startswith('*%'):
                return 'jmp', self.reg(args[2:])
            elif op == 'jmp' and args.startswith('*'):
                return 'jmp', self.load(self.addr(args[1:]))
            else:
                raise AnalysisBroken('assembly %s %s' % (op, args))
            pc = self.nxt.get(pc)
            if pc is None or pc not in self.code:
                raise AnalysisBroken('the assembly of the switch does not end')
        raise AnalysisBroken('the assembly of the switch does not end')


def assembly(ck, d):
    import ir
    code, nxt, names = disassemble(ir.build_ir('neco.c', d))
    if '_llco_asm_switch' not in names or '_llco_asm_entry' not in names:
        raise AnalysisBroken('anchor vanished: _llco_asm_switch')
    mod = module(d)
    bad = lambda m: ck.violate('registers', m, function='_llco_asm_switch')
    a = Asm(code, nxt, {}, {})
    how, target = a.run(names['_llco_asm_switch'])
    saved = {k: v for k, v in a.mem.items()}
    for k in saved:
        if k[0] == 'r' and k[1] == 'rdi' and not 0 <= k[2] <= mod.sizeof(mod.types['struct.llco_asmctx']) - 8:
            bad('the switch writes outside of the machine state')
        elif k[0] != 'r' or k[1] not in ('rdi', 'rsp') or (k[1] == 'rsp' and k[2] >= 0):
            bad('the switch writes elsewhere')

    def back(v):
        """the value when the one that is switched to had left by the same code"""
        if v[0] == 'm':
            b = v[1]
            if b[0] == 'r' and b[1] == 'rsi':
                w = saved.get(('r', 'rdi', b[2]))
            else:
                bb = back(b)
                w = None if bb is None else saved.get(bb, ('m', bb, 0) if bb[0] == 'r' and bb[1] == 'rsp' else None)
            return None if w is None else (w[0], w[1], w[2] + v[2])
        return None

    t = back(target)
    ck.count('registers of the switch', 1)
    if how == 'ret' and t is not None and t[0] == 'm':
        # straight to the return address
        end = {r: back(a.reg(r)) for r in SAVED + ('rsp',)}
        if t != ('m', ('r', 'rsp', 0), 0):
            bad('a coroutine does not continue where it left')
        sp = end['rsp']
    elif t is None or t[0] != 'code' or t[1] not in code:
        bad('a coroutine does not continue where it left')
        return
    else:
        b = Asm(code, nxt, {r: back(a.reg(r)) or ('junk', r, 0) for r in SAVED + ('rsp', 'rdi', 'rsi', 'rax', 'rdx', 'rcx')},
                saved)
        how, t2 = b.run(t[1])
        end = {r: b.reg(r) for r in SAVED + ('rsp',)}
        if how != 'ret' or t2 != ('m', ('r', 'rsp', 0), 0):
            bad('a coroutine does not return to where it left')
        sp = end['rsp']
    if sp != ('r', 'rsp', 0):
        bad('a coroutine continues with another stack pointer')
    for r in SAVED:
        ck.count('registers of the switch', 1)
        if end[r] != ('r', r, 0):
            bad('a coroutine continues with another value in %s' % r)
    # a new coroutine
    f = {v[0]: k for k, v in mod.fields['llco_asmctx'].items()}
    e = Asm(code, nxt, {r: ('new', r, 0) for r in SAVED + ('rsp',)}, {})
    how, t = e.run(names['_llco_asm_entry'])
    if how != 'jmp' or t != ('new', 'r12', 0) or e.reg('rsp') != ('new', 'rsp', 0):
        bad('a new coroutine does not begin with its first function on its own stack')
    for r in ('r12', 'r13', 'rsp'):
        ck.count('registers of the switch', 1)
        if a.reg(r) != ('m', ('r', 'rsi', f.get(r, -1)), 0):
            bad('a new coroutine begins with another value in %s' % r)
    if target != ('m', ('r', 'rsi', f.get('rip', -1)), 0):
        bad('a new coroutine does not begin at the entry')


def machine(ck, d):
    mod = module(d)
    if 'llco' not in mod.fields or 'ctx' not in {v[0] for v in mod.fields['llco'].values()}:
        return
    assembly(ck, d)
    mo = dict(BIG, cls=LlModel, sco_prims=False, outside=True)
    es = []
    for cur in ('', 'main', 'A'):
        for to in ('', 'A', 'B'):
            for final in (0, 1):
                def su(r, st, to=to, final=final):
                    r.args[0] = node(to) if to else ZERO
                    r.args[1] = const(final)
                es.append(Entry('llco_switch', label='switch from %s to %s%s' % (cur or 'none', to or 'main', ' (final)' * final),
                                setup=su, defs=d, info=(cur, to, final), model=mo))
        for final in (0, 1):
            def su(r, st, final=final):
                r.args[0] = node('desc')
                r.args[1] = const(final)
                r.eng.note_stype(node('desc'), 'struct.llco_desc')
                for f in DESC:
                    cell(st, node('desc'), r.mod.off('llco_desc', f), of(atom('p', 'start', f, lo=1, hi=(1 << 47))))
            es.append(Entry('llco_start', label='start from %s%s' % (cur or 'none', ' (final)' * final), setup=su, defs=d,
                            info=(cur, 'new', final), model=mo))
    first = set()
    for e, (n, f) in ck.run(es, lambda e: [Ll()], lambda r, m: m[0].finish(r)):
        ck.count('machine switches', n)
        first |= set(f)
    es = [Entry(f, label='first function of a coroutine, released before: ' + p, defs=d, info=('', p, 0), model=mo)
          for f in sorted(first) for p in ('no', 'yes', 'null')]
    for e, (n, _) in ck.run(es, lambda e: [LlEntry()], lambda r, m: m[0].finish(r)):
        ck.count('first functions', n)
    ck.need('machine switches', 10)
    ck.need('first functions', 3)
    ck.need('registers of the switch', 8)


# ---------------------------------------------------------------- C31
PAGE = 4096
MGR = node('mgr')
STK = node('stk')


class Conf:
    def __init__(self, stacksz=8 * PAGE, gap=2 * PAGE, defcap=2, maxcap=3, guards=0, nofree=0, norelease=0, malloc=0):
        self.stacksz, self.gap, self.defcap, self.maxcap = stacksz, gap, defcap, maxcap
        self.guards, self.nofree, self.norelease, self.malloc = guards, nofree, norelease, malloc

    def label(self):
        return 'stack size %d, gap %d%s' % (self.stacksz, self.gap, ''.join(
            ', ' + k for k in ('guards', 'nofree', 'norelease', 'malloc') if getattr(self, k)))

    def key(self):
        return tuple(sorted(vars(self).items()))


class Group:
    """a mapped group of stacks"""

    def __init__(self, conf, name, cap, pos, used):
        self.name, self.cap, self.pos, self.used = name, cap, pos, frozenset(used)
        self.base = node(name)
        self.h = PAGE + conf.gap
        self.step = conf.stacksz + conf.gap
        self.allocsz = self.h + self.step * cap

    def slot(self, i):
        return add(self.base, const(self.h + self.step * i))


class StackModel(Model):
    def call(self, st, name, args, ins):
        if name in ('malloc', 'free', 'calloc', 'neco_malloc', 'neco_free'):
            return self.external(st, name, args, ins)
        f = self.mod.funcs.get(name)
        if f is not None:
            return None
        return self.external(st, name, args, ins)

    def mergekey(self, st):
        return Model.mergekey(self, st) + tuple(st.g.get(k) for k in ('ev', 'gone', 'map'))

    def external(self, st, name, args, ins):
        ev = lambda s, *e: s.g.__setitem__('ev', s.g['ev'] + (e,))
        if name == 'sysconf':
            return [(st, const(PAGE))]
        if name == 'mmap':
            if st.val(args[0]) == 0:
                z = st.copy()
                ev(z, 'failed', 'mmap')
                ev(st, 'map', st.val(args[1]), st.val(args[2]), st.val(args[3]))
                st.g['map'] = st.val(args[1])
                return [(z, const(-1)), (st, node('M'))]
            ev(st, 'remap', args[0], st.val(args[1]), st.val(args[2]), st.val(args[3]))
            return [(st, args[0])]
        if name == 'munmap':
            ev(st, 'unmap', args[0], st.val(args[1]))
            st.g['gone'] = st.g['gone'] + (str(rest(args[0])),)
            return [(st, ZERO)]
        if name == 'mprotect':
            z = st.copy()
            ev(z, 'failed', 'mprotect')
            ev(st, 'protect', args[0], st.val(args[1]), st.val(args[2]))
            return [(st, ZERO), (z, const(-1))]
        if name in ('malloc', 'neco_malloc', 'calloc'):
            z = st.copy()
            ev(z, 'failed', 'malloc')
            ev(st, 'malloc', st.val(args[0]))
            return [(z, ZERO), (st, node('H'))]
        if name in ('free', 'neco_free'):
            ev(st, 'free', args[0])
            return [(st, None)]
        return Model.external(self, st, name, args, ins)


class Stacks(Monitor):
    def start(self, r, st):
        self.r = r
        self.n = 0
        self.conf, self.groups, self.order, self.op, self.arg = r.entry.info
        st.g.update(ev=(), gone=(), map=None)
        off = r.mod.off
        m, c = 'stack_mgr0', self.conf
        r.args[0] = MGR
        r.eng.note_stype(MGR, 'struct.stack_mgr0')
        names = [node(n) for n in ('mgr', 'stk', 'G', 'K', 'M', 'H')]
        for a, b in itertools.combinations(names, 2):
            st.assume(mk_eq(sub(a, b)), False)
        if self.op == 'init':
            r.args[1] = node('opts')
            r.eng.note_stype(node('opts'), 'struct.stack_opts')
            for f, v in (('stacksz', c.stacksz), ('defcap', c.defcap), ('maxcap', c.maxcap), ('gapsz', c.gap)):
                cell(st, node('opts'), off('stack_opts', f), const(v))
            for f, v in (('useguards', c.guards), ('nostackfreelist', c.nofree), ('nopagerelease', c.norelease),
                         ('onlymalloc', c.malloc)):
                cell(st, node('opts'), off('stack_opts', f), const(v), 1)
            return
        for f, v in (('stacksz', c.stacksz), ('defcap', c.defcap), ('maxcap', c.maxcap), ('gapsz', c.gap), ('pagesz', PAGE)):
            cell(st, MGR, off(m, f), const(v))
        for f, v in (('useguards', c.guards), ('nostackfreelist', c.nofree), ('nopagerelease', c.norelease),
                     ('onlymalloc', c.malloc)):
            cell(st, MGR, off(m, f), const(v), 1)
        gs = r.mod.sizeof(r.mod.types['struct.stack_group'])
        fs = r.mod.sizeof(r.mod.types['struct.stack_freed'])
        e = [add(MGR, const(off(m, 'gendcaps') + gs * i)) for i in (0, 1)]
        for x in e:
            for f in ('allocsz', 'stacksz', 'gapsz', 'pagesz', 'stack0', 'cap', 'pos', 'use', 'prev', 'next'):
                cell(st, x, off('stack_group', f), ZERO)
            cell(st, x, off('stack_group', 'guards'), ZERO, 1)
        cell(st, MGR, off(m, 'group_head'), e[0])
        cell(st, MGR, off(m, 'group_tail'), e[1])
        self.link(st, [e[0]] + [g.base for g in self.groups] + [e[1]], 'stack_group')
        for g in self.groups:
            r.eng.note_stype(g.base, 'struct.stack_group')
            for f, v in (('allocsz', g.allocsz), ('stacksz', c.stacksz), ('gapsz', c.gap), ('pagesz', PAGE), ('cap', g.cap),
                         ('pos', g.pos), ('use', len(g.used))):
                cell(st, g.base, off('stack_group', f), const(v))
            cell(st, g.base, off('stack_group', 'guards'), const(c.guards), 1)
            cell(st, g.base, off('stack_group', 'stack0'), g.slot(0))
        z = [add(MGR, const(off(m, 'fendcaps') + fs * i)) for i in (0, 1)]
        for x in e:
            for g in [y.base for y in self.groups] + [node('M')]:
                st.assume(mk_eq(sub(g, x)), False)
        for x in z:
            for g in self.groups:
                for i in range(g.cap):
                    st.assume(mk_eq(sub(g.slot(i), x)), False)
        if c.nofree:
            cell(st, MGR, off(m, 'free_head'), ZERO)
            cell(st, MGR, off(m, 'free_tail'), ZERO)
        else:
            cell(st, MGR, off(m, 'free_head'), z[0])
            cell(st, MGR, off(m, 'free_tail'), z[1])
            self.link(st, [z[0]] + [g.slot(i) for g, i in self.order] + [z[1]], 'stack_freed')
            for g, i in self.order:
                cell(st, g.slot(i), off('stack_freed', 'group'), g.base)
        if self.op in ('get', 'put'):
            r.args[1] = STK
            r.eng.note_stype(STK, 'struct.stack0')
        if self.op == 'put':
            a = node('H') if c.malloc else self.arg[0].slot(self.arg[1])
            cell(st, STK, off('stack0', 'addr'), a)
            cell(st, STK, off('stack0', 'size'), const(c.stacksz))
            cell(st, STK, off('stack0', 'group'), ZERO if c.malloc else self.arg[0].base)

    def link(self, st, ns, s):
        off = self.r.mod.off
        for a, b in zip(ns, ns[1:]):
            cell(st, a, off(s, 'next'), b)
            cell(st, b, off(s, 'prev'), a)

    def walk(self, st, s, head, tail, init):
        """what is linked, from both sides"""
        off = self.r.mod.off
        h, t = read(st, MGR, off('stack_mgr0', head)), read(st, MGR, off('stack_mgr0', tail))
        if h is None or t is None:
            return None
        out, p = [], h
        for _ in range(12):
            x = read(st, p, off(s, 'next'))
            if x is None or st.val(x) is not None:
                return None
            if read(st, x, off(s, 'prev')) is not p:
                return None
            if x is t:
                return out
            out.append(x)
            p = x
        return None

    def rep(self, st, msg, ins=None):
        w = ', '.join('%s: %d of %d begun, in use %s' % (g.name, g.pos, g.cap, sorted(g.used)) for g in self.groups)
        self.eng.report(st, 'stacks', '%s (%s; %s)' % (msg, self.conf.label(), w or 'no groups'), ins)

    def touch(self, st, addr, ins):
        if str(rest(addr)) in st.g['gone']:
            self.rep(st, 'memory is used after it was unmapped', ins)

    def on_load(self, st, tag, addr, val, ins):
        self.touch(st, addr, ins)
        for g in self.groups:
            if rest(addr) is g.base and addr.c >= PAGE:
                i, o = divmod(addr.c - g.h, g.step)
                if (g, i) not in self.order and not (self.op == 'put' and self.arg == (g, i)):
                    self.rep(st, 'the links of a stack are used that is not free', ins)

    def on_store(self, st, tag, addr, val, ins, old):
        self.touch(st, addr, ins)
        for g in self.groups:
            if rest(addr) is g.base and self.op != 'init':
                if addr.c < PAGE:
                    continue
                i, o = divmod(addr.c - g.h, g.step)
                if i < 0 or i >= g.cap or o >= self.conf.stacksz:
                    self.rep(st, 'memory between the stacks is written', ins)
                elif i in g.used and not (self.op == 'put' and self.arg == (g, i)):
                    self.rep(st, 'the stack of another coroutine is written', ins)

    def fields(self, st, p):
        off = self.r.mod.off
        out = {}
        for f in ('allocsz', 'stacksz', 'gapsz', 'cap', 'pos', 'use'):
            v = read(st, p, off('stack_group', f))
            out[f] = None if v is None else st.val(v)
        out['stack0'] = read(st, p, off('stack_group', 'stack0'))
        v = read(st, p, off('stack_group', 'guards'))
        out['guards'] = None if v is None else st.val(v)
        return out

    def expect(self, st, groups, order, what):
        """groups: [(base, pos, use)]"""
        got = self.walk(st, 'stack_group', 'group_head', 'group_tail', None)
        if got is None or [str(x) for x in got] != [str(b) for b, _, _ in groups]:
            self.rep(st, '%s: the groups are not linked as expected' % what)
            return
        for b, pos, use in groups:
            f = self.fields(st, b)
            if f['pos'] != pos:
                self.rep(st, '%s: the number of stacks begun in a group is %s, expected %s' % (what, f['pos'], pos))
            if f['use'] != use:
                self.rep(st, '%s: the number of stacks in use in a group is %s, expected %s' % (what, f['use'], use))
        if not self.conf.nofree:
            got = self.walk(st, 'stack_freed', 'free_head', 'free_tail', None)
            if got is None or sorted(map(str, got)) != sorted(str(x) for x, _ in order):
                self.rep(st, '%s: the free stacks are not linked as expected' % what)
                return
            for x, b in order:
                if read(st, x, self.r.mod.off('stack_freed', 'group')) is not b:
                    self.rep(st, '%s: a free stack does not name its group' % what)

    def unmaps(self, st, want, what):
        got = sorted((str(e[1]), e[2]) for e in st.g['ev'] if e[0] == 'unmap')
        if got != sorted((str(g.base), g.allocsz) for g in want):
            self.rep(st, '%s: unmapped is %s' % (what, ', '.join('%s with size %s' % x for x in got) or 'nothing'))

    def finish(self, r):
        for st, ret in r.rets:
            self.n += 1
            getattr(self, 'end_' + self.op)(st, ret)
        if not r.rets:
            raise AnalysisBroken('%s does not return' % r.entry.func)
        return self.n

    def end_init(self, st, ret):
        off, c = self.r.mod.off, self.conf
        f = {x: read(st, MGR, off('stack_mgr0', x)) for x in ('stacksz', 'gapsz', 'pagesz', 'defcap', 'maxcap')}
        f = {k: None if v is None else st.val(v) for k, v in f.items()}
        if f['stacksz'] is None or f['stacksz'] < (c.stacksz or 1) or f['stacksz'] % PAGE:
            self.rep(st, 'a stack has %s bytes' % f['stacksz'])
        if not f['defcap'] or not f['maxcap'] or f['pagesz'] != PAGE:
            self.rep(st, 'the number of stacks in a group is not set')
        if not f['gapsz']:
            self.rep(st, 'there is no gap between stacks')
        for x, v in (('useguards', c.guards), ('nostackfreelist', c.nofree), ('nopagerelease', c.norelease),
                     ('onlymalloc', c.malloc)):
            g = read(st, MGR, off('stack_mgr0', x))
            if g is None or st.val(g) is None or st.val(g) & 1 != v:
                self.rep(st, 'the option %s is lost' % x)
        for s, h, t in (('stack_group', 'group_head', 'group_tail'), ('stack_freed', 'free_head', 'free_tail')):
            if s == 'stack_freed' and c.nofree:
                continue
            if self.walk(st, s, h, t, None) != []:
                self.rep(st, 'the lists are not empty at the beginning')

    def same(self, st, what, plus=()):
        self.expect(st, [(g.base, g.pos, len(g.used)) for g in self.groups] + list(plus),
                    [(g.slot(i), g.base) for g, i in self.order], what)
        self.unmaps(st, [], what)

    def newgroup(self, st):
        """the group that was mapped"""
        f = self.fields(st, node('M'))
        c = self.conf
        size = st.g['map']
        e = [x for x in st.g['ev'] if x[0] == 'map'][0]
        if e[2] is None or e[2] & 3 != 3:
            self.rep(st, 'the memory of the stacks is not readable and writable')
        if f['allocsz'] != size:
            self.rep(st, 'the size of a group is recorded as %s and mapped as %s' % (f['allocsz'], size))
        if f['stack0'] is None or rest(f['stack0']) is not node('M') or None in f.values():
            self.rep(st, 'a new group is not set up')
            return None
        g = Group(c, 'M', f['cap'], f['pos'], ())
        g.h, g.step, g.allocsz = f['stack0'].c, f['stacksz'] + f['gapsz'], size
        hdr = self.r.mod.sizeof(self.r.mod.types['struct.stack_group'])
        if f['stacksz'] < c.stacksz or f['gapsz'] < c.gap or f['gapsz'] % PAGE or g.h % 16 or g.h < hdr + f['gapsz'] or f['cap'] < 1:
            self.rep(st, 'the stacks of a new group are not apart from each other and from its header')
        if (g.h - f['gapsz']) % PAGE and f['guards']:
            self.rep(st, 'the guard pages of a new group are not aligned')
        if g.h + g.step * g.cap > size:
            self.rep(st, 'the last stack of a new group is outside of its memory: %d stacks of %d bytes after %d in %d' % (
                g.cap, g.step, g.h, size))
        if bool(f['guards'] & 1) != bool(c.guards):
            self.rep(st, 'the guards of a new group are lost')
        g.gap = f['gapsz']
        return g

    def end_get(self, st, ret):
        off, c = self.r.mod.off, self.conf
        failed = [e for e in st.g['ev'] if e[0] == 'failed']
        v = st.val(ret)
        if v not in (0, -1):
            self.rep(st, 'the result is %s' % v)
            return
        mapped = [e for e in st.g['ev'] if e[0] == 'map']
        if len(mapped) > 1:
            self.rep(st, 'two groups are mapped')
            return
        if bool(failed) != (v == -1):
            self.rep(st, 'a failure is not reported' if failed else 'a failure is reported although nothing failed')
        if c.malloc:
            if v == 0:
                e = [e for e in st.g['ev'] if e[0] == 'malloc']
                if len(e) != 1 or e[0][1] is None or e[0][1] < c.stacksz or read(st, STK, off('stack0', 'addr')) is not node('H') \
                        or st.val(read(st, STK, off('stack0', 'size'))) != e[0][1]:
                    self.rep(st, 'a stack is not the memory that was allocated for it')
            return
        new = self.newgroup(st) if mapped else None
        if mapped and new is None:
            return
        if v == -1:
            self.same(st, 'after a failure', [(new.base, 0, 0)] if new else [])
            return
        a = read(st, STK, off('stack0', 'addr'))
        sz = st.val(read(st, STK, off('stack0', 'size')))
        b = read(st, STK, off('stack0', 'group'))
        if sz is None or sz > c.stacksz or sz < c.stacksz:
            self.rep(st, 'a stack has %s bytes' % sz)
        hit = [(g, i) for g, i in self.order if g.slot(i) is a]
        if hit:
            g, i = hit[0]
            gs = [(x.base, x.pos, len(x.used) + (1 if x is g else 0)) for x in self.groups]
            if new:
                self.rep(st, 'a group is mapped and not used')
            self.expect(st, gs, [(x.slot(j), x.base) for x, j in self.order if (x, j) != (g, i)], 'a free stack is used')
        else:
            cand = [(g, g.pos) for g in self.groups if g.pos < g.cap and g.slot(g.pos) is a]
            if new and a is new.slot(0):
                cand = [(new, 0)]
                if new.pos != 1:
                    self.rep(st, 'the first stack of a group is not recorded as begun')
            if not cand:
                self.rep(st, 'the stack that is given is in use, or outside of the memory of its group')
                return
            g, i = cand[0]
            gs = [(x.base, x.pos + (1 if x is g else 0), len(x.used) + (1 if x is g else 0)) for x in self.groups]
            if new:
                gs.append((new.base, 1, 1))
            self.expect(st, gs, [(x.slot(j), x.base) for x, j in self.order], 'a new stack is used')
            if c.guards:
                ps = [(str(e[1]), e[2]) for e in st.g['ev'] if e[0] == 'protect' and e[3] == 0]
                gap = getattr(g, 'gap', c.gap)
                if (str(add(a, const(c.stacksz))), gap) not in ps:
                    self.rep(st, 'there is no guard after the stack')
                if i == 0 and (str(sub(a, const(gap))), gap) not in ps:
                    self.rep(st, 'there is no guard before the first stack')
        if b is not g.base:
            self.rep(st, 'the stack does not name its group')
        self.unmaps(st, [], 'a stack is given')
        for e in st.g['ev']:
            if e[0] in ('protect', 'remap'):
                self.inside(st, e, None)

    def inside(self, st, e, only):
        """memory of other stacks is neither protected nor replaced"""
        p, n = e[1], e[2]
        gs = list(self.groups)
        if st.g['map'] is not None:
            gs.append(self.newgroup(st))
        for g in gs:
            if g is not None and rest(p) is g.base:
                for i in range(g.cap):
                    lo = g.h + g.step * i
                    hi = lo + self.conf.stacksz
                    if p.c < hi and p.c + (n or 0) > lo and (g, i) != only:
                        self.rep(st, 'memory of a stack is taken away')
                if p.c < PAGE or p.c + (n or 0) > g.allocsz:
                    self.rep(st, 'memory outside of the stacks is taken away')
                return
        self.rep(st, 'memory outside of the groups is taken away')

    def end_put(self, st, ret):
        c = self.conf
        if c.malloc:
            if [e for e in st.g['ev'] if e[0] == 'free'] != [('free', node('H'))]:
                self.rep(st, 'a stack is not freed once')
            return
        g, i = self.arg
        for e in st.g['ev']:
            if e[0] == 'remap':
                self.inside(st, e, (g, i))
                lo = g.slot(i).c
                hi = lo + c.stacksz
                if e[1].c < lo or e[1].c + (e[2] or 0) > hi:
                    self.rep(st, 'memory outside of the stack is released')
                if not c.nofree and e[1].c < lo + self.r.mod.sizeof(self.r.mod.types['struct.stack_freed']) and \
                        str(rest(e[1])) not in st.g['gone'] and st.g['ev'].index(e) >= 0 and e[1].c == lo:
                    # fine when it happens before the stack is linked: the links are written to fresh memory
                    pass
                if e[3] is None or e[3] & 3 != 3 or e[4] is None or not e[4] & 0x10:
                    self.rep(st, 'the memory of a stack is not replaced in place, readable and writable')
            elif e[0] in ('protect', 'map', 'malloc', 'free'):
                self.rep(st, 'giving back a stack does something else')
        left = g.used - {i}
        if left:
            gs = [(x.base, x.pos, len(x.used) - (1 if x is g else 0)) for x in self.groups]
            self.expect(st, gs, [(x.slot(j), x.base) for x, j in self.order] + [(g.slot(i), g.base)], 'a stack is given back')
            self.unmaps(st, [], 'a stack is given back')
        elif any(e[0] == 'unmap' for e in st.g['ev']):
            gs = [(x.base, x.pos, len(x.used)) for x in self.groups if x is not g]
            self.expect(st, gs, [(x.slot(j), x.base) for x, j in self.order if x is not g], 'the last stack of a group is given back')
            self.unmaps(st, [g], 'the last stack of a group is given back')
        else:
            # keeping the group is fine too
            gs = [(x.base, x.pos, len(x.used) - (1 if x is g else 0)) for x in self.groups]
            self.expect(st, gs, [(x.slot(j), x.base) for x, j in self.order] + [(g.slot(i), g.base)],
                        'the last stack of a group is given back')

    def end_destroy(self, st, ret):
        self.unmaps(st, self.groups, 'all stacks are released')
        if any(e[0] in ('free', 'map', 'remap', 'protect') for e in st.g['ev']):
            self.rep(st, 'releasing all stacks does something else')


def group_states(conf, name):
    for pos, used in ((0, ()), (1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1))):
        yield Group(conf, name, 2, pos, used)


def c31(ck):
    ck.rule('getting, giving back and releasing stacks, for every state of up to two groups (which stacks are begun, in use '
            'and free, in either order), for every failure of a mapping or protection and every option: a stack that is given '
            'lies between the header and the end of one mapping, apart from all others, has its guards, was not in use, and '
            'is recorded as used; a failure is reported and changes nothing')
    ck.rule('a stack that is given back is free exactly once; only its own memory is replaced; a group is unmapped once, with '
            'the size it was mapped with, only when none of its stacks is used, after all its stacks left the list of free '
            'ones; nothing of it is used afterwards')
    for d in configs(ck):
        mo = dict(BIG, cls=StackModel, sco_prims=False, outside=True)
        es = []

        def entry(op, conf, groups=(), order=(), arg=None, more=''):
            es.append(Entry({'init': 'stack_mgr_init', 'get': 'stack_get', 'put': 'stack_put', 'destroy': 'stack_mgr_destroy'}[op],
                            label='%s: %s%s' % (op, conf.label(), more), defs=d, info=(conf, groups, order, op, arg), model=mo))
        for sz in (1, 100, PAGE - 1, PAGE, PAGE + 1, 100000, 8388608):
            for k in range(16):
                entry('init', Conf(stacksz=sz, gap=1 << 20, defcap=4, maxcap=8192, guards=k & 1, nofree=k >> 1 & 1,
                                   norelease=k >> 2 & 1, malloc=k >> 3))
        entry('init', Conf(stacksz=0, gap=0, defcap=0, maxcap=0))
        confs = [Conf(guards=k & 1, nofree=k >> 1 & 1, norelease=k >> 2 & 1, stacksz=sz)
                 for k in range(8) for sz in (PAGE, 8 * PAGE)]
        for c in confs:
            worlds = [()]
            for a in group_states(c, 'G'):
                worlds.append((a,))
                for b in group_states(c, 'K'):
                    worlds.append((a, b))
            for gs in worlds:
                free = [(g, i) for g in gs for i in range(g.pos) if i not in g.used] if not c.nofree else []
                for order in ([free] if len(free) < 2 else [free, free[::-1]]):
                    lab = '; ' + ', '.join('%s %d/%s' % (g.name, g.pos, ''.join(map(str, sorted(g.used)))) for g in gs)
                    entry('get', c, gs, order, None, lab)
                    for g in gs:
                        for i in g.used:
                            entry('put', c, gs, order, (g, i), lab + ' put %s%d' % (g.name, i))
                entry('destroy', c, gs, free, None)
        # the arithmetic of a new group
        for sz, gap, dc, mc, gu in itertools.product((PAGE, 3 * PAGE, 8388608), (1, 5000, PAGE, 1 << 20), (1, 4, 9), (1, 8, 8192), (0, 1)):
            c = Conf(stacksz=sz, gap=gap, defcap=dc, maxcap=mc, guards=gu)
            entry('get', c, (), (), None, '; new group %d %d' % (dc, mc))
        c = Conf(malloc=1)
        entry('get', c)
        entry('put', c, (), (), None)
        for e, n in ck.run(es, lambda e: [Stacks()], lambda r, m: m[0].finish(r)):
            ck.count('outcomes of operations on stacks', n)
            ck.count('operations on stacks', 1)
    ck.need('operations on stacks', 500)


CHECKS = {'C29': c29, 'C31': c31}
