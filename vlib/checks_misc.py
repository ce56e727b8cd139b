"""C28, C32, C27, C30: tables, panic, random numbers, comparators and lists."""
from common import *
from model import SUSPEND, LASTERR
from checks_api import CONFIGS, ERRNO_FAMILY, GAI, EPERM, EINVAL, ENOMEM, ECANCELED, ETIMEDOUT, EAI_SYSTEM, errno_of
from checks_sync import configs, put

EBUSY, EPIPE, EAI_MEMORY = 16, 32, -10


def text(mod, st, p):
    """the constant string that p points to"""
    if p.c == 0 and len(p.m) == 1 and p.m[0][1] == 1 and p.m[0][0].kind == 'g':
        g = mod.globals.get(p.m[0][0].a[0])
        if g and g['const'] and g['init'] and g['init'][0] == 'str':
            s = g['init'][1]
            return s[2:-1].removesuffix('\\00')
    return None


class Text(Monitor):
    """where a returned text comes from"""

    def start(self, r, st):
        self.texts = {}

    def on_ret(self, st, name, args, ret, ins):
        if name in ('strerror', 'gai_strerror') and ret is not None:
            c = st.mem.get((ERRNO, 0))
            e = args[0]
            own = c is not None and c[0] is e
            self.texts[ret] = (name, 'errno' if own else st.val(e) if st.val(e) is not None else 'gai'
                               if name == 'gai_strerror' else 'any')

    def finish(self, r):
        out = []
        for st, ret in r.rets:
            t = text(r.mod, st, ret)
            if t is not None:
                out.append(('text', t))
            elif ret in self.texts:
                out.append(self.texts[ret])
            else:
                root = r.eng.roots(rest(ret))
                if root is not None and root.kind == 'g' and not r.mod.globals[root.a[0]]['const']:
                    out.append(('composed', root.a[0]))
                else:
                    out.append(('unknown', None))
        return sorted(set(out), key=repr)


class Errno(Monitor):
    def finish(self, r):
        out = []
        for st, ret in r.rets:
            c = st.mem.get((ERRNO, 0))
            e = None if c is None else st.val(c[0])
            if e is None and c is not None and c[0] is r.errno0:
                e = 'same'
            g = of(atom('g', 'neco_gai_errno', lo=4096))
            c = st.mem.get((g, 0))
            gai = None
            if c is not None and r.args:
                gai = 'argument' if c[0] is r.args[0] or st.eq(c[0], r.args[0]) else 'other'
            out.append((None if ret is None else st.val(ret), e, gai))
        return sorted(set(out), key=repr)


def arg_setup(v=None, lo=None, hi=None, errno=None, elo=None, ehi=None, enot=()):
    def su(r, st):
        if r.args:
            if v is not None:
                r.args[0] = const(v)
            else:
                T.restrict(st.facts, r.args[0], lo, hi)
        if errno is not None:
            e = const(errno)
        else:
            e = r.eng.fresh(st, ('errno0',), lo=elo, hi=ehi, what='errno')
            for x in enot:
                st.assume(mk_eq(sub(e, const(x))), False)
        r.errno0 = e
        st.mem[(ERRNO, 0)] = (e, 4)
    return su


LIM = {'retlimit': 1000, 'mergelimit': 1000, 'outside': True}


def c28(ck):
    C = {n: v for n, v in codes().items() if v <= 0 and n != 'NECO_CSPRNG'}
    lowest = min(C.values())
    ck.rule('the name and the description functions, by constant propagation for every code of neco.h and for the ranges '
            'above and below: the name of a code is its name in neco.h; every code has a description of its own '
            '(a text, or that of the errno that stands for it); anything else is reported as unknown, and no path '
            'is without a result')
    ck.rule('the conversions to and from errno and from getaddrinfo, for every code, every errno and every gai error: '
            'the five codes with an errno convert to it and back; no other code changes errno; every other errno '
            'becomes the general error; a gai error is kept for its description')
    es = []
    for d in configs(ck):
        for fn in ('neco_shortstrerror', 'neco_strerror'):
            for n, v in C.items():
                es.append(Entry(fn, label='%s(%s)' % (fn, n), setup=arg_setup(v), info=(n, v), defs=d, model=LIM))
            es.append(Entry(fn, label='%s(positive)' % fn, setup=arg_setup(None, 1, None), info=(None, 1), defs=d, model=LIM))
            es.append(Entry(fn, label='%s(below)' % fn, setup=arg_setup(None, None, lowest - 1), info=(None, -1), defs=d,
                            model=LIM))
    seen = {}
    for e, got in ck.run(es, lambda e: [Text()], lambda r, m: m[0].finish(r)):
        n, v = e.info
        ck.count('values looked up', 1)
        bad = None
        if not got or ('unknown', None) in got:
            bad = 'has no determined text (%s)' % (got,)
        elif e.func == 'neco_shortstrerror':
            if got != [('text', n or 'UNKNOWN')]:
                bad = 'is named %s, expected %s' % (got, n or 'UNKNOWN')
        elif n is None:
            if any(k != 'composed' for k, _ in got):
                bad = 'has the description %s of a code' % (got,)
        else:
            want = {'NECO_INVAL': EINVAL, 'NECO_PERM': EPERM, 'NECO_NOMEM': ENOMEM, 'NECO_TIMEDOUT': ETIMEDOUT,
                    'NECO_CANCELED': ECANCELED, 'NECO_BUSY': EBUSY, 'NECO_ERROR': 'errno'}.get(n)
            if want is not None:
                if got != [('strerror', want)]:
                    bad = 'is described by %s, expected that of errno %s' % (got, want)
            elif n == 'NECO_GAIERROR':
                if ('gai_strerror', 'gai') not in got or any(k == 'text' or k == 'composed' for k, _ in got):
                    bad = 'is not described by the last getaddrinfo error'
            elif any(k != 'text' or not t for k, t in got):
                bad = 'has no description of its own: %s' % (got,)
            for t in got:
                o = seen.setdefault((e.defs, t), n)
                if o != n and t != ('strerror', 'errno'):
                    bad = 'has the same description as %s' % o
        if bad:
            ck.violate('text', '%s %s' % (e.label, bad), function=e.func)
    ck.need('values looked up', 40)

    pairs = {'NECO_INVAL': EINVAL, 'NECO_PERM': EPERM, 'NECO_NOMEM': ENOMEM, 'NECO_CANCELED': ECANCELED,
             'NECO_TIMEDOUT': ETIMEDOUT}
    es = [Entry('neco_errconv_to_sys', label='neco_errconv_to_sys(%s)' % n, setup=arg_setup(v), info=n, model=LIM)
          for n, v in C.items()]
    es += [Entry('neco_errconv_to_sys', label='neco_errconv_to_sys(above)', setup=arg_setup(None, 1, None), model=LIM),
           Entry('neco_errconv_to_sys', label='neco_errconv_to_sys(below)', setup=arg_setup(None, None, lowest - 1),
                 model=LIM)]
    for e, got in ck.run(es, lambda e: [Errno()], lambda r, m: m[0].finish(r)):
        ck.count('conversions', 1)
        want = pairs.get(e.info, 0 if e.info == 'NECO_OK' else 'same')
        if [x[1] for x in got] != [want]:
            ck.violate('errno', '%s makes errno %s, expected %s' % (e.label, [x[1] for x in got], want), function=e.func)
    es = [Entry('neco_errconv_from_sys', label='neco_errconv_from_sys[errno %d]' % v, setup=arg_setup(errno=v), info=C[n],
                model=LIM) for n, v in pairs.items()]
    es.append(Entry('neco_errconv_from_sys', label='neco_errconv_from_sys[any other errno]',
                    setup=arg_setup(enot=pairs.values()), info=-1, model=LIM))
    for e, got in ck.run(es, lambda e: [Errno()], lambda r, m: m[0].finish(r)):
        ck.count('conversions', 1)
        if [x[0] for x in got] != [e.info]:
            ck.violate('errno', '%s gives %s, expected %s' % (e.label, [x[0] for x in got], e.info), function=e.func)
    es = [Entry('neco_errconv_from_gai', label='neco_errconv_from_gai(memory)', setup=arg_setup(EAI_MEMORY),
                info='memory', model=LIM),
          Entry('neco_errconv_from_gai', label='neco_errconv_from_gai(system)', setup=arg_setup(EAI_SYSTEM, errno=EPERM),
                info='system', model=LIM),
          Entry('neco_errconv_from_gai', label='neco_errconv_from_gai(positive)', setup=arg_setup(None, 1, None),
                info='other', model=LIM),
          Entry('neco_errconv_from_gai', label='neco_errconv_from_gai(name)', setup=arg_setup(None, -9, -1),
                info='other', model=LIM),
          Entry('neco_errconv_from_gai', label='neco_errconv_from_gai(below)', setup=arg_setup(None, None, -12),
                info='other', model=LIM)]
    for e, got in ck.run(es, lambda e: [Errno()], lambda r, m: m[0].finish(r)):
        ck.count('conversions', 1)
        rets = {x[0] for x in got}
        bad = rets != {{'memory': C['NECO_NOMEM'], 'system': C['NECO_PERM'], 'other': C['NECO_GAIERROR']}[e.info]}
        if e.info == 'other' and {x[2] for x in got} != {'argument'}:
            bad = True
        if bad:
            ck.violate('errno', '%s gives %s' % (e.label, got), function=e.func)
    ck.need('conversions', 30)


CHECKS = {'C28': c28}


# ---------------------------------------------------------------- C32
class Panic(Monitor):
    def __init__(self, on):
        self.on = on
        self.n = 0

    def start(self, r, st):
        self.r = r
        C = codes()
        self.bad = {C['NECO_INVAL'], C['NECO_PERM'], C['NECO_NOMEM']}

    def on_call(self, st, name, args, ins):
        if name == 'perror':
            st.g['must'] = 1
        elif name in ('abort', '_Exit', 'exit', '_exit', '__assert_fail', 'llvm.trap') and not st.g.get('must'):
            self.n += 1
            L = lasterr(self.r, st)
            if name == '_Exit' and errno_of(st) == EPIPE:
                self.n -= 1         # a broken pipe on the standard output ends the program: documented
            elif not self.on:
                self.eng.report(st, 'panic', 'the program is ended although panic on error is disabled (last error %s)' % L,
                                ins)
            elif L not in self.bad:
                self.eng.report(st, 'panic', 'the program is ended because of the result %s' % L, ins)

    def on_store(self, st, tag, addr, val, ins, old):
        if addr is LASTERR:
            st.g['rec'] = 1

    def finish(self, r):
        n = 0
        for st, ret in r.rets:
            n += 1
            if self.on and st.g.get('rec'):
                L = lasterr(r, st)
                if L in self.bad:
                    r.eng.report(st, 'panic', 'continues with the result %s although panic on error is enabled' % L)
                elif L is None:
                    c = st.mem.get((LASTERR, 0))
                    if c is None or any(not st.ne(c[0], const(b)) for b in self.bad):
                        r.eng.report(st, 'panic', 'may continue with an error of misuse although panic on error is '
                                     'enabled')
        return n, self.n


def panic_setup(on):
    def su(r, st):
        st.mem[(of(atom('g', 'env_paniconerror', lo=4096)), 0)] = (const(on), 1)
    return su


C32_SKIP = {'neco_stream_write_dl', 'neco_dial', 'neco_serve'}


def c32(ck):
    ck.rule('every API function, with panic on error enabled and disabled: a call that ends the program is reached only '
            'when it is enabled and the result is invalid argument, permission or out of memory (failed invariants of '
            'the system interface aside), and when it is enabled no path returns with one of these results')
    es = []
    for d in configs(ck):
        for fn in ops():
            for on in (0, 1):
                es.append(Entry(fn, label='%s[panic %s]' % (fn, 'on' if on else 'off'), setup=panic_setup(on),
                                info=on, defs=d, model=dict({'nopanic': False}, **({} if 'stream' in fn else {'retlimit': 40}))))
                if fn not in ('neco_start', 'neco_startv'):
                    es.append(Entry(fn, label='%s[outside, panic %s]' % (fn, 'on' if on else 'off'),
                                    setup=panic_setup(on), info=on, defs=d,
                                    model={'nopanic': False, 'outside': True}))
    for e, n in ck.run(es, lambda e: [Panic(e.info)], lambda r, m: m[0].finish(r)):
        ck.count('operations', 1)
        ck.count('outcomes', n[0])
        ck.count('panics reached', n[1])
    ck.need('operations', 300)
    ck.need('panics reached', 150)


CHECKS['C32'] = c32


# ---------------------------------------------------------------- C30
TREES = {'all': ('coroutine', ('id',)), 'dlqueue': ('coroutine', ('deadline', 'id')),
         'evaat': ('coroutine', ('evfd', 'evkind', 'id')), 'sco_aat': ('sco', ('id',))}


def comparator(mod, tree):
    """the function that the operations of a tree order with"""
    seen, todo, found = set(), [n for n in mod.funcs if n.startswith(tree + '_') and
                               n[len(tree) + 1:].rstrip('0123456789_') in ('insert', 'delete', 'search')], set()
    while todo:
        n = todo.pop()
        if n in seen or n not in mod.funcs:
            continue
        seen.add(n)
        for c, _ in mod.callee_names(mod.funcs[n]):
            f = mod.funcs.get(c)
            if f is None:
                continue
            if f.ret.k == 'int' and f.ret.a == 32 and len(f.params) == 2 and all(p[0].k == 'ptr' for p in f.params):
                found.add(c)
            elif c.startswith(tree + '_'):
                todo.append(c)
    if len(found) != 1:
        raise AnalysisBroken('no single order found for the tree %s: %s' % (tree, sorted(found)))
    return found.pop()


def cmp_setup(struct, keys, order):
    def su(r, st):
        a, b = r.args
        for p in (a, b):
            st.assume(mk_eq(p), False)
            r.eng.note_stype(p, 'struct.' + struct)
        st.assume(mk_eq(sub(a, b)), False)
        for k, o in zip(keys, order):
            w = 8 * r.mod.fsize(struct, k)
            lo, hi = 0 if k == 'evkind' else -(1 << (w - 1)), (1 << (w - 1)) - 1
            x = r.eng.fresh(st, (k, 'a'), lo=lo, hi=hi, what='a.' + k)
            y = r.eng.fresh(st, (k, 'b'), lo=lo, hi=hi, what='b.' + k) if o else x
            if o < 0:
                T.restrict(st.facts, sub(x, y), None, -1)
            elif o > 0:
                T.restrict(st.facts, sub(x, y), 1, None)
            put(r, st, a, struct, k, x)
            put(r, st, b, struct, k, y)
    return su


class Overflow(Monitor):
    """arithmetic on keys that does not fit"""

    def attach(self, eng):
        self.eng = eng
        old = eng.binop

        def binop(st, op, a, b, w, site):
            v = old(st, op, a, b, w, site)
            if op in ('add', 'sub', 'mul') and w in (32, 64):
                x = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else v
                lo, hi = st.bounds(x)[:2]
                if lo is None or hi is None or lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                    eng.report(st, 'order', 'compares by arithmetic that may overflow')
            return v
        eng.binop = binop


def sign_of(r):
    s = set()
    for st, ret in r.rets:
        lo, hi = st.bounds(ret)[:2]
        if lo is not None and lo >= 1:
            s.add(1)
        elif hi is not None and hi <= -1:
            s.add(-1)
        elif lo == 0 and hi == 0:
            s.add(0)
        else:
            s.add('undetermined')
    return s


class Cells(Monitor):
    """the memory after a list operation"""

    def start(self, r, st):
        pass


class Shape:
    """a piece of a doubly linked list: named links, distinct objects"""

    def __init__(self, r, st, link, onext, oprev):
        self.r, self.st, self.onext, self.oprev = r, st, onext, oprev
        self.n = {}

    def node(self, name, addr=None):
        if name not in self.n:
            self.n[name] = addr if addr is not None else of(atom('o', 'node', name, 0, 0, lo=4096))
        return self.n[name]

    def link(self, *names):
        for a, b in zip(names, names[1:]):
            self.put(self.n[a], self.onext, self.n[b])
            self.put(self.n[b], self.oprev, self.n[a])

    def put(self, p, o, v):
        k = add(p, const(o))
        self.st.mem[(rest(k), k.c)] = (v, 8)

    def name(self, v):
        for n, a in self.n.items():
            if a is v:
                return n
        return 'null' if v is ZERO else '?'

    def read(self, st, p, o):
        k = add(p, const(o))
        c = st.mem.get((rest(k), k.c))
        return None if c is None else self.name(c[0])


# name: (links before, operation on, links after, result)
# H and T are the head and tail of the list operated on, X is the element
LIST_CASES = {
    'push_back': [
        ('to an empty list', ('HT',), 'X', ('HXT',), None),
        ('behind an element', ('LT',), 'X', ('LXT',), None),
        ('from another list', ('LT', 'PXN'), None, ('LXT', 'PN'), None),
        ('from the front of the same list', ('PXL', 'LT'), None, ('PL', 'LXT'), None),
        ('from the end of the same list', ('LXT',), None, ('LXT',), None),
        ('from the middle of the same list', ('PXN', 'LT'), None, ('PN', 'LXT'), None),
        ('alone in the list', ('HXT',), None, ('HXT',), None),
        ('from another list to an empty one', ('HT', 'PXN'), None, ('HXT', 'PN'), None)],
    'pop_front': [
        ('of an empty list', ('HT',), None, ('HT',), 'null'),
        ('of a single element', ('HXT',), None, ('HT',), 'X'),
        ('of several elements', ('HXN',), None, ('HN',), 'X')],
    'remove': [
        ('from between others', ('PXN',), None, ('PN',), None),
        ('from a list where it is alone', ('HXT',), None, ('HT',), None),
        ('when it is in no list', (), 'X', (), None)],
    'init': [('', (), None, ('HT',), None)],
    'is_empty': [('of an empty list', ('HT',), None, ('HT',), 1), ('of a list with elements', ('HXN',), None, ('HXN',), 0)],
}
LIST_OPS = {'push_back': 'colist_push_back', 'pop_front': 'colist_pop_front', 'remove': 'remove_from_list',
            'init': 'colist_init', 'is_empty': 'colist_is_empty'}
SCO_OPS = {'push_back': 'sco_list_push_back', 'pop_front': 'sco_list_pop_front', 'remove': 'sco_remove_from_list',
           'init': 'sco_list_init'}


def list_setup(op, case, lst, link, elem):
    def su(r, st):
        mod = r.mod
        on, op_ = mod.off(link, 'next'), mod.off(link, 'prev')
        s = Shape(r, st, link, on, op_)
        p = of(atom('o', 'node', 'list', 0, 0, lo=4096))
        s.node('H', add(p, const(mod.off(lst, 'head'))))
        s.node('T', add(p, const(mod.off(lst, 'tail'))))
        for n in 'LPNX':
            s.node(n)
        ns = list(s.n.values())
        for i, x in enumerate(ns):
            for y in ns[:i]:
                st.assume(mk_eq(sub(x, y)), False)
        for l in case[1]:
            s.link(*l)
        if case[2]:
            x = s.n[case[2]]
            s.put(x, on, x)
            s.put(x, op_, x)
        s.put(s.n['H'], op_, ZERO)
        s.put(s.n['T'], on, ZERO)
        if op == 'remove':
            r.args[0] = s.n['X']
        else:
            r.args[0] = p
            if op == 'push_back':
                r.args[1] = s.n['X']
        r.shape = s
        r.before = dict(st.mem)
    return su


class ListModel(Model):
    """the list operations themselves"""

    def list_call(self, st, name, args, ins):
        return None


def list_fin(r, mons):
    op, case = r.entry.info
    s = r.shape
    bad = []
    for st, ret in r.rets:
        want = {}
        for l in case[3]:
            for a, b in zip(l, l[1:]):
                want[(a, 'next')] = b
                want[(b, 'prev')] = a
        if (op in ('remove', 'pop_front')) and (case[4] or op == 'remove') != 'null':
            want[('X', 'next')] = want[('X', 'prev')] = 'X'
        for (n, f), b in sorted(want.items()):
            g = s.read(st, s.n[n], s.onext if f == 'next' else s.oprev)
            if g != b:
                bad.append('%s of %s is %s, expected %s' % (f, n, g, b))
        known = {}
        for n, a in s.n.items():
            for f, o in (('next', s.onext), ('prev', s.oprev)):
                k = add(a, const(o))
                known[(rest(k), k.c)] = (n, f)
        for k, v in st.mem.items():
            if k in r.before:
                if r.before[k] != v and k in known and known[k] not in want:
                    bad.append('%s of %s is changed' % known[k][::-1])
            elif k in known and known[k] not in want and not (op == 'init'):
                bad.append('%s of %s is written' % known[k][::-1])
        if case[4] is not None:
            if isinstance(case[4], int):
                g = st.val(ret)
            else:
                g = s.name(ret)
            if g != case[4]:
                bad.append('returns %s, expected %s' % (g, case[4]))
    return len(r.rets), bad


def c30(ck):
    ck.rule('the order function of each tree, for every combination of smaller, equal and greater of its keys (all 64-bit '
            'or 32-bit values): the sign of its result is determined, is that of the first key that differs, and is '
            'zero only when all keys are equal')
    ck.rule('every list operation on every neighbourhood of its arguments (the neighbours are opaque distinct links): '
            'exactly the links concerned change, and the removed element is linked to itself')
    import itertools
    for d in configs(ck):
        mod = module(d)
        es = []
        for t, (struct, keys) in TREES.items():
            fn = comparator(mod, t)
            for o in itertools.product((-1, 0, 1), repeat=len(keys)):
                want = next((x for x in o if x), 0)
                es.append(Entry(fn, label='%s order, %s' % (t, ', '.join('%s %s' % (k, {-1: '<', 0: '=', 1: '>'}[x])
                                                                        for k, x in zip(keys, o))),
                                setup=cmp_setup(struct, keys, o), info=want, defs=d,
                                model={'outside': True, 'retlimit': 1000, 'mergelimit': 1000}))
        for e, s in ck.run(es, lambda e: [Overflow()], lambda r, m: sorted(sign_of(r), key=str)):
            ck.count('key relations', 1)
            if s != [e.info]:
                ck.violate('order', '%s: the sign is %s, expected %s' % (e.label, s, e.info), function=e.func)
        es = []
        for ops_, lst, link in ((LIST_OPS, 'colist', 'colink'), (SCO_OPS, 'sco_list', 'sco_link')):
            for op, fn in ops_.items():
                if fn not in mod.funcs:
                    continue
                for c in LIST_CASES[op]:
                    es.append(Entry(fn, label='%s %s' % (fn, c[0]), setup=list_setup(op, c, lst, link, None),
                                    info=(op, c), defs=d, model={'outside': True, 'cls': ListModel, 'sco_prims': False,
                                                            'retlimit': 1000}))
        for e, (n, bad) in ck.run(es, lambda e: [], list_fin):
            ck.count('list neighbourhoods', 1)
            if n == 0:
                bad = ['does not return']
            for b in bad:
                ck.violate('list', '%s: %s' % (e.label, b), function=e.func)
    ck.need('key relations', 40)
    ck.need('list neighbourhoods', 20)


CHECKS['C30'] = c30


# ---------------------------------------------------------------- C27
class Fill(Monitor):
    """the bytes written through the output parameter, in order"""

    def __init__(self):
        self.stores = 0
        self.calls = 0
        self.loads = set()
        self.fillers = set()

    def start(self, r, st):
        self.r = r
        self.data = r.args[0]
        self.n = r.args[1]
        self.root = self.data.m[0][0]
        st.g['filled'] = ZERO

    def fill(self, st, addr, n, ins):
        if not st.eq(addr, add(self.data, st.g['filled'])):
            self.eng.report(st, 'random', 'a byte is written that is not the next one of the request', ins)
            return
        st.g['filled'] = add(st.g['filled'], n)
        if not st.le(st.g['filled'], self.n):
            self.eng.report(st, 'random', 'more bytes may be written than requested', ins)

    def mine(self, addr):
        return any(a is self.root for a, _ in addr.m)

    def on_store(self, st, tag, addr, val, ins, old):
        if self.mine(addr):
            self.stores += 1
            size = self.eng.mod.sizeof(ins.ty) if ins is not None and ins.op == 'store' else 1
            self.fill(st, addr, const(size), ins)
            if self.prng:
                if not st.g.get('adv'):
                    self.eng.report(st, 'random', 'a byte of the seeded generator is written before its state advanced', ins)
        elif tag == ('runtime', 'rand_seed'):
            if not self.prng:
                self.eng.report(st, 'random', 'the secure generator changes the state of the seeded one', ins)
            if old is not None and st.eq(old, val):
                self.eng.report(st, 'random', 'the state of the seeded generator does not advance', ins)
            st.g['adv'] = 1

    def on_copy(self, st, kind, dst, src, n, ins):
        if self.mine(dst):
            self.stores += 1
            self.fill(st, dst, n, ins)

    def on_call(self, st, name, args, ins):
        if name == '<indirect>' and len(args) == 3 and self.mine(args[1]):
            self.calls += 1
            if self.prng:
                self.eng.report(st, 'random', 'the seeded generator calls another one', ins)
            self.fill(st, args[1], args[2], ins)

    def on_load(self, st, tag, addr, val, ins):
        if tag is not None and tag[0] in ('runtime', 'coroutine'):
            self.loads.add(tag)
        elif len(addr.m) == 1 and addr.m[0][0].kind == 'g':
            self.loads.add(addr.m[0][0].a[0])

    @property
    def prng(self):
        return self.r.entry.info

    def finish(self, r):
        n = 0
        for st, ret in r.rets:
            v = 0 if ret is None else st.val(ret)
            if v == 0:
                n += 1
                if not st.eq(st.g['filled'], self.n):
                    r.eng.report(st, 'random', 'succeeds without having written every byte of the request')
                if self.prng and not st.g.get('adv') and not st.eq(self.n, ZERO):
                    r.eng.report(st, 'random', 'the state of the seeded generator does not advance')
            elif v is None:
                r.eng.report(st, 'random', 'returns an undetermined result')
        return n, self.stores + self.calls, sorted(self.loads, key=str), sorted(self.fillers)


class RandModel(Model):
    """a function that is given the output and a size fills it: it is analysed by itself"""

    def call(self, st, name, args, ins):
        f = self.mod.funcs.get(name)
        mon = self.eng.monitors[0]
        if f is not None and len(args) > 1 and f.ret.k == 'void' and mon.mine(args[0]) and mon.r.entry.func != name:
            mon.fillers.add(name)
            mon.fill(st, args[0], args[1], ins)
            seed = self.field(RT, 'runtime', 'rand_seed')
            if any(a is seed for a in args):
                self.eng.store(st, seed, self.eng.fresh(st, ('seed', ins.id)), 8, ins)
            return [(st, None)]
        return Model.call(self, st, name, args, ins)


def filler_setup(r, st):
    st.assume(mk_eq(r.args[0]), False)
    T.restrict(st.facts, r.args[1], 0, (1 << 62))
    for i, (t, n, _) in enumerate(r.f.params):
        if i > 1 and t.k == 'ptr':
            r.args[i] = r.eng.model.field(RT, 'runtime', 'rand_seed')


def rand_setup(attr):
    def su(r, st):
        st.assume(mk_eq(r.args[0]), False)
        T.restrict(st.facts, r.args[1], 0, (1 << 62))
        if len(r.args) > 2:
            r.args[2] = const(attr)
    return su


class Seed(Monitor):
    def finish(self, r):
        m = r.eng.model
        for st, ret in r.rets:
            if st.val(ret) != 0:
                r.eng.report(st, 'random', 'setting the seed returns %s' % st.val(ret))
            if not st.eq(m.get(st, RT, 'runtime', 'rand_seed'), r.args[0]):
                r.eng.report(st, 'random', 'the seed is not set')
            if not st.eq(r.args[1], ZERO):
                c = st.mem.get((r.args[1], 0))
                if c is None or c[0] is not r.old:
                    r.eng.report(st, 'random', 'the previous seed is not reported')
        return len(r.rets)


def c27(ck):
    ck.rule('neco_rand for every size and both generators: every write through the output parameter is of exactly the '
            'next bytes, never past the requested size, and a successful return has written all of them')
    ck.rule('the seeded generator reads no state of the runtime, the coroutine or any global but its seed (beyond what '
            'the secure one reads too, for deadlines and cancelation), advances it before each value, and is not '
            'touched by the secure one; setting the seed stores it and reports the previous one')
    C = codes()
    loads = {}
    es = [Entry(fn, label='%s[%s]' % (fn, a), setup=rand_setup(C[a]), info=a == 'NECO_PRNG', defs=d,
                model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000, 'cls': RandModel})
          for d in configs(ck) for fn in ('neco_rand', 'neco_rand_dl') for a in ('NECO_CSPRNG', 'NECO_PRNG')]
    fillers = set()
    for e, (n, s, l, f) in ck.run(es, lambda e: [Fill()], lambda r, m: m[0].finish(r)):
        ck.count('requests', 1)
        ck.count('successful outcomes', n)
        ck.count('writes', s)
        loads[(e.func, e.defs, e.info)] = set(l)
        fillers |= {(e.defs, x) for x in f if e.info}
        if not e.info and f:
            ck.violate('random', 'the secure generator fills by %s' % ', '.join(f), function=e.func)
    es = [Entry(x, label=x, setup=filler_setup, info=True, defs=d, model={'fork': True, 'retlimit': 1000, 'mergelimit': 1000, 'cls': RandModel})
          for d, x in sorted(fillers)]
    for e, (n, s, l, f) in ck.run(es, lambda e: [Fill()], lambda r, m: m[0].finish(r)) if es else ():
        ck.count('requests', 1)
        ck.count('successful outcomes', n)
        ck.count('writes', s)
        for k in loads:
            if k[1] == e.defs and k[2]:
                loads[k] |= set(l)
    for (fn, d, p), l in loads.items():
        if p:
            x = l - loads[(fn, d, False)] - {('runtime', 'rand_seed')}
            if x:
                ck.violate('random', 'the seeded generator depends on %s' % ', '.join(map(str, sorted(x, key=str))), function=fn)
            if ('runtime', 'rand_seed') not in l:
                ck.violate('random', 'the seeded generator does not use its seed', function=fn)
    ck.need('successful outcomes', 4)
    ck.need('writes', 6)

    def su(r, st):
        r.old = r.eng.model.get(st, RT, 'runtime', 'rand_seed')
    for e, n in ck.run([Entry('neco_rand_setseed', setup=su)], lambda e: [Seed()], lambda r, m: m[0].finish(r)):
        ck.count('seeds set', n)
    ck.need('seeds set', 1)


CHECKS['C27'] = c27
