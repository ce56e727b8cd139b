"""What the checks share: the analysed modules, the public API, the runner of
the abstract interpreter, and reporting."""
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import ir
from ir import AnalysisBroken
from interp import Engine, Monitor, new_state
from model import Model, SELF, RT, ERRNO
from terms import *
import terms as T

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I64MAX = (1 << 63) - 1

CODES = {}
HEADER_ONLY = {'neco_start', 'neco_startv'}
# takes much longer when its callees are followed; the callee is analysed on its own
SUMMARIES = {}
for _n in ('neco_dial_dl', 'neco_dial', 'neco_serve_dl', 'neco_serve'):
    SUMMARIES[_n] = {'neco_getaddrinfo_dl', 'neco_connect_dl'}
for _n in ('read', 'read_dl', 'readfull', 'readfull_dl', 'read_byte', 'read_byte_dl', 'write', 'write_dl', 'flush',
           'flush_dl', 'close', 'close_dl'):
    SUMMARIES['neco_stream_' + _n] = {'neco_read_dl', 'neco_write_dl'}

_mods = {}


def module(defs=(), src='neco.c'):
    k = (src, tuple(defs))
    if k not in _mods:
        _mods[k] = ir.load(src, defs)
    return _mods[k]


def codes():
    """NECO_* constants of the header"""
    if not CODES:
        p = subprocess.run(['clang-18', '-dM', '-E', os.path.join(REPO, 'neco.h')], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken('header does not preprocess: ' + p.stderr[:300])
        for m in re.finditer(r'^#define (NECO_\w+) +\(?(-?\d+)\)?\s*$', p.stdout, re.M):
            CODES[m.group(1)] = int(m.group(2))
        for n in ('NECO_PERM', 'NECO_INVAL', 'NECO_CANCELED', 'NECO_TIMEDOUT', 'NECO_BUSY', 'NECO_CLOSED'):
            if n not in CODES:
                raise AnalysisBroken('anchor vanished: ' + n)
    return CODES


_api = None


def api():
    """{name: [(type text, parameter name)]} of the functions declared in the header"""
    global _api
    if _api is None:
        t = open(os.path.join(REPO, 'neco.h')).read()
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        t = re.sub(r'//[^\n]*', '', t)
        r = {}
        for m in re.finditer(r'\b(neco_\w+)\s*\(((?:[^()]|\([^()]*\)|\(\*\w*\)\([^()]*\))*)\)\s*;', t):
            if re.search(r'[\w*]\s*$', t[:m.start()]) and not re.search(r'return\s*$', t[:m.start()]):
                r.setdefault(m.group(1), ' '.join(m.group(2).split()))
        if len(r) < 80:
            raise AnalysisBroken('only %d functions found in the header' % len(r))
        _api = r
        for n, p in EXTRA.items():
            r.setdefault(n, p)
    return _api


# not in the header, but visible to programs that link the library
EXTRA = {
    'neco_mutex_destroy': 'neco_mutex *mutex', 'neco_waitgroup_destroy': 'neco_waitgroup *waitgroup',
    'neco_cond_destroy': 'neco_cond *cond', 'neco_stream_release': 'neco_stream *stream',
    'neco_stream_make_buffered_size': 'neco_stream **stream, int fd, size_t buffer_size',
}
# no error result, or nothing to do with a coroutine
PLAIN = {'neco_exit', 'neco_switch_method', 'neco_env_setallocator', 'neco_env_setpaniconerror',
         'neco_env_setcanceltype', 'neco_env_setcancelstate', 'neco_strerror', 'neco_lasterr',
         'neco_gai_lasterr', 'neco_panic'}


def ops():
    """the API functions with an error result"""
    return [n for n in api() if n not in PLAIN]


def split_params(t):
    out, depth, cur = [], 0, ''
    for c in t:
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
            continue
        depth += c == '('
        depth -= c == ')'
        cur += c
    if cur.strip() and cur.strip() != 'void':
        out.append(cur.strip())
    return out


def lasterr(r, st):
    """value of the last error at this point, or None"""
    g = of(atom('g', 'lasterr', lo=4096))
    c = st.mem.get((g, 0))
    return None if c is None else st.val(c[0])


def is_local(eng, st, addr):
    root = eng.roots(rest(addr))
    return root is not None and root.kind == 'o'


class Entry:
    """one analysed entry point with its assumptions"""

    def __init__(self, func, label=None, setup=None, defs=(), src='neco.c', model=None, info=None):
        self.func, self.setup, self.defs, self.src = func, setup, defs, src
        self.label = label or func
        self.model = model or {}
        self.info = info

    def __repr__(self):
        return self.label


class Run:
    """the outcome of one entry, as the rules see it"""
    __slots__ = ('entry', 'eng', 'mod', 'args', 'rets', 'f', '__dict__')


def args_of(mod, f):
    out = []
    decl = api().get(f.name)
    dp = split_params(decl) if decl else []
    for i, (ty, nm, info) in enumerate(f.params):
        lo = hi = None
        unsigned = i < len(dp) and re.search(r'\b(size_t|socklen_t|unsigned|uint\d+_t)\b', dp[i]) \
            and '*' not in dp[i]
        if ty.k == 'ptr':
            lo = 0
        elif ty.k == 'int' and ty.a == 1:
            lo, hi = 0, 1
        elif unsigned:
            lo, hi = 0, (1 << ty.a) - 1
        elif ty.k == 'int' and ty.a < 64:
            lo, hi = -(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1
        else:
            lo, hi = -(1 << 63), (1 << 63) - 1
        out.append(of(atom('p', 'arg%d' % i, lo=lo, hi=hi)))
    return out


def execute(entry, monitors):
    mod = module(entry.defs, entry.src)
    f = mod.funcs.get(entry.func)
    if f is None:
        raise AnalysisBroken('anchor vanished: function ' + entry.func)
    kw = dict(entry.model)
    cls = kw.pop('cls', Model)
    if entry.func in SUMMARIES and not kw.get('outside'):
        kw.setdefault('summaries', SUMMARIES[entry.func])
    model = cls(mod, **kw)
    eng = Engine(mod, model, monitors)
    st = new_state()
    r = Run()
    r.entry, r.eng, r.mod, r.f = entry, eng, mod, f
    r.args = args_of(mod, f)
    if not model.outside:
        # what holds of the running coroutine whenever it calls in
        for m in ('deadlined', 'granted', 'paused', 'suspended', 'working'):
            try:
                model.setself(st, m, ZERO)
            except AnalysisBroken:
                pass
    if entry.setup:
        entry.setup(r, st)
    for m in monitors:
        if hasattr(m, 'start'):
            m.start(r, st)
    keep = set()
    for a in r.args:
        keep |= a.deps
    for k, v in st.mem.items():
        keep |= k[0].deps | v[0].deps
    eng.keep[0] = frozenset(keep)
    r.rets = eng.invoke(st, f, r.args, None)
    return r


_job = None


def by_number(e, mk, fin):
    """what is found for any number of channels may be an artefact of joining the iterations of loops over them:
    decide it again for each number around those at which the code behaves differently"""
    decl = api().get(e.func)
    if not decl or e.model.get('unroll'):
        return None
    k = [i for i, t in enumerate(split_params(decl)) if t.split()[-1] == 'nchans']
    if not k:
        return None
    out = []
    for n in (2, 9, 1, 8, 3, 7, 0, -1):
        def setup(r, st, n=n):
            if n < 0:
                st.assume(T.mk_le(add(r.args[k[0]], const(1))), True)
            else:
                r.args[k[0]] = const(n)
            if e.setup:
                e.setup(r, st)
        e2 = Entry(e.func, e.label + '[%d]' % n, setup, e.defs, e.src, dict(e.model, unroll=n + 3, entlimit=200, mergelimit=200), e.info)
        mons = mk(e2)
        r = execute(e2, mons)
        r.eng.stack = [(e.func, None)]
        if fin:
            fin(r, mons)
        out += r.eng.violations
        if out:
            break
    return out


def _work(i):
    entries, mk, fin = _job
    e = entries[i]
    t = time.time()
    try:
        mons = mk(e)
        r = execute(e, mons)
        eng = r.eng
        eng.stack = [(e.func, None)]
        data = fin(r, mons) if fin else None
        if eng.violations:
            v = by_number(e, mk, fin)
            if v is not None:
                eng.violations = v
        return dict(i=i, violations=eng.violations, paths=len(r.rets) + len(eng.exits), blocks=eng.nblocks,
                    funcs=sorted(eng.seenfuncs), data=data, t=time.time() - t, broken=None)
    except AnalysisBroken as x:
        return dict(i=i, broken='%s: %s' % (e.label, x), t=time.time() - t)


class Check:
    """collects what one check analysed and found"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = []
        self.funcs = set()
        self.entries = 0
        self.paths = 0
        self.blocks = 0
        self.obl = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.configs = set()
        self.minimum = {}

    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.obl[what] = self.obl.get(what, 0) + n

    def need(self, what, n):
        """fewer instances than this means the rule no longer sees its subject"""
        self.minimum[what] = n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, rule, msg, function='', line=0, **kw):
        v = {'rule': rule, 'message': msg, 'function': function, 'line': line}
        v.update(kw)
        self.violations.append(v)

    def run(self, entries, mk, fin=None):
        """analyse the entries in parallel; fin(run, monitors) -> picklable data.
        Returns [(entry, data)]"""
        global _job
        for e in entries:
            module(e.defs, e.src)
            self.configs.add((e.src,) + tuple(e.defs))
        _job = (entries, mk, fin)
        n = min(8, os.cpu_count() or 1, max(1, len(entries)))
        heavy = ('dial', 'serve', 'stream_write', 'getaddrinfo', 'readfull', 'stream_close', 'stream_read')
        order = sorted(range(len(entries)), key=lambda i: not any(h in entries[i].func for h in heavy))
        if n > 1 and not os.environ.get('VERIF_SERIAL'):
            with multiprocessing.get_context('fork').Pool(n) as p:
                res = p.map(_work, order, chunksize=1)
        else:
            res = [_work(i) for i in order]
        res.sort(key=lambda r: r['i'])
        out = []
        for r in res:
            if r['broken']:
                raise AnalysisBroken(r['broken'])
            e = entries[r['i']]
            self.entries += 1
            self.paths += r['paths']
            self.blocks += r['blocks']
            self.funcs |= set(r['funcs'])
            for v in r['violations']:
                v['config'] = ' '.join(e.defs)
                v['source'] = e.src
                self.violations.append(v)
            if os.environ.get('VERIF_TIMES'):
                sys.stderr.write('%6.2f %s %s\n' % (r['t'], e.label, ' '.join(e.defs)))
            out.append((e, r['data']))
        return out


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))['findings']
    except FileNotFoundError:
        return []


def finish(ck, level='other', explanation=''):
    """decide, write the evidence, print, and return the exit status"""
    for what, n in ck.minimum.items():
        if ck.obl.get(what, 0) < n and not ck.violations:
            raise AnalysisBroken('only %d instances of "%s" (expected at least %d): the rule lost its subject'
                                 % (ck.obl.get(what, 0), what, n))
    known, new = [], []
    seen = set()
    for v in ck.violations:
        k = (v['rule'], v['function'], v['message'], v.get('line'))
        if k in seen:
            continue
        seen.add(k)
        for f in known_findings():
            if f.get('property') == ck.pid and f.get('status') == 'open' and f.get('rule') == v['rule'] and \
                    f.get('function') == v['function'] and f.get('match', '') in v['message']:
                known.append((f, v))
                break
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {
        'explanation': explanation,
        'rules': ck.rules,
        'entry_points': ck.entries,
        'functions_analysed': len(ck.funcs),
        'functions': sorted(ck.funcs)[:400],
        'paths': ck.paths,
        'block_visits': ck.blocks,
        'obligations': ck.obl,
        'obligations_total': sum(ck.obl.values()),
        'configurations': [' '.join(c) for c in sorted(ck.configs)],
        'samples': ck.samples,
    }
    ev = {'property': ck.pid, 'tier': ck.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': ck.assumptions, 'wall_s': round(time.time() - ck.t0, 3),
          'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', ck.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    done = set()
    for f, v in known:
        if f['id'] not in done:
            done.add(f['id'])
            print('KNOWN-FINDING: property=%s %s' % (ck.pid, f['what']))
    rp = os.path.join(VERIF, 'evidence', ck.pid + '.violations.json')
    if os.path.exists(rp):
        os.unlink(rp)
    print('%s: %d entry points, %d functions, %d paths, %d obligations, %d violations (%.1f s)' % (
        ck.pid, ck.entries, len(ck.funcs), ck.paths, sum(ck.obl.values()), len(new), time.time() - ck.t0))
    if new:
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:20]:
            print('  [%s] %s:%s %s%s' % (v['rule'], v['function'], v.get('line', ''), v['message'],
                                         ' (entry %s)' % v['entry'] if v.get('entry') else ''))
        print('VIOLATION property=%s replay=%s' % (ck.pid, rp))
        return 1
    return 0
