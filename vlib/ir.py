"""Textual LLVM IR -> Python objects.

The analyses never run the program.  clang produces the IR of /repo's current
sources (-O0, then only mem2reg, so that every source-level load, store, branch
and call is still there), and this module parses it, together with the struct
layouts and the names of the struct members from the debug information.
"""
import os, re, subprocess, sys, tempfile, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor vanished, ...)."""


# --------------------------------------------------------------------------
# building the IR

BASE_FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
              '-fno-discard-value-names', '-pthread', '-S', '-emit-llvm']


def build_ir(src='neco.c', defs=(), extra=()):
    d = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        a = os.path.join(d, 'a.ll')
        b = os.path.join(d, 'b.ll')
        cmd = ['clang-18'] + BASE_FLAGS + ['-D' + x for x in defs] + list(extra) + \
              [os.path.join(REPO, src), '-o', a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('clang failed: ' + r.stderr[:2000])
        opt = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
        r = subprocess.run([opt, '-S', '-passes=mem2reg', a, '-o', b],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('opt failed: ' + r.stderr[:2000])
        return open(b).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# types

class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return self.k if self.a is None else '%s(%r)' % (self.k, self.a)


VOID = Ty('void')
PTR = Ty('ptr')
_ints = {}


def ity(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


class Lexer:
    TOK = re.compile(r'''\s*(?:
        (c?"(?:[^"\\]|\\.)*")|
        (%"(?:[^"\\]|\\.)*"|@"(?:[^"\\]|\\.)*")|
        ([%@!][-\w.$]+)|
        (\#\d+)|
        (-?\d+\.\d+e[+-]?\d+|-?0x[0-9A-Fa-f]+|-?\d+)|
        ([A-Za-z_.][\w.]*)|
        (\.\.\.|[<>=*,(){}\[\]!:|])
        )''', re.X)
    cache = {}

    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        m = self.TOK.match
        while pos < n:
            x = m(s, pos)
            if not x:
                if s[pos:].strip() == '':
                    break
                raise AnalysisBroken('IR lexer: ' + s[pos:pos + 60])
            pos = x.end()
            self.t.append(x.group(x.lastindex))
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise AnalysisBroken('IR parser: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))


def parse_type(lx):
    t = lx.next()
    if t == 'void':
        ty = VOID
    elif t == 'ptr':
        ty = PTR
        if lx.peek() == 'addrspace':
            lx.next(); lx.next(); lx.next(); lx.next()
    elif re.fullmatch(r'i\d+', t):
        ty = ity(int(t[1:]))
    elif t in ('float', 'double', 'x86_fp80', 'metadata', 'label', 'half', 'token', 'opaque'):
        ty = Ty(t)
    elif t == '[':
        n = int(lx.next())
        lx.expect('x')
        e = parse_type(lx)
        lx.expect(']')
        ty = Ty('arr', n, e)
    elif t == '{':
        el = []
        if not lx.accept('}'):
            while True:
                el.append(parse_type(lx))
                if lx.accept('}'):
                    break
                lx.expect(',')
        ty = Ty('struct', tuple(el), False)
    elif t == '<':
        if lx.peek() == '{':
            lx.next()
            el = []
            if not lx.accept('}'):
                while True:
                    el.append(parse_type(lx))
                    if lx.accept('}'):
                        break
                    lx.expect(',')
            lx.expect('>')
            ty = Ty('struct', tuple(el), True)
        else:
            n = int(lx.next())
            lx.expect('x')
            e = parse_type(lx)
            lx.expect('>')
            ty = Ty('vec', n, e)
    elif t[0] == '%':
        ty = Ty('named', t[1:].strip('"'))
    else:
        raise AnalysisBroken('IR type: ' + t)
    # function type: ret (args...)
    if lx.peek() == '(' and ty.k != 'fn':
        # only used in call instructions with varargs
        save = lx.i
        lx.next()
        depth = 1
        ok = True
        while depth:
            x = lx.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
        ty = Ty('fn', ty)
    return ty


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'id', 'fn', 'raw')

    def __repr__(self):
        return self.raw


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'idx', 'phis', 'livein', 'is_head', 'rpo')


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'internal', 'dbg', 'noreturn',
                 'line', 'bmap', 'heads', 'vararg')


PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'readonly', 'writeonly', 'nocapture',
               'noalias', 'readnone', 'immarg', 'returned', 'inreg', 'nest', 'swiftself', 'allocptr',
               'allocalign', 'dead_on_unwind', 'writable'}


def skip_attrs(lx):
    info = {}
    while True:
        p = lx.peek()
        if p is None:
            return info
        if p in PARAM_ATTRS:
            lx.next()
            continue
        if p == 'align':
            lx.next()
            if lx.peek() == '(':
                lx.next(); lx.next(); lx.next()
            else:
                lx.next()
            continue
        if p in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'memory'):
            lx.next()
            lx.expect('(')
            d = 1
            while d:
                x = lx.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
            continue
        if p in ('byval', 'sret', 'elementtype', 'byref', 'preallocated', 'inalloca'):
            lx.next()
            if lx.accept('('):
                info[p] = parse_type(lx)
                lx.expect(')')
            continue
        return info


def parse_value(lx, ty):
    """Returns a value: ('v', name) ('c', int) ('g', name) ('null',) ('undef',)
    ('zero',) ('ce', op, ...)"""
    t = lx.next()
    if t[0] == '%':
        return ('v', t[1:].strip('"'))
    if t[0] == '@':
        return ('g', t[1:].strip('"'))
    if t == 'null':
        return ('c', 0)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'none':
        return ('undef',)
    if t == 'getelementptr':
        lx.accept('inbounds')
        lx.expect('(')
        sty = parse_type(lx)
        lx.expect(',')
        bt = parse_type(lx)
        base = parse_value(lx, bt)
        idx = []
        while lx.accept(','):
            lx.accept('inrange')
            it = parse_type(lx)
            idx.append((it, parse_value(lx, it)))
        lx.expect(')')
        return ('ce_gep', sty, base, idx)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
        lx.expect('(')
        st = parse_type(lx)
        v = parse_value(lx, st)
        lx.expect('to')
        parse_type(lx)
        lx.expect(')')
        return v
    if t in ('sub', 'add', 'mul', 'xor', 'and', 'or'):
        while lx.peek() in ('nsw', 'nuw'):
            lx.next()
        lx.expect('(')
        at = parse_type(lx)
        a = parse_value(lx, at)
        lx.expect(',')
        bt = parse_type(lx)
        b = parse_value(lx, bt)
        lx.expect(')')
        return ('ce_bin', t, a, b)
    if t in ('icmp',):
        pred = lx.next()
        lx.expect('(')
        at = parse_type(lx)
        a = parse_value(lx, at)
        lx.expect(',')
        bt = parse_type(lx)
        b = parse_value(lx, bt)
        lx.expect(')')
        return ('ce_icmp', pred, a, b)
    if t in ('{', '[', '<') or t.startswith('c"'):
        # aggregate constant
        if t.startswith('c"'):
            return ('str', t)
        close = {'{': '}', '[': ']', '<': '>'}[t]
        vals = []
        if t == '<' and lx.peek() == '{':
            lx.next()
            close = '}'
        if not lx.accept(close):
            while True:
                et = parse_type(lx)
                vals.append((et, parse_value(lx, et)))
                if lx.accept(close):
                    break
                lx.expect(',')
        if t == '<' and close == '}':
            lx.expect('>')
        return ('agg', vals)
    if re.fullmatch(r'-?\d+', t):
        return ('c', int(t))
    if re.match(r'-?0x|-?\d+\.', t):
        return ('undef',)
    if t == 'asm':
        while lx.peek() not in ('(', None):
            lx.next()
        return ('asm',)
    if t == 'blockaddress':
        raise AnalysisBroken('blockaddress')
    raise AnalysisBroken('IR value: ' + t + ' in ' + ' '.join(lx.t)[:200])


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp',
         'fptosi', 'fptoui', 'fpext', 'fptrunc'}

DBG = re.compile(r', !dbg !(\d+)')
MDTAIL = re.compile(r'(, ![a-zA-Z][\w.]* !\d+)+\s*$')


class Module:
    def __init__(self, text, name='neco.c'):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.dbgline = {}
        self.fields = {}     # struct name -> {offset: (member name, size)}
        self.attrs = {}
        self.enums = {}      # enumerator -> value
        self.ftypes = {}     # (struct, member) -> basic type name
        self._layout = {}
        self.parse(text)
        self.finish()

    # ---- layout
    def resolve(self, ty):
        while ty.k == 'named':
            if ty.a not in self.types:
                raise AnalysisBroken('unknown type ' + ty.a)
            ty = self.types[ty.a]
        return ty

    def size_align(self, ty):
        key = id(ty)
        r = self._layout.get(key)
        if r:
            return r[0], r[1]
        t = self.resolve(ty)
        k = t.k
        if k == 'int':
            n = (t.a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            s = (p, min(p, 16))
        elif k == 'ptr':
            s = (8, 8)
        elif k == 'double':
            s = (8, 8)
        elif k == 'float':
            s = (4, 4)
        elif k == 'x86_fp80':
            s = (16, 16)
        elif k == 'arr':
            es, ea = self.size_align(t.b)
            s = (es * t.a, ea)
        elif k == 'vec':
            es, ea = self.size_align(t.b)
            s = (es * t.a, es * t.a)
        elif k == 'struct':
            off = 0
            al = 1
            for e in t.a:
                es, ea = self.size_align(e)
                if t.b:
                    ea = 1
                off = (off + ea - 1) // ea * ea
                off += es
                al = max(al, ea)
            off = (off + al - 1) // al * al
            s = (off, al)
        else:
            s = (8, 8)
        self._layout[key] = (s[0], s[1], ty)
        return s

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, i):
        t = self.resolve(ty)
        off = 0
        for j, e in enumerate(t.a):
            es, ea = self.size_align(e)
            if t.b:
                ea = 1
            off = (off + ea - 1) // ea * ea
            if j == i:
                return off, e
            off += es
        raise AnalysisBroken('field index')

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        md = {}
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("?)([^"=]+)\1 = type (.*)$', ln)
                nm = m.group(2).strip()
                if m.group(3) == 'opaque':
                    self.types[nm] = Ty('opaque')
                else:
                    self.types[nm] = parse_type(Lexer(m.group(3)))
            elif c == '@':
                self.parse_global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("?)([\w.$]+)\1\(', ln)
                if m:
                    a = re.search(r'#(\d+)', ln)
                    self.decls[m.group(2)] = a.group(1) if a else None
            elif ln.startswith('attributes'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', ln)
                self.attrs[m.group(1)] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    md[int(m.group(1))] = m.group(2)
            i += 1
        self.parse_md(md)

    def parse_global(self, ln):
        m = re.match(r'@("?)([^" =]+)\1 = (.*)$', ln)
        nm = m.group(2)
        rest = m.group(3)
        g = {'name': nm, 'tls': 'thread_local' in rest.split('"')[0], 'const': False, 'ty': None, 'init': None}
        m2 = re.search(r'\b(global|constant)\b (.*)$', rest)
        if m2:
            g['const'] = m2.group(1) == 'constant'
            body = MDTAIL.sub('', m2.group(2))
            body = re.sub(r', align \d+.*$', '', body)
            try:
                lx = Lexer(body)
                g['ty'] = parse_type(lx)
                if lx.peek() is not None:
                    g['init'] = parse_value(lx, g['ty'])
            except AnalysisBroken:
                pass
        self.globals[nm] = g

    def parse_func(self, head, body):
        f = Func()
        f.internal = ' internal ' in head.split('@')[0]
        m = DBG.search(head)
        mm = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(mm.group(1)) if mm else None
        f.noreturn = False
        ma = re.search(r'\)[^)]*#(\d+)', head)
        f.line = ma.group(1) if ma else None
        h = head[head.index('@'):]
        # return type: last token(s) before @
        pre = head[:head.index('@')]
        pre = re.sub(r'^define\s+', '', pre)
        toks = [t for t in pre.split() if t not in ('dso_local', 'internal', 'hidden', 'linkonce_odr', 'weak')]
        rl = Lexer(' '.join(toks))
        while rl.peek() in PARAM_ATTRS or rl.peek() in ('align', 'range', 'dereferenceable'):
            skip_attrs(rl)
        f.ret = parse_type(rl)
        lx = Lexer(h[:h.rindex('{')])
        f.name = lx.next()[1:].strip('"')
        lx.expect('(')
        f.params = []
        f.vararg = False
        if not lx.accept(')'):
            while True:
                if lx.accept('...'):
                    f.vararg = True
                    lx.expect(')')
                    break
                t = parse_type(lx)
                info = skip_attrs(lx)
                nm = lx.next()[1:].strip('"')
                f.params.append((t, nm, info))
                if lx.accept(')'):
                    break
                lx.expect(',')
        blocks = []
        cur = None
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if ln[0] not in ' \t':
                nm = ln.split(':')[0].strip('"')
                cur = Block()
                cur.name = nm
                cur.insts = []
                blocks.append(cur)
                continue
            if ln.lstrip().startswith('switch') and ln.rstrip().endswith('['):
                while True:
                    ln += ' ' + body[k].strip()
                    k += 1
                    if body[k - 1].strip().startswith(']'):
                        break
            if cur is None:
                cur = Block()
                cur.name = str(len(f.params))
                cur.insts = []
                blocks.append(cur)
            if 'llvm.dbg.' in ln:
                continue
            ins = self.parse_inst(ln.strip())
            ins.id = (f.name, len(blocks), len(cur.insts))
            ins.fn = f.name
            cur.insts.append(ins)
        f.blocks = blocks
        f.bmap = {b.name: b for b in blocks}
        self.funcs[f.name] = f

    def parse_inst(self, s):
        I = Inst()
        I.raw = s
        m = DBG.search(s)
        I.dbg = int(m.group(1)) if m else None
        s = MDTAIL.sub('', s)
        s = re.sub(r', !srcloc !\d+', '', s)
        s = re.sub(r', !dbg !\d+', '', s)
        s = re.sub(r', !heapallocsite !\d+', '', s)
        s = re.sub(r', !llvm\.loop !\d+', '', s)
        lx = Lexer(s)
        I.res = None
        I.x = None
        I.ty = None
        I.args = []
        if lx.peek()[0] == '%' and lx.peek(1) == '=':
            I.res = lx.next()[1:].strip('"')
            lx.next()
        op = lx.next()
        if op in ('tail', 'musttail', 'notail'):
            op = lx.next()
        I.op = op
        if op == 'alloca':
            I.ty = parse_type(lx)
            if lx.accept(','):
                if lx.peek() != 'align':
                    t = parse_type(lx)
                    I.args = [parse_value(lx, t)]
        elif op == 'load':
            lx.accept('atomic')
            lx.accept('volatile')
            I.ty = parse_type(lx)
            lx.expect(',')
            t = parse_type(lx)
            I.args = [parse_value(lx, t)]
        elif op == 'store':
            lx.accept('atomic')
            lx.accept('volatile')
            I.ty = parse_type(lx)
            v = parse_value(lx, I.ty)
            lx.expect(',')
            t = parse_type(lx)
            I.args = [v, parse_value(lx, t)]
        elif op == 'getelementptr':
            while lx.peek() in ('inbounds', 'nuw', 'nusw'):
                lx.next()
            I.ty = parse_type(lx)
            lx.expect(',')
            t = parse_type(lx)
            base = parse_value(lx, t)
            idx = []
            while lx.accept(','):
                it = parse_type(lx)
                idx.append((it, parse_value(lx, it)))
            I.args = [base]
            I.x = idx
        elif op == 'br':
            if lx.peek() == 'label':
                lx.next()
                I.x = (lx.next()[1:].strip('"'),)
            else:
                t = parse_type(lx)
                I.args = [parse_value(lx, t)]
                lx.expect(',')
                lx.expect('label')
                a = lx.next()[1:].strip('"')
                lx.expect(',')
                lx.expect('label')
                b = lx.next()[1:].strip('"')
                I.x = (a, b)
        elif op == 'switch':
            t = parse_type(lx)
            I.ty = t
            I.args = [parse_value(lx, t)]
            lx.expect(',')
            lx.expect('label')
            d = lx.next()[1:].strip('"')
            lx.expect('[')
            cs = []
            while not lx.accept(']'):
                ct = parse_type(lx)
                cv = parse_value(lx, ct)
                lx.expect(',')
                lx.expect('label')
                cs.append((cv[1], lx.next()[1:].strip('"')))
            I.x = (d, cs)
        elif op == 'ret':
            I.ty = parse_type(lx)
            if I.ty.k != 'void':
                I.args = [parse_value(lx, I.ty)]
        elif op == 'unreachable':
            pass
        elif op == 'phi':
            I.ty = parse_type(lx)
            inc = []
            while True:
                lx.expect('[')
                v = parse_value(lx, I.ty)
                lx.expect(',')
                b = lx.next()[1:].strip('"')
                lx.expect(']')
                inc.append((v, b))
                if not lx.accept(','):
                    break
            I.x = inc
        elif op == 'icmp' or op == 'fcmp':
            pred = lx.next()
            I.ty = parse_type(lx)
            a = parse_value(lx, I.ty)
            lx.expect(',')
            b = parse_value(lx, I.ty)
            I.args = [a, b]
            I.x = pred
        elif op == 'select':
            t = parse_type(lx)
            c = parse_value(lx, t)
            lx.expect(',')
            I.ty = parse_type(lx)
            a = parse_value(lx, I.ty)
            lx.expect(',')
            t2 = parse_type(lx)
            b = parse_value(lx, t2)
            I.args = [c, a, b]
        elif op in BINOPS:
            while lx.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast'):
                lx.next()
            I.ty = parse_type(lx)
            a = parse_value(lx, I.ty)
            lx.expect(',')
            b = parse_value(lx, I.ty)
            I.args = [a, b]
        elif op in CASTS:
            while lx.peek() in ('nneg', 'nsw', 'nuw'):
                lx.next()
            st = parse_type(lx)
            v = parse_value(lx, st)
            lx.expect('to')
            I.ty = parse_type(lx)
            I.args = [v]
            I.x = st
        elif op == 'call':
            while lx.peek() in ('fastcc', 'ccc') or lx.peek() in PARAM_ATTRS or lx.peek() in ('align', 'dereferenceable', 'range'):
                if lx.peek() in ('fastcc', 'ccc'):
                    lx.next()
                else:
                    skip_attrs(lx)
            I.ty = parse_type(lx)
            if I.ty.k == 'fn':
                I.ty = I.ty.a
            callee = parse_value(lx, PTR)
            lx.expect('(')
            args = []
            if not lx.accept(')'):
                while True:
                    t = parse_type(lx)
                    if t.k == 'metadata':
                        d = 0
                        while not (d == 0 and lx.peek() in (',', ')')):
                            x = lx.next()
                            d += x == '('
                            d -= x == ')'
                        args.append((t, ('undef',)))
                    else:
                        info = skip_attrs(lx)
                        args.append((t, parse_value(lx, t)))
                    if lx.accept(')'):
                        break
                    lx.expect(',')
            I.x = callee
            I.args = args
            rest = lx.t[lx.i:]
            I.raw = (I.raw, tuple(x for x in rest if x[0] == '#'))
        elif op == 'atomicrmw':
            lx.accept('volatile')
            I.x = lx.next()
            t = parse_type(lx)
            p = parse_value(lx, t)
            lx.expect(',')
            I.ty = parse_type(lx)
            v = parse_value(lx, I.ty)
            I.args = [p, v]
        elif op == 'cmpxchg':
            lx.accept('weak')
            lx.accept('volatile')
            t = parse_type(lx)
            p = parse_value(lx, t)
            lx.expect(',')
            I.ty = parse_type(lx)
            a = parse_value(lx, I.ty)
            lx.expect(',')
            t2 = parse_type(lx)
            b = parse_value(lx, t2)
            I.args = [p, a, b]
        elif op == 'extractvalue':
            I.ty = parse_type(lx)
            v = parse_value(lx, I.ty)
            lx.expect(',')
            I.args = [v]
            I.x = int(lx.next())
        elif op == 'insertvalue':
            I.ty = parse_type(lx)
            v = parse_value(lx, I.ty)
            lx.expect(',')
            t2 = parse_type(lx)
            w = parse_value(lx, t2)
            lx.expect(',')
            I.args = [v, w]
            I.x = int(lx.next())
        elif op == 'freeze':
            I.ty = parse_type(lx)
            I.args = [parse_value(lx, I.ty)]
        elif op in ('fence',):
            pass
        elif op == 'fneg':
            I.ty = parse_type(lx)
            I.args = [parse_value(lx, I.ty)]
        else:
            raise AnalysisBroken('IR instruction: ' + s[:100])
        return I

    def parse_md(self, md):
        self.md = md
        def f(s, k):
            m = re.search(r'\b%s: ("([^"]*)"|!?[-\w]+)' % k, s)
            if not m:
                return None
            return m.group(2) if m.group(2) is not None else m.group(1)
        members = {}
        for n, s in md.items():
            if s.startswith('!DILocation('):
                m = re.search(r'line: (\d+)', s)
                ia = re.search(r'inlinedAt', s)
                self.dbgline[n] = int(m.group(1)) if m else 0
            elif s.startswith('!DIEnumerator('):
                self.enums[f(s, 'name')] = int(f(s, 'value'))
            elif 'DISubprogram(' in s:
                m = re.search(r'\bline: (\d+)', s)
                if m:
                    self.dbgline[n] = int(m.group(1))
        for n, s in md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in s:
                nm = f(s, 'name')
                el = f(s, 'elements')
                if not nm or not el or el[0] != '!':
                    continue
                lst = md.get(int(el[1:]), '')
                d = {}
                for x in re.findall(r'!(\d+)', lst):
                    ms = md.get(int(x), '')
                    if 'DW_TAG_member' in ms:
                        off = f(ms, 'offset')
                        sz = f(ms, 'size')
                        d[int(off or 0) // 8] = (f(ms, 'name'), int(sz or 0) // 8)
                        bt = f(ms, 'baseType')
                        while bt and bt[0] == '!':
                            bs = md.get(int(bt[1:]), '')
                            if 'DIBasicType' in bs:
                                self.ftypes[(nm, f(ms, 'name'))] = f(bs, 'name')
                                break
                            if 'DW_TAG_typedef' not in bs and 'DW_TAG_const' not in bs \
                                    and 'DW_TAG_volatile' not in bs:
                                break
                            bt = f(bs, 'baseType')
                self.fields[nm] = d

    def line(self, ins):
        return self.dbgline.get(ins.dbg, 0)

    def off(self, struct, *path):
        """offset of a (nested) member, by names"""
        off = 0
        st = struct
        for i, p in enumerate(path):
            d = self.fields.get(st)
            if d is None:
                raise AnalysisBroken('anchor vanished: struct %s' % st)
            for o, (nm, sz) in d.items():
                if nm == p:
                    off += o
                    break
            else:
                raise AnalysisBroken('anchor vanished: member %s.%s' % (st, p))
            if i + 1 < len(path):
                raise AnalysisBroken('nested path')
        return off

    def fsize(self, struct, member):
        for o, (nm, sz) in self.fields.get(struct, {}).items():
            if nm == member:
                return sz
        raise AnalysisBroken('anchor vanished: member %s.%s' % (struct, member))

    # ---- CFG
    def finish(self):
        for n, a in self.decls.items():
            pass
        for f in self.funcs.values():
            if f.line and 'noreturn' in self.attrs.get(f.line, ''):
                f.noreturn = True
            for b in f.blocks:
                b.succs = []
                b.preds = []
                b.phis = [i for i in b.insts if i.op == 'phi']
                b.is_head = False
            for b in f.blocks:
                t = b.insts[-1]
                if t.op == 'br':
                    b.succs = list(dict.fromkeys(t.x))
                elif t.op == 'switch':
                    b.succs = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
                for s in b.succs:
                    f.bmap[s].preds.append(b.name)
            # rpo
            seen = set()
            order = []
            stack = [(f.blocks[0].name, iter(f.blocks[0].succs))]
            seen.add(f.blocks[0].name)
            onstack = {f.blocks[0].name}
            f.heads = set()
            while stack:
                nm, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        onstack.add(s)
                        stack.append((s, iter(f.bmap[s].succs)))
                        break
                    elif s in onstack:
                        f.heads.add(s)
                else:
                    stack.pop()
                    onstack.discard(nm)
                    order.append(nm)
            order.reverse()
            f.order = {nm: i for i, nm in enumerate(order)}
            for h in f.heads:
                f.bmap[h].is_head = True
            self.liveness(f)

    def uses(self, ins):
        r = set()

        def val(v):
            if v[0] == 'v':
                r.add(v[1])
            elif v[0] == 'ce_gep':
                val(v[2])
                for _, x in v[3]:
                    val(x)
            elif v[0] == 'ce_bin':
                val(v[2]); val(v[3])
        if ins.op == 'call':
            val(ins.x)
            for t, v in ins.args:
                val(v)
        elif ins.op == 'phi':
            pass
        else:
            for v in ins.args:
                val(v)
            if ins.op == 'getelementptr':
                for _, v in ins.x:
                    val(v)
        return r

    def liveness(self, f):
        use = {}
        df = {}
        phiuse = {}
        for b in f.blocks:
            u = set()
            d = set()
            for i in b.insts:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, p in i.x:
                        if v[0] == 'v':
                            phiuse.setdefault((p, b.name), set()).add(v[1])
                    continue
                u |= self.uses(i) - d
                if i.res:
                    d.add(i.res)
            use[b.name] = u
            df[b.name] = d
        live = {b.name: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for s in b.succs:
                    sb = f.bmap[s]
                    out |= live[s] - {i.res for i in sb.phis}
                    out |= phiuse.get((b.name, s), set())
                n = use[b.name] | (out - df[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        for b in f.blocks:
            # live at block entry, after the phis were evaluated
            b.livein = live[b.name] | {i.res for i in b.phis}

    def callee_names(self, f):
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'call' and i.x[0] == 'g':
                    yield i.x[1], i


def load(src='neco.c', defs=(), extra=()):
    m = Module(build_ir(src, defs, extra), src)
    m.defs = tuple(defs)
    return m


if __name__ == '__main__':
    import time
    t = time.time()
    m = load()
    print(len(m.funcs), 'functions', time.time() - t, 's')
    print({k: v for k, v in list(m.fields['coroutine'].items())[:12]})
    print(m.sizeof(Ty('named', 'struct.coroutine')), m.sizeof(Ty('named', 'struct.runtime')))
    print(m.funcs['coexit'].heads)
