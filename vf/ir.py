"""Front end: clang -> LLVM IR (text) -> a small in-memory program.

The IR is produced from the current sources of the repository on every run;
nothing is executed, and nothing is cached between runs.
"""
import os, re, subprocess, sys, tempfile, shutil

LLVM = os.environ.get('VF_LLVM', '/usr/lib/llvm-18/bin')
LIB_SRCS = ['bits', 'blake2b', 'internal', 'io', 'nodes', 'proof', 'store',
            'tree', 'util']


class FrontEndError(Exception):
    pass


def library_sources(repo):
    """The translation units of the library, as the build lists them."""
    txt = open(os.path.join(repo, 'CMakeLists.txt')).read()
    found = []
    for m in re.finditer(r'\bsrc/([\w./-]+)\.c\b', txt):
        if m.group(1) not in found:
            found.append(m.group(1))
    found = [f for f in found
             if os.path.exists(os.path.join(repo, 'src', f + '.c'))]
    for need in ('tree', 'store'):
        if need not in found:
            raise FrontEndError('src/%s.c is not listed in CMakeLists.txt'
                                % need)
    return found


def build_ir(repo, config='default', cli=False):
    """Compile every library unit and link into one module; return text."""
    base = ['-O0', '-g', '-Xclang', '-disable-O0-optnone',
            '-fno-discard-value-names', '-std=c90',
            '-D_POSIX_C_SOURCE=200112', '-DURKEL_TLS=__thread',
            '-DURKEL_BUILD', '-U__clang__', '-w',
            '-ffunction-sections',
            '-I' + os.path.join(repo, 'include')]
    cfg = {'default': ['-DURKEL_DEBUG'],
           'nodebug': [],
           'fsync': ['-DURKEL_DEBUG', '-DURKEL_FSYNC']}[config]
    srcs = library_sources(repo)
    srcs = [s for s in srcs if s not in ('urkel', 'io_win', 'io_posix')]
    if cli:
        srcs = srcs + ['urkel']
    tmp = tempfile.mkdtemp(prefix='vfir')
    try:
        outs = []
        procs = []
        for s in srcs:
            o = os.path.join(tmp, s.replace('/', '_') + '.ll')
            outs.append(o)
            procs.append((s, subprocess.Popen(
                [os.path.join(LLVM, 'clang')] + base + cfg +
                ['-S', '-emit-llvm', os.path.join(repo, 'src', s + '.c'),
                 '-o', o], stderr=subprocess.PIPE)))
        for s, p in procs:
            err = p.communicate()[1]
            if p.returncode != 0:
                raise FrontEndError('clang failed on src/%s.c:\n%s' %
                                    (s, err.decode(errors='replace')[-2000:]))
        linked = os.path.join(tmp, 'all.ll')
        subprocess.check_call([os.path.join(LLVM, 'llvm-link')] + outs +
                              ['-S', '-o', linked])
        final = os.path.join(tmp, 'final.ll')
        subprocess.check_call([os.path.join(LLVM, 'opt'),
                               '-passes=mem2reg', '-S', linked, '-o', final])
        return open(final).read(), srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'name', 'fields', '_size', '_align',
                 '_offs')

    def __init__(self, k, w=0, n=0, el=None, name=None, fields=None):
        self.k = k; self.w = w; self.n = n; self.el = el
        self.name = name; self.fields = fields
        self._size = None; self._align = None; self._offs = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{..}'
        return self.k

    def align(self):
        if self._align is None:
            if self.k == 'int': a = max(1, (self.w + 7) // 8)
            elif self.k == 'ptr': a = 8
            elif self.k == 'arr': a = self.el.align()
            elif self.k == 'struct':
                a = max([f.align() for f in self.fields] or [1])
            elif self.k == 'float': a = self.w // 8
            else: a = 1
            self._align = a
        return self._align

    def size(self):
        if self._size is None:
            if self.k == 'int': s = max(1, (self.w + 7) // 8)
            elif self.k == 'ptr': s = 8
            elif self.k == 'arr': s = self.n * self.el.size()
            elif self.k == 'struct':
                self.offs()
                s = self._size
            elif self.k == 'float': s = self.w // 8
            else: s = 0
            self._size = s
        return self._size

    def offs(self):
        if self._offs is None:
            off = 0; offs = []
            for f in self.fields:
                a = f.align()
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
            a = self.align()
            self._size = (off + a - 1) // a * a
            self._offs = offs
        return self._offs


VOID = Ty('void'); PTR = Ty('ptr')
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


# ---------------------------------------------------------------- tokens

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 | "(?:[^"\\]|\\.)*"
 | [%@](?:"[^"]*"|[\w.$-]+)
 | ![\w.]+(?=\() | !\w* | !
 | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+
 | -?\d+
 | [\w.]+
 | \.\.\.
 | [()\[\]{}<>,=*|:]
''', re.X)


class P:
    """Token cursor."""
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        r = self.next()
        if r != x:
            raise FrontEndError('parse: expected %r got %r in %r' %
                                (x, r, ' '.join(self.t)[:200]))


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'loc', 'x', 'blk', 'fn', 'idx')

    def __init__(self, op, dst=None, ty=None, args=(), x=None):
        self.op = op; self.dst = dst; self.ty = ty
        self.args = list(args); self.x = x; self.loc = None
        self.blk = None; self.fn = None; self.idx = 0

    def __repr__(self):
        return '<%s %s %s>' % (self.dst, self.op, self.args)


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.insts = []
        self.term = None
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(ty, name)]
        self.ret = None
        self.blocks = {}
        self.order = []
        self.decl = True
        self.dbg = None
        self.internal = False
        self.file = None
        self.line = None

    def __repr__(self):
        return '<fn %s>' % self.name


# operands are tuples: ('r', name) ('i', int) ('null',) ('undef',)
# ('g', name) ('gep', srcty, baseop, [idx ops]) ('zero',) ('bytes', b)
# ('agg', [ops]) ('md',)

class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}     # name -> dict(ty, init, const, tls)
        self.funcs = {}
        self.md = {}
        self._md_raw = {}
        self.parse(text)

    # ---- types
    def ty(self, p):
        t = p.next()
        if t == 'void': r = VOID
        elif t == 'ptr': r = PTR
        elif t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t == 'double': r = Ty('float', 64)
        elif t == 'float': r = Ty('float', 32)
        elif t == 'x86_fp80': r = Ty('float', 128)
        elif t == 'metadata': r = Ty('md')
        elif t == 'label': r = Ty('label')
        elif t == '[':
            n = int(p.next()); p.expect('x')
            el = self.ty(p); p.expect(']')
            r = Ty('arr', n=n, el=el)
        elif t == '{':
            fs = []
            while not p.eat('}'):
                fs.append(self.ty(p)); p.eat(',')
            r = Ty('struct', fields=fs)
        elif t[0] == '%':
            if t not in self.structs:
                self.structs[t] = Ty('struct', name=t, fields=[])
            r = self.structs[t]
        else:
            raise FrontEndError('type %r in %r' % (t, ' '.join(p.t)[:160]))
        if p.peek() == '(':     # function type
            d = 0
            while True:
                x = p.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        return r

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'writeonly',
             'readonly', 'immarg', 'signext', 'zeroext', 'returned',
             'inreg', 'nest', 'nounwind', 'readnone', 'nofree', 'allocalign'}

    def attrs(self, p):
        while True:
            t = p.peek()
            if t in self.ATTRS:
                p.next()
            elif t == 'align' :
                p.next(); p.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null',
                       'allocsize', 'sret', 'byval'):
                p.next(); d = 0
                while True:
                    x = p.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            else:
                return

    def operand(self, p, ty):
        t = p.next()
        if t[0] == '%': return ('r', t)
        if t[0] == '@': return ('g', t)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'true': return ('i', 1)
        if t == 'false': return ('i', 0)
        if t[0] == 'c' and t.startswith('c"'):
            return ('bytes', self.cstr(t[1:]))
        if t == '[' or t == '{':
            end = ']' if t == '[' else '}'
            out = []
            while not p.eat(end):
                et = self.ty(p)
                out.append((et, self.operand(p, et)))
                p.eat(',')
            return ('agg', out)
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            p.expect('(')
            sty = self.ty(p); p.expect(',')
            bt = self.ty(p); base = self.operand(p, bt)
            idx = []
            while p.eat(','):
                it = self.ty(p); idx.append(self.operand(p, it))
            p.expect(')')
            return ('gep', sty, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast'):
            p.expect('(')
            bt = self.ty(p); base = self.operand(p, bt)
            p.expect('to'); self.ty(p); p.expect(')')
            return base
        if ty is not None and ty.k == 'float':
            return ('undef',)
        try:
            return ('i', int(t))
        except ValueError:
            return ('undef',)

    @staticmethod
    def cstr(s):
        s = s[1:-1]
        out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i+1] == '\\':
                    out.append(92); i += 2
                else:
                    out.append(int(s[i+1:i+3], 16)); i += 3
            else:
                out += s[i].encode('latin1'); i += 1
        return bytes(out)

    # ---- top level
    def parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        defs = []
        glob = []
        i = 0
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                name, rest = L.split(' = type ', 1)
                p = P(rest)
                st = self.structs.get(name)
                if st is None:
                    st = self.structs[name] = Ty('struct', name=name,
                                                 fields=[])
                if rest.strip() != 'opaque':
                    packed = p.eat('<')
                    st.fields = self.ty(p).fields
            elif L.startswith('@'):
                glob.append(L)
            elif L.startswith('declare '):
                self.fn_header(L, True)
            elif L.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                defs.append((i, j))
                i = j
            elif L.startswith('!'):
                m = re.match(r'(!\d+) = (.*)$', L)
                if m:
                    self._md_raw[m.group(1)] = m.group(2)
            i += 1
        for L in glob:
            self.parse_global(L)
        for a, b in defs:
            self.parse_fn(lines[a], lines[a+1:b])

    def parse_global(self, L):
        m = re.match(r'(@(?:"[^"]*"|[\w.$-]+)) = (.*)$', L)
        name, rest = m.group(1), m.group(2)
        const = re.search(r'\bconstant\b', rest)
        m2 = re.search(r'\b(constant|global)\b', rest)
        tls = 'thread_local' in rest[:m2.start()]
        ext = 'external' in rest[:m2.start()]
        dbg = re.search(r'!dbg (!\d+)', rest)
        p = P(rest[m2.end():])
        ty = self.ty(p)
        init = None
        if not ext and p.peek() not in (None, ','):
            init = self.operand(p, ty)
        self.globals[name] = dict(ty=ty, init=init, const=bool(const),
                                  tls=tls, dbg=dbg.group(1) if dbg else None)

    def fn_header(self, L, decl):
        m = re.search(r'(@(?:"[^"]*"|[\w.$-]+))\(', L)
        name = m.group(1)[1:]
        f = Func(name)
        f.internal = ' internal ' in L[:m.start()]
        pre = L[:m.start()].split()
        p = P(L[m.end()-1:])
        # return type: last type token(s) before the name
        rp = P(L[len('declare ') if decl else len('define '):m.start()])
        while rp.peek() in ('dso_local', 'internal', 'noalias', 'noundef',
                            'nonnull', 'signext', 'zeroext', 'hidden',
                            'private', 'weak', 'linkonce_odr', 'fastcc',
                            'available_externally'):
            rp.next()
        try:
            f.ret = self.ty(rp)
        except Exception:
            f.ret = VOID
        p.expect('(')
        while not p.eat(')'):
            if p.eat('...'):
                continue
            ty = self.ty(p)
            self.attrs(p)
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            p.eat(',')
            f.params.append((ty, nm))
        f.decl = decl
        d = re.search(r'!dbg (!\d+)', L)
        if d: f.dbg = d.group(1)
        if decl and name in self.funcs:
            return self.funcs[name]
        self.funcs[name] = f
        return f

    def parse_fn(self, head, body):
        f = self.fn_header(head, False)
        cur = None
        buf = []
        # join switch continuation lines
        lines = []
        acc = None
        for L in body:
            if acc is not None:
                acc += ' ' + L.strip()
                if L.strip().startswith(']'):
                    lines.append(acc); acc = None
                continue
            if re.match(r'\s+switch ', L) and not L.rstrip().endswith(']') \
                    and '], !dbg' not in L:
                acc = L.rstrip()
                continue
            lines.append(L)
        first = True
        for L in lines:
            if not L.strip():
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', L)
            if m:
                nm = m.group(1)
                cur = Block('%' + nm)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%entry.0')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if 'llvm.dbg.' in L:
                continue
            ins = self.parse_inst(L.strip())
            if ins is None:
                continue
            ins.blk = cur
            ins.fn = f
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'ret', 'unreachable'):
                cur.term = ins
            else:
                ins.idx = len(cur.insts)
                cur.insts.append(ins)
        for b in f.blocks.values():
            t = b.term
            if t is None:
                raise FrontEndError('block without terminator in ' + f.name)
            if t.op == 'br':
                b.succs = list(t.x)
            elif t.op == 'switch':
                b.succs = [t.x[0]] + [d for _, d in t.x[1]]
            for s in b.succs:
                f.blocks[s].preds.append(b.name)
        sp = self.node(f.dbg) if f.dbg else None
        if sp:
            f.line = int(sp.get('line', 0))
            f.file = self.di_file(sp.get('file'))

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or',
           'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv'}
    CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast',
            'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}

    def parse_inst(self, L):
        loc = None
        m = re.search(r'!dbg (!\d+)', L)
        if m:
            loc = m.group(1)
        k = L.find(', !')
        body = L[:k] if k >= 0 else L
        p = P(body)
        dst = None
        if p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins = Inst(op, dst)
        ins.loc = loc
        if op in self.BIN:
            fl = []
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast',
                               'nnan', 'ninf', 'contract'):
                fl.append(p.next())
            ins.ty = self.ty(p)
            a = self.operand(p, ins.ty); p.expect(',')
            b = self.operand(p, ins.ty)
            ins.args = [a, b]
            ins.x = fl
        elif op == 'icmp' or op == 'fcmp':
            while p.peek() in ('samesign', 'fast'):
                p.next()
            ins.x = p.next()
            ins.ty = self.ty(p)
            a = self.operand(p, ins.ty); p.expect(',')
            ins.args = [a, self.operand(p, ins.ty)]
        elif op in self.CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            sty = self.ty(p)
            a = self.operand(p, sty); p.expect('to')
            ins.ty = self.ty(p)
            ins.x = sty
            ins.args = [a]
        elif op == 'load':
            p.eat('volatile')
            ins.ty = self.ty(p); p.expect(',')
            pt = self.ty(p)
            ins.args = [self.operand(p, pt)]
        elif op == 'store':
            p.eat('volatile')
            ins.ty = self.ty(p)
            v = self.operand(p, ins.ty); p.expect(',')
            pt = self.ty(p)
            ins.args = [v, self.operand(p, pt)]
        elif op == 'alloca':
            ins.ty = self.ty(p)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            ins.ty = self.ty(p); p.expect(',')
            pt = self.ty(p)
            base = self.operand(p, pt)
            idx = []
            while p.eat(','):
                it = self.ty(p)
                idx.append((it, self.operand(p, it)))
            ins.args = [base]
            ins.x = idx
        elif op == 'phi':
            ins.ty = self.ty(p)
            inc = []
            while p.eat('['):
                v = self.operand(p, ins.ty); p.expect(',')
                b = p.next(); p.expect(']')
                inc.append((v, b))
                p.eat(',')
            ins.x = inc
        elif op == 'select':
            ct = self.ty(p); c = self.operand(p, ct); p.expect(',')
            ins.ty = self.ty(p); a = self.operand(p, ins.ty); p.expect(',')
            self.ty(p); b = self.operand(p, ins.ty)
            ins.args = [c, a, b]
        elif op == 'br':
            t = self.ty(p)
            if t.k == 'label':
                ins.x = [p.next()]
            else:
                ins.args = [self.operand(p, t)]
                p.expect(','); p.expect('label'); a = p.next()
                p.expect(','); p.expect('label'); b = p.next()
                ins.x = [a, b]
        elif op == 'switch':
            ins.ty = self.ty(p)
            ins.args = [self.operand(p, ins.ty)]
            p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                self.ty(p); v = int(p.next()); p.expect(',')
                p.expect('label'); cases.append((v, p.next()))
            ins.x = (d, cases)
        elif op == 'ret':
            ins.ty = self.ty(p)
            if ins.ty.k != 'void':
                ins.args = [self.operand(p, ins.ty)]
        elif op == 'call':
            self.attrs(p)
            while p.peek() in ('fastcc', 'ccc'):
                p.next()
            self.attrs(p)
            ins.ty = self.ty(p)
            callee = p.next()
            p.expect('(')
            args = []
            while not p.eat(')'):
                ty = self.ty(p)
                if ty.k == 'md':
                    d = 0
                    while p.peek() not in (',', ')') or d:
                        x = p.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append((ty, ('undef',)))
                else:
                    self.attrs(p)
                    args.append((ty, self.operand(p, ty)))
                p.eat(',')
            ins.x = callee
            ins.args = args
        elif op == 'unreachable':
            pass
        elif op in ('freeze',):
            ins.ty = self.ty(p); ins.args = [self.operand(p, ins.ty)]
        elif op in ('extractvalue', 'insertvalue', 'va_arg', 'fneg'):
            raise FrontEndError('unsupported instruction: ' + L)
        else:
            raise FrontEndError('unsupported instruction: ' + L)
        return ins

    # ---- debug info
    MDF = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]+|[^,()]+)')

    def node(self, ref):
        """Metadata node as a dict."""
        if ref is None or ref == 'null':
            return None
        ref = ref.strip()
        if ref in self.md:
            return self.md[ref]
        raw = self._md_raw.get(ref)
        if raw is None:
            return None
        d = {'_ref': ref}
        m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)$', raw)
        if m:
            d['_k'] = m.group(1)
            for k, v in self.MDF.findall(m.group(2)):
                v = v.strip()
                if v.startswith('"'): v = v[1:-1]
                d[k] = v
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}$', raw)
            if m:
                d['_k'] = 'list'
                d['items'] = [x.strip() for x in m.group(1).split(',')] \
                    if m.group(1).strip() else []
            else:
                d['_k'] = '?'
        self.md[ref] = d
        return d

    def di_file(self, ref):
        n = self.node(ref)
        return os.path.basename(n.get('filename', '?')) if n else '?'

    def locstr(self, ref):
        """file:line of a !dbg attachment."""
        n = self.node(ref)
        if not n:
            return '?'
        sc = self.node(n.get('scope'))
        f = '?'
        while sc:
            if 'file' in sc:
                f = self.di_file(sc['file'])
                break
            sc = self.node(sc.get('scope'))
        return '%s:%s' % (f, n.get('line', '?'))

    def strip(self, n):
        """Follow typedef/const/volatile."""
        while n and n.get('_k') == 'DIDerivedType' and n.get('tag') in (
                'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type',
                'DW_TAG_restrict_type', 'DW_TAG_member'):
            n = self.node(n.get('baseType'))
        return n

    def pointee(self, n):
        """DI type a pointer points to (stripped), or None."""
        n = self.strip(n)
        if n and n.get('tag') == 'DW_TAG_pointer_type':
            return self.strip(self.node(n.get('baseType')))
        return None

    def di_name(self, n):
        n = self.strip(n)
        return n.get('name') if n else None

    def struct_di(self, name):
        """DICompositeType with members for a struct name."""
        if not hasattr(self, '_sdi'):
            self._sdi = {}
            for ref, raw in self._md_raw.items():
                if 'DICompositeType(' in raw and 'elements:' in raw and (
                        'DW_TAG_structure_type' in raw or
                        'DW_TAG_union_type' in raw):
                    n = self.node(ref)
                    nm = n.get('name')
                    if nm and nm not in self._sdi:
                        self._sdi[nm] = n
        return self._sdi.get(name)

    def members(self, n):
        out = []
        if not n: return out
        el = self.node(n.get('elements'))
        if not el: return out
        for r in el.get('items', []):
            m = self.node(r)
            if m and m.get('tag') == 'DW_TAG_member':
                out.append((int(m.get('offset', 0)) // 8,
                            int(m.get('size', 0)) // 8, m.get('name'), m))
        return out

    def fn_sig(self, fname):
        """(return DI type, [param DI types]) of a defined function."""
        f = self.funcs[fname]
        sp = self.node(f.dbg)
        t = self.node(sp.get('type'))
        lst = self.node(t.get('types'))['items']
        ns = [self.node(x) for x in lst]
        return ns[0], ns[1:]


def load(repo='/repo', config='default', cli=False):
    text, srcs = build_ir(repo, config, cli)
    m = Module(text)
    m.srcs = srcs
    return m


if __name__ == '__main__':
    import time
    t = time.time()
    m = load(cli=True)
    print(len(m.funcs), sum(not f.decl for f in m.funcs.values()),
          time.time() - t)
    print(sum(len(b.insts) + len(b.phis) + 1 for f in m.funcs.values()
              for b in f.blocks.values()))
    print(m.fn_sig('urkel_tx_get'))
    n = m.struct_di('urkel_node_s')
    for x in m.members(n):
        print(x[:3])
