"""Reader for LLVM-18 textual IR (opaque pointers), as emitted by clang from /repo's sources.

Nothing here interprets the code: it only turns the text into Python objects.  Functions are
parsed lazily, because a translation unit contains thousands of libstdc++ functions."""
import re, subprocess

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
 | (?P<md>!DIExpression\(\)|![a-zA-Z_.0-9]+|!)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<str>"(?:[^"])*")
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise SyntaxError('ll: cannot tokenize: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out

# ---- types -------------------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'b')
    def __init__(s, k, a=None, b=None):
        s.k, s.a, s.b = k, a, b
    def __repr__(s):
        return f'{s.k}:{s.a}' if s.a is not None else s.k

VOID = Ty('void'); PTR = Ty('ptr')
_INTS = {}
def INT(n):
    if n not in _INTS:
        _INTS[n] = Ty('int', n)
    return _INTS[n]
FLOATS = {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'inreg', 'nest', 'immarg', 'nofree', 'noundef', 'swiftself', 'inalloca',
               'allocptr', 'allocalign', 'writable', 'dead_on_unwind', 'noinline'}

class P:
    """token cursor"""
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod
    def peek(s, o=0):
        j = s.i + o
        return s.t[j][1] if j < len(s.t) else None
    def kind(s, o=0):
        j = s.i + o
        return s.t[j][0] if j < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1
        return v[1]
    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False
    def need(s, x):
        if not s.eat(x):
            raise SyntaxError(f'll: expected {x} got {s.t[s.i:s.i+6]}')
    def done(s):
        return s.i >= len(s.t)

    def type(s):
        k, v = s.t[s.i]
        s.i += 1
        if v == 'ptr':
            t = PTR
            if s.peek() == 'addrspace':
                s.i += 4
        elif v == 'void':
            t = VOID
        elif k == 'word' and re.fullmatch(r'i[0-9]+', v):
            t = INT(int(v[1:]))
        elif v in FLOATS:
            t = Ty('float', FLOATS[v])
        elif v in ('label', 'metadata', 'token', 'opaque'):
            t = Ty(v)
        elif v == '{':
            e = []
            while not s.eat('}'):
                e.append(s.type()); s.eat(',')
            t = Ty('struct', e, False)
        elif v == '<':
            if s.eat('{'):
                e = []
                while not s.eat('}'):
                    e.append(s.type()); s.eat(',')
                s.need('>')
                t = Ty('struct', e, True)
            else:
                n = int(s.next()); s.need('x'); e = s.type(); s.need('>')
                t = Ty('vec', n, e)
        elif v == '[':
            n = int(s.next()); s.need('x'); e = s.type(); s.need(']')
            t = Ty('array', n, e)
        elif k == 'loc':
            t = Ty('named', v[1:])
        else:
            raise SyntaxError('ll: type? ' + v)
        # function type (only in calls)
        if s.peek() == '(' :
            # may be function type: T (args)
            j = s.i
            s.next()
            args = []; va = False
            while not s.eat(')'):
                if s.eat('...'):
                    va = True
                else:
                    args.append(s.type())
                s.eat(',')
            t = Ty('func', t, args)
        return t

    def attrs(s):
        """skip parameter attributes; return dict of interesting ones"""
        a = {}
        while True:
            k, v = s.kind(), s.peek()
            if k == 'word' and v in ('align', ) and s.kind(1) == 'num':
                s.i += 2
            elif k == 'word' and s.peek(1) == '(' and v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'memory', 'captures', 'range', 'initializes', 'nofpclass'):
                s.i += 1; s.skip_parens()
            elif k == 'word' and v in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca') and s.peek(1) == '(':
                s.i += 2; a[v] = s.type(); s.need(')')
            elif k == 'word' and v in PARAM_ATTRS:
                s.i += 1
            elif k == 'str':
                s.i += 1
                if s.eat('='):
                    s.i += 1
            else:
                return a
    def skip_parens(s):
        s.need('('); d = 1
        while d:
            v = s.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def value(s, ty):
        k, v = s.t[s.i]
        s.i += 1
        if k == 'loc':
            return ('l', v[1:])
        if k == 'glob':
            return ('g', v[1:])
        if k == 'num':
            if ty.k == 'float':
                return ('f', v, ty.a)
            return ('i', int(v, 0))
        if v == 'true':
            return ('i', 1)
        if v == 'false':
            return ('i', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if k == 'cstr':
            raw = v[2:-1]
            b = bytearray(); i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    b.append(int(raw[i+1:i+3], 16)); i += 3
                else:
                    b.append(ord(raw[i])); i += 1
            return ('str', bytes(b))
        if v in ('{', '[', '<'):
            packed = False
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and s.eat('{'):
                packed = True; end = '}'
            e = []
            while not s.eat(end):
                t = s.type(); e.append((t, s.value(t))); s.eat(',')
            if packed:
                s.need('>')
            return ('agg', e)
        if v == 'getelementptr':
            while s.peek() in ('inbounds', 'nusw', 'nuw', 'inrange'):
                w = s.peek()
                s.i += 1
                if w == 'inrange':
                    s.skip_parens()
            s.need('(')
            t = s.type(); s.need(',')
            bt = s.type(); s.attrs(); base = s.value(bt)
            idx = []
            while s.eat(','):
                s.eat('inrange')
                it = s.type(); idx.append((it, s.value(it)))
            s.need(')')
            return ('gep', t, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.need('('); t = s.type(); x = s.value(t); s.need('to'); t2 = s.type(); s.need(')')
            return ('cast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while s.peek() in ('nuw', 'nsw'):
                s.i += 1
            s.need('('); t = s.type(); x = s.value(t); s.need(','); t2 = s.type(); y = s.value(t2); s.need(')')
            return ('bin', v, t, x, y)
        if v in ('dso_local_equivalent', 'no_cfi'):
            return s.value(ty)
        if k == 'md' or v == 'blockaddress':
            return ('undef',)
        raise SyntaxError(f'll: value? {v} in {s.t[max(0,s.i-8):s.i+5]}')

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')
    def __init__(s, op, res, ty, a, dbg, text):
        s.op, s.res, s.ty, s.a, s.dbg, s.text = op, res, ty, a, dbg, text
    def __repr__(s):
        return s.text

class Func:
    def __init__(s, name):
        s.name = name
        s.blocks = None
        s.params = []
        s.ret = VOID
        s.entry = None
        s.dbg = None
        s.dem = name

_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

def demangle_all(names):
    if not names:
        return {}
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True, check=True)
    return dict(zip(names, r.stdout.split('\n')))

class Module:
    def __init__(self, text):
        self.types = {}          # name -> Ty or None (lazy text)
        self._typetext = {}
        self.funcs = {}          # name -> Func
        self._ftext = {}
        self._decl = {}
        self.globals = {}
        self._gtext = {}
        self.md = {}
        self._laycache = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                nm = self._fname(l)
                self._ftext[nm] = (i, j)
                i = j
            elif l.startswith('declare '):
                nm = self._fname(l)
                self._decl[nm] = l
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1)
                a = a[1:]
                if a[0] == '"':
                    a = a[1:-1]
                self._typetext[a] = b
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', l)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                self._gtext[nm] = l[m.end():]
            elif l.startswith('!') and ' = ' in l:
                a, b = l.split(' = ', 1)
                self.md[a] = b
            i += 1
        self.lines = lines
        self.dem = demangle_all(list(self._ftext) + list(self._decl) + list(self._gtext))
        self.bydem = {}
        for nm in self._ftext:
            self.bydem.setdefault(self.dem[nm], []).append(nm)

    @staticmethod
    def _fname(l):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
        nm = m.group(1)
        return nm[1:-1] if nm[0] == '"' else nm

    # ---- types / layout ----
    def named(self, n):
        if n not in self.types:
            tx = self._typetext.get(n, 'opaque')
            self.types[n] = P(tokenize(tx), self).type() if tx != 'opaque' else Ty('opaque')
        return self.types[n]
    def res(self, t):
        while t.k == 'named':
            t = self.named(t.a)
        return t
    def sizealign(self, t):
        t = self.res(t)
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8
            a = 1
            while a < b:
                a *= 2
            if t.a > 64:
                a = 16
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'float':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16), 16: (2, 2)}[t.a]
        if k == 'array':
            s, a = self.sizealign(t.b)
            return (s * t.a, a)
        if k == 'vec':
            s, a = self.sizealign(t.b)
            return (s * t.a, s * t.a)
        if k == 'struct':
            key = id(t)
            if key not in self._laycache:
                off = 0; al = 1; offs = []
                for e in t.a:
                    s, a = self.sizealign(e)
                    if t.b:
                        a = 1
                    off = (off + a - 1) // a * a
                    offs.append(off)
                    off += s
                    al = max(al, a)
                off = (off + al - 1) // al * al
                self._laycache[key] = (off, al, offs, t)
            return self._laycache[key][:2]
        if k == 'opaque':
            return (0, 1)
        raise ValueError('size of ' + repr(t))
    def size(self, t):
        return self.sizealign(t)[0]
    def offsets(self, t):
        t = self.res(t)
        self.sizealign(t)
        return self._laycache[id(t)][2]

    # ---- globals ----
    def glob(self, n):
        if n in self.globals:
            return self.globals[n]
        tx = self._gtext.get(n)
        if tx is None:
            return None
        tx = re.sub(r', !dbg ![0-9]+', '', tx)
        p = P(tokenize(tx), self)
        external = False; const = False
        while True:
            v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next(); break
            if v == 'external' or v == 'extern_weak':
                external = True
            if v == 'alias':
                p.next()
                t = p.type(); p.need(','); t2 = p.type(); val = p.value(t2)
                self.globals[n] = ('alias', val)
                return self.globals[n]
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        t = p.type()
        init = None
        if not external and not p.done() and p.peek() != ',':
            init = p.value(t)
        self.globals[n] = ('var', t, init, const)
        return self.globals[n]

    # ---- functions ----
    def text(self, n):
        i, j = self._ftext[n]
        return '\n'.join(self.lines[i:j])
    def func(self, n):
        if n in self.funcs:
            return self.funcs[n]
        if n not in self._ftext:
            return None
        i, j = self._ftext[n]
        f = Func(n)
        f.dem = self.dem[n]
        self.funcs[n] = f
        head = self.lines[i]
        m = re.search(r'!dbg (![0-9]+)', head)
        f.dbg = m.group(1) if m else None
        p = P(tokenize(head[:head.rindex('{')]), self)
        p.need('define')
        # return type: skip linkage words
        while True:
            save = p.i
            k, v = p.t[p.i]
            if k == 'word' and v not in ('ptr', 'void', 'float', 'double', 'x86_fp80') and not re.fullmatch(r'i[0-9]+', v):
                p.next()
                if p.peek() == '(' :
                    p.skip_parens()
                elif v == 'align':
                    p.next()
                continue
            break
        f.ret = p.type() if p.peek(1) != '(' or True else None
        p.attrs()
        p.next()   # @name
        p.need('(')
        cnt = 0
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type(); a = p.attrs()
            if p.kind() == 'loc':
                nm = p.next()[1:]
            else:
                nm = str(cnt)
            if nm.isdigit():
                cnt += 1
            f.params.append((t, nm, a))
            p.eat(',')
        f.blocks = {}
        cur = None
        k = i + 1
        while k < j:
            l = self.lines[k]
            k += 1
            if not l.strip():
                continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = nm
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = str(cnt)
                f.entry = cur
                f.blocks[cur] = []
            s = l.strip()
            # join multi-line (switch, invoke, landingpad)
            if s.startswith('switch ') or ' switch ' in s[:8]:
                while ']' not in s:
                    s += ' ' + self.lines[k].strip(); k += 1
            if re.match(r'(%\S+ = )?invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + self.lines[k].strip(); k += 1
            if ' = landingpad ' in s:
                while k < j and re.match(r'\s+(cleanup|catch|filter)\b', self.lines[k]):
                    s += ' ' + self.lines[k].strip(); k += 1
            ins = self._instr(s)
            if ins is not None:
                f.blocks[cur].append(ins)
        return f

    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', s)
        if m:
            dbg = m.group(1)
        text = s
        s = re.sub(r', !(?!DIExpression)[a-zA-Z_.]+ !(?:[0-9]+|DIExpression\(\))', '', s)
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s or 'call void @llvm.experimental.noalias' in s:
            return None
        p = P(tokenize(s), self)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next()[1:]; p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        mk = lambda ty, a: Instr(op, res, ty, a, dbg, text)
        if op in _BIN:
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(p.next())
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return mk(t, (a, b, fl))
        if op == 'fneg':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); a = p.value(t)
            return mk(t, (a,))
        if op in _CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type(); a = p.value(t); p.need('to'); t2 = p.type()
            return mk(t2, (t, a))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return mk(INT(1), (pred, t, a, b))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type(); n = None
            if p.eat(',') and p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
            return mk(PTR, (t, n))
        if op == 'load':
            at = p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.need(','); pt = p.type(); a = p.value(pt)
            return mk(t, (a,))
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); v = p.value(t); p.need(','); pt = p.type(); a = p.value(pt)
            return mk(t, (v, a))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nusw', 'nuw'):
                p.next()
            t = p.type(); p.need(','); bt = p.type(); base = p.value(bt)
            idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.value(it)))
            return mk(PTR, (t, base, idx))
        if op == 'br':
            if p.eat('label'):
                return mk(VOID, (p.next()[1:],))
            t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.next()[1:]; p.need(','); p.need('label'); b = p.next()[1:]
            return mk(VOID, (c, a, b))
        if op == 'switch':
            t = p.type(); c = p.value(t); p.need(','); p.need('label'); d = p.next()[1:]; p.need('[')
            cases = []
            while not p.eat(']'):
                ct = p.type(); v = p.value(ct); p.need(','); p.need('label'); cases.append((v, p.next()[1:]))
            return mk(t, (c, d, cases))
        if op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); inc = []
            while True:
                p.need('['); v = p.value(t); p.need(','); inc.append((v, p.next()[1:])); p.need(']')
                if not p.eat(','):
                    break
            return mk(t, (inc,))
        if op == 'select':
            t = p.type(); c = p.value(t); p.need(','); t1 = p.type(); a = p.value(t1); p.need(','); t2 = p.type(); b = p.value(t2)
            return mk(t1, (c, a, b))
        if op == 'ret':
            t = p.type()
            return mk(t, (None if t.k == 'void' else p.value(t),))
        if op in ('call', 'invoke'):
            while True:
                if p.kind() == 'word' and p.peek() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                    p.next(); continue
                break
            p.attrs()
            t = p.type()
            rt = t
            if t.k == 'func':
                rt = t.a
            if p.peek() == 'asm':
                return mk(rt, (('asm',), [], None, None))
            callee = p.value(PTR)
            p.need('(')
            args = []
            while not p.eat(')'):
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        if p.peek() == '(':
                            d += 1
                        if p.peek() == ')':
                            d -= 1
                        p.next()
                    args.append((at, ('undef',), {}))
                else:
                    aa = p.attrs(); args.append((at, p.value(at), aa))
                p.eat(',')
            nrm = unw = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.need('label'); nrm = p.next()[1:]; p.need('unwind'); p.need('label'); unw = p.next()[1:]
            return mk(rt, (callee, args, nrm, unw))
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            return mk(t, (t, v, ix))
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.need(','); t2 = p.type(); w = p.value(t2); ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            return mk(t, (t, v, t2, w, ix))
        if op in ('unreachable',):
            return mk(VOID, ())
        if op == 'resume':
            return mk(VOID, ())
        if op == 'landingpad':
            t = p.type(); cl = []
            cleanup = False
            while not p.done():
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    ct = p.type(); cl.append(p.value(ct))
            return mk(t, (cleanup, cl))
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.need(','); t = p.type(); v = p.value(t)
            return mk(t, (o, a, v))
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            pt = p.type(); a = p.value(pt); p.need(','); t = p.type(); e = p.value(t); p.need(','); t2 = p.type(); v = p.value(t2)
            return mk(Ty('struct', [t, INT(1)], False), (a, t, e, v))
        if op == 'freeze':
            t = p.type(); return mk(t, (p.value(t),))
        if op == 'fence':
            return None
        return Instr('unsupported', res, VOID, (op,), dbg, text)

    # ---- debug info: record layouts and source lines ----
    def mdnode(self, ref):
        tx = self.md.get(ref)
        if tx is None:
            return None
        if isinstance(tx, dict) or isinstance(tx, list):
            return tx
        m = re.match(r'(?:distinct )?!(\w*)', tx)
        r = None
        if tx.startswith('!{') or tx.startswith('distinct !{'):
            r = re.findall(r'!\d+|null', tx)
        else:
            d = {'_': m.group(1)}
            for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![A-Za-z]+\([^)]*\)|[^,()]+)', tx):
                d[k] = v[1:-1] if v[0] == '"' else v
            r = d
        self.md[ref] = r
        return r
    def _index_records(self):
        self._rec = {}
        for ref, tx in list(self.md.items()):
            if isinstance(tx, str) and 'DICompositeType(tag: DW_TAG_' in tx and ('class_type' in tx[:60] or 'structure_type' in tx[:66]) and 'DIFlagFwdDecl' not in tx:
                m = re.search(r'name: "((?:[^"\\]|\\.)*)"', tx)
                if m:
                    self._rec.setdefault(m.group(1), []).append(ref)
    def scope_name(self, ref):
        d = self.mdnode(ref)
        if not isinstance(d, dict):
            return ''
        nm = d.get('name', '')
        if d['_'] in ('DIFile', 'DICompileUnit'):
            return ''
        sc = self.scope_name(d['scope']) if d.get('scope', 'null') != 'null' and 'scope' in d else ''
        return (sc + '::' if sc else '') + nm
    def record(self, qual):
        """debug-info node of class `qual` (fully qualified name)"""
        if not hasattr(self, '_rec'):
            self._index_records()
        # split at last :: outside <>
        d = 0; cut = -1
        for i, c in enumerate(qual):
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == ':' and d == 0 and qual[i:i+2] == '::':
                cut = i
        base = qual[cut+2:] if cut >= 0 else qual
        for ref in self._rec.get(base, []):
            if self.scope_name(ref) == qual:
                return ref
        return None
    def fields(self, ref, base=0, out=None):
        """[(name, byte offset, type ref, size)] with bases flattened"""
        if out is None:
            out = []
        d = self.mdnode(ref)
        el = d.get('elements')
        for e in (self.mdnode(el) or []) if el and el != 'null' else []:
            x = self.mdnode(e)
            if not isinstance(x, dict) or x.get('_') != 'DIDerivedType':
                continue
            off = int(x.get('offset', '0')) // 8
            if x.get('tag') == 'DW_TAG_inheritance':
                b = self.strip(x['baseType'])
                if b and 'DIFlagVirtual' not in x.get('flags', ''):
                    self.fields(b, base + off, out)
            elif x.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in x.get('flags', ''):
                out.append((x.get('name', ''), base + off, x['baseType'], int(x.get('size', '0')) // 8))
        return out
    def strip(self, ref):
        """strip typedefs and cv"""
        while ref and ref != 'null':
            d = self.mdnode(ref)
            if isinstance(d, dict) and d.get('_') == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                ref = d.get('baseType')
            else:
                return ref
        return None
    def slots(self, qual):
        """{slot: method name} of the virtual functions that class `qual` declares itself"""
        d = self.mdnode(self.record(qual)) if self.record(qual) else None
        if d is None:
            raise KeyError(f'no debug info for class {qual}')
        r = {}; dtor = None
        for e in self.mdnode(d['elements']) or []:
            x = self.mdnode(e)
            if isinstance(x, dict) and x.get('_') == 'DISubprogram' and 'virtualIndex' in x:
                n = x.get('name', '')
                if n[:1] == '~':
                    dtor = n        # clang gives no index for destructors
                else:
                    r[int(x['virtualIndex'])] = n
        if dtor:
            k = next(i for i in range(len(r) + 1) if i not in r)
            r[k], r[k + 1] = dtor, dtor + '()'      # complete and deleting destructor
        return r
    def field(self, qual, name):
        """(offset, type ref, size) of field `name` in class `qual`"""
        r = self.record(qual)
        if r is None:
            raise KeyError(f'no debug info for class {qual}')
        for n, o, t, s in self.fields(r):
            if n == name:
                return o, t, s
        raise KeyError(f'class {qual} has no field {name}')
    def recsize(self, qual):
        return int(self.mdnode(self.record(qual))['size']) // 8
    def line(self, dbg):
        d = self.mdnode(dbg) if dbg else None
        if not isinstance(d, dict):
            return None
        sc = d.get('scope')
        fn = None
        while sc and sc != 'null':
            x = self.mdnode(sc)
            if not isinstance(x, dict):
                break
            if 'file' in x:
                f = self.mdnode(x['file'])
                fn = f.get('filename') if isinstance(f, dict) else None
                break
            sc = x.get('scope')
        return (fn, int(d.get('line', 0)))

def compile_ll(src, incs, defs=(), workdir='/tmp', name=None, opt='-O0', extra=()):
    """clang++ -> LLVM IR text of one of /repo's translation units (or a TU that instantiates its headers)"""
    import os
    name = name or os.path.basename(src)
    bc = os.path.join(workdir, name + '.bc')
    ll = os.path.join(workdir, name + '.ll')
    cmd = ['clang++-18', '-std=c++20', opt, '-g', '-fstandalone-debug', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone',
           '-w', '-emit-llvm', '-c', src, '-o', bc, *extra]
    cmd += ['-I' + i for i in incs] + ['-D' + d for d in defs]
    subprocess.run(cmd, check=True, capture_output=True, text=True)
    subprocess.run(['opt-18', '-passes=sroa,loop-simplify', '-S', bc, '-o', ll], check=True, capture_output=True, text=True)
    return ll
