"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits.

Produces Module / Function / Block / Instr objects.  Only syntax is handled
here; meaning is given by the executors.
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# ('int',n) ('ptr',) ('float',) ('double',) ('void',) ('label',) ('half',)
# ('vec',n,t) ('arr',n,t) ('struct',(t...),packed) ('named',name) ('meta',)
I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)
PTR = ('ptr',)

TOK = re.compile(r'''
  (?P<ws>\s+|;[^\n]*)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<str>"(?:[^"])*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>!(?:[-\w.$]+|"[^"]*")?)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_$.][-\w.$]*)
 |(?P<punct>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        t = m(s, pos)
        if not t:
            raise IRError('lex error at: ' + s[pos:pos + 60])
        k = t.lastgroup
        if k != 'ws':
            out.append((k, t.group()))
        pos = t.end()
    return out

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text', 'loc')
    def __init__(self, op, res=None, ty=None, args=None, x=None, text=''):
        self.op = op; self.res = res; self.ty = ty; self.args = args; self.x = x; self.text = text
    def __repr__(self):
        return '<%s>' % self.text.strip()[:140]

class Block:
    __slots__ = ('name', 'instrs', 'succ')
    def __init__(self, name):
        self.name = name; self.instrs = []; self.succ = []

class Function:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []
        self.entry = None; self.text = None; self.parsed = False; self.linkage = ''

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set(); self.aliases = {}

# values (operands) :
#  ('loc',name) ('glob',name) ('int',n) ('fp',bits,width) ('null',) ('undef',) ('poison',)
#  ('zero',) ('agg',[ (ty,val)...]) ('cstr',bytes) ('cexpr',op,...)
PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly returned
 immarg noreturn nounwind byval sret nest swiftself allocalign allocptr nofree dead_on_unwind writable
 inbounds nuw nsw exact disjoint fast nnan ninf nsz arcp contract afn reassoc tail musttail notail
 dso_local local_unnamed_addr unnamed_addr internal linkonce_odr linkonce weak weak_odr private external
 hidden protected default available_externally volatile fastcc ccc coldcc nneg inalloca captures align_stack
 thread_local constant global comdat mustprogress noinline alwaysinline'''.split())
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'elementtype', 'initializes'}

class P:
    """token stream parser"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        t = self.t[self.i]; self.i += 1
        return t
    def eof(self):
        return self.i >= len(self.t)
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
                t = PTR
            elif v[0] == 'i' and v[1:].isdigit(): t = ('int', int(v[1:]))
            elif v in ('float', 'double', 'void', 'label', 'half', 'metadata', 'x86_fp80', 'token', 'opaque', 'bfloat'): t = (v,)
            else: raise IRError('type? ' + v)
        elif k == 'loc': t = ('named', v)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self.structbody(True); self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif v == '{':
            t = self.structbody(False)
        else:
            raise IRError('type? %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
        while self.peek()[1] == '(' and t[0] != 'label' and self._fnty():
            # function type: skip parameter list
            self.skip_parens()
            t = ('fn', t)
        return t
    def _fnty(self):
        # '(' directly after a type and containing types only -> function type (only in call with varargs)
        d = 0
        j = self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    nk = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nk[0] in ('glob', 'loc') 
            j += 1
        return False
    def structbody(self, packed):
        ts = []
        if not self.accept('}'):
            while True:
                ts.append(self.type())
                if self.accept('}'): break
                self.expect(',')
        return ('struct', tuple(ts), packed)
    def skip_parens(self):
        self.expect('('); d = 1
        while d:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(': self.skip_parens()
                elif self.peek()[0] == 'num': self.next()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
                if self.peek()[1] == '(' and v not in ('comdat',): 
                    break
            elif k == 'str':
                self.next()
                if self.accept('='): self.next()
            elif k == 'attr': self.next()
            else: break
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty[0] in ('float', 'double', 'half'): return fpconst(ty, float(v))
            return ('int', int(v))
        if k == 'hex':
            return fphex(ty, v)
        if k == 'cstr': return ('cstr', unesc(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return (v,)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('none',)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.value(ty)
            if v == 'splat':
                self.expect('('); t = self.type(); x = self.value(t); self.expect(')')
                return ('agg', [(t, x)] * ty[1])
            if v == 'asm':
                fl = []
                while self.peek()[0] == 'word': fl.append(self.next()[1])
                s = self.next()[1]; self.expect(','); c = self.next()[1]
                return ('asm', s[1:-1], c[1:-1], fl)
            # constant expression
            self.attrs()
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i-1][1] == 'inrange': self.skip_parens()
                self.expect('('); st = self.type(); self.expect(',')
                ops = []
                while True:
                    if self.peek()[1] == 'inrange': self.next()
                    t = self.type(); ops.append((t, self.value(t)))
                    if self.accept(')'): break
                    self.expect(',')
                return ('cgep', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'shl'):
                while self.peek()[1] in ('nuw','nsw'): self.next()
                self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('cbin', v, t, a, b)
            raise IRError('const? ' + v)
        if v in ('<', '[', '{'):
            close = {'<': '>', '[': ']', '{': '}'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); packed = True; close = '}'
            els = []
            if not self.accept(close):
                while True:
                    t = self.type(); self.attrs(); els.append((t, self.value(t)))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', els)
        raise IRError('value? %r %r in %s' % (k, v, ' '.join(x[1] for x in self.t)[:300]))
    def typed(self):
        t = self.type()
        self.attrs()
        if t[0] == 'metadata':
            # skip metadata operand
            d = 0
            while not self.eof():
                v = self.peek()[1]
                if d == 0 and v in (',', ')'): break
                if v in '({[': d += 1
                if v in ')}]': d -= 1
                self.next()
            return (t, ('meta',))
        return (t, self.value(t))

import struct as _struct
def fpconst(ty, f):
    if ty[0] == 'float': return ('fp', _struct.unpack('<I', _struct.pack('<f', f))[0], 32)
    if ty[0] == 'double': return ('fp', _struct.unpack('<Q', _struct.pack('<d', f))[0], 64)
    raise IRError('fp type %s' % (ty,))
def fphex(ty, v):
    if v[2] in 'KMLHR': raise IRError('fp80')
    b = int(v[2:], 16)
    if ty[0] == 'double': return ('fp', b, 64)
    if ty[0] == 'float':
        f = _struct.unpack('<d', _struct.pack('<Q', b))[0]
        if f != f:
            return ('fp', ((b >> 32) & 0x80000000) | 0x7f800000 | ((b >> 29) & 0x7fffff), 32)
        return ('fp', _struct.unpack('<I', _struct.pack('<f', f))[0], 32)
    raise IRError('fp hex type')
def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}

def parse_instr(text, mod):
    toks = tokenize(text)
    # strip trailing metadata attachments  ", !tbaa !5"
    for j, (k, v) in enumerate(toks):
        if k == 'meta' and j > 0 and toks[j - 1][1] == ',' :
            toks = toks[:j - 1]
            break
    p = P(toks, mod)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    I = Instr(op, res, text=text)
    if op in BIN:
        p.attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        I.ty = t; I.args = [(t, a), (t, b)]
        I.x = frozenset(x[1] for x in toks if x[1] in ('nuw', 'nsw', 'exact'))
    elif op == 'fneg':
        p.attrs(); I.args = [p.typed()]; I.ty = I.args[0][0]
    elif op in CAST:
        p.attrs(); a = p.typed(); p.expect('to'); I.ty = p.type(); I.args = [a]
    elif op in ('icmp', 'fcmp'):
        p.attrs(); pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        I.x = pred; I.args = [(t, a), (t, b)]
        I.ty = ('vec', t[1], I1) if t[0] == 'vec' else I1
    elif op == 'alloca':
        p.attrs(); t = p.type(); I.x = t; I.ty = PTR; I.args = []
        if p.accept(','):
            if p.peek()[1] not in ('align', 'addrspace'):
                I.args = [p.typed()]
    elif op == 'load':
        p.attrs()
        I.ty = p.type(); p.expect(','); I.args = [p.typed()]
        I.x = getalign(toks)
    elif op == 'store':
        p.attrs()
        a = p.typed(); p.expect(','); b = p.typed(); I.args = [a, b]
        I.x = getalign(toks)
    elif op == 'getelementptr':
        p.attrs(); I.x = p.type(); I.args = []
        while p.accept(','):
            I.args.append(p.typed())
        I.ty = PTR if I.args[0][0][0] != 'vec' and all(a[0][0] != 'vec' for a in I.args) else ('vec', [a[0][1] for a in I.args if a[0][0] == 'vec'][0], PTR)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next(); I.x = [p.next()[1]]; I.args = []
        else:
            c = p.typed(); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
            I.args = [c]; I.x = [a, b]
    elif op == 'switch':
        c = p.typed(); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cases = []
        while not p.accept(']'):
            v = p.typed(); p.expect(','); p.expect('label'); cases.append((v[1][1], p.next()[1]))
        I.args = [c]; I.x = (d, cases)
    elif op == 'phi':
        p.attrs()
        I.ty = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(I.ty); p.expect(','); b = p.next()[1]; p.expect(']')
            inc.append((v, b))
            if not p.accept(','): break
        I.x = inc; I.args = []
    elif op == 'select':
        p.attrs()
        a = p.typed(); p.expect(','); b = p.typed(); p.expect(','); c = p.typed(); I.args = [a, b, c]; I.ty = b[0]
    elif op in ('call', 'invoke'):
        p.attrs()
        I.ty = p.type()
        if I.ty[0] == 'fn': I.ty = I.ty[1]
        p.attrs()
        callee = p.value(PTR)
        p.expect('('); args = []
        if not p.accept(')'):
            while True:
                args.append(p.typed())
                if p.accept(')'): break
                p.expect(',')
        I.args = args
        I.x = {'callee': callee}
        if op == 'invoke':
            while not p.eof() and p.peek()[1] != 'to': p.next()
            p.expect('to'); p.expect('label'); n = p.next()[1]; p.expect('unwind'); p.expect('label'); u = p.next()[1]
            I.x['normal'] = n; I.x['unwind'] = u
    elif op == 'ret':
        t = p.type()
        I.args = [] if t[0] == 'void' else [(t, p.value(t))]
    elif op == 'unreachable':
        I.args = []
    elif op == 'resume':
        I.args = [p.typed()]
    elif op == 'landingpad':
        I.ty = p.type(); cl = []
        cleanup = False
        while not p.eof():
            w = p.next()[1]
            if w == 'cleanup': cleanup = True
            elif w == 'catch':
                t = p.type(); cl.append(('catch', p.value(t)))
            elif w == 'filter':
                t = p.type(); cl.append(('filter', p.value(t)))
        I.x = (cleanup, cl); I.args = []
    elif op == 'extractvalue':
        a = p.typed(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        I.args = [a]; I.x = idx
    elif op == 'insertvalue':
        a = p.typed(); p.expect(','); b = p.typed(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        I.args = [a, b]; I.x = idx; I.ty = a[0]
    elif op == 'extractelement':
        a = p.typed(); p.expect(','); b = p.typed(); I.args = [a, b]; I.ty = a[0][2]
    elif op == 'insertelement':
        a = p.typed(); p.expect(','); b = p.typed(); p.expect(','); c = p.typed(); I.args = [a, b, c]; I.ty = a[0]
    elif op == 'shufflevector':
        a = p.typed(); p.expect(','); b = p.typed(); p.expect(','); c = p.typed(); I.args = [a, b, c]
        I.ty = ('vec', c[0][1], a[0][2])
    elif op == 'freeze':
        I.args = [p.typed()]; I.ty = I.args[0][0]
    elif op == 'fence':
        I.args = []
    else:
        raise IRError('unsupported instruction: ' + text.strip())
    return I

def getalign(toks):
    for j, (k, v) in enumerate(toks):
        if v == 'align' and k == 'word' and j + 1 < len(toks) and toks[j + 1][0] == 'num' and toks[j - 1][1] == ',':
            return int(toks[j + 1][1])
    return 1

def parse_function_body(fn, mod):
    """lazy parse"""
    if fn.parsed: return
    lines = fn.text
    cur = None
    buf = None
    def flush():
        nonlocal buf
        if buf is not None:
            cur.instrs.append(parse_instr(buf, mod))
            buf = None
    first = True
    for ln in lines:
        s = ln.strip()
        if not s or s.startswith(';'): continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):(\s|$)', ln)
        if m:
            if cur: flush()
            cur = Block('%' + m.group(1)); fn.blocks[cur.name] = cur; fn.order.append(cur.name)
            if fn.entry is None: fn.entry = cur.name
            continue
        if cur is None:
            cur = Block('%' + str(fn.nimplicit)); fn.blocks[cur.name] = cur; fn.order.append(cur.name); fn.entry = cur.name
        if buf is not None and ((buf.startswith('switch ') and ']' not in buf) or ln.startswith('      ') or s == ']' or s.startswith('to label') or buf.rstrip().endswith('[')):
            buf += ' ' + s
            continue
        flush()
        buf = s
    flush()
    for b in fn.blocks.values():
        t = b.instrs[-1]
        if t.op == 'br': b.succ = list(dict.fromkeys(t.x))
        elif t.op == 'switch': b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        elif t.op == 'invoke': b.succ = [t.x['normal'], t.x['unwind']]
        else: b.succ = []
    fn.parsed = True

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') :
            m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
            if m:
                if m.group(2).strip() == 'opaque': mod.types[m.group(1)] = ('opaque',)
                else: mod.types[m.group(1)] = P(tokenize(m.group(2)), mod).type()
        elif ln.startswith('@'):
            m = re.match(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
            mod.globals[m.group(1)] = m.group(2)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
            fn = Function(m.group(1)); fn.text = lines[i + 1:j]; fn.header = ln
            parse_header(fn, ln, m, mod)
            mod.funcs[fn.name] = fn
            i = j
        elif ln.startswith('declare'):
            m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
            mod.decls.add(m.group(1))
        i += 1
    return mod

def parse_header(fn, ln, m, mod):
    pre = ln[len('define'):m.start()]
    p = P(tokenize(pre), mod)
    p.attrs()
    while p.peek()[0] == 'word' and p.peek()[1] in PARAM_ATTRS: p.attrs()
    fn.ret = p.type()
    # params
    rest = ln[m.end() - 1:]
    toks = tokenize(rest.split(' personality ')[0] if ' personality ' in rest else rest.rstrip('{ '))
    p = P(toks, mod)
    p.expect('(')
    cnt = 0
    if not p.accept(')'):
        while True:
            if p.peek()[0] == 'dots': p.next()
            else:
                t = p.type(); p.attrs()
                if p.peek()[0] == 'loc': nm = p.next()[1]
                else: nm = '%' + str(cnt)
                fn.params.append((t, nm))
                if nm[1:].isdigit(): cnt = int(nm[1:]) + 1
            if p.accept(')'): break
            p.expect(',')
    fn.nimplicit = cnt

# ---------------------------------------------------------------- layout (x86-64)
class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
    def res(self, t):
        while t[0] == 'named': t = self.mod.types[t[1]]
        return t
    def size(self, t):      # store/alloc size in bytes
        r = self.cache.get(t)
        if r is None:
            r = self._size(t)
            self.cache[t] = r
        return r
    def _size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'int': 
            b = (t[1] + 7) // 8
            p = 1
            while p < b: p *= 2
            return p
        if k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'double': return 8
        if k == 'half': return 2
        if k == 'vec':
            e = self.res(t[2])
            if e == I1: return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0; al = 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                al = max(al, a)
                o = (o + a - 1) // a * a + self.size(e)
            return (o + al - 1) // al * al
        if k == 'x86_fp80': return 16
        raise IRError('sizeof %s' % (t,))
    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'arr': return self.align(t[2])
        if k == 'struct': return 1 if t[2] else max([1] + [self.align(e) for e in t[1]])
        if k == 'vec':
            return self.size(t)
        return self.size(t)
    def field(self, t, idx):
        t = self.res(t)
        o = 0
        for i, e in enumerate(t[1]):
            a = 1 if t[2] else self.align(e)
            o = (o + a - 1) // a * a
            if i == idx: return o, e
            o += self.size(e)
        raise IRError('field')
    def gep_const(self, ty, idxs):
        """byte offset for constant indices; idxs python ints"""
        off = idxs[0] * self.size(ty)
        t = ty
        for i in idxs[1:]:
            t = self.res(t)
            if t[0] == 'struct':
                o, t = self.field(t, i); off += o
            else:
                t = t[2]; off += i * self.size(t)
        return off
