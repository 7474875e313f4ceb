"""SIMD mode: executes a contract harness symbolically over bit vectors.

Control flow of this code is bounded by the arity, so loops are unrolled
completely (no bound is imposed: an unrolling that does not end is reported as
a tool limit) and states are merged where paths join."""
import re, time, heapq
from fractions import Fraction
import z3
import ir
from bvterms import *
import bvterms as B

class ToolLimit(Exception): pass
class Wrong(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj is self.obj and o.off is self.off
    def __hash__(self): return hash((id(self.obj), self.off.id))
    def __repr__(self): return '&%s+%r' % (self.obj.name if self.obj else 'null', self.off)

class Obj:
    def __init__(self, name, size, align=1, addr_mod=0, elem=None, ro=False):
        self.name = name; self.size = size; self.elem = elem; self.ro = ro
        n = align.bit_length() - 1
        self.addr = add(concat([const(n, 0), var('addr!' + name, 64 - n)]) if n else var('addr!' + name, 64), const(64, addr_mod))
        self.region = elem is not None

class Mem:
    """contents of one object: concrete cells, or a write log (region)"""
    __slots__ = ('cells', 'log', 'dead')
    def __init__(self): self.cells = {}; self.log = (); self.dead = False
    def copy(self):
        m = Mem(); m.cells = dict(self.cells); m.log = self.log; m.dead = self.dead
        return m

class State:
    __slots__ = ('fn', 'env', 'mem', 'pc', 'block', 'idx', 'allow', 'mags', 'own')
    def copy(self):
        s = State()
        s.fn = self.fn; s.env = dict(self.env); s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.pc = self.pc; s.block = self.block; s.idx = self.idx; s.allow = self.allow; s.mags = self.mags
        return s
    def m(self, obj):
        """writable contents"""
        x = self.mem.get(obj)
        if x is None:
            x = Mem(); self.mem[obj] = x; self.own.add(obj)
        elif obj not in self.own:
            x = x.copy(); self.mem[obj] = x; self.own.add(obj)
        return x
    def rd(self, obj):
        x = self.mem.get(obj)
        return x if x is not None else Mem()

class Ob:
    __slots__ = ('label', 'kind', 'status', 'how', 'inputs', 'goal', 'pc')

IEEE = {'fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'sitofp', 'fpext', 'fptrunc', 'cvtt', 'cvtn'}
NULL = Ptr(None, const(64, 0))
ERR = {'rcp': Fraction(3, 8192), 'rsqrt': Fraction(3, 8192), 'rcp14': Fraction(1, 1 << 14), 'rsqrt14': Fraction(1, 1 << 14)}

class Machine:
    def __init__(self, mod, opts):
        self.mod = mod; self.lay = ir.Layout(mod); self.opts = opts
        self.obls = []; self.covers = set(); self.assumed = set()
        self.stats = {'paths': 0, 'queries': 0, 'time': 0.0, 'loops': 0}
        self.steps = 0; self.deadline = opts.get('deadline')
        self.globs = {}; self.fresh = 0; self.inputs = {}     # var name -> signed?
        self.zcache = {}; self.lemmas = set(); self.nobj = 0
        self.dump = opts.get('dump'); self.giveup = 0

    # ------------------------------------------------------------ control
    def run_harness(self, name):
        fn = self.mod.funcs[name]
        ir.parse_function_body(fn, self.mod)
        self.rpo(fn)
        st = State(); st.fn = fn; st.env = {}; st.mem = {}; st.pc = (); st.block = fn.entry; st.idx = 0; st.allow = None; st.mags = frozenset(); st.own = set()
        wait = {fn.entry: [st]}
        heap = [(self.order[fn.entry], fn.entry)]
        ends = 0
        while heap:
            o, b = heapq.heappop(heap)
            sts = wait.pop(b, None)
            if not sts: continue
            s = sts[0]
            for t in sts[1:]: s = self.merge(s, t)
            if self.deadline and time.time() > self.deadline: raise ToolLimit('time budget exhausted')
            for n in self.block(s):
                if n is None: ends += 1; continue
                if n.block not in wait:
                    wait[n.block] = []
                    heapq.heappush(heap, (self.order[n.block], n.block))
                wait[n.block].append(n)
        self.stats['paths'] = ends
    def rpo(self, fn):
        seen = set(); post = []
        st = [(fn.entry, iter(fn.blocks[fn.entry].succ))]; seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(fn.blocks[s].succ))); break
            else:
                post.append(b); st.pop()
        self.order = {b: i for i, b in enumerate(reversed(post))}
        # blocks of a loop come before the blocks after it: order by RPO of the loop nest
        self.fix_loops(fn)
    def fix_loops(self, fn):
        """a block left of a loop must not run before the loop has finished: RPO from a DFS may
        interleave; give every natural loop a contiguous range"""
        order = self.order
        preds = {b: [] for b in order}
        for b in order:
            for s in fn.blocks[b].succ: preds[s].append(b)
        loops = {}
        for b in order:
            for s in fn.blocks[b].succ:
                if order[s] <= order[b]:
                    body = loops.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(preds[x])
        # depth first emission: topological order where a loop is one node
        seq = sorted(order, key=order.get)
        def emit(blocks, header, out):
            done = set()
            blocks = set(blocks)
            for b in seq:
                if b not in blocks or b in done: continue
                if b != header and b in loops and loops[b] <= blocks:
                    sub = []
                    emit(loops[b], b, sub)
                    out.extend(sub); done |= set(sub)
                else:
                    out.append(b); done.add(b)
        out = []
        emit(seq, None, out)
        self.order = {b: i for i, b in enumerate(out)}
    def merge(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        ca = conj(a.pc[n:]); cb = conj(b.pc[n:])
        r = a.copy()
        j = or_(ca, cb)
        r.pc = a.pc[:n] + (() if j is TRUE else (j,))
        # prefer the shorter condition for the selection
        if len(b.pc) < len(a.pc): a, b, ca = b, a, cb
        env = {}
        for k, v in a.env.items():
            if k in b.env:
                w = b.env[k]
                env[k] = v if v is w else self.ite(ca, v, w)
        r.env = env
        mem = {}
        for o in set(a.mem) | set(b.mem):
            x, y = a.mem.get(o), b.mem.get(o)
            if x is y: mem[o] = x; continue
            mem[o] = self.merge_mem(ca, o, x or Mem(), y or Mem())
        r.mem = mem; r.own = set()
        if a.allow is not b.allow and a.allow != b.allow: raise ToolLimit('merge of access permissions')
        r.mags = a.mags & b.mags
        return r
    def merge_mem(self, c, o, x, y):
        m = Mem()
        m.dead = x.dead and y.dead
        if o.region:
            n = 0
            while n < len(x.log) and n < len(y.log) and x.log[n] == y.log[n]: n += 1
            m.log = x.log[:n] + tuple((and_(c, g), off, v) for g, off, v in x.log[n:]) + tuple((and_(not_(c), g), off, v) for g, off, v in y.log[n:])
            return m
        for k in set(x.cells) | set(y.cells):
            p, q = x.cells.get(k), y.cells.get(k)
            if p is None or q is None:
                # written on one side only: other granularity or uninitialised there
                v = p or q
                sz = v[0]
                a = self.read_cells(x, o, k, sz); b = self.read_cells(y, o, k, sz)
                m.cells[k] = (sz, self.ite(c, a, b)); continue
            if p == q: m.cells[k] = p; continue
            if p[0] != q[0]: raise ToolLimit('merge of memory cells')
            m.cells[k] = (p[0], self.ite(c, p[1], q[1]))
        return m
    def ite(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T): return B.ite(c, a, b)
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b): return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return Ptr(a.obj, B.ite(c, a.off, b.off))
        return ('phi?', c, a, b)            # only a problem if used
    def jump(self, st, target):
        """enter target: phi values are computed on the edge"""
        prev = st.block
        vals = []
        blk = st.fn.blocks[target]
        n = 0
        for I in blk.instrs:
            if I.op != 'phi': break
            n += 1
            for v, b in I.x:
                if b == prev: vals.append((I.res, self.val(st, I.ty, v))); break
            else: raise ToolLimit('phi')
        for k, v in vals: st.env[k] = v
        st.block = target; st.idx = n
        return st

    # ------------------------------------------------------------ blocks
    def block(self, st):
        blk = st.fn.blocks[st.block]
        ins = blk.instrs
        self.visits = getattr(self, 'visits', {})
        self.visits[st.block] = self.visits.get(st.block, 0) + 1
        if self.visits[st.block] > 20000: raise ToolLimit('loop does not end')
        i = st.idx
        while True:
            I = ins[i]; i += 1
            self.steps += 1
            op = I.op
            if op == 'br':
                if len(I.x) == 1: return [self.jump(st, I.x[0])]
                c = self.val(st, ir.I1, I.args[0][1])
                return self.fork(st, [(c, I.x[0]), (not_(c), I.x[1])])
            if op == 'switch':
                v = self.val(st, I.args[0][0], I.args[0][1])
                arms = []; rest = TRUE
                for k, t in I.x[1]:
                    e = eq(v, const(v.w, k)); arms.append((e, t)); rest = and_(rest, not_(e))
                arms.append((rest, I.x[0]))
                return self.fork(st, arms)
            if op == 'ret': return [None]
            if op == 'unreachable': return []
            if op in ('call', 'invoke'):
                r = self.call(st, I)
                if r == 'stop': return []
                if op == 'invoke': return [self.jump(st, I.x['normal'])]
                continue
            h = getattr(self, 'i_' + op, None)
            if h is not None: r = h(st, I)
            elif op in ir.BIN: r = self.binop(st, I)
            elif op in ir.CAST: r = self.cast(st, I)
            else: raise ToolLimit('instruction ' + op)
            if I.res is not None: st.env[I.res] = r
    def fork(self, st, arms):
        live = [(c, t) for c, t in arms if c is not FALSE]
        for c, t in live:
            if c is TRUE: return [self.jump(st, t)]
        # conditions decided by the path
        known = set(st.pc)
        live = [(c, t) for c, t in live if not_(c) not in known]
        for c, t in live:
            if c in known: return [self.jump(st, t)]
        out = []
        for k, (c, t) in enumerate(live):
            s = st.copy() if k + 1 < len(live) else st
            s.pc = s.pc + (c,)
            out.append(self.jump(s, t))
        return out

    # ------------------------------------------------------------ operands
    def width(self, t):
        t = self.lay.res(t)
        if t[0] == 'int': return t[1]
        if t[0] == 'float': return 32
        if t[0] in ('double', 'ptr'): return 64
        raise ToolLimit('type %s' % (t,))
    def undef(self, t):
        t = self.lay.res(t)
        if t[0] in ('vec', 'arr'): return [self.undef(t[2]) for _ in range(t[1])]
        if t[0] == 'struct': return [self.undef(x) for x in t[1]]
        self.fresh += 1
        v = var('undef!%d' % self.fresh, self.width(t))
        return Ptr(None, v) if t[0] == 'ptr' else v
    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            r = st.env.get(v[1])
            if r is None: raise ToolLimit('value %s undefined on a merged path' % v[1])
            if isinstance(r, tuple) and r[0] == 'phi?': raise ToolLimit('pointer chosen by data')
            return r
        t = self.lay.res(ty)
        if k == 'int': return const(self.width(t), v[1])
        if k == 'fp': return const(v[2], v[1])
        if k == 'null': return NULL
        if k in ('undef', 'poison'): return self.undef(t)
        if k == 'zero':
            if t[0] in ('vec', 'arr'): return [self.val(st, t[2], v) for _ in range(t[1])]
            if t[0] == 'struct': return [self.val(st, x, v) for x in t[1]]
            if t[0] == 'ptr': return NULL
            return const(self.width(t), 0)
        if k == 'agg': return [self.val(st, a, b) for a, b in v[1]]
        if k == 'cstr': return [const(8, b) for b in v[1]]
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cgep': return self.gep(st, v[1], v[2])
        if k == 'ccast':
            x = self.val(st, v[2], v[3])
            if v[1] == 'ptrtoint': return self.addr(x)
            return x
        raise ToolLimit('operand ' + k)
    def glob(self, st, name):
        if name in self.globs: return Ptr(self.globs[name], const(64, 0))
        txt = self.mod.globals.get(name)
        if txt is None: raise ToolLimit('function pointer ' + name)
        p = ir.P(ir.tokenize(txt), self.mod)
        p.attrs()
        ty = p.type()
        al = re.search(r'align (\d+)', txt)
        o = Obj(name, self.lay.size(ty), int(al.group(1)) if al else 1)
        o.ginit = None
        o.static = not re.search(r'(^|\s)(constant|thread_local\S*)\s', txt.split('{')[0].split('[')[0].split('<')[0])
        self.globs[name] = o
        if not (p.eof() or p.peek()[1] == ','):
            try: o.ginit = (ty, p.value(ty))
            except ir.IRError: pass
        return Ptr(o, const(64, 0))
    def addr(self, p):
        if p.obj is None: return p.off
        return add(p.obj.addr, p.off)

    # ------------------------------------------------------------ memory
    def content(self, st, o):
        m = st.mem.get(o)
        if m is None and getattr(o, 'ginit', None):
            m = st.m(o)
            self.put(st, o, 0, o.ginit[0], self.val(st, o.ginit[0], o.ginit[1]))
        return m
    def flat(self, ty):
        """[(offset, scalar type)] of a type"""
        t = self.lay.res(ty)
        if t[0] in ('vec', 'arr'):
            e = self.lay.res(t[2])
            if t[0] == 'vec' and e == ir.I1: raise ToolLimit('mask vector in memory')
            s = self.lay.size(t[2]); out = []
            sub = self.flat(t[2])
            for i in range(t[1]): out += [(i * s + o, x) for o, x in sub]
            return out
        if t[0] == 'struct':
            out = []
            for i in range(len(t[1])):
                o, x = self.lay.field(t, i)
                out += [(o + q, y) for q, y in self.flat(x)]
            return out
        return [(0, t)]
    def leaves(self, v):
        if isinstance(v, list):
            out = []
            for x in v: out += self.leaves(x)
            return out
        return [v]
    def rebuild(self, ty, it):
        t = self.lay.res(ty)
        if t[0] in ('vec', 'arr'): return [self.rebuild(t[2], it) for _ in range(t[1])]
        if t[0] == 'struct': return [self.rebuild(x, it) for x in t[1]]
        return next(it)
    def put(self, st, o, off, ty, v):
        m = st.m(o)
        for (q, t), x in zip(self.flat(ty), self.leaves(v)):
            self.write_cell(m, o, off + q, self.lay.size(t), x, t)
    def write_cell(self, m, o, off, sz, x, t):
        if isinstance(x, T) and x.w < 8 * sz: x = zext(x, 8 * sz)
        c = m.cells.get(off)
        if not (c is not None and c[0] == sz):
            # split what overlaps
            for k in [k for k in range(off - 63, off + sz) if k in m.cells]:
                s, v = m.cells[k]
                if k + s <= off: continue
                del m.cells[k]
                if isinstance(v, Ptr):
                    if k >= off and k + s <= off + sz: continue
                    v = self.addr(v)
                if k < off: m.cells[k] = (off - k, extract(v, 0, 8 * (off - k)))
                if k + s > off + sz: m.cells[off + sz] = (k + s - off - sz, extract(v, 8 * (off + sz - k), 8 * (k + s - off - sz)))
        m.cells[off] = (sz, x)
    def read_cells(self, m, o, off, sz):
        c = m.cells.get(off)
        if c is not None and c[0] == sz: return c[1]
        parts = []; p = off
        while p < off + sz:
            hit = None
            for k in range(p, p - 64, -1):
                c = m.cells.get(k)
                if c is not None:
                    if k + c[0] > p: hit = (k, c)
                    break
            if hit is None:
                e = p + 1
                while e < off + sz and e not in m.cells: e += 1
                self.fresh += 1
                parts.append(var('uninit!%s!%d!%d' % (o.name, p, self.fresh), 8 * (e - p))); p = e
                continue
            k, (s, v) = hit
            if isinstance(v, Ptr): v = self.addr(v)
            if isinstance(v, tuple): raise ToolLimit('merged pointer')
            e = min(off + sz, k + s)
            parts.append(extract(v, 8 * (p - k), 8 * (e - p))); p = e
        return concat(parts)
    def bounds(self, st, p, sz, what):
        o = p.obj
        if o is None:
            self.oblige(st, FALSE, 'valid pointer (%s)' % what, 'memory'); raise ToolLimit('access through a pointer that is no object')
        if isc(p.off):
            off = sval(p.off)
            if 0 <= off and off + sz <= o.size: return
            self.oblige(st, FALSE, '%s inside %s' % (what, o.name), 'bounds')
            raise ToolLimit('out of bounds access')
        lim = const(64, o.size - sz)
        self.oblige(st, ule(p.off, lim), '%s inside %s' % (what, o.name), 'bounds')
    def align_ok(self, st, p, al, what):
        if al <= 1: return
        n = al.bit_length() - 1
        self.oblige(st, eq(extract(self.addr(p), 0, n), const(n, 0)), 'alignment of %s' % what, 'align')
    def load(self, st, p, ty, al=1, what='load'):
        if not isinstance(p, Ptr): raise ToolLimit('load through an integer')
        sz = self.lay.size(ty)
        self.bounds(st, p, sz, what)
        o = p.obj
        self.align_ok(st, p, al, what)
        if o.region:
            out = []
            for q, t in self.flat(ty): out.append(self.region_load(st, o, add(p.off, const(64, q)), self.lay.size(t), what))
            return self.rebuild(ty, iter(out))
        self.content(st, o)
        m = st.rd(o)
        fl = self.flat(ty)
        if not isc(p.off):
            if len(fl) != 1: raise ToolLimit('vector access at a symbolic offset')
            # finite object: choose among the aligned positions
            es = self.lay.size(fl[0][1])
            pos = list(range(0, o.size - es + 1, es))
            if len(pos) > 64: raise ToolLimit('symbolic index into a large object')
            self.oblige(st, disj([eq(p.off, const(64, k)) for k in pos]), '%s of a whole element of %s' % (what, o.name), 'bounds')
            r = None
            for k in reversed(pos):
                v = self.read_cells(m, o, k, es)
                if isinstance(v, Ptr): raise ToolLimit('pointer at a symbolic index')
                r = v if r is None else B.ite(eq(p.off, const(64, k)), v, r)
            return r
        base = cval(p.off)
        out = []
        for q, t in fl:
            es = self.lay.size(t)
            v = self.read_cells(m, o, base + q, es)
            if isinstance(v, tuple): raise ToolLimit('merged pointer')
            if t[0] == 'ptr':
                if isinstance(v, T): v = Ptr(None, v)
            else:
                if isinstance(v, Ptr): v = self.addr(v)
                w = self.width(t)
                if v.w > w: v = extract(v, 0, w)
            out.append(v)
        return self.rebuild(ty, iter(out))
    def store(self, st, p, ty, v, al=1, what='store'):
        if not isinstance(p, Ptr): raise ToolLimit('store through an integer')
        sz = self.lay.size(ty)
        self.bounds(st, p, sz, what)
        self.align_ok(st, p, al, what)
        o = p.obj
        self.static_write(st, o)
        if o.region:
            for (q, t), x in zip(self.flat(ty), self.leaves(v)):
                self.region_store(st, o, add(p.off, const(64, q)), self.lay.size(t), x, TRUE, what)
            return
        self.content(st, o)
        fl = self.flat(ty)
        if not isc(p.off):
            if len(fl) != 1: raise ToolLimit('vector store at a symbolic offset')
            es = self.lay.size(fl[0][1])
            pos = list(range(0, o.size - es + 1, es))
            if len(pos) > 64: raise ToolLimit('symbolic index into a large object')
            self.oblige(st, disj([eq(p.off, const(64, k)) for k in pos]), '%s of a whole element of %s' % (what, o.name), 'bounds')
            m = st.m(o)
            for k in pos:
                old = self.read_cells(m, o, k, es)
                self.write_cell(m, o, k, es, B.ite(eq(p.off, const(64, k)), v, old), fl[0][1])
            return
        self.put(st, o, cval(p.off), ty, v)
    def static_write(self, st, o):
        if self.opts.get('statics') and getattr(o, 'static', False): self.oblige(st, FALSE, 'writes no static object', 'frame')
    def vc_frame_begin(self, st, I): pass
    def vc_frame_end(self, st, I): self.oblige(st, TRUE, 'writes no static object', 'frame')
    def elem_ok(self, st, o, off, sz, what):
        if sz != o.elem:
            self.oblige(st, FALSE, '%s touches whole elements of %s' % (what, o.name), 'bounds'); raise ToolLimit('partial element access')
        n = o.elem.bit_length() - 1
        self.oblige(st, eq(extract(off, 0, n), const(n, 0)), '%s touches whole elements of %s' % (what, o.name), 'bounds')
        if st.allow is not None:
            self.oblige(st, disj([eq(off, a) for a in st.allow]), '%s touches only the elements named by the offsets' % what, 'frame')
    def region_load(self, st, o, off, sz, what, guard=TRUE):
        self.elem_ok(st, o, off, sz, what)
        r = uf('mem!' + o.name, 8 * o.elem, off)
        for g, a, v in st.rd(o).log:
            r = B.ite(and_(g, eq(a, off)), v, r)
        return r
    def region_store(self, st, o, off, sz, v, g, what):
        self.elem_ok(st, o, off, sz, what)
        m = st.m(o)
        m.log = m.log + ((g, off, v),)

    # ------------------------------------------------------------ instructions
    def a(self, st, I, k): return self.val(st, I.args[k][0], I.args[k][1])
    def i_alloca(self, st, I):
        n = 1
        if I.args:
            c = self.a(st, I, 0)
            if not isc(c): raise ToolLimit('variable length array')
            n = cval(c)
        al = re.search(r'align (\d+)', I.text)
        self.nobj += 1
        return Ptr(Obj('%s.%d' % (I.res[1:], self.nobj), n * self.lay.size(I.x), int(al.group(1)) if al else 1), const(64, 0))
    def i_load(self, st, I): return self.load(st, self.a(st, I, 0), I.ty, I.x)
    def i_store(self, st, I):
        self.store(st, self.a(st, I, 1), I.args[0][0], self.a(st, I, 0), I.x)
    def gep(self, st, ty, ops):
        p = self.val(st, ops[0][0], ops[0][1])
        if isinstance(p, list): raise ToolLimit('vector of pointers')
        off = p.off; t = ty; first = True
        for ot, ov in ops[1:]:
            v = self.val(st, ot, ov)
            if isinstance(v, list): raise ToolLimit('vector of pointers')
            v = sext(v, 64)
            if first: off = add(off, mul(v, const(64, self.lay.size(t)))); first = False; continue
            r = self.lay.res(t)
            if r[0] == 'struct':
                o, t = self.lay.field(r, cval(v)); off = add(off, const(64, o))
            else:
                t = r[2]; off = add(off, mul(v, const(64, self.lay.size(t))))
        return Ptr(p.obj, off)
    def i_getelementptr(self, st, I): return self.gep(st, I.x, I.args)
    def map2(self, f, a, b):
        if isinstance(a, list): return [f(x, y) for x, y in zip(a, b)]
        return f(a, b)
    def binop(self, st, I):
        a, b = self.a(st, I, 0), self.a(st, I, 1)
        op = I.op
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): f = lambda x, y: fpop(op, x, y)
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            def f(x, y):
                self.oblige(st, not_(eq(y, const(y.w, 0))), 'division by zero', 'arith')
                return div(op, x, y)
        elif op == 'frem': f = lambda x, y: uf('frem', x.w, x, y)
        else: f = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        return self.map2(f, a, b)
    def i_fneg(self, st, I):
        a = self.a(st, I, 0)
        return [fneg(x) for x in a] if isinstance(a, list) else fneg(a)
    def i_icmp(self, st, I):
        a, b = self.a(st, I, 0), self.a(st, I, 1)
        p = I.x
        def f(x, y):
            if isinstance(x, Ptr): 
                if x.obj is y.obj and p in ('eq', 'ne'): r = eq(x.off, y.off); return r if p == 'eq' else not_(r)
                x = self.addr(x); y = self.addr(y)
            return {'eq': eq, 'ult': ult, 'slt': slt, 'ule': ule, 'sle': sle,
                    'ne': lambda u, v: not_(eq(u, v)), 'ugt': lambda u, v: ult(v, u), 'sgt': lambda u, v: slt(v, u),
                    'uge': lambda u, v: ule(v, u), 'sge': lambda u, v: sle(v, u)}[p](x, y)
        return self.map2(f, a, b)
    def i_fcmp(self, st, I):
        a, b = self.a(st, I, 0), self.a(st, I, 1)
        return self.map2(lambda x, y: fcmp(I.x, x, y), a, b)
    def i_select(self, st, I):
        c, a, b = self.a(st, I, 0), self.a(st, I, 1), self.a(st, I, 2)
        if isinstance(c, list): return [self.ite(x, y, z) for x, y, z in zip(c, a, b)]
        if isc(c): return a if cval(c) else b
        return self.ite(c, a, b)
    def i_freeze(self, st, I): return self.a(st, I, 0)
    def i_fence(self, st, I): return None
    def i_extractvalue(self, st, I):
        v = self.a(st, I, 0)
        for k in I.x: v = v[k]
        return v
    def i_insertvalue(self, st, I):
        v = self.a(st, I, 0); x = self.a(st, I, 1)
        def ins(v, idx):
            v = list(v)
            v[idx[0]] = x if len(idx) == 1 else ins(v[idx[0]], idx[1:])
            return v
        return ins(v, I.x)
    def i_extractelement(self, st, I):
        v = self.a(st, I, 0); k = self.a(st, I, 1)
        if isc(k):
            if cval(k) >= len(v): return self.undef(I.ty)
            return v[cval(k)]
        self.oblige(st, ult(k, const(k.w, len(v))), 'lane index in range', 'bounds')
        r = v[-1]
        for i in range(len(v) - 2, -1, -1): r = self.ite(eq(k, const(k.w, i)), v[i], r)
        return r
    def i_insertelement(self, st, I):
        v = list(self.a(st, I, 0)); x = self.a(st, I, 1); k = self.a(st, I, 2)
        if isc(k):
            if cval(k) < len(v): v[cval(k)] = x
            return v
        return [self.ite(eq(k, const(k.w, i)), x, y) for i, y in enumerate(v)]
    def i_shufflevector(self, st, I):
        a, b = self.a(st, I, 0), self.a(st, I, 1)
        ab = a + b
        mt, mv = I.args[2]
        if mv[0] == 'zero': idx = [0] * mt[1]
        elif mv[0] in ('poison', 'undef'): idx = [None] * mt[1]
        else: idx = [None if x[1][0] in ('undef', 'poison') else x[1][1] for x in mv[1]]
        return [ab[k] if k is not None else self.undef(I.ty[2]) for k in idx]
    def cast(self, st, I):
        v = self.a(st, I, 0)
        ft = self.lay.res(I.args[0][0]); tt = self.lay.res(I.ty)
        op = I.op
        if op == 'bitcast':
            if ft == tt: return v
            return self.bitcast(v, tt)
        if isinstance(v, list):
            return [self.cast1(st, op, x, tt[2]) for x in v]
        return self.cast1(st, op, v, tt)
    def bitcast(self, v, tt):
        bits = concat(self.leaves(v)) if isinstance(v, list) else v
        if tt[0] == 'vec':
            w = self.width(tt[2])
            return [extract(bits, i * w, w) for i in range(tt[1])]
        return bits
    def cast1(self, st, op, x, t):
        if op == 'ptrtoint': return self.addr(x)
        if op == 'inttoptr':
            # pointer recovered from its own address
            k, d = lin_parts(x)
            raise ToolLimit('integer to pointer')
        w = self.width(t)
        if op == 'trunc': return extract(x, 0, w)
        if op == 'zext': return zext(x, w)
        if op == 'sext': return sext(x, w)
        return self.conv(op, x, w)
    def conv(self, op, x, w):
        if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return B.ite(x.a[0], self.conv(op, x.a[1], w), self.conv(op, x.a[2], w))
        name = {'fptosi': 'cvtt', 'fptoui': 'cvttu', 'sitofp': 'sitofp', 'uitofp': 'uitofp', 'fpext': 'fpext', 'fptrunc': 'fptrunc'}.get(op, op)
        if name in ('sitofp', 'uitofp') and x.op == 'cat' and len(x.a) == 2 and isc(x.a[1]) and cval(x.a[1]) == 0 and x.a[0].w == 1:
            return B.ite(x.a[0], f_bits(1.0, w), f_bits(0.0, w))
        if isc(x):
            if name == 'sitofp': return f_bits(float(sval(x)), w)
            if name == 'uitofp': return f_bits(float(cval(x)), w)
            f = f_of(x)
            if name in ('fpext', 'fptrunc'): return f_bits(f, w) if f == f else uf(name, w, x)
            if name in ('cvtt', 'cvttu', 'cvtn') and f == f and abs(f) < 2.0 ** 30: return const(w, int(f) if name != 'cvtn' else round(f))
        return uf(name, w, x)

    # ------------------------------------------------------------ calls
    def call(self, st, I):
        cal = I.x['callee']
        if cal[0] == 'asm': st.env[I.res] = self.asm(st, I, cal); return
        if cal[0] != 'glob': raise ToolLimit('indirect call')
        n = cal[1][1:]
        if n.startswith('vc_'):
            r = getattr(self, n)(st, I)
            if I.res is not None: st.env[I.res] = r
            return r if r == 'stop' else None
        if re.match(r'llvm\.(lifetime|experimental\.noalias|dbg|assume|prefetch|donothing)', n) or n in ('llvm.x86.sse.sfence', 'llvm.x86.sse2.mfence', 'llvm.x86.avx.vzeroupper'): return
        if n in ('__assert_fail', 'abort', '_ZSt9terminatev', '__cxa_throw', 'llvm.trap'):
            self.oblige(st, FALSE, 'no failing assertion, no abort', 'assert'); return 'stop'
        if n in ('__cxa_allocate_exception',): raise ToolLimit('exception')
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            d, s, c = self.a(st, I, 0), self.a(st, I, 1), self.a(st, I, 2)
            if not isc(c): raise ToolLimit('memcpy of symbolic size')
            self.memcpy(st, d, s, cval(c))
            if I.res is not None: st.env[I.res] = d
            return
        if n.startswith('llvm.memset') or n == 'memset':
            d, v, c = self.a(st, I, 0), self.a(st, I, 1), self.a(st, I, 2)
            if not isc(c): raise ToolLimit('memset of symbolic size')
            v = extract(v, 0, 8)
            for i in range(cval(c)): self.store(st, Ptr(d.obj, add(d.off, const(64, i))), ('int', 8), v)
            if I.res is not None: st.env[I.res] = d
            return
        args = [self.a(st, I, k) for k in range(len(I.args)) if I.args[k][1][0] != 'meta']
        r = self.intrinsic(st, n, args, I)
        if r is None and I.ty[0] != 'void': raise ToolLimit('call of ' + n)
        if I.res is not None: st.env[I.res] = r
    def memcpy(self, st, d, s, n):
        if n == 0: return
        self.bounds(st, s, n, 'memcpy source'); self.bounds(st, d, n, 'memcpy destination')
        if not (isc(d.off) and isc(s.off)) or d.obj.region or s.obj.region:
            if n in (4, 8): self.store(st, d, ('int', 8 * n), self.load(st, s, ('int', 8 * n))); return
            raise ToolLimit('memcpy at symbolic offset')
        self.static_write(st, d.obj)
        self.content(st, s.obj); self.content(st, d.obj)
        src = st.rd(s.obj); so = cval(s.off); do = cval(d.off)
        p = 0; items = []
        while p < n:
            c = src.cells.get(so + p)
            if c is not None and p + c[0] <= n: items.append((p, c[0], c[1])); p += c[0]; continue
            e = p + 1
            while e < n and (so + e) not in src.cells and e - p < 8: e += 1
            items.append((p, e - p, self.read_cells(src, s.obj, so + p, e - p))); p = e
        m = st.m(d.obj)
        for q, sz, v in items: self.write_cell(m, d.obj, do + q, sz, v, None)
    def vec1(self, f, *vs): return [f(*x) for x in zip(*vs)] if isinstance(vs[0], list) else f(*vs)
    def intrinsic(self, st, n, a, I):
        if n in ('sqrt', 'sqrtf') or n.startswith('llvm.sqrt.'):
            return self.vec1(lambda x: self.fun('fsqrt', x), a[0])
        if n in ('fabs', 'fabsf') or n.startswith('llvm.fabs.'): return self.vec1(fabs_, a[0])
        if n.startswith('llvm.fma.') or n in ('fma', 'fmaf'): return self.vec1(lambda x, y, z: uf('fma', x.w, x, y, z), *a)
        if n.startswith('llvm.fmuladd.'): return self.vec1(lambda x, y, z: fpop('fadd', fpop('fmul', x, y), z), *a)
        if n.startswith('llvm.ctpop.'):
            def pop(x):
                r = const(x.w, 0)
                for i in range(x.w): r = add(r, zext(extract(x, i, 1), x.w))
                return r
            return self.vec1(pop, a[0])
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.', n)
        if m:
            k = m.group(1); lt = slt if k[0] == 's' else ult
            return self.vec1(lambda x, y: B.ite(lt(x, y), *((y, x) if k.endswith('max') else (x, y))), *a)
        m = re.match(r'llvm\.vector\.reduce\.(or|and|add|xor)\.', n)
        if m:
            f = {'or': or_, 'and': and_, 'add': add, 'xor': xor}[m.group(1)]
            r = a[0][0]
            for x in a[0][1:]: r = f(r, x)
            return r
        if not n.startswith('llvm.x86.'): return None
        s = n[9:]
        if re.match(r'(sse41\.blendvp[sd]|avx\.blendv\.p[sd]\.256)$', s) or s in ('sse41.pblendvb', 'avx2.pblendvb'):
            return [B.ite(extract(c, c.w - 1, 1), y, x) for x, y, c in zip(*a)]
        if s in ('sse41.ptestz', 'avx.ptestz.256', 'sse41.ptestc', 'avx.ptestc.256', 'sse41.ptestnzc', 'avx.ptestnzc.256'):
            z = TRUE; c = TRUE
            for x, y in zip(a[0], a[1]):
                z = and_(z, eq(and_(x, y), const(x.w, 0))); c = and_(c, eq(and_(not_(x), y), const(x.w, 0)))
            r = z if 'testz' in s else c if 'testc' in s else and_(not_(z), not_(c))
            return zext(r, 32)
        m = re.match(r'avx\.vtest(z|c|nzc)\.p[sd](\.256)?$', s)
        if m:
            z = TRUE; c = TRUE
            for x, y in zip(a[0], a[1]):
                p, q = extract(x, x.w - 1, 1), extract(y, y.w - 1, 1)
                z = and_(z, not_(and_(p, q))); c = and_(c, not_(and_(not_(p), q)))
            return zext({'z': z, 'c': c, 'nzc': and_(not_(z), not_(c))}[m.group(1)], 32)
        if re.match(r'(sse\.movmsk\.ps|sse2\.movmsk\.pd|avx\.movmsk\.p[sd]\.256|sse2\.pmovmskb\.128|avx2\.pmovmskb)$', s):
            return zext(concat([extract(x, x.w - 1, 1) for x in a[0]]), 32)
        if s in ('sse2.cvtps2dq', 'avx.cvt.ps2dq.256'): return [self.conv('cvtn', x, 32) for x in a[0]]
        if s in ('sse2.cvttps2dq', 'avx.cvtt.ps2dq.256'): return [self.conv('cvtt', x, 32) for x in a[0]]
        if s in ('avx512.mask.cvtps2dq.512', 'avx512.mask.cvttps2dq.512', 'avx512.mask.cvtps2dq.256', 'avx512.mask.cvttps2dq.128'):
            nm = 'cvtt' if 'cvttps' in s else 'cvtn'
            rnd = cval(a[3]) if len(a) > 3 else 4
            if nm == 'cvtn' and rnd & 7 != 4:
                nm = {0: 'cvtn', 1: 'cvtf', 2: 'cvtc', 3: 'cvtt'}[rnd & 3]
            return self.masked([self.conv(nm, x, 32) for x in a[0]], a[1], a[2])
        if s in ('sse.rcp.ps', 'avx.rcp.ps.256'): return [uf('rcp', 32, x) for x in a[0]]
        if s in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256'): return [uf('rsqrt', 32, x) for x in a[0]]
        if re.match(r'avx512\.(rcp14|rsqrt14)\.p[sd]\.(128|256|512)$', s):
            nm = s.split('.')[1]
            return self.masked([uf(nm, x.w, x) for x in a[0]], a[1], a[2])
        if re.match(r'avx512\.sqrt\.p[sd]\.512$', s): return [self.fun('fsqrt', x) for x in a[0]]
        if re.match(r'avx512\.(add|sub|mul|div)\.p[sd]\.512$', s):
            return [fpop('f' + s.split('.')[1], x, y) for x, y in zip(a[0], a[1])]
        if re.match(r'(sse\.cmp\.ps|sse2\.cmp\.pd|avx\.cmp\.p[sd]\.256)$', s):
            return [sext(self.cmppred(cval(a[2]), x, y), x.w) for x, y in zip(a[0], a[1])]
        if re.match(r'avx512\.mask\.cmp\.p[sd]\.', s):
            r = [and_(self.cmppred(cval(a[2]), x, y), k) for x, y, k in zip(a[0], a[1], a[3])]
            return r
        if s == 'sse41.insertps': return self.insertps(a[0], a[1], cval(a[2]))
        if re.match(r'avx2\.gather\.[dq]\.(d|q|ps|pd)(\.256)?$', s):
            src, base, idx, mask, sc = a
            return self.gather(st, src, base, idx, [extract(x, x.w - 1, 1) for x in mask], cval(sc))
        if re.match(r'avx512\.mask\.gather\.[dq]p[dsiq]\.512$', s):
            src, base, idx, mask, sc = a
            return self.gather(st, src, base, idx, mask, cval(sc))
        if re.match(r'avx512\.mask\.scatter\.[dq]p[dsiq]\.512$', s):
            base, mask, idx, v, sc = a
            for k in range(len(v)):
                p = Ptr(base.obj, add(base.off, mul(sext(idx[k], 64), const(64, cval(sc)))))
                if mask[k] is FALSE: continue
                if mask[k] is not TRUE: raise ToolLimit('masked scatter')
                self.store(st, p, ('int', v[k].w), v[k], what='scatter')
            return []
        return None
    def masked(self, r, src, mask):
        if isinstance(mask, T): mask = [extract(mask, i, 1) for i in range(len(r))]
        return [B.ite(m, x, y) for m, x, y in zip(mask, r, src)]
    def cmppred(self, imm, x, y):
        base = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true'][imm & 15]
        return fcmp(base, x, y)
    def fun(self, name, x):
        if isc(x):
            f = f_of(x)
            if f >= 0 and f < 1e30: return f_bits(math.sqrt(f), x.w)
        return uf(name, x.w, x)
    def gather(self, st, src, base, idx, mask, scale):
        out = []
        for k in range(len(src)):
            if mask[k] is FALSE: out.append(src[k]); continue
            if mask[k] is not TRUE: raise ToolLimit('masked gather')
            p = Ptr(base.obj, add(base.off, mul(sext(idx[k], 64), const(64, scale))))
            out.append(self.load(st, p, ('int', src[k].w), what='gather'))
        return out
    def insertps(self, dst, src, imm):
        v = src[(imm >> 6) & 3]
        r = list(dst); r[(imm >> 4) & 3] = v
        return [const(32, 0) if imm >> i & 1 else r[i] for i in range(4)]
    def asm(self, st, I, cal):
        s = cal[1].replace('\\0A', '').replace('\\09', ' ').strip()
        m = re.match(r'^v?insertps \$1, \(\$\{2:q\}, \$\{3:q\}, (\d+)\), \$0(, \$0)?$', s)
        if not m: raise ToolLimit('inline assembly: ' + s)
        imm, base, idx, dst = [self.a(st, I, k) for k in range(4)]
        imm = cval(imm)
        if idx.w < 64:
            # a 32 bit operand named as a 64 bit register: the upper half is not specified
            self.fresh += 1
            idx = concat([idx, var('reghi!%d' % self.fresh, 64 - idx.w)])
        p = Ptr(base.obj, add(base.off, mul(idx, const(64, int(m.group(1))))))
        v = self.load(st, p, ('int', 32), what='gather')
        r = list(dst); r[(imm >> 4) & 3] = v
        return [const(32, 0) if imm >> i & 1 else r[i] for i in range(4)]

    # ------------------------------------------------------------ primitives
    def s(self, st, I, k):
        p = self.a(st, I, k)
        o = p.obj
        if getattr(o, 'ginit', None) and o.ginit[1][0] == 'cstr':
            return o.ginit[1][1].split(b'\0')[0].decode()
        return '?'
    def vc_array(self, st, I):
        p, n, e, l = self.a(st, I, 0), cval(self.a(st, I, 1)), cval(self.a(st, I, 2)), self.s(st, I, 3)
        for i in range(n):
            v = var('%s[%d]' % (l, i), 8 * e); self.inputs['%s[%d]' % (l, i)] = v
            self.store(st, Ptr(p.obj, add(p.off, const(64, i * e))), ('int', 8 * e), v)
    def vc_touch(self, st, I): return None
    def vc_block(self, st, I):
        n, e, off, l = [cval(self.a(st, I, k)) for k in range(3)] + [self.s(st, I, 3)]
        o = Obj(l, n * e, 64, off)
        m = st.m(o)
        for i in range(n):
            v = var('%s[%d]' % (l, i), 8 * e); self.inputs['%s[%d]' % (l, i)] = v
            m.cells[i * e] = (e, v)
        return Ptr(o, const(64, 0))
    def vc_region(self, st, I):
        e, l = cval(self.a(st, I, 0)), self.s(st, I, 1)
        o = Obj(l, (1 << 32) * e, 64, 0, elem=e)
        st.m(o)
        return Ptr(o, const(64, (1 << 31) * e))
    def vc_allow(self, st, I):
        p = self.a(st, I, 0)
        st.allow = (st.allow or ()) + (p.off,)
    def vc_allow_all(self, st, I): st.allow = None
    def vc_requires(self, st, I):
        c = self.a(st, I, 0)
        if c is FALSE: return 'stop'
        if c is not TRUE: st.pc = st.pc + (c,)
    def vc_ensures(self, st, I): self.oblige(st, self.a(st, I, 0), self.s(st, I, 1), 'post')
    def vc_same(self, st, I):
        a, b, n = self.a(st, I, 0), self.a(st, I, 1), cval(self.a(st, I, 2))
        return eq(self.load(st, a, ('int', 8 * n)), self.load(st, b, ('int', 8 * n)))
    def vc_value(self, st, I):
        p, n = self.a(st, I, 0), cval(self.a(st, I, 1))
        return zext(self.load(st, p, ('int', 8 * n)), 64)
    def vc_same_i32(self, st, I): self.oblige(st, eq(self.a(st, I, 0), self.a(st, I, 1)), self.s(st, I, 2), 'post')
    def vc_same_f32(self, st, I):
        a, b = self.a(st, I, 0), self.a(st, I, 1)
        g = eq(a, b)
        if g is not TRUE: g = or_(g, and_(isnan(a), isnan(b)))
        self.oblige(st, g, self.s(st, I, 2), 'post')
    vc_same_f64 = vc_same_f32
    def vc_cover(self, st, I):
        l = self.s(st, I, 0)
        if l in self.covers: return
        if not st.pc or self.sat(st.pc): self.covers.add(l)
    def vc_requires_mag32(self, st, I):
        x = self.a(st, I, 0)
        st.mags = st.mags | {x}
        lo, hi = (0x21800000, 0x5d800000) if x.w == 32 else (0x3c30000000000000, 0x43b0000000000000)
        m = fabs_(x)
        st.pc = st.pc + (ule(const(m.w, lo), m), ule(m, const(m.w, hi)))
    vc_requires_mag64 = vc_requires_mag32
    def vc_close32(self, st, I):
        got, a, b = [self.a(st, I, k) for k in range(3)]
        kind, bits, l = cval(self.a(st, I, 3)), cval(self.a(st, I, 4)), self.s(st, I, 5)
        self.close(st, got, a, b, kind, bits, l, None)
    vc_close64 = vc_close32
    def vc_closei(self, st, I):
        got, a, b = [self.a(st, I, k) for k in range(3)]
        kind, bits, l = cval(self.a(st, I, 3)), cval(self.a(st, I, 4)), self.s(st, I, 5)
        self.close(st, got, a, b, kind, bits, l, 1)

    # ------------------------------------------------------------ relative error calculus
    def small_int(self, st, x, nonzero=False):
        """pc implies |x| < 2^24 (x a 32 bit integer term)"""
        k = ('small', x, nonzero)
        if isc(x): return abs(sval(x)) < 1 << 24
        g = and_(slt(x, const(32, 1 << 24)), slt(const(32, -(1 << 24)), x))
        if nonzero: g = and_(g, not_(eq(x, const(32, 0))))
        return self.valid(st.pc, g)
    def rel(self, st, t):
        """t = coef * prod atom^e * (1+d), |d| <= err, no overflow or underflow: (coef, {atom: e}, err, lo, hi) with
        exponents of the magnitude in [lo, hi]; raises ToolLimit for other shapes"""
        u = Fraction(1, 1 << 24) if t.w == 32 else Fraction(1, 1 << 53)
        lim = 125 if t.w == 32 else 1000
        def chk(r):
            if r[3] < -lim or r[4] > lim: raise ToolLimit('magnitude of an intermediate result')
            return r
        if t in st.mags: return (Fraction(1), {t: Fraction(1)}, Fraction(0), -60, 61)
        if isc(t):
            f = f_of(t)
            if f == f and f != 0 and abs(f) < 1e30: 
                q = Fraction(f); e = math.frexp(f)[1]
                return (q, {}, Fraction(0), e - 1, e)
            raise ToolLimit('constant')
        if t.op == 'v' and t.a[0].startswith(('undef!', 'uninit!')): raise Wrong('value never set')
        if t.op != 'uf': raise ToolLimit('accuracy of %s' % show(t, 2))
        n = t.a[0]; x = t.a[1]
        if n == 'sitofp':
            if isc(x): v = sval(x); return (Fraction(v), {}, Fraction(0), 0, 24)
            if x.w == 32 and (t.w == 64 or self.small_int(st, x)): return (Fraction(1), {x: Fraction(1)}, Fraction(0), 0, 32 if t.w == 64 else 24)
            raise ToolLimit('range of an integer operand')
        if n == 'fpext': return self.rel(st, x)
        if n == 'fptrunc':
            c, d, e, lo, hi = self.rel(st, x); return chk((c, d, (1 + e) * (1 + u) - 1, lo - 1, hi + 1))
        if n == 'fmul':
            c1, d1, e1, l1, h1 = self.rel(st, x); c2, d2, e2, l2, h2 = self.rel(st, t.a[2])
            d = dict(d1)
            for k, v in d2.items(): d[k] = d.get(k, 0) + v
            return chk((c1 * c2, {k: v for k, v in d.items() if v}, (1 + e1) * (1 + e2) * (1 + u) - 1, l1 + l2 - 1, h1 + h2 + 1))
        if n == 'fdiv':
            c1, d1, e1, l1, h1 = self.rel(st, x); c2, d2, e2, l2, h2 = self.rel(st, t.a[2])
            self.nonzero(st, d2)
            d = dict(d1)
            for k, v in d2.items(): d[k] = d.get(k, 0) - v
            return chk((c1 / c2, {k: v for k, v in d.items() if v}, (1 + e1) / (1 - e2) * (1 + u) - 1, l1 - h2 - 1, h1 - l2 + 1))
        if n in ('rcp', 'rcp14'):
            c, d, e, lo, hi = self.rel(st, x)
            self.nonzero(st, d); self.assumed.add('%s: relative error at most %s (Intel SDM)' % (n, '1.5*2^-12' if n == 'rcp' else '2^-14'))
            return chk((1 / c, {k: -v for k, v in d.items()}, (1 + ERR[n]) / (1 - e) - 1, -hi - 1, -lo + 1))
        if n in ('fsqrt', 'rsqrt', 'rsqrt14'):
            c, d, e, lo, hi = self.rel(st, x)
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r != c or c < 0: raise ToolLimit('root of a constant')
            self.positive(st, d)
            d = {k: v / 2 for k, v in d.items()}
            if n == 'fsqrt': return chk((r, d, (1 + e) * (1 + u) - 1, (lo - 1) // 2 - 1, hi // 2 + 2))
            self.nonzero(st, d); self.assumed.add('%s: relative error at most %s (Intel SDM)' % (n, '1.5*2^-12' if n == 'rsqrt' else '2^-14'))
            return chk((1 / r, {k: -v for k, v in d.items()}, (1 + ERR[n]) / (1 - e) - 1, -(hi // 2) - 2, -((lo - 1) // 2) + 2))
        raise ToolLimit('accuracy of ' + n)
    def square(self, st, x):
        """x = r*r without overflow, r > 0: r"""
        if x.op == 'mul' and x.a[0] is x.a[1] and x.w == 32:
            r = x.a[0]
            if self.valid(st.pc, and_(slt(const(32, 0), r), slt(r, const(32, 1 << 15)))): return r
    def expand(self, st, d):
        out = {}
        for x, e in d.items():
            r = self.square(st, x)
            if r is not None: x = r; e = 2 * e
            out[x] = out.get(x, Fraction(0)) + e
        return {k: v for k, v in out.items() if v}
    def isqrt(self, st, x):
        """truncated correctly rounded root of a perfect square: the root itself"""
        if x.op == 'uf' and x.a[0] in ('cvtt', 'cvtn') and x.a[1].op == 'uf' and x.a[1].a[0] == 'fsqrt':
            y = x.a[1].a[1]
            while y.op == 'uf' and y.a[0] in ('fpext',): y = y.a[1]
            if y.op == 'uf' and y.a[0] == 'sitofp' and (y.w == 64 or self.small_int(st, y.a[1])):
                r = self.square(st, y.a[1])
                if r is not None: self.assumed.add('IEEE 754 square root: correctly rounded (exact for perfect squares)'); return r
        return x
    def nonzero(self, st, d):
        for x in d:
            if x in st.mags: continue
            if not self.valid(st.pc, not_(eq(x, const(x.w, 0)))): raise ToolLimit('divisor may be zero')
    def positive(self, st, d):
        for x in d:
            if x in st.mags: g = flt(const(x.w, 0), x)
            else: g = slt(const(x.w, 0), x)
            if not self.valid(st.pc, g): raise ToolLimit('radicand may be negative')
    def close(self, st, got, a, b, kind, bits, label, isint):
        want = {}
        co = Fraction(1)
        for x, e in {0: ((a, 1), (b, -1)), 1: ((a, 1), (b, Fraction(-1, 2))), 2: ((b, Fraction(1, 2)), (a, -1))}[kind]:
            if isc(x): co *= Fraction(sval(x) if isint else Fraction(f_of(x))) ** int(e)
            else: want[x] = want.get(x, 0) + Fraction(e)
        want = {k: v for k, v in want.items() if v}
        ob = self.newob(label, 'accuracy')
        ob.goal = 'close to %s' % want
        try:
            t = got
            if isint and t.op == 'sdiv':
                # exact quotient, truncated: error below 1
                d = {}
                for x, e in ((t.a[0], Fraction(1)), (t.a[1], Fraction(-1))):
                    x = self.isqrt(st, x)
                    d[x] = d.get(x, Fraction(0)) + e
                d = {k: v for k, v in d.items() if v}
                if d == want and co == 1: ob.status = 'discharged'; ob.how = 'truncating division'
                else: ob.status = 'refuted'; ob.inputs = []; ob.goal += '; computed monomial %s' % d
                return
            if isint:
                if not (t.op == 'uf' and t.a[0] in ('cvtn', 'cvtt', 'cvtf', 'cvtc')): raise ToolLimit('accuracy of %s' % show(t, 2))
                t = t.a[1]
            c, d, e, lo, hi = self.rel(st, t)
            d = self.expand(st, d)
            if isint and hi > 30: raise ToolLimit('magnitude of an integer result')
        except ToolLimit as x:
            ob.status = 'unknown'; ob.goal += ' (%s)' % x
            return
        except Wrong as x:
            ob.status = 'refuted'; ob.inputs = []; ob.goal += ' (%s)' % x
            return
        if c == co and d == want and e <= Fraction(1, 1 << bits): ob.status = 'discharged'; ob.how = 'relative error calculus'
        else:
            # a wrong monomial is a wrong result; an error bound that is too large is only an estimate
            ob.status = 'refuted' if c != co or d != want else 'unknown'; ob.inputs = []
            ob.goal += '; computed monomial %s coefficient %s error bound %s' % (d, c, float(e))
    def newob(self, label, kind):
        ob = Ob(); ob.label = label; ob.kind = kind; ob.status = None; ob.how = None; ob.inputs = []; ob.goal = ''; ob.pc = []
        self.obls.append(ob)
        return ob

    # ------------------------------------------------------------ obligations
    def solver(self, ms=60000):
        s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        s.set('timeout', ms)
        return s
    def query(self, cs, fp='uf', ms=60000):
        t = time.time()
        z = ToZ3(fp)
        zs = [z.go(c) == 1 for c in cs]
        s = self.solver(ms)
        for c in zs: s.add(c)
        for c in z.side: s.add(c)
        r = s.check()
        self.stats['queries'] += 1; self.stats['time'] += time.time() - t
        m = s.model() if r == z3.sat else None
        return str(r), m, s
    def relevant(self, pc, g):
        """the conjuncts connected to the goal by shared variables"""
        vs = tvars(g); out = []; rest = [(c, tvars(c)) for c in pc]
        ch = True
        while ch:
            ch = False
            for k in range(len(rest) - 1, -1, -1):
                c, v = rest[k]
                if v & vs: out.append(c); vs = vs | v; rest.pop(k); ch = True
        return out
    def valid(self, pc, g):
        if g is TRUE: return True
        if g is FALSE: return not self.sat(pc)
        rel = self.relevant(pc, g)
        k = (tuple(c.id for c in rel), g.id)
        if k not in self.zcache: self.zcache[k] = self.query(rel + [not_(g)])[0] == 'unsat'
        return self.zcache[k]
    def sat(self, pc):
        k = ('sat',) + tuple(c.id for c in pc)
        if k not in self.zcache: self.zcache[k] = self.query(list(pc))[0] == 'sat'
        return self.zcache[k]
    def oblige(self, st, g, label, kind):
        ob = self.newob(label, kind)
        if g is TRUE: ob.status = 'discharged'; ob.how = 'normalisation'; return
        if g in st.pc: ob.status = 'discharged'; ob.how = 'path condition'; return
        if sum(1 for o in self.obls if o.status == 'refuted') >= 4:
            ob.status = 'unknown'; return
        g2 = self.apply_lemmas(st, g)
        if g2 is TRUE: ob.status = 'discharged'; ob.how = 'lemma: float division of small integers truncates exactly'; return
        pc = list(st.pc)
        r, m, s = self.query(pc + [not_(g2)])
        if r == 'unsat':
            ob.status = 'discharged'; ob.how = 'z3 (bit vectors)'
            if self.dump is not None and len(self.dump) < self.opts.get('dumpmax', 300): self.dump.append((label, s.to_smt2()))
            return
        if r == 'sat':
            fps = {t.a[0] for t in subterms(g2) if t.op == 'uf' and not t.a[0].startswith('mem!')}
            if fps:
                # floating point was uninterpreted: only IEEE arithmetic decides
                if not fps <= IEEE or self.giveup >= 2: ob.status = 'unknown'; return
                r2, m2, _ = self.query(pc + [not_(g2)], 'ieee', 20000)
                if r2 == 'unsat':
                    ob.status = 'discharged'; ob.how = 'z3 (IEEE floating point)'; return
                if m2 is None: self.giveup += 1; ob.status = 'unknown'; return
                m = m2
            ob.status = 'refuted'
            ob.goal = show(g)[:1500]; ob.pc = [show(c)[:200] for c in st.pc[-20:]]
            ob.inputs = self.model(m)
        else: ob.status = 'unknown'
    def model(self, m):
        out = []
        for n, v in self.inputs.items():
            x = m.eval(z3.BitVec(n, v.w))
            if z3.is_bv_value(x): out.append((n, x.as_long(), 'u'))
        return out
    def apply_lemmas(self, st, g):
        pats = {}
        for t in subterms(g):
            if t.op == 'uf' and t.a[0] in ('cvtt', 'cvtn'):
                r = self.isqrt(st, t)
                if r is not t: pats[t] = r; continue
            if t.op == 'uf' and t.a[0] == 'cvtt' and t.a[1].op == 'uf' and t.a[1].a[0] == 'fdiv':
                x, y = t.a[1].a[1], t.a[1].a[2]
                if all(v.op == 'uf' and v.a[0] == 'sitofp' and v.a[1].w == 32 for v in (x, y)) and t.w == 32:
                    a, b = x.a[1], y.a[1]
                    if x.w == 32 and not (self.small_int(st, a) and self.small_int(st, b, True)): continue
                    if x.w == 64 and not self.valid(st.pc, not_(eq(b, const(32, 0)))): continue
                    if self.division_lemma(24 if x.w == 32 else 53): pats[t] = div('sdiv', a, b)
        return subst(g, pats) if pats else g
    def division_lemma(self, p):
        """integers |a| < 2^p, 0 < |b| < 2^p: the correctly rounded quotient with p bit mantissa
        truncates to a/b.  n = trunc(a/b), a = n*b + r (for a >= 0, b > 0; rounding is symmetric), q the
        rounded quotient: q >= n (n is representable and rounding is monotonic) and q <= a/b*(1+2^-p).
        With P = n*b, Q = q*b the claim q < n+1 is linear."""
        if ('div', p) in self.lemmas: return True
        A, P, R, Bv, Q = z3.Ints('A P R B'), None, None, None, None
        A, P, R, Bv = z3.Ints('A P R B')
        Q = z3.Real('Q')
        s = z3.Solver()
        s.add(Bv > 0, A >= 0, A < (1 << p), Bv < (1 << p), A == P + R, R >= 0, R <= Bv - 1)
        s.add(Q <= z3.ToReal(A) * (1 + z3.Q(1, 1 << p)))
        s.add(Q >= z3.ToReal(P) + z3.ToReal(Bv))
        ok = s.check() == z3.unsat
        if ok: self.lemmas.add(('div', p)); self.assumed.add('IEEE 754 division: correctly rounded, monotonic')
        return ok

def conj(cs):
    r = TRUE
    for c in cs: r = and_(r, c)
    return r
def disj(cs):
    r = FALSE
    for c in cs: r = or_(r, c)
    return r
def tvars(t):
    if t._vars is None:
        st = [t]
        while st:
            x = st[-1]
            if x._vars is not None: st.pop(); continue
            ch = [c for c in x.a if isinstance(c, T)]
            todo = [c for c in ch if c._vars is None]
            if todo: st.extend(todo); continue
            if x.op == 'v': x._vars = frozenset((x.a[0],))
            else: x._vars = frozenset().union(*[c._vars for c in ch]) if ch else frozenset()
            st.pop()
    return t._vars
def subst(t, mp, memo=None):
    memo = {} if memo is None else memo
    if t in mp: return mp[t]
    r = memo.get(t.id)
    if r is not None: return r
    ch = [subst(x, mp, memo) if isinstance(x, T) else x for x in t.a]
    if all(x is y for x, y in zip(ch, t.a)): r = t
    else:
        o = t.op
        if o == 'lin':
            r = const(t.w, ch[0])
            for c, x in zip(ch[1], ch[2:]): r = add(r, mulc(x, c))
        elif o == 'cat': r = concat(ch)
        elif o == 'ext': r = extract(ch[0], ch[1], t.w)
        elif o == 'sext': r = sext(ch[0], t.w)
        elif o == 'uf': r = uf(ch[0], t.w, *ch[1:])
        elif o in ('udiv', 'sdiv', 'urem', 'srem'): r = div(o, *ch)
        else: r = {'ite': B.ite, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'eq': eq, 'ult': ult,
                   'slt': slt, 'mul': mul, 'isnan': isnan, 'flt': flt, 'feq': feq}[o](*ch)
    memo[t.id] = r
    return r
