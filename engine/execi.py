"""Instruction semantics, loop summaries and call contracts (integer mode)."""
import re, time
from fractions import Fraction
import struct
import z3
import ir
import terms
from terms import *
from sym import *
from sym import M, WILD

NOOP = re.compile(r'^@(llvm\.lifetime\.end|llvm\.dbg|llvm\.assume|llvm\.experimental\.noalias|llvm\.prefetch|llvm\.donothing|'
                  r'__cxa_free_exception|__cxa_end_catch|_ZNSt\w+(C[12]E|D[012]Ev)|_ZNKSt9exception|llvm\.invariant)')

class Machine(Executor):

    # ------------------------------------------------------------ running
    def run_harness(self, name):
        fn = self.mod.funcs[name]
        st = State()
        self.push(st, fn, [], None)
        ends = self.explore([st], None)[2]
        for s in ends:
            self.stats['paths'] += 1
            if s.done == 'return':
                for o in s.allocs:
                    if o not in s.dead:
                        self.oblige(s, False, 'no-leak ' + o.name, 'leak')
                for sh in [n for n in s.mem if n.kind == 'ghost']:
                    if sh.owner in s.dead or sh.owner.kind == 'heap': continue
                    self.none_alive(s, sh.owner, 'no live member object left in storage of automatic objects')
            self.covers |= s.covers
        return ends

    def push(self, st, fn, args, ret):
        ir.parse_function_body(fn, self.mod)
        self.fncalls.add(fn.name)
        f = Frame()
        f.fn = fn; f.env = {}; f.block = fn.entry; f.prev = None; f.idx = 0; f.ret = ret; f.allocas = {}
        for (t, n), v in zip(fn.params, args): f.env[n] = v
        st.frames.append(f)
        if len(st.frames) > 60: raise ToolLimit('recursion too deep')

    nest = 0
    def explore(self, states, stop):
        if stop is None: return self.explore1(states, stop)
        self.nest += 1
        try: return self.explore1(states, stop)
        finally: self.nest -= 1
    def explore1(self, states, stop):
        back, exits, ends = [], [], []
        work = list(states)
        if stop is not None: depth, loop = stop
        first = True
        while work:
            if self.deadline and time.time() > self.deadline: raise ToolLimit('time budget exhausted')
            st = work.pop()
            if st.done is not None:
                ends.append(st); continue
            f = st.frames[-1]
            if stop is not None:
                if len(st.frames) < depth: exits.append(st); continue
                if len(st.frames) == depth and f.idx == 0 and not first:
                    if f.block == loop.header and f.prev in loop.blocks:
                        back.append(st); continue
                    if f.block not in loop.blocks:
                        exits.append(st); continue
            if f.idx == 0 and not (first and stop is not None):
                L = find_loops(f.fn).get(f.block)
                if L is not None:
                    r = self.do_loop(st, L)
                    if r is not None:
                        work.extend(reversed(r)); first = False; continue
            first = False
            res = self.step_block(st)
            work.extend(reversed(res))
        return back, exits, ends

    # ------------------------------------------------------------ one block
    def step_block(self, st):
        """execute until the end of the block (or a fork / call); returns successor states"""
        f = st.frames[-1]
        blk = f.fn.blocks[f.block]
        if f.idx == 0:
            vals = []
            n = 0
            for I in blk.instrs:
                if I.op != 'phi': break
                n += 1
                if I.res in getattr(self, 'phioverride', {}) and self.phioverride.get('@') is f.fn:
                    pass
                for v, b in I.x:
                    if b == f.prev:
                        vals.append((I.res, self.operand(st, f.env, I.ty, v)))
                        break
                else: raise ToolLimit('phi without edge')
            for r, v in vals: f.env[r] = v
            f.idx = n
        while True:
            f = st.frames[-1]
            I = blk.instrs[f.idx]
            self.steps += 1
            op = I.op
            f.idx += 1
            h = getattr(self, 'i_' + op, None)
            if h is not None:
                r = h(st, f, I)
            elif op in ir.BIN: r = self.binop(st, f, I)
            elif op in ir.CAST: r = self.cast(st, f, I)
            else: raise ToolLimit('instruction ' + op)
            if r is None: continue          # simple instruction, same state
            if isinstance(r, list): return r
            st = r
            return [st]

    def setv(self, pairs, I):
        """pairs: [(state,value)]; assign and return control result"""
        if len(pairs) == 1:
            s, v = pairs[0]
            s.frames[-1].env[I.res] = v
            return [s]
        for s, v in pairs: s.frames[-1].env[I.res] = v
        return [s for s, v in pairs]

    def jump(self, st, target):
        f = st.frames[-1]
        f.prev = f.block; f.block = target; f.idx = 0

    def op2(self, st, f, a):
        return self.operand(st, f.env, a[0], a[1])

    # ---- control
    def i_br(self, st, f, I):
        if not I.args:
            self.jump(st, I.x[0]); return [st]
        c = self.op2(st, f, I.args[0])
        c = self.boolof(c)
        if I.x[0] == I.x[1]:
            self.jump(st, I.x[0]); return [st]
        a, b = self.split(st, c)
        out = []
        if a is not None: self.jump(a, I.x[0]); out.append(a)
        if b is not None: self.jump(b, I.x[1]); out.append(b)
        return out
    def boolof(self, c):
        if c is UNDEF: return f_eq(lin(fresh('undefbit', 0, 1)))
        if isinstance(c, Lin): return f_ne(c)
        return c
    def i_switch(self, st, f, I):
        v = self.op2(st, f, I.args[0]); n = I.args[0][0][1]
        if not isinstance(v, Lin): v = mk_b2i(self.boolof(v))
        out = []
        cur = st
        for c, lab in I.x[1]:
            if cur is None: break
            a, cur = self.split(cur, self.cmp(cur, 'eq', v, const(c), n))
            if a is not None: self.jump(a, lab); out.append(a)
        if cur is not None: self.jump(cur, I.x[0]); out.append(cur)
        return out
    def i_ret(self, st, f, I):
        v = self.op2(st, f, I.args[0]) if I.args else None
        st.frames.pop()
        if not st.frames:
            st.done = 'return'
            return [st]
        g = st.frames[-1]
        C = f.ret
        if C.res is not None: g.env[C.res] = v
        if C.op == 'invoke': self.jump(st, C.x['normal'])
        return [st]
    def i_unreachable(self, st, f, I):
        self.oblige(st, False, 'unreachable code not reached', 'safety')
        st.done = 'unreachable'
        return [st]
    def i_resume(self, st, f, I):
        return self.unwind(st)
    def unwind(self, st):
        """propagate st.exc: current frame has no handler at the current point"""
        while True:
            f = st.frames.pop()
            if not st.frames:
                st.done = 'exception ' + str(st.exc[0])
                self.oblige(st, False, 'no unexpected exception ' + str(st.exc[0]), 'exception')
                return [st]
            C = f.ret
            if C.op == 'invoke':
                self.jump(st, C.x['unwind'])
                return [st]
    def throw(self, st, I):
        """exception raised by instruction I of the current frame"""
        if I.op == 'invoke':
            self.jump(st, I.x['unwind'])
            return [st]
        return self.unwind(st)
    def i_landingpad(self, st, f, I):
        cleanup, clauses = I.x
        ti = st.exc[0]
        anc = [ti] + EXC_BASES.get(ti, [])
        for k, v in clauses:
            if k == 'catch':
                if v[0] == 'null':
                    f.env[I.res] = (st.exc[1], const(self.typeid(None))); return None
                if v[0] == 'glob' and v[1] in anc:
                    f.env[I.res] = (st.exc[1], const(self.typeid(v[1]))); return None
            else: raise ToolLimit('exception filter')
        if cleanup:
            f.env[I.res] = (st.exc[1], const(0)); return None
        return self.unwind(st)
    def typeid(self, name):
        t = getattr(self, '_tids', None)
        if t is None: t = self._tids = {}
        if name not in t: t[name] = len(t) + 1
        return t[name]

    # ---- memory
    def i_alloca(self, st, f, I):
        if I.args:
            n = self.op2(st, f, I.args[0])
            if not n.is_const(): raise ToolLimit('variable alloca')
            cnt = n.c
        else: cnt = 1
        o = self.newobj(st, 'local' + (I.res or ''), const(self.lay.size(I.x) * cnt), 'stack')
        f.env[I.res] = Ptr(o, ZERO)
        return None
    def i_load(self, st, f, I):
        p = self.op2(st, f, I.args[0])
        if not isinstance(p, Ptr):
            raise ToolLimit('load through ' + str(p))
        sz = self.lay.size(I.ty)
        self.inbounds(st, p, sz, 'load')
        if st.fr is not None: self.framed(st, p, sz, False, 'load')
        if p.obj is NULL or p.obj in st.dead:
            st.done = 'bad access'; return [st]
        self.noteread(p.obj)
        return self.setv(self.load_typed(st, p, I.ty), I)
    def noteread(self, obj):
        for s in self.readlogs: s.add(obj)
    readlogs = ()
    def load_typed(self, st, p, ty):
        t = self.lay.res(ty)
        if t[0] in ('vec', 'arr', 'struct'):
            parts = [(st, ())]
            if t[0] == 'struct':
                fl = [self.lay.field(t, i) for i in range(len(t[1]))]
            else:
                es = self.lay.size(t[2]); fl = [(i * es, t[2]) for i in range(t[1])]
            for o, et in fl:
                nxt = []
                for s, acc in parts:
                    for s2, v in self.load_typed(s, Ptr(p.obj, p.off + o), et): nxt.append((s2, acc + (v,)))
                parts = nxt
            return parts
        sz = self.lay.size(ty)
        return [(s, self.asType(s, v, t)) for s, v in self.read(st, p.obj, p.off, sz)]
    def asType(self, st, v, t):
        k = t[0]
        if k == 'int':
            if isinstance(v, Lin):
                if t[1] == 1: return f_ne(mk_mod(v, 2))
                if t[1] == 8 and len(v.t) == 1 and v.t[0][0].kind == 'b2i': return v
                return v
            if isinstance(v, FV) and v.kind == 'bits': return v.a
            if isinstance(v, Ptr): return self.addr(st, v)
            if isinstance(v, bool) or (isinstance(v, tuple) and v and isinstance(v[0], str)):
                return v if t[1] == 1 else mk_b2i(v)
            if v is UNDEF: return self.undef(t)
        elif k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, Lin):
                if v.is_const() and v.c == 0: return Ptr(NULL, ZERO)
                return self.toptr(st, v)
            if v is UNDEF: return UNDEF
        elif k in ('float', 'double'):
            w = 32 if k == 'float' else 64
            if isinstance(v, FV): return v
            if isinstance(v, Lin): return FV('bits', v, None, w)
            if v is UNDEF: return self.undef(t)
        raise ToolLimit('reinterpretation of %s as %s' % (v, t))
    def i_store(self, st, f, I):
        v = self.op2(st, f, I.args[0]); p = self.op2(st, f, I.args[1])
        ty = I.args[0][0]
        if not isinstance(p, Ptr): raise ToolLimit('store through ' + str(p))
        sz = self.lay.size(ty)
        self.inbounds(st, p, sz, 'store')
        if st.fr is not None: self.framed(st, p, sz, True, 'store')
        if p.obj is NULL or p.obj in st.dead or p.obj.kind == 'const':
            if p.obj.kind == 'const': self.oblige(st, False, 'no write to constant', 'safety')
            st.done = 'bad access'; return [st]
        self.store_typed(st, p, ty, v)
        return None
    def store_typed(self, st, p, ty, v):
        t = self.lay.res(ty)
        if t[0] == 'struct':
            for i in range(len(t[1])):
                o, et = self.lay.field(t, i)
                self.store_typed(st, Ptr(p.obj, p.off + o), et, v[i])
        elif t[0] in ('vec', 'arr'):
            es = self.lay.size(t[2])
            for i in range(t[1]): self.store_typed(st, Ptr(p.obj, p.off + i * es), t[2], v[i])
        else:
            if isinstance(v, bool) or (isinstance(v, tuple) and v and isinstance(v[0], str)): v = mk_b2i(v)
            if isinstance(v, FV) and v.kind == 'bits': v = v.a
            if isinstance(v, Ptr) and v.obj is WILD: v = v.off
            self.write(st, p, self.lay.size(ty), v)
    def i_getelementptr(self, st, f, I):
        p = self.op2(st, f, I.args[0])
        if not isinstance(p, Ptr): raise ToolLimit('gep on ' + str(p))
        off = p.off
        t = I.x
        first = True
        for a in I.args[1:]:
            v = self.op2(st, f, a)
            if not isinstance(v, Lin): v = mk_b2i(self.boolof(v))
            if first: 
                sz = self.lay.size(t); first = False
            else:
                rt = self.lay.res(t)
                if rt[0] == 'struct':
                    o, t = self.lay.field(rt, v.c); off = off + o; continue
                t = rt[2]; sz = self.lay.size(t)
            n = a[0][1]
            lo, hi = self.blin(st, v)
            if hi >= M(n - 1):      # index is signed
                pr = self.signed(st, v, n)
                if len(pr) != 1:
                    # restart the instruction in each case
                    for s, _ in pr: s.frames[-1].idx -= 1
                    return [s for s, _ in pr]
                st, v = pr[0]
            off = off + v.scale(sz)
        f.env[I.res] = Ptr(p.obj, off)
        return None
    addr_ids = set()
    def addr(self, st, p):
        o = p.obj
        if o is NULL or o is WILD: return p.off
        if o.addr is None:
            # a multiple of the alignment the block was allocated with
            a = fresh('addr_' + o.name, 1, M(62) // o.align)
            o.addr = lin(a).scale(o.align)
            self.addr_ids.add(a.id)
            self.addr_objs[a.id] = o
        return o.addr + p.off
    addr_objs = {}
    def toptr(self, st, v):
        for a, k in v.t:
            o = self.addr_objs.get(a.id)
            if o is not None and k == o.align: return Ptr(o, v - o.addr)
        if v.is_const(): return Ptr(NULL, v)
        return Ptr(WILD, v)

    # ---- arithmetic
    def binop(self, st, f, I):
        t = self.lay.res(I.ty)
        a = self.op2(st, f, I.args[0]); b = self.op2(st, f, I.args[1])
        if t[0] in ('float', 'double'): 
            f.env[I.res] = self.fbin(st, I.op, a, b, t); return None
        if t[0] == 'vec': raise ToolLimit('vector arithmetic in integer mode')
        n = t[1]
        op = I.op
        if n == 1:
            a = self.boolof(a); b = self.boolof(b)
            if op == 'and': r = f_and(a, b)
            elif op == 'or': r = f_or(a, b)
            elif op in ('xor', 'add', 'sub'): r = f_or(f_and(a, f_not(b)), f_and(f_not(a), b))
            else: raise ToolLimit('i1 ' + op)
            f.env[I.res] = r; return None
        if op == 'add': raw = a + b
        elif op == 'sub': raw = a - b
        elif op == 'mul':
            raw = mk_mul(a, b)
        elif op == 'shl':
            if not b.is_const(): raise ToolLimit('shift by variable')
            raw = a.scale(M(b.c))
        elif op in ('udiv', 'urem', 'lshr'):
            if op == 'lshr':
                if not b.is_const(): raise ToolLimit('shift by variable')
                c = M(b.c)
            else:
                if not b.is_const():
                    raise ToolLimit('division by variable')
                c = b.c % M(n)
            if c == 0:
                self.oblige(st, False, 'no division by zero', 'safety'); st.done = 'div0'; return [st]
            pr = self.unsigned(st, a, n)
            return self.setv([(s, mk_div(v, c) if op != 'urem' else mk_mod(v, c)) for s, v in pr], I)
        elif op in ('sdiv', 'srem', 'ashr'):
            if not b.is_const(): raise ToolLimit('division by variable')
            if op == 'ashr':
                return self.setv([(s, mk_div(v, M(b.c))) for s, v in self.signed(st, a, n)], I)
            c = b.c
            if c == 0:
                self.oblige(st, False, 'no division by zero', 'safety'); st.done = 'div0'; return [st]
            out = []
            for s, v in self.signed(st, a, n):
                x, y = self.split(s, f_leq(ZERO, v))
                for z, neg in ((x, False), (y, True)):
                    if z is None: continue
                    q = mk_div(v if not neg else -v, abs(c))
                    if neg: q = -q
                    if c < 0: q = -q
                    out.append((z, q if op == 'sdiv' else v - q.scale(c)))
            return self.setv(out, I)
        elif op == 'and':
            if a.is_const(): a, b = b, a
            if a.is_const(): raw = const(a.c & b.c)
            elif b.is_const():
                m = b.c % M(n)
                if m & (m + 1) == 0:        # low mask
                    raw = mk_mod(a, m + 1)
                elif (M(n) - m) & (M(n) - m - 1) == 0:      # high mask
                    raw = a - mk_mod(a, M(n) - m)
                else: raise ToolLimit('and with mask')
            elif self.isb(a) and self.isb(b):
                raw = mk_b2i(f_and(f_ne(a), f_ne(b)))
            else: raise ToolLimit('bitwise and')
        elif op == 'or':
            if a.is_const(): a, b = b, a
            if b.is_const() and b.c == 0: raw = a
            elif a.is_const(): raw = const(a.c | b.c)
            elif self.isb(a) and self.isb(b): raw = mk_b2i(f_or(f_ne(a), f_ne(b)))
            else: raise ToolLimit('bitwise or')
        elif op == 'xor':
            if b.is_const() and b.c == -1: raw = -a - 1
            elif self.isb(a) and b == ONE: raw = mk_b2i(f_eq(a))
            elif a.is_const() and b.is_const(): raw = const(a.c ^ b.c)
            else: raise ToolLimit('bitwise xor')
        else: raise ToolLimit(op)
        lo, hi = self.blin(st, raw)
        if lo >= -M(n - 1) and hi < M(n):
            f.env[I.res] = raw; return None
        return self.setv(self.norm(st, raw, n), I)
    def isb(self, a):
        return len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0].kind == 'b2i'
    def i_icmp(self, st, f, I):
        t = self.lay.res(I.args[0][0])
        a = self.op2(st, f, I.args[0]); b = self.op2(st, f, I.args[1])
        if t[0] == 'ptr':
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                r = (a == b)
                if I.x == 'ne': r = not r
                f.env[I.res] = r; return None
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise ToolLimit('pointer comparison')
            if a.obj is b.obj:
                d = self.cmp(st, I.x if I.x in ('eq', 'ne') else 's' + I.x[1:], a.off, b.off, 64)
                f.env[I.res] = d; return None
            if a.obj is WILD or b.obj is WILD:
                if a.obj is not NULL and b.obj is not NULL: raise ToolLimit('comparison with a pointer of unknown provenance')
                f.env[I.res] = self.cmp(st, I.x, a.off, b.off, 64); return None
            if I.x in ('eq', 'ne'): f.env[I.res] = (I.x == 'ne'); return None
            if a.obj is NULL or b.obj is NULL:
                x = self.addr(st, a); y = self.addr(st, b)
                f.env[I.res] = self.cmp(st, I.x, x, y, 64); return None
            raise ToolLimit('ordering of unrelated pointers')
        if t[0] != 'int': raise ToolLimit('vector icmp')
        if t[1] == 1:
            a = mk_b2i(self.boolof(a)); b = mk_b2i(self.boolof(b))
            f.env[I.res] = self.cmp(st, I.x, a, b, 8); return None
        if not (isinstance(a, Lin) and isinstance(b, Lin)): raise ToolLimit('icmp operands')
        f.env[I.res] = self.cmp(st, I.x, a, b, t[1])
        return None
    def i_select(self, st, f, I):
        c = self.boolof(self.op2(st, f, I.args[0]))
        a = self.op2(st, f, I.args[1]); b = self.op2(st, f, I.args[2])
        if self.lay.res(I.ty) == ir.I1:
            a = self.boolof(a); b = self.boolof(b)
            f.env[I.res] = f_or(f_and(c, a), f_and(f_not(c), b)); return None
        if a == b: f.env[I.res] = a; return None
        x, y = self.split(st, c)
        out = []
        if x is not None: out.append((x, a))
        if y is not None: out.append((y, b))
        return self.setv(out, I)
    def i_freeze(self, st, f, I):
        f.env[I.res] = self.op2(st, f, I.args[0]); return None
    def i_fence(self, st, f, I):
        return None
    def i_extractvalue(self, st, f, I):
        v = self.op2(st, f, I.args[0])
        for i in I.x: v = v[i]
        f.env[I.res] = v; return None
    def i_insertvalue(self, st, f, I):
        v = self.op2(st, f, I.args[0]); x = self.op2(st, f, I.args[1])
        def put(v, idx):
            if not isinstance(v, tuple): raise ToolLimit('insertvalue')
            if len(idx) == 1: return v[:idx[0]] + (x,) + v[idx[0] + 1:]
            return v[:idx[0]] + (put(v[idx[0]], idx[1:]),) + v[idx[0] + 1:]
        f.env[I.res] = put(v, I.x); return None
    def cast(self, st, f, I):
        v = self.op2(st, f, I.args[0]); op = I.op
        ft = self.lay.res(I.args[0][0]); tt = self.lay.res(I.ty)
        if op == 'zext':
            if ft[1] == 1:
                f.env[I.res] = mk_b2i(self.boolof(v)); return None
            return self.setv(self.unsigned(st, v, ft[1]), I)
        if op == 'sext':
            if ft[1] == 1:
                f.env[I.res] = mk_b2i(self.boolof(v)).scale(-1); return None
            return self.setv(self.signed(st, v, ft[1]), I)
        if op == 'trunc':
            if tt[1] == 1:
                if self.isb(v): f.env[I.res] = f_ne(v)
                else: f.env[I.res] = f_ne(mk_mod(v, 2))
                return None
            lo, hi = self.blin(st, v)
            n = tt[1]
            if lo >= -M(n - 1) and hi < M(n): f.env[I.res] = v; return None
            if self.proves(st, f_and(f_leq(const(-M(n - 1)), v), f_lt(v, const(M(n))))):
                f.env[I.res] = self.ranged(st, v, n); return None
            f.env[I.res] = mk_mod(v, M(n)); return None
        if op == 'ptrtoint':
            if v is UNDEF: f.env[I.res] = self.undef(tt); return None
            f.env[I.res] = self.addr(st, v); return None
        if op == 'inttoptr':
            f.env[I.res] = self.toptr(st, v); return None
        if op == 'bitcast':
            if ft == tt: f.env[I.res] = v; return None
            f.env[I.res] = self.asType(st, v, tt); return None
        if op in ('uitofp', 'sitofp'):
            pr = self.unsigned(st, v, ft[1]) if op[0] == 'u' else self.signed(st, v, ft[1])
            out = []
            for s, x in pr:
                lo, hi = self.blin(s, x)
                exact = max(abs(lo), abs(hi)) <= M(53) and tt[0] == 'double'
                if not exact and not self.proves(s, f_and(f_leq(x, const(M(53))), f_leq(const(-M(53)), x))):
                    if tt[0] != 'double': raise ToolLimit('int to float')
                    out.append((s, FV('real', x, (Fraction(1), 1), 64)))
                else: out.append((s, FV('real', x, (Fraction(1), 0), 64)))
            return self.setv(out, I)
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, FV) and v.kind == 'real':
                c, nerr = v.b
                # value in lin*c*(1 +- nerr*2^-52); result truncated towards zero, for lin >= 0
                if not self.proves(st, f_leq(ZERO, v.a)): raise ToolLimit('fptoint of negative')
                r = fresh('fpint', 0, M(64) - 1)
                num, den = c.numerator, c.denominator
                E = M(52)
                # r <= lin*c*(1+nerr/E)   ;  r + 1 > lin*c*(1-nerr/E)
                self.assume(st, f_leq(lin(r).scale(den * E), v.a.scale(num * (E + nerr))))
                self.assume(st, f_lt(v.a.scale(num * (E - nerr)), (lin(r) + 1).scale(den * E)))
                f.env[I.res] = lin(r); return None
            raise ToolLimit('fptoint')
        raise ToolLimit('cast ' + op)
    def fconst(self, v):
        if isinstance(v, FV) and v.kind == 'bits' and v.a.is_const():
            if v.w == 64: x = struct.unpack('<d', struct.pack('<Q', v.a.c))[0]
            else: x = struct.unpack('<f', struct.pack('<I', v.a.c))[0]
            if x == x and abs(x) != float('inf'): return Fraction(x)
        return None
    def fbin(self, st, op, a, b, t):
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                c = self.fconst(y)
                if isinstance(x, FV) and x.kind == 'real' and c is not None and c > 0 and t[0] == 'double':
                    return FV('real', x.a, (x.b[0] * c, x.b[1] + 1), 64)
        # opaque payload arithmetic
        def key(v):
            if isinstance(v, FV) and v.kind == 'bits': return v.a
            raise ToolLimit('floating point ' + op)
        w = 32 if t[0] == 'float' else 64
        x, y = key(a), key(b)
        if op in ('fadd', 'fmul') and hash(x) > hash(y): x, y = y, x
        return FV('bits', mk_uf('%s%d' % (op, w), [x, y], 0, M(w) - 1), None, w)
    def i_fneg(self, st, f, I):
        raise ToolLimit('fneg')
    def i_fcmp(self, st, f, I):
        a = self.op2(st, f, I.args[0]); b = self.op2(st, f, I.args[1])
        if isinstance(a, FV) and isinstance(b, FV) and a.kind == 'bits' and b.kind == 'bits':
            f.env[I.res] = f_ne(mk_uf('fcmp_' + I.x, [a.a, b.a], 0, 1)); return None
        raise ToolLimit('fcmp')

    # ------------------------------------------------------------ calls
    def cstr(self, v):
        if isinstance(v, Ptr):
            i = getattr(v.obj, 'init', None)
            if i and i[0] == 'cstr': return i[1].rstrip(b'\0').decode('latin1')
            return v.obj.name
        return '?'
    def done_call(self, st, I, v=None):
        f = st.frames[-1]
        if I.res is not None: f.env[I.res] = v
        if I.op == 'invoke': self.jump(st, I.x['normal'])
    def ret_simple(self, st, I, v=None):
        self.done_call(st, I, v)
        return [st] if I.op == 'invoke' else None
    def ret_multi(self, pairs, I):
        for s, v in pairs: self.done_call(s, I, v)
        return [s for s, _ in pairs]
    def i_invoke(self, st, f, I): return self.i_call(st, f, I)
    def i_call(self, st, f, I):
        c = I.x['callee']
        if c[0] == 'loc':
            v = f.env.get(c[1])
            if isinstance(v, FnPtr): name = v.name
            else: raise ToolLimit('indirect call')
        elif c[0] == 'glob': name = c[1]
        else: raise ToolLimit('call of ' + str(c))
        h = self.intercept(name)
        if h is not None:
            args = [self.operand(st, f.env, t, v) for t, v in I.args]
            return h(st, I, args, name)
        if NOOP.match(name):
            v = None
            if I.res is not None: v = self.undef(I.ty)
            return self.ret_simple(st, I, v)
        fn = self.mod.funcs.get(name)
        if fn is None: raise ToolLimit('call of external function ' + name)
        args = [self.operand(st, f.env, t, v) for t, v in I.args]
        self.push(st, fn, args, I)
        return [st]
    _icache = None
    def intercept(self, name):
        if self._icache is None: self._icache = {}
        if name not in self._icache:
            h = None
            for rx, m in self.INTERCEPT:
                if rx.match(name):
                    h = getattr(self, m); break
            self._icache[name] = h
        return self._icache[name]
    INTERCEPT = [(re.compile(a), b) for a, b in [
        (r'^@vc_u64$', 'c_input'), (r'^@vc_i64$', 'c_input'), (r'^@vc_u32$', 'c_input'), (r'^@vc_i32$', 'c_input'),
        (r'^@vc_ins?$', 'c_range'),
        (r'^@vc_requires$', 'c_requires'), (r'^@vc_ensures$', 'c_ensures'),
        (r'^@vc_havoc$', 'c_havoc'), (r'^@vc_same$', 'c_same'), (r'^@vc_cover$', 'c_cover'),
        (r'^@vc_buffer$', 'c_buffer'), (r'^@vc_release$', 'c_release'),
        (r'^@vc_construct$', 'c_construct'), (r'^@vc_destroy$', 'c_destroy'), (r'^@vc_use$', 'c_use'), (r'^@vc_alive$', 'c_alive'),
        (r'^@vc_value$', 'c_value'), (r'^@vc_disjoint$', 'c_disjoint'), (r'^@vc_within$', 'c_within'),
        (r'^@vc_bytes_from_alloc$', 'c_bytes'), (r'^@vc_payload$', 'c_payload'), (r'^@vc_offset$', 'c_offset'), (r'^@vc_sameobj$', 'c_sameobj'),
        (r'^@vc_alloc_fail$', 'c_allocfail'),
        (r'^@vc_frame_(begin|end)$', 'c_frame'), (r'^@vc_(frozen|may_write|may_read|limit_reads)$', 'c_framerange'),
        (r'^@_Zn[wa]m$', 'c_new'), (r'^@_Zd[la]Pvm?$', 'c_delete'),
        (r'^@_ZN12LibFlatArray17aligned_allocatorI\w*E8allocateEmPKv$', 'c_aalloc'),
        (r'^@_ZN12LibFlatArray17aligned_allocatorI\w*E10deallocateEP\w+m$', 'c_adealloc'),
        (r'^@__cxa_guard_(acquire|release)$', 'c_guard'), (r'^@__cxa_atexit$', 'c_atexit'),
        (r'^@llvm\.mem(cpy|move)\.', 'c_memcpy'), (r'^@llvm\.memset\.', 'c_memset'),
        (r'^@llvm\.lifetime\.start', 'c_lifetime'),
        (r'^@llvm\.[us](max|min)\.', 'c_minmax'),
        (r'^@llvm\.eh\.typeid\.for', 'c_typeid'), (r'^@__cxa_allocate_exception$', 'c_allocexc'),
        (r'^@__cxa_throw$', 'c_throw'), (r'^@__cxa_begin_catch$', 'c_begincatch'), (r'^@__cxa_rethrow$', 'c_rethrow'),
        (r'^@(_ZSt9terminatev|__clang_call_terminate|abort|__cxa_pure_virtual)$', 'c_terminate'),
        (r'^@_ZSt\d+__throw_(\w+)', 'c_stdthrow'),
        (r'^@llvm\.[us](add|sub|mul)\.with\.overflow', 'c_overflow'),
        (r'^@llvm\.expect\.', 'c_first'), (r'^@llvm\.threadlocal\.address', 'c_first'), (r'^@llvm\.abs\.', 'c_abs'),
        (r'^@llvm\.is\.constant', 'c_false'), (r'^@llvm\.objectsize', 'c_objsize'),
        (r'^@(memcpy|memmove)$', 'c_memcpyfn'), (r'^@memset$', 'c_memsetfn'),
    ]]
    def c_input(self, st, I, args, name):
        lab = self.cstr(args[0])
        r = {'@vc_u64': (0, M(64) - 1), '@vc_i64': (-M(63), M(63) - 1), '@vc_u32': (0, M(32) - 1), '@vc_i32': (-M(31), M(31) - 1)}[name]
        a = lin(fresh(lab, *r))
        st.inputs = st.inputs + ((lab, a, name[4:]),)
        return self.ret_simple(st, I, a)
    def c_range(self, st, I, args, name):
        lab = self.cstr(args[0])
        full = (0, M(64) - 1) if name == '@vc_in' else (-M(63), M(63) - 1)
        out = []
        conv = self.unsigned if name == '@vc_in' else self.signed
        for s, lo in conv(st, args[1], 64):
            for s2, hi in conv(s, args[2], 64):
                if lo.is_const() and hi.is_const(): a = lin(fresh(lab, max(full[0], lo.c), min(full[1], hi.c)))
                else: a = lin(fresh(lab, *full))
                s2.inputs = s2.inputs + ((lab, a, name[4:]),)
                c = f_and(f_leq(lo, a), f_leq(a, hi))
                if self.fbool(s2, c) is not True:
                    if c is False or not self.feasible(s2, c):
                        s2.done = 'infeasible'; out.append((s2, a)); continue
                    self.assume(s2, c)
                out.append((s2, a))
        for s, v in out:
            if s.done is None: self.done_call(s, I, v)
        return [s for s, _ in out]
    def c_requires(self, st, I, args, name):
        c = self.boolof(args[0])
        v = self.fbool(st, c)
        if v is True: return self.ret_simple(st, I)
        if v is False or not self.feasible(st, c):
            st.done = 'infeasible'
            return [st]
        self.assume(st, c)
        return self.ret_simple(st, I)
    def c_ensures(self, st, I, args, name):
        c = self.boolof(args[0]); lab = self.cstr(args[1])
        ok = self.oblige(st, c, lab, 'ensures')
        # go on under the assumption that it holds (each failure is reported once)
        if not ok and self.fbool(st, c) is not True:
            if c is False or not self.feasible(st, c):
                st.done = 'failed'; return [st]
            self.assume(st, c)
        return self.ret_simple(st, I)
    def c_cover(self, st, I, args, name):
        st.covers = st.covers | {self.cstr(args[0])}
        return self.ret_simple(st, I)
    def c_havoc(self, st, I, args, name):
        p, n, lab = args
        self.inbounds(st, p, n, 'havoc')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        lab = self.cstr(lab)
        self.hv = getattr(self, 'hv', 0) + 1
        whole = p.off == ZERO and n == p.obj.size
        tag = '%s_%d' % (lab, self.hv)
        if whole: st.mem[p.obj] = Base('havoc', tag)
        else: st.mem[p.obj] = Havoc(self.node(st, p.obj), p.off, n, tag)
        return self.ret_simple(st, I)
    def eqval(self, st, a, b):
        if isinstance(a, FV) and a.kind == 'bits': a = a.a
        if isinstance(b, FV) and b.kind == 'bits': b = b.a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not b.obj: return False
            return f_eqq(a.off, b.off)
        if isinstance(a, Lin) and isinstance(b, Lin): return f_eqq(a, b)
        if isinstance(a, FV) and a == b: return True
        return False
    def c_same(self, st, I, args, name):
        p, q, n = args
        if not n.is_const(): raise ToolLimit('vc_same with variable size')
        if n.c not in (1, 2, 4, 8): raise ToolLimit('vc_same size %d' % n.c)
        self.inbounds(st, p, n.c, 'compare'); self.inbounds(st, q, n.c, 'compare')
        if p.obj is NULL or q.obj is NULL or p.obj in st.dead or q.obj in st.dead: st.done = 'bad access'; return [st]
        out = []
        for s, a in self.read(st, p.obj, p.off, n.c):
            for s2, b in self.read(s, q.obj, q.off, n.c):
                nb = 8 * n.c
                if isinstance(a, Lin) and isinstance(b, Lin) and a != b:
                    out.append((s2, self.cmp(s2, 'eq', a, b, nb)))
                else: out.append((s2, self.eqval(s2, a, b)))
        return self.ret_multi(out, I)
    def c_value(self, st, I, args, name):
        """vc_value(p, size): the raw bits at p as an integer"""
        p, n = args
        self.inbounds(st, p, n.c, 'value')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        out = []
        for s, a in self.read(st, p.obj, p.off, n.c):
            if isinstance(a, FV): a = a.a
            if not isinstance(a, Lin): raise ToolLimit('vc_value')
            out.append((s, a))
        return self.ret_multi(out, I)
    def c_disjoint(self, st, I, args, name):
        """vc_disjoint(p,n,q,m): the byte ranges do not overlap"""
        p, n, q, m = args
        if p.obj is not q.obj: return self.ret_simple(st, I, True)
        return self.ret_simple(st, I, f_or(f_leq(p.off + n, q.off), f_leq(q.off + m, p.off)))
    def c_within(self, st, I, args, name):
        """vc_within(p,n,q,m): [p,p+n) inside [q,q+m)"""
        p, n, q, m = args
        if p.obj is not q.obj: return self.ret_simple(st, I, False)
        return self.ret_simple(st, I, f_and(f_leq(q.off, p.off), f_leq(p.off + n, q.off + m)))
    def c_offset(self, st, I, args, name):
        """vc_offset(p,q): p - q for pointers into the same object (obligation)"""
        p, q = args
        if p.obj is not q.obj:
            self.oblige(st, False, 'pointers into the same storage', 'ensures'); st.done = 'failed'; return [st]
        return self.ret_simple(st, I, p.off - q.off)
    def c_sameobj(self, st, I, args, name):
        return self.ret_simple(st, I, args[0].obj is args[1].obj)
    def c_buffer(self, st, I, args, name):
        n = args[0]
        lab = self.cstr(args[1])
        o = self.newobj(st, lab, n, 'buffer', 'havoc')
        return self.ret_simple(st, I, Ptr(o, ZERO))
    def c_release(self, st, I, args, name):
        return self.ret_simple(st, I)
    # ---- ghost life time of member objects
    def _alive(self, st, p, size):
        sh = self.shadow(st, p.obj)
        self.noteread(sh)
        return sh, self.read(st, sh, p.off, size)
    def c_construct(self, st, I, args, name):
        p, n = args
        self.inbounds(st, p, n.c, 'construct')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        out = []
        sh, r = self._alive(st, p, n.c)
        for s, v in r:
            self.oblige(s, f_eq(v), 'construct only raw storage', 'life')
            self.write(s, Ptr(sh, p.off), n.c, ONE)
            out.append((s, None))
        return self.ret_multi(out, I)
    def c_destroy(self, st, I, args, name):
        p, n = args
        self.inbounds(st, p, n.c, 'destroy')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        out = []
        sh, r = self._alive(st, p, n.c)
        for s, v in r:
            self.oblige(s, f_eq(v - 1), 'destroy only live objects', 'life')
            self.write(s, Ptr(sh, p.off), n.c, ZERO)
            out.append((s, None))
        return self.ret_multi(out, I)
    def c_use(self, st, I, args, name):
        p, n = args
        self.inbounds(st, p, n.c, 'use')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        out = []
        sh, r = self._alive(st, p, n.c)
        for s, v in r:
            self.oblige(s, f_eq(v - 1), 'use only live objects', 'life')
            out.append((s, None))
        return self.ret_multi(out, I)
    def c_alive(self, st, I, args, name):
        p, n = args
        self.inbounds(st, p, n.c, 'alive')
        if p.obj is NULL or p.obj in st.dead: st.done = 'bad access'; return [st]
        sh, r = self._alive(st, p, n.c)
        return self.ret_multi([(s, f_eq(v - 1)) for s, v in r], I)
    # ---- allocation
    def c_allocfail(self, st, I, args, name):
        """vc_alloc_fail(k): the k-th allocation (from 0) after this call throws std::bad_alloc"""
        st.failat = args[0]
        return self.ret_simple(st, I)
    def failing(self, st, I, go):
        """allocation which may be the failing one"""
        if st.failat is None: return go(st)
        a, b = self.split(st, f_eq(st.failat))
        out = []
        if b is not None:
            b.failat = b.failat - 1
            r = go(b)
            out += [b] if r is None else r
        if a is not None:
            a.failat = None
            a.exc = ('@_ZTISt9bad_alloc', Ptr(NULL, ZERO))
            r = self.throw(a, I)
            out += [a] if r is None else r
        return out
    # ---- frame conditions
    def c_frame(self, st, I, args, name):
        st.fr = (Obj.cnt, (), (), (), (), False) if name.endswith('begin') else None
        return self.ret_simple(st, I)
    def c_framerange(self, st, I, args, name):
        mark, frozen, writable, limited, readable, guarded = st.fr
        p = args[0]
        if p.obj is NULL: return self.ret_simple(st, I)
        if name.endswith('limit_reads'): limited += (p.obj,)
        else:
            r = ((p.obj, p.off, args[1]),)
            if name.endswith('frozen'): frozen += r
            elif name.endswith('may_write'): writable += r
            else: readable += r
        st.fr = (mark, frozen, writable, limited, readable, guarded)
        return self.ret_simple(st, I)
    def c_guard(self, st, I, args, name):
        """initialisation of a local static object: happens at the first call"""
        acq = name.endswith('acquire')
        if st.fr is not None: st.fr = st.fr[:5] + (acq,)
        if not acq:
            self.write(st, args[0], 1, const(1))
            return self.ret_simple(st, I)
        return self.ret_simple(st, I, const(1))
    def c_atexit(self, st, I, args, name): return self.ret_simple(st, I, ZERO)
    def c_new(self, st, I, args, name): return self.failing(st, I, lambda s: self.do_new(s, I, args))
    def do_new(self, st, I, args):
        self.assumed.add('operator new returns a fresh block of the requested size at an arbitrary 16 byte aligned address or does not return')
        o = self.newobj(st, 'heap', args[0], 'heap', align=16)
        o.how = 'new'
        st.allocs = st.allocs + (o,)
        return self.ret_simple(st, I, Ptr(o, ZERO))
    def release(self, st, p, n, how):
        if p.obj is NULL: return True
        if st.fr is not None and p.obj.id <= st.fr[0]: self.oblige(st, any(b is p.obj and a == ZERO and m == p.obj.size for b, a, m in st.fr[2]), 'releases only its own storage', 'frame')
        if p.obj in st.dead or p.obj.kind not in ('heap',) or getattr(p.obj, 'how', None) != how:
            self.oblige(st, False, 'release of a live allocated block', 'life'); st.done = 'bad release'; return False
        self.oblige(st, f_eq(p.off), 'release at the start of the block', 'life')
        if n is not None: self.oblige(st, f_eqq(n, p.obj.size), 'release with the allocated size', 'life')
        self.none_alive(st, p.obj, 'no live member object in released storage')
        st.dead = st.dead | {p.obj}
        return True
    def none_alive(self, st, obj, label):
        if obj.shadow is not None and obj.shadow in st.mem:
            q = fresh('anybyte', 0)
            s = st.fork()
            self.assume(s, f_and(f_leq(ZERO, lin(q)), f_leq(lin(q) + 1, obj.size)))
            for s2, v in self.read_cover(s, obj.shadow, lin(q)):
                self.oblige(s2, f_eq(v), label, 'life')
    def read_cover(self, st, obj, q):
        """value of the slot covering byte q (ghost memory only)"""
        out = []
        work = [(st, self.node(st, obj))]
        while work:
            s, n = work.pop()
            if isinstance(n, Store):
                d = q - n.off
                a, b = self.split(s, f_and(f_leq(ZERO, d), f_lt(d, const(n.size))))
                if a is not None: out.append((a, n.val))
                if b is not None: work.append((b, n.prev))
            elif isinstance(n, Family):
                # slots written by the family: find one containing q
                cur = s
                for iters, guard, node in self.leaves(n):
                    if cur is None: break
                    if not isinstance(node, Store): raise ToolLimit('ghost family')
                    # align q to the slot start: q = slot + r
                    r = mk_mod(q - node_base(node, iters), node.size)
                    res = []
                    for s2, hit in self.read_family(cur, single(n, iters, guard, node), q - r, node.size, obj):
                        res.append((s2, hit))
                    cur2 = None
                    for s2, hit in res:
                        if hit is None: cur2 = s2
                        else: out.append((s2, hit[1]))
                    cur = cur2
                if cur is not None: work.append((cur, n.prev))
            elif isinstance(n, Base):
                out.append((s, ZERO if n.kind == 'zero' else mk_uf('ghost', [q], 0, 1)))
            else: raise ToolLimit('ghost node')
        return out
    def c_delete(self, st, I, args, name):
        p = args[0]
        n = args[1] if len(args) > 1 else None
        if not self.release(st, p, n, 'new'): return [st]
        return self.ret_simple(st, I)
    def c_aalloc(self, st, I, args, name): return self.failing(st, I, lambda s: self.do_aalloc(s, I, args, name))
    def do_aalloc(self, st, I, args, name):
        self.assumed.add('contract of the aligned allocator (property C10): fresh block of n bytes, aligned; release with the same n')
        m = re.match(r'^@_ZN12LibFlatArray17aligned_allocatorI(\w)Lm(\d+)EE', name)
        if not m: raise ToolLimit('allocator instantiation ' + name)
        es = {'c': 1, 'd': 8, 'f': 4, 'i': 4, 'l': 8, 'm': 8}[m.group(1)]
        o = self.newobj(st, 'storage', args[1].scale(es), 'heap', align=int(m.group(2)))
        o.how = 'aligned'; o.n = args[1]
        st.allocs = st.allocs + (o,)
        return self.ret_simple(st, I, Ptr(o, ZERO))
    def c_adealloc(self, st, I, args, name):
        p, n = args[1], args[2]
        if p.obj is NULL: return self.ret_simple(st, I)
        m = re.match(r'^@_ZN12LibFlatArray17aligned_allocatorI(\w)Lm(\d+)EE', name)
        es = {'c': 1, 'd': 8, 'f': 4, 'i': 4, 'l': 8, 'm': 8}[m.group(1)]
        if not self.release(st, p, n.scale(es), 'aligned'): return [st]
        return self.ret_simple(st, I)
    def c_bytes(self, st, I, args, name):
        """vc_bytes_from_alloc(p): bytes from p to the end of its block"""
        p = args[0]
        return self.ret_simple(st, I, p.obj.size - p.off)
    # ---- memory intrinsics
    def c_memcpy(self, st, I, args, name):
        d, s, n = args[0], args[1], args[2]
        if n.is_const() and n.c == 0: return self.ret_simple(st, I)
        # a zero length copy touches nothing
        zero, st2 = self.split(st, f_leq(n, ZERO))
        outs = []
        if zero is not None: outs.append((zero, None))
        if st2 is not None:
            st = st2
            self.inbounds(st, d, n, 'memory copy destination'); self.inbounds(st, s, n, 'memory copy source')
            if st.fr is not None: self.framed(st, d, n, True, 'copy'); self.framed(st, s, n, False, 'copy')
            if d.obj is NULL or s.obj is NULL or d.obj in st.dead or s.obj in st.dead: st.done = 'bad access'; outs.append((st, None))
            else:
                self.noteread(s.obj)
                if d.obj is s.obj and d.off == s.off: pass      # copy onto itself
                else:
                    sn = self.node(st, s.obj)
                    if d.obj is s.obj and self.readlogs: sn = self.skip_disjoint(st, sn, s.off, n)
                    st.mem[d.obj] = Copy(self.node(st, d.obj), d.off, n, s.obj, sn, s.off)
                outs.append((st, None))
        for s, v in outs:
            if s.done is None: self.done_call(s, I, v)
        return [s for s, _ in outs]
    def skip_disjoint(self, st, node, off, n):
        """the oldest memory state which has the same n bytes at off"""
        x = node
        while x is not None and not isinstance(x, Base):
            if isinstance(x, Family):
                for iters, guard, nd in self.leaves(x):
                    nl = const(nd.size) if isinstance(nd, Store) else nd.len
                    sk = {a.id: lin(fresh('skd')) for a, c in iters}
                    rng = []
                    for a, c in iters: rng += [f_leq(ZERO, sk[a.id]), f_lt(sk[a.id], lsubst(c, sk))]
                    d = off - lsubst(nd.off, sk)
                    if self.feasible(st, f_lt(d, lsubst(nl, sk)), f_lt(-n, d), fsubst(guard, sk), *rng): return x
            elif isinstance(x, (Store, Copy, Fill, Havoc)):
                nl = const(x.size) if isinstance(x, Store) else x.len
                d = off - x.off
                ov = f_and(f_lt(d, nl), f_lt(-n, d))
                if self.fbool(st, ov) is not False and self.feasible(st, ov): return x
            else: return x
            x = x.prev
        return x
    def c_memcpyfn(self, st, I, args, name):
        r = self.c_memcpy(st, I, args, name)
        if I.res is not None:
            for s in r or [st]: s.frames[-1].env[I.res] = args[0]
        return r
    def c_memset(self, st, I, args, name):
        d, b, n = args[0], args[1], args[2]
        zero, st2 = self.split(st, f_leq(n, ZERO))
        outs = []
        if zero is not None: outs.append((zero, None))
        if st2 is not None:
            st = st2
            self.inbounds(st, d, n, 'memory fill')
            if st.fr is not None: self.framed(st, d, n, True, 'fill')
            if d.obj is NULL or d.obj in st.dead: st.done = 'bad access'
            else: st.mem[d.obj] = Fill(self.node(st, d.obj), d.off, n, b)
            outs.append((st, None))
        for s, v in outs:
            if s.done is None: self.done_call(s, I, v)
        return [s for s, _ in outs]
    def c_memsetfn(self, st, I, args, name):
        r = self.c_memset(st, I, args, name)
        if I.res is not None:
            for s in r: s.frames[-1].env[I.res] = args[0]
        return r
    def c_lifetime(self, st, I, args, name):
        p = args[1]
        if isinstance(p, Ptr) and p.obj.kind == 'stack' and p.off == ZERO:
            st.mem[p.obj] = Base('undef', '%s_%d' % (p.obj.name, p.obj.id))
        return self.ret_simple(st, I)
    def c_minmax(self, st, I, args, name):
        n = I.ty[1]
        a, b = args
        sg = 's' if name.startswith('@llvm.s') else 'u'
        c = self.cmp(st, sg + 'lt', a, b, n)
        x, y = self.split(st, c)
        out = []
        mx = 'max' in name[:11]
        if x is not None: out.append((x, b if mx else a))
        if y is not None: out.append((y, a if mx else b))
        return self.ret_multi(out, I)
    def c_abs(self, st, I, args, name):
        n = I.ty[1]
        out = []
        for s, v in self.signed(st, args[0], n):
            x, y = self.split(s, f_leq(ZERO, v))
            if x is not None: out.append((x, v))
            if y is not None: out.append((y, -v))
        return self.ret_multi(out, I)
    def c_first(self, st, I, args, name): return self.ret_simple(st, I, args[0])
    def c_false(self, st, I, args, name): return self.ret_simple(st, I, False)
    def c_objsize(self, st, I, args, name): return self.ret_simple(st, I, const(-1))
    def c_overflow(self, st, I, args, name):
        a, b = args; n = self.lay.res(I.ty)[1][0][1]
        raw = a + b if '.uadd' in name or '.sadd' in name else (a - b if 'sub' in name else mk_mul(a, b))
        lo, hi = (0, M(n) - 1) if name[6] == 'u' else (-M(n - 1), M(n - 1) - 1)
        okf = f_and(f_leq(const(lo), raw), f_leq(raw, const(hi)))
        x, y = self.split(st, okf)
        out = []
        if x is not None: out.append((x, (self.ranged(x, raw, n), False)))
        if y is not None: out.append((y, (lin(fresh('ovf', 0, M(n) - 1)), True)))
        return self.ret_multi(out, I)
    # ---- exceptions
    def c_typeid(self, st, I, args, name):
        v = I.args[0][1]
        return self.ret_simple(st, I, const(self.typeid(v[1])))
    def c_allocexc(self, st, I, args, name):
        o = self.newobj(st, 'exc', args[0], 'exc')
        return self.ret_simple(st, I, Ptr(o, ZERO))
    def c_throw(self, st, I, args, name):
        ti = I.args[1][1][1]
        st.exc = (ti, args[0])
        return self.throw(st, I)
    def c_stdthrow(self, st, I, args, name):
        m = re.match(r'^@_ZSt(\d+)__throw_(\w+)', name)
        ln = int(m.group(1)) - len('__throw_')
        base = m.group(2)[:ln]
        st.exc = ('@_ZTISt%d%s' % (len(base), base), Ptr(NULL, ZERO))
        return self.throw(st, I)
    def c_begincatch(self, st, I, args, name):
        st.caught = st.caught + (st.exc,)
        return self.ret_simple(st, I, args[0])
    def c_rethrow(self, st, I, args, name):
        st.exc = st.caught[-1]
        return self.throw(st, I)
    def c_terminate(self, st, I, args, name):
        self.oblige(st, False, 'no terminate', 'exception')
        st.done = 'terminate'
        return [st]
    def c_payload(self, st, I, args, name):
        raise ToolLimit('payload')

    # ------------------------------------------------------------ loops
    def do_loop(self, st, L):
        """None: go on executing the header concretely; else list of states after the loop"""
        f = st.frames[-1]
        key = (len(st.frames), L.header)
        fresh_entry = f.prev not in L.blocks
        cnt = 0 if fresh_entry else st.cnt.get(key, 0)
        if self.bound is not None:
            if cnt > self.bound * 8: return []
            conc = self.header_concrete(st, L)
            if not conc:
                k2 = (len(st.frames), L.header, 's')
                c2 = 0 if fresh_entry else st.cnt.get(k2, 0)
                if c2 >= self.bound:
                    # force the exit
                    self.stats['bounded'] += 1
                    self.force_exit = True
                    return self.exit_only(st, L)
                st.cnt[k2] = c2 + 1
            st.cnt[key] = cnt + 1
            return None
        if self.header_concrete(st, L):
            st.cnt[key] = cnt + 1
            if cnt > 5000: raise ToolLimit('loop with too many concrete iterations')
            if cnt == 40:
                # long concrete loop: the rest by induction if possible
                n0 = len(self.obls)
                try: return self.summarise(st.fork(), L)
                except ToolLimit: del self.obls[n0:]
            self.stats['unrolled'] += 1
            return None
        return self.summarise(st, L)

    def exit_only(self, st, L):
        back, exits, ends = self.explore([st], (len(st.frames), L))
        return exits + ends

    def header_concrete(self, st, L):
        """the loop decision in the header does not depend on symbolic values"""
        f = st.frames[-1]
        s = st.fork()
        g = s.frames[-1]
        blk = g.fn.blocks[g.block]
        vals = []
        i = 0
        for I in blk.instrs:
            if I.op != 'phi': break
            i += 1
            for v, b in I.x:
                if b == g.prev: vals.append((I.res, self.operand(s, g.env, I.ty, v)))
        for r, v in vals: g.env[r] = v
        t = blk.instrs[-1]
        exiting = t.op == 'br' and t.args and not all(x in L.blocks for x in t.x)
        if not exiting:
            # decide at the (single) conditional exit further down: look for constant trip behaviour via phis
            return all(self.is_conc(v) for r, v in vals) and self.latch_concrete(s, L, dict(vals))
        q = self.quiet; self.quiet = 1
        try:
            for I in blk.instrs[i:-1]:
                h = getattr(self, 'i_' + I.op, None)
                if I.op in ('call', 'invoke', 'store', 'alloca'): return False
                if h: r = h(s, g, I)
                elif I.op in ir.BIN: r = self.binop(s, g, I)
                elif I.op in ir.CAST: r = self.cast(s, g, I)
                else: return False
                if r is not None:
                    if isinstance(r, list) and len(r) == 1: s = r[0]; g = s.frames[-1]; continue
                    return False
            c = self.op2(s, g, t.args[0])
            return c is True or c is False
        finally:
            self.quiet = q
    def is_conc(self, v):
        return isinstance(v, Lin) and v.is_const() or isinstance(v, bool) or (isinstance(v, Ptr) and v.off.is_const())
    def latch_concrete(self, s, L, vals):
        """do-while shaped loops: run one iteration quietly; concrete if no exit decision was symbolic"""
        q = self.quiet; self.quiet = 1
        try:
            n0 = s.pc
            b, e, d = self.explore([s.fork()], (len(s.frames), L))
            return (len(b) + len(e) + len(d)) == 1
        finally:
            self.quiet = q

    def phi_info(self, st, L):
        f = st.frames[-1]
        out = []
        for I in f.fn.blocks[L.header].instrs:
            if I.op != 'phi': break
            v = [self.operand(st, f.env, I.ty, v) for v, b in I.x if b == f.prev]
            out.append((I, v[0]))
        return out

    def syntactic_delta(self, fn, L, I):
        """constant increment of a phi along the latches, by following the SSA chain"""
        defs = getattr(fn, '_defs', None)
        if defs is None:
            defs = {}
            for b in fn.blocks.values():
                for x in b.instrs:
                    if x.res is not None: defs[x.res] = x
            fn._defs = defs
        res = set()
        for v, b in I.x:
            if b not in L.blocks: continue
            d = 0; cur = v
            for _ in range(20):
                if cur[0] == 'loc' and cur[1] == I.res: break
                if cur[0] != 'loc': return None
                x = defs.get(cur[1])
                if x is None: return None
                if x.op == 'add' and x.args[1][1][0] == 'int': d += x.args[1][1][1]; cur = x.args[0][1]
                elif x.op == 'sub' and x.args[1][1][0] == 'int': d -= x.args[1][1][1]; cur = x.args[0][1]
                elif x.op == 'getelementptr' and len(x.args) == 2 and x.args[1][1][0] == 'int':
                    d += x.args[1][1][1] * self.lay.size(x.x); cur = x.args[0][1]
                else: return None
            else: return None
            res.add(d)
        return res.pop() if len(res) == 1 else None

    def summarise(self, st, L):
        self.stats['loops'] += 1
        f = st.frames[-1]
        fn = f.fn
        depth = len(st.frames)
        phis = self.phi_info(st, L)
        deltas = []
        need_probe = []
        for I, v in phis:
            d = self.syntactic_delta(fn, L, I)
            if d is None: need_probe.append(len(deltas))
            deltas.append(d)
        if need_probe: self.probe(st, L, phis, deltas, need_probe)
        k = fresh('k')
        K = lin(k)
        def phival(I, v, d, it):
            if d == 0: return v
            if isinstance(v, Lin): return v + mk_mul(it, d if isinstance(d, Lin) else const(d))
            if isinstance(v, Ptr): return Ptr(v.obj, v.off + mk_mul(it, d if isinstance(d, Lin) else const(d)))
            raise ToolLimit('induction variable of unsupported kind')
        # ---- candidate history facts from the header condition
        H = self.header_history(st, L, phis, deltas, k, phival)
        templates = None
        resets = {}
        frozen0 = self.frozen
        rnd = 0
        while rnd < 5:
            rnd += 1
            ck = len(self.obls)
            notes0 = set(self.assumed)
            s0 = st.fork()
            base_mem = dict(s0.mem)
            if templates is not None:
                for obj, alts in templates.items():
                    s0.mem[obj] = mkfamily(base_mem_get(self, st, obj), k, alts)
            for obj in resets: s0.mem[obj] = Base('undef', 'reset%d_%d' % (obj.id, k.id))
            start_mem = dict(s0.mem)
            self.frozen = frozen0 | set(start_mem.values())
            s0.bounds[k.id] = (0, INF)
            self.assume(s0, f_leq(ZERO, K))
            for h in H: self.assume(s0, h)
            g = s0.frames[-1]
            for (I, v), d in zip(phis, deltas):
                pv = phival(I, v, d, K)
                if isinstance(pv, Lin):
                    n = I.ty[1] if I.ty[0] == 'int' else 64
                    lo, hi = self.blin(s0, pv)
                    if lo < -M(n - 1) or hi >= M(n):
                        r = f_and(f_leq(const(-M(n - 1)), pv), f_lt(pv, const(M(n))))
                        if not self.proves(s0, r): raise ToolLimit('range of an induction variable')
                        pv = self.ranged(s0, pv, n)
                g.env[I.res] = pv
            nphi = len(phis)
            pc0 = s0.pc
            g.idx = nphi
            dead0, allocs0, inputs0 = s0.dead, s0.allocs, s0.inputs
            log = set()
            self.readlogs = tuple(self.readlogs) + (log,)
            try:
                back, exits, ends = self.explore_from(s0, depth, L)
            finally:
                self.readlogs = self.readlogs[:-1]
                self.frozen = frozen0
            natom_k = k.id
            # ---- induction step checks
            for b in back:
                if b.dead != dead0: raise ToolLimit('allocation state changes in a summarised loop')
                if len(b.allocs) != len(allocs0): raise ToolLimit('allocation in a summarised loop')
                if len(b.inputs) != len(inputs0): raise ToolLimit('input read in a summarised loop')
                bf = b.frames[-1]
                for (I, v), d in zip(phis, deltas):
                    nv = [self.operand(b, bf.env, I.ty, x) for x, bb in I.x if bb == bf.prev][0]
                    want = phival(I, v, d, K + 1)
                    if nv == want: continue
                    eq = self.eqval(b, nv, want)
                    if isinstance(nv, Lin) and isinstance(want, Lin): eq = self.cmp(b, 'eq', nv, want, I.ty[1])
                    if eq is False or not self.proves(b, eq): raise ToolLimit('induction variable is not linear')
                    if isinstance(nv, Lin) and not self.proves(b, f_eqq(nv, want)): raise ToolLimit('induction variable wraps around')
                dropped = [h for h in H if not self.proves(b, fsubst(h, {k.id: K + 1}))]
                if dropped: break
            if back and dropped:
                # not inductive: do without it (every fact kept is proved to be)
                H = [h for h in H if h not in dropped]
                self.obls[ck:] = []
                rnd -= 1
                continue
            # ---- collect per iteration writes
            written = {}
            reset = set()
            guards = []
            for bi, b in enumerate(back):
                gd = []
                n = b.pc
                while n is not pc0:
                    gd.append(n[1]); n = n[0]
                if len(back) > 1:
                    gd = gd[::-1]
                    for i_, c_ in b.ksub: gd = [fsubst(x, {i_: c_}) if x is not True and x is not False and i_ in fvars(x) else x for x in gd]
                    guards.append(f_and(*gd))
                else: guards.append(True)
                for obj, node in b.mem.items():
                    s_node = start_mem.get(obj)
                    if s_node is None:
                        s_node = self.gmem.get(obj)
                    if node is s_node: continue
                    if s_node is None:
                        if obj.kind == 'ghost' :
                            s_node = None
                        elif obj.kind in ('exc', 'stack'): continue
                        else: raise ToolLimit('object created in a summarised loop')
                    nodes = []
                    x = node
                    while x is not None and x is not s_node:
                        if isinstance(x, Base): break
                        nodes.append(x); x = x.prev
                    if x is not s_node and isinstance(x, Base):
                        if obj.kind == 'ghost' and s_node is None:
                            pass
                        elif obj.kind == 'stack': reset.add(obj); continue
                        else: raise ToolLimit('object reset in loop %s' % obj)
                    written.setdefault(obj, {})[bi] = nodes[::-1]
            for obj in reset: written.pop(obj, None)
            new_t = {}
            for obj, per in written.items():
                alts = []
                for bi in range(len(back)):
                    if bi in per: alts.append((guards[bi], [strip(x) for x in per[bi]]))
                new_t[obj] = alts
                for gd, ns in alts:
                    bad = [v for v in set().union(fvars(gd), *[x.vars() for x in ns]) if v > k.id and v not in self.addr_ids]
                    if bad: raise ToolLimit('loop write depends on values fresh in each iteration: %s' % [terms._atoms[v] for v in bad])
            conflict = [o for o in new_t if o in log]
            for alts in new_t.values():
                for gd, ns in alts:
                    for x in all_nodes(ns):
                        if isinstance(x, Copy) and x.sobj in new_t and templates is not None and not older(x.snode, k):
                            raise ToolLimit('loop copies within an object it writes')
            if not reset <= set(resets):
                # objects whose life time starts anew in each iteration: arbitrary at its start
                for obj in reset: resets[obj] = 1
                templates = None
                self.obls[ck:] = []
                continue
            stable = templates is not None and same_templates(self, templates, new_t)
            if templates is None and not conflict and not (H is None): 
                # nothing the loop writes is read by it: one pass is exact
                if new_t:
                    pass
                stable = True
            if stable: break
            templates = new_t
            self.obls[ck:] = []
        else:
            raise ToolLimit('loop effects do not stabilise')
        fam_in_start = templates is not None
        final = templates if templates is not None else new_t
        # ---- termination: the iteration count is bounded on every continuing path
        cands = self.count_candidates(st, L, H, k, back, exits, pc0)
        for b in back:
            ok = False
            for c in cands:
                if self.fbool(b, f_lt(K, c)) is True or self.proves(b, f_lt(K, c)):
                    ok = True; break
            if not ok: raise ToolLimit('no bound for the number of loop iterations found')
        # ---- exits
        out = []
        for e in exits + ends:
            if not fam_in_start:
                for obj, alts in final.items():
                    node = e.mem.get(obj)
                    s_node = start_mem.get(obj)
                    if s_node is None: s_node = self.gmem.get(obj)
                    extra = []
                    x = node
                    while x is not None and x is not s_node:
                        if isinstance(x, Base): break
                        extra.append(x); x = x.prev
                    cur = mkfamily(s_node if s_node is not None else Base('zero'), k, alts)
                    for y in reversed(extra): cur = y.rebuild(cur, {})
                    e.mem[obj] = cur
            for obj in reset:
                if e.mem.get(obj) is start_mem.get(obj):
                    pass
            if e.done is None:
                self.resolve_k(e, k, cands)
            out.append(e)
        return out

    def explore_from(self, s0, depth, L):
        """explore one iteration starting inside the header (phis already set)"""
        return self.explore([s0], (depth, L))

    def probe(self, st, L, phis, deltas, need):
        """guess increments from the first iteration"""
        q = self.quiet; self.quiet = 1
        try:
            s = st.fork()
            back, exits, ends = self.explore([s], (len(st.frames), L))
        finally:
            self.quiet = q
        if not back: 
            for i in need: deltas[i] = 0
            return
        for i in need:
            I, v = phis[i]
            ds = set()
            for b in back:
                bf = b.frames[-1]
                nv = [self.operand(b, bf.env, I.ty, x) for x, bb in I.x if bb == bf.prev][0]
                if isinstance(v, Lin) and isinstance(nv, Lin): ds.add(nv - v)
                elif isinstance(v, Ptr) and isinstance(nv, Ptr) and v.obj is nv.obj: ds.add(nv.off - v.off)
                elif v == nv: ds.add(ZERO)
                else: raise ToolLimit('loop carried value is not an induction variable')
            if len(ds) != 1: raise ToolLimit('increment differs between paths')
            d = ds.pop()
            deltas[i] = d.c if d.is_const() else d

    def header_history(self, st, L, phis, deltas, k, phival):
        """facts that hold at the start of iteration k because the loop went on before"""
        K = lin(k)
        f = st.frames[-1]
        blk = f.fn.blocks[L.header]
        t = blk.instrs[-1]
        H = []
        if not (t.op == 'br' and t.args and not all(x in L.blocks for x in t.x)):
            return self.latch_history(st, L, phis, deltas, k, phival)
        s = st.fork()
        g = s.frames[-1]
        s.bounds[k.id] = (0, self.count_range(phis, deltas))
        for (I, v), d in zip(phis, deltas): g.env[I.res] = phival(I, v, d, K)
        q = self.quiet; self.quiet = 1
        c = None
        try:
            for I in blk.instrs[len(phis):-1]:
                h = getattr(self, 'i_' + I.op, None)
                if I.op in ('call', 'invoke', 'store', 'alloca'): break
                if h: r = h(s, g, I)
                elif I.op in ir.BIN: r = self.binop(s, g, I)
                elif I.op in ir.CAST: r = self.cast(s, g, I)
                else: break
                if r is not None:
                    if isinstance(r, list) and len(r) == 1: s = r[0]; g = s.frames[-1]; continue
                    break
            else: c = self.boolof(self.op2(s, g, t.args[0]))
        except ToolLimit:
            return H
        finally:
            self.quiet = q
        if c is None: return self.latch_history(st, L, phis, deltas, k, phival)
        if t.x[0] not in L.blocks: c = f_not(c)
        return self.history_from(st, c, k)

    def count_range(self, phis, deltas):
        """candidates for history facts are sought among iterations which do not wrap an induction variable (the facts are proved without that)"""
        hi = M(60)
        for (I, v), d in zip(phis, deltas):
            if I.ty[0] == 'int' and isinstance(d, int) and d: hi = min(hi, (M(I.ty[1] - 1) - 1) // abs(d))
        return hi

    def linear_atoms(self, c):
        if c is True or c is False: return
        if c[0] in ('le', 'eq', 'ne'): yield c
        else:
            for x in c[1:]:
                if isinstance(x, tuple): yield from self.linear_atoms(x)

    def history_from(self, st, c, k):
        """c: continue condition of iteration k"""
        K = lin(k)
        H = []
        if c is not True and c is not False and c[0] in ('or', 'and', 'not') :
            # unsigned comparisons of differences: candidate bounds from the atoms
            for g in self.linear_atoms(c):
                co = g[1].coef(k)
                rest = g[1].without(k)
                if co not in (1, -1) or k.id in rest.vars(): continue
                r = -rest if co == 1 else rest
                for b in (r, r + 1, r - 1):
                    h = f_leq(K, b)
                    if h not in H and self.proves(st, fsubst(h, {k.id: ZERO})): H.append(h)
        conj = list(c[1:]) if c is not True and c is not False and c[0] == 'and' else [c]
        for g in conj:
            if g is True or g is False: continue
            if k.id not in fvars(g): continue
            if g[0] == 'ne':
                co = g[1].coef(k)
                rest = g[1].without(k)
                if co == 0 or k.id in rest.vars(): continue
                # root r: co*r + rest = 0
                if all(x % co == 0 for _, x in rest.t) and rest.c % co == 0:
                    r = Lin(-rest.c // co, tuple((a, -x // co) for a, x in rest.t))
                    if self.proves(st, f_leq(ZERO, r)): H.append(f_leq(K, r))
                    else: H.append(f_or(f_lt(r, ZERO), f_leq(K, r)))
                continue
            prevg = fsubst(g, {k.id: K - 1})
            at0 = fsubst(prevg, {k.id: ZERO})
            if at0 is True or (at0 is not False and self.proves(st, at0)): H.append(prevg)
            else: H.append(f_or(f_leq(K, ZERO), prevg))
        return H

    def latch_history(self, st, L, phis, deltas, k, phival):
        """do-while loops: continue condition found by running iteration k without history"""
        K = lin(k)
        s = st.fork()
        g = s.frames[-1]
        top = self.count_range(phis, deltas)
        s.bounds[k.id] = (0, top)
        self.assume(s, f_leq(ZERO, K)); self.assume(s, f_leq(K, const(top)))
        pc0 = s.pc
        for (I, v), d in zip(phis, deltas): g.env[I.res] = phival(I, v, d, K)
        g.idx = len(phis)
        q = self.quiet; self.quiet = 1
        try:
            back, exits, ends = self.explore([s], (len(st.frames), L))
        except ToolLimit:
            return []
        finally:
            self.quiet = q
        if not back: return []
        common = None
        for b in back:
            fs = []
            n = b.pc
            while n is not pc0: fs.append(n[1]); n = n[0]
            fs = [x for x in fs if all(v <= k.id for v in fvars(x))]
            common = fs if common is None else [x for x in common if x in fs]
        return self.history_from(st, f_and(*common), k)

    def count_candidates(self, st, L, H, k, back, exits, pc0):
        """possible closed forms of the iteration count"""
        K = lin(k)
        out = [ZERO]
        seen = set()
        def addl(l):
            co = l.coef(k)
            rest = l.without(k)
            if co == 0 or k.id in rest.vars(): return
            if any(v > k.id for v in rest.vars()): return
            if all(x % co == 0 for _, x in rest.t) and rest.c % co == 0:
                r = Lin(-rest.c // co, tuple((a, -x // co) for a, x in rest.t))
                for d in (0, 1, -1):
                    c = r + d
                    if c not in seen: seen.add(c); out.append(c)
            else:
                n = -rest if co > 0 else rest
                for d in (0, 1):
                    c = mk_div(n, abs(co)) + d
                    if c not in seen: seen.add(c); out.append(c)
        def walk(f):
            if f is True or f is False: return
            if f[0] in ('le', 'eq', 'ne'): addl(f[1])
            else:
                for x in f[1:]: walk(x)
        for b in back + exits:
            n = b.pc
            while n is not None and n is not pc0:
                walk(n[1]); n = n[0]
        for h in H: walk(h)
        return out[:24]

    def resolve_k(self, e, k, cands):
        K = lin(k)
        for c in cands:
            f = f_eqq(K, c)
            v = self.fbool(e, f)
            if v is False: continue
            if v is True or self.proves(e, f):
                m = {k.id: c}
                e.ksub = e.ksub + ((k.id, c),)
                for fr in e.frames:
                    for n, val in fr.env.items():
                        if val is UNDEF or val is None: continue
                        if k.id in vvars(val): fr.env[n] = vsubst(val, m)
                for o, nd in list(e.mem.items()):
                    nn = rebuild_chain(nd, m)
                    if nn is not nd: e.mem[o] = nn
                return True
        return False

def mkfamily(prev, k, alts):
    """iterations 0 .. k-1; the bound variable is distinct from the counter"""
    j = fresh('j')
    m = {k.id: lin(j)}
    return Family(prev, j, lin(k), [(fsubst(g, m), [x.rebuild(None, m) for x in ns]) for g, ns in alts])

def all_nodes(ns):
    for x in ns:
        if isinstance(x, Family):
            for g, ms in x.alts: yield from all_nodes(ms)
        else: yield x

def strip(node):
    """node without its tail (templates do not need prev)"""
    return node.rebuild(None, {})

def base_mem_get(ex, st, obj):
    n = st.mem.get(obj)
    if n is None:
        n = ex.gmem.get(obj)
    if n is None: n = Base('zero')
    return n

def nodes_equal(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, Store): return a.off == b.off and a.size == b.size and a.val == b.val
    if isinstance(a, Copy): return a.off == b.off and a.len == b.len and a.sobj is b.sobj and a.soff == b.soff
    if isinstance(a, Fill): return a.off == b.off and a.len == b.len and a.byte == b.byte
    if isinstance(a, Family):
        if a.count != b.count or len(a.alts) != len(b.alts): return False
        m = {b.var.id: lin(a.var)}
        for (g1, n1), (g2, n2) in zip(a.alts, b.alts):
            if g1 != fsubst(g2, m) or len(n1) != len(n2): return False
            for x, y in zip(n1, n2):
                if not nodes_equal(x, y.rebuild(None, m)): return False
        return True
    return False

def older(node, k):
    """the chain has no write of the loop counted by k"""
    while node is not None and not isinstance(node, Base):
        if isinstance(node, Family) and node.var is k: return False
        if k.id in node.vars(): return False
        node = node.prev
    return True

def same_templates(ex, t1, t2):
    if set(t1) != set(t2): return False
    for o in t1:
        if len(t1[o]) != len(t2[o]): return False
        for (g1, n1), (g2, n2) in zip(t1[o], t2[o]):
            if g1 != g2 or len(n1) != len(n2): return False
            for a, b in zip(n1, n2):
                if not nodes_equal(a, b): return False
    return True

def node_base(node, iters):
    b = node.off
    for a, _ in iters: b = b.without(a)
    return b

def single(F, iters, guard, node):
    cur = [node.rebuild(None, {})]
    fam = None
    for i in range(len(iters) - 1, -1, -1):
        a, c = iters[i]
        fam = Family(None, a, c, [(guard if i == len(iters) - 1 else True, cur)])
        cur = [fam]
    return fam
