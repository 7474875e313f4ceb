"""Verification-condition generator for LLVM IR, integer mode.

Symbolic execution of the IR of a contract harness with
  * exact path splitting (no merging),
  * region based memory (object, byte offset) with write chains,
  * loops cut by inductive summaries (iteration counter k, linear induction
    variables, write families); every summary is an inductive invariant whose
    initiation / preservation / frame parts are solver obligations,
  * iN arithmetic as integers with explicit range tracking (wrap-around is
    decided by the solver and modelled exactly).
"""
import time, sys
from fractions import Fraction
import z3
import ir
from ir import IRError
from terms import *
import terms

class ToolLimit(Exception):
    """the generator cannot express this code; never a verdict"""

M = lambda n: 1 << n

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return '&%s[%s]' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off
    def __hash__(self): return hash((id(self.obj), self.off))

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, FnPtr) and o.name == self.name
    def __hash__(self): return hash(self.name)

class FV:
    """floating point value: bits known as Lin ('bits'), or  num * lin with relative error ('real')"""
    __slots__ = ('kind', 'a', 'b', 'w')
    def __init__(self, kind, a, b=None, w=64): self.kind = kind; self.a = a; self.b = b; self.w = w
    def __eq__(self, o): return isinstance(o, FV) and (self.kind, self.a, self.b, self.w) == (o.kind, o.a, o.b, o.w)
    def __hash__(self): return hash((self.kind, self.a, self.b, self.w))
    def __repr__(self): return 'FV(%s,%s,%s)' % (self.kind, self.a, self.b)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Obj:
    """a memory object"""
    cnt = 0
    def __init__(self, name, size, kind, align=1):
        Obj.cnt += 1
        self.id = Obj.cnt
        self.name = name; self.size = size; self.kind = kind; self.align = align
        self.addr = None     # symbolic address atom (Lin), lazily
        self.shadow = None
    def __repr__(self): return '%s#%d' % (self.name, self.id)

NULL = Obj('null', ZERO, 'null')
WILD = Obj('wild', ZERO, 'wild')      # pointer value of unknown provenance; off is the address

def vsubst(v, m):
    if isinstance(v, Lin): return lsubst(v, m)
    if isinstance(v, Ptr): return Ptr(v.obj, lsubst(v.off, m))
    if isinstance(v, FV):
        if v.kind in ('bits', 'real'): return FV(v.kind, lsubst(v.a, m), v.b, v.w)
        return v
    if isinstance(v, tuple) and v and isinstance(v[0], str): return fsubst(v, m)
    if isinstance(v, tuple): return tuple(vsubst(x, m) for x in v)
    return v

def vvars(v):
    if isinstance(v, Lin): return v.vars()
    if isinstance(v, Ptr): return v.off.vars()
    if isinstance(v, FV): return v.a.vars() if isinstance(v.a, Lin) else set()
    if isinstance(v, tuple) and v and isinstance(v[0], str): return fvars(v)
    if isinstance(v, tuple):
        s = set()
        for x in v: s |= vvars(x)
        return s
    return set()

# ------------------------------------------------------------------ memory nodes
class Node:
    __slots__ = ('prev', 'allconst', 'n')
class Base(Node):
    __slots__ = ('kind', 'tag')
    def __init__(self, kind, tag=None):
        self.prev = None; self.kind = kind; self.tag = tag; self.allconst = True; self.n = 0
class Store(Node):
    __slots__ = ('off', 'size', 'val')
    def __init__(self, prev, off, size, val):
        self.prev = prev; self.off = off; self.size = size; self.val = val
        self.allconst = (prev is None or prev.allconst) and off.is_const()
        self.n = (prev.n if prev else 0) + 1
    def rebuild(self, prev, m): return Store(prev, lsubst(self.off, m), self.size, vsubst(self.val, m))
    def vars(self): return self.off.vars() | vvars(self.val)
class Copy(Node):
    __slots__ = ('off', 'len', 'sobj', 'snode', 'soff')
    def __init__(self, prev, off, ln, sobj, snode, soff):
        self.prev = prev; self.off = off; self.len = ln; self.sobj = sobj; self.snode = snode; self.soff = soff
        self.allconst = False; self.n = (prev.n if prev else 0) + 1
    def rebuild(self, prev, m):
        return Copy(prev, lsubst(self.off, m), lsubst(self.len, m), self.sobj, rebuild_chain(self.snode, m), lsubst(self.soff, m))
    def vars(self): return self.off.vars() | self.len.vars() | self.soff.vars() | chain_vars(self.snode)
class Fill(Node):
    __slots__ = ('off', 'len', 'byte')
    def __init__(self, prev, off, ln, byte):
        self.prev = prev; self.off = off; self.len = ln; self.byte = byte; self.allconst = False; self.n = (prev.n if prev else 0) + 1
    def rebuild(self, prev, m): return Fill(prev, lsubst(self.off, m), lsubst(self.len, m), self.byte)
    def vars(self): return self.off.vars() | self.len.vars()
class Havoc(Node):
    __slots__ = ('off', 'len', 'tag')
    def __init__(self, prev, off, ln, tag):
        self.prev = prev; self.off = off; self.len = ln; self.tag = tag; self.allconst = False; self.n = (prev.n if prev else 0) + 1
    def rebuild(self, prev, m): return Havoc(prev, lsubst(self.off, m), lsubst(self.len, m), self.tag)
    def vars(self): return self.off.vars() | self.len.vars()
class Family(Node):
    """for var in [0,count): one of alts [(guard, nodes)]  (each nodes: list, prev unused)"""
    __slots__ = ('var', 'count', 'alts')
    def __init__(self, prev, var, count, alts):
        self.prev = prev; self.var = var; self.count = count; self.alts = alts; self.allconst = False; self.n = (prev.n if prev else 0) + 1
    def rebuild(self, prev, m):
        return Family(prev, self.var, lsubst(self.count, m),
                      [(fsubst(g, m), [x.rebuild(None, m) for x in ns]) for g, ns in self.alts])
    def vars(self):
        v = set(self.count.vars())
        for g, ns in self.alts:
            v |= fvars(g)
            for x in ns: v |= x.vars()
        v.discard(self.var.id)
        return v

def chain_vars(node):
    v = set()
    while node is not None and not isinstance(node, Base):
        v |= node.vars(); node = node.prev
    return v

def rebuild_chain(node, m):
    """substitute in a chain; the part below the deepest node that mentions the variables is shared"""
    stack = []
    n = node
    last = -1
    while n is not None and not isinstance(n, Base):
        stack.append(n)
        if not n.vars().isdisjoint(m): last = len(stack) - 1
        n = n.prev
    if last < 0: return node
    cur = stack[last].prev
    for x in reversed(stack[:last + 1]): cur = x.rebuild(cur, m)
    return cur

# ------------------------------------------------------------------ solver context
class Ctx:
    """incremental solver synchronised with a path condition (list of formulas)"""
    def __init__(self, timeout_ms=20000, stats=None):
        self.s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.timeout = timeout_ms
        self.stack = []       # list of pc nodes currently pushed
        self.stats = stats if stats is not None else {'queries': 0, 'time': 0.0}
        self.bounded = set()
    def _bounds(self, f, out, seen):
        if f is True or f is False: return
        if f[0] in ('le', 'eq', 'ne'):
            self._lb(f[1], out, seen)
        else:
            for x in f[1:]: self._bounds(x, out, seen)
    def _lb(self, l, out, seen):
        for a, _ in l.t:
            if a.id in seen: continue
            seen.add(a.id)
            if a.kind == 'uf':
                if a.lo > -INF: out.append(az3(a) >= a.lo)
                if a.hi < INF: out.append(az3(a) <= a.hi)
                for x in a.data[1]: self._lb(x, out, seen)
            elif a.kind == 'var':
                if a.lo > -INF: out.append(az3(a) >= a.lo)
                if a.hi < INF: out.append(az3(a) <= a.hi)
            elif a.kind in ('div', 'mod'): self._lb(a.data[0], out, seen)
            elif a.kind == 'mul':
                self._lb(a.data[0], out, seen); self._lb(a.data[1], out, seen)
            elif a.kind == 'b2i': self._bounds(a.data[0], out, seen)
    def assert_f(self, f):
        out = []
        self._bounds(f, out, set())
        for o in out: self.s.add(o)
        self.s.add(fz3(f))
    def sync(self, pc):
        # pc: persistent linked list (prev, formula, depth) or None
        path = []
        n = pc
        depth = n[2] if n else 0
        while n is not None and not (len(self.stack) >= n[2] and self.stack[n[2] - 1] is n):
            path.append(n); n = n[0]
        keep = n[2] if n else 0
        while len(self.stack) > keep:
            self.s.pop(); self.stack.pop()
        for x in reversed(path):
            self.s.push(); self.assert_f(x[1]); self.stack.append(x)
    def check(self, pc, *extra):
        self.sync(pc)
        t = time.time()
        self.s.push()
        for f in extra:
            self.assert_f(f)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.stats['queries'] += 1
        dt = time.time() - t
        self.stats['time'] += dt
        if r == z3.unknown:
            # one retry with a fresh solver
            s = z3.Solver(); s.set('timeout', self.timeout * 2)
            n = pc
            fs = list(extra)
            while n is not None:
                fs.append(n[1]); n = n[0]
            out = []; seen = set()
            for f in fs: self._bounds(f, out, seen)
            for o in out: s.add(o)
            for f in fs: s.add(fz3(f))
            r = s.check()
            self.model = s.model() if r == z3.sat else None
            self.stats['time'] += time.time() - t - dt
        return r

# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'idx', 'ret', 'allocas')
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.env = dict(self.env); f.block = self.block; f.prev = self.prev; f.idx = self.idx; f.ret = self.ret
        f.allocas = self.allocas
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'bounds', 'dead', 'exc', 'inputs', 'done', 'covers', 'trail', 'allocs', 'caught', 'cnt', 'ksub', 'failat', 'fr')
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = None; self.bounds = {}; self.dead = frozenset(); self.exc = None
        self.inputs = (); self.done = None; self.covers = frozenset(); self.trail = (); self.allocs = (); self.caught = (); self.cnt = {}; self.ksub = (); self.failat = None; self.fr = None
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = self.pc; s.bounds = dict(self.bounds); s.dead = self.dead; s.exc = self.exc
        s.inputs = self.inputs; s.done = self.done; s.covers = self.covers; s.trail = self.trail; s.allocs = self.allocs; s.caught = self.caught
        s.cnt = dict(self.cnt); s.ksub = self.ksub; s.failat = self.failat; s.fr = self.fr
        return s
    def pclist(self):
        out = []; n = self.pc
        while n is not None: out.append(n[1]); n = n[0]
        return out[::-1]

class Obligation:
    __slots__ = ('label', 'status', 'model', 'inputs', 'pc', 'goal', 'how', 'kind', 'secs')
    def __init__(self, label, kind):
        self.label = label; self.kind = kind; self.status = None; self.model = None; self.inputs = (); self.pc = None; self.goal = None
        self.how = ''; self.secs = 0.0

EXC_BASES = {
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
}

class LoopInfo:
    __slots__ = ('header', 'blocks', 'latches')

def find_loops(fn):
    """natural loops by header; raises ToolLimit on irreducible control flow"""
    if hasattr(fn, 'loops'): return fn.loops
    order = []; seen = set()
    # iterative dfs postorder
    st = [(fn.entry, iter(fn.blocks[fn.entry].succ))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(fn.blocks[s].succ)))
                break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in fn.blocks[b].succ: preds[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if num[s] <= num[b]:
                if not dom(s, b): raise ToolLimit('irreducible control flow in ' + fn.name)
                L = loops.get(s)
                if L is None:
                    L = LoopInfo(); L.header = s; L.blocks = {s}; L.latches = []
                    loops[s] = L
                L.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x)
                    work.extend(preds[x])
    fn.loops = loops
    return loops

class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.lay = ir.Layout(mod)
        self.opts = opts or {}
        self.stats = {'queries': 0, 'time': 0.0, 'paths': 0, 'loops': 0, 'unrolled': 0, 'bounded': 0}
        self.ctx = Ctx(self.opts.get('timeout', 20000), self.stats)
        self.obls = []
        self.globs = {}
        self.frozen = set()     # memory nodes at the start of a loop iteration under summary
        self.quiet = 0          # >0: obligations not recorded (discovery)
        self.gmem = {}
        self.steps = 0
        self.bound = self.opts.get('bound')       # bounded fallback: unroll limit
        self.notes = []
        self.deadline = self.opts.get('deadline')
        self.contracts = {}
        self.assumed = set()
        self.seed_objs = 0
        self.rangecache = {}
        self.covers = set()
        self.fncalls = set()

    # ---------------------------------------------------------- bounds
    def batom(self, st, a):
        b = st.bounds.get(a.id)
        if b is not None: return b
        k = a.kind
        if k == 'var' or k == 'b2i': return (a.lo, a.hi)
        if k == 'uf': return (a.lo, a.hi)
        if k == 'div':
            lo, hi = self.blin(st, a.data[0]); c = a.data[1]
            return (lo // c if lo > -INF else -INF, hi // c if hi < INF else INF)
        if k == 'mod':
            return (0, a.data[1] - 1)
        if k == 'mul':
            l1, h1 = self.blin(st, a.data[0]); l2, h2 = self.blin(st, a.data[1])
            if -INF in (l1, l2) or INF in (h1, h2): return (-INF, INF)
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return (min(ps), max(ps))
        return (-INF, INF)
    def blin(self, st, l):
        lo = hi = l.c
        for a, k in l.t:
            al, ah = self.batom(st, a)
            if k < 0: al, ah = ah, al
            if lo > -INF:
                lo = -INF if abs(al) >= INF else lo + k * al
            if hi < INF:
                hi = INF if abs(ah) >= INF else hi + k * ah
        return lo, hi
    def fbool(self, st, f):
        """cheap three-valued evaluation using intervals"""
        if f is True or f is False: return f
        k = f[0]
        if k == 'le':
            lo, hi = self.blin(st, f[1])
            if hi <= 0: return True
            if lo > 0: return False
            return None
        if k in ('eq', 'ne'):
            lo, hi = self.blin(st, f[1])
            if lo > 0 or hi < 0: return k == 'ne'
            if lo == hi == 0: return k == 'eq'
            return None
        if k == 'and':
            r = True
            for x in f[1:]:
                v = self.fbool(st, x)
                if v is False: return False
                if v is None: r = None
            return r
        if k == 'or':
            r = False
            for x in f[1:]:
                v = self.fbool(st, x)
                if v is True: return True
                if v is None: r = None
            return r
        return None

    def assume(self, st, f):
        if f is True: return
        if f is not False and f[0] == 'and':
            for x in f[1:]: self.assume(st, x)
            return
        if f is not False and self.fbool(st, f) is True and f[0] == 'le' and len(f[1].t) == 1 and False:
            return
        d = st.pc[2] if st.pc else 0
        st.pc = (st.pc, f, d + 1)
        if f is False: return
        self.refine(st, f)
    def refine(self, st, f):
        k = f[0]
        if k not in ('le', 'eq', 'ne'): return
        l = f[1]
        if k == 'ne':
            if len(l.t) == 1:
                a, c = l.t[0]
                if l.c % c == 0:
                    v = -l.c // c
                    lo, hi = self.batom(st, a)
                    if v == lo: st.bounds[a.id] = (lo + 1, hi)
                    elif v == hi: st.bounds[a.id] = (lo, hi - 1)
            return
        # sum k_i a_i + c <= 0  (and >= for eq): refine each atom given others' bounds
        for sign in ((1,) if k == 'le' else (1, -1)):
            c0 = l.c * sign
            terms = [(a, kk * sign) for a, kk in l.t]
            los = []
            for a, kk in terms:
                al, ah = self.batom(st, a)
                v = al if kk > 0 else ah
                los.append(None if abs(v) >= INF else kk * v)
            tot = sum(x for x in los if x is not None) + c0
            nn = sum(1 for x in los if x is None)
            for i, (a, kk) in enumerate(terms):
                if nn == 0: rest = tot - los[i]
                elif nn == 1 and los[i] is None: rest = tot
                else: continue
                # kk*a + rest <= 0
                al, ah = self.batom(st, a)
                if kk > 0:
                    ub = (-rest) // kk
                    if ub < ah: st.bounds[a.id] = (al, ub)
                else:
                    lb = -((-rest) // (-kk))
                    if lb > al: st.bounds[a.id] = (lb, ah)

    def feasible(self, st, *fs):
        fs2 = []
        for f in fs:
            v = self.fbool(st, f)
            if v is False: return False
            if v is None: fs2.append(f)
        r = self.ctx.check(st.pc, *fs2)
        return r != z3.unsat
    def proves(self, st, f):
        v = self.fbool(st, f)
        if v is True: return True
        if v is False:
            pass
        r = self.ctx.check(st.pc, f_not(f))
        if r == z3.unsat: return True
        if r == z3.unknown: raise ToolLimit('solver gave up (internal query)')
        return False
    def split(self, st, f):
        """returns (true_state or None, false_state or None)"""
        v = self.fbool(st, f)
        if v is True: return st, None
        if v is False: return None, st
        rt = self.ctx.check(st.pc, f)
        if rt == z3.unsat: 
            return None, st
        nf = f_not(f)
        rf = self.ctx.check(st.pc, nf)
        if rf == z3.unsat:
            return st, None
        s2 = st.fork()
        self.assume(st, f); self.assume(s2, nf)
        return st, s2

    # ---------------------------------------------------------- obligations
    def oblige(self, st, f, label, kind):
        if self.quiet:
            return True
        o = Obligation(label, kind)
        self.obls.append(o)
        v = self.fbool(st, f)
        if v is True:
            o.status = 'discharged'; o.how = 'interval'
            return True
        t = time.time()
        r = self.ctx.check(st.pc, f_not(f))
        o.secs = time.time() - t
        if r == z3.unsat:
            o.status = 'discharged'; o.how = 'z3'
            if self.opts.get('dump') is not None and len(self.opts['dump']) < self.opts.get('dumpmax', 400):
                self.opts['dump'].append((label, self.smt2(st, f)))
            return True
        if r == z3.unknown:
            o.status = 'unknown'
            return False
        o.status = 'refuted'
        o.inputs = self.shrink(st, f_not(f), self.eval_inputs(st, self.ctx.model))
        o.goal = str(f); 
        o.pc = [str(x) for x in st.pclist()][-40:]
        return False
    def smt2(self, st, goal):
        s = z3.Solver()
        out = []; seen = set()
        fs = st.pclist() + [f_not(goal)]
        for f in fs: self.ctx._bounds(f, out, seen)
        for x in out: s.add(x)
        for f in fs: s.add(fz3(f))
        return s.to_smt2()
    def shrink(self, st, nf, inputs):
        """a counterexample with small input values, so that it can be replayed natively"""
        self.shrunk = getattr(self, 'shrunk', 0) + 1
        if self.shrunk > 4: return inputs
        t = time.time(); acc = []
        for lab, l, kind in st.inputs:
            if not isinstance(l, Lin) or not l.t: continue
            for b in (4, 40, 300, 70000):
                if time.time() - t > 6: return inputs
                cur = dict((x[0], x[1]) for x in inputs).get(lab, 0)
                if cur <= b and cur >= -b: acc += [f_leq(l, const(b)), f_leq(const(-b), l)]; break
                c = [f_leq(l, const(b)), f_leq(const(-b), l)]
                if self.ctx.check(st.pc, nf, *(acc + c)) == z3.sat:
                    acc += c; inputs = self.eval_inputs(st, self.ctx.model); break
        return inputs
    def eval_inputs(self, st, model):
        out = []
        for lab, l, kind in st.inputs:
            if isinstance(l, Lin):
                v = model.eval(l.z3(), model_completion=True)
                try: v = v.as_long()
                except Exception: v = 0
                if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0: v = max(l.t[0][0].lo, min(l.t[0][0].hi, v))
                out.append((lab, v, kind))
        return out

    # ---------------------------------------------------------- integer helpers
    def signed(self, st, v, n):
        """list of (state, Lin in signed range)"""
        lo, hi = self.blin(st, v)
        h = M(n - 1)
        if lo >= -h and hi < h: return [(st, v)]
        if hi < M(n) and lo >= -h:
            a, b = self.split(st, f_lt(v, const(h)))
            out = []
            if a is not None: out.append((a, v))
            if b is not None: out.append((b, v - M(n)))
            return out
        raise ToolLimit('signed range')
    def unsigned(self, st, v, n):
        lo, hi = self.blin(st, v)
        if lo >= 0 and hi < M(n): return [(st, v)]
        if lo >= -M(n - 1) and hi < M(n):
            a, b = self.split(st, f_leq(ZERO, v))
            out = []
            if a is not None: out.append((a, v))
            if b is not None: out.append((b, v + M(n)))
            return out
        raise ToolLimit('unsigned range')
    def norm(self, st, v, n):
        """bring a raw result into representable range; list of (state, Lin)"""
        lo, hi = self.blin(st, v)
        if lo >= -M(n - 1) and hi < M(n): return [(st, v)]
        # ask solver: in signed or unsigned range?
        if v.is_const():
            c = v.c % M(n)
            if c >= M(n - 1) and lo < 0: c -= M(n)
            return [(st, const(c))]
        work = [(st, v)]
        out = []
        cnt = 0
        while work:
            cnt += 1
            if cnt > 12: raise ToolLimit('wrap-around with too many cases')
            s, x = work.pop()
            a, b = self.split(s, f_lt(x, const(M(n))))
            if b is not None: work.append((b, x - M(n)))
            if a is not None:
                a, b = self.split(a, f_leq(const(-M(n - 1)), x))
                if b is not None: work.append((b, x + M(n)))
                if a is not None:
                    # remember range for the expression as a whole
                    out.append((a, self.ranged(a, x, n)))
        return out
    def ranged(self, st, x, n):
        """x is known (by pc) to be in [-2^(n-1), 2^n): expose that to interval analysis"""
        lo, hi = self.blin(st, x)
        if lo >= -M(n - 1) and hi < M(n): return x
        # introduce alias variable with bounds, equal to x
        a = fresh('r', -M(n - 1), M(n) - 1)
        self.assume(st, f_eqq(lin(a), x))
        return lin(a)

    def cmp(self, st, pred, a, b, n):
        """formula for icmp on Lins (no forking)"""
        if pred == 'eq' or pred == 'ne':
            lo1, hi1 = self.blin(st, a); lo2, hi2 = self.blin(st, b)
            d = a - b
            if min(lo1, lo2) >= 0 or (max(hi1, hi2) < M(n - 1)):
                f = f_eq(d)
            else:
                f = f_or(f_eq(d), f_eq(d - M(n)), f_eq(d + M(n)))
            return f if pred == 'eq' else f_not(f)
        s = pred[0] == 's'
        def cases(v):
            lo, hi = self.blin(st, v)
            if s:
                if hi < M(n - 1): return [(True, v)]
                if lo >= M(n - 1): return [(True, v - M(n))]
                return [(f_lt(v, const(M(n - 1))), v), (f_leq(const(M(n - 1)), v), v - M(n))]
            if lo >= 0: return [(True, v)]
            if hi < 0: return [(True, v + M(n))]
            return [(f_leq(ZERO, v), v), (f_lt(v, ZERO), v + M(n))]
        op = pred[1:]
        out = []
        for c1, x in cases(a):
            for c2, y in cases(b):
                if op == 'lt': g = f_lt(x, y)
                elif op == 'le': g = f_leq(x, y)
                elif op == 'gt': g = f_lt(y, x)
                else: g = f_leq(y, x)
                out.append(f_and(c1, c2, g))
        return f_or(*out)

    # ---------------------------------------------------------- operands
    def glob(self, st, name):
        if name in self.globs: return self.globs[name]
        if name in self.mod.funcs or name in self.mod.decls:
            v = FnPtr(name)
        else:
            txt = self.mod.globals.get(name)
            if txt is None: raise ToolLimit('unknown global ' + name)
            toks = ir.tokenize(txt)
            p = ir.P(toks, self.mod)
            isconst = False
            ext = False
            tls = False
            while p.peek()[1] not in ('global', 'constant', 'alias'):
                w = p.next()[1]
                if w == 'external': ext = True
                if w == 'thread_local': tls = True
                if w == 'comdat' and p.peek()[1] == '(' : p.skip_parens()
            kw = p.next()[1]
            if kw == 'alias':
                t = p.type(); p.expect(','); t2 = p.type(); val = p.value(t2)
                v = self.operand(st, None, t2, val)
                self.globs[name] = v
                return v
            ty = p.type()
            if ext or p.eof() or p.peek()[1] == ',' :
                o = Obj(name, const(8), 'tls' if tls else 'global')
                self.gmem[o] = Base('undef', name)
            else:
                o = Obj(name, const(self.lay.size(ty)), 'const' if kw == 'constant' else ('tls' if tls else 'global'))
                init = p.value(ty)
                node = Base('undef', name)
                self.globs[name] = Ptr(o, ZERO)
                for off, sz, val in self.flatten(st, ty, init, 0):
                    node = Store(node, const(off), sz, val)
                self.gmem[o] = node
                o.init = init
            v = Ptr(o, ZERO)
        self.globs[name] = v
        return v
    def flatten(self, st, ty, init, off):
        ty = self.lay.res(ty)
        if ty[0] == 'struct':
            out = []
            for i in range(len(ty[1])):
                o, t = self.lay.field(ty, i)
                out += self.flatten(st, t, init if init[0] in ('zero', 'undef') else init[1][i][1], off + o)
            return out
        if ty[0] == 'arr':
            n = ty[1]; es = self.lay.size(ty[2])
            if init[0] == 'cstr':
                return [(off + i, 1, const(b)) for i, b in enumerate(init[1])]
            if n > 4096: raise ToolLimit('large global')
            out = []
            for i in range(n):
                out += self.flatten(st, ty[2], init if init[0] in ('zero', 'undef') else init[1][i][1], off + i * es)
            return out
        v = self.operand(st, None, ty, init)
        return [(off, self.lay.size(ty), v)]

    def operand(self, st, env, ty, v):
        k = v[0]
        if k == 'loc':
            r = env.get(v[1])
            if r is None: raise ToolLimit('undefined SSA value ' + v[1])
            return r
        if k == 'int':
            if ty == ir.I1: return bool(v[1] & 1)
            return const(v[1])
        if k == 'fp': return FV('bits', const(v[1]), None, v[2])
        if k == 'null': return Ptr(NULL, ZERO)
        if k in ('undef', 'poison'): return self.undef(ty)
        if k == 'zero':
            t = self.lay.res(ty)
            if t[0] == 'int': return const(0) if t != ir.I1 else False
            if t[0] == 'ptr': return Ptr(NULL, ZERO)
            if t[0] in ('float', 'double'): return FV('bits', ZERO, None, 32 if t[0] == 'float' else 64)
            if t[0] == 'vec' or t[0] == 'arr': return tuple(self.operand(st, env, t[2], v) for _ in range(t[1]))
            if t[0] == 'struct': return tuple(self.operand(st, env, x, v) for x in t[1])
        if k == 'glob': return self.glob(st, v[1])
        if k == 'agg': return tuple(self.operand(st, env, t, x) for t, x in v[1])
        if k == 'cgep':
            b = self.operand(st, env, v[2][0][0], v[2][0][1])
            off = self.lay.gep_const(v[1], [x[1][1] for x in v[2][1:]])
            return Ptr(b.obj, b.off + off)
        if k == 'ccast':
            x = self.operand(st, env, v[2], v[3])
            if v[1] == 'inttoptr' and isinstance(x, Lin) and x.is_const(): return Ptr(NULL, x)
            raise ToolLimit('constant cast')
        if k == 'meta': return None
        if k == 'none': return None
        raise ToolLimit('operand ' + str(v))
    def undef(self, ty):
        t = self.lay.res(ty)
        if t[0] == 'int':
            if t[1] == 1: return UNDEF
            return lin(fresh('undef', -M(t[1] - 1), M(t[1]) - 1))
        if t[0] in ('vec', 'arr'): return tuple(self.undef(t[2]) for _ in range(t[1]))
        if t[0] == 'struct': return tuple(self.undef(x) for x in t[1])
        if t[0] in ('float', 'double'):
            n = 32 if t[0] == 'float' else 64
            return FV('bits', lin(fresh('undef', 0, M(n) - 1)), None, n)
        return UNDEF

    # ---------------------------------------------------------- memory
    def node(self, st, obj):
        n = st.mem.get(obj)
        if n is None:
            n = self.gmem.get(obj)
            if n is None: raise ToolLimit('object without memory ' + str(obj))
        return n
    def newobj(self, st, name, size, kind, base='undef', align=1):
        o = Obj(name, size, kind, align)
        st.mem[o] = Base(base, '%s_%d' % (name, o.id))
        return o
    def shadow(self, st, obj):
        """ghost object lifetime map of obj (1 = alive)"""
        if obj.shadow is None:
            obj.shadow = Obj('alive:' + obj.name, obj.size, 'ghost')
            obj.shadow.owner = obj
        if obj.shadow not in st.mem:
            st.mem[obj.shadow] = Base('zero')
        return obj.shadow
    def inbounds(self, st, ptr, size, what):
        o = ptr.obj
        if o is NULL:
            return self.oblige(st, False, 'no-null-deref ' + what, 'safety')
        if o is WILD: raise ToolLimit('access through a pointer of unknown provenance: ' + what)
        if o in st.dead:
            return self.oblige(st, False, 'no-use-after-release ' + what, 'safety')
        if o.kind == 'ghost': return True
        sz = size if isinstance(size, Lin) else const(size)
        f = f_and(f_leq(ZERO, ptr.off), f_leq(ptr.off + sz, o.size))
        return self.oblige(st, f, 'in-bounds ' + what, 'safety')

    def framed(self, st, ptr, size, write, what):
        """frame condition of the operation under contract (vc_frame_begin .. vc_frame_end)"""
        o = ptr.obj
        if o.kind == 'ghost' or o is NULL or o is WILD or o.kind == 'const': return
        mark, frozen, writable, limited, readable, guarded = st.fr
        # shared with other threads: everything that outlives the operation, except automatic and thread local objects
        shared = o.kind == 'global' or (o.id <= mark and o.kind not in ('stack', 'tls'))
        sz = size if isinstance(size, Lin) else const(size)
        if guarded and o.kind == 'global': return     # initialisation of a static object, serialised by the implementation
        if write:
            spots = [(a, n) for b, a, n in frozen if b is o]
            if not shared and not spots: return
        else:
            if o not in limited: return
            spots = []
        inside = [f_and(f_leq(a, ptr.off), f_leq(ptr.off + sz, a + n)) for b, a, n in writable + (() if write else readable) if b is o]
        if not shared or not write:
            if spots: inside.append(f_and(*[f_or(f_leq(ptr.off + sz, a), f_leq(a + n, ptr.off)) for a, n in spots]))
        f = inside[0] if len(inside) == 1 else (f_or(*inside) if inside else False)
        self.oblige(st, f, 'writes only its own results' if write else 'reads only the addressed cells', 'frame')

    def write(self, st, ptr, size, val):
        if val is None: raise ToolLimit('store of nothing')
        n = self.node(st, ptr.obj)
        if ptr.off.is_const() and n.allconst and n.n:
            # drop an overwritten identical cell to keep chains short
            x = n; depth = 0
            while x is not None and not isinstance(x, Base):
                if x in self.frozen: x = None; break
                if x.off == ptr.off and x.size == size:
                    break
                x = x.prev; depth += 1
            if x is not None and not isinstance(x, Base) and depth < 200:
                stack = []
                y = n
                while y is not x: stack.append(y); y = y.prev
                cur = x.prev
                if cur is None or True:
                    for z in reversed(stack): cur = Store(cur, z.off, z.size, z.val)
                    n = cur
        st.mem[ptr.obj] = Store(n, ptr.off, size, val)

    def read(self, st, obj, off, size):
        """list of (state, raw value)"""
        if obj.kind == 'null': return [(st, UNDEF)]
        out = []
        work = [(st, self.node(st, obj), off, obj)]
        while work:
            s, n, o, ob = work.pop()
            while True:
                if isinstance(n, Store):
                    d = o - n.off
                    if d.is_const():
                        if d.c == 0 and n.size == size:
                            out.append((s, n.val)); break
                        if d.c >= n.size or d.c <= -size:
                            n = n.prev; continue
                        out.append((s, self.partial(s, n, d.c, size, ob, o))); break
                    ov = f_and(f_lt(d, const(n.size)), f_lt(const(-size), d))
                    v = self.fbool(s, ov)
                    if v is False: n = n.prev; continue
                    if not self.feasible(s, ov): n = n.prev; continue
                    if n.size != size or self.feasible(s, ov, f_ne(d)):
                        raise ToolLimit('possible partial overlap (store) %s[%s] vs %s size %d/%d' % (ob, o, n.off, size, n.size))
                    a, b = self.split(s, f_eq(d))
                    if b is not None: work.append((b, n.prev, o, ob))
                    if a is not None: out.append((a, n.val))
                    break
                elif isinstance(n, (Copy, Fill, Havoc)):
                    d = o - n.off
                    inside = f_and(f_leq(ZERO, d), f_leq(d + size, n.len))
                    outside = f_or(f_leq(d + size, ZERO), f_leq(n.len, d))
                    vo = self.fbool(s, outside)
                    if vo is True: n = n.prev; continue
                    vi = self.fbool(s, inside)
                    if vi is not True:
                        if not self.feasible(s, inside):
                            if self.feasible(s, f_not(outside)): raise ToolLimit('partial overlap with a range write')
                            n = n.prev; continue
                        if self.feasible(s, f_not(inside), f_not(outside)):
                            raise ToolLimit('possible partial overlap with a range write')
                        a, b = self.split(s, inside)
                        if b is not None: work.append((b, n.prev, o, ob))
                        if a is None: break
                        s = a
                    if isinstance(n, Copy):
                        o = n.soff + d; ob = n.sobj; n = n.snode
                        continue
                    if isinstance(n, Fill):
                        b = n.byte
                        if isinstance(b, Lin) and b.is_const():
                            bb = b.c & 255
                            out.append((s, const(sum(bb << (8 * i) for i in range(size)))))
                        else: raise ToolLimit('memset with symbolic byte')
                        break
                    out.append((s, mk_uf('h%s_%d' % (n.tag, size), [o], 0, M(8 * size) - 1)))
                    break
                elif isinstance(n, Family):
                    for s2, hit in self.read_family(s, n, o, size, ob):
                        if hit is None: work.append((s2, n.prev, o, ob))
                        elif hit[0] == 'val': out.append((s2, hit[1]))
                        else: work.append((s2, hit[1], hit[2], hit[3]))
                    break
                else:   # Base
                    if n.kind == 'zero': out.append((s, const(0)))
                    elif n.kind == 'havoc': out.append((s, mk_uf('h%s_%d' % (n.tag, size), [o], 0, M(8 * size) - 1)))
                    else: out.append((s, mk_uf('u%s_%d' % (n.tag, size), [o], 0, M(8 * size) - 1)))
                    break
        return out

    def partial(self, s, n, d, size, ob, o):
        v = n.val
        if isinstance(v, FV) and v.kind == 'bits': v = v.a
        if isinstance(v, Lin) and 0 <= d and d + size <= n.size:
            w = mk_mod(v, M(8 * n.size)) if not v.is_const() else const(v.c % M(8 * n.size))
            return mk_mod(mk_div(w, M(8 * d)), M(8 * size))
        if isinstance(v, Lin) or isinstance(v, Ptr) or v is UNDEF:
            # assemble byte by byte when all parts are plain integers
            if size > 1 and size <= 16:
                val = ZERO
                for i in range(size):
                    r = self.read(s, ob, o + i, 1)
                    if len(r) != 1 or not isinstance(r[0][1], Lin): raise ToolLimit('partial overlap')
                    b = r[0][1]
                    val = val + mk_mod(b, 256).scale(M(8 * i))
                return val
        raise ToolLimit('partial overlap with a store')

    def leaves(self, F):
        """flatten nested families: [(iters [(atom,count)], guard, node)] in program order"""
        out = []
        for g, ns in F.alts:
            for x in ns:
                if isinstance(x, Family):
                    for it, g2, leaf in self.leaves(x):
                        out.append(([(F.var, F.count)] + it, f_and(g, g2), leaf))
                else:
                    out.append(([(F.var, F.count)], g, x))
        return out

    def read_family(self, st, F, off, size, ob):
        """list of (state, None | ('val',v) | ('chain',node,off,obj))"""
        leaves = self.leaves(F)
        res = []
        cur = st
        lv = list(enumerate(leaves))
        # interval prefilter
        cand = []
        for i, (iters, guard, node) in lv:
            nlen = const(node.size) if isinstance(node, Store) else node.len
            tmp = State(); tmp.bounds = dict(cur.bounds)
            dead = False
            for a, c in iters:
                lo, hi = self.blin(tmp, c)
                if hi <= 0: dead = True
                tmp.bounds[a.id] = (0, hi - 1 if hi < INF else INF)
            if dead: continue
            d = off - node.off
            ov = f_and(f_lt(d, nlen), f_lt(const(-size), d))
            if self.fbool(tmp, ov) is False: continue
            cand.append((i, iters, guard, node, nlen))
        residual = []
        for ci, (i, iters, guard, node, nlen) in enumerate(cand):
            if cur is None: break
            # skolem copies of the iteration variables
            sk = {}
            rng = []
            for a, c in iters:
                b = fresh('sk_' + a.name.split('!')[0])
                sk[a.id] = lin(b)
            for a, c in iters:
                cc = lsubst(c, sk)
                rng += [f_leq(ZERO, sk[a.id]), f_lt(sk[a.id], cc)]
            soff = lsubst(node.off, sk); slen = lsubst(nlen, sk)
            sd = off - soff
            ov = f_and(f_lt(sd, slen), f_lt(const(-size), sd), fsubst(guard, sk), *rng)
            if not self.feasible(cur, ov): continue
            exact = f_eq(sd) if isinstance(node, Store) else f_and(f_leq(ZERO, sd), f_leq(sd + size, slen))
            if (isinstance(node, Store) and node.size != size) or self.feasible(cur, ov, f_not(exact)):
                cur = self.skip_partial(cur, off, iters, guard, node, nlen, size)
                if cur is None: break
                if not self.feasible(cur, ov): continue
            hits = None
            weaks = []
            for t in self.decode(cur, off, iters, node):
                m = {a.id: x for (a, c), x in zip(iters, t)}
                hit = [fsubst(guard, m)]
                for (a, c), x in zip(iters, t):
                    hit += [f_leq(ZERO, x), f_lt(x, lsubst(c, m))]
                d = off - lsubst(node.off, m)
                hit.append(f_eq(d) if isinstance(node, Store) else f_and(f_leq(ZERO, d), f_leq(d + size, lsubst(nlen, m))))
                H = f_and(*hit)
                # in the miss case nothing is written there
                if self.feasible(cur, f_not(H), ov):
                    weaks.append((H, m)); continue
                hits = [(H, m)]
                break
            if hits is None:
                # existential witness on the hit side, exact only if a miss is impossible or hit is certain
                w = self.unique_witness(cur, off, iters, guard, node, nlen, size, ov, sk)
                if w is not None: hits = [w]
                else:
                    # each candidate on its own; what none of them covers must not be written by this loop
                    hits = weaks; residual.append(ov)
            for H, m in hits:
                if cur is None: break
                a, b = self.split(cur, H)
                cur = b
                if a is None: continue
                new = node.rebuild(None, m)
                if not (isinstance(node, Store) and vvars(node.val).isdisjoint({x.id for x, _ in iters})):
                    # the iteration found is the last one that writes here
                    if self.feasible(a, ov, f_not(self.lexless(iters, iters, sk, m, None))):
                        raise ToolLimit('loop writes the same place in several iterations')
                # no other leaf may have written it afterwards
                for (j, it2, g2, nd2, nl2) in cand:
                    if j == i: continue
                    sk2 = {}
                    r2 = []
                    for x, c in it2:
                        sk2[x.id] = lin(fresh('sk2'))
                    for x, c in it2:
                        r2 += [f_leq(ZERO, sk2[x.id]), f_lt(sk2[x.id], lsubst(c, sk2))]
                    d2 = off - lsubst(nd2.off, sk2)
                    ov2 = f_and(f_lt(d2, lsubst(nl2, sk2)), f_lt(const(-size), d2), fsubst(g2, sk2), *r2)
                    if self.feasible(a, ov2, f_not(self.lexless(it2, iters, sk2, m, j < i))):
                        raise ToolLimit('two loop writes overlap')
                if isinstance(new, Store): res.append((a, ('val', new.val)))
                elif isinstance(new, Copy): res.append((a, ('chain', new.snode, new.soff + (off - new.off), new.sobj)))
                elif isinstance(new, Fill):
                    bb = new.byte.c & 255
                    res.append((a, ('val', const(sum(bb << (8 * q) for q in range(size))))))
                else: res.append((a, ('val', mk_uf('h%s_%d' % (new.tag, size), [off], 0, M(8 * size) - 1))))
        if cur is not None:
            for ov in residual:
                if self.feasible(cur, ov): raise ToolLimit('cannot locate the loop iteration that wrote %s[%s]' % (ob, off))
            res.append((cur, None))
        return res

    def skip_partial(self, cur, off, iters, guard, node, nlen, size):
        """leave out the part of the path on which a read overlaps with a loop write, but not exactly. The harness
        cannot be proved any more, but violations on the rest of the path can still be found"""
        msg = 'possible partial overlap with a loop write'
        if getattr(self, 'nest', 1) or len(iters) != 1 or guard is not True or not isinstance(node, Store): raise ToolLimit(msg)
        a, c = iters[0]
        st = node.off.coef(a)
        base = node.off.without(a)
        if st <= 0 or a.id in base.vars() or a.id in c.vars(): raise ToolLimit(msg)
        D = off - base
        # iterations lo .. hi would overlap
        lo, hi = mk_div(D - node.size, st) + 1, mk_div(D + size - 1, st)
        none = f_or(f_lt(hi, lo), f_lt(hi, ZERO), f_leq(c, lo))
        q = mk_div(D, st)
        exact = f_and(f_eqq(q.scale(st), D), f_leq(ZERO, q), f_lt(q, c)) if node.size == size and st >= size else False
        x, y = self.split(cur, f_or(exact, none))
        self.soft = msg
        return x

    def lexless(self, it2, it1, s2, m1, ties):
        """iteration s2 of a write comes before iteration m1 of another one (ties: value for equal common prefix;
        None: the same write, equality counts as before)"""
        common = []
        for (x, _), (y, _) in zip(it2, it1):
            if x is not y: break
            common.append(x)
        f = True if ties is None else bool(ties)
        for x in reversed(common):
            a, b = s2[x.id], m1[x.id]
            f = f_or(f_lt(a, b), f_and(f_eqq(a, b), f))
        return f

    def unique_witness(self, cur, off, iters, guard, node, nlen, size, ov, sk):
        """existential witnesses for a hit: usable if a hit is implied by the path condition"""
        # case: single iteration variable with constant stride: q = (off-base) div stride
        if len(iters) != 1: return None
        a, c = iters[0]
        s = node.off.coef(a)
        if s <= 0 or a.id in node.off.without(a).vars(): return None
        D = off - node.off.without(a)
        q = mk_div(D, s)
        m = {a.id: q}
        d = off - lsubst(node.off, m)
        hit = [fsubst(guard, m), f_leq(ZERO, q), f_lt(q, lsubst(c, m)),
               f_eq(d) if isinstance(node, Store) else f_and(f_leq(ZERO, d), f_leq(d + size, lsubst(nlen, m)))]
        H = f_and(*hit)
        if self.feasible(cur, f_not(H), ov): return None
        return H, m

    def decode(self, st, off, iters, node):
        """candidate iteration tuples for which node writes off (greedy stride decomposition)"""
        atoms = [a for a, _ in iters]
        ids = {a.id for a in atoms}
        strides = []
        base = node.off
        for a in atoms:
            k = node.off.coef(a)
            base = base.without(a)
            strides.append(k)
        if not base.vars().isdisjoint(ids): return
        D = off - base
        if not isinstance(node, Store): pass
        orders = sorted(range(len(atoms)), key=lambda i: -abs(strides[i]))
        seen = set()
        for rounding in ('trunc', 'floor', 'ceil'):
            t = [None] * len(atoms)
            rem = D
            for i in orders:
                s = strides[i]
                if s == 0:
                    t[i] = iters[i][1] - 1     # last iteration wins
                    continue
                q = [(a, k // s) for a, k in rem.t if k % s == 0]
                r = [(a, k) for a, k in rem.t if k % s != 0]
                c = rem.c
                if rounding == 'trunc': qc = int(Fraction(c, s)) if c * s >= 0 else -int(Fraction(-c, s))
                elif rounding == 'floor': qc = c // s
                else: qc = -((-c) // s)
                # do not let a big stride swallow terms that only a constant multiple explains
                t[i] = Lin(qc, tuple(q))
                rem = Lin(c - qc * s, tuple(r))
            key = tuple(t)
            if key in seen: continue
            seen.add(key)
            yield t
        # second strategy: match bounded digits, smallest stride takes what fits its range
        t = [None] * len(atoms)
        rem = D
        for i in orders:
            s = strides[i]
            if s == 0:
                t[i] = iters[i][1] - 1; continue
            q = mk_div(rem, abs(s))
            if s < 0: q = -q
            t[i] = q
            rem = rem - q.scale(s)
        if tuple(t) not in seen: yield t
