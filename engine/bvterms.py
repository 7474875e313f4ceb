"""Hash-consed bit-vector terms with normalising constructors (SIMD mode).

Floats are their bit patterns; floating point operations are uninterpreted
functions over them (constants are folded with IEEE arithmetic).  The
normaliser is what makes most lane-wise obligations syntactic identities."""
import struct, math
import z3

class T:
    __slots__ = ('op', 'w', 'a', 'id', '_z', '_vars')
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]
def mk(op, w, *a):
    k = (op, w) + tuple(x.id if isinstance(x, T) else ('#', x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a; t._z = None; t._vars = None
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[k] = t
    return t

def const(w, v): return mk('c', w, v & ((1 << w) - 1))
def var(name, w): return mk('v', w, name)
def isc(t): return t.op == 'c'
def cval(t): return t.a[0]
def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v
TRUE = const(1, 1)
FALSE = const(1, 0)
def ones(w): return const(w, -1)

# ---------------------------------------------------------------- linear sums
# ('lin', w, const, ((id, coeff), ...), atoms...)
def lin_parts(t):
    if t.op == 'c': return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], {x: c for x, c in zip(t.a[2:], t.a[1])}
    return 0, {t: 1}
def lin_make(w, k, d):
    m = (1 << w) - 1
    k &= m
    items = sorted(((x, c & m) for x, c in d.items() if c & m), key=lambda p: p[0].id)
    if not items: return const(w, k)
    if k == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk('lin', w, k, tuple(c for x, c in items), *[x for x, c in items])
def add(a, b):
    if a.w == 1: return xor(a, b)
    k1, d1 = lin_parts(a); k2, d2 = lin_parts(b)
    d = dict(d1)
    for x, c in d2.items(): d[x] = d.get(x, 0) + c
    return lin_make(a.w, k1 + k2, d)
def mulc(a, c):
    k, d = lin_parts(a)
    return lin_make(a.w, k * c, {x: y * c for x, y in d.items()})
def neg(a): return mulc(a, -1)
def sub(a, b):
    if a.w == 1: return xor(a, b)
    return add(a, neg(b))
def mul(a, b):
    if isc(a): a, b = b, a
    if isc(b): return mulc(a, cval(b))
    if a.id > b.id: a, b = b, a
    return mk('mul', a.w, a, b)

# ---------------------------------------------------------------- structure
def concat(parts):
    """low part first"""
    out = []
    for p in parts:
        if p.op == 'cat': out.extend(p.a)
        else: out.append(p)
    # fuse constants and adjacent extracts
    r = []
    for p in out:
        if r:
            q = r[-1]
            if isc(q) and isc(p):
                r[-1] = const(q.w + p.w, cval(q) | (cval(p) << q.w)); continue
            if q.op == 'ext' and p.op == 'ext' and q.a[0] is p.a[0] and q.a[1] + q.w == p.a[1]:
                r[-1] = extract(q.a[0], q.a[1], q.w + p.w); continue
        r.append(p)
    if len(r) == 1: return r[0]
    return mk('cat', sum(p.w for p in r), *r)

def extract(t, lo, w):
    if lo == 0 and w == t.w: return t
    o = t.op
    if o == 'c': return const(w, cval(t) >> lo)
    if o == 'ext': return extract(t.a[0], t.a[1] + lo, w)
    if o == 'cat':
        out = []; p = 0
        for x in t.a:
            s = max(lo, p); e = min(lo + w, p + x.w)
            if s < e: out.append(extract(x, s - p, e - s))
            p += x.w
        return concat(out)
    if o in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[o]
        return f(extract(t.a[0], lo, w), extract(t.a[1], lo, w))
    if o == 'ite':
        return ite(t.a[0], extract(t.a[1], lo, w), extract(t.a[2], lo, w))
    if o == 'sext':
        x = t.a[0]
        if lo + w <= x.w: return extract(x, lo, w)
        if lo >= x.w: return sext(extract(x, x.w - 1, 1), w)
        return sext(extract(x, lo, x.w - lo), w)
    if o == 'lin' and lo == 0:
        d = {}
        for x, c in zip(t.a[2:], t.a[1]):
            y = extract(x, 0, w)
            k1, d1 = lin_parts(y)
            for z, cc in d1.items(): d[z] = d.get(z, 0) + cc * c
            d.setdefault('k', 0); d['k'] += k1 * c
        k = d.pop('k', 0) + t.a[0]
        return lin_make(w, k, d)
    if o == 'mul' and lo == 0:
        return mul(extract(t.a[0], 0, w), extract(t.a[1], 0, w))
    return mk('ext', w, t, lo)

def zext(t, w):
    if w == t.w: return t
    return concat([t, const(w - t.w, 0)])
def sext(t, w):
    if w == t.w: return t
    if isc(t): return const(w, sval(t))
    if t.w == 1: return ite(t, ones(w), const(w, 0))
    if t.op == 'ite' and (isc(t.a[1]) or isc(t.a[2])): return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op == 'sext': return sext(t.a[0], w)
    if t.op == 'cat' and isc(t.a[-1]) and not cval(t.a[-1]) >> (t.a[-1].w - 1): return zext(t, w)
    return mk('sext', w, t)

def ite(c, a, b):
    if isc(c): return a if cval(c) else b
    if a is b: return a
    if a.w == 1:
        if isc(a): return or_(c, b) if cval(a) else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if cval(b) else and_(c, a)
    if c.op == 'xor' and isc(c.a[1]): return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if a.op == 'cat' and b.op == 'cat':
        r = split_same(a, b)
        if r: return concat([ite(c, x, y) for x, y in r])
    return mk('ite', a.w, c, a, b)

def split_same(a, b):
    """split two terms at common boundaries if one is a concatenation and the other a concat/constant"""
    def bounds(t):
        s = set(); p = 0
        for x in t.a:
            p += x.w; s.add(p)
        return s
    if a.op == 'cat': s = bounds(a)
    else: s = set()
    if b.op == 'cat': s2 = bounds(b)
    else: s2 = set()
    if a.op == 'cat' and b.op == 'cat':
        if s != s2:
            s = s | s2
    else: s = s | s2
    s.add(a.w)
    out = []; p = 0
    for e in sorted(s):
        out.append((extract(a, p, e - p), extract(b, p, e - p))); p = e
    return out

def not_(a): return xor(a, ones(a.w))

def bitwise(op, f, a, b):
    """shared structure for and/or/xor once trivial cases are gone"""
    if a.op == 'cat' or b.op == 'cat':
        if (a.op == 'cat' or isc(a)) and (b.op == 'cat' or isc(b)):
            return concat([f(x, y) for x, y in split_same(a, b)])
    if a.w > 1:
        if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
            return ite(a.a[0], f(a.a[1], b.a[1]), f(a.a[2], b.a[2]))
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
        if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]): return ite(b.a[0], f(a, b.a[1]), f(a, b.a[2]))
        if isc(b) and a.op == 'ite': return ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
    if a.id > b.id and not isc(b) or isc(a): a, b = b, a
    return mk(op, a.w, a, b)
def const_split(t, b):
    """split t along runs of equal bits of the constant b"""
    v = cval(b); w = t.w; out = []; p = 0
    while p < w:
        bit = v >> p & 1; e = p
        while e < w and (v >> e & 1) == bit: e += 1
        out.append((bit, extract(t, p, e - p))); p = e
    return out
def and_(a, b):
    if isc(a): a, b = b, a
    if isc(b):
        v = cval(b)
        if v == 0: return b
        if v == (1 << a.w) - 1: return a
        if isc(a): return const(a.w, cval(a) & v)
        if a.op != 'ite' :
            return concat([x if bit else const(x.w, 0) for bit, x in const_split(a, b)])
    if a is b: return a
    if a.w == 1:
        if is_not(a, b): return FALSE
        if a.op == 'and' and (a.a[0] is b or a.a[1] is b): return a
        if b.op == 'and' and (b.a[0] is a or b.a[1] is a): return b
    return bitwise('and', and_, a, b)
def or_(a, b):
    if isc(a): a, b = b, a
    if isc(b):
        v = cval(b)
        if v == 0: return a
        if v == (1 << a.w) - 1: return b
        if isc(a): return const(a.w, cval(a) | v)
        if a.op != 'ite':
            return concat([const(x.w, -1) if bit else x for bit, x in const_split(a, b)])
    if a is b: return a
    if a.w == 1:
        if is_not(a, b): return TRUE
    if a.op == 'cat' or b.op == 'cat':
        # concatenations with zero padding (mask assembly): split where the other one is zero
        return concat([x2 for x2 in or_parts(a, b)])
    return bitwise('or', or_, a, b)
def or_parts(a, b):
    s = set()
    for t in (a, b):
        p = 0
        for x in (t.a if t.op == 'cat' else (t,)):
            p += x.w; s.add(p)
    out = []; p = 0
    for e in sorted(s):
        x = extract(a, p, e - p); y = extract(b, p, e - p); p = e
        if x.op == 'cat' or y.op == 'cat': out.append(bitwise('or', or_, x, y) if not (isc(x) or isc(y)) else or_(x, y))
        else: out.append(or_(x, y))
    return out
def xor(a, b):
    if isc(a): a, b = b, a
    if isc(b):
        v = cval(b)
        if v == 0: return a
        if isc(a): return const(a.w, cval(a) ^ v)
        if a.op == 'xor' and isc(a.a[1]): return xor(a.a[0], const(a.w, cval(a.a[1]) ^ v))
        if a.w == 1 and a.op in ('and', 'or') and False: pass
    if a is b: return const(a.w, 0)
    return bitwise('xor', xor, a, b)
def is_not(a, b):
    return (a.op == 'xor' and isc(a.a[1]) and cval(a.a[1]) == (1 << a.w) - 1 and a.a[0] is b) or \
           (b.op == 'xor' and isc(b.a[1]) and cval(b.a[1]) == (1 << b.w) - 1 and b.a[0] is a)

def shl(a, b):
    if isc(b):
        n = cval(b)
        if n >= a.w: return const(a.w, 0)
        return concat([const(n, 0), extract(a, 0, a.w - n)]) if n else a
    return mk('shl', a.w, a, b)
def lshr(a, b):
    if isc(b):
        n = cval(b)
        if n >= a.w: return const(a.w, 0)
        return concat([extract(a, n, a.w - n), const(n, 0)]) if n else a
    return mk('lshr', a.w, a, b)
def ashr(a, b):
    if isc(b):
        n = min(cval(b), a.w - 1)
        return sext(extract(a, n, a.w - n), a.w) if n else a
    return mk('ashr', a.w, a, b)

def eq(a, b):
    if a is b: return TRUE
    if isc(a) and isc(b): return TRUE if cval(a) == cval(b) else FALSE
    if a.w == 1:
        if isc(a): return b if cval(a) else not_(b)
        if isc(b): return a if cval(b) else not_(a)
        return not_(xor(a, b))
    if isc(a): a, b = b, a
    if (a.op == 'cat' and (b.op == 'cat' or isc(b))) or (b.op == 'cat' and isc(a)):
        r = TRUE
        for x, y in split_same(a, b): r = and_(r, eq(x, y))
        return r
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if isc(d): return TRUE if cval(d) == 0 else FALSE
        # move everything to one side
        k, ps = lin_parts(d)
        it = sorted(ps.items(), key=lambda p: p[0].id)
        # common power of two scaling: x*2^n == 0 where x fits
        if len(it) >= 1 and k != 0 or len(it) != 2 or it[0][1] != (-it[1][1]) % (1 << a.w):
            # canonical sign
            if it[0][1] >> (a.w - 1): d = neg(d)
            return mk('eq', 1, d, const(a.w, 0))
        c = it[0][1]
        if c >> (a.w - 1): c = (-c) % (1 << a.w)
        x, y = it[0][0], it[1][0]
        n = (c & -c).bit_length() - 1
        if n and c == (1 << n) and high_zero_or_sext(x, n) and high_zero_or_sext(y, n): c = 1
        if c == 1: return eq(x, y)
        return mk('eq', 1, lin_make(a.w, 0, {x: c, y: -c}), const(a.w, 0))
    if isc(b) and a.op == 'ite':
        if isc(a.a[1]) or isc(a.a[2]): return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    if a.op == 'sext' and isc(b):
        x = a.a[0]
        if sext(extract(b, 0, x.w), a.w) is b: return eq(x, extract(b, 0, x.w))
        return FALSE
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]: return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('eq', 1, a, b)
def high_zero_or_sext(x, n):
    """multiplying by 2^n loses no information"""
    return x.op == 'sext' and x.w - x.a[0].w >= n or x.op == 'cat' and isc(x.a[-1]) and cval(x.a[-1]) == 0 and x.a[-1].w >= n
def ult(a, b):
    if a is b: return FALSE
    if isc(a) and isc(b): return TRUE if cval(a) < cval(b) else FALSE
    if isc(b) and cval(b) == 0: return FALSE
    return mk('ult', 1, a, b)
def slt(a, b):
    if a is b: return FALSE
    if isc(a) and isc(b): return TRUE if sval(a) < sval(b) else FALSE
    return mk('slt', 1, a, b)
def ule(a, b): return not_(ult(b, a))
def sle(a, b): return not_(slt(b, a))
def div(op, a, b):
    if isc(a) and isc(b) and cval(b):
        x, y = (sval(a), sval(b)) if op[0] == 's' else (cval(a), cval(b))
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return const(a.w, q if op.endswith('div') else x - q * y)
    if op[0] == 'u' and isc(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
        n = cval(b).bit_length() - 1
        if op == 'udiv': return lshr(a, const(a.w, n))
        return zext(extract(a, 0, n), a.w) if n else const(a.w, 0)
    return mk(op, a.w, a, b)
def uf(name, w, *args): return mk('uf', w, name, *args)

# ---------------------------------------------------------------- floating point
def f_of(t):
    return struct.unpack('<f' if t.w == 32 else '<d', cval(t).to_bytes(t.w // 8, 'little'))[0]
def f_bits(v, w):
    if w == 32:
        try: return const(32, struct.unpack('<I', struct.pack('<f', v))[0])
        except OverflowError: return const(32, 0x7f800000 if v > 0 else 0xff800000)
    return const(64, struct.unpack('<Q', struct.pack('<d', v))[0])
def fpop(op, a, b):
    w = a.w
    if isc(a) and isc(b):
        x, y = f_of(a), f_of(b)
        if all(math.isfinite(v) for v in (x, y)):
            try:
                v = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                if w == 64 or op != 'fdiv' or True:
                    return f_bits(v, w)     # double rounding is innocuous for float via double
            except (ZeroDivisionError, OverflowError): pass
    if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
    return uf(op, w, a, b)
def fneg(a): return xor(a, const(a.w, 1 << (a.w - 1)))
def fabs_(a): return and_(a, const(a.w, (1 << (a.w - 1)) - 1))
def fexpw(w): return 8 if w == 32 else 11
def isnan(a):
    m = 23 if a.w == 32 else 52
    e = fexpw(a.w)
    if isc(a): return TRUE if f_of(a) != f_of(a) else FALSE
    return mk('isnan', 1, a)
def iszero(a):
    return eq(extract(a, 0, a.w - 1), const(a.w - 1, 0))
def flt(a, b):
    """ordered a < b"""
    if isc(a) and isc(b): return TRUE if f_of(a) < f_of(b) else FALSE
    if a is b: return FALSE
    return mk('flt', 1, a, b)
def feq(a, b):
    if isc(a) and isc(b): return TRUE if f_of(a) == f_of(b) else FALSE
    if a is b: return not_(isnan(a))
    if a.id > b.id: a, b = b, a
    if b.op == 'c' and cval(b) & ((1 << (b.w - 1)) - 1) == 0: return iszero(a)
    if a.op == 'c' and cval(a) & ((1 << (a.w - 1)) - 1) == 0: return iszero(b)
    return mk('feq', 1, a, b)
def fcmp(pred, a, b):
    uno = or_(isnan(a), isnan(b))
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    if pred == 'ord': return not_(uno)
    if pred == 'uno': return uno
    base = pred[1:]
    if pred[0] == 'o':
        if base == 'eq': return feq(a, b)
        if base == 'lt': return flt(a, b)
        if base == 'gt': return flt(b, a)
        if base == 'le': return or_(flt(a, b), feq(a, b))
        if base == 'ge': return or_(flt(b, a), feq(a, b))
        if base == 'ne': return or_(flt(a, b), flt(b, a))
    inv = {'eq': 'one', 'lt': 'oge', 'gt': 'ole', 'le': 'ogt', 'ge': 'olt', 'ne': 'oeq'}[base]
    return not_(fcmp(inv, a, b))

# ---------------------------------------------------------------- z3
class ToZ3:
    """fp='uf': floating point operations uninterpreted; fp='ieee': z3's FP theory"""
    def __init__(self, fp='uf'):
        self.fp = fp; self.m = {}; self.fns = {}; self.side = []; self.nf = 0
    def sort(self, w): return z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53)
    def tofp(self, t): return z3.fpBVToFP(self.go(t), self.sort(t.w))
    def frombits(self, f, w):
        self.nf += 1
        r = z3.BitVec('fpres!%d' % self.nf, w)
        self.side.append(z3.fpBVToFP(r, self.sort(w)) == f)
        return r
    def bool(self, t):
        """1 bit term as z3 Bool"""
        assert t.w == 1
        o = t.op
        if o == 'c': return z3.BoolVal(bool(cval(t)))
        return self.go(t) == 1
    def go(self, t):
        r = self.m.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.m: stack.pop(); continue
            ch = [c for c in x.a if isinstance(c, T) and c.id not in self.m]
            if ch: stack.extend(ch); continue
            self.m[x.id] = self.conv(x); stack.pop()
        return self.m[t.id]
    def b2v(self, b): return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def conv(self, t):
        o = t.op; g = lambda x: self.m[x.id]
        if o == 'c': return z3.BitVecVal(cval(t), t.w)
        if o == 'v': return z3.BitVec(t.a[0], t.w)
        if o == 'lin':
            r = None
            for x, c in zip(t.a[2:], t.a[1]):
                y = g(x) if c == 1 else g(x) * z3.BitVecVal(c, t.w)
                r = y if r is None else r + y
            return r + z3.BitVecVal(t.a[0], t.w) if t.a[0] else r
        if o == 'mul': return g(t.a[0]) * g(t.a[1])
        if o == 'cat': return z3.Concat(*[g(x) for x in reversed(t.a)])
        if o == 'ext': return z3.Extract(t.a[1] + t.w - 1, t.a[1], g(t.a[0]))
        if o == 'sext': return z3.SignExt(t.w - t.a[0].w, g(t.a[0]))
        if o == 'ite': return z3.If(g(t.a[0]) == 1, g(t.a[1]), g(t.a[2]))
        if o == 'and': return g(t.a[0]) & g(t.a[1])
        if o == 'or': return g(t.a[0]) | g(t.a[1])
        if o == 'xor': return g(t.a[0]) ^ g(t.a[1])
        if o == 'shl': return g(t.a[0]) << g(t.a[1])
        if o == 'lshr': return z3.LShR(g(t.a[0]), g(t.a[1]))
        if o == 'ashr': return g(t.a[0]) >> g(t.a[1])
        if o == 'eq': return self.b2v(g(t.a[0]) == g(t.a[1]))
        if o == 'ult': return self.b2v(z3.ULT(g(t.a[0]), g(t.a[1])))
        if o == 'slt': return self.b2v(g(t.a[0]) < g(t.a[1]))
        if o == 'udiv': return z3.UDiv(g(t.a[0]), g(t.a[1]))
        if o == 'urem': return z3.URem(g(t.a[0]), g(t.a[1]))
        if o == 'sdiv': return g(t.a[0]) / g(t.a[1])
        if o == 'srem': return z3.SRem(g(t.a[0]), g(t.a[1]))
        if o == 'isnan': return self.b2v(z3.fpIsNaN(self.zfp(t.a[0])))
        if o == 'flt': return self.b2v(z3.fpLT(self.zfp(t.a[0]), self.zfp(t.a[1])))
        if o == 'feq': return self.b2v(z3.fpEQ(self.zfp(t.a[0]), self.zfp(t.a[1])))
        if o == 'uf':
            n = t.a[0]; args = t.a[1:]
            if self.fp == 'ieee':
                r = self.ieee(n, t.w, args)
                if r is not None: return r
            f = self.fns.get((n, t.w))
            if f is None:
                f = z3.Function('%s_%d' % (n, t.w), *([z3.BitVecSort(x.w) for x in args] + [z3.BitVecSort(t.w)]))
                self.fns[(n, t.w)] = f
            return f(*[g(x) for x in args])
        raise Exception('z3 conversion of ' + o)
    def zfp(self, t): return z3.fpBVToFP(self.m[t.id], self.sort(t.w))
    def ieee(self, n, w, args):
        rm = z3.RNE()
        if n in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.zfp(args[0]), self.zfp(args[1])
            return self.frombits({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[n](rm, x, y), w)
        if n == 'fsqrt': return self.frombits(z3.fpSqrt(rm, self.zfp(args[0])), w)
        if n == 'sitofp': return self.frombits(z3.fpSignedToFP(rm, self.m[args[0].id], self.sort(w)), w)
        if n in ('fpext', 'fptrunc'): return self.frombits(z3.fpFPToFP(rm, self.zfp(args[0]), self.sort(w)), w)
        if n == 'cvtt' : return z3.fpToSBV(z3.RTZ(), self.zfp(args[0]), z3.BitVecSort(w))
        if n == 'cvtn' : return z3.fpToSBV(rm, self.zfp(args[0]), z3.BitVecSort(w))
        return None

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        st.extend(c for c in x.a if isinstance(c, T))

def show(t, d=6):
    o = t.op
    if o == 'c': return '0x%x:%d' % (cval(t), t.w)
    if o == 'v': return t.a[0]
    if d == 0: return '..'
    if o == 'uf': return '%s(%s)' % (t.a[0], ', '.join(show(x, d - 1) for x in t.a[1:]))
    if o == 'ext': return '%s[%d+:%d]' % (show(t.a[0], d - 1), t.a[1], t.w)
    if o == 'lin':
        r = ' + '.join(('%d*' % (c if c >> (t.w - 1) == 0 else c - (1 << t.w)) if c != 1 else '') + show(x, d - 1) for x, c in zip(t.a[2:], t.a[1]))
        return '(%s%s)' % (r, ' + %d' % t.a[0] if t.a[0] else '')
    return '%s(%s)' % (o, ', '.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))
