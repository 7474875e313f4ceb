"""Integer terms: linear expressions over hash-consed atoms, and formulas over them.

Values of iN are mathematical integers; see sym.py for how wrap-around is tracked.
"""
import z3

INF = 1 << 200

class Atom:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', '_z3', 'vars', 'name')
    def __repr__(self):
        return show_atom(self)

_table = {}
_atoms = []

def _mk(kind, data, lo, hi, name=None):
    key = (kind, data)
    a = _table.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms); a.kind = kind; a.data = data; a.lo = lo; a.hi = hi; a._z3 = None; a.name = name
        # the base variables this atom depends on
        if kind == 'var':
            a.vars = frozenset([a.id])
        else:
            v = set()
            for d in data:
                if isinstance(d, Lin): v |= d.vars()
                elif isinstance(d, tuple):
                    if d and isinstance(d[0], Lin):
                        for x in d: v |= x.vars()
                    else: v |= fvars(d)
            a.vars = frozenset(v)
        _atoms.append(a)
        _table[key] = a
    return a

_names = {}
def fresh(name, lo=-INF, hi=INF):
    n = _names.get(name, 0)
    _names[name] = n + 1
    full = name if n == 0 else '%s!%d' % (name, n)
    return _mk('var', (full,), lo, hi, full)

def atom_count():
    return len(_atoms)

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t=()):
        self.c = c
        self.t = t          # sorted tuple of (atom, coef), coef != 0
        self._h = None
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((a.id, k) for a, k in self.t)))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def is_const(self):
        return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = {a.id: [a, k] for a, k in self.t}
        for a, k in o.t:
            e = d.get(a.id)
            if e is None: d[a.id] = [a, k]
            else: e[1] += k
        return Lin(self.c + o.c, tuple((d[i][0], d[i][1]) for i in sorted(d) if d[i][1]))
    def __sub__(self, o):
        if isinstance(o, int): return self + (-o)
        return self + o.scale(-1)
    def __neg__(self):
        return self.scale(-1)
    def scale(self, s):
        if s == 0: return ZERO
        if s == 1: return self
        return Lin(self.c * s, tuple((a, k * s) for a, k in self.t))
    def vars(self):
        v = set()
        for a, _ in self.t: v |= a.vars
        return v
    def coef(self, atom):
        for a, k in self.t:
            if a is atom: return k
        return 0
    def without(self, atom):
        return Lin(self.c, tuple((a, k) for a, k in self.t if a is not atom))
    def z3(self):
        if not self.t: return z3.IntVal(self.c)
        parts = []
        for a, k in self.t:
            parts.append(az3(a) if k == 1 else z3.IntVal(k) * az3(a))
        if self.c: parts.append(z3.IntVal(self.c))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)
    def __repr__(self):
        s = ' + '.join(('%s' % a if k == 1 else '%d*%s' % (k, a)) for a, k in self.t)
        if self.c or not s: s = (s + ' + ' if s else '') + str(self.c)
        return s

ZERO = Lin(0)
ONE = Lin(1)
def const(n): return Lin(n)
def lin(a): return Lin(0, ((a, 1),))

def show_atom(a):
    if a.kind == 'var': return a.name
    if a.kind == 'uf': return '%s(%s)' % (a.data[0], ', '.join(map(str, a.data[1])))
    return '(%s %s)' % (a.kind, ' '.join(map(str, a.data)))

_ufs = {}
def uf(name, n):
    f = _ufs.get((name, n))
    if f is None:
        f = z3.Function(name, *([z3.IntSort()] * (n + 1)))
        _ufs[(name, n)] = f
    return f

def az3(a):
    z = a._z3
    if z is None:
        k = a.kind
        if k == 'var': z = z3.Int(a.name)
        elif k == 'div': z = a.data[0].z3() / z3.IntVal(a.data[1])
        elif k == 'mod': z = a.data[0].z3() % z3.IntVal(a.data[1])
        elif k == 'mul': z = a.data[0].z3() * a.data[1].z3()
        elif k == 'uf': z = uf(a.data[0], len(a.data[1]))(*[x.z3() for x in a.data[1]])
        elif k == 'b2i': z = z3.If(fz3(a.data[0]), z3.IntVal(1), z3.IntVal(0))
        else: raise Exception(k)
        a._z3 = z
    return z

def mk_div(l, c):
    """floor division by constant c > 0"""
    if c == 1: return l
    if l.is_const(): return const(l.c // c)
    # split off exact multiples
    q = Lin(l.c // c, tuple((a, k // c) for a, k in l.t if k % c == 0))
    r = Lin(l.c % c, tuple((a, k) for a, k in l.t if k % c != 0))
    if r.is_const(): return q
    return q + lin(_mk('div', (r, c), -INF, INF))
def mk_mod(l, c):
    if c == 1: return ZERO
    r = Lin(l.c % c, tuple((a, k % c) for a, k in l.t if k % c != 0))
    if r.is_const(): return const(r.c % c)
    if len(r.t) == 1 and r.t[0][0].kind == 'mod' and r.t[0][0].data[1] == c and r.t[0][1] == 1 and r.c == 0: return r
    return lin(_mk('mod', (r, c), 0, c - 1))
def mk_mul(a, b):
    if a.is_const(): return b.scale(a.c)
    if b.is_const(): return a.scale(b.c)
    if hash(a) > hash(b): a, b = b, a
    return lin(_mk('mul', (a, b), -INF, INF))
def mk_uf(name, args, lo, hi):
    return lin(_mk('uf', (name, tuple(args)), lo, hi))
def mk_b2i(f):
    if f is True: return ONE
    if f is False: return ZERO
    return lin(_mk('b2i', (f,), 0, 1))

# ------------------------------------------------------------ formulas
# True/False, ('le',Lin) : Lin<=0, ('eq',Lin), ('ne',Lin), ('and',f..), ('or',f..)
def f_le(l):
    if l.is_const(): return l.c <= 0
    return ('le', l)
def f_eq(l):
    if l.is_const(): return l.c == 0
    if len(l.t) == 1:
        a, k = l.t[0]
        if l.c % k: return False
        if a.kind == 'b2i' and True:
            v = -l.c // k
            if v == 0: return f_not(a.data[0])
            if v == 1: return a.data[0]
            return False
    if l.t[0][1] < 0: l = l.scale(-1)
    return ('eq', l)
def f_ne(l): return f_not(f_eq(l))
def f_not(f):
    if f is True: return False
    if f is False: return True
    k = f[0]
    if k == 'le': return f_le(f[1].scale(-1) + 1)
    if k == 'eq': return ('ne', f[1])
    if k == 'ne': return ('eq', f[1])
    if k == 'and': return f_or(*[f_not(x) for x in f[1:]])
    if k == 'or': return f_and(*[f_not(x) for x in f[1:]])
    raise Exception(f)
def f_and(*fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        if f[0] == 'and': out.extend(x for x in f[1:] if x not in out)
        elif f not in out: out.append(f)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and',) + tuple(out)
def f_or(*fs):
    out = []
    for f in fs:
        if f is False: continue
        if f is True: return True
        if f[0] == 'or': out.extend(x for x in f[1:] if x not in out)
        elif f not in out: out.append(f)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or',) + tuple(out)
def f_lt(a, b): return f_le(a - b + 1)     # a < b
def f_leq(a, b): return f_le(a - b)
def f_eqq(a, b): return f_eq(a - b)

_fz = {}
def fz3(f):
    if f is True: return z3.BoolVal(True)
    if f is False: return z3.BoolVal(False)
    z = _fz.get(f)
    if z is None:
        k = f[0]
        if k == 'le':
            # move negative terms to the right for readability
            l = f[1]
            pos = Lin(max(l.c, 0), tuple(x for x in l.t if x[1] > 0))
            neg = Lin(max(-l.c, 0), tuple((a, -c) for a, c in l.t if c < 0))
            z = pos.z3() <= neg.z3()
        elif k == 'eq': z = f[1].z3() == 0
        elif k == 'ne': z = f[1].z3() != 0
        elif k == 'and': z = z3.And([fz3(x) for x in f[1:]])
        elif k == 'or': z = z3.Or([fz3(x) for x in f[1:]])
        else: raise Exception(f)
        _fz[f] = z
    return z

def fvars(f):
    if f is True or f is False: return set()
    if f[0] in ('le', 'eq', 'ne'): return f[1].vars()
    v = set()
    for x in f[1:]: v |= fvars(x)
    return v

# ------------------------------------------------------------ substitution
def subst(x, m):
    """m: {atom_id: Lin} for base variables"""
    if isinstance(x, Lin): return lsubst(x, m)
    return fsubst(x, m)

def lsubst(l, m):
    if not l.t: return l
    out = None
    keep = []
    for a, k in l.t:
        if a.vars.isdisjoint(m):
            keep.append((a, k))
        else:
            s = asubst(a, m).scale(k)
            out = s if out is None else out + s
    if out is None: return l
    return Lin(l.c, tuple(keep)) + out

def asubst(a, m):
    k = a.kind
    if k == 'var': return m[a.id]
    if k == 'div': return mk_div(lsubst(a.data[0], m), a.data[1])
    if k == 'mod': return mk_mod(lsubst(a.data[0], m), a.data[1])
    if k == 'mul': return mk_mul(lsubst(a.data[0], m), lsubst(a.data[1], m))
    if k == 'uf': return mk_uf(a.data[0], [lsubst(x, m) for x in a.data[1]], a.lo, a.hi)
    if k == 'b2i': return mk_b2i(fsubst(a.data[0], m))
    raise Exception(k)

def fsubst(f, m):
    if f is True or f is False: return f
    k = f[0]
    if k == 'le': return f_le(lsubst(f[1], m))
    if k == 'eq': return f_eq(lsubst(f[1], m))
    if k == 'ne': return f_not(f_eq(lsubst(f[1], m)))
    if k == 'and': return f_and(*[fsubst(x, m) for x in f[1:]])
    if k == 'or': return f_or(*[fsubst(x, m) for x in f[1:]])
    raise Exception(f)
