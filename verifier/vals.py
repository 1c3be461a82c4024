"""Values of the verifier's MIR semantics."""
from sym import *

class MergeFail(Exception):
    pass

class Agg:
    """struct, tuple, closure environment"""
    __slots__ = ("ty", "fs")
    def __init__(self, ty, fs):
        self.ty = ty; self.fs = tuple(fs)
    def __repr__(self):
        return "Agg(%s)" % (", ".join(map(repr, self.fs)))

class Chk(Agg):
    """result and overflow flag of a checked operation, with the exact result"""
    __slots__ = ("raw",)

class Enum:
    """enum value: variant index (possibly symbolic) and per-variant payloads"""
    __slots__ = ("ty", "d", "pl")
    def __init__(self, ty, d, pl):
        self.ty = ty; self.d = d; self.pl = pl
    def __repr__(self):
        return "Enum(%s, %r)" % (self.d, self.pl)

class Ref:
    """thin pointer: root ('L',frame,local) | ('H',id) | ('V',value) and a path"""
    __slots__ = ("root", "path")
    def __init__(self, root, path=()):
        self.root = root; self.path = tuple(path)
    def __repr__(self):
        return "Ref(%r%r)" % (self.root if self.root[0] != 'V' else 'V', self.path)

class Slice:
    """fat pointer to len elements of a sequence, from start"""
    __slots__ = ("root", "path", "start", "len")
    def __init__(self, root, path, start, ln):
        self.root = root; self.path = tuple(path); self.start = start; self.len = ln
    def __repr__(self):
        return "Slice(%r%r @%s +%s)" % (self.root if self.root[0] != 'V' else 'V', self.path, self.start, self.len)

class Seq:
    """Vec, array, or the target of a slice: length and content node"""
    __slots__ = ("ty", "ety", "len", "node")
    def __init__(self, ty, ety, ln, node):
        self.ty = ty; self.ety = ety; self.len = ln; self.node = node
    def __repr__(self):
        return "Seq(len=%s,%r)" % (self.len, self.node)

class NList:
    __slots__ = ("xs",)
    def __init__(self, xs): self.xs = list(xs)
    def __repr__(self): return "%r" % (self.xs,)
class NBase:
    __slots__ = ("f", "key")
    def __init__(self, f, key): self.f = f; self.key = key
    def __repr__(self): return "Base(%s)" % (self.key,)
class NStore:
    __slots__ = ("n", "i", "v")
    def __init__(self, n, i, v): self.n = n; self.i = i; self.v = v
    def __repr__(self): return "Store(%r,%s,%r)" % (self.n, self.i, self.v)
class NMap:
    """cells lo <= i < hi hold f(i), the rest as in n"""
    __slots__ = ("n", "lo", "hi", "f")
    def __init__(self, n, lo, hi, f): self.n = n; self.lo = lo; self.hi = hi; self.f = f
    def __repr__(self): return "Map(%r,%s..%s)" % (self.n, self.lo, self.hi)
class NIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "Ite(%s,%r,%r)" % (self.c, self.a, self.b)
class NShift:
    """cell i holds cell i+off of n"""
    __slots__ = ("n", "off")
    def __init__(self, n, off): self.n = n; self.off = off

class Fn:
    """function item / pointer"""
    __slots__ = ("inst", "ty")
    def __init__(self, inst, ty=None): self.inst = inst; self.ty = ty
    def __repr__(self): return "Fn(%s)" % self.inst

class It:
    """slice iterator over [pos,end) of a slice (kind ref/mut), or owning iterator"""
    __slots__ = ("kind", "sl", "pos", "end")
    def __init__(self, kind, sl, pos, end):
        self.kind = kind; self.sl = sl; self.pos = pos; self.end = end
    def __repr__(self): return "It(%s,%s..%s of %r)" % (self.kind, self.pos, self.end, self.sl)

class Rng:
    """random generator: number of draws taken so far (position in its stream)"""
    __slots__ = ("idx", "sid")
    def __init__(self, idx, sid="r"): self.idx = idx; self.sid = sid
    def __repr__(self): return "Rng(%s)" % self.idx

class Str:
    """string as a list of pieces: python str or ('fmt', kind, value, spec)"""
    __slots__ = ("ps",)
    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.ps = tuple(out)
    def lit(self):
        if not self.ps:
            return ""
        if len(self.ps) == 1 and isinstance(self.ps[0], str):
            return self.ps[0]
        return None
    def __repr__(self): return "Str(%r)" % (self.ps,)

class Rep:
    """the texts f(lo), ..., f(hi-1) one after the other"""
    __slots__ = ("lo", "hi", "f")
    def __init__(self, lo, hi, f): self.lo = lo; self.hi = hi; self.f = f
    def __repr__(self): return "Rep(%s..%s)" % (self.lo, self.hi)

STRIF = [False]       # texts that differ by a tail may be merged into a conditional piece

class Opaque:
    """a value the program only passes around"""
    __slots__ = ("tag", "data")
    def __init__(self, tag, data=None): self.tag = tag; self.data = data
    def __repr__(self): return "Opaque(%s)" % (self.tag,)

class Undef:
    def __repr__(self): return "Undef"
UNDEF = Undef()

class Dyn:
    """fat pointer to a trait object: data pointer and concrete type id"""
    __slots__ = ("ref", "ty")
    def __init__(self, ref, ty): self.ref = ref; self.ty = ty
    def __repr__(self): return "Dyn(%r,%s)" % (self.ref, self.ty)

def is_scalar(v):
    return isinstance(v, (bool, int, Fraction, F)) or isinstance(v, z3.ExprRef)

def vite(c, a, b):
    """if c then a else b on values"""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, F) and isinstance(b, F):
        return fite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
        return Agg(a.ty, [vite(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        pl = {}
        for k in set(a.pl) | set(b.pl):
            if k in a.pl and k in b.pl:
                pl[k] = tuple(vite(c, x, y) for x, y in zip(a.pl[k], b.pl[k]))
            else:
                pl[k] = a.pl.get(k, b.pl.get(k))
        return Enum(a.ty, ite(c, a.d, b.d), pl)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root == b.root and len(a.path) == len(b.path):
            return Ref(a.root, mpath(c, a.path, b.path))
        raise MergeFail("refs")
    if isinstance(a, Slice) and isinstance(b, Slice):
        if a.root == b.root and len(a.path) == len(b.path):
            return Slice(a.root, mpath(c, a.path, b.path), ite(c, a.start, b.start), ite(c, a.len, b.len))
        raise MergeFail("slices")
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(a.ty, a.ety, ite(c, a.len, b.len), nite(c, a.node, b.node, a.len, b.len))
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind:
        return It(a.kind, vite(c, a.sl, b.sl), ite(c, a.pos, b.pos), ite(c, a.end, b.end))
    if isinstance(a, Rng) and isinstance(b, Rng) and a.sid == b.sid:
        return Rng(ite(c, a.idx, b.idx), a.sid)
    if isinstance(a, Str) and isinstance(b, Str):
        if str_same(a, b):
            return a
        if len(a.ps) == 1 and len(b.ps) == 1 and a.ps[0][0] == b.ps[0][0] and a.ps[0][0] in ("id", "word") and not isinstance(a.ps[0], str) and not isinstance(b.ps[0], str):
            return Str([(a.ps[0][0], "", ite(c, a.ps[0][2], b.ps[0][2]))])
        if STRIF[0]:
            n = 0
            while n < len(a.ps) and n < len(b.ps) and str_same(Str([a.ps[n]]), Str([b.ps[n]])):
                n += 1
            if n == len(b.ps) and n < len(a.ps):
                return Str(list(a.ps[:n]) + [("if", "", Agg(None, [c, Str(a.ps[n:])]))])
            if n == len(a.ps) and n < len(b.ps):
                return Str(list(a.ps[:n]) + [("if", "", Agg(None, [not_(c), Str(b.ps[n:])]))])
        raise MergeFail("texts")
    if isinstance(a, Fn) and isinstance(b, Fn) and a.inst == b.inst:
        return a
    if isinstance(a, Dyn) and isinstance(b, Dyn) and a.ty == b.ty:
        return Dyn(vite(c, a.ref, b.ref), a.ty)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.data is b.data:
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag in ("fmtarg", "fmtargs", "either"):
        # formatting arguments that differ: unusable afterwards
        return Opaque("either")
    if is_scalar(a) and is_scalar(b) and not isinstance(a, F) and not isinstance(b, F):
        return ite(c, a, b)
    raise MergeFail("%r / %r" % (type(a), type(b)))

def str_same(a, b):
    if len(a.ps) != len(b.ps): return False
    for x, y in zip(a.ps, b.ps):
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return False
        elif x is not y and not (x[:2] == y[:2] and veq_syn(x[2], y[2]) and x[3:] == y[3:]):
            return False
    return True

def mpath(c, p, q):
    r = []
    for x, y in zip(p, q):
        if x[0] != y[0]:
            raise MergeFail("path")
        if x[0] == 'i':
            r.append(('i', ite(c, x[1], y[1])))
        elif x == y:
            r.append(x)
        else:
            raise MergeFail("path")
    return tuple(r)

def nite(c, a, b, la=None, lb=None):
    if a is b or node_same(a, b):
        return a
    if isinstance(a, NList) and isinstance(b, NList) and len(a.xs) == len(b.xs):
        return NList([vite(c, x, y) for x, y in zip(a.xs, b.xs)])
    # common suffix of stores at the same index
    if isinstance(a, NStore) and isinstance(b, NStore) and same(a.i, b.i):
        return NStore(nite(c, a.n, b.n), a.i, vite(c, a.v, b.v))
    return NIte(c, a, b)

def veq_syn(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if type(a) != type(b) and not (isc(a) or isc(b) or isinstance(a, z3.ExprRef)):
        return False
    if isinstance(a, F):
        return isinstance(b, F) and same(a.v, b.v) and same(a.nan, b.nan) and same(a.pinf, b.pinf) and same(a.ninf, b.ninf)
    if isinstance(a, Agg):
        return isinstance(b, Agg) and len(a.fs) == len(b.fs) and all(veq_syn(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Enum):
        return isinstance(b, Enum) and same(a.d, b.d) and set(a.pl) == set(b.pl) and all(
            len(a.pl[k]) == len(b.pl[k]) and all(veq_syn(x, y) for x, y in zip(a.pl[k], b.pl[k])) for k in a.pl)
    if isinstance(a, Ref):
        return isinstance(b, Ref) and a.root == b.root and path_same(a.path, b.path)
    if isinstance(a, Slice):
        return isinstance(b, Slice) and a.root == b.root and path_same(a.path, b.path) and same(a.start, b.start) and same(a.len, b.len)
    if isinstance(a, Seq):
        return isinstance(b, Seq) and same(a.len, b.len) and node_same(a.node, b.node)
    if isinstance(a, It):
        return isinstance(b, It) and a.kind == b.kind and veq_syn(a.sl, b.sl) and same(a.pos, b.pos) and same(a.end, b.end)
    if isinstance(a, Rng):
        return isinstance(b, Rng) and a.sid == b.sid and same(a.idx, b.idx)
    if isinstance(a, Str):
        return isinstance(b, Str) and str_same(a, b)
    if isinstance(a, Rep):
        if not (isinstance(b, Rep) and same(a.lo, b.lo) and same(a.hi, b.hi)):
            return False
        if a.f is b.f:
            return True
        bv = fresh_int("#rx")
        return veq_syn(a.f(bv), b.f(bv))
    if isinstance(a, Fn):
        return isinstance(b, Fn) and a.inst == b.inst
    if isinstance(a, Dyn):
        return isinstance(b, Dyn) and a.ty == b.ty and veq_syn(a.ref, b.ref)
    if isinstance(a, (Opaque, Undef)):
        return isinstance(b, Opaque) and a.tag == b.tag and a.data is b.data
    if is_scalar(a) and is_scalar(b):
        return same(a, b)
    return False

def path_same(p, q):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x[0] != y[0]:
            return False
        if x[0] == 'i':
            if not same(x[1], y[1]):
                return False
        elif x != y:
            return False
    return True

def node_same(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, NList):
        return len(a.xs) == len(b.xs) and all(veq_syn(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, NStore):
        return same(a.i, b.i) and veq_syn(a.v, b.v) and node_same(a.n, b.n)
    if isinstance(a, NBase):
        return a.key == b.key
    if isinstance(a, NMap):
        if not (same(a.lo, b.lo) and same(a.hi, b.hi) and node_same(a.n, b.n)):
            return False
        if a.f is b.f:
            return True
        bv = fresh_int("#nx")
        return veq_syn(a.f(bv), b.f(bv))
    if isinstance(a, NIte):
        return same(a.c, b.c) and node_same(a.a, b.a) and node_same(a.b, b.b)
    if isinstance(a, NShift):
        return same(a.off, b.off) and node_same(a.n, b.n)
    return False

def vmap(v, f):
    """rebuild a value applying f to every scalar term"""
    if isinstance(v, F):
        return F(f(v.v), f(v.nan), f(v.pinf), f(v.ninf))
    if isinstance(v, Agg):
        return Agg(v.ty, [vmap(x, f) for x in v.fs])
    if isinstance(v, Enum):
        return Enum(v.ty, f(v.d), {k: tuple(vmap(x, f) for x in p) for k, p in v.pl.items()})
    if isinstance(v, Ref):
        return Ref(v.root, [(s[0], f(s[1])) if s[0] == 'i' else s for s in v.path])
    if isinstance(v, Slice):
        return Slice(v.root, [(s[0], f(s[1])) if s[0] == 'i' else s for s in v.path], f(v.start), f(v.len))
    if isinstance(v, Seq):
        return Seq(v.ty, v.ety, f(v.len), nmap(v.node, f))
    if isinstance(v, It):
        return It(v.kind, vmap(v.sl, f), f(v.pos), f(v.end))
    if isinstance(v, Rng):
        return Rng(f(v.idx), v.sid)
    if isinstance(v, Str):
        return Str([p if isinstance(p, str) else (p[0], p[1], vmap(p[2], f)) + tuple(p[3:]) for p in v.ps])
    if isinstance(v, Rep):
        g, ch = lift2(v.f, f)
        return Rep(f(v.lo), f(v.hi), g if ch else v.f)
    if isinstance(v, (Fn, Opaque, Undef, Dyn)):
        return v
    if is_scalar(v):
        return f(v)
    raise Unsupported("vmap %r" % type(v))

def nmap(n, f):
    if isinstance(n, NList):
        xs = [vmap(x, f) for x in n.xs]
        return n if all(veq_syn(a, b) for a, b in zip(xs, n.xs)) else NList(xs)
    if isinstance(n, NBase):
        g, ch = lift2(n.f, f)
        return NBase(g, ("m", n.key, fresh_name("m"))) if ch else n
    if isinstance(n, NStore):
        m, i, v = nmap(n.n, f), f(n.i), vmap(n.v, f)
        return n if m is n.n and same(i, n.i) and veq_syn(v, n.v) else NStore(m, i, v)
    if isinstance(n, NMap):
        m, lo, hi = nmap(n.n, f), f(n.lo), f(n.hi)
        g, ch = lift2(n.f, f)
        if m is n.n and not ch and same(lo, n.lo) and same(hi, n.hi):
            return n
        return NMap(m, lo, hi, g if ch else n.f)
    if isinstance(n, NIte):
        c, a, b = f(n.c), nmap(n.a, f), nmap(n.b, f)
        return n if a is n.a and b is n.b and same(c, n.c) else NIte(c, a, b)
    if isinstance(n, NShift):
        m, o = nmap(n.n, f), f(n.off)
        return n if m is n.n and same(o, n.off) else NShift(m, o)
    raise Unsupported("nmap")

def lift2(g, f):
    bv = fresh_int("#ix")
    t = g(bv)
    t2 = vmap(t, f)
    if veq_syn(t, t2):
        return g, False
    return (lambda i: vmap(t2, lambda e: zsub(e, [(bv, Z(i))]))), True
