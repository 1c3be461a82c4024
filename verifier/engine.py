"""Symbolic execution of MIR: every path of a function, with loops either
unrolled (when they end by themselves) or replaced by an inferred and checked
invariant (loops.py)."""
import re, itertools
from mir import *
import solve
import models, sym

class Budget(Unsupported):
    pass

class Counter:
    def __init__(self, n): self.n = n
    def __next__(self):
        self.n += 1
        return self.n - 1

class Engine:
    def __init__(self, prog, mode="bounded", unroll=6):
        self.p = prog
        self.mode = mode
        self.unroll = unroll
        self.uid = Counter(1)
        self.hid = Counter(1)
        self.trusted = {}
        self.functions = {}
        self.steps = 0
        self.maxsteps = 400000
        self.summaries = {}
        self.absfloat = False     # float operations: any result of the right class and sign (rounding and overflow included)
        self.candidates = []      # candidate invariants of float locations in loops: f(value, iterations)
        self.loopinfo = []
        self.outer = []        # rounds of loops in progress
        self.keep = []
        self.invobl = []
        self.overrides = {}
        self.maxstates = 4000
        self.deadline = None

    # --------------------------------------------------------------- memory
    def alloc(self, st, v):
        h = next(self.hid)
        st.heap[h] = v
        return Ref(('H', h))

    def frame(self, st, uid):
        for f in reversed(st.frames):
            if f.uid == uid:
                return f
        raise Unsupported("dangling frame")

    def root_get(self, st, root):
        if root[0] == 'L':
            f = self.frame(st, root[1])
            if root[2] not in f.locals:
                return UNDEF
            return f.locals[root[2]]
        if root[0] == 'H':
            return st.heap[root[1]]
        return root[1]

    def root_set(self, st, root, v):
        if root[0] == 'L':
            self.frame(st, root[1]).locals[root[2]] = v
        elif root[0] == 'H':
            st.heap[root[1]] = v
        else:
            raise Unsupported("write to constant")

    def nread(self, st, n, i):
        """cell i of a node"""
        while True:
            if isinstance(n, NList):
                if isinstance(i, int):
                    if 0 <= i < len(n.xs):
                        return n.xs[i]
                    raise Unsupported("index outside list")
                if not n.xs:
                    raise Unsupported("symbolic index into empty list")
                r = n.xs[-1]
                for j in range(len(n.xs) - 2, -1, -1):
                    r = vite(eq(i, j), n.xs[j], r)
                return r
            if isinstance(n, NBase):
                self.newfacts = []
                v = n.f(i)
                if st is not None and self.newfacts:
                    have = {id(x) if isinstance(x, QFact) or isc(x) else x.get_id() for x in st.pc}
                    for x in self.newfacts:
                        if not isc(x) and x.get_id() not in have:
                            st.pc.append(x)
                return v
            if isinstance(n, NShift):
                i = iz(add(i, n.off)); n = n.n; continue
            if isinstance(n, NStore):
                c = self.idx_eq(st, n.i, i)
                if c is True: return n.v
                if c is False:
                    n = n.n; continue
                return vite(c, n.v, self.nread(st, n.n, i))
            if isinstance(n, NMap):
                c = self.simp(st, and_(le(n.lo, i), lt(i, n.hi)))
                if c is True: return n.f(i)
                if c is False:
                    n = n.n; continue
                return vite(c, n.f(i), self.nread(st, n.n, i))
            if isinstance(n, NIte):
                c = self.simp(st, n.c)
                if c is True: n = n.a; continue
                if c is False: n = n.b; continue
                return vite(c, self.nread(st, n.a, i), self.nread(st, n.b, i))
            raise Unsupported("node %r" % (n,))

    def idx_eq(self, st, a, b):
        if isc(a) and isc(b):
            return a == b
        d = iz(sub(a, b))
        if isc(d):
            return d == 0
        return self.simp(st, eq(a, b))

    def simp(self, st, c):
        """decide a condition under the path condition if possible"""
        if isinstance(c, bool):
            return c
        c = norm(z3.simplify(Z(c)))
        if isinstance(c, bool):
            return c
        if st is None:
            return c
        pc = st.pc
        if sym.RANGECTX:
            pc = pc + [x for bv, lo, hi in sym.RANGECTX for x in (le(lo, bv), lt(bv, hi)) if not isc(x)]
        if solve.intonly(c):
            # indices and counts: usually decided by the integer facts alone
            ip = [x for x in pc if isinstance(x, bool) or not isinstance(x, QFact) and solve.intonly(x)]
            if len(ip) < len(pc):
                if not feasible(ip, c):
                    return False
                if not feasible(ip, not_(c)):
                    return True
        if not feasible(pc, c):
            return False
        if not feasible(pc, not_(c)):
            return True
        return c

    def seq_write(self, st, sq, i, v):
        n = sq.node
        if isinstance(n, NList) and isinstance(i, int):
            if i >= len(n.xs):
                raise Unsupported("write outside list")
            xs = list(n.xs); xs[i] = v
            return Seq(sq.ty, sq.ety, sq.len, NList(xs))
        if isinstance(n, NList) and n.xs:
            return Seq(sq.ty, sq.ety, sq.len, NList([vite(eq(i, j), v, x) for j, x in enumerate(n.xs)]))
        if isinstance(n, NStore) and same(n.i, i):
            n = n.n
        return Seq(sq.ty, sq.ety, sq.len, NStore(n, i, v))

    def get_path(self, st, v, path):
        for s in path:
            if isinstance(v, Ref) and s[0] == 'f':
                continue            # Box / NonNull / Unique wrappers are transparent
            if s[0] == 'f':
                if isinstance(v, Agg):
                    v = v.fs[s[1]]
                elif v is UNDEF:
                    return UNDEF
                elif isinstance(v, (Slice, It, Opaque, Dyn)):
                    continue
                else:
                    raise Unsupported("field %d of %r" % (s[1], type(v)))
            elif s[0] == 'vf':
                if not isinstance(v, Enum):
                    raise Unsupported("variant of %r" % type(v))
                if s[1] not in v.pl:
                    return UNDEF
                v = v.pl[s[1]][s[2]]
            elif s[0] == 'i':
                if not isinstance(v, Seq):
                    raise Unsupported("index of %r" % type(v))
                v = self.nread(st, v.node, s[1])
            else:
                raise Unsupported("path")
        return v

    def set_path(self, st, v, path, new, ty=None):
        if not path:
            return new
        s = path[0]
        if s[0] == 'f':
            if v is UNDEF or v is None:
                raise Unsupported("partial initialisation")
            if isinstance(v, Agg):
                fs = list(v.fs)
                fs[s[1]] = self.set_path(st, fs[s[1]], path[1:], new)
                return Agg(v.ty, fs)
            raise Unsupported("set field of %r" % type(v))
        if s[0] == 'vf':
            pl = dict(v.pl)
            fs = list(pl[s[1]])
            fs[s[2]] = self.set_path(st, fs[s[2]], path[1:], new)
            pl[s[1]] = tuple(fs)
            return Enum(v.ty, v.d, pl)
        if s[0] == 'i':
            if not isinstance(v, Seq):
                raise Unsupported("set index of %r" % type(v))
            old = self.nread(st, v.node, s[1]) if len(path) > 1 else None
            return self.seq_write(st, v, s[1], self.set_path(st, old, path[1:], new))
        raise Unsupported("set path")

    def load(self, st, ref):
        if isinstance(ref, Ref):
            return self.get_path(st, self.root_get(st, ref.root), ref.path)
        if isinstance(ref, Dyn):
            return self.load(st, ref.ref)
        if isinstance(ref, (Str,)):
            return ref
        raise Unsupported("load through %r" % type(ref))

    def store(self, st, ref, v):
        if not isinstance(ref, Ref):
            raise Unsupported("store through %r" % type(ref))
        base = self.root_get(st, ref.root)
        self.root_set(st, ref.root, self.set_path(st, base, ref.path, v))

    def slice_seq(self, st, sl):
        return self.get_path(st, self.root_get(st, sl.root), sl.path)

    def slice_get(self, st, sl, i):
        return self.nread(st, self.slice_seq(st, sl).node, iz(add(sl.start, i)))

    def slice_set(self, st, sl, i, v):
        self.store(st, Ref(sl.root, sl.path + (('i', iz(add(sl.start, i))),)), v)

    def elem_ref(self, sl, i):
        return Ref(sl.root, sl.path + (('i', iz(add(sl.start, i))),))

    def as_slice(self, st, r):
        """slice over the whole Seq behind a thin reference"""
        if isinstance(r, Slice):
            return r
        v = self.load(st, r)
        if isinstance(v, Seq):
            return Slice(r.root, r.path, 0, v.len)
        if isinstance(v, Slice):
            return v
        raise Unsupported("slice of %r" % type(v))

    # --------------------------------------------------------------- places
    def place(self, st, fr, p):
        """-> ('ref', Ref, ty) | ('slice', Slice, ty) | ('val', value)"""
        cur = Ref(('L', fr.uid, p["local"]))
        kind = 'ref'
        variant = None
        for e in p["projection"]:
            if e == "Deref":
                v = self.load(st, cur) if kind == 'ref' else (cur if kind == 'val' else None)
                if isinstance(v, Ref):
                    cur, kind = v, 'ref'
                elif isinstance(v, Slice):
                    cur, kind = v, 'slice'
                elif isinstance(v, Dyn):
                    cur, kind = v, 'dyn'
                elif isinstance(v, (Str, Opaque)):
                    cur, kind = v, 'val'
                elif v is UNDEF:
                    raise Unsupported("deref of uninitialised value")
                else:
                    raise Unsupported("deref of %r" % type(v))
                variant = None
            elif "Field" in e:
                i = e["Field"][0]
                if kind == 'val':
                    continue
                if kind == 'ref':
                    b = self.load(st, cur)
                    if isinstance(b, (Ref, Slice, Dyn)) :
                        # field of Box/Unique/NonNull: the pointer itself
                        continue
                    if variant is not None:
                        cur = Ref(cur.root, cur.path + (('vf', variant, i),))
                        variant = None
                    else:
                        cur = Ref(cur.root, cur.path + (('f', i),))
                else:
                    raise Unsupported("field of slice")
            elif "Downcast" in e:
                variant = e["Downcast"]
            elif "Index" in e:
                i = fr.locals[e["Index"]]
                if kind == 'slice':
                    cur, kind = self.elem_ref(cur, i), 'ref'
                else:
                    cur = Ref(cur.root, cur.path + (('i', i),))
            elif "ConstantIndex" in e:
                ci = e["ConstantIndex"]
                if kind == 'slice':
                    i = sub(cur.len, ci["offset"]) if ci["from_end"] else ci["offset"]
                    cur, kind = self.elem_ref(cur, i), 'ref'
                else:
                    sq = self.load(st, cur)
                    i = sub(sq.len, ci["offset"]) if ci["from_end"] else ci["offset"]
                    cur = Ref(cur.root, cur.path + (('i', i),))
            elif "Subslice" in e:
                sl = e["Subslice"]
                c = cur if kind == 'slice' else self.as_slice(st, cur)
                hi = sub(c.len, sl["to"]) if sl["from_end"] else sl["to"]
                cur, kind = Slice(c.root, c.path, iz(add(c.start, sl["from"])), iz(sub(hi, sl["from"]))), 'slice'
            elif "OpaqueCast" in e:
                pass
            else:
                raise Unsupported("projection %r" % e)
        return kind, cur

    def read_place(self, st, fr, p):
        if not p["projection"]:
            v = fr.locals.get(p["local"], UNDEF)
            return v
        k, c = self.place(st, fr, p)
        if k == 'ref':
            return self.load(st, c)
        if k == 'val':
            return c
        raise Unsupported("read of unsized place")

    def write_place(self, st, fr, p, v):
        if not p["projection"]:
            fr.locals[p["local"]] = v
            return
        if fr.locals.get(p["local"], UNDEF) is UNDEF and isinstance(p["projection"][0], dict) and "Field" in p["projection"][0]:
            fr.locals[p["local"]] = self.skeleton(self.p.insts[fr.inst]["body"]["locals"][p["local"]])
        k, c = self.place(st, fr, p)
        if k != 'ref':
            raise Unsupported("write to unsized place")
        self.store(st, c, v)

    def skeleton(self, t):
        ty = self.p.ty[t]
        if ty["k"] == "adt" and ty["kind"] == "Struct":
            return Agg(t, [UNDEF] * len(ty["variants"][0]["fields"]))
        if ty["k"] == "tuple":
            return Agg(t, [UNDEF] * len(ty["elems"]))
        raise Unsupported("skeleton")

    def operand(self, st, fr, o):
        if "Copy" in o:
            return self.read_place(st, fr, o["Copy"])
        if "Move" in o:
            return self.read_place(st, fr, o["Move"])
        if "Constant" in o:
            c = o["Constant"]["const_"]
            return self.const(c)
        if "RuntimeChecks" in o:
            return False
        raise Unsupported("operand %r" % list(o))

    def const(self, c):
        kind = c["kind"]
        t = c["ty"]
        if kind == "ZeroSized":
            return self.p.zst(t)
        if isinstance(kind, dict) and "Allocated" in kind:
            a = kind["Allocated"]
            return self.p.decode(t, a["bytes"], a["provenance"]["ptrs"])
        if isinstance(kind, dict) and "Ty" in kind:
            raise Unsupported("type constant")
        if isinstance(kind, dict) and "PyVal" in kind:
            return kind["PyVal"]
        raise Unsupported("constant kind %r" % (kind if isinstance(kind, str) else list(kind)))

    def operand_ty(self, fr, o):
        for k in ("Copy", "Move"):
            if k in o:
                return self.place_ty(fr, o[k])
        if "Constant" in o:
            return o["Constant"]["const_"]["ty"]

    def place_ty(self, fr, p):
        t = self.p.insts[fr.inst]["body"]["locals"][p["local"]]
        for e in p["projection"]:
            if e == "Deref":
                ty = self.p.ty[t]
                if "to" in ty:
                    t = ty["to"]
                else:
                    t = self.p.targ(t)
            elif "Field" in e:
                t = e["Field"][1]
            elif "Index" in e or "ConstantIndex" in e:
                t = self.p.ty[t]["elem"]
        return t

    # --------------------------------------------------------------- rvalues
    def nonzero(self, st):
        return lambda bz: valid(st.pc, not_(bz))

    def absop(self, st, op, a, b):
        """IEEE operation with any rounding: class (NaN, infinite, finite) and sign only"""
        if op == "Sub":
            b = fneg(b); op = "Add"
        # results are functions of the operands, so that loops keep closed forms
        def of(what, sort):
            zs = [Z(w) if not isinstance(w, bool) else z3.BoolVal(w) for w in (a.v, a.nan, a.pinf, a.ninf, b.v, b.nan, b.pinf, b.ninf)]
            return uf("fl.%s.%s" % (op, what), RS, BS, BS, BS, RS, BS, BS, BS, sort)(*zs)
        v = of("v", RS)
        ovp, ovm = of("ovp", BS), of("ovm", BS)
        fin = and_(a.isfin(), b.isfin())
        pa, na = gt(a.v, Fraction(0)), lt(a.v, Fraction(0))
        pb, nb = gt(b.v, Fraction(0)), lt(b.v, Fraction(0))
        if op == "Add":
            nan = or_(a.nan, b.nan, and_(a.pinf, b.ninf), and_(a.ninf, b.pinf))
            p = or_(a.pinf, b.pinf, and_(fin, ovp, pa, pb))
            m = or_(a.ninf, b.ninf, and_(fin, ovm, na, nb))
            st.assume(and_(implies(and_(not_(na), not_(nb)), v >= 0), implies(and_(not_(pa), not_(pb)), v <= 0)))
        else:
            ai, bi = or_(a.pinf, a.ninf), or_(b.pinf, b.ninf)
            ap, an, bp, bn = fpos(a), fneg_(a), fpos(b), fneg_(b)
            agree, differ = or_(and_(ap, bp), and_(an, bn)), or_(and_(ap, bn), and_(an, bp))
            if op == "Mul":
                nan = or_(a.nan, b.nan, and_(ai, fzero(b)), and_(bi, fzero(a)))
                p = or_(and_(or_(ai, bi), agree), and_(fin, ovp, agree))
                m = or_(and_(or_(ai, bi), differ), and_(fin, ovm, differ))
            else:
                bz = fzero(b)
                nan = or_(a.nan, b.nan, and_(ai, bi), and_(bz, fzero(a)))
                zp = fresh_bool("zsign")
                dz = and_(bz, not_(fzero(a)))
                p = or_(and_(ai, or_(agree, and_(bz, zp))), and_(fin, ovp, agree), and_(dz, zp))
                m = or_(and_(ai, or_(differ, and_(bz, not_(zp)))), and_(fin, ovm, differ), and_(dz, not_(zp)))
            st.assume(and_(implies(agree, v >= 0), implies(differ, v <= 0), implies(or_(fzero(a), fzero(b)), v == 0) if op == "Mul" else True))
        nn = not_(nan)
        return self.fclean(st, F(v, nan, and_(nn, p), and_(nn, m)))

    def binop(self, st, op, a, b, t):
        ty = self.p.ty[t]
        if isinstance(a, F) and isinstance(b, F):
            if self.absfloat and op in ("Add", "Sub", "Mul", "Div"):
                return self.absop(st, op, a, b)
            if op == "Add":
                r = fadd(a, b)
                for x, y in ((a, b), (b, a)):
                    # the sum with positive zero is never negative zero
                    if isc(y.v) and y.plain() and y.v == 0 and y.negz == "no":
                        return F(r.v, r.nan, r.pinf, r.ninf, "no")
                return r
            if op == "Sub": return fsub(a, b)
            if op == "Mul": return fmul(a, b)
            if op == "Div":
                if not isc(b.v) and z3.is_to_real(b.v):
                    # a count that may be zero: one path for each case
                    bz = norm(z3.simplify(b.v == 0))
                    if bz is not False and feasible(st.pc, bz):
                        if not valid(st.pc, bz):
                            raise Fork(bz)
                        b = F(Fraction(0), b.nan, b.pinf, b.ninf)
                        neg0 = fneg_(a)
                        return self.fclean(st, F(Fraction(0), or_(a.nan, fzero(a)), fpos(a), neg0))
                return self.fclean(st, fdiv(a, b, self.nonzero(st)))
            if op == "Lt": return flt(a, b)
            if op == "Le": return fle(a, b)
            if op == "Gt": return flt(b, a)
            if op == "Ge": return fle(b, a)
            if op == "Eq": return feq(a, b)
            if op == "Ne": return not_(feq(a, b))
            raise Unsupported("float op " + op)
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
            r = a.root == b.root and path_same(a.path, b.path)
            return r if op == "Eq" else not r
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if not (is_scalar(a) and is_scalar(b)):
                raise Unsupported("comparison of %r" % type(a))
            if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
                if op == "Eq": return eq(a, b)
                if op == "Ne": return not_(eq(a, b))
                ai, bi = ite(a, 1, 0), ite(b, 1, 0)
                a, b = ai, bi
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq, "Ne": lambda x, y: not_(eq(x, y))}[op](a, b)
        if not (is_scalar(a) and is_scalar(b)):
            raise Unsupported("arithmetic %s on %r %r" % (op, type(a), type(b)))
        isb = isinstance(a, bool) or (not isc(a) and z3.is_bool(a))
        if op in ("BitAnd", "BitOr", "BitXor") and isb:
            if op == "BitAnd": return and_(a, b)
            if op == "BitOr": return or_(a, b)
            return not_(eq(a, b))
        un = op.endswith("Unchecked")
        base = op[:-9] if un else op
        if base in ("Add", "Sub", "Mul"):
            r = iz({"Add": add, "Sub": sub, "Mul": mul}[base](a, b))
            if un:
                return r
            return self.wrap(st, r, ty)
        if base in ("Div", "Rem"):
            if isc(a) and isc(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                return q if base == "Div" else a - q * b
            if ty["signed"]:
                q = z3.If(Z(a) >= 0, Z(a) / Z(b), -((-Z(a)) / Z(b)))
            else:
                q = Z(a) / Z(b)
            return q if base == "Div" else Z(a) - q * Z(b)
        if isc(a) and isc(b):
            lo, hi = int_range(ty)
            if base == "BitAnd": return a & b
            if base == "BitOr": return a | b
            if base == "BitXor": return a ^ b
            bits = ty["bytes"] * 8
            if base == "Shl": return self.wrap(st, a << (b % bits), ty)
            if base == "Shr": return a >> (b % bits)
        if base == "Shl" and isc(b):
            return self.wrap(st, mul(a, 1 << b), ty)
        raise Unsupported("integer op " + op)

    def wrap(self, st, r, ty):
        lo, hi = int_range(ty)
        m = hi - lo + 1
        if isc(r):
            return (r - lo) % m + lo
        if st is not None and valid(st.pc, and_(le(lo, r), le(r, hi))):
            return r
        return (Z(r) - lo) % m + lo

    def fclean(self, st, f):
        """drop special-value flags the path condition excludes"""
        if f.plain():
            return f
        out = []
        for fl in (f.nan, f.pinf, f.ninf):
            if fl is not False and not isinstance(fl, bool):
                fl = norm(z3.simplify(fl))
                if not isinstance(fl, bool) and not feasible(st.pc, fl):
                    fl = False
            out.append(fl)
        return F(f.v, *out)

    def overflow(self, r, ty):
        lo, hi = int_range(ty)
        return or_(lt(r, lo), gt(r, hi))

    def rvalue(self, st, fr, r, aty, destty):
        if isinstance(r, str):
            raise Unsupported(r)
        (k, v), = r.items()
        if k == "Use":
            return self.operand(st, fr, v[0] if isinstance(v, list) else v)
        if k == "Ref" or k == "AddressOf":
            kind, c = self.place(st, fr, v[-1])
            if kind == 'ref':
                x = self.p.ty[self.place_ty(fr, v[-1])]
                if x["k"] in ("slice",):
                    return self.as_slice(st, c)
            return c
        if k == "CopyForDeref":
            return self.read_place(st, fr, v)
        if k == "BinaryOp":
            op, a, b = v
            if op == "Offset":
                raise Unsupported("pointer offset")
            ta = self.operand_ty(fr, a)
            return self.binop(st, op, self.operand(st, fr, a), self.operand(st, fr, b), ta)
        if k == "CheckedBinaryOp":
            op, a, b = v
            ta = self.operand_ty(fr, a)
            ty = self.p.ty[ta]
            x, y = self.operand(st, fr, a), self.operand(st, fr, b)
            if op in ("Add", "Sub", "Mul"):
                res = iz({"Add": add, "Sub": sub, "Mul": mul}[op](x, y))
                ov = self.simp(st, self.overflow(res, ty))
                r = Chk(destty, [res if ov is False else ite(ov, self.wrap(None, res, ty), res), ov])
                r.raw = res
                return r
            raise Unsupported("checked " + op)
        if k == "UnaryOp":
            op, a = v
            x = self.operand(st, fr, a)
            if op == "Not":
                if isinstance(x, bool) or (not isc(x) and z3.is_bool(x)):
                    return not_(x)
                ty = self.p.ty[self.operand_ty(fr, a)]
                if ty["signed"]:
                    return sub(-1, x)
                return sub((1 << (8 * ty["bytes"])) - 1, x)
            if op == "Neg":
                if isinstance(x, F):
                    return fneg(x)
                return neg(x)
            if op == "PtrMetadata":
                if isinstance(x, Slice):
                    return x.len
                if isinstance(x, Str):
                    return models.str_len(self, st, x)
                if isinstance(x, Ref):
                    return Agg(None, [])
            raise Unsupported("unary " + str(op))
        if k == "Len":
            kind, c = self.place(st, fr, v)
            if kind == 'slice':
                return c.len
            return self.load(st, c).len
        if k == "Discriminant":
            e = self.read_place(st, fr, v)
            if e is UNDEF:
                # a local that only ever holds one value is not always written
                t = self.place_ty(fr, v)
                one = [i for i, x in enumerate(self.p.ty[t].get("variants", [])) if not any(self.empty(f["ty"]) for f in x["fields"])]
                if len(one) == 1 and self.p.ty[t].get("kind") == "Enum" and not self.p.ty[t]["variants"][one[0]]["fields"]:
                    return int(self.p.ty[t]["variants"][one[0]]["discr"])
            if not isinstance(e, Enum):
                raise Unsupported("discriminant of %r" % type(e))
            return self.discr(e)
        if k == "Aggregate":
            kind, ops = v
            vals = [self.operand(st, fr, o) for o in ops]
            if kind == "Tuple":
                return Agg(destty, vals)
            (kk, kv), = kind.items()
            if kk == "Adt":
                ty = self.p.ty[aty]
                if ty["kind"] == "Enum":
                    return Enum(aty, kv[1], {kv[1]: tuple(vals)})
                if ty["kind"] == "Union":
                    raise Unsupported("union")
                return self.mkstruct(aty, vals)
            if kk == "Array":
                return Seq(destty, kv, len(vals), NList(vals))
            if kk == "Closure":
                return Agg(aty if aty is not None else destty, vals)
            if kk == "RawPtr":
                if isinstance(vals[0], Ref) and isinstance(vals[1], Agg):
                    return vals[0]
                raise Unsupported("raw fat pointer")
            raise Unsupported("aggregate " + kk)
        if k == "Repeat":
            x = self.operand(st, fr, v[0])
            n = self.p.ty[destty]["len"]
            return Seq(destty, self.p.ty[destty]["elem"], n, NList([x] * n))
        if k == "Cast":
            return self.cast(st, fr, v[0], self.operand(st, fr, v[1]), self.operand_ty(fr, v[1]), v[2])
        if k == "NullaryOp":
            return False
        raise Unsupported("rvalue " + k)

    def mkstruct(self, t, vals):
        n = self.p.ty[t]["name"].split("::")[-1]
        if n in ("Unique", "NonNull", "Box", "Pin", "ManuallyDrop") and vals and isinstance(vals[0], (Ref, Slice, Dyn)):
            return vals[0]
        return Agg(t, vals)

    def empty(self, t):
        """a type without values"""
        ty = self.p.ty[t]
        return ty["k"] == "never" or ty["k"] == "adt" and ty["kind"] == "Enum" and not ty["variants"]

    def discr(self, e):
        ty = self.p.ty[e.ty]
        ds = [int(v["discr"]) for v in ty["variants"]]
        if all(d == i for i, d in enumerate(ds)):
            return e.d
        if isc(e.d):
            return ds[e.d]
        r = ds[-1]
        for i in range(len(ds) - 2, -1, -1):
            r = ite(eq(e.d, i), ds[i], r)
        return r

    def narrow(self, ty):
        return ty["k"] == "float" and ty["f"].endswith("32")

    def single(self, st, x):
        """rounding to single precision: some number close to x"""
        if isc(x.v):
            import struct
            try:
                return F(Fraction(struct.unpack("f", struct.pack("f", float(x.v)))[0]), x.nan, x.pinf, x.ninf, x.negz)
            except OverflowError:
                pass
        v, z = uf("f32.round", RS, RS)(Z(x.v)), Z(x.v)
        tol = z3.If(z >= 0, z, -z) * Fraction(1, 1 << 24) + Fraction(1, 1 << 150)
        st.assume(and_(implies(eq(z, 0), eq(v, 0)), implies(and_(z < 1 << 127, z > -(1 << 127)), and_(v - z <= tol, z - v <= tol))))
        return F(v, x.nan, x.pinf, x.ninf, x.negz)

    def int_to_float(self, st, x, ty):
        big = 1 << (24 if self.narrow(ty) else 53)
        if isc(x):
            return F(Fraction(float(x)) if not self.narrow(ty) else Fraction(x), negz="no")
        r = z3.ToReal(x)
        if (self.exact_ints or self.narrow(ty)) and not valid(st.pc, and_(x <= big, x >= -big)):
            v = uf("int.round%d" % big, IS, RS)(x)
            st.assume(and_(implies(x > 0, v >= 1), implies(x < 0, v <= -1)))
            r = z3.If(z3.And(x <= big, x >= -big), r, v)
        return F(r, negz="no")

    exact_ints = False      # integers beyond 2^53 lose their low bits when they become floating point
    def cast(self, st, fr, kind, x, tf, tt):
        k = kind if isinstance(kind, str) else list(kind)[0]
        ty = self.p.ty[tt]
        if k == "IntToInt":
            if isinstance(x, Enum):
                x = self.discr(x)
            if isinstance(x, bool) or (not isc(x) and z3.is_bool(x)):
                return ite(x, 1, 0)
            if ty["k"] == "char":
                return x
            return self.wrap(st, x, ty)
        if k == "IntToFloat":
            return self.int_to_float(st, x, ty)
        if k == "FloatToFloat":
            return self.single(st, x) if self.narrow(ty) and not self.narrow(self.p.ty[tf]) else x
        if k == "FloatToInt":
            lo, hi = int_range(ty)
            if isc(x.v):
                fl = int(x.v)
            else:
                v = Z(x.v)
                if valid(st.pc, ge(v, Fraction(0))):
                    fl = self.toint(st, v)
                else:
                    fl = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            r = fl
            c = self.simp(st, lt(r, lo)); r = ite(c, lo, r)
            c = self.simp(st, gt(r, hi)); r = ite(c, hi, r)
            if not x.plain():
                r = ite(x.nan, 0, ite(x.pinf, hi, ite(x.ninf, lo, r)))
            return r
        if k in ("PtrToPtr", "Subtype"):
            return x
        if k == "PointerCoercion":
            sub_ = kind["PointerCoercion"]
            sub_ = sub_ if isinstance(sub_, str) else list(sub_)[0]
            if sub_ == "Unsize":
                to = self.p.ty[ty["to"]] if "to" in ty else self.p.ty[self.p.targ(tt)]
                if to["k"] == "slice":
                    return self.as_slice(st, x)
                if to["k"] == "dyn":
                    f = self.p.ty[tf]
                    src = f["to"] if "to" in f else self.p.targ(tf)
                    return Dyn(x, src)
                return x
            return x
        if k == "BoxDerefTransmute":
            return x
        if k == "Transmute":
            if isinstance(x, (Ref, Slice, Str, Dyn, Opaque)):
                return x
            f = self.p.ty[tf]
            if f["k"] == "float" and ty["k"] == "int":
                return models.to_bits(self, st, x)
            if f["k"] == "int" and ty["k"] == "float":
                return models.from_bits(self, st, x)
            if tf == tt or f.get("s") == ty.get("s"):
                return x
            if f["k"] == "adt" and ty["k"] == "adt" or (is_scalar(x)):
                return x
            raise Unsupported("transmute %s -> %s" % (f["s"], ty["s"]))
        raise Unsupported("cast " + k)

    def toint(self, st, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        return z3.ToInt(v)

    # ------------------------------------------------------------- execution
    def run(self, st, stop=None):
        """Execute until every path ends. stop(state): True to take the state
        out of execution (it is collected). Returns (outcomes, stopped)."""
        work = [st]
        outs, stopped = [], []
        base = getattr(self, "_base", 0)
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.maxstates:
                raise Budget("too many paths")
            if self.deadline is not None:
                import time
                if time.time() > self.deadline:
                    raise Budget("time budget")
            try:
                self.run_path(s, work, outs, stopped, stop)
            except Panic as e:
                outs.append(Outcome("panic", e.msg, s, self.where(s)))
        return outs, stopped

    def where(self, s):
        r = []
        for f in s.frames:
            i = self.p.insts[f.inst]
            b = i["body"]["blocks"][f.bb]
            r.append("%s (%s:%s)" % (i["name"], b["file"].split("/repo/")[-1], b["line"]))
        return r

    def run_path(self, s, work, outs, stopped, stop):
        while True:
            fr = s.frames[-1]
            if stop is not None and fr.si == 0:
                r = stop(s)
                if r:
                    stopped.append((r, s))
                    return
            # loop handling
            inst = self.p.insts[fr.inst]
            if fr.si == 0 and fr.entered != fr.bb:
                lps = self.p.loops(fr.inst)
                if fr.bb in lps and fr.loopctx is not None and (fr.uid, fr.bb) in fr.loopctx:
                    pass
                elif fr.bb in lps:
                    import loops
                    res, o = loops.handle(self, s, fr.bb, lps[fr.bb])
                    outs += o
                    work += res
                    return
            fr.entered = None
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget("step budget")
            blk = inst["body"]["blocks"][fr.bb]
            for j in range(max(fr.si, 0), len(blk["s"])):
                stt = blk["s"][j]
                k = stt["k"]
                if k == "assign":
                    destty = self.place_ty(fr, stt["p"])
                    try:
                        v = self.rvalue(s, fr, stt["r"], stt["aty"], destty)
                    except Fork as f:
                        fr.si = j or -1      # not the start of the block
                        s2 = s.copy()
                        s.assume(f.cond); s2.assume(not_(f.cond))
                        work += [s, s2]
                        return
                    self.write_place(s, fr, stt["p"], v)
                elif k == "setdisc":
                    raise Unsupported("set discriminant")
            t = blk["t"]
            if isinstance(t, str):
                if t == "Return":
                    if self.do_return(s, outs):
                        return
                    continue
                if t == "Unreachable":
                    return
                if t in ("Resume", "Abort"):
                    return
                raise Unsupported("terminator " + t)
            (k, v), = t.items()
            if k == "Goto":
                fr.bb = v["target"]; fr.si = 0
            elif k == "Drop":
                fr.bb = v["target"]; fr.si = 0
            elif k == "SwitchInt":
                d = self.operand(s, fr, v["discr"])
                if not (is_scalar(d)) or isinstance(d, F):
                    raise Unsupported("switch on %r" % type(d))
                brs = [(int(x), b) for x, b in v["targets"]["branches"]]
                ow = v["targets"]["otherwise"]
                if isc(d):
                    dv = int(d)
                    if dv < 0:
                        ty = self.p.ty[self.operand_ty(fr, v["discr"])]
                        if ty["k"] == "int":
                            dv = dv % (1 << (8 * ty["bytes"]))
                    fr.bb = dict(brs).get(dv, ow); fr.si = 0
                    continue
                isb = z3.is_bool(d)
                sgn = None
                if not isb:
                    ty = self.p.ty[self.operand_ty(fr, v["discr"])]
                    if ty["k"] == "int" and ty["signed"]:
                        sgn = 1 << (8 * ty["bytes"])
                conds = []
                for x, b in brs:
                    if isb:
                        conds.append((d if x else not_(d), b))
                    else:
                        if sgn and x >= sgn // 2:
                            x -= sgn
                        conds.append((eq(d, x), b))
                conds.append((and_(*[not_(c) for c, _ in conds]), ow))
                live = []
                for c, b in conds:
                    blkb = inst["body"]["blocks"][b]
                    if blkb["t"] == "Unreachable" and not blkb["s"]:
                        continue
                    cc = norm(z3.simplify(Z(c)))
                    if cc is False:
                        continue
                    if feasible(s.pc, cc):
                        live.append((cc, b))
                if not live:
                    return
                for c, b in live[1:]:
                    s2 = s.copy()
                    s2.assume(c)
                    s2.frames[-1].bb = b; s2.frames[-1].si = 0
                    work.append(s2)
                if len(live) > 1 or live[0][0] is not True:
                    s.assume(live[0][0])
                fr.bb = live[0][1]; fr.si = 0
            elif k == "Assert":
                c = self.operand(s, fr, v["cond"])
                if not v["expected"]:
                    c = not_(c)
                c = self.simp(s, c)
                if c is not True:
                    msg = v["msg"] if isinstance(v["msg"], str) else list(v["msg"])[0]
                    if c is False:
                        raise Panic(msg)
                    s2 = s.copy(); s2.assume(not_(c))
                    outs.append(Outcome("panic", msg, s2, self.where(s2)))
                    s.assume(c)
                pl = v["cond"].get("Move") or v["cond"].get("Copy")
                if pl and not v["expected"] and len(pl["projection"]) == 1 and isinstance(fr.locals.get(pl["local"]), Chk):
                    # past the overflow check the result is the exact one
                    ck = fr.locals[pl["local"]]
                    fr.locals[pl["local"]] = Agg(ck.ty, [ck.raw, False])
                fr.bb = v["target"]; fr.si = 0
            elif k == "Call":
                depth = len(s.frames)
                res = self.do_call(s, fr, v, blk)
                if res is None:
                    if len(s.frames) > depth and self.scalar_call(s):
                        # a function of numbers: its paths are joined when it returns
                        import loops
                        npc = len(s.pc)
                        o2, st2 = self.run(s, lambda x: "ret" if len(x.frames) == depth else None)
                        outs += o2
                        work += loops.merge_states(self, [x for _, x in st2], npc)
                        return
                    continue
                if res == "end":
                    return
                for kind, s2, val in res:
                    if kind == "panic":
                        outs.append(Outcome("panic", val, s2, self.where(s2)))
                    else:
                        f2 = s2.frames[-1]
                        if v["target"] is None:
                            continue
                        self.write_place(s2, f2, v["destination"], val)
                        f2.bb = v["target"]; f2.si = 0
                        work.append(s2)
                return
            else:
                raise Unsupported("terminator " + k)

    def scalar_call(self, s):
        fr = s.frames[-1]
        inst = self.p.insts[fr.inst]
        if inst["body"]["argc"] == 0 or self.p.ty[inst["body"]["locals"][0]]["k"] not in ("float", "int", "bool"):
            return False
        return all(isinstance(fr.locals[i + 1], F) or is_scalar(fr.locals[i + 1]) for i in range(inst["body"]["argc"]))

    def do_return(self, s, outs):
        fr = s.frames.pop()
        val = fr.locals.get(0, UNDEF)
        if val is UNDEF:
            t = self.p.ty[self.p.insts[fr.inst]["body"]["locals"][0]] if self.p.insts[fr.inst]["body"]["locals"][0] >= 0 else {"k": None}
            if t["k"] == "tuple" and not t["elems"]:
                val = Agg(self.p.insts[fr.inst]["body"]["locals"][0], [])      # nothing is written into a unit
        if not s.frames or fr.dest is None:
            outs.append(Outcome("ret", val, s))
            return True
        f = s.frames[-1]
        self.write_place(s, f, fr.dest, val)
        f.bb = fr.target; f.si = 0
        return False

    def do_call(self, s, fr, v, blk):
        fty = self.operand_ty(fr, v["func"])
        fty_ = self.p.ty[fty]
        if fty_["k"] == "fndef":
            iid = fty_["inst"]
            fname = fty_["name"]
        else:
            fv = self.operand(s, fr, v["func"])
            if not isinstance(fv, Fn):
                raise Unsupported("call through %r" % type(fv))
            iid = fv.inst; fname = ""
        args = [self.operand(s, fr, a) for a in v["args"]]
        if iid is None:
            raise Unsupported("unresolved call " + fname)
        return self.call(s, iid, args, v["destination"], v["target"], fname)

    def call(self, s, iid, args, dest, target, fname=""):
        inst = self.p.insts[iid]
        name = inst["name"]
        m = models.lookup(self, inst)
        if m is not None and m in models.PARTIAL:
            cx = models.Cx(self, s, inst, args, fname)
            cx.dest_ty = self.place_ty(s.frames[-1], dest) if dest is not None else None
            if not m.applies(cx):
                m = None
        if m is not None:
            self.trusted[inst["def"]] = self.trusted.get(inst["def"], 0) + 1
            cx = models.Cx(self, s, inst, args, fname)
            cx.dest_ty = self.place_ty(s.frames[-1], dest) if dest is not None else None
            r = m(cx)
            if cx.extra:
                if isinstance(r, models.Tail):
                    raise Unsupported("guarded tail call")
                if isinstance(r, models.Many):
                    r = models.Many(cx.extra + r.items)
                else:
                    r = models.Many(cx.extra + [("ok", s, r)])
            if isinstance(r, models.Tail):
                return self.call(s, r.inst, r.args, dest, target, r.fname)
            if isinstance(r, models.Many):
                return r.items
            # single value: continue in place
            if target is None:
                return "end"
            f = s.frames[-1]
            self.write_place(s, f, dest, r)
            f.bb = target; f.si = 0
            return None
        if "body" not in inst:
            r = self.ctor(inst, args, self.place_ty(s.frames[-1], dest) if dest is not None else None)
            if r is None:
                raise Unsupported("no body and no contract for " + name)
            if target is None:
                return "end"
            f = s.frames[-1]
            self.write_place(s, f, dest, r)
            f.bb = target; f.si = 0
            return None
        if len(s.frames) > 60:
            raise Unsupported("call depth")
        self.functions[name] = self.functions.get(name, 0) + 1
        self.push(s, iid, args, dest, target, fname)
        return None

    def push(self, s, iid, args, dest, target, fname=""):
        inst = self.p.insts[iid]
        body = inst["body"]
        argc = body["argc"]
        locs = {}
        sp = body.get("spread")
        is_clo = "{closure#" in inst["name"].split(" as ")[-1] or inst["name"].endswith("}")
        last = fname.split("::")[-1] if fname else ""
        if last in ("call", "call_mut", "call_once") and inst["kind"] != "shim" and len(args) == 2 and isinstance(args[1], Agg):
            tl = list(args[1].fs)
            args = [args[0]] + tl
            if argc == len(tl):       # function item called through Fn traits
                args = tl
        if sp is not None and len(args) > argc - 1 + 0 and len(args) != argc:
            # spread argument: pack
            n = sp
            args = args[:n - 1] + [Agg(body["locals"][n], args[n - 1:])]
        if len(args) != argc:
            raise Unsupported("argument count of %s (%d for %d)" % (inst["name"], len(args), argc))
        for i, a in enumerate(args):
            locs[i + 1] = a
        # by-value closure environment passed where a reference is expected
        if argc and args and isinstance(args[0], Agg) and self.p.ty[body["locals"][1]]["k"] == "ref" and last in ("call_once",):
            h = self.alloc(s, args[0]); locs[1] = h
        f = Frame(next(self.uid), iid, locs, dest, target)
        s.frames.append(f)

    def ctor(self, inst, args, t=None):
        """value built by the constructor of an enum variant or tuple struct used as a function"""
        head, _, last = inst["def"].rpartition("::")
        for ts in ([t] if t is not None else []), list(self.p.ty):
            found = []
            for k in ts:
                ty = self.p.ty[k]
                if ty["k"] != "adt": continue
                if ty["kind"] == "Enum" and ty["name"] == head:
                    vs = [i for i, x in enumerate(ty["variants"]) if x["name"] == last and len(x["fields"]) == len(args)]
                    found += [(k, i) for i in vs]
                elif ty["kind"] == "Struct" and ty["name"] == inst["def"] and len(ty["variants"][0]["fields"]) == len(args):
                    found.append((k, None))
            if len(found) == 1:
                k, i = found[0]
                return Agg(k, list(args)) if i is None else Enum(k, i, {i: tuple(args)})
        return None

    def exec_fn(self, st, iid, args):
        """all outcomes of calling a function on values in a state"""
        if "body" not in self.p.insts[iid]:
            r = self.ctor(self.p.insts[iid], args)
            if r is not None:
                return [Outcome("ret", r, st)]
        keep = st.frames
        st.frames = list(keep)
        inst = self.p.insts[iid]
        self.functions[inst["name"]] = self.functions.get(inst["name"], 0) + 1
        f = Frame(next(self.uid), iid, {i + 1: a for i, a in enumerate(args)}, None, None)
        st.frames.append(f)
        outs, _ = self.run(st)
        return outs

    # ------------------------------------------------ arbitrary values by type
    def fresh(self, st, t, name, idx=(), specials=False, depth=0):
        """arbitrary value of type t; idx: index terms (element of an arbitrary sequence)"""
        ty = self.p.ty[t]
        k = ty["k"]
        def leaf(sort, nm):
            if not idx:
                return z3.Const(nm, sort)
            return uf(nm, *([IS] * len(idx)), sort)(*[Z(i) for i in idx])
        if k == "bool":
            return leaf(BS, name)
        if k == "char":
            return leaf(IS, name)
        if k == "int":
            x = leaf(IS, name)
            lo, hi = int_range(ty)
            st.assume(and_(le(lo, x), le(x, hi)))
            if idx:
                sym.TYPED[x.decl().name()] = (lo, hi)
            return x
        if k == "float":
            x = leaf(RS, name)
            if specials:
                n, p, m = leaf(BS, name + ".nan"), leaf(BS, name + ".pinf"), leaf(BS, name + ".ninf")
                st.assume(not_(and_(n, p))); st.assume(not_(and_(n, m))); st.assume(not_(and_(p, m)))
                return F(x, n, p, m)
            return F(x)
        if k == "tuple":
            return Agg(t, [self.fresh(st, e, "%s.%d" % (name, i), idx, specials, depth + 1) for i, e in enumerate(ty["elems"])])
        if k == "array":
            return Seq(t, ty["elem"], ty["len"], NList([self.fresh(st, ty["elem"], "%s[%d]" % (name, i), idx, specials, depth + 1) for i in range(ty["len"])]))
        if k == "ref":
            tk = self.p.ty[ty["to"]]["k"]
            if tk == "str":
                return Str([("id", "", leaf(IS, name + ".str"))])
            if tk == "dyn":
                return Dyn(Opaque(("dyn", name)), None)
            if idx:
                raise Unsupported("arbitrary reference inside sequence")
            if tk == "slice":
                e = self.p.ty[ty["to"]]["elem"]
                sq = self.fresh_seq(st, ty["to"], e, name, idx, specials)
                h = self.alloc(st, sq)
                return Slice(h.root, h.path, 0, sq.len)
            return self.alloc(st, self.fresh(st, ty["to"], name, idx, specials, depth + 1))
        if k == "adt":
            n = ty["name"].split("::")[-1]
            if n == "Vec":
                return self.fresh_seq(st, t, self.p.targ(t), name, idx, specials)
            if n == "String":
                return Str([("id", "", leaf(IS, name + ".str"))])
            if n == "Lcg128Xsl64":
                i = z3.Int(name + ".pos")
                st.assume(i >= 0)
                return Rng(i, name)
            if n in ("PhantomData",):
                return Agg(t, [])
            if ty["name"] in ("std::io::Error", "core::io::Error", "io::Error", "std::io::error::Error"):
                return Opaque(("io", name) + tuple(str(i) for i in idx))
            if n == "Box":
                return self.alloc(st, self.fresh(st, self.p.targ(t), name, idx, specials, depth + 1))
            if ty["kind"] == "Struct":
                return Agg(t, [self.fresh(st, f["ty"], name + "." + f["name"], idx, specials, depth + 1) for f in ty["variants"][0]["fields"]])
            if ty["kind"] == "Enum":
                nv = len(ty["variants"])
                if nv == 1:
                    d = 0
                else:
                    d = leaf(IS, name + ".tag")
                    st.assume(and_(le(0, d), lt(d, nv)))
                pl = {}
                for vi, v in enumerate(ty["variants"]):
                    try:
                        pl[vi] = tuple(self.fresh(st, f["ty"], "%s.%s.%s" % (name, v["name"], f["name"]), idx, specials, depth + 1) for f in v["fields"])
                    except Unsupported:
                        st.assume(not_(eq(d, vi)))
                return Enum(t, d, pl)
        raise Unsupported("arbitrary value of type " + ty.get("s", k))

    newfacts = []
    dims = None       # concrete lengths by name for bounded runs

    def fresh_seq(self, st, t, e, name, idx, specials, ln=None):
        if ln is None and self.dims is not None:
            ln = self.dims(name)
        if isinstance(ln, int) and not idx:
            return Seq(t, e, ln, NList([self.fresh(st, e, "%s[%d]" % (name, i), idx, specials) for i in range(ln)]))
        if ln is None:
            ln = z3.Int(name + ".len") if not idx else uf(name + ".len", *([IS] * len(idx)), IS)(*[Z(i) for i in idx])
            st.assume(and_(le(0, ln), le(ln, MAXLEN)))
            if idx:
                sym.TYPED[ln.decl().name()] = (0, MAXLEN)
        def rd(i, self=self):
            dummy = State()
            v = self.fresh(dummy, e, name, idx + (i,), specials)
            self.newfacts = self.newfacts + dummy.pc
            return v
        return Seq(t, e, ln, NBase(rd, (name,) + tuple(str(i) for i in idx)))
