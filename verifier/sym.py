"""Scalars of the verifier: exact integers, idealised IEEE-754 floats (a real
value plus NaN / +inf / -inf flags, no rounding), canonical polynomials, sums
over index ranges, and the interface to the SMT back ends."""
import z3, time, subprocess, os, tempfile
from fractions import Fraction

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- basic terms
def isc(x):
    return isinstance(x, (bool, int, Fraction))

def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x

def R(x):
    """as a real z3 term or Fraction"""
    if isinstance(x, bool):
        raise Unsupported("bool as real")
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if z3.is_int(x):
        return z3.ToReal(x)
    return x

def norm(x):
    """z3 literal -> python constant"""
    if isc(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x

def same(a, b):
    if a is b:
        return True
    if isc(a) or isc(b):
        return isc(a) and isc(b) and type(a) == type(b) and a == b
    return a.eq(b)

def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return Z(a) + Z(b)

def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if same(a, b):
        return a * 0 if isc(a) else (0 if z3.is_int(a) else Fraction(0))
    return Z(a) - Z(b)

def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        if a == 0:
            return a
        if a == 1:
            return b
    if isc(b):
        if b == 0:
            return b
        if b == 1:
            return a
    return Z(a) * Z(b)

def rdiv(a, b):
    if isc(a) and isc(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if isc(b) and b != 0:
        return mul(Fraction(1) / Fraction(b), a)
    if isc(a) and a == 0:
        return Fraction(0)
    return Z(a) / Z(b)

def neg(a):
    return -a

def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    if same(a, b):
        return False
    return Z(a) < Z(b)

def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    if same(a, b):
        return True
    return Z(a) <= Z(b)

def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)

def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    if same(a, b):
        return True
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    return Z(a) == Z(b)

def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)

def and_(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)

def or_(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)

def implies(a, b):
    return or_(not_(a), b)

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else not_(c)
    if isinstance(a, bool):
        return or_(c, b) if a else and_(not_(c), b)
    if isinstance(b, bool):
        return or_(not_(c), a) if b else and_(c, a)
    if isinstance(a, int) and not isc(b) and z3.is_real(b):
        a = Fraction(a)
    return z3.If(c, Z(a), Z(b))

def minus1(a):
    return sub(a, 1)

_cnt = [0]
def fresh_name(base):
    _cnt[0] += 1
    return "%s!%d" % (base, _cnt[0])

def fresh_int(base): return z3.Int(fresh_name(base))
def fresh_real(base): return z3.Real(fresh_name(base))
def fresh_bool(base): return z3.Bool(fresh_name(base))

# ------------------------------------------------------------------- floats
class F:
    """idealised IEEE double: exact real arithmetic, NaN and infinities by flag"""
    __slots__ = ("v", "nan", "pinf", "ninf", "negz")
    def __init__(self, v, nan=False, pinf=False, ninf=False, negz=False):
        self.v = v; self.nan = nan; self.pinf = pinf; self.ninf = ninf; self.negz = negz
    def isfin(self):
        return not_(or_(self.nan, self.pinf, self.ninf))
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False
    def __repr__(self):
        if self.plain():
            return "F(%s)" % (self.v,)
        return "F(%s nan=%s +inf=%s -inf=%s)" % (self.v, self.nan, self.pinf, self.ninf)

NAN = F(Fraction(0), nan=True)
PINF = F(Fraction(0), pinf=True)
NINF = F(Fraction(0), ninf=True)

def fpos(a):
    return or_(a.pinf, and_(not_(a.ninf), not_(a.nan), gt(a.v, Fraction(0))))
def fneg_(a):
    return or_(a.ninf, and_(not_(a.pinf), not_(a.nan), lt(a.v, Fraction(0))))
def fzero(a):
    return and_(a.isfin(), eq(a.v, Fraction(0)))

def fadd(a, b):
    v = add(a.v, b.v)
    if a.plain() and b.plain():
        return F(v)
    nan = or_(a.nan, b.nan, and_(a.pinf, b.ninf), and_(a.ninf, b.pinf))
    return F(v, nan, and_(not_(nan), or_(a.pinf, b.pinf)), and_(not_(nan), or_(a.ninf, b.ninf)))

def fneg(a):
    return F(neg(a.v), a.nan, a.ninf, a.pinf)

def fsub(a, b):
    if a.plain() and b.plain():
        return F(sub(a.v, b.v))
    return fadd(a, fneg(b))

def fmul(a, b):
    v = mul(a.v, b.v)
    if a.plain() and b.plain():
        return F(v)
    ai = or_(a.pinf, a.ninf); bi = or_(b.pinf, b.ninf)
    nan = or_(a.nan, b.nan, and_(ai, fzero(b)), and_(bi, fzero(a)))
    inf = and_(not_(nan), or_(ai, bi))
    pos = or_(and_(fpos(a), fpos(b)), and_(fneg_(a), fneg_(b)))
    return F(v, nan, and_(inf, pos), and_(inf, not_(pos)))

def fdiv(a, b, nonzero=None):
    """nonzero: callable deciding whether the divisor is known to be nonzero"""
    bz = eq(b.v, Fraction(0))
    if bz is not False and nonzero is not None and nonzero(bz):
        bz = False
    if bz is True:
        v = Fraction(0)
    else:
        v = rdiv(a.v, b.v)
    if a.plain() and b.plain() and bz is False:
        return F(v)
    bzf = and_(b.isfin(), bz)
    ai = or_(a.pinf, a.ninf); bi = or_(b.pinf, b.ninf)
    nan = or_(a.nan, b.nan, and_(ai, bi), and_(bzf, fzero(a)))
    if bz is False:
        zs = False
    elif isc(b.v):
        zs = fresh_bool("zsign")
    elif z3.is_to_real(b.v):
        zs = fpos(a)                # an integer converts to +0.0
    else:
        zs = fresh_bool("zsign")
    inf = and_(not_(nan), or_(ai, and_(bzf, not_(a.isfin() if False else fzero(a)))))
    pos = or_(and_(fpos(a), fpos(b)), and_(fneg_(a), fneg_(b)), and_(bzf, zs))
    if not (bi is False):
        v = ite(bi, Fraction(0), v)
    return F(v, nan, and_(inf, pos), and_(inf, not_(pos)))

def frem(a, b):
    raise Unsupported("float remainder")

def fabs(a):
    v = a.v
    if isc(v):
        v = abs(v)
    else:
        v = z3.If(v < 0, -v, v)
    return F(v, a.nan, or_(a.pinf, a.ninf), False)

def _nn(a, b):
    return and_(not_(a.nan), not_(b.nan))

def flt(a, b):
    if a.plain() and b.plain():
        return lt(a.v, b.v)
    return and_(_nn(a, b), not_(a.pinf), not_(b.ninf),
                or_(a.ninf, b.pinf, lt(a.v, b.v)))

def feq(a, b):
    if a.plain() and b.plain():
        return eq(a.v, b.v)
    return and_(_nn(a, b), or_(and_(a.pinf, b.pinf), and_(a.ninf, b.ninf),
                and_(a.isfin(), b.isfin(), eq(a.v, b.v))))

def fle(a, b):
    if a.plain() and b.plain():
        return le(a.v, b.v)
    return or_(flt(a, b), feq(a, b))

def fsame(a, b):
    """identical as values (NaN same as NaN)"""
    if a.plain() and b.plain():
        return eq(a.v, b.v)
    return or_(and_(a.nan, b.nan), feq(a, b))

def fite(c, a, b):
    return F(ite(c, a.v, b.v), ite(c, a.nan, b.nan), ite(c, a.pinf, b.pinf), ite(c, a.ninf, b.ninf))

# uninterpreted real functions with axioms added at solving time
UF = {}
def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in UF:
        UF[k] = z3.Function(name, *sorts)
    return UF[k]
RS = z3.RealSort(); IS = z3.IntSort(); BS = z3.BoolSort()
SQRT = uf("sqrt", RS, RS)
EXP = uf("exp", RS, RS)
LN = uf("ln", RS, RS)
POW = uf("pow", RS, RS, RS)      # x^y, real exponent
POWI = uf("powi", RS, IS, RS)    # x^n, symbolic integer exponent
UDRAW = uf("U", IS, RS)          # the i-th draw of the generator as Open01
GDRAW = uf("G", IS, RS)          # the i-th draw of the generator as StandardNormal

def rsqrt(v):
    if isc(v):
        v = Fraction(v)
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Fraction(n, d)
    else:
        v = pz(poly(v))
        v = norm(v)
        if isc(v):
            return rsqrt(v)
    return SQRT(Z(v))

# --------------------------------------------------------------- polynomials
# dict: monomial (tuple of (atom key, exponent) sorted) -> Fraction
_atoms = {}
_poly_cache = {}
def atom(t):
    k = t.get_id()
    if k not in _atoms:
        _atoms[k] = t
    return k

def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        s = r.get(m, 0) + c * k
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r

def pmul(p, q):
    r = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted((a, e) for a, e in d.items() if e))
            s = r.get(m, 0) + k1 * k2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    return r

def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}

def poly(e, depth=0):
    if isc(e):
        return pconst(Fraction(e))
    key = e.get_id()
    if key in _poly_cache:
        return _poly_cache[key][1]
    r = _poly(e)
    _poly_cache[key] = (e, r)
    return r

def _poly(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return pconst(norm(e) if isinstance(norm(e), Fraction) else Fraction(norm(e)))
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        cs = e.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = pconst(1)
        for c in e.children():
            r = pmul(r, poly(c))
            if len(r) > 400:
                raise Unsupported("polynomial too large")
        return r
    if k == z3.Z3_OP_DIV:
        d = poly(e.arg(1))
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple((a, -x) for a, x in m): 1 / c}
            return pmul(poly(e.arg(0)), inv)
        den = pz(d)
        return pmul(poly(e.arg(0)), {((atom(den), -1),): Fraction(1)})
    if k == z3.Z3_OP_TO_REAL:
        inner = e.arg(0)
        p = poly(inner)
        # distribute ToReal over the integer polynomial
        r = {}
        for m, c in p.items():
            mm = tuple(sorted((atom(z3.ToReal(_atoms[a])), x) if not z3.is_real(_atoms[a]) else (a, x) for a, x in m))
            r = padd(r, {mm: c})
        return r
    if k == z3.Z3_OP_ITE and z3.is_real(e):
        # canonicalise branches
        a, b, c = e.children()
        t = z3.If(a, pz(poly(b)), pz(poly(c)))
        return {((atom(t), 1),): Fraction(1)}
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
        args = [pz(poly(c)) if (z3.is_real(c) or z3.is_int(c)) else c for c in e.children()]
        args = [(z3.ToInt(x) if (z3.is_int(c) and z3.is_real(x)) else x) for x, c in zip(args, e.children())]
        args = [Z(norm(x)) if False else x for x in args]
        t = e.decl()(*[_coerce(x, e.decl().domain(i)) for i, x in enumerate(args)])
        return {((atom(t), 1),): Fraction(1)}
    return {((atom(e), 1),): Fraction(1)}

def _coerce(x, sort):
    if isc(x):
        if sort == RS:
            return z3.RealVal(str(Fraction(x)))
        if sort == IS:
            return z3.IntVal(int(x))
        return z3.BoolVal(x)
    if sort == RS and z3.is_int(x):
        return z3.ToReal(x)
    return x

def pz(p):
    """canonical z3 term (or python constant) of a polynomial"""
    if not p:
        return Fraction(0)
    isint = all(z3.is_int(_atoms[a]) and x > 0 for m in p for a, x in m) and all(c.denominator == 1 for c in p.values()) and any(m for m in p)
    terms = []
    for m in sorted(p):
        c = p[m]
        t = None
        for a, x in m:
            at = _atoms[a]
            if not isint and z3.is_int(at):
                at = z3.ToReal(at)
            for _ in range(abs(x)):
                if x > 0:
                    t = at if t is None else t * at
                else:
                    t = (1 / at) if t is None else t / at
        if t is None:
            t = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
        elif c != 1:
            t = (z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * t
        terms.append(t)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return norm(r)

def psame(a, b):
    """equal as polynomials over atoms"""
    if same(a, b):
        return True
    try:
        return not padd(poly(a), poly(b), -1)
    except Unsupported:
        return False

def iz(e):
    """canonical integer term"""
    if isc(e):
        return e
    r = pz(poly(e))
    if isinstance(r, Fraction):
        return int(r)
    return r

# --------------------------------------------------------------------- sums
# sum over i in [lo,hi) of f(i): coefficients are moved out and each remaining
# monomial becomes an application of a function symbol determined by the
# monomial up to renaming of its free constants, which are its extra arguments.
_sum_reg = {}
_BV = z3.Int("#i")
SUMINFO = {}      # decl name -> (list of const vars, expr over _BV and const vars)

def consts_of(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.get_id()] = x
        st.extend(x.children())
    return acc

def contains(e, t):
    if isc(e):
        return False
    seen = set(); st = [e]
    i = t.get_id()
    while st:
        x = st.pop()
        if x.get_id() == i:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False

RANGECTX = []      # (index variable, lo, hi) of the sums being formed
NONNEG = []        # (term, [names of its sums]): sums of non-negative summands
_nnkeys = set()

def sum_range(f, lo, hi):
    """f: python function index term -> real term"""
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
        r = Fraction(0)
        for i in range(lo, hi):
            r = add(r, f(i))
        return r
    bv = z3.Int("#b%d" % len(RANGECTX))
    RANGECTX.append((bv, lo, hi))
    try:
        body = f(bv)
    finally:
        RANGECTX.pop()
    if isc(body):
        return mul(R(sub(hi, lo)), body)
    cut = _range_cut(body, bv)
    if cut is not None:
        # a summand that is one thing below an index and another from there on
        cond, m, below = cut
        lo_, hi_ = Z(lo), Z(hi)
        a, b = (_resolve(body, cond, v, bv) for v in (below, not below))
        def upto(i): return lambda j: zsub(i, [(bv, Z(j))]) if not isc(i) else i
        st = _order(m, lo, hi)
        if st == "hi": return sum_range(upto(a), lo, hi)
        if st == "lo": return sum_range(upto(b), lo, hi)
        if st != "mid": m = z3.If(m < lo_, lo_, z3.If(m > hi_, hi_, m))
        return add(sum_range(upto(a), lo, m), sum_range(upto(b), m, hi))
    p = poly(body)
    total = Fraction(0)
    for m, c in p.items():
        dep = [(a, x) for a, x in m if contains(_atoms[a], bv)]
        ind = [(a, x) for a, x in m if not contains(_atoms[a], bv)]
        coef = pz({tuple(ind): c})
        if not dep:
            total = add(total, mul(R(sub(hi, lo)), R(coef)))
            continue
        mono = pz({tuple(dep): Fraction(1)})
        total = add(total, mul(R(coef), _sum_sym(zsub(R(mono), [(bv, _BV)]), lo, hi)))
    if not isc(total) and len(p) > 1:
        kb = zsub(body, [(bv, _BV)])
        k = kb.sexpr()
        if k not in _nnkeys:
            _nnkeys.add(k)
            if _nonneg_poly(p):
                NONNEG.append((kb, _sum_apps(total)))
    return total

def _sum_apps(t):
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith("SUM") and x.num_args():
            out.append(x)
        else:
            st.extend(x.children())
    return out

DECIDE = [None]        # decides conditions under the current path condition, if set

def _order(m, lo, hi):
    def holds(c):
        if isc(c): return bool(c)
        if DECIDE[0] is None: return False
        return bool(DECIDE[0](c))
    if holds(le(hi, m)): return "hi"
    if holds(le(m, lo)): return "lo"
    if holds(le(lo, m)) and holds(le(m, hi)): return "mid"
    return None

def _range_cut(body, bv):
    """(condition, m, v): a condition in body that is v for bv < m and not v from m on"""
    st, seen = [body], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, v = x.arg(0), True
            while z3.is_not(c):
                c, v = c.arg(0), not v
            k = c.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(c.arg(0)) and contains(c, bv):
                p = poly(sub(c.arg(0), c.arg(1)))
                hb = atom(bv)
                mine = [(m, q) for m, q in p.items() if any(y[0] == hb for y in m)]
                if len(mine) == 1 and mine[0][0] == ((hb, 1),) and abs(mine[0][1]) == 1:
                    q = mine[0][1]
                    rest = iz(pz({m: w for m, w in p.items() if m != mine[0][0]}))      # q*bv + rest REL 0
                    if not (not isc(rest) and contains(rest, bv)):
                        t = sub(0, rest) if q == 1 else rest                              # bv REL' t
                        if q == -1: k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
                        m = t if k in (z3.Z3_OP_LT, z3.Z3_OP_GE) else add(t, 1)
                        return c, Z(iz(m)), k in (z3.Z3_OP_LT, z3.Z3_OP_LE)
        st.extend(x.children())
    return None

def _resolve(body, cond, v, bv):
    """body where cond is known to be v"""
    while True:
        reps, st, seen = [], [body], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c, w = x.arg(0), v
                while z3.is_not(c): c, w = c.arg(0), not w
                if c.get_id() == cond.get_id():
                    reps.append((x, x.arg(1) if w else x.arg(2)))
                    continue
            st.extend(x.children())
        if not reps:
            return norm(body)
        body = z3.substitute(body, *reps)

_nninst = {}
def nonneg_facts(apps):
    """instances of: a sum of non-negative summands is non-negative"""
    out = []
    by = {}
    for a in apps:
        by.setdefault(a.decl().name(), []).append(a)
    for body, tapps in list(NONNEG):
        if not all(t.decl().name() in by for t in tapps):
            continue
        for t in tapps:
            for a in by[t.decl().name()]:
                key = (body.get_id(), t.get_id(), a.get_id())
                if key not in _nninst:
                    subs = []
                    ok = True
                    for j in range(2, t.num_args()):
                        if z3.is_const(t.arg(j)) and not t.arg(j).eq(a.arg(j)):
                            subs.append((t.arg(j), a.arg(j)))
                        elif not t.arg(j).eq(a.arg(j)):
                            ok = False
                    r = None
                    if ok:
                        b2 = zsub(body, subs)
                        try:
                            tot = sum_range(lambda i: zsub(b2, [(_BV, Z(i))]), a.arg(0), a.arg(1))
                            r = None if isc(tot) else z3.Implies(Z(le(norm(a.arg(0)), norm(a.arg(1)))), tot >= 0)
                        except Unsupported:
                            r = None
                    _nninst[key] = (r, body, t, a)
                r = _nninst[key][0]
                if r is not None and all(id_in(x, by) for x in _sum_apps(r)):
                    if all(not r.eq(o) for o in out):
                        out.append(r)
    return out

def id_in(x, by):
    return any(x.eq(y) for y in by.get(x.decl().name(), ()))

def _nonneg_poly(p):
    if all(c >= 0 and all(x % 2 == 0 for _, x in m) for m, c in p.items()):
        return True
    names = sorted({a for m in p for a, _ in m}, key=str)
    if len(names) > 8:
        return False
    vs = {a: z3.Real("#v%d" % i) for i, a in enumerate(names)}
    e = z3.RealVal(0)
    for m, c in p.items():
        t = z3.RealVal(str(c))
        for a, x in m:
            for _ in range(x):
                t = t * vs[a]
        e = e + t
    s = z3.Tactic("qfnra-nlsat").solver()
    s.set("timeout", 500)
    s.add(e < 0)
    return s.check() == z3.unsat

def _sum_sym(mono, lo, hi):
    cs = [c for c in consts_of(mono).values() if c.get_id() != _BV.get_id()]
    cs.sort(key=lambda c: c.decl().name())
    # rename by order of first occurrence for canonicity
    order = []
    def walk(x):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() != _BV.get_id():
            if all(x.get_id() != o.get_id() for o in order):
                order.append(x)
        for c in x.children():
            walk(c)
    walk(mono)
    ren = [(c, z3.Const("#c%d%s" % (j, c.sort().name()), c.sort())) for j, c in enumerate(order)]
    canon = z3.substitute(mono, *ren) if ren else mono
    canon = z3.simplify(canon, som=False) if False else canon
    key = canon.sexpr()
    if key not in _sum_reg:
        name = "SUM%d" % len(_sum_reg)
        d = z3.Function(name, *([IS, IS] + [c.sort() for c in order] + [RS]))
        _sum_reg[key] = d
        SUMINFO[name] = ([r[1] for r in ren], canon)
    d = _sum_reg[key]
    return d(Z(lo), Z(hi), *order)

def sum_body(app, i):
    """the summand of a SUM application at index i"""
    cs, canon = SUMINFO[app.decl().name()]
    subs = [(_BV, Z(i))] + [(c, app.arg(2 + j)) for j, c in enumerate(cs)]
    return z3.substitute(canon, *subs)

# ------------------------------------------------------- some index of a range
_any_reg = {}
TYPED = {}         # name of an array of integers -> range of their type
ANYINFO = {}       # decl name -> (const vars, condition over _BV and const vars, witness function)

def any_range(f, lo, hi):
    """whether f(i) holds for some i in [lo,hi): an application of a predicate
    symbol determined by the condition up to renaming of its free constants"""
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
        return or_(*[f(i) for i in range(lo, hi)])
    bv = z3.Int("#b%d" % len(RANGECTX))
    RANGECTX.append((bv, lo, hi))
    try:
        body = f(bv)
    finally:
        RANGECTX.pop()
    if body is False:
        return False
    if not isc(body):
        body = zsub(body, [(bv, _BV)])
    if isc(body) or not contains(body, _BV):
        return and_(lt(lo, hi), body)
    order = []
    def walk(x):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() != _BV.get_id():
            if all(x.get_id() != o.get_id() for o in order):
                order.append(x)
        for c in x.children():
            walk(c)
    walk(body)
    ren = [(c, z3.Const("#c%d%s" % (j, c.sort().name()), c.sort())) for j, c in enumerate(order)]
    canon = z3.substitute(body, *ren) if ren else body
    key = canon.sexpr()
    if key not in _any_reg:
        name = "ANY%d" % len(_any_reg)
        sorts = [IS, IS] + [c.sort() for c in order]
        _any_reg[key] = z3.Function(name, *(sorts + [z3.BoolSort()]))
        ANYINFO[name] = ([r[1] for r in ren], canon, z3.Function("#wit%d" % (len(_any_reg) - 1), *(sorts + [IS])))
    return _any_reg[key](Z(lo), Z(hi), *order)

def any_body(app, i):
    cs, canon, _ = ANYINFO[app.decl().name()]
    return norm(z3.substitute(canon, (_BV, Z(i)), *[(c, app.arg(2 + j)) for j, c in enumerate(cs)]))

def any_facts(app):
    """what such a predicate means: facts and facts about all indices"""
    lo, hi = app.arg(0), app.arg(1)
    w = ANYINFO[app.decl().name()][2](*app.children())
    v = z3.Int("#any")
    return [z3.Implies(app, z3.And(lo <= w, w < hi, Z(any_body(app, w))))], \
        [QFact(iz(norm(lo)), iz(norm(hi)), v, implies(any_body(app, v), app))]

# ------------------------------------------------------------------ facts
class QFact:
    """for all integers i in [lo,hi): fn(i)"""
    def __init__(self, lo, hi, var, body):
        self.lo, self.hi, self.var, self.body = lo, hi, var, body
    def inst(self, i):
        b = z3.substitute(Z(self.body), (self.var, Z(i)))
        return implies(and_(le(self.lo, i), lt(i, self.hi)), b)
    def subst(self, *subs):
        return QFact(zsub(self.lo, subs), zsub(self.hi, subs), self.var, zsub(self.body, subs))
    def key(self):
        return ("q", str(self.lo), str(self.hi), Z(self.body).get_id())

def zsub(e, subs):
    if isc(e):
        return e
    return norm(z3.substitute(e, *subs))

def iff(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    return Z(a) == Z(b)
