"""Linear weakening of a query: every arithmetic term is brought into canonical
polynomial form and every nonlinear monomial becomes a constant of its own, with
its sign rules.  If the weakened query has no model, neither has the query."""
import z3
from sym import *
import sym

class Lin:
    """Results are kept between queries; deps collects the definitions and sign
    rules that belong to what is being built."""
    def __init__(self):
        self.bc = {}          # boolean cache: id -> (formula, result, deps)
        self.tc = {}          # atom cache
        self.mc = {}          # monomial cache
        self.n = 0
        self.deps = {}        # id -> constraint
        self.depth = 0

    def fresh(self, sort):
        self.n += 1
        return z3.Const("lin#%d" % self.n, sort)

    def cons(self, c):
        self.deps[c.get_id()] = c

    def cached(self, d, k, keep, f):
        if k in d:
            r = d[k]
            self.deps.update(r[2])
            return r[1]
        outer, self.deps = self.deps, {}
        try:
            r = f()
            d[k] = (keep, r, self.deps)
        finally:
            outer.update(self.deps)
            self.deps = outer
        return r

    def b(self, x):
        return self.cached(self.bc, x.get_id(), x, lambda: self.b_(x))

    def b_(self, x):
        k = x.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and (z3.is_arith(x.arg(0)))):
            p = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
            l = self.poly(p, z3.is_int(x.arg(0)))
            if k == z3.Z3_OP_LE: return l <= 0
            if k == z3.Z3_OP_LT: return l < 0
            if k == z3.Z3_OP_GE: return l >= 0
            if k == z3.Z3_OP_GT: return l > 0
            return l == 0
        if x.num_args() == 0:
            return x
        ch = [self.any(c) for c in x.children()]
        import solve
        return solve.rebuild(x, ch)

    def any(self, x):
        if z3.is_bool(x):
            return self.b(x)
        if z3.is_arith(x):
            return self.poly(poly(x), z3.is_int(x))
        if x.num_args() == 0:
            return x
        return x.decl()(*[self.any(c) for c in x.children()])

    def poly(self, p, isint):
        if isint and any(c.denominator != 1 for c in p.values()):
            raise Unsupported("fraction in integer polynomial")
        ts = []
        for m in sorted(p):
            c = p[m]
            cz = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            if not m:
                ts.append(cz); continue
            t = self.mono(m, isint)
            ts.append(t if c == 1 else cz * t)
        if not ts:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def mono(self, m, isint):
        if len(m) == 1 and m[0][1] == 1:
            t = self.atom(m[0][0])
            if z3.is_int(t) and not isint:
                t = z3.ToReal(t)
            return t
        return self.cached(self.mc, (m, isint), None, lambda: self.mono_(m, isint))

    def mono_(self, m, isint):
        t = self.fresh(IS if isint else RS)
        # a conditional factor: the monomial is conditional
        for j, (a, x) in enumerate(m):
            at = sym._atoms[a]
            if x > 0 and z3.is_app(at) and at.decl().kind() == z3.Z3_OP_ITE and self.depth < 6:
                self.depth += 1
                try:
                    c, u, v = at.children()
                    rest = {m[:j] + m[j + 1:]: Fraction(1)}
                    pu, pv = rest, rest
                    for _ in range(x):
                        pu, pv = pmul(pu, poly(u)), pmul(pv, poly(v))
                    if len(pu) + len(pv) < 60:
                        self.cons(t == z3.If(self.b(c), self.poly(pu, isint), self.poly(pv, isint)))
                finally:
                    self.depth -= 1
                break
        self.signs(m, t, isint)
        return t

    def signs(self, m, t, isint):
        z = z3.IntVal(0) if isint else z3.RealVal(0)
        # group even powers: their product is not negative
        odd = [a for a, x in m if x % 2]
        fs = {a: self.atomr(a) for a, _ in m}
        if not odd:
            self.cons(t >= z)
            if all(x > 0 for _, x in m):
                self.cons(z3.Implies(t == z, z3.Or([fs[a] == 0 for a, _ in m])))
                for a, _ in m:
                    self.cons(z3.Implies(fs[a] == 0, t == z))
            else:
                self.cons(z3.Implies(z3.And([fs[a] != 0 for a, _ in m]), t > z))
            return
        nz = [fs[a] != 0 for a, x in m if x % 2 == 0]
        if len(odd) <= 3:
            import itertools
            for sg in itertools.product((1, -1), repeat=len(odd)):
                h = [fs[a] > 0 if s > 0 else fs[a] < 0 for a, s in zip(odd, sg)] + nz
                pos = 1
                for s in sg: pos *= s
                self.cons(z3.Implies(z3.And(h), t > z if pos > 0 else t < z))
        else:
            self.cons(z3.Implies(z3.And([fs[a] > 0 for a in odd] + nz), t > z))
        for a, x in m:
            if x > 0:
                self.cons(z3.Implies(fs[a] == 0, t == z))

    def atomr(self, a):
        return self.atom(a)

    def atom(self, a):
        at = sym._atoms[a]
        return self.cached(self.tc, at.get_id(), at, lambda: self.atom_(at))

    def atom_(self, at):
        if at.num_args() == 0:
            return at
        k = at.decl().kind()
        if k == z3.Z3_OP_ITE:
            t = self.fresh(at.sort())
            c, u, v = at.children()
            self.cons(t == z3.If(self.b(c), self.any(u), self.any(v)))
            return t
        if k == z3.Z3_OP_UNINTERPRETED:
            return at.decl()(*[self.any(c) for c in at.children()])
        if k == z3.Z3_OP_TO_REAL:
            i = at.arg(0)
            if i.num_args() == 0:
                return at
            return z3.ToReal(self.any(i))
        if k == z3.Z3_OP_TO_INT:
            return z3.ToInt(self.any(at.arg(0)))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(at.arg(1)):
            u = self.any(at.arg(0))
            return u / at.arg(1) if k == z3.Z3_OP_IDIV else u % at.arg(1)
        return self.fresh(at.sort())

LIN = Lin()

def weaken(fs):
    l = LIN
    l.deps = {}
    l.depth = 0
    out = [l.b(f) for f in fs]
    return out + list(l.deps.values())
