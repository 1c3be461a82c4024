"""Discharging obligations: preparation of a quantifier-free query (instances of
range facts, definitions of sqrt/exp/ln/pow and sums) and the SMT back ends."""
import z3, time, subprocess, os, tempfile
from sym import *
import sym

STAT = {"queries": 0, "time": 0.0, "backend": {}}
CVC5 = "/usr/local/bin/cvc5"

_info = {}
def info(f):
    """applications with arguments in a formula, and whether it has nonlinear arithmetic (cached)"""
    k = f.get_id()
    r = _info.get(k)
    if r is not None:
        return r[1], r[2]
    seen = set(); out = {}; st = [f]; nl = False
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        ch = x.children()
        if ch:
            dk = x.decl().kind()
            if dk == z3.Z3_OP_UNINTERPRETED:
                out[xi] = x
            elif dk == z3.Z3_OP_MUL:
                if sum(1 for c in ch if not is_num(c)) > 1:
                    nl = True
            elif dk in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                if not is_num(ch[1]) or dk == z3.Z3_OP_POWER:
                    nl = True
            st.extend(ch)
    _info[k] = (f, out, nl)
    return out, nl

_into = {}
def intonly(f):
    """a linear formula over integers and booleans only"""
    if isc(f):
        return True
    k = f.get_id()
    r = _into.get(k)
    if r is not None:
        return r[1]
    ok = not info(f)[1]
    if ok:
        seen = set(); st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not (z3.is_bool(x) or z3.is_int(x)):
                ok = False
                break
            st.extend(x.children())
    _into[k] = (f, ok)
    return ok

def is_num(c):
    return z3.is_rational_value(c) or z3.is_int_value(c)

def apps(es):
    """all uninterpreted applications (with arguments) in the terms"""
    out = {}
    for e in es:
        if not isc(e):
            out.update(info(e)[0])
    return out

_idx = {}
def index_terms(es):
    """integer arguments of uninterpreted applications"""
    out = {}
    for f in es:
        if isc(f):
            continue
        k = f.get_id()
        c = _idx.get(k)
        if c is None:
            r = {}
            for a in info(f)[0].values():
                if a.decl().name().startswith("SUM"):
                    continue
                for x in a.children():
                    if z3.is_int(x):
                        x = iz(x)
                        r[str(x)] = x
            c = _idx[k] = (f, r)
        out.update(c[1])
    return list(out.values())

def instantiate(hyps, goals, rounds=2, extra=()):
    plain = [h for h in hyps if not isinstance(h, QFact)]
    qs = [h for h in hyps if isinstance(h, QFact)]
    if sym.ANYINFO:
        seen = set()
        for rnd in range(2):
            for a in list(apps(plain + list(goals) + [Z(q.body) for q in qs if not isc(q.body) and not rnd]).values()):
                if a.decl().name() in sym.ANYINFO and a.get_id() not in seen and not any(v.get_id() in (q.var.get_id() for q in qs) for v in sym.consts_of(a).values()):
                    seen.add(a.get_id())
                    f, q = sym.any_facts(a)
                    plain += f
                    qs += q
                    for r in apps(f).values():
                        if r.decl().name() in sym.TYPED and not contains(r, sym._BV):
                            lo, hi = sym.TYPED[r.decl().name()]
                            plain.append(z3.And(Z(le(lo, r)), Z(le(r, hi))))
    done = set()
    inst = []
    for _ in range(rounds):
        if not qs:
            break
        terms = index_terms(plain + inst + goals) + list(extra)
        for q in qs:
            terms += [iz(sub(q.hi, 1)), q.lo]
            if isinstance(q.lo, int) and isinstance(q.hi, int) and q.hi - q.lo <= 8:
                terms += range(q.lo, q.hi)
        # values matter relative to the bound variable's use: offsets appear as
        # (base + i); also offer differences with the offsets used in the facts
        new = []
        for q in qs:
            offs = q.__dict__.get("_offs")
            if offs is None:
                offs = [0]
                for a in apps([Z(q.body)]).values():
                    for c in a.children():
                        if z3.is_int(c) and contains(c, q.var):
                            o = iz(sub(c, q.var))
                            if not (isc(o) and o == 0) and not (not isc(o) and contains(o, q.var)) and all(not same(o, x) for x in offs):
                                offs.append(o)
                q._offs = offs
            for t in terms:
                for o in offs:
                    i = iz(sub(t, o))
                    k = (id(q), str(i))
                    if k in done:
                        continue
                    done.add(k)
                    f = q.inst(i)
                    if f is True:
                        continue
                    new.append(Z(f))
        inst += new
        if not new or len(inst) > 400:
            break
    return plain + inst

_recanon = {}
def recanon(a):
    """a sum whose arguments were substituted, in its canonical form"""
    k = a.get_id()
    if k not in _recanon:
        r = None
        try:
            t = sum_range(lambda i: norm(sum_body(a, i)), norm(a.arg(0)), norm(a.arg(1)))
            if not same(t, a):
                r = (a == Z(R(t)))
        except Unsupported:
            pass
        _recanon[k] = (r, a)
    return _recanon[k][0]

def sumaxioms(es):
    ax = []
    sums = {}
    for a in apps(es).values():
        if a.decl().name().startswith("SUM"):
            r = recanon(a)
            if r is not None:
                ax.append(r)
    for a in apps(list(es) + ax).values():
        n = a.decl().name()
        if n.startswith("SUM"):
            sums.setdefault(n, []).append(a)
    if sums and sym.NONNEG:
        ax += sym.nonneg_facts([a for l in sums.values() for a in l])
    for n, l in sums.items():
        for a in l:
            lo, hi = a.arg(0), a.arg(1)
            ax.append(z3.Implies(hi <= lo, a == 0))
            ax.append(z3.Implies(hi == lo + 1, a == sum_body(a, lo)))
            if nonneg_summand(n):
                ax.append(a >= 0)
            for b in l:
                if b is not a and all(b.arg(i).eq(a.arg(i)) for i in range(a.num_args()) if i != 1):
                    d = iz(sub(b.arg(1), hi))
                    if isc(d) and d == 1:
                        ax.append(z3.Implies(lo <= hi, b == a + sum_body(a, hi)))
                    elif nonneg_summand(n):
                        ax.append(z3.Implies(z3.And(lo <= hi, hi <= b.arg(1)), a <= b))
                if b is not a and all(b.arg(i).eq(a.arg(i)) for i in range(2, a.num_args())) and b.arg(0).eq(a.arg(1)):
                    # S(lo,hi)+S(hi,h2) = S(lo,h2)
                    c = a.decl()(lo, b.arg(1), *[a.arg(i) for i in range(2, a.num_args())])
                    ax.append(z3.Implies(z3.And(lo <= hi, hi <= b.arg(1)), c == a + b))
    return ax

def nonneg_summand(name):
    cs, canon = SUMINFO[name]
    p = poly(canon)
    for m, c in p.items():
        if c < 0:
            return False
        for a, x in m:
            if x % 2:
                at = sym._atoms[a]
                if not (z3.is_app(at) and at.decl().name() in ("exp", "sqrt")):
                    return False
    return True

_lnb = {}
def ln_bounds(x):
    """rational bounds of the logarithm of a positive number, by interval arithmetic"""
    if not is_num(x):
        return None
    k = x.get_id()
    if k not in _lnb:
        q = x.as_fraction() if z3.is_rational_value(x) else Fraction(x.as_long())
        r = None
        if q > 0:
            from mpmath import iv
            iv.dps = 40
            v = iv.log(iv.mpf(q.numerator) / iv.mpf(q.denominator))
            from mpmath.libmp import to_rational
            lo, hi = (Fraction(*map(int, to_rational(t))) for t in v._mpi_)
            r = (z3.RealVal(str(lo)), z3.RealVal(str(hi)))
        _lnb[k] = (x, r)
    return _lnb[k][1]

def funaxioms(es):
    ax = []
    by = {}
    for a in apps(es).values():
        by.setdefault(a.decl().name(), []).append(a)
    for a in by.get("sqrt", []):
        x = a.arg(0)
        ax.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
    for a in by.get("exp", []):
        ax.append(a > 0)
        ax.append(z3.Implies(a.arg(0) == 0, a == 1))
    ex = by.get("exp", [])
    for i, a in enumerate(ex):
        for b in ex[i + 1:]:
            ax.append((a.arg(0) < b.arg(0)) == (a < b))
            ax.append((a.arg(0) == b.arg(0)) == (a == b))
    ln = by.get("ln", [])
    for a in list(ln):
        b = ln_bounds(a.arg(0))
        if b:
            ax.append(z3.And(b[0] <= a, a <= b[1]))
    for i, a in enumerate(ln):
        ax.append(z3.Implies(a.arg(0) > 0, (a > 0) == (a.arg(0) > 1)))
        ax.append(z3.Implies(a.arg(0) == 1, a == 0))
        for b in ln[i + 1:]:
            ax.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) < b.arg(0)) == (a < b)))
    for a in by.get("pow", []):
        ax.append(z3.Implies(a.arg(0) > 0, a > 0))
        ax.append(z3.Implies(a.arg(0) == 1, a == 1))
        ax.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(1) == 0), a == 1))
        ax.append(z3.Implies(z3.And(a.arg(0) > 1, a.arg(1) > 0), a > 1))
        for l in ln:
            if l.arg(0).eq(a):
                ax.append(z3.Implies(a.arg(0) > 0, l == a.arg(1) * sym.LN(a.arg(0))))
    for a in by.get("powi", []):
        ax.append(z3.Implies(a.arg(0) > 0, a > 0))
        ax.append(z3.Implies(a.arg(1) == 0, a == 1))
        ax.append(z3.Implies(a.arg(1) == 1, a == a.arg(0)))
        for b in by.get("powi", []):
            if b is not a and b.arg(0).eq(a.arg(0)):
                d = iz(sub(b.arg(1), a.arg(1)))
                if isc(d) and d == 1:
                    ax.append(z3.Implies(a.arg(1) >= 0, b == a * a.arg(0)))
    for a in by.get("U", []):
        ax.append(z3.And(a > 0, a < 1))
    return ax

_ack = {}        # set of symbols kept as functions -> (term cache, groups)
_pairs = {}
def ackermann(es, limit=240):
    """replace uninterpreted applications by constants (innermost first); symbols
    with many applications stay uninterpreted functions"""
    count = {}
    ap = apps(es)
    for a in ap.values():
        k = (a.decl().name(), a.decl().arity(), a.sort().get_id())
        count[k] = count.get(k, 0) + 1
    big = frozenset(k for k, n in count.items() if n * (n - 1) // 2 > limit)
    cache, groups = _ack.setdefault(big, ({}, {}))
    def walk(x):
        k = x.get_id()
        r = cache.get(k)
        if r is not None:
            return r[1]
        if z3.is_quantifier(x):
            raise Unsupported("quantifier")
        if x.num_args() == 0:
            r = x
        else:
            ch = [walk(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                gk = (x.decl().name(), x.decl().arity(), x.sort().get_id())
                if gk in big:
                    r = x.decl()(*ch)
                else:
                    kk = (gk,) + tuple(c.get_id() for c in ch)
                    if kk not in groups:
                        groups[kk] = (z3.Const(fresh_name(x.decl().name()), x.sort()), ch)
                    r = groups[kk][0]
            else:
                r = rebuild(x, ch)
        cache[k] = (x, r)
        return r
    out = [walk(e) for e in es]
    by = {}
    for x in ap.values():
        gk = (x.decl().name(), x.decl().arity(), x.sort().get_id())
        if gk in big:
            continue
        ch = [walk(c) for c in x.children()]
        kk = (gk,) + tuple(c.get_id() for c in ch)
        by.setdefault(gk, {})[kk] = groups[kk]
    cons = []
    for g in by.values():
        l = list(g.values())
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                pk = (l[i][0].get_id(), l[j][0].get_id())
                c = _pairs.get(pk)
                if c is None:
                    c = z3.simplify(z3.And(*[a == b for a, b in zip(l[i][1], l[j][1])]))
                    c = False if z3.is_false(c) else z3.Implies(c, l[i][0] == l[j][0])
                    _pairs[pk] = c
                if c is not False:
                    cons.append(c)
    return out, cons

def rebuild(x, ch):
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k == z3.Z3_OP_ADD: return z3.Sum(ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    try:
        return d(*ch)
    except z3.Z3Exception:
        r = ch[0]
        raise

STEPS = 1000          # solver steps that take about a millisecond
_cache = {}
_cache_keep = []

def check(fs, timeout=2000, level=1):
    """satisfiability of a list of z3 formulas; returns 'sat'/'unsat'/'unknown', model"""
    t0 = time.time()
    STAT["queries"] += 1
    fs = [Z(f) for f in fs]
    for _ in range(3):
        ax = sumaxioms(fs)
        new = ax
        break
    fs2 = fs + ax
    fs2 = fs2 + funaxioms(fs2)
    hard = False
    if any(info(f)[1] for f in fs2):
        flat, cons = ackermann(fs2)
        allf = flat + cons
        hard = True
    else:
        allf = fs2
    res, model, be = "unknown", None, None
    def run(mk, tmo, name):
        nonlocal res, model, be
        s = mk()
        # the budget is counted in solver steps, so that a busy machine does
        # not change the answer; the clock is only a backstop
        s.set("rlimit", tmo * STEPS)
        s.set("timeout", min(tmo * 4, tmo + 6000))
        s.add(*allf)
        r = s.check()
        if r == z3.unsat:
            res, be = "unsat", name
            return True
        if r == z3.sat:
            res, be = "sat", name
            model = s.model()
            return True
        return False
    try:
        done = False
        if hard and timeout > 100:
            done = run(z3.Solver, 100, "z3")
            if not done and linear_unsat(fs2, timeout):
                res, be, done = "unsat", "z3-linear", True
        if not done and not run(z3.Solver, timeout, "z3"):
            if level >= 2:
                ok = run(lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "qfnra-nlsat").solver() if False else z3.Tactic("qfnra-nlsat").solver(), timeout, "z3-nlsat") if pure_real(allf) else False
                if not ok:
                    r = cvc5(allf, timeout)
                    if r == "unsat":
                        res, be = "unsat", "cvc5"
                    elif not ok and level >= 3:
                        run(lambda: z3.SolverFor("QF_NIRA") , timeout * 4, "z3-nira")
    except z3.Z3Exception as e:
        res = "unknown"
    dt = time.time() - t0
    STAT["time"] += dt
    if be:
        STAT["backend"][be] = STAT["backend"].get(be, 0) + 1
    return res, model, be, dt

def linear_unsat(fs, timeout):
    """the query has no model even when nonlinear monomials are independent"""
    import lin
    try:
        w = lin.weaken(fs)
    except (Unsupported, z3.Z3Exception):
        return False
    s = z3.Solver()
    tmo = min(timeout, 1500)
    s.set("rlimit", tmo * STEPS)
    s.set("timeout", tmo * 4)
    s.add(*w)
    return s.check() == z3.unsat

def pure_real(fs):
    seen = set(); st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x) and not z3.is_int_value(x):
            return False
        st.extend(x.children())
    return True

def cvc5(fs, timeout):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info"))
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([exe, "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)

def _key(fs):
    return tuple(sorted(Z(f).get_id() if not isinstance(f, QFact) else id(f) for f in fs))

_feas = {}
_keep = []
def feasible(pc, cond=True, timeout=300):
    """False only when pc and cond are contradictory"""
    if cond is False:
        return False
    fs = [f for f in pc if not isinstance(f, QFact) and f is not True]
    if cond is not True:
        fs = fs + [cond]
    if any(f is False for f in fs):
        return False
    if not fs:
        return True
    qs = [f for f in pc if isinstance(f, QFact)]
    if sym.ANYINFO and any(a.decl().name() in sym.ANYINFO for a in apps(fs).values()):
        qs = qs + [sym.QFact(0, 0, z3.Int("#any"), False)]
    k = _key(fs + qs)
    if k in _feas:
        return _feas[k]
    _keep.append((fs, qs, [Z(f) for f in fs]))
    fs, _ = unclamp(fs, [])
    if qs:
        fs = instantiate(qs + fs, [], rounds=1)
    r, _, _, _ = check(fs, timeout)
    _feas[k] = r != "unsat"
    return _feas[k]

def valid(pc, goal, timeout=500):
    """True only if pc implies goal"""
    if goal is True:
        return True
    if goal is False:
        return not feasible(pc, True, timeout)
    return not feasible(pc, not_(goal), timeout)

def itecond(x):
    """an outermost condition of a conditional term"""
    seen = set(); st = [x]
    while st:
        y = st.pop(0)
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            c = y.arg(0)
            # an atom of the condition
            while not isc(c) and c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) and c.num_args():
                c = c.arg(0)
            if not z3.is_true(c) and not z3.is_false(c):
                return c
        st.extend(y.children())
    return None

def closes(g):
    """the goal holds by computation"""
    if isc(g):
        return g is True
    if z3.is_true(g):
        return True
    if z3.is_eq(g) and z3.is_arith(g.arg(0)):
        try:
            return not padd(poly(g.arg(0)), poly(g.arg(1)), -1)
        except Unsupported:
            return False
    return False

def split(base, goal, depth, timeout):
    """proof by cases on the conditions of conditional terms in the goal"""
    if closes(goal):
        return True
    if isc(goal) or z3.is_false(goal):
        return check(base, timeout, 1)[0] == "unsat"
    k = goal.decl().kind()
    if k == z3.Z3_OP_AND:
        return all(split(base, g, depth, timeout) for g in goal.children())
    if k == z3.Z3_OP_IMPLIES:
        return split(base + [goal.arg(0)], goal.arg(1), depth, timeout)
    c = itecond(goal) if depth else None
    if c is None:
        return related(base, z3.Not(goal), timeout) or check(base + [z3.Not(goal)], timeout, 1)[0] == "unsat"
    for v, h in ((z3.BoolVal(True), c), (z3.BoolVal(False), z3.Not(c))):
        if check(base + [h], 150, 1)[0] == "unsat":
            continue
        g = z3.substitute(goal, (c, v))
        for _ in range(4):
            g2 = z3.simplify(g, arith_lhs=False) if False else dropite(g)
            if g2.eq(g):
                break
            g = g2
        if not split(base + [h], g, depth - 1, timeout):
            return False
    return True

_dropc = {}
def dropite(x):
    """conditionals with decided conditions replaced by their branch"""
    k = x.get_id()
    r = _dropc.get(k)
    if r is not None:
        return r[1]
    if x.num_args() == 0:
        r = x
    else:
        ch = [dropite(c) for c in x.children()]
        d = x.decl().kind()
        if d == z3.Z3_OP_ITE and z3.is_true(ch[0]): r = ch[1]
        elif d == z3.Z3_OP_ITE and z3.is_false(ch[0]): r = ch[2]
        elif d == z3.Z3_OP_NOT and z3.is_true(ch[0]): r = z3.BoolVal(False)
        elif d == z3.Z3_OP_NOT and z3.is_false(ch[0]): r = z3.BoolVal(True)
        elif d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = z3.is_false if d == z3.Z3_OP_AND else z3.is_true
            skip = z3.is_true if d == z3.Z3_OP_AND else z3.is_false
            if any(stop(c) for c in ch):
                r = z3.BoolVal(d == z3.Z3_OP_OR)
            else:
                ch = [c for c in ch if not skip(c)]
                r = z3.BoolVal(d == z3.Z3_OP_AND) if not ch else ch[0] if len(ch) == 1 else rebuild(x, ch)
        else:
            r = rebuild(x, ch)
    _dropc[k] = (x, r)
    return r

_syms = {}
def syms(f):
    """constants and applications that a formula is about"""
    k = f.get_id()
    r = _syms.get(k)
    if r is None:
        out = set(info(f)[0])
        seen = set(); st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            st.extend(x.children())
        r = _syms[k] = (f, frozenset(out))
    return r[1]

def related(base, ng, timeout):
    """unsatisfiable already with the hypotheses that speak of the goal's terms"""
    fs = [Z(f) for f in base]
    cur = set(syms(Z(ng)))
    take = []
    for rnd in range(2):
        new = [f for f in fs if not any(f is t for t in take) and syms(f) & cur and (rnd or syms(f) <= cur)]
        if rnd and not new:
            break
        take += new
        if len(take) == len(fs):
            break
        if check(take + [ng], timeout, 1)[0] == "unsat":
            return True
        for f in new:
            cur |= syms(f)
    return False

def unclamp(hyps, goals):
    """the bounds of sums that are conditional terms (a summand that changes at an
    index outside or inside the range) decided by the integer hypotheses"""
    todo = {}
    for f in list(hyps) + list(goals):
        if isinstance(f, QFact) or isc(f): continue
        for a in apps([f]).values():
            if a.decl().name().startswith("SUM"):
                for t in (a.arg(0), a.arg(1)):
                    if z3.is_app_of(t, z3.Z3_OP_ITE): todo[t.get_id()] = t
    if not todo:
        return hyps, goals
    ints = [Z(h) for h in hyps if not isinstance(h, QFact) and not isc(h) and intonly(h)]
    # what the formula says on the way counts only if it is a hypothesis
    s = z3.Solver(); s.set("timeout", 300); s.add(*ints)
    def holds(c):
        s.push(); s.add(z3.Not(c))
        r = s.check() == z3.unsat
        s.pop()
        return r
    def cands(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE): return cands(t.arg(1)) + cands(t.arg(2))
        return [t]
    reps = []
    for t in todo.values():
        for c in sorted(cands(t), key=lambda c: -len(str(c))):
            if holds(t == c):
                reps.append((t, c)); break
    if not reps:
        return hyps, goals
    def go(f):
        if isinstance(f, QFact) or isc(f): return f
        return z3.substitute(f, *reps)
    return [go(h) for h in hyps], [go(g) for g in goals]

def prove(hyps, goal, timeout=5000, level=3):
    """returns (status, model, backend, seconds)"""
    if not isc(goal):
        # a negated goal is a hypothesis for its own bounds
        hyps, (goal,) = unclamp(list(hyps), [goal])
    if goal is True:
        return "proved", None, "syntactic", 0.0
    ng = not_(goal)
    hy = [h for h in hyps if h is not True]
    ng = z3.simplify(Z(ng)) if not isc(ng) else ng
    if ng is False or (not isc(ng) and z3.is_false(ng)) or closes(goal):
        return "proved", None, "syntactic", 0.0
    base = instantiate(hy, [Z(ng)])
    t0 = time.time()
    r, m, be, dt = check(base + [ng], 300, 1)
    if r == "unknown" and not isc(goal):
        if related(base, Z(ng), 300) or split(base, goal, 6, 400):
            r, m, be = "unsat", None, "z3-split"
            STAT["backend"][be] = STAT["backend"].get(be, 0) + 1
    if r == "unknown":
        r, m, be, dt = check(base + [ng], min(timeout, 1500), 1)
    if r == "unknown" and timeout > 1500:
        r, m, be, d2 = check(base + [ng], timeout, level)
    dt = time.time() - t0
    if r == "unsat":
        return "proved", None, be, dt
    if r == "sat":
        return "refuted", m, be, dt
    return "unknown", None, be, dt
