"""C25: argument vectors."""
from contract import *
from models import Many, Tail
import text
from text import as_str, is_ident, ident, TRIM, BLANK

# ------------------------------------------------------------------ helpers
def same_value(a, b, idx=None):
    """two values of the same type are identical (arbitrary index into sequences)"""
    v, w = a.v, b.v
    if isinstance(v, F):
        return and_(iff(v.nan, w.nan), iff(v.pinf, w.pinf), iff(v.ninf, w.ninf), or_(not_(v.isfin()), eq(v.v, w.v)))
    if isinstance(v, Agg):
        return and_(*[same_value(V(a.c, a.st, x), V(b.c, b.st, y), idx) for x, y in zip(v.fs, w.fs)])
    if isinstance(v, Enum):
        gs = [eq(v.d, w.d)]
        for k in v.pl:
            if v.pl[k]:
                if k not in w.pl:
                    gs.append(not_(eq(v.d, k))); continue
                gs.append(implies(eq(v.d, k), and_(*[same_value(V(a.c, a.st, x), V(b.c, b.st, y), idx) for x, y in zip(v.pl[k], w.pl[k])])))
        return and_(*gs)
    if isinstance(v, Seq):
        i = idx if idx is not None else fresh_int("at")
        return and_(eq(v.len, w.len), implies(and_(le(0, i), lt(i, v.len)), same_value(a.at(i), b.at(i), idx)))
    if isinstance(v, Str):
        if text.is_ident(v) is not None and text.is_ident(w) is not None:
            return eq(text.is_ident(v), text.is_ident(w))
        if str_same(v, w):
            return True
        raise Unsupported("comparison of texts")
    if isinstance(v, (bool,)) or (not isc(v) and z3.is_bool(v)):
        return iff(v, w)
    return eq(v, w)

def iff(a, b):
    return and_(implies(a, b), implies(b, a))

def parse_value(c, st, t, s):
    """the value that reading text s as type t gives"""
    ty = c.p.ty[t]
    k = is_ident(s)
    if k is None:
        raise Unsupported("reading of structured text")
    if ty["k"] == "adt" and ty["name"].endswith("String"):
        return True, s
    nm = ty.get("s") or str(t)
    b = uf("parses." + nm, IS, BS)(Z(k))
    return b, c.e.fresh(st, t, "parsed." + nm, (k,), True)

def parsing(c):
    """str::parse at the level of its result: a function of the text and the type alone"""
    def f(cx):
        t = cx.dest_ty
        ok = c.p.ty[t]["variants"][0]["fields"][0]["ty"]
        er = c.p.ty[t]["variants"][1]["fields"][0]["ty"]
        b, v = parse_value(c, cx.st, ok, as_str(cx, cx.args[0]))
        try:
            w = c.e.fresh(cx.st, er, "parse error", (), False)
        except Unsupported:
            w = Opaque("parse error")
        return Enum(t, ite(b, 0, 1), {0: (v,), 1: (w,)})
    c.e.summaries[r"^core::str::<impl str>::parse::<"] = f
    c.e.summaries[r"^<.* as std::str::FromStr>::from_str$"] = f

# the declared fields, in order, and the fields that are not read
DECL = {
    "circ": ("sys_size dim", dict(sys_type="ContinuousCircular", bctype="Reflection")),
    "cubic": ("bctype sys_size dim", dict(sys_type="ContinuousRectangular")),
    "cyl": ("sys_type bctype sys_radius sys_length dim", {}),
    "bulk": ("target_pos target_size", dict(target_type="ContinuousInBulk")),
    "exp": ("mtype itype gamma exp_dim strength num_agent", dict(agent_type="ContinuousPassiveInteracting")),
    "merge": ("mtype itype ptl_radius alpha num_agent", dict(agent_type="ContinuousPassiveInteracting", size=1)),
    "lj": ("mtype itype ptl_size strength num_agent", dict(agent_type="ContinuousPassiveInteracting")),
    "indep": ("mtype itype num_agent", dict(agent_type="ContinuousPassiveIndependent")),
    "cstep": ("dt tmax", {}),
    "estep": ("dt_min dt_max length tmax", {}),
    "varsim": ("num_ensemble idx_set seed output_dir", {}),
    "parsim": ("num_ensemble seed n_thrd output_dir", {}),
    "procsim": ("num_ensemble period idx_set seed output_dir", {}),
}
NAME = {"circ": "ContCircSystem", "cubic": "ContCubicSystem", "cyl": "ContCylindricalSystem", "bulk": "ContBulkTarget", "exp": "ContPassiveExpAgent",
        "merge": "ContPassiveMergeAgent", "lj": "ContPassiveLJAgent", "indep": "ContPassiveIndepAgent", "cstep": "ConstStep", "estep": "ExponentialStep",
        "varsim": "VariableSimulation", "parsim": "ParVariableSimulation", "procsim": "ProcessSimulation"}

def field_types(c, t):
    return {f["name"]: f["ty"] for f in c.p.ty[t]["variants"][0]["fields"]}

def assigned(c, o, kind, r, texts):
    """goals: the declared fields of r hold what the texts denote, the others their fixed values; and when all texts denote a value"""
    names, fixed = DECL[kind]
    ft = field_types(c, r.v.ty)
    good = []
    for n, s in zip(names.split(), texts):
        b, v = parse_value(c, o.st, ft[n], s)
        good.append(b)
        o.goal("%s: field %s is its own argument" % (NAME[kind], n), same_value(r.f(n), V(c, o.st, v)))
    for n, x in fixed.items():
        o.goal("%s: field %s is the fixed value" % (NAME[kind], n), eq(r.f(n).x, x) if isinstance(x, int) else r.f(n).isv(x))
    if set(ft) != set(names.split()) | set(fixed):
        raise Unsupported("the fields of %s changed" % NAME[kind])
    return good

for kind in DECL:
    def f(c, kind=kind):
        args, = c.load("text::%s::from_vec" % kind, ["args"])
        parsing(c)
        n = len(DECL[kind][0].split())
        texts = [args.at(i).v for i in range(n)]
        c.pre(*[eq(TRIM(Z(is_ident(s))), is_ident(s)) for s in texts])
        c.goal("declared number of arguments", eq(num_args(c, kind), n), [])
        for o in c.run():
            o.goal("a missing argument is an error", implies(lt(args.len, n), o.err()))
            p = o.okv()
            if p is None:
                bad = []
            r = o.ret
            good = []
            if valid_ok(o):
                good = assigned(c, o, kind, r.pay("Ok"), texts)
                o.goal("accepted only when every argument can be read", and_(*good))
            else:
                ft = None
                st = o.st.copy()
                at = c.p.ty[r.v.ty]["variants"][0]["fields"][0]["ty"]
                ft = field_types(c, at)
                good = [parse_value(c, st, ft[x], s)[0] for x, s in zip(DECL[kind][0].split(), texts)]
                o.goal("rejected only when an argument is missing or malformed", implies(eq(args.len, n), not_(and_(*good))))
    contract("C25", NAME[kind] + "::read_args_from_vec", "text::%s::from_vec" % kind)(f)

def valid_ok(o):
    d = o.ret.v.d
    if isinstance(d, int):
        return d == 0
    if solve.valid(o.st.pc, eq(d, 0)): return True
    if solve.valid(o.st.pc, eq(d, 1)): return False
    raise Unsupported("accepted and rejected on one path")

def num_args(c, kind):
    outs = c.call(c.st, "text::%s::count" % kind, [])
    assert len(outs) == 1
    return outs[0].val

# ---------------------------------------------------- the simulation-level reader
ORDER = [("sys", "cyl"), ("target", "bulk"), ("agent", "merge"), ("time", "estep"), ("sim", "varsim")]
ANALYSED = {"single": 4, "vector": 5, "process": 4}
DS = dict(sys_radius="sys", sys_length="sys", dim="sys", target_size="target", num_agent="agent", ptl_radius="agent", alpha="agent", dt_min="time", dt_max="time", length="time", idx_set="sim")
SKIP = 1

def analysis_called(c):
    """the analysis, remembered with the arguments it was handed"""
    def f(cx):
        sl = cx.e.as_slice(cx.st, cx.args[0])
        cx.st.ghost["analysed"] = (sl,)
        t = cx.dest_ty
        return Enum(t, ite(fresh_bool("analysis succeeds"), 0, 1), {0: (Agg(None, []),), 1: (Opaque("analysis error"),)})
    c.e.summaries[r" as .*analysis::Analysis>::analyze"] = f
    def text(cx):
        return ident(z3.Int(fresh_name("help text")))
    c.e.summaries[r">::(brief_info|info)$"] = text

for kind in ANALYSED:
    def f(c, kind=kind):
        args, out = c.load("text::setup_" + kind, ["args", "out"])
        parsing(c); analysis_called(c)
        total = sum(len(DECL[k][0].split()) for _, k in ORDER)
        na = ANALYSED[kind]
        c.pre(le(SKIP, args.len), out.isv("None"))
        texts = [args.at(SKIP + i).v for i in range(total)]
        c.pre(*[eq(TRIM(Z(is_ident(s))), is_ident(s)) for s in texts])
        given = sub(args.len, SKIP)
        for o in c.run():
            called = o.st.ghost.get("analysed")
            if called:
                sl = called[0]
                o.goal("the analysis runs only on its own number of arguments", or_(eq(given, na), eq(given, na + 1)))
                a = c.e.as_slice(o.st, c.argv["args"])
                o.goal("the analysis is handed exactly the arguments after the skipped ones",
                    and_(sl.root == a.root and path_same(sl.path, a.path), eq(sl.start, add(a.start, SKIP)), eq(sl.len, given)))
                o.goal("nothing is read for a simulation", o.now("out").isv("None"))
                continue
            o.goal("an analysis call is not missed", not_(or_(eq(given, na), eq(given, na + 1))))
            if valid_ok(o):
                o.goal("read only from exactly the declared number of arguments", eq(given, total))
                o.goal("something was read", o.now("out").isv("Some"))
                r = o.now("out").pay("Some")
                pos = 0; good = []
                for name, k in ORDER:
                    n = len(DECL[k][0].split())
                    good += assigned(c, o, k, r.f(name), texts[pos:pos + n])
                    pos += n
                o.goal("accepted only when every argument can be read", and_(*good))
                for n, src in DS.items():
                    o.goal("parameter set: %s is the one read" % n, same_value(r.ds.f(n), r.f(src).f(n)))
            else:
                st = o.st.copy(); pos = 0; good = []
                some = field_types(c, c.p.ty[o.now("out").v.ty]["variants"][1]["fields"][0]["ty"])
                for name, k in ORDER:
                    ft = field_types(c, some[name])
                    for x in DECL[k][0].split():
                        good.append(parse_value(c, st, ft[x], texts[pos])[0]); pos += 1
                o.goal("rejected only when an argument is missing or malformed", or_(not_(eq(given, total)), not_(and_(*good))))
                o.goal("nothing is read after an error", o.now("out").isv("None"))
    contract("C25", "setup_simulation_fixed! (%s)" % kind, "text::setup_" + kind)(f)

# ------------------------------------------------------------------ parameter sets
IDENT = "sys_radius sys_length dim target_size num_agent ptl_radius alpha dt_min dt_max length".split()
def agree(a, b):
    return and_(*[numeq(a.f(n), b.f(n)) for n in IDENT])

def numeq(x, y):
    return feq(x.v, y.v) if isinstance(x.v, F) else eq(x.v, y.v)

def no_nan(*xs):
    return [not_(v.nan) for x in xs for v in x.v.fs if isinstance(v, F)]

@contract("C22", "DataSet::eq", "text::ds_eq", specials=True)
def ds_eq(c):
    c.e.exact_ints = True
    a, b = c.load("text::ds_eq", ["a", "b"])
    if set(field_types(c, a.v.ty)) != set(IDENT) | {"idx_set"}:
        raise Unsupported("the fields of the parameter set changed")
    c.pre(*no_nan(a, b))
    for o in c.run():
        o.goal("equal only when every identifying parameter agrees", implies(o.ret.v, agree(a, b)))
        o.goal("equal whenever every identifying parameter agrees", implies(agree(a, b), o.ret.v))

@contract("C22", "DataSet::hash", "text::ds_hash", specials=True)
def ds_hash(c):
    c.e.exact_ints = True
    a, = c.load("text::ds_hash", ["a"])
    b = V(c, c.st, c.e.fresh(c.st, a.v.ty, "b", (), True))
    c.pre(*no_nan(a, b))
    c.pre(agree(a, b))
    n = len(c.st.pc)
    for o in c.run():
        other = c.e.alloc(o.st, b.v)
        for p in c.call(o.st, "text::ds_hash", [other]):
            if p.kind == "panic":
                c.goal("no panic", False, p.st.pc)
            else:
                c.goal("parameter sets that agree hash alike", eq(o.ret.v, p.val), p.st.pc)

# ------------------------------------------------------------------ C23
W = lambda n: text.word(z3.Int(n))
def num(c, st, s, nm):
    """(s denotes a number of the type, that number)"""
    t = [k for k, x in c.p.ty.items() if x.get("s") == nm][0]
    return parse_value(c, st, t, s)

DESCR = {"d_sys": "SystemType", "d_bc": "BoundaryCond", "d_target": "TargetType", "d_agent": "AgentType", "d_move": "MoveType", "d_init": "InitType<f64>",
         "d_inter": "InteractType", "d_pos": "Position<f64>", "d_ipos": "Position<i32>", "d_time": "TimeType"}

for kind in DESCR:
    if kind == "d_time":
        continue            # written with six digits: not meant to be exact
    def f(c, kind=kind):
        x, = c.load("text::%s::round" % kind, ["x"])
        p = x if kind in ("d_pos", "d_ipos") else x.pay("SpecificPosition") if kind == "d_init" else None
        if p is not None:
            c.pre(implies(True if kind != "d_init" else x.isv("SpecificPosition"), le(1, p.f("coordinate").len)))
        i = fresh_int("at")
        n = 0
        for o in c.run():
            o.goal("reading back succeeds", o.ok())
            if o.okv() is not None:
                n += 1
                o.goal("reading back gives the value", same_value(V(c, o.st, x.v), o.okv(), i))
        if not n:
            c.goal("reading back succeeds", False, c.st.pc)
    contract("C23", "%s: written and read back" % DESCR[kind], "text::%s::round" % kind, specials=True)(f)

def params(c, o, v, at, path=""):
    """numeric parameters of a value that was read: (name, value, type)"""
    x = v.v
    if isinstance(x, F):
        yield path, x, "f64"
    elif isinstance(x, Enum):
        d = x.d if isinstance(x.d, int) else next((k for k in x.pl if solve.valid(o.st.pc, eq(x.d, k))), None)
        for k in (x.pl if d is None else [d]):
            ty = c.p.ty[x.ty]["variants"][k]
            for i, y in enumerate(x.pl.get(k, ())):
                yield from params(c, o, V(c, o.st, y), at, path + "." + ty["name"])
    elif isinstance(x, Agg):
        for i, y in enumerate(x.fs):
            yield from params(c, o, V(c, o.st, y), at, path)
    elif isinstance(x, Seq):
        yield from params(c, o, v.at(at), at, path + "[i]")
    else:
        yield path, x, "usize"

def read_from_text(c, o, v, at, ln):
    """goals: each numeric parameter is the value of some part of the text that denotes a number"""
    for name, x, nm in params(c, o, v, at):
        hyps = [le(0, at), lt(at, ln)] if ln is not None else []
        t = branch(list(o.st.pc) + hyps, x.v if isinstance(x, F) else x)
        if kind_of(t) == "parsed.i32":
            nm = "i32"
        if kind_of(t) == "parsed." + nm:
            k = t.arg(0)
            b, w = parse_value(c, o.st, [q for q, y in c.p.ty.items() if y.get("s") == nm][0], ident(k))
            o.goal("parameter%s: the part it is read from is a number" % name, b, hyps)
            o.goal("parameter%s is that number" % name, same_value(V(c, o.st, x), V(c, o.st, w)), hyps)
        else:
            o.goal("parameter%s is read from the text: %r" % (name, x), False, hyps)

def branch(hyps, t):
    """the alternative of a conditional term that applies"""
    while z3.is_expr(t):
        t = norm(z3.simplify(t))
        if not (z3.is_expr(t) and z3.is_app_of(t, z3.Z3_OP_ITE)):
            return t
        if solve.valid(hyps, t.arg(0)): t = t.arg(1)
        elif solve.valid(hyps, not_(t.arg(0))): t = t.arg(2)
        else: return t
    return t

def kind_of(t):
    return t.decl().name() if z3.is_expr(t) and z3.is_app(t) and t.num_args() == 1 else ""

for kind in DESCR:
    def f(c, kind=kind):
        s = ident(z3.Int("s"))
        c.load("text::%s::read" % kind, ["s"], concrete={"s": s})
        at = fresh_int("at")
        oks = 0
        for o in c.run():
            if not valid_ok(o):
                continue
            oks += 1
            v = o.okv()
            if kind in ("d_target", "d_agent"):
                shown = c.call(o.st, "text::%s::show" % kind, [c.e.alloc(o.st, v.v)])
                for r in shown:
                    c.goal("only the description of a value reads as that value", text.text_eq(text.Cx(c.e, r.st, None, [], ""), s, r.val), r.st.pc)
                continue
            sq = seq_of(v)
            read_from_text(c, o, v, at, sq.len if sq is not None else None)
        c.goal("some text is accepted", oks > 0, [])
    contract("C23", "%s: any text" % DESCR[kind], "text::%s::read" % kind, specials=True)(f)

def seq_of(v):
    x = v.v
    if isinstance(x, Seq):
        return V(v.c, v.st, x)
    for y in (x.fs if isinstance(x, Agg) else [y for p in x.pl.values() for y in p] if isinstance(x, Enum) else []):
        r = seq_of(V(v.c, v.st, y))
        if r is not None:
            return r

def texts(*ps):
    """text made of literals and words"""
    out = []
    for p in ps:
        out += list(p.ps) if isinstance(p, Str) else [p]
    return Str(out)

w, w2, w3 = W("w"), W("w2"), W("w3")
# (type, text, variant or None for an error, [(parameter text, number type)], words that are keywords of the type, extra condition)
POS = lambda v: lt(0, v)
SHORT = [
    ("d_sys", ["Circular"], "ContinuousCircular", [], None), ("d_sys", ["Rectangular"], "ContinuousRectangular", [], None),
    ("d_sys", ["Lattice"], "Lattice", [], None), ("d_sys", ["Network"], "Network", [], None),
    ("d_sys", [w], "ContinuousCylindrical", [(w, "usize", POS)], ["Continuous", "Circular", "Rectangular", "Lattice", "Network"]),
    ("d_sys", ["Continuous Cylindrical system. 0..", w, " : Circular, ", w, ".. : Rectangular"], "ContinuousCylindrical", [(w, "usize", None)], None),
    ("d_sys", ["Continuous Cylindrical system."], None, [], None), ("d_sys", [""], None, [], None),
    ("d_bc", ["Reflective"], "Reflection", [], None), ("d_bc", ["Periodic"], "Periodic", [], None),
    ("d_bc", [w], "Mixed", [(w, "usize", POS)], ["Reflective", "Periodic", "Mixed"]),
    ("d_bc", ["Mixed Boundary Condition. 0..", w, " : Reflection, ", w, ".. : Periodic"], "Mixed", [(w, "usize", None)], None),
    ("d_bc", ["Mixed Boundary Condition."], None, [], None), ("d_bc", [""], None, [], None),
    ("d_move", ["Levy"], "Levy", [], None), ("d_move", [w], "Brownian", [(w, "f64", None)], ["Brownian", "Levy"]),
    ("d_move", ["Brownian with diffusion coefficient ", w], "Brownian", [(w, "f64", None)], None),
    ("d_move", ["Brownian with diffusion coefficient"], None, [], None), ("d_move", ["Brownian"], None, [], None), ("d_move", [""], None, [], None),
    ("d_init", ["Uniform"], "Uniform", [], None), ("d_init", [w], "SpecificPosition", [(w, "f64", None)], ["Uniform"]),
    ("d_init", [w, ",", w2], "SpecificPosition", [(w, "f64", None), (w2, "f64", None)], None),
    ("d_init", ["(", w, ",", w2, ")"], "SpecificPosition", [(w, "f64", None), (w2, "f64", None)], None),
    ("d_init", [w, ":", w2, ":", w3], "SpecificPosition", [(w, "f64", None), (w2, "f64", None), (w3, "f64", None)], None),
    ("d_init", ["Initialize all agents at ", w, ",", w2], "SpecificPosition", [(w, "f64", None), (w2, "f64", None)], None),
    ("d_init", ["Initialize all agents at"], None, [], None), ("d_init", [""], None, [], None),
    ("d_inter", ["Coulomb2D"], "Coulomb2D", [], None), ("d_inter", ["Coulomb3D"], "Coulomb3D", [], None),
    ("d_inter", ["Exponential(", w, ",", w2, ")"], "Exponential", [(w, "usize", None), (w2, "f64", None)], None),
    ("d_inter", ["LennardJones(", w, ")"], "LennardJones", [(w, "f64", None)], None),
    ("d_inter", ["Exponential form interaction in ", w, " D with typical length ", w2], "Exponential", [(w, "usize", None), (w2, "f64", None)], None),
    ("d_inter", ["Lennard Jones potential with particle size ", w], "LennardJones", [(w, "f64", None)], None),
    ("d_inter", ["Exponential(", w, ")"], None, [], None), ("d_inter", ["Exponential"], None, [], None), ("d_inter", ["LennardJones"], None, [], None),
    ("d_inter", ["Exponential form interaction in ", w, " D with typical length"], None, [], None), ("d_inter", [""], None, [], None),
    ("d_time", [w], "Constant", [(w, "f64", None)], ["Constant", "Exponential"]),
    ("d_time", [w, " ", w2, " ", w3], "Exponential", [(w, "f64", None), (w2, "f64", None), (w3, "usize", None)], ["Constant", "Exponential"]),
    ("d_time", ["Constant Time step with size ", w], "Constant", [(w, "f64", None)], None),
    ("d_time", ["Constant Time step with size"], None, [], None), ("d_time", [w, " ", w2], None, [], ["Constant", "Exponential"]),
    ("d_pos", [w], "", [(w, "f64", None)], None), ("d_pos", [w, ",", w2], "", [(w, "f64", None), (w2, "f64", None)], None),
    ("d_pos", ["(", w, ", ", w2, ")"], "", [(w, "f64", None), (w2, "f64", None)], None), ("d_pos", [w, ":", w2], "", [(w, "f64", None), (w2, "f64", None)], None),
    ("d_pos", [w, ","], None, [], None), ("d_pos", [""], None, [], None), ("d_pos", [w, ",,", w2], None, [], None),
    ("d_ipos", ["(", w, ",", w2, ",", w3, ")"], "", [(w, "i32", None), (w2, "i32", None), (w3, "i32", None)], None), ("d_ipos", [""], None, [], None),
]
for kind in DESCR:
    def f(c, kind=kind):
        for k, ps, variant, ns, keys in SHORT:
            if k != kind:
                continue
            s = texts(*ps)
            label = "".join(p if isinstance(p, str) else "<%s>" % p[2] for p in s.ps) or "empty text"
            c.argv.pop("s", None)
            c.st = State()
            c.load("text::%s::read" % kind, ["s"], concrete={"s": s})
            for key in keys or []:
                c.pre(not_(eq(text.is_ident(w), text.lit_term(key))))
            for o in c.run():
                if variant is None:
                    o.goal("%s: an error" % label, o.err()); continue
                good = []
                vals = []
                for t, nm, cond in ns:
                    b, v = num(c, o.st, t, nm)
                    good.append(b); vals.append(v)
                    if cond: good.append(cond(v))
                o.goal("%s: read exactly when every parameter is there and a number" % label, iff(o.ok(), and_(*good)))
                if not valid_ok(o):
                    continue
                r = o.okv()
                if variant:
                    o.goal("%s: the named variant" % label, r.isv(variant))
                got = [x for _, x, _ in values(c, o, r, variant)]
                o.goal("%s: as many parameters as given" % label, len(got) == len(vals))
                for i, (x, v) in enumerate(zip(got, vals)):
                    o.goal("%s: parameter %d" % (label, i), same_value(V(c, o.st, x), V(c, o.st, v)))
    if any(k == kind for k, *_ in SHORT):
        contract("C23", "%s: short and described forms" % DESCR[kind], "text::%s::read" % kind, specials=True)(f)

def values(c, o, r, variant):
    """parameters in order (coordinates of a position one by one)"""
    x = r.v
    if isinstance(x, Enum):
        x = Agg(None, x.pl.get(r.variant_index(variant), ()))
    def walk(x):
        if isinstance(x, Agg):
            for y in x.fs:
                yield from walk(y)
        elif isinstance(x, Seq):
            n = x.len
            if not isinstance(n, int):
                raise Unsupported("number of coordinates")
            for i in range(n):
                yield from walk(c.e.nread(o.st, x.node, i))
        else:
            yield ("", x, "")
    return walk(x)

# ------------------------------------------------------------------ C24
def lines_of(s):
    """the lines of a printed text, each without its line break"""
    out, cur = [], []
    for p in s.ps:
        if isinstance(p, str):
            *done, last = p.split("\n")
            for d in done:
                out.append(Str(cur + [d])); cur = []
            cur.append(last)
        else:
            cur.append(p)
    return out, Str(cur)

def line_reader(c, st, entry, lines):
    """a line iterator over the given lines followed by anything at all; the value and its position"""
    iid = c.p.entries["vharness::" + entry]
    item = [k for k, t in c.p.ty.items() if t["k"] == "adt" and t["name"].endswith("result::Result") and c.p.ty[t["variants"][0]["fields"][0]["ty"]].get("name", "").endswith("string::String")
            and c.p.ty[t["variants"][1]["fields"][0]["ty"]].get("name", "").endswith("io::Error")][0]
    ln = z3.Int("following lines")
    st.assume(le(0, ln))
    def at(i):
        if isinstance(i, int) and i < len(lines):
            return Enum(item, 0, {0: (lines[i],)})
        d = uf("line.err", IS, BS)(Z(i))
        return Enum(item, ite(d, 1, 0), {0: (ident(uf("line", IS, IS)(Z(i))),), 1: (Opaque("io error"),)})
    total = iz(add(ln, len(lines)))
    h = c.e.alloc(st, Seq(-1, item, total, NBase(at, ("lines", fresh_name("ln")))))
    return c.e.alloc(st, It("own", Slice(h.root, h.path, 0, total), 0, total)), total, at

def wf_text(c, v):
    """texts have no surrounding blanks; positions have coordinates"""
    out = []
    def walk(v, g):
        x = v.v
        if isinstance(x, Str):
            out.append(implies(g, eq(TRIM(Z(is_ident(x))), is_ident(x))))
        elif isinstance(x, Agg):
            for y in x.fs: walk(V(c, v.st, y), g)
        elif isinstance(x, Enum):
            for k, pl in x.pl.items():
                for y in pl: walk(V(c, v.st, y), and_(g, eq(x.d, k)))
        elif isinstance(x, Seq):
            out.append(implies(g, le(1, x.len)))
    walk(v, True)
    return out

for kind in DECL:
    def f(c, kind=kind):
        a, w_ = c.load("text::%s::print" % kind, ["a", "w"])
        c.pre(le(w_.x, 65535), *wf_text(c, a))
        fields = [x["name"] for x in c.p.ty[a.v.ty]["variants"][0]["fields"]]
        i = fresh_int("at")
        n = 0
        for o in c.run():
            lines, rest = lines_of(o.val)
            c.goal("one line per field, each ended", len(lines) == len(fields) and rest.lit() == "", o.st.pc)
            st = o.st.copy()
            it, total, _ = line_reader(c, st, "text::%s::from_lines" % kind, lines)
            for r in c.call(st, "text::%s::from_lines" % kind, [it]):
                if r.kind == "panic":
                    c.goal("no panic: %s" % str(r.val)[:80], False, r.st.pc); continue
                r = Out(c, r)
                r.goal("the header is accepted", r.ok())
                if not valid_ok(r):
                    continue
                n += 1
                for x in fields:
                    r.goal("field %s is the printed one" % x, same_value(V(c, o.st, c.pre_st and a.v).f(x), r.okv().f(x), i))
                now = c.e.load(r.st, it)
                r.goal("exactly its own lines are consumed", and_(eq(now.pos, len(lines)), eq(now.end, total)))
        if not n:
            c.goal("the header is accepted", False, c.st.pc)
    contract("C24", NAME[kind] + ": header printed and read back", "text::%s::print" % kind, specials=True)(f)

    def g(c, kind=kind):
        c.st = State()
        it, total, at = line_reader(c, c.st, "text::%s::from_lines" % kind, [])
        c.load("text::%s::from_lines" % kind, ["l"], concrete={"l": it})
        parsing(c)
        oks = 0
        for o in c.run():
            now = c.e.load(o.st, it)
            o.goal("lines are consumed from the front", and_(le(0, now.pos), eq(now.end, total)))
            if not valid_ok(o):
                continue
            oks += 1
            r = o.okv()
            fl = c.p.ty[r.v.ty]["variants"][0]["fields"]
            o.goal("as many lines as fields are consumed", eq(now.pos, len(fl)))
            for j, x in enumerate(fl):
                e = at(j)
                o.goal("line %d could be read" % j, eq(e.d, 0))
                k = is_ident(e.pl[0][0])
                val = text.trim_ident(uf("parts.chars':'.2.at", IS, IS, IS)(Z(k), Z(1)))
                o.goal("line %d has a value" % j, eq(uf("parts.chars':'.2.n", IS, IS)(Z(k)), 2))
                b, v = parse_value(c, o.st, x["ty"], val)
                o.goal("line %d denotes a value" % j, b)
                o.goal("field %s is what its line says" % x["name"], same_value(r.f(x["name"]), V(c, o.st, v)))
        c.goal("some header is accepted", oks > 0, [])
    contract("C24", NAME[kind] + ": any header", "text::%s::from_lines" % kind, specials=True)(g)
