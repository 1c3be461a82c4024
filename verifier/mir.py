"""Reader for the MIR export and symbolic execution of MIR bodies."""
import json, struct, re
from vals import *
import solve
from solve import feasible, valid

MAXLEN = 2**63 // 8

class Fork(Exception):
    """the statement is executed once under the condition and once under its negation"""
    def __init__(self, cond):
        self.cond = cond

class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.insts = {i["id"]: i for i in d["insts"]}
        self.ty = {int(k): v for k, v in d["types"].items()}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.entries = {e["name"]: e["inst"] for e in d["entries"]}
        self._loops = {}
        self._live = {}

    def tname(self, t):
        return self.ty[t].get("s", "?")

    def adt(self, t, name):
        ty = self.ty[t]
        return ty["k"] == "adt" and ty["name"].split("::")[-1] == name

    def adtname(self, t):
        ty = self.ty[t]
        return ty["name"] if ty["k"] == "adt" else None

    def targ(self, t, i=0):
        return [a["ty"] for a in self.ty[t]["args"] if "ty" in a][i]

    def find_type(self, s):
        for k, v in self.ty.items():
            if v.get("s") == s:
                return k
        return None

    # ----------------------------------------------------- control flow graph
    def succs(self, term):
        if isinstance(term, str):
            return []
        (k, v), = term.items()
        if k == "Goto":
            return [v["target"]]
        if k == "SwitchInt":
            return [b for _, b in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
        if k in ("Call", "Drop", "Assert"):
            return [v["target"]] if v.get("target") is not None else []
        return []

    def loops(self, iid):
        """header -> set of blocks of the natural loop"""
        if iid in self._loops:
            return self._loops[iid]
        blocks = self.insts[iid]["body"]["blocks"]
        n = len(blocks)
        succ = [self.succs(b["t"]) for b in blocks]
        # reachable
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st += succ[b]
        pred = {b: [] for b in reach}
        for b in reach:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(reach) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in sorted(reach):
                if b == 0: continue
                ps = [dom[p] for p in pred[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]
        self._loops[iid] = loops
        return loops

    def live(self, iid):
        """locals live at block entry (address-taken locals are always live)"""
        if iid in self._live:
            return self._live[iid]
        body = self.insts[iid]["body"]
        blocks = body["blocks"]
        use, dfn, always = [], [], set()
        def op(o, u):
            if isinstance(o, dict):
                for k in ("Copy", "Move"):
                    if k in o:
                        pl(o[k], u)
        def pl(p, u):
            u.append(p["local"])
            for e in p["projection"]:
                if isinstance(e, dict) and "Index" in e:
                    u.append(e["Index"])
        def rv(r, u):
            if isinstance(r, dict):
                for k, v in r.items():
                    if k in ("Ref", "AddressOf"):
                        pp = v[-1]
                        if "Deref" not in pp["projection"]:
                            always.add(pp["local"])
                        pl(pp, u)
                    else:
                        walk(v, u)
        def walk(x, u):
            if isinstance(x, dict):
                if "local" in x and "projection" in x:
                    pl(x, u); return
                for v in x.values(): walk(v, u)
            elif isinstance(x, list):
                for v in x: walk(v, u)
        for b in blocks:
            u, d = set(), set()
            def note(us, ds):
                for x in us:
                    if x not in d: u.add(x)
                for x in ds: d.add(x)
            for s in b["s"]:
                if s["k"] == "assign":
                    us = []
                    rv(s["r"], us)
                    p = s["p"]
                    if p["projection"]:
                        pl(p, us); note(us, [])
                    else:
                        note(us, [p["local"]])
                else:
                    us = []
                    walk(s, us); note(us, [])
            t = b["t"]
            if isinstance(t, dict):
                (k, v), = t.items()
                us = []
                if k == "Call":
                    walk(v["args"], us); walk(v["func"], us)
                    p = v["destination"]
                    if p["projection"]:
                        pl(p, us); note(us, [])
                    else:
                        note(us, [p["local"]])
                elif k == "Drop":
                    pass
                else:
                    walk(v, us); note(us, [])
            elif t == "Return":
                note([0], [])
            use.append(u); dfn.append(d)
        n = len(blocks)
        lin = [set() for _ in range(n)]
        ch = True
        succ = [self.succs(b["t"]) for b in blocks]
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in succ[b]: out |= lin[s]
                ni = use[b] | (out - dfn[b])
                if ni != lin[b]:
                    lin[b] = ni; ch = True
        self._live[iid] = ([x | always for x in lin])
        return self._live[iid]

    # ------------------------------------------------------------- constants
    def decode(self, t, data, prov, off=0):
        ty = self.ty[t]
        k = ty["k"]
        size = ty.get("size")
        def rd(n, o=0):
            bs = data[off + o: off + o + n]
            if any(b is None for b in bs):
                return None
            return bytes(bs)
        if k == "bool":
            return rd(1)[0] != 0
        if k == "char":
            return int.from_bytes(rd(4), "little")
        if k == "int":
            return int.from_bytes(rd(ty["bytes"]), "little", signed=ty["signed"])
        if k == "float":
            if size == 4:
                return self.mkf(struct.unpack("<f", rd(4))[0])
            return self.mkf(struct.unpack("<d", rd(8))[0])
        if k in ("ref", "ptr"):
            to = ty["to"]
            aid = None
            for o, p in prov:
                if o == off:
                    aid = p
            tk = self.ty[to]["k"]
            if aid is None:
                return Opaque("rawptr", int.from_bytes(rd(8), "little"))
            base = int.from_bytes(rd(8), "little")
            if tk == "str":
                ln = int.from_bytes(rd(8, 8), "little")
                m = self.allocs[aid]["mem"]
                return Str([bytes(m["bytes"][base:base + ln]).decode()])
            if tk == "slice":
                ln = int.from_bytes(rd(8, 8), "little")
                e = self.ty[to]["elem"]
                es = self.ty[e]["size"]
                m = self.allocmem(aid)
                xs = [self.decode(e, m["bytes"], m["provenance"]["ptrs"], base + j * es) for j in range(ln)]
                return Slice(('V', Seq(to, e, ln, NList(xs))), (), 0, ln)
            if tk == "dyn":
                return Opaque("dynconst")
            a = self.allocs[aid]
            if a["k"] == "fn":
                return Fn(a["inst"])
            m = self.allocmem(aid)
            if m is None:
                return Opaque("static", a.get("name"))
            return Ref(('V', self.decode(to, m["bytes"], m["provenance"]["ptrs"], base)), ())
        if k == "fnptr":
            for o, p in prov:
                if o == off:
                    return Fn(self.allocs[p]["inst"])
        if k == "fndef":
            return Fn(ty["inst"], t)
        if k == "tuple":
            offs = self.offsets(t)
            return Agg(t, [self.decode(e, data, prov, off + o) for e, o in zip(ty["elems"], offs)])
        if k == "array":
            es = self.ty[ty["elem"]]["size"]
            return Seq(t, ty["elem"], ty["len"], NList([self.decode(ty["elem"], data, prov, off + j * es) for j in range(ty["len"])]))
        if k == "closure":
            return Agg(t, [])
        if k == "adt":
            if ty["kind"] == "Struct":
                offs = self.offsets(t)
                fs = ty["variants"][0]["fields"]
                if self.adt(t, "Vec"):
                    return Seq(t, self.targ(t), 0, NList([]))
                if self.adt(t, "String"):
                    return Str([])
                return Agg(t, [self.decode(f["ty"], data, prov, off + o) for f, o in zip(fs, offs)])
            if ty["kind"] == "Enum":
                var = ty["layout"]["variants"]
                if "Single" in var:
                    vi = var["Single"]["index"]
                    offs = self.offsets(t)
                    return Enum(t, vi, {vi: tuple(self.decode(f["ty"], data, prov, off + o) for f, o in zip(ty["variants"][vi]["fields"], offs))})
                m = var["Multiple"]
                toff = self.offsets(t)[m["tag_field"]]
                prim = list(m["tag"].values())[0]["value"]
                ln, sg = (8, False)
                if "Int" in prim:
                    ln = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[prim["Int"]["length"]]
                    sg = prim["Int"]["signed"]
                bs = rd(ln, toff)
                tag = int.from_bytes(bs, "little") if bs is not None else None
                haspv = any(o == off + toff for o, _ in prov)
                enc = m["tag_encoding"]
                vi = None
                if enc == "Direct":
                    for j, v in enumerate(ty["variants"]):
                        if (int(v["discr"]) % (1 << (8 * ln))) == tag:
                            vi = j
                else:
                    ni = enc["Niche"]
                    lo, hi, start = ni["niche_variants"]["start"], ni["niche_variants"]["end"], ni["niche_start"]
                    vi = ni["untagged_variant"]
                    if not haspv:
                        rel = (tag - start) % (1 << (8 * ln))
                        if rel <= hi - lo:
                            vi = lo + rel
                fo = [x["num_bits"] // 8 for x in m["variants"][vi]["offsets"]] if isinstance(m["variants"][vi], dict) and "offsets" in m["variants"][vi] else self.voffs(m["variants"][vi])
                return Enum(t, vi, {vi: tuple(self.decode(f["ty"], data, prov, off + o) for f, o in zip(ty["variants"][vi]["fields"], fo))})
        raise Unsupported("constant of type " + ty.get("s", k))

    def voffs(self, v):
        f = v.get("fields", v)
        if isinstance(f, dict) and "Arbitrary" in f:
            f = f["Arbitrary"]
        o = f.get("offsets") if isinstance(f, dict) else None
        return [x["num_bits"] // 8 for x in (o or [])]

    def allocmem(self, aid):
        a = self.allocs[aid]
        return a.get("mem")

    def offsets(self, t):
        f = self.ty[t]["layout"]["fields"]
        if isinstance(f, dict) and "Arbitrary" in f:
            return [x["num_bits"] // 8 for x in f["Arbitrary"]["offsets"]]
        return [0]

    def mkf(self, x):
        if x != x: return NAN
        if x == float("inf"): return PINF
        if x == float("-inf"): return NINF
        return F(Fraction(x), negz="no" if struct.pack("<d", x)[7] < 128 else False)

    def zst(self, t):
        ty = self.ty[t]
        k = ty["k"]
        if k == "fndef":
            return Fn(ty["inst"], t)
        if k == "closure":
            return Agg(t, [])
        if k == "tuple":
            return Agg(t, [self.zst(e) for e in ty["elems"]])
        if k == "array":
            return Seq(t, ty["elem"], ty["len"], NList([self.zst(ty["elem"])] * (ty["len"] or 0)))
        if k == "adt" and ty["kind"] == "Struct":
            return Agg(t, [self.zst(f["ty"]) for f in ty["variants"][0]["fields"]])
        if k == "adt" and ty["kind"] == "Enum":
            vi = 0
            v = ty["layout"]["variants"]
            if "Single" in v:
                vi = v["Single"]["index"]
            return Enum(t, vi, {vi: tuple(self.zst(f["ty"]) for f in ty["variants"][vi]["fields"])})
        return Opaque("zst", t)

class Frame:
    __slots__ = ("uid", "inst", "locals", "bb", "si", "dest", "target", "loopctx", "entered")
    def __init__(self, uid, inst, locs, dest, target):
        self.uid = uid; self.inst = inst; self.locals = locs; self.bb = 0; self.si = 0
        self.dest = dest; self.target = target; self.loopctx = None; self.entered = None
    def copy(self):
        f = Frame(self.uid, self.inst, dict(self.locals), self.dest, self.target)
        f.bb = self.bb; f.si = self.si; f.loopctx = self.loopctx; f.entered = self.entered
        return f

class State:
    def __init__(self):
        self.frames = []; self.heap = {}; self.pc = []; self.ghost = {}
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap); s.pc = list(self.pc); s.ghost = dict(self.ghost)
        return s
    def assume(self, c):
        if c is True:
            return
        if isinstance(c, QFact):
            self.pc.append(c); return
        self.pc.append(c)

class Outcome:
    """end of an execution path: kind 'ret' (value) or 'panic' (message)"""
    def __init__(self, kind, val, st, where=None):
        self.kind = kind; self.val = val; self.st = st; self.where = where
    def __repr__(self):
        return "%s %r" % (self.kind, self.val)

INTRANGE = {}
def int_range(ty):
    b = ty["bytes"] * 8
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty["signed"] else (0, (1 << b) - 1)
