"""Loops: unrolling where a loop ends by itself, otherwise an invariant that
gives every modified location its value after k iterations. The invariant is
inferred from one symbolic iteration and then checked (it holds on entry, and
one more iteration takes the form at k to the form at k+1)."""
from mir import *
from vals import *
from sym import *
from solve import feasible, valid
import solve

def handle(e, s, header, body):
    fr = s.frames[-1]
    uid, depth = fr.uid, len(s.frames)
    live = e.p.live(fr.inst)[header]
    fr.locals = {k: v for k, v in fr.locals.items() if k in live}

    def stop(st):
        if len(st.frames) < depth:
            return "exit"
        t = st.frames[-1]
        if len(st.frames) == depth and t.uid == uid:
            if t.bb == header:
                return None if t.entered == header else "back"
            if t.bb not in body:
                return "exit"
        return None

    def one(st):
        st.frames[-1].entered = header
        e.outer.append((st.copy(), uid, depth, header, live, e.uid.n, e.hid.n))
        try:
            outs, stopped = e.run(st, stop)
        finally:
            e.outer.pop()
        backs = [x for r, x in stopped if r == "back"]
        exits = [x for r, x in stopped if r == "exit"]
        for b in backs:
            b.frames[-1].locals = {k: v for k, v in b.frames[-1].locals.items() if k in live}
        return outs, exits, backs

    where = "%s:%s" % (e.p.insts[fr.inst]["name"], e.p.insts[fr.inst]["body"]["blocks"][header]["line"])
    if e.outer:
        r = flatten(e, s, header, one, live, where, e.outer[-1])
        if r is not None:
            return r
    # ---- unrolling
    limit = e.unroll
    def unrolled(early):
        """the loop's exits if it ends by itself within the limit"""
        cur = [s.copy()]
        exits, outs = [], []
        for it in range(limit):
            backs = []
            for st in cur:
                o, x, b = one(st)
                outs += o; exits += x; backs += b
            if not backs:
                e.loopinfo.append((where, "unrolled"))
                return exits, outs
            if e.mode == "unbounded" and early and (exits or outs):
                return None
            cur = merge_states(e, backs, len(s.pc))
    r = unrolled(True)
    if r is not None:
        return r
    if chained(e, s):
        return phased(e, s, header, body, one, where)
    try:
        return summarise(e, s.copy(), header, one, where)
    except (Unsupported, MergeFail) as ex:
        if e.mode != "unbounded":
            raise
        if "iterations cannot be merged" in str(ex):
            r = peeled(e, s, header, one, where)
            if r is not None:
                return r
        r = unrolled(False)
        if r is None:
            raise
        return r

def chained(e, s):
    """which halves the chained iterators of the head's frame still have"""
    out = []
    def walk(v, path):
        if isinstance(v, Agg):
            t = e.p.ty[v.ty] if isinstance(v.ty, int) else None
            ch = t is not None and t["k"] == "adt" and t["name"].endswith("iter::Chain")
            for i, x in enumerate(v.fs):
                if ch and isinstance(x, Enum):
                    if isc(x.d):
                        out.append((path + (i,), int(x.d)))
                    if x.d == 1:
                        for j, y in enumerate(x.pl.get(1, ())):
                            walk(y, path + (i, j))
                else:
                    walk(x, path + (i,))
    for l, v in sorted(s.frames[-1].locals.items()):
        walk(v, (l,))
    return out

def phased(e, s, header, body, one, where):
    """a loop over a chain: rounds over its first half, then those over the rest"""
    depth, uid, now = len(s.frames), s.frames[-1].uid, chained(e, s)
    def one_here(st):
        outs, exits, backs = one(st)
        return outs, exits + [b for b in backs if chained(e, b) != now], [b for b in backs if chained(e, b) == now]
    exits, outs = summarise(e, s.copy(), header, one_here, where)
    def again(x):
        return len(x.frames) == depth and x.frames[-1].uid == uid and x.frames[-1].bb == header
    done = [x for x in exits if not again(x)]
    for x in merge_states(e, [x for x in exits if again(x)], len(s.pc)):
        x.frames[-1].entered = None
        if sum(d for _, d in chained(e, x)) >= sum(d for _, d in now):
            raise Unsupported("chain that grows at " + where)
        xs, os = handle(e, x, header, body)
        done += xs
        outs = outs + os
    return done, outs

def peeled(e, s, header, one, where):
    """first round on its own, then an invariant of the rounds after it"""
    nl = len(e.loopinfo)
    try:
        outs, exits, backs = one(s.copy())
        for b in merge_states(e, backs, len(s.pc)):
            b.frames[-1].entered = None
            b.frames[-1].locals = {k: v for k, v in b.frames[-1].locals.items() if s.frames[-1].locals.get(k, UNDEF) is not UNDEF}
            x, o = summarise(e, b, header, one, where)
            exits = exits + x
            outs = outs + o
        return exits, outs
    except (Unsupported, MergeFail) as ex:
        if DBG: print("PEELED", where, repr(ex))
        del e.loopinfo[nl:]
        return None

DBG = False
def flatten(e, s, header, one, live, where, ctx):
    """An inner loop that a round of the enclosing loop runs into before it has
    changed anything: if starting that round over, with what the inner round
    changed, leads to exactly the state after the inner round, the inner round
    is a round of the enclosing loop that does nothing else."""
    S, uid, depth, head, olive, u0, h0 = ctx
    if len(s.pc) != len(S.pc) or len(s.frames) < depth or s.frames[depth - 1].uid != uid or set(s.ghost) != set(S.ghost):
        return None
    if len(s.frames) == depth and head == header:
        return None
    seen = [('L', f.uid, k) for f in S.frames[:-1] for k in f.locals] + [('L', uid, k) for k in S.frames[-1].locals if k in olive] + [('H', h) for h in S.heap]
    if not all(veq_syn(get_loc(e, S, l), get_loc(e, s, l)) for l in seen):
        return None
    nl = len(e.loopinfo)
    keep = (e.uid.n, e.hid.n)
    try:
        outs, exits, backs = one(s.copy())
    except Unsupported:
        del e.loopinfo[nl:]
        return None
    after = (e.uid.n, e.hid.n)
    n, rounds = len(s.frames), []
    for b in backs:
        T = S.copy()
        T.pc, T.heap, T.ghost = list(b.pc), dict(b.heap), dict(b.ghost)
        for l in seen:
            if l[0] == 'L':
                set_loc(e, T, l, get_loc(e, b, l))
        T.frames[-1].entered = None
        R = T.copy()
        R.frames[-1].entered = head
        e.uid.n, e.hid.n = u0, h0
        def stop(st):
            if len(st.frames) == n and st.frames[-1].bb == header and st.frames[-1].inst == b.frames[-1].inst:
                return "there"
            if len(st.frames) < depth or len(st.frames) == depth and st.frames[-1].bb == head and st.frames[-1].entered != head:
                return "lost"
            return None
        try:
            o, st = e.run(R, stop)
        except Unsupported:
            o, st = [None], []
        finally:
            e.uid.n, e.hid.n = after
        ok = not o and len(st) == 1 and st[0][0] == "there"
        if ok:
            R = st[0][1]
            ok = len(R.pc) == len(b.pc) and [f.uid for f in R.frames] == [f.uid for f in b.frames] and same_ghost(R.ghost, b.ghost)
            for i, (f, g) in enumerate(zip(R.frames, b.frames)):
                if not ok: break
                ks = live if i == n - 1 else olive if i == depth - 1 and n > depth else set(f.locals) | set(g.locals)
                if i == depth - 1 and n > depth:
                    ks = ks | {k for k in g.locals if k in f.locals}
                # (a local not yet initialised when the round starts over is not read)
                ok = f.bb == g.bb and all(f.locals.get(k, UNDEF) is UNDEF or veq_syn(f.locals[k], g.locals.get(k, UNDEF)) for k in ks)
            ok = ok and all(h in R.heap and veq_syn(R.heap[h], b.heap[h]) for h in b.heap)
        if not ok:
            if DBG: print('nofl', o, st and (st[0][0], len(st), len(R.pc), len(b.pc), [f.uid for f in R.frames], [f.uid for f in b.frames], [(i,k,f.locals.get(k,UNDEF), g.locals.get(k,UNDEF)) for i,(f,g) in enumerate(zip(R.frames,b.frames)) for k in set(f.locals)|set(g.locals) if not veq_syn(f.locals.get(k,UNDEF), g.locals.get(k,UNDEF))], [h for h in b.heap if not (h in R.heap and veq_syn(R.heap[h], b.heap[h]))]))
            del e.loopinfo[nl:]
            return None
        rounds.append(T)
    e.loopinfo.append((where, "part of the rounds of the enclosing loop"))
    return exits + rounds, outs

def same_ghost(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or a[k] == b[k] if not isinstance(a[k], z3.ExprRef) else same(a[k], b[k]) for k in a)

def merge_states(e, sts, npc):
    """merge states at the same program point, those that branched last first"""
    out = list(sts)
    bad = set()
    while len(out) > 1:
        best = None
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                k = (id(out[i]), id(out[j]))
                if k in bad:
                    continue
                n = split_pc(out[i].pc, out[j].pc)
                if best is None or n > best[0]:
                    best = (n, i, j, k)
        if best is None:
            break
        _, i, j, k = best
        m = try_merge(e, out[i], out[j], npc)
        if m is None:
            bad.add(k)
            e.keep.append((out[i], out[j]))
            continue
        out[i] = m
        del out[j]
    return out

def split_pc(a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or (not isinstance(a[n], QFact) and not isinstance(b[n], QFact) and not isc(a[n]) and not isc(b[n]) and a[n].eq(b[n]))):
        n += 1
    return n

def discriminator(a, b, ra, rb, ca, cb):
    """a condition that holds in state a and not in state b"""
    # the first condition of a's suffix that b contradicts
    for c in ra:
        if not isinstance(c, QFact) and any((not isinstance(d, QFact)) and same(not_(c), d) or (not isinstance(d, QFact) and not isc(d) and not isc(c) and z3.simplify(z3.And(c, d)).eq(z3.BoolVal(False))) for d in rb):
            return c
    # something no index of a range satisfies in one of them, and some index does in the other
    for x, y, up in ((ra, b, False), (rb, a, True)):
        for q in x:
            if isinstance(q, QFact) and not isc(q.body) and all(q is not z for z in y.pc):
                some = any_range(lambda i: not_(zsub(q.body, [(q.var, Z(i))])), q.lo, q.hi)
                if not isc(some) and solve.prove(y.pc, some, 3000, 1)[0] == "proved":
                    return some if up else not_(some)
    if solve.prove(b.pc, not_(ca), 3000, 1)[0] == "proved":
        return ca
    if solve.prove(a.pc, not_(cb), 3000, 1)[0] == "proved":
        return not_(cb)
    return None

def try_merge(e, a, b, npc):
    n = split_pc(a.pc, b.pc)
    ra, rb = a.pc[n:], b.pc[n:]
    ca = and_(*[c for c in ra if not isinstance(c, QFact)])
    cb = and_(*[c for c in rb if not isinstance(c, QFact)])
    disc = discriminator(a, b, ra, rb, ca, cb)
    if disc is None:
        # nothing tells the two apart: either may be the one that ran
        disc = fresh_bool("path")
    if any(isinstance(c, QFact) for c in ra + rb):
        # range facts would have to be made conditional
        qa = [cond_q(disc, c) for c in ra if isinstance(c, QFact)]
        qb = [cond_q(not_(disc), c) for c in rb if isinstance(c, QFact)]
    else:
        qa = qb = []
    if len(a.frames) != len(b.frames):
        return None
    try:
        m = a.copy()
        for fa, fb, fm in zip(a.frames, b.frames, m.frames):
            if fa.uid != fb.uid or fa.bb != fb.bb:
                return None
            for k in set(fa.locals) | set(fb.locals):
                if k in fa.locals and k in fb.locals:
                    fm.locals[k] = vite(disc, fa.locals[k], fb.locals[k])
                else:
                    fm.locals.pop(k, None)
        for k in set(a.heap) | set(b.heap):
            if k in a.heap and k in b.heap:
                m.heap[k] = vite(disc, a.heap[k], b.heap[k])
            else:
                m.heap[k] = a.heap.get(k, b.heap.get(k))
        for k in set(a.ghost) | set(b.ghost):
            if a.ghost.get(k) is not b.ghost.get(k) and a.ghost.get(k) != b.ghost.get(k):
                return None
    except MergeFail:
        return None
    either = or_(ca, cb)
    comp = [d for d in rb if not isinstance(d, QFact) and same(not_(disc), d)]
    if comp:
        # the paths of one branch: what holds under the condition, and otherwise
        xa = and_(*[c for c in ra if not isinstance(c, QFact) and c is not disc])
        xb = and_(*[d for d in rb if not isinstance(d, QFact) and d is not comp[0]])
        m.pc = a.pc[:n] + [x for x in (implies(disc, xa), implies(not_(disc), xb)) if x is not True] + qa + qb
    elif disc is not ca:
        m.pc = a.pc[:n] + [x for x in (implies(disc, ca), implies(not_(disc), cb)) if x is not True] + qa + qb
    else:
        m.pc = a.pc[:n] + ([either] if either is not True else []) + qa + qb
    return m

def cond_q(c, q):
    return QFact(q.lo, q.hi, q.var, implies(c, q.body))

# ------------------------------------------------------------ leaf locations
def leaves_diff(v0, v1, path, out, e):
    if veq_syn(v0, v1):
        return
    if v0 is UNDEF or v1 is UNDEF:
        out.append(path + (('whole',),)); return
    if isinstance(v0, Agg) and isinstance(v1, Agg) and len(v0.fs) == len(v1.fs):
        for i, (a, b) in enumerate(zip(v0.fs, v1.fs)):
            leaves_diff(a, b, path + (('f', i),), out, e)
        return
    if isinstance(v0, Enum) and isinstance(v1, Enum):
        if any(k not in v0.pl for k in v1.pl):
            out.append(path + (('whole',),)); return
        if not same(v0.d, v1.d):
            out.append(path + (('d',),))
        for k in v1.pl:
            for i, (a, b) in enumerate(zip(v0.pl[k], v1.pl[k])):
                leaves_diff(a, b, path + (('vf', k, i),), out, e)
        return
    if isinstance(v0, Seq) and isinstance(v1, Seq):
        if not same(v0.len, v1.len):
            out.append(path + (('len',),)); out.append(path + (('node',),)); return
        if isinstance(v0.node, NList) and isinstance(v1.node, NList) and len(v0.node.xs) == len(v1.node.xs):
            for i, (a, b) in enumerate(zip(v0.node.xs, v1.node.xs)):
                leaves_diff(a, b, path + (('l', i),), out, e)
            return
        out.append(path + (('node',),)); return
    if isinstance(v0, It) and isinstance(v1, It) and v0.kind == v1.kind:
        if not same(v0.pos, v1.pos): out.append(path + (('pos',),))
        if not same(v0.end, v1.end): out.append(path + (('end',),))
        if not veq_syn(v0.sl, v1.sl): raise Unsupported("iterator over changing slice")
        return
    if isinstance(v0, Rng) and isinstance(v1, Rng) and v0.sid == v1.sid:
        out.append(path + (('idx',),)); return
    if isinstance(v0, Slice) and isinstance(v1, Slice) and v0.root == v1.root and path_same(v0.path, v1.path):
        if not same(v0.start, v1.start): out.append(path + (('start',),))
        if not same(v0.len, v1.len): out.append(path + (('slen',),))
        return
    if isinstance(v0, Ref) and isinstance(v1, Ref) and v0.root == v1.root and len(v0.path) == len(v1.path):
        for j, (a, b) in enumerate(zip(v0.path, v1.path)):
            if a[0] != b[0] or (a[0] != 'i' and a != b):
                raise Unsupported("changing reference in loop")
            if a[0] == 'i' and not same(a[1], b[1]):
                out.append(path + (('ri', j),))
        return
    if is_scalar(v0) and is_scalar(v1):
        out.append(path + (('x',),)); return
    if isinstance(v0, Str) and isinstance(v1, Str):
        out.append(path + (('str',),)); return
    raise Unsupported("loop changes a value of kind %s/%s" % (type(v0).__name__, type(v1).__name__))

def lget(v, path):
    for s in path:
        k = s[0]
        if k == 'f': v = v.fs[s[1]]
        elif k == 'vf': v = v.pl[s[1]][s[2]]
        elif k == 'l': v = v.node.xs[s[1]]
        elif k == 'd': return v.d
        elif k in ('len', 'slen'): return v.len
        elif k == 'node': return v.node
        elif k == 'pos': return v.pos
        elif k == 'end': return v.end
        elif k == 'idx': return v.idx
        elif k == 'start': return v.start
        elif k == 'ri': return v.path[s[1]][1]
        elif k in ('x', 'whole'): return v
    return v

def lset(v, path, new):
    s = path[0]
    k = s[0]
    rest = path[1:]
    if k == 'f':
        fs = list(v.fs); fs[s[1]] = lset(fs[s[1]], rest, new); return Agg(v.ty, fs)
    if k == 'vf':
        pl = dict(v.pl); fs = list(pl[s[1]]); fs[s[2]] = lset(fs[s[2]], rest, new); pl[s[1]] = tuple(fs); return Enum(v.ty, v.d, pl)
    if k == 'l':
        xs = list(v.node.xs); xs[s[1]] = lset(xs[s[1]], rest, new); return Seq(v.ty, v.ety, v.len, NList(xs))
    if k == 'd': return Enum(v.ty, new, v.pl)
    if k == 'len': return Seq(v.ty, v.ety, new, v.node)
    if k == 'slen': return Slice(v.root, v.path, v.start, new)
    if k == 'node': return Seq(v.ty, v.ety, v.len, new)
    if k == 'pos': return It(v.kind, v.sl, new, v.end)
    if k == 'end': return It(v.kind, v.sl, v.pos, new)
    if k == 'idx': return Rng(new, v.sid)
    if k == 'start': return Slice(v.root, v.path, new, v.len)
    if k == 'ri':
        p = list(v.path); p[s[1]] = ('i', new); return Ref(v.root, p)
    return new

def locs_of(st):
    for f in st.frames:
        for k in f.locals:
            yield ('L', f.uid, k)
    for h in st.heap:
        yield ('H', h)

def get_loc(e, st, l):
    if l[0] == 'L':
        for f in st.frames:
            if f.uid == l[1]:
                return f.locals.get(l[2], UNDEF)
        return UNDEF
    return st.heap.get(l[1], UNDEF)

def set_loc(e, st, l, v):
    if l[0] == 'L':
        for f in st.frames:
            if f.uid == l[1]:
                f.locals[l[2]] = v
    else:
        st.heap[l[1]] = v

def type_of_loc(e, st, l):
    if l[0] == 'L':
        for f in st.frames:
            if f.uid == l[1]:
                return e.p.insts[f.inst]["body"]["locals"][l[2]]
    return None

def leaf_type(e, st, leaf):
    """type of the location, where the values on the way carry it"""
    t = type_of_loc(e, st, leaf.loc)
    v = get_loc(e, st, leaf.loc)
    try:
        for s in leaf.path:
            k = s[0]
            vt = getattr(v, "ty", None)
            if vt is None and not isinstance(v, (Agg, Enum, Seq)): vt = t
            if k == 'f':
                ty = e.p.ty[vt] if vt is not None else {"k": None}
                t = ty["variants"][0]["fields"][s[1]]["ty"] if ty["k"] == "adt" and ty["kind"] != "Enum" else ty["elems"][s[1]] if ty["k"] == "tuple" else None
                v = v.fs[s[1]]
            elif k == 'vf':
                t = e.p.ty[vt]["variants"][s[1]]["fields"][s[2]]["ty"]; v = v.pl[s[1]][s[2]]
            elif k == 'l':
                t = v.ety; v = v.node.xs[s[1]]
            elif k == 'x':
                return t
            else:
                return None
    except (KeyError, IndexError, TypeError):
        return None
    return t

class Leaf:
    def __init__(self, loc, path):
        self.loc, self.path = loc, path
        self.key = (loc, path)
    def kind(self):
        return self.path[-1][0]
    def get(self, e, st):
        return lget(get_loc(e, st, self.loc), self.path)
    def put(self, e, st, v):
        set_loc(e, st, self.loc, lset(get_loc(e, st, self.loc), self.path, v))

def diff_states(e, s0, s1):
    out = []
    for l in locs_of(s0):
        v1 = get_loc(e, s1, l)
        v0 = get_loc(e, s0, l)
        ps = []
        leaves_diff(v0, v1, (), ps, e)
        out += [Leaf(l, p) for p in ps]
    return out

def placeholder(e, st, leaf, tag, special=False):
    """arbitrary value for a leaf; for nodes the second result reads a cell"""
    old = leaf.get(e, st)
    k = leaf.kind()
    nm = fresh_name("H_" + tag)
    if k == 'str':
        return Str([("hole", nm, z3.Int(nm))])
    if k == 'node':
        sq = lget(get_loc(e, st, leaf.loc), leaf.path[:-1])
        ety = sq.ety
        def rd(i):
            d = State()
            v = e.fresh(d, ety, nm, (i,), special)
            e.newfacts = e.newfacts + d.pc
            return v
        return NBase(rd, (nm,))
    if k == 'whole':
        t = None
        if isinstance(old, Enum): t = old.ty
        if t is None:
            if DBG: print("WHOLE", leaf.key, old)
            raise Unsupported("arbitrary value of unknown type in loop")
        return e.fresh(st, t, nm, (), special)
    if isinstance(old, F):
        if special:
            n, p, m = z3.Bool(nm + ".nan"), z3.Bool(nm + ".pinf"), z3.Bool(nm + ".ninf")
            st.assume(not_(and_(n, p))); st.assume(not_(and_(n, m))); st.assume(not_(and_(p, m)))
            return F(z3.Real(nm), n, p, m)
        return F(z3.Real(nm))
    if isinstance(old, bool) or (not isc(old) and z3.is_bool(old)):
        return z3.Bool(nm)
    if isinstance(old, int) or (not isc(old) and z3.is_int(old)):
        x = z3.Int(nm)
        if k in ('len', 'slen', 'pos', 'end', 'idx', 'start', 'ri'):
            st.assume(le(0, x))
        elif k == 'x':
            t = leaf_type(e, st, leaf)
            if t is not None and e.p.ty[t]["k"] == "int":
                from engine import int_range
                lo, hi = int_range(e.p.ty[t])
                st.assume(and_(le(lo, x), le(x, hi)))
        return x
    raise Unsupported("placeholder for %r" % (old,))

def parts(v):
    """scalar terms of a leaf value"""
    if isinstance(v, F):
        return [v.v]
    if isinstance(v, Enum):
        r = [v.d]
        for p in v.pl.values():
            for x in p: r += parts(x)
        return r
    if isinstance(v, Agg):
        r = []
        for x in v.fs: r += parts(x)
        return r
    if isinstance(v, (bool, int, Fraction)) or isinstance(v, z3.ExprRef):
        return [v]
    return []

def flat(v):
    """all scalar terms of a value including float flags, in a fixed order"""
    out = []
    vmap(v, lambda x: (out.append(x), x)[1])
    return out

def all_consts(v):
    ids = {}
    def f(x):
        if not isc(x):
            for c in names_of(x):
                ids[c] = True
        return x
    vmap(v, f)
    return ids

def names_of(x):
    r = set()
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(y.decl().name())
        st.extend(y.children())
    return r

def mentions(v, names):
    """does a value mention a placeholder with one of the name prefixes"""
    for n in all_consts(v):
        for p in names:
            if n == p or n.startswith(p + "."):
                return True
    return False

def ite_diff(n, h):
    """n - h where n may be a tree of conditionals over h"""
    if isc(n):
        return None
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
        a, b = ite_diff(norm(n.arg(1)), h), ite_diff(norm(n.arg(2)), h)
        if a is None or b is None:
            return None
        return ite(n.arg(0), a, b)
    d = padd(poly(n), poly(h), -1)
    r = pz(d)
    if z3.is_int(h) and isinstance(r, Fraction):
        r = int(r)
    return r

def find_store(n, base):
    """n as a (possibly conditional) single store into base: (idx, val, oldread)"""
    if n is base:
        return None
    if isinstance(n, NStore):
        if n.n is base or (isinstance(n.n, NBase) and n.n.key == base.key):
            return (n.i, n.v, True)
        inner = find_store(n.n, base)
        if inner and same(iz(inner[0]), iz(n.i)):
            return (n.i, n.v, True)
        return None
    if isinstance(n, NIte):
        a = find_store(n.a, base) if not is_base(n.a, base) else "same"
        b = find_store(n.b, base) if not is_base(n.b, base) else "same"
        if a is None or b is None:
            return None
        if a == "same" and b == "same":
            return None
        i = (a if a != "same" else b)[0]
        if a != "same" and b != "same" and not psame(a[0], b[0]):
            return None
        va = a[1] if a != "same" else base.f(i)
        vb = b[1] if b != "same" else base.f(i)
        return (i, vite(n.c, va, vb), True)
    return None

def is_base(n, base):
    return n is base or (isinstance(n, NBase) and n.key == base.key)

def garbage_lists(e, s):
    """empty sequences get an arbitrary (never readable) content, so that cells
    can be named"""
    def fix(v, t=None):
        if isinstance(v, Seq) and isinstance(v.node, NList) and not v.node.xs:
            nm = fresh_name("none")
            return Seq(v.ty, v.ety, v.len, NBase(lambda i: e.fresh(State(), v.ety, nm, (i,), False), (nm,)))
        if isinstance(v, Agg):
            fs = [fix(x) for x in v.fs]
            return Agg(v.ty, fs) if any(a is not b for a, b in zip(fs, v.fs)) else v
        if isinstance(v, Enum):
            pl = {k: tuple(fix(x) for x in p) for k, p in v.pl.items()}
            return Enum(v.ty, v.d, pl) if any(a is not b for k in pl for a, b in zip(pl[k], v.pl[k])) else v
        return v
    for f in s.frames:
        f.locals = {k: fix(v) for k, v in f.locals.items()}
    s.heap = {k: fix(v) for k, v in s.heap.items()}

def summarise(e, s, header, one, where):
    s = s.copy()
    garbage_lists(e, s)
    npc = len(s.pc)
    M = {}
    special = set()
    hs = None
    for rnd in range(10):
        hs = s.copy()
        ph = {}
        for key, leaf in sorted(M.items(), key=lambda kv: len(kv[0][1])):
            if any(key2 != key and key2[0] == key[0] and key[1][:len(key2[1]) - 1] == key2[1][:-1] and key2[1][-1][0] == 'whole' for key2 in M):
                continue
            v = placeholder(e, hs, leaf, "h", key in special)
            leaf.put(e, hs, v)
            ph[key] = v
        base_pc = len(hs.pc)
        run = hs.copy()
        nl = len(e.loopinfo)
        outs, exits, backs = one(run)
        new = {}
        for b in backs:
            for lf in diff_states(e, hs, b):
                if lf.key not in M:
                    new[lf.key] = lf
                elif lf.key not in special and lf.key in ph:
                    v = lf.get(e, b)
                    if isinstance(v, F) and not v.plain():
                        special.add(lf.key); new[lf.key] = lf
        for key in list(M) + list(new):
            lf = (M.get(key) or new.get(key))
            v0 = lf.get(e, s)
            if isinstance(v0, F) and not v0.plain() and key not in special:
                special.add(key); new[key] = lf
        if not new:
            break
        M.update(new)
        del e.loopinfo[nl:]
    else:
        raise Unsupported("loop does not stabilise at " + where)
    if not backs:
        # the body never returns to the head from an arbitrary state
        return exits, outs
    merged = merge_states(e, backs, base_pc)
    k = fresh_int("k")
    names = {key: base_name(ph[key]) for key in ph}
    closed = {}      # key -> function of iteration term -> value
    opaque = set()
    if len(merged) != 1:
        # what all rounds do alike may tell which of them this one is
        same = {key for key in ph if all(veq_syn(M[key].get(e, b), M[key].get(e, merged[0])) for b in merged[1:])}
        while True:
            n = len(closed)
            for key in sorted(same, key=str):
                if key not in closed:
                    c = solve_leaf(e, s, merged[0], M[key], ph, closed, names, set(ph) - set(closed), key, k)
                    if c is not None:
                        closed[key] = c
            if len(closed) == n:
                break
        if closed:
            run = hs.copy()
            run.assume(le(0, k))
            for key in closed:
                M[key].put(e, run, closed[key](k))
            nl = len(e.loopinfo)
            bp = len(run.pc)
            outs, exits, backs = one(run.copy())
            if any(lf.key not in M for b in backs for lf in diff_states(e, run, b)):
                raise Unsupported("iterations cannot be merged at " + where)
            merged = merge_states(e, backs, bp)
            del e.loopinfo[nl:]
    if len(merged) != 1:
        if DBG:
            print("UNMERGED", where, list(closed), len(merged))
            for b in merged:
                print("   ", b.pc[npc:])
                for lf in diff_states(e, s, b): print("       ", lf.key, lf.get(e, b))
        raise Unsupported("iterations cannot be merged at " + where)
    B = merged[0]
    def run_solver():
        unsolved = {key for key in ph if key not in opaque and key not in closed}
        prog = True
        while prog and unsolved:
            prog = False
            for key in sorted(unsolved, key=str):
                c = solve_leaf(e, s, B, M[key], ph, closed, names, unsolved | opaque, key, k)
                if c is not None:
                    closed[key] = c
                    unsolved.discard(key)
                    prog = True
        opaque.update(unsolved)
    run_solver()
    # candidate invariants of float locations without closed form, checked like
    # the others: true on entry, and kept by every iteration
    cands = None
    for attempt in range(4 if not e.candidates else 12):
        if cands is None and e.candidates:
            cands = []
            for key in ph:
                v0 = M[key].get(e, s)
                if key not in closed and key in special and isinstance(v0, F):
                    for f in e.candidates:
                        g = f(v0, 0)
                        if g is True or g is not False and valid(s.pc, g):
                            cands.append((key, f))
        st = s.copy()
        cpc = len(st.pc)
        st.assume(le(0, k))
        opn = {}
        for key in ph:
            lf = M[key]
            if key in closed:
                v = closed[key](k)
                if lf.kind() == 'x' and not isinstance(v, (F, bool)) and not isc(v) and z3.is_int(v) and falls(v, k):
                    # the closed form is the location's value, which is in the range of its type
                    t = leaf_type(e, st, lf)
                    if t is not None and e.p.ty[t]["k"] == "int":
                        from engine import int_range
                        lo, hi = int_range(e.p.ty[t])
                        st.assume(and_(le(lo, v), le(v, hi)))
            else:
                v = placeholder(e, st, lf, "o", key in special)
                opn[key] = v
            lf.put(e, st, v)
        for key, f in cands or ():
            st.assume(f(opn[key], k))
        base2 = len(st.pc)
        nl = len(e.loopinfo)
        outs, exits, backs = one(st.copy())
        bad = []
        badc = []
        cont = []
        for b in backs:
            for key in list(closed):
                lf = M[key]
                got, want = lf.get(e, b), closed[key](add(k, 1))
                ok = leaf_equal(e, b, got, want, lf)
                if not ok:
                    bad.append(key)
                    if DBG: print("NOT INDUCTIVE", where, key, got, want, b.pc[base2:])
            for key, f in cands or ():
                if (key, f) not in badc and not valid(b.pc, f(M[key].get(e, b), add(k, 1))):
                    badc.append((key, f))
            # initial values of floats: flags
            cont.append(and_(*[c for c in b.pc[base2:] if not isinstance(c, QFact) and not mentions_any(c, opn)]))
        if not bad and not badc:
            break
        if cands is not None:
            cands = [x for x in cands if x not in badc]
        for key in bad:
            opaque.add(key)
            if key in closed:
                cands = None
            closed.pop(key, None)
        del e.loopinfo[nl:]
    else:
        raise Unsupported("no invariant for loop at " + where)
    if DBG:
        for key in ph:
            if key not in closed: print("OPAQUE", where, key, "H", ph[key], "N", M[key].get(e, B), "h0", M[key].get(e, s), bad)
    for key in ph:
        e.invobl.append((where, leaf_name(key), "closed" if key in closed else "arbitrary"))
    e.loopinfo.append((where, "invariant: %d locations with closed form, %d arbitrary" % (len(closed), len(opaque & set(ph)))))
    C = or_(*cont) if cont else False
    fact = None
    if C is not True:
        m = fresh_int("m")
        fact = QFact(0, k, m, zsub(C, [(k, m)]) if C is not False else False)
    res = []
    for x in exits:
        if fact is not None:
            x.pc.insert(base2, fact)
        res.append(elim_k(e, x, k, base2))
    oo = []
    for o in outs:
        if fact is not None:
            o.st.pc.insert(base2, fact)
        o.st = elim_k(e, o.st, k, base2, o)
        oo.append(o)
    return res, oo

def falls(v, k):
    """a linear form that decreases with k"""
    p = poly(v)
    hk = atom(k)
    return any(c < 0 for m, c in p.items() if any(x[0] == hk for x in m))

def mentions_any(c, opn):
    if isc(c) or not opn:
        return False
    ns = names_of(c)
    for v in opn.values():
        p = base_name(v)
        for n in ns:
            if n == p or n.startswith(p + "."):
                return True
    return False

def leaf_name(key):
    return "%s%s" % (key[0], "".join("/%s" % (".".join(map(str, s))) for s in key[1]))

def base_name(v):
    if isinstance(v, Str):
        return v.ps[0][1]
    if isinstance(v, NBase):
        return v.key[0]
    if isinstance(v, F):
        return v.v.decl().name()
    if isinstance(v, Enum):
        d = v.d
        for x in flat(v):
            if not isc(x) and z3.is_const(x):
                n = x.decl().name()
                return n.split(".")[0]
        return "?"
    return v.decl().name()

def subst_closed(e, v, ph, closed, k, upto=None):
    """replace solved placeholders by their closed form at k"""
    subs = []
    texts = {}
    for key, f in closed.items():
        p = ph[key]
        if isinstance(p, NBase):
            continue
        c = f(k)
        if isinstance(p, Str):
            texts[p.ps[0][1]] = c
            continue
        for a, b in zip(flat(p), flat(c)):
            if not isc(a) and not same(a, b):
                subs.append((a, Z(b) if not (isinstance(b, int) and not isinstance(b, bool) and z3.is_real(a)) else z3.RealVal(b)))
    if texts:
        v = splice(v, texts)
    if not subs:
        return v
    return vmap(v, lambda x: x if isc(x) else norm(z3.substitute(x, *subs)))

def splice(v, texts):
    """replace the placeholders of texts"""
    if isinstance(v, Str):
        ps = []
        for p in v.ps:
            if isinstance(p, str):
                ps.append(p)
            elif p[0] == "hole" and p[1] in texts:
                ps += texts[p[1]].ps
            else:
                ps.append((p[0], p[1], splice(p[2], texts)) + tuple(p[3:]))
        return Str(ps)
    if isinstance(v, Agg):
        return Agg(v.ty, [splice(x, texts) for x in v.fs])
    if isinstance(v, Enum):
        return Enum(v.ty, v.d, {k: tuple(splice(x, texts) for x in p) for k, p in v.pl.items()})
    return v

def accessors(e, base):
    """for every function symbol that describes the cells of a placeholder array:
    the way to the same place in another array, given the symbol's arguments"""
    out = {}
    def go(v, d, acc):
        if isinstance(v, F):
            for n in ("v", "nan", "pinf", "ninf"):
                go(getattr(v, n), d, lambda r, a, n=n: getattr(acc(r, a), n))
        elif isinstance(v, Agg):
            for i, x in enumerate(v.fs):
                go(x, d, lambda r, a, i=i: acc(r, a).fs[i])
        elif isinstance(v, Enum):
            go(v.d, d, lambda r, a: acc(r, a).d)
            for k, pl in v.pl.items():
                for i, x in enumerate(pl):
                    go(x, d, lambda r, a, k=k, i=i: acc(r, a).pl[k][i])
        elif isinstance(v, Seq):
            go(v.len, d, lambda r, a: acc(r, a).len)
            j = fresh_int("#ac")
            go(e.nread(None, v.node, j), d + 1, lambda r, a, d=d: e.nread(None, acc(r, a).node, norm(a[d])))
        elif isinstance(v, z3.ExprRef) and not isc(v) and z3.is_app(v) and v.num_args() == d:
            out[v.decl().name()] = acc
    i = fresh_int("#ac")
    go(base.f(i), 1, lambda r, a: e.nread(None, r, norm(a[0])))
    return out

def read_instead(e, v, base, node):
    """v with every read of the placeholder array replaced by one of node"""
    acc = accessors(e, base)
    def f(x):
        for rnd in range(3):
            if isc(x):
                return x
            subs = []
            for a in solve.apps([x]).values():
                g = acc.get(a.decl().name())
                if g is None:
                    continue
                try:
                    y = g(node, [a.arg(i) for i in range(a.num_args())])
                except (KeyError, AttributeError):
                    continue
                if not same(y, a):
                    subs.append((a, coerce(y, a)))
            if not subs:
                return x
            x = norm(z3.substitute(x, *subs))
        return x
    return vmap(v, f)

def array_subs(e, v, ph, closed, k):
    """replace reads of solved placeholder arrays by reads of their closed form"""
    for key, f in closed.items():
        p = ph[key]
        if not isinstance(p, NBase) or not mentions(v, [p.key[0]]):
            continue
        v = read_instead(e, v, p, f(k))
    return v

def coerce(y, x):
    if isc(y):
        if z3.is_real(x): return z3.RealVal(str(Fraction(y)))
        return Z(y)
    return y

def solve_leaf(e, s, B, leaf, ph, closed, names, unsolved, key, k):
    H = ph[key]
    N = leaf.get(e, B)
    h0 = leaf.get(e, s)
    others = [names[x] for x in unsolved if x != key]
    own = names[key]
    if isinstance(H, NBase):
        if N is H:
            return lambda t: h0
        def known(v):
            return array_subs(e, subst_closed(e, v, ph, closed, k), ph, closed, k)
        return solve_node(e, H, N, h0, known, lambda v: mentions(v, others) or mentions(v, [own]), k, lambda v: read_instead(e, v, H, h0))
    if isinstance(H, Enum):
        N2 = array_subs(e, subst_closed(e, N, ph, closed, k), ph, closed, k)
        if mentions(N2, others) or mentions(N2, [own]):
            return None
        def lastv(t):
            t1 = iz(sub(t, 1))
            nv = vmap(N2, lambda x: zsub(x, [(k, Z(t1))]))
            try:
                return vite(eq(t, 0), h0, nv)
            except MergeFail:
                raise Unsupported("last value")
        try:
            lastv(k)
        except Unsupported:
            return None
        return lastv
    if isinstance(H, Str):
        if not N.ps or isinstance(N.ps[0], str) or N.ps[0][:2] != H.ps[0][:2]:
            return None
        more = array_subs(e, subst_closed(e, Str(N.ps[1:]), ph, closed, k), ph, closed, k)
        if mentions(more, others) or mentions(more, [own]):
            return None
        return lambda t: Str(list(h0.ps) + ([("for", "", Rep(0, t, lambda i: vmap(more, lambda x: zsub(x, [(k, Z(i))]))))] if not same(t, 0) else []))
    isf = isinstance(H, F)
    if isf and not (H.plain() and N.plain() and h0.plain()):
        return None
    h, n, z0 = (H.v, N.v, h0.v) if isf else (H, N, h0)
    n = one_term(array_subs(e, subst_closed(e, F(n) if isf else n, ph, closed, k), ph, closed, k), isf)
    wrap = (lambda x: F(x)) if isf else (lambda x: x)
    if same(n, h):
        return lambda t: h0
    if not isc(n) and mentions(n, others):
        return None
    if isc(n) or not mentions(n, [own]):
        def lastv(t):
            return wrap(ite(eq(t, 0), z0, zsub(n, [(k, Z(iz(sub(t, 1))))]))) if not isc(t) else wrap(z0 if t == 0 else zsub(n, [(k, Z(t - 1))]))
        return lastv
    if not isc(h) and z3.is_bool(h):
        # set (or cleared) once a condition holds in some iteration
        up, dn = (norm(z3.simplify(z3.substitute(n, (h, z3.BoolVal(b))))) for b in (True, False))
        up, dn = (True if not isc(x) and z3.is_true(x) else False if not isc(x) and z3.is_false(x) else x for x in (up, dn))
        if up is True and (isc(dn) or not mentions(dn, [own])):
            return lambda t: or_(z0, any_range(lambda i: zsub(dn, [(k, Z(i))]), 0, t))
        if dn is False and (isc(up) or not mentions(up, [own])):
            return lambda t: and_(z0, not_(any_range(lambda i: not_(zsub(up, [(k, Z(i))])), 0, t)))
        return None
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and not isc(h):
        # set to one and the same value whenever a condition holds
        c, x, y = n.arg(0), norm(n.arg(1)), norm(n.arg(2))
        if same(x, h):
            c, x, y = not_(c), y, x
        if same(y, h) and not isc(c) and not mentions(c, [own]) and (isc(x) or not mentions(x, [own]) and not contains(x, k)):
            return lambda t: wrap(ite(any_range(lambda i: zsub(c, [(k, Z(i))]), 0, t), x, z0))
    try:
        d = ite_diff(n, h)
    except Unsupported:
        d = None
    if d is not None and (isc(d) or not mentions(d, [own])):
        if isc(d) or not contains(d, k):
            if isf:
                return lambda t: F(add(z0, mul(R(t), R(d))))
            return lambda t: iz(add(z0, mul(t, d)))
        if isf:
            return lambda t: F(add(z0, sum_range(lambda i: R(zsub(d, [(k, Z(i))])), 0, t)))
        return None
    if isf:
        # multiplicative recurrence
        p = poly(n)
        hk = atom(h)
        q = {}
        for m, c in p.items():
            dm = dict(m)
            if dm.get(hk) != 1:
                return None
            q[tuple(x for x in m if x[0] != hk)] = c
        c = pz(q)
        if isc(c) or not (mentions(c, [own]) or contains(c, k)):
            return lambda t: F(mul(z0, POWI(Z(R(c)), Z(t)))) if not isc(t) else F(mul(z0, powc(c, t)))
    return None

def powc(c, n):
    r = Fraction(1)
    for _ in range(n): r = mul(r, R(c))
    return r

def one_term(v, isf=False):
    if isinstance(v, F): return v.v
    return v

def solve_node(e, H, N, h0, known, open_, k, initial):
    """closed form of an array of which each iteration changes one cell: either
    the cells of a range one after the other, or one fixed cell"""
    fs = find_store(N, H)
    if fs is None:
        return rewritten(H, N, h0, known, open_, k)
    idx, val, _ = fs
    idx = iz(one_term(known(idx)))
    if not isc(idx) and open_(idx):
        return None
    if isc(idx) or not contains(idx, k):
        # one cell: its own parts in closed form
        if not isinstance(val, Seq):
            return None
        old, first = H.f(fs[0]), e.nread(None, h0, idx)
        if not isinstance(old, Seq) or not same(old.len, val.len) or not isinstance(old.node, NBase):
            return None
        sub_ = solve_node(e, old.node, val.node, first.node, known, open_, k, initial)
        if sub_ is None:
            return None
        return lambda t: NStore(h0, idx, Seq(first.ty, first.ety, first.len, sub_(t)))
    a = iz(sub(idx, k)); b = iz(add(idx, k))
    up = isc(a) or not contains(a, k)
    down = isc(b) or not contains(b, k)
    if not up and not down:
        return None
    val = known(initial(val))
    if open_(val):
        return None
    if up:
        def cell(i):
            return vmap(val, lambda x: zsub(x, [(k, Z(iz(sub(i, a))))]))
        return lambda t: NMap(h0, a, iz(add(a, t)), cell)
    def cell(i):
        return vmap(val, lambda x: zsub(x, [(k, Z(iz(sub(b, i))))]))
    return lambda t: NMap(h0, iz(add(sub(b, t), 1)), iz(add(b, 1)), cell)

def rewritten(H, N, h0, known, open_, k):
    """closed form of an array whose cells every iteration writes anew: what the
    last iteration wrote"""
    if is_base(N, H):
        return None
    class Own(Exception): pass
    def now(v):
        v = known(v)
        if open_(v): raise Own()
        return v
    def go(n):
        if is_base(n, H):
            return lambda t1: h0
        if isinstance(n, NMap):
            j = fresh_int("#j")
            lo, hi = now(n.lo), now(n.hi)
            inside = [(c, z3.BoolVal(b)) for c, b in ((le(lo, j), True), (le(hi, j), False), (lt(j, hi), True), (lt(j, lo), False)) if not isc(c)]
            cell, below = now(vmap(known(n.f(j)), lambda x: x if isc(x) else norm(z3.simplify(z3.substitute(x, *inside))))), go(n.n)
            return lambda t1: NMap(below(t1), iz(zsub(lo, [(k, t1)])), iz(zsub(hi, [(k, t1)])), lambda i: vmap(cell, lambda x: zsub(x, [(j, Z(i)), (k, t1)])))
        if isinstance(n, NStore):
            idx, val, below = now(n.i), now(n.v), go(n.n)
            return lambda t1: NStore(below(t1), iz(zsub(idx, [(k, t1)])), vmap(val, lambda x: zsub(x, [(k, t1)])))
        if isinstance(n, NBase) and not n.key[0].startswith("H_"):
            j = fresh_int("#j")
            cell = now(n.f(j))
            return lambda t1: NBase(lambda i: vmap(cell, lambda x: zsub(x, [(j, Z(i)), (k, t1)])), ("last", fresh_name("k")))
        raise Own()
    try:
        f = go(N)
    except (Own, Unsupported, MergeFail):
        return None
    return lambda t: NIte(eq(t, 0), h0, f(Z(iz(sub(t, 1)))))

def leaf_equal(e, st, got, want, leaf):
    if leaf.kind() == 'node':
        i = fresh_int("sk")
        g, w = e.nread(st, got, i), e.nread(st, want, i)
        # compare only cells that both describe
        pc = st.pc
        return val_equal(e, pc, g, w)
    return val_equal(e, st.pc, got, want)

def str_equal(e, pc, g, w):
    """texts piece by piece; a repetition may give up its last round"""
    a, b = list(g.ps), list(w.ps)
    for rnd in range(200):
        if not a or not b:
            return not a and not b
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            a[-1:] = [x[:-n]] if len(x) > n else []
            b[-1:] = [y[:-n]] if len(y) > n else []
            continue
        ix, iy = (not isinstance(z, str) and z[0] == "if" for z in (x, y))
        if ix or iy:
            # a conditional part whose condition is decided here
            done = False
            for r, l in ((x, a), (y, b)):
                if not isinstance(r, str) and r[0] == "if":
                    cond = r[2].fs[0]
                    if valid(pc, cond):
                        l[-1:] = list(r[2].fs[1].ps)
                    elif valid(pc, not_(cond)):
                        l.pop()
                    else:
                        continue
                    done = True
            if done:
                continue
        fx, fy = (not isinstance(z, str) and z[0] == "for" for z in (x, y))
        if fx and fy:
            if same(x[2].lo, y[2].lo) and valid(pc, eq(x[2].hi, y[2].hi)):
                i = fresh_int("sk")
                if not str_equal(e, pc + [le(x[2].lo, i), lt(i, x[2].hi)], x[2].f(i), y[2].f(i)):
                    return False
                a.pop(); b.pop(); continue
            if not same(x[2].lo, y[2].lo):
                return False
        if fx or fy:
            if fx and fy:
                fx = valid(pc, lt(y[2].hi, x[2].hi))
            r, l = (x, a) if fx else (y, b)
            h = iz(sub(r[2].hi, 1))
            if not valid(pc, le(r[2].lo, h)):
                return False
            l[-1:] = ([("for", "", Rep(r[2].lo, h, r[2].f))] if not same(r[2].lo, h) else []) + list(r[2].f(h).ps)
            continue
        if isinstance(x, str) or isinstance(y, str) or x[:2] != y[:2] or x[3:] != y[3:] or not val_equal(e, pc, x[2], y[2]):
            return False
        a.pop(); b.pop()
    return False

def val_equal(e, pc, g, w):
    if veq_syn(g, w):
        return True
    if isinstance(g, Str) and isinstance(w, Str):
        return str_equal(e, pc, g, w)
    if isinstance(g, Seq) and isinstance(w, Seq):
        if not val_equal(e, pc, g.len, w.len):
            return False
        i = fresh_int("sk")
        return val_equal(e, pc + [le(0, i), lt(i, g.len)], e.nread(None, g.node, i), e.nread(None, w.node, i))
    if isinstance(g, Agg) and isinstance(w, Agg) and len(g.fs) == len(w.fs) and any(isinstance(x, (Seq, Str, Agg, Enum)) for x in g.fs):
        return all(val_equal(e, pc, x, y) for x, y in zip(g.fs, w.fs))
    if isinstance(g, Enum) and isinstance(w, Enum):
        # the same variant; contents matter for that variant only
        if not same(g.d, w.d) and solve.prove(pc, eq(g.d, w.d), 1500, 1)[0] != "proved":
            return False
        for v in set(g.pl) | set(w.pl):
            a, b = g.pl.get(v, ()), w.pl.get(v, ())
            if not a and not b or veq_syn(Agg(None, list(a)), Agg(None, list(b))):
                continue
            on = eq(g.d, v)
            if on is False:
                continue
            pv = pc + ([] if on is True else [on])
            if len(a) != len(b):
                if feasible(pv, True): return False
                continue
            if on is not True and not feasible(pc, on):
                continue
            if not all(val_equal(e, pv, x, y) for x, y in zip(a, b)):
                return False
        return True
    if isinstance(g, F) and isinstance(w, F) and not (g.plain() and w.plain()):
        # the real part of a NaN or infinity is irrelevant
        for a, b in ((g.nan, w.nan), (g.pinf, w.pinf), (g.ninf, w.ninf)):
            if not same(a, b) and solve.prove(pc, eq(a, b), 3000, 1)[0] != "proved":
                return False
        if same(g.v, w.v) or psame(g.v, w.v):
            return True
        fin = g.isfin()
        return fin is False or solve.prove(pc + ([] if fin is True else [fin]), eq(g.v, w.v), 3000, 1)[0] == "proved"
    try:
        fg, fw = flat(g), flat(w)
    except Unsupported:
        return False
    if len(fg) != len(fw):
        return False
    for a, b in zip(fg, fw):
        if same(a, b):
            continue
        if not isc(a) and z3.is_real(a) or not isc(b) and z3.is_real(b):
            if psame(a, b):
                continue
        elif not isc(a) and z3.is_int(a) or not isc(b) and z3.is_int(b):
            if psame(a, b): continue
        r, _, _, _ = solve.prove(pc, eq(a, b), 1500, 1)
        if r != "proved":
            return False
    return True

def elim_k(e, st, k, npc, outcome=None):
    """if the path condition determines k, substitute it"""
    cands = []
    for c in st.pc[npc:]:
        if isinstance(c, QFact) or isc(c):
            continue
        for a in cmp_atoms(c):
            l, r = a.arg(0), a.arg(1)
            if not z3.is_int(l):
                continue
            d = poly(l - r)
            ka = atom(k)
            co = d.get(((ka, 1),))
            if co is None or any(ka in dict(m) and m != ((ka, 1),) for m in d):
                continue
            rest = {m: c2 / -co for m, c2 in d.items() if m != ((ka, 1),)}
            if any(c2.denominator != 1 for c2 in rest.values()):
                continue
            x = pz(rest)
            if isinstance(x, Fraction): x = int(x)
            for cand in (x, iz(add(x, 1)), iz(sub(x, 1))):
                if all(not same(cand, y) for y in cands):
                    cands.append(cand)
    for c in cands[:9]:
        if valid_q(st.pc, eq(k, c), k):
            subs = [(k, Z(c))]
            f = lambda x: x if isc(x) else norm(z3.substitute(x, *subs))
            for fr in st.frames:
                fr.locals = {i: sv(v, f, k) for i, v in fr.locals.items()}
            st.heap = {i: sv(v, f, k) for i, v in st.heap.items()}
            if outcome is not None and not isinstance(outcome.val, str):
                outcome.val = sv(outcome.val, f, k)
            npcs = []
            for p in st.pc:
                if isinstance(p, QFact):
                    npcs.append(p.subst(*subs))
                elif isc(p):
                    npcs.append(p)
                else:
                    q = norm(z3.substitute(p, *subs))
                    if q is not True:
                        npcs.append(q)
            st.pc = npcs
            return st
    return st

def sv(v, f, k):
    if v is UNDEF:
        return v
    return vmap(v, f)

def valid_q(pc, goal, k):
    r, _, _, _ = solve.prove(pc, goal, 800, 1)
    return r == "proved"

def cmp_atoms(c):
    out = []; st = [c]; n = 0
    while st and n < 50:
        x = st.pop(); n += 1
        kd = x.decl().kind() if z3.is_app(x) else None
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            if z3.is_int(x.arg(0)):
                out.append(x)
        elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            st.extend(x.children())
    return out
