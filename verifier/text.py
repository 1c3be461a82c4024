"""Strings as lists of pieces, and trusted contracts of the standard library's
string operations on them. Pieces: a python str (literal text) or
  ("id", "", t)            an arbitrary string, named by an integer term
"""
from vals import *
from sym import *
from models import model, Many, Tail, Cx, when as _m_when
import mir as _m, re, z3, solve

TRIM = uf("str.trim", IS, IS)
BLANK = " \t\n\r\x0b\x0c"

def as_str(cx, a):
    while isinstance(a, Ref):
        a = cx.e.load(cx.st, a)
    if not isinstance(a, Str):
        raise Unsupported("expected a string, got %r" % type(a))
    return a

def ident(t):
    return Str([("id", "", t)])

def is_ident(s):
    """the naming term of an arbitrary string"""
    if len(s.ps) == 1 and not isinstance(s.ps[0], str) and s.ps[0][0] in ("id", "word"):
        return s.ps[0][2]
    return None

def word(t):
    """an arbitrary nonempty text of letters, digits, signs and points"""
    return Str([("word", "", t)])

def is_word(s):
    return len(s.ps) == 1 and not isinstance(s.ps[0], str) and s.ps[0][0] == "word"

# ------------------------------------------------------- owned and borrowed
@model(r"^<std::string::String as std::(ops::Deref|convert::AsRef<str>|borrow::Borrow<str>|clone::Clone)>::\w+$|^std::string::String::(as_str|as_mut_str)$|^<(std::string::String|str|T) as std::string::ToString>::to_string$|^<T as std::string::SpecToString>|^<std::string::String as std::convert::From<&(mut )?str>>::from$|^(std|alloc)::str::<impl std::borrow::ToOwned for str>::to_owned$|^std::string::String::from_str$|^<str as std::convert::AsRef<str>>::as_ref$")
def m_str_same(cx):
    return to_string(cx) if "ToString" in cx.inst["def"] else as_str(cx, cx.args[0])

def to_string(cx):
    a = cx.args[0]
    while isinstance(a, Ref):
        a = cx.e.load(cx.st, a)
    if isinstance(a, Str):
        return a
    raise Unsupported("text of %r" % type(a))

@model(r"^core::str::<impl str>::trim$")
def m_trim(cx):
    s = as_str(cx, cx.args[0])
    return trim(s)

def trim(s, left=True, right=True):
    l = s.lit()
    if l is not None:
        return Str([(l.strip(BLANK) if left and right else l.lstrip(BLANK) if left else l.rstrip(BLANK))])
    t = is_ident(s)
    if t is not None and left and right:
        return ident(TRIM(Z(t)))
    raise Unsupported("trimming this text")

@model(r"^std::io::_e?print$")
def m_print(cx):
    return Agg(None, [])

# ------------------------------------------------------------------ formatting
NUMCHARS = set("0123456789+-.eEinfNa")      # the text of a number uses only these, and is not empty
ALIGN = {0: "<", 1: ">", 2: "^", 3: ""}

class Spec:
    """formatting options of one placeholder"""
    def __init__(self, flags=0x60000020, width=None, prec=None):
        self.fill, self.align, self.bits = chr(flags & 0x1fffff), ALIGN[(flags >> 29) & 3], (flags >> 21) & 0xf
        self.width, self.prec = width, prec
    def plain(self):
        return self.width is None and self.prec is None and self.bits == 0

def template(bs):
    """pieces of a format string: ("lit", text) and ("arg", index, flags, width, precision); widths are values or ("arg", i)"""
    out, i, arg = [], 0, 0
    u16 = lambda j: bs[j] | bs[j + 1] << 8
    while True:
        n = bs[i]; i += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = u16(i); i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode())); i += n
            continue
        flags, w, p = 0x60000020, None, None
        if n & 1:
            flags = u16(i) | u16(i + 2) << 16; i += 4
        if n & 2:
            w = u16(i); i += 2
        if n & 4:
            p = u16(i); i += 2
        if n & 8:
            arg = u16(i); i += 2
        if n & 16: w = ("arg", w)
        if n & 32: p = ("arg", p)
        if not flags & (1 << 27): w = None
        if not flags & (1 << 28): p = None
        out.append(("arg", arg, flags, w, p)); arg += 1

def bytes_of(e, st, v):
    while isinstance(v, Ref):
        v = e.load(st, v)
    if isinstance(v, Slice):
        v = e.slice_seq(st, v)
    if isinstance(v, Seq) and isinstance(v.node, NList) and all(isinstance(x, int) for x in v.node.xs):
        return list(v.node.xs)
    raise Unsupported("format template %r" % (v,))

def args_of(e, st, v):
    while isinstance(v, Ref):
        v = e.load(st, v)
    if isinstance(v, Slice):
        sq = e.slice_seq(st, v)
        return [e.slice_get(st, v, i) for i in range(v.len)]
    if isinstance(v, Seq) and isinstance(v.node, NList):
        return list(v.node.xs)
    raise Unsupported("format arguments %r" % (v,))

def render(e, st, fa):
    """texts of format arguments: list of (kind, state, pieces | None | panic message); None is a formatting error"""
    if isinstance(fa, Str):
        return [("ok", st, list(fa.ps))]
    if not (isinstance(fa, Opaque) and fa.tag == "fmtargs"):
        raise Unsupported("format arguments %r" % (fa,))
    a = fa.data
    if len(a) == 1:
        return [("ok", st, list(as_str(Cx(e, st, None, a, ""), a[0]).ps))]
    ops = template(bytes_of(e, st, a[0]))
    args = args_of(e, st, a[1])
    def number(x):
        if isinstance(x, tuple):
            o = args[x[1]]
            if o.data[0] != "from_usize":
                raise Unsupported("width argument")
            v = o.data[1]
            while isinstance(v, Ref): v = e.load(st, v)
            return v
        return x
    cur = [("ok", st, [])]
    for op in ops:
        nxt = []
        for k, s, ps in cur:
            if k != "ok" or ps is None:
                nxt.append((k, s, ps)); continue
            if op[0] == "lit":
                nxt.append((k, s, ps + [op[1]])); continue
            for k2, s2, p2 in render_arg(e, s, args[op[1]], Spec(op[2], number(op[3]), number(op[4]))):
                nxt.append((k2, s2, ps + p2 if k2 == "ok" and p2 is not None else p2))
        cur = nxt
    return cur

STDNUM = r"^(f64|f32|[iu](8|16|32|64|128|size))$"
def render_arg(e, st, o, spec):
    kind, v, inst = o.data
    t = inst["args"][0]["ty"]
    return render_value(e, st, kind[4:], v, t, spec)

def render_value(e, st, kind, v, t, spec):
    """v: reference to a value of type t"""
    while isinstance(v, Ref) and e.p.ty[t]["k"] == "ref":
        t = e.p.ty[t]["to"]
        v = e.load(st, v)
    ty = e.p.ty[t]
    if isinstance(v, Ref) and isinstance(e.load(st, v), (F, int, bool, Str, Opaque)) or isinstance(v, Ref) and is_scalar(e.load(st, v)):
        val = e.load(st, v)
    else:
        val = v
    if isinstance(val, Opaque) and val.tag == "fmtargs":
        return render(e, st, val)
    if isinstance(val, Str):
        if kind != "display":
            raise Unsupported("text formatted as " + kind)
        return [("ok", st, pad(st, val, spec))]
    s = ty.get("s", "")
    if re.search(STDNUM, s) and (isinstance(val, F) or is_scalar(val)):
        if kind == "display" and spec.plain():
            return [("ok", st, [("disp", s, val)])]
        none = -1
        return [("ok", st, [("fmt", (kind, s, spec.fill, spec.align, spec.bits), Agg(None, [val, none if spec.width is None else spec.width, none if spec.prec is None else spec.prec]))])]
    tr = {"display": "std::fmt::Display", "lower_exp": "std::fmt::LowerExp"}.get(kind)
    if tr is None:
        raise Unsupported("formatted as " + kind)
    for i, x in e.p.insts.items():
        if i >= 0 and x["def"].endswith(" as %s>::fmt" % tr) and x.get("body"):
            st_ = e.p.ty[x["body"]["locals"][1]]
            if st_["k"] == "ref" and st_["to"] == t:
                break
    else:
        raise Unsupported("no %s for %s" % (tr, s))
    f = e.alloc(st, Agg(None, [Str([]), Opaque("spec", spec)]))
    out = []
    n = len(st.frames)
    for r in e.exec_fn(st, i, [v, f]):
        if r.kind == "panic":
            out.append(("panic", r.st, r.val)); continue
        assert len(r.st.frames) == n
        ok = e.simp(r.st, eq(r.val.d, 0))
        if ok is not True:
            raise Unsupported("formatting that may fail")
        out.append(("ok", r.st, list(e.load(r.st, f).fs[0].ps)))
    return out

def pad(st, s, spec):
    if spec.prec is not None or spec.bits:
        raise Unsupported("truncated text")
    if spec.width is None:
        return list(s.ps)
    if spec.align not in ("<", "") or spec.fill != " ":
        raise Unsupported("aligned text")
    n = chars(s)
    if isinstance(n, int) and isinstance(spec.width, int):
        return list(s.ps) + [" " * max(0, spec.width - n)]
    d = iz(sub(spec.width, n))
    return list(s.ps) + [("blanks", "", norm(z3.simplify(z3.If(Z(d) > 0, Z(d), z3.IntVal(0)))))]

def chars(s):
    n = 0
    for p in s.ps:
        if isinstance(p, str): n = add(n, len(p))
        elif p[0] == "id": n = add(n, CHARS(Z(p[2])))
        elif p[0] == "blanks": n = add(n, p[2])
        else: raise Unsupported("length of formatted text")
    return iz(n)
CHARS = uf("str.chars", IS, IS)

def append(e, st, ref, ps):
    """writes to a String, a Formatter or a sink with a text field"""
    v = e.load(st, ref)
    while isinstance(v, Ref):
        ref = v
        v = e.load(st, ref)
    if isinstance(v, Str):
        e.store(st, ref, Str(list(v.ps) + list(ps))); return
    if isinstance(v, Agg) and v.ty is None and len(v.fs) == 2 and isinstance(v.fs[0], Str):
        e.store(st, Ref(ref.root, ref.path + (('f', 0),)), Str(list(v.fs[0].ps) + list(ps))); return
    if isinstance(v, Agg) and v.ty is not None:
        fl = e.p.ty[v.ty]["variants"][0]["fields"]
        for i, f in enumerate(fl):
            if f["name"] == "text" and isinstance(v.fs[i], Str):
                e.store(st, Ref(ref.root, ref.path + (('f', i),)), Str(list(v.fs[i].ps) + list(ps))); return
    raise Unsupported("writing to %r" % type(v))

def okval(cx, t=None):
    t = cx.dest_ty if t is None else t
    return Enum(t, 0, {0: (Agg(None, []),)})

@model(r"^(std|alloc|core)::fmt::format(::format_inner)?$")
def m_format(cx):
    out = []
    for k, st, ps in render(cx.e, cx.st, cx.args[0]):
        if k == "ok" and ps is None:
            raise Unsupported("formatting error")
        out.append((k, st, Str(ps) if k == "ok" else ps))
    return Many(out)

@model(r"^(std|core)::fmt::Write::write_fmt$|^std::fmt::Formatter::<'a>::write_fmt$|^std::io::Write::write_fmt$")
def m_write_fmt(cx):
    out = []
    for k, st, ps in render(cx.e, cx.st, cx.args[1]):
        if k == "ok":
            if ps is None:
                raise Unsupported("formatting error")
            append(cx.e, st, cx.args[0], ps)
            ps = okval(cx)
        out.append((k, st, ps))
    return Many(out)

@model(r"^std::fmt::Formatter::<'a>::(write_str|pad)$|^<std::string::String as std::fmt::Write>::write_str$")
def m_write_str(cx):
    s = as_str(cx, cx.args[1])
    ps = list(s.ps)
    if cx.inst["def"].endswith("::pad"):
        ps = pad(cx.st, s, cx.e.load(cx.st, cx.args[0]).fs[1].data)
    append(cx.e, cx.st, cx.args[0], ps)
    return okval(cx)

@model(r"^core::fmt::(num|float)::(imp::)?<impl std::fmt::(Display|LowerExp) for (f64|f32|[iu](8|16|32|64|128|size))>::fmt$")
def m_num_fmt(cx):
    m = re.search(r"(Display|LowerExp) for (\w+)>", cx.inst["def"])
    v = cx.e.load(cx.st, cx.args[0])
    f = cx.e.load(cx.st, cx.args[1])
    spec = f.fs[1].data
    if m.group(1) == "Display" and spec.plain():
        ps = [("disp", m.group(2), v)]
    else:
        ps = [("fmt", ({"Display": "display", "LowerExp": "lower_exp"}[m.group(1)], m.group(2), spec.fill, spec.align, spec.bits), Agg(None, [v, -1 if spec.width is None else spec.width, -1 if spec.prec is None else spec.prec]))]
    append(cx.e, cx.st, cx.args[1], ps)
    return okval(cx)

@model(r"^<str as std::fmt::Display>::fmt$|^<std::string::String as std::fmt::Display>::fmt$")
def m_str_fmt(cx):
    f = cx.e.load(cx.st, cx.args[1])
    append(cx.e, cx.st, cx.args[1], pad(cx.st, as_str(cx, cx.args[0]), f.fs[1].data))
    return okval(cx)

# ----------------------------------------------------------- owned text
@model(r"^std::string::String::(new|with_capacity)$|^<std::string::String as std::default::Default>::default$")
def m_string_new(cx):
    return Str([])

@model(r"^std::string::String::push_str$")
def m_push_str(cx):
    append(cx.e, cx.st, cx.args[0], as_str(cx, cx.args[1]).ps)
    return Agg(None, [])

@model(r"^std::string::String::push$")
def m_push_char(cx):
    if not isinstance(cx.args[1], int):
        raise Unsupported("character")
    append(cx.e, cx.st, cx.args[0], [chr(cx.args[1])])
    return Agg(None, [])

@model(r"^std::string::String::clear$")
def m_string_clear(cx):
    cx.e.store(cx.st, cx.args[0], Str([]))
    return Agg(None, [])

@model(r"^<std::string::String as std::ops::(Add|AddAssign)<&str>>::add(_assign)?$")
def m_string_add(cx):
    ps = as_str(cx, cx.args[1]).ps
    if cx.inst["def"].endswith("assign"):
        append(cx.e, cx.st, cx.args[0], ps)
        return Agg(None, [])
    return Str(list(as_str(cx, cx.args[0]).ps) + list(ps))

# ------------------------------------------------------------ taking apart
# Arbitrary text is a term t; what the library does to it is an uninterpreted
# function of t and of the set of separators. Structured text is decided.
LITID, LITS = {}, {}
def lit_term(s):
    """the naming term of a literal, distinct for distinct literals"""
    if s not in LITID:
        LITID[s] = -1000 - len(LITID)
        LITS[LITID[s]] = s
    return LITID[s]

def text_term(s):
    l = s.lit()
    return lit_term(l) if l is not None else is_ident(s)

def trim_ident(t):
    if isinstance(t, int) and t in LITS:
        return Str([LITS[t].strip(BLANK)])
    return ident(TRIM(Z(t)))

def charset(cx, p):
    """(set of ASCII separator characters, name) of a pattern argument; a text pattern gives the text"""
    e, st = cx.e, cx.st
    v = p
    while isinstance(v, Ref):
        p_ = v
        v = e.load(st, v)
    if isinstance(v, int) and not isinstance(v, bool):
        return {chr(v)}, setkey({chr(v)})
    if isinstance(v, Str):
        l = v.lit()
        if l is None or len(l) == 0:
            raise Unsupported("separator text")
        return ({l}, setkey({l})) if len(l) == 1 and l.isascii() else (l, "text" + repr(l))
    if isinstance(v, Slice) or isinstance(v, Seq):
        xs = [e.slice_get(st, v, i) for i in range(v.len)] if isinstance(v, Slice) else list(v.node.xs)
        if not all(isinstance(x, int) for x in xs):
            raise Unsupported("separators")
        s = {chr(x) for x in xs}
        return s, setkey(s)
    # a predicate on characters
    s = set()
    def ask(c):
        f = v
        if isinstance(f, Fn):
            iid, args = f.inst, [c]
        elif isinstance(f, Agg) and e.p.ty[f.ty]["k"] == "closure":
            iid, args = e.p.ty[f.ty]["inst"], [e.alloc(st, f), c]
        else:
            raise Unsupported("separator %r" % (v,))
        r = e.exec_fn(st.copy(), iid, args)
        if len(r) != 1 or r[0].kind != "ret" or not isinstance(e.simp(st, r[0].val), bool):
            raise Unsupported("separator predicate")
        return e.simp(st, r[0].val)
    for c in range(128):
        if ask(c):
            s.add(chr(c))
    # beyond ASCII the predicate must hold of nothing, or else it stays a function of its own
    x = fresh_int("char")
    st2 = st.copy()
    st2.assume(and_(le(128, x), le(x, 0x10ffff)))
    f = v
    try:
        rs = e.exec_fn(st2, f.inst, [x]) if isinstance(f, Fn) else e.exec_fn(st2, e.p.ty[f.ty]["inst"], [e.alloc(st2, f), x])
        none = all(r.kind == "ret" and solve.valid(r.st.pc, not_(r.val)) for r in rs)
    except Unsupported:
        none = False
    return s, setkey(s) + ("" if none else ":" + str(v.ty if isinstance(v, Agg) else v.inst))

def setkey(s):
    return "chars" + repr("".join(sorted(s)))

def blank_set():
    return set(BLANK), "blanks"

def no_sep(p, sep):
    """the piece contains no separator, whatever its values (None: cannot tell)"""
    if isinstance(p, str):
        return not any(c in sep for c in p) if isinstance(sep, set) else sep not in p
    if p[0] == "word":
        return not any(c.isalnum() or c in "+-._" for c in sep) if isinstance(sep, set) else None
    if p[0] == "disp" or p[0] == "fmt" and p[2].fs[1] == -1:
        return not any(c in NUMCHARS for c in sep) if isinstance(sep, set) else None if any(c in NUMCHARS for c in sep) else True
    if p[0] == "blanks":
        return not (" " in sep)
    return None

def pieces_split(cx, s, sep, limit=None):
    """list of words (lists of pieces), possibly ending with ("rest", lo, hi, word function) for a repeated piece"""
    if isinstance(sep, str) and len(sep) == 1:
        sep = {sep}
    words, cur = [], []
    for n, p in enumerate(s.ps):
        if limit is not None and len(words) + 1 >= limit:
            cur.append(p)
            continue
        if isinstance(p, str):
            i = 0
            while i < len(p):
                if limit is not None and len(words) + 1 >= limit:
                    break
                if isinstance(sep, set):
                    j = next((k for k in range(i, len(p)) if p[k] in sep), -1)
                    w = 1
                else:
                    j = p.find(sep, i)
                    w = len(sep)
                if j < 0:
                    break
                cur.append(p[i:j]); words.append(cur); cur = []
                i = j + w
            cur.append(p[i:])
            continue
        if p[0] == "for":
            rep = p[2]
            bv = fresh_int("#wx")
            b = rep.f(bv)
            if b.ps and isinstance(b.ps[0], str) and b.ps[0] and isinstance(sep, set) and b.ps[0][0] in sep and limit is None:
                rest = Str([b.ps[0][1:]] + list(b.ps[1:]))
                if all(no_sep(q, sep) is True for q in rest.ps) and n == len(s.ps) - 1:
                    words.append(cur)
                    return words, (rep.lo, rep.hi, lambda i, rest=rest, bv=bv: vmap(rest, lambda x: zsub(x, [(bv, Z(i))])))
            if all(no_sep(q, sep) is True for q in b.ps):
                cur.append(p); continue
            raise Unsupported("splitting a repeated text")
        if no_sep(p, sep) is not True:
            raise Unsupported("splitting at characters a part may contain")
        cur.append(p)
    words.append(cur)
    return words, None

def str_ty(e):
    for k, t in e.p.ty.items():
        if t["k"] == "ref" and e.p.ty.get(t["to"], {}).get("k") == "str":
            return k
    return -1

def words_iter(cx, ln, node):
    t = str_ty(cx.e)
    h = cx.e.alloc(cx.st, Seq(-1, t, ln, node))
    return It("own", Slice(h.root, h.path, 0, ln), 0, ln)

def split_text(cx, s, sep, key, limit=None, drop_empty=False):
    t = is_ident(s)
    if t is not None and not is_word(s):
        nm = "%s.%s%s" % ("words" if drop_empty else "parts", key, "" if limit is None else ".%d" % limit)
        n = uf(nm + ".n", IS, IS)(Z(t))
        at = uf(nm + ".at", IS, IS, IS)
        cx.st.assume(le(0 if drop_empty else 1, n))
        cx.st.assume(le(n, limit if limit is not None else 2 ** 60))
        return words_iter(cx, n, NBase(lambda i: ident(at(Z(t), Z(i))), (nm, str(t))))
    ws, rest = pieces_split(cx, s, sep, limit)
    ws = [Str(w) for w in ws]
    if drop_empty:
        if rest is not None:
            raise Unsupported("words of a repeated text")
        for w in ws:
            if w.ps and all(not isinstance(p, str) and p[0] in ("for", "if", "id") for p in w.ps):
                raise Unsupported("a word that may be empty")
        ws = [w for w in ws if w.ps]
    if rest is None:
        return words_iter(cx, len(ws), NList(ws))
    lo, hi, f = rest
    if len(ws) != 1:
        raise Unsupported("splitting a repeated text after other parts")
    n = iz(sub(hi, lo))
    ln = iz(add(n, 1))
    g = f
    f = lambda i: vmap(g(i), lambda x: norm(z3.simplify(x)) if isinstance(x, z3.ExprRef) else x)
    if str_same(f(iz(sub(lo, 1))), ws[0]):
        return words_iter(cx, ln, NBase(lambda i: f(iz(add(i, iz(sub(lo, 1))))), ("split", fresh_name("sp"))))
    raise Unsupported("splitting a repeated text with another head %r %r" % (f(iz(sub(lo, 1))), ws[0]))

@model(r"^core::str::<impl str>::(split_whitespace|split_ascii_whitespace)$")
def m_split_ws(cx):
    sep, key = blank_set()
    return split_text(cx, as_str(cx, cx.args[0]), sep, key, drop_empty=True)

@model(r"^core::str::<impl str>::split$")
def m_split(cx):
    sep, key = charset(cx, cx.args[1])
    return split_text(cx, as_str(cx, cx.args[0]), sep, key)

@model(r"^core::str::<impl str>::splitn$")
def m_splitn(cx):
    sep, key = charset(cx, cx.args[2])
    n = cx.args[1]
    if not isinstance(n, int) or n < 1:
        raise Unsupported("splitn")
    return split_text(cx, as_str(cx, cx.args[0]), sep, key, n)

@model(r"^core::str::<impl str>::split_once$")
def m_split_once(cx):
    s = as_str(cx, cx.args[0])
    sep, key = charset(cx, cx.args[1])
    it = split_text(cx, s, sep, key, 2)
    sq = cx.e.slice_seq(cx.st, it.sl)
    t = cx.rty()
    if t is None:
        raise Unsupported("split_once")
    pt = cx.e.p.ty[t]["variants"][1]["fields"][0]["ty"]
    return cx.fork(eq(sq.len, 2), lambda st: Enum(t, 1, {1: (Agg(pt, [cx.e.nread(st, sq.node, 0), cx.e.nread(st, sq.node, 1)]),)}), lambda st: Enum(t, 0, {0: ()}))

def strip_chars(s, sep, left, right, key):
    """remove leading and trailing characters of a set"""
    t = is_ident(s)
    if is_word(s) and no_sep(s.ps[0], sep) is True:
        return s
    if t is not None:
        return ident(uf("strip.%s%d%d" % (key, left, right), IS, IS)(Z(t)))
    ps = list(s.ps)
    def sure(p, first):
        # the first / last character of the piece is there and not in the set
        if isinstance(p, str):
            return bool(p) and p[0 if first else -1] not in sep
        if p[0] in ("disp", "word"):
            return no_sep(p, sep) is True
        return False
    def go(ps, first):
        while ps:
            k = 0 if first else -1
            p = ps[k]
            if isinstance(p, str):
                q = p.lstrip("".join(sep)) if first else p.rstrip("".join(sep))
                if q:
                    ps[k] = q; return
                ps.pop(k); continue
            if sure(p, first):
                return
            if p[0] == "blanks" and " " in sep:
                ps.pop(k); continue
            if p[0] == "id" and set(BLANK) == set(sep) and len(ps) == 1:
                ps[k] = ("id", "", TRIM(Z(p[2]))); return
            if p[0] == "for" and len(ps) > 1:
                b = p[2].f(fresh_int("#sx"))
                if b.ps and sure(b.ps[0 if first else -1], first) and not isinstance(ps[1 if first else -2], str) and sure(ps[1 if first else -2], first):
                    return
                if b.ps and sure(b.ps[0 if first else -1], first) and isinstance(ps[1 if first else -2], str):
                    q = ps[1 if first else -2]
                    if q[0 if first else -1] not in sep:
                        return
            raise Unsupported("stripping this text")
    if left: go(ps, True)
    if right: go(ps, False)
    return Str(ps)

def trim(s, left=True, right=True):
    l = s.lit()
    if l is not None:
        return Str([(l.strip(BLANK) if left and right else l.lstrip(BLANK) if left else l.rstrip(BLANK))])
    t = is_ident(s)
    if is_word(s):
        return s
    if t is not None:
        if left and right:
            return trim_ident(t)
        raise Unsupported("trimming one side")
    return strip_chars(s, set(BLANK), left, right, "blanks")

@model(r"^core::str::<impl str>::(trim_matches|trim_start_matches|trim_end_matches)$")
def m_trim_matches(cx):
    sep, key = charset(cx, cx.args[1])
    if not isinstance(sep, set):
        raise Unsupported("trimming a text")
    w = cx.inst["def"].split("::")[-1]
    return strip_chars(as_str(cx, cx.args[0]), sep, w != "trim_end_matches", w != "trim_start_matches", key)

@model(r"^core::str::<impl str>::(trim_start|trim_end)$")
def m_trim_side(cx):
    w = cx.inst["def"].split("::")[-1]
    return trim(as_str(cx, cx.args[0]), w == "trim_start", w == "trim_end")

def ascii_prefix(s, n):
    """text after the first n bytes, when they are literal"""
    ps = list(s.ps)
    while n > 0:
        if not ps or not isinstance(ps[0], str):
            return None
        k = min(n, len(ps[0]))
        if not ps[0].isascii():
            return None
        n -= k
        ps[0] = ps[0][k:]
        if not ps[0]:
            ps.pop(0)
    return Str(ps)

@model(r"^core::str::<impl str>::get$")
def m_str_get(cx):
    s = as_str(cx, cx.args[0])
    r = cx.args[1]
    t = cx.rty()
    if t is None or not isinstance(r, Agg) or not cx.e.p.ty[r.ty]["name"].endswith("RangeFrom") or not isinstance(r.fs[0], int):
        raise Unsupported("part of a text")
    n = r.fs[0]
    some = lambda v: Enum(t, 1, {1: (v,)})
    k = is_ident(s)
    l = s.lit()
    if l is not None:
        b = l.encode()
        if n > len(b): return Enum(t, 0, {0: ()})
        try:
            b[:n].decode()
        except UnicodeDecodeError:
            return Enum(t, 0, {0: ()})
        return some(Str([b[n:].decode()]))
    if k is not None:
        has = uf("tail%d.ok" % n, IS, BS)(Z(k))
        cx.st.assume(implies(has, le(n, uf("str.len", IS, IS)(Z(k)))))
        return cx.fork(has, lambda st: some(ident(uf("tail%d" % n, IS, IS)(Z(k)))), lambda st: Enum(t, 0, {0: ()}))
    q = ascii_prefix(s, n)
    if q is None:
        raise Unsupported("part of a structured text")
    return some(q)

FINDS = {}
@model(r"^core::str::<impl str>::find$")
def m_find(cx):
    """position of the first separator"""
    s = as_str(cx, cx.args[0])
    sep, key = charset(cx, cx.args[1])
    t = cx.rty()
    if t is None:
        raise Unsupported("find")
    some = lambda v: Enum(t, 1, {1: (v,)})
    k = is_ident(s)
    if k is not None and not is_word(s):
        if not isinstance(sep, set):
            raise Unsupported("find")
        nm = "parts.%s.2" % key
        n = uf(nm + ".n", IS, IS)(Z(k))
        cx.st.assume(and_(le(1, n), le(n, 2)))
        x = uf("find." + key, IS, IS)(Z(k))
        cx.st.assume(implies(eq(n, 2), and_(le(0, x), lt(x, uf("str.len", IS, IS)(Z(k))))))
        cx.st.assume(le(uf("str.len", IS, IS)(Z(k)), 2 ** 60))
        FINDS[x] = (k, nm)
        return cx.fork(eq(n, 2), lambda st: some(x), lambda st: Enum(t, 0, {0: ()}))
    seps = {sep} if isinstance(sep, str) else sep
    done = []
    for p in s.ps:
        if isinstance(p, str):
            at = [p.find(c) for c in seps if c in p]
            if at:
                return some(text_len(cx.st, done + [p[:min(at)]]))
        elif no_sep(p, seps if not isinstance(sep, str) else set(sep)) is not True:
            raise Unsupported("find in a structured text")
        done.append(p)
    if isinstance(sep, str):
        raise Unsupported("find in a structured text")
    return Enum(t, 0, {0: ()})

def cut(st, s, at):
    """the two parts of a text cut at a byte position, when the position is known to be in literal text"""
    n = 0
    for i, p in enumerate(s.ps):
        d = iz(sub(at, n))
        if isinstance(d, int):
            if d == 0:
                return Str(s.ps[:i]), Str(s.ps[i:])
            if isinstance(p, str) and 0 < d < len(p.encode()) and p.isascii():
                return Str(list(s.ps[:i]) + [p[:d]]), Str([p[d:]] + list(s.ps[i + 1:]))
        n = add(n, text_len(st, [p]))
    if iz(sub(at, n)) == 0:
        return s, Str([])
    k = is_ident(s)
    if k is not None:
        for x, (t, nm) in FINDS.items():
            if str_same(ident(t), ident(k)):
                d = iz(sub(at, x))
                w = lambda j: ident(uf(nm + ".at", IS, IS, IS)(Z(k), Z(j)))
                if d == 1: return None, w(1)
                if d == 0: return w(0), None
    raise Unsupported("cutting a text")

@model(r"^core::str::traits::<impl std::ops::Index<I> for str>::index$|^<std::string::String as std::ops::Index<I>>::index$")
def m_str_index(cx):
    s = as_str(cx, cx.args[0])
    r = cx.args[1]
    n = cx.e.p.ty[r.ty]["name"].split("::")[-1] if isinstance(r, Agg) and r.ty is not None else ""
    if n == "RangeFull":
        return s
    if n == "RangeFrom":
        return need_cut(cut(cx.st, s, r.fs[0])[1])
    if n == "RangeTo":
        return need_cut(cut(cx.st, s, r.fs[0])[0])
    if n == "Range" and r.fs[0] == 0:
        return need_cut(cut(cx.st, s, r.fs[1])[0])
    raise Unsupported("part of a text")

def need_cut(x):
    if x is None:
        raise Unsupported("cutting a text")
    return x

@model(r"^core::str::<impl str>::(is_empty|len)$|^std::string::String::(is_empty|len)$")
def m_str_empty(cx):
    s = as_str(cx, cx.args[0])
    emp = cx.inst["def"].endswith("is_empty")
    l = s.lit()
    if l is not None:
        return l == "" if emp else len(l.encode())
    t = is_ident(s)
    if t is not None:
        n = uf("str.len", IS, IS)(Z(t))
        cx.st.assume(le(0, n))
        return eq(n, 0) if emp else n
    if emp and any(isinstance(p, str) or p[0] == "disp" for p in s.ps):
        return False
    n = text_len(cx.st, s.ps)
    return eq(n, 0) if emp else n

def text_len(st, ps):
    """length in bytes"""
    n = 0
    for p in ps:
        if isinstance(p, str):
            n = add(n, len(p.encode())); continue
        if p[0] == "blanks":
            n = add(n, p[2]); continue
        if p[0] in ("id", "word"):
            x, lo = uf("str.len", IS, IS)(Z(p[2])), 1 if p[0] == "word" else 0
        elif p[0] == "disp":
            vs = [p[2].x, p[2].nan, p[2].pinf, p[2].ninf] if isinstance(p[2], F) else [p[2]]
            vs = [Z(v) for v in vs]
            x, lo = uf("len.disp." + p[1], *[v.sort() for v in vs], IS)(*vs), 1
        else:
            raise Unsupported("length of a structured text")
        st.assume(le(lo, x))
        st.assume(le(x, 2 ** 60))
        n = add(n, x)
    return iz(n)

def iff_(a, b):
    return a if b is True else not_(a) if b is False else eq(a, b)

def text_eq(cx, a, b):
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None:
        return la == lb
    ta, tb = text_term(a), text_term(b)
    if ta is not None and tb is not None:
        for x, l in ((ta, lb), (tb, la)):
            if l is not None:
                cx.st.assume(implies(eq(x, lit_term(l)), eq(uf("str.len", IS, IS)(Z(x)), len(l.encode()))))
                for nm in ("usize", "f64", "i32"):
                    cx.st.assume(implies(eq(x, lit_term(l)), iff_(uf("parses." + nm, IS, BS)(Z(x)), literal_number(l, nm) is not None)))
        return eq(ta, tb)
    if str_same(a, b):
        return True
    if la is not None:
        a, b, la, lb = b, a, lb, la
    if lb is None:
        raise Unsupported("comparison of texts")
    # structured text against a literal: walk the literal parts
    ps = list(a.ps)
    rest = lb
    while ps and isinstance(ps[0], str):
        p = ps.pop(0)
        if not rest.startswith(p):
            return False
        rest = rest[len(p):]
    if not ps:
        return rest == ""
    end = list(reversed(ps))
    while end and isinstance(end[0], str):
        p = end.pop(0)
        if not rest.endswith(p):
            return False
        rest = rest[:len(rest) - len(p)]
    pos = 0
    for p in reversed(end):
        if isinstance(p, str):
            pos = rest.find(p, pos)
            if pos < 0:
                return False
            pos += len(p)
    if all(not isinstance(p, str) and p[0] == "disp" for p in end) and end:
        if not rest or any(c not in NUMCHARS for c in rest):
            return False
    raise Unsupported("comparison of a structured text")

@model(r"^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|^<&'?\w* ?str as std::cmp::PartialEq<std::string::String>>::(eq|ne)$|^<str as std::cmp::PartialEq<std::string::String>>::(eq|ne)$")
def m_str_eq(cx):
    r = text_eq(cx, as_str(cx, cx.args[0]), as_str(cx, cx.args[1]))
    return not_(r) if cx.inst["def"].endswith("::ne") else r

# ------------------------------------------------------------- reading numbers
FLOATRX = re.compile(r"^[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$", re.I)
def literal_number(s, nm):
    """the value a literal denotes as a number of the type, or None"""
    if nm in ("f64", "f32"):
        if not FLOATRX.match(s):
            return None
        x = float(s)
        if x != x: return F(Fraction(0), True, False, False)
        if x in (float("inf"), float("-inf")): return F(Fraction(0), False, x > 0, x < 0)
        return F(Fraction(x))
    m = re.match(r"^([iu])(8|16|32|64|128|size)$", nm)
    if not re.match(r"^\+?\d+$" if m.group(1) == "u" else r"^[+-]?\d+$", s):
        return None
    b = 64 if m.group(2) == "size" else int(m.group(2))
    lo, hi = (0, 2 ** b) if m.group(1) == "u" else (-2 ** (b - 1), 2 ** (b - 1))
    v = int(s)
    return v if lo <= v < hi else None

@model(r"^core::num::(float_parse::|dec2flt::|imp::dec2flt::|imp::)?<impl std::str::FromStr for (f64|f32|[iu](8|16|32|64|128|size))>::from_str$")
def m_num_parse(cx):
    nm = re.search(r"FromStr for (\w+)>", cx.inst["def"]).group(1)
    t = cx.dest_ty
    vs = cx.e.p.ty[t]["variants"]
    s = as_str(cx, cx.args[0])
    try:
        err = cx.e.fresh(cx.st, vs[1]["fields"][0]["ty"], "parse error", (), False)
    except Unsupported:
        err = Opaque("parse error")
    ok = lambda v: Enum(t, 0, {0: (v,)})
    l = s.lit()
    if l is not None:
        v = literal_number(l, nm)
        return ok(v) if v is not None else Enum(t, 1, {1: (err,)})
    k = is_ident(s)
    if k is not None:
        b = uf("parses." + nm, IS, BS)(Z(k))
        v = cx.e.fresh(cx.st, vs[0]["fields"][0]["ty"], "parsed." + nm, (k,), True)
        return cx.fork(b, lambda st: ok(v), lambda st: Enum(t, 1, {1: (err,)}))
    if len(s.ps) == 1 and not isinstance(s.ps[0], str) and s.ps[0][0] == "disp" and s.ps[0][1] == nm:
        return ok(s.ps[0][2])
    raise Unsupported("reading a number from structured text %r" % (s,))

@model(r"^<std::string::String as std::str::FromStr>::from_str$")
def m_string_parse(cx):
    return Enum(cx.dest_ty, 0, {0: (as_str(cx, cx.args[0]),)})

# ------------------------------------------------------- iterators over parts
def iter_value(cx, i=0):
    a = cx.args[i]
    while isinstance(a, Ref):
        a = cx.e.load(cx.st, a)
    return a

@model(r"^<std::(str|io)::(Split\w*|Lines)<.*> as std::iter::Iterator>::next$")
@_m_when(lambda cx: isinstance(iter_value(cx), It))
def m_parts_next(cx):
    import models
    return models.it_next(cx)

def mapped(e, v):
    """(slice iterator, closures) of an iterator that maps over one"""
    fs = []
    while isinstance(v, Agg) and v.ty is not None and e.p.ty[v.ty].get("name", "").endswith("iter::Map"):
        fs.append(v.fs[1])
        v = v.fs[0]
    return (v, fs[::-1]) if isinstance(v, It) else (None, None)

def collectable(cx):
    it, fs = mapped(cx.e, cx.args[0])
    if it is None or len(fs) > 1:
        return False
    ty = cx.e.p.ty[cx.dest_ty]
    if ty["k"] != "adt":
        return False
    if ty["name"].endswith("vec::Vec"):
        return True
    if ty["name"].endswith("result::Result") and fs:
        o = cx.e.p.ty[ty["variants"][0]["fields"][0]["ty"]]
        return o["k"] == "adt" and o["name"].endswith("vec::Vec")
    return False

@model(r"^std::iter::Iterator::collect$")
@_m_when(collectable)
def m_collect(cx):
    import models
    e, st = cx.e, cx.st
    it, fs = mapped(e, cx.args[0])
    t = cx.dest_ty
    vt = t
    res = e.p.ty[t]["name"].endswith("result::Result")
    if res:
        vt = e.p.ty[t]["variants"][0]["fields"][0]["ty"]
    et = e.p.targ(vt)
    if not fs and it.kind == "own":
        sq = e.slice_seq(st, Slice(it.sl.root, it.sl.path, it.sl.start, it.sl.len))
        if isc(it.pos) and it.pos == 0 and isc(it.sl.start) and it.sl.start == 0:
            return Seq(vt, et, it.end, sq.node)
    if not fs:
        raise Unsupported("collecting references")
    v = e.alloc(st, Seq(vt, et, 0, NList([])))
    return Tail(models.synth(e, "try_collect" if res else "collect"), [it, fs[0], v, Opaque("type", t)])

@model(r"^#push$")
def m_push_to(cx):
    e, st = cx.e, cx.st
    v = e.load(st, cx.args[0])
    import models
    e.store(st, cx.args[0], models.seq_push(cx, v, cx.args[1]))
    return Agg(None, [])

@model(r"^#take$")
def m_take(cx):
    t = cx.args[1].data
    v = cx.e.load(cx.st, cx.args[0])
    return Enum(t, 0, {0: (v,)}) if cx.e.p.ty[t]["name"].endswith("result::Result") else v

@model(r"^#failed$")
def m_failed(cx):
    return Enum(cx.args[1].data, 1, {1: (cx.args[0],)})

# ------------------------------------------------------- text as bytes
@model(r"^std::string::String::(as_bytes|into_bytes)$|^(std|core|alloc)::str::(<impl str>::)?as_bytes$|^(core|alloc)::str::<impl str>::(as_bytes|into_bytes)$")
def m_as_bytes(cx):
    return as_str(cx, cx.args[0])

def text_of_bytes(cx, a):
    v = a
    while isinstance(v, Ref):
        v = cx.e.load(cx.st, v)
    if isinstance(v, Str):
        return v
    if isinstance(v, Slice) and isc(v.start) and isc(v.len):
        sq = cx.e.slice_seq(cx.st, v)
        xs = [cx.e.nread(cx.st, sq.node, v.start + i) for i in range(v.len)]
        if all(isinstance(x, int) and x < 128 for x in xs):
            return Str(["".join(map(chr, xs))] if xs else [])
    return None

@model(r"^std::io::Write::write_all$|^<vharness::analysis::Sink as std::io::Write>::write$|^<std::string::String as std::fmt::Write>::write_char$|^std::fmt::Formatter::<'a>::write_char$")
@_m_when(lambda cx: cx.inst["def"].endswith("write_char") and isinstance(cx.args[1], int) or text_of_bytes(cx, cx.args[1]) is not None)
def m_write_all(cx):
    if cx.inst["def"].endswith("write_char"):
        append(cx.e, cx.st, cx.args[0], [chr(cx.args[1])])
        return okval(cx)
    s = text_of_bytes(cx, cx.args[1])
    append(cx.e, cx.st, cx.args[0], s.ps)
    if cx.inst["def"].endswith("::write"):
        n = fresh_int("written")
        cx.st.assume(le(0, n))
        return Enum(cx.dest_ty, 0, {0: (n,)})
    return okval(cx)
