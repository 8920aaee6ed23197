"""Abstract semantics of the standard library functions the code may use.

A model works on abstract values and never looks at how the caller is written.  Anything
without a model is analysed through its own MIR body when the dump has one.
"""
import re
from . import terms as tm
from .terms import T, mk
from .values import Agg, Enum, Ref, Fn, GV, Seq, Opaque, UNDEF, Unsupported, combine, seglen, same, scalar, show

INF = None      # length of an endless iterator


# ------------------------------------------------------------------ helpers
def adt_path(I, ty):
    if not isinstance(ty, int):
        return None
    t = I.P.types[ty]
    return t.get("path") if t["k"] == "adt" else None


def deref(I, st, v, n=9):
    """strip references down to a value"""
    while n and isinstance(v, Ref) and v.meta is None:
        v = I.load(st, v)
        n -= 1
    return v


def unit(I, ty):
    return Agg(ty, ())


def opt(I, ty, cond, v):
    """Option with Some(v) exactly if cond"""
    return Enum(ty, cond, {0: (), 1: (v,)})


def some(ty, v):
    return Enum(ty, 1, {1: (v,)})


def none(ty):
    return Enum(ty, 0, {0: ()})


def truth(st, c):
    p = st.facts.prove(c) if scalar(c) else None
    return c if p is None else int(p)


def enum_payload_type(I, ty, var, i=0):
    return I.P.types[ty]["variants"][var]["fields"][i][1]


def err_unit(I, ty):
    """some value of an opaque std error type"""
    if isinstance(ty, int):
        t = I.P.types[ty]
        if t["k"] == "tuple":
            return Agg(ty, [err_unit(I, e) for e in t["elems"]])
        if t["k"] == "adt" and len(t["variants"]) == 1:
            return Agg(ty, [err_unit(I, ft) for _, ft in t["variants"][0]["fields"]])
    return Opaque("error")


def result(I, ty, cond, v, e=None):
    """Result: Ok(v) exactly if cond"""
    if e is None:
        e = err_unit(I, enum_payload_type(I, ty, 1))
    return Enum(ty, tm.sub(1, cond), {0: (v,), 1: (e,)})


def size_of(I, st, r):
    """length of what a slice-like reference denotes"""
    if isinstance(r, GV):
        return combine(r.sel, [(c, size_of(I, st, u)) for c, u in r.cases], None if r.default is None else size_of(I, st, r.default))
    if isinstance(r, Ref) and r.meta is not None:
        return r.meta[1]
    v = I.load(st, r)
    if isinstance(v, (Ref, GV)) and not isinstance(v, Seq):
        if isinstance(v, Ref):
            return size_of(I, st, v)
    return I.seq_total(st, v)


def as_slice(I, st, r):
    """reference with (start, len) metadata"""
    if isinstance(r, GV):
        return combine(r.sel, [(c, as_slice(I, st, u)) for c, u in r.cases], None if r.default is None else as_slice(I, st, r.default))
    if isinstance(r, Ref) and r.meta is not None:
        return r
    v = I.load(st, r)
    if isinstance(v, Ref):
        return as_slice(I, st, v)
    if isinstance(v, Seq) or isinstance(v, GV):
        return Ref(r.key, r.path, (0, I.seq_total(st, v)))
    raise Unsupported(f"slice of {show(v)[:60]}")


def content(I, st, r):
    """the sequence behind any reference to a slice, str, Vec, String or array"""
    if isinstance(r, Ref) and r.meta is not None:
        return I.slice_of(st, r)
    v = I.load(st, r)
    if isinstance(v, Ref):
        return content(I, st, v)
    return v


def elem_ref(r, i):
    if isinstance(r, GV):
        return combine(r.sel, [(c, elem_ref(u, i)) for c, u in r.cases], None if r.default is None else elem_ref(r.default, i))
    if r.meta is not None:
        i = tm.add(r.meta[0], i)
    return Ref(r.key, r.path + (("i", i),))


def new_cell(I, st, v, ty=None):
    I.frames += 1
    key = ("t", I.frames)
    st.mem[key] = v
    if ty is not None:
        I.keyty[key] = ty
    return Ref(key)


def known_text(I, st, q):
    """the text of a string all of whose characters are known"""
    q = chars_of(I, st, q)
    if not isinstance(q, Seq) or q.upds or any(x[0] != "e" or any(not isinstance(c, int) for c in x[1]) for x in q.segs):
        return None
    return "".join(chr(c) for x in q.segs for c in x[1])


def text_method(I, st, m, t, a, ty):
    """methods of str on known text; the value or None"""
    chars = lambda t: Seq([("e", tuple(map(ord, t)))], "chars")
    ref = lambda t: as_slice(I, st, new_cell(I, st, chars(t)))
    if m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
        if not t.isascii():
            return None
        return chars(t.lower() if "lower" in m else t.upper())
    if m in ("trim", "trim_start", "trim_end") and t.isascii():
        w = "\t\n\v\f\r "
        return ref(t.strip(w) if m == "trim" else t.lstrip(w) if m == "trim_start" else t.rstrip(w))
    pat = None
    if len(a) == 1:
        pat = chr(a[0]) if isinstance(a[0], int) else known_text(I, st, content(I, st, a[0])) if isinstance(a[0], Ref) and a[0].meta is not None else None
    if not pat:
        return None
    if m == "eq_ignore_ascii_case" and t.isascii() and pat.isascii():
        return int(t.lower() == pat.lower())
    if m in ("starts_with", "ends_with", "contains"):
        return int(t.startswith(pat) if m == "starts_with" else t.endswith(pat) if m == "ends_with" else pat in t)
    if m in ("trim_matches", "trim_start_matches", "trim_end_matches"):
        while m != "trim_end_matches" and t.startswith(pat):
            t = t[len(pat):]
        while m != "trim_start_matches" and t.endswith(pat):
            t = t[:-len(pat)]
        return ref(t)
    if m in ("strip_prefix", "strip_suffix") and isinstance(ty, int):
        if m == "strip_prefix" and t.startswith(pat):
            return Enum(ty, 1, {1: (ref(t[len(pat):]),)})
        if m == "strip_suffix" and t.endswith(pat):
            return Enum(ty, 1, {1: (ref(t[:-len(pat)]),)})
        return Enum(ty, 0, {0: ()})
    return None


def const_cell(I, v):
    key = ("cv", v)
    I.init[key] = v
    return Ref(key)


def bytes_of(I, st, q):
    """UTF-8 bytes of a string value"""
    if isinstance(q, GV):
        return combine(q.sel, [(c, bytes_of(I, st, u)) for c, u in q.cases], None if q.default is None else bytes_of(I, st, q.default))
    if q.kind != "chars":
        return q
    segs = []
    for s in q.segs:
        if s[0] == "e" and all(isinstance(x, int) and x < 128 for x in s[1]):
            segs.append(s)
        else:
            key = ("utf8", s)
            segs.append(("v", key, mk("len", key, -1, ()), "u8", 0))
    return Seq(segs, "str")


def chars_of(I, st, q):
    if isinstance(q, GV):
        return combine(q.sel, [(c, chars_of(I, st, u)) for c, u in q.cases], None if q.default is None else chars_of(I, st, q.default))
    if q.kind == "chars":
        return q
    segs = []
    for s in q.segs:
        if s[0] == "e" and all(isinstance(x, int) and x < 128 for x in s[1]):
            segs.append(s)
        elif s[0] == "v" and isinstance(s[1], tuple) and s[1][0] == "utf8" and s[4] == 0 and isinstance(s[4], int):
            segs.append(s[1][1])
        else:
            key = ("chars", s)
            segs.append(("v", key, mk("len", key, -1, ()), "char", 0))
    return Seq(segs, "chars")


def seq_equal(I, st, a, b):
    """boolean term: are two sequences equal (None: elements are not scalars)"""
    if isinstance(a, GV):
        return combine(a.sel, [(c, seq_equal(I, st, u, b)) for c, u in a.cases], None if a.default is None else seq_equal(I, st, a.default, b))
    if isinstance(b, GV):
        return seq_equal(I, st, b, a)
    if a == b:
        return 1
    if a.kind == "chars" and b.kind == "str":
        b = chars_of(I, st, b)
    elif a.kind == "str" and b.kind == "chars":
        a = chars_of(I, st, a)
    if a == b:
        return 1
    na, nb = st.facts.simp(a.len()), st.facts.simp(b.len())
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            return 0
        if na <= 64:
            r = 1
            from .interp import bool_and
            for i in range(na):
                x, y = I.seq_get(st, a, i), I.seq_get(st, b, i)
                if not scalar(x) or not scalar(y):
                    return None
                r = bool_and(r, tm.cmp("Eq", x, y))
            return r
    # a symbolic length against a fixed sequence
    if isinstance(na, int) or isinstance(nb, int):
        x, y, n = (a, b, na) if isinstance(na, int) else (b, a, nb)
        if n <= 64:
            from .interp import bool_and
            r = tm.cmp("Eq", y.len(), n)
            for i in range(n):
                p, q = I.seq_get(st, x, i), I.seq_get(st, y, i)
                if not scalar(p) or not scalar(q):
                    return None
                r = bool_and(r, tm.cmp("Eq", p, q))
            return r
    return mk("seqeq", *sorted((a, b), key=repr))


# ------------------------------------------------------------------ iterators
# value: Agg(('it',), (desc, lo, hi)); hi None = endless.  Elements are desc[lo..hi).
# desc: ('refs', Ref)            references to the elements of a slice
#       ('vals', Seq)            the elements by value
#       ('range',)               the index itself
#       ('map', it, f) ('rev', it) ('zip', a, b) ('chain', a, b) ('enum', it)
#       ('deref', it)            cloned()/copied()
#       ('const', v)
class Desc:
    """immutable iterator description, compared by content"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __eq__(self, o):
        return self is o or isinstance(o, Desc) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"{self.k}{self.a}"

    def vmap(self, f):
        from .values import vmap
        return Desc(self.k, *[vmap(f, x) for x in self.a])


IT = ("it",)


def it(desc, lo, hi):
    return Agg(IT, (desc, lo, hi if hi is not None else Opaque("endless")))


def parts(v):
    d, lo, hi = v.f
    return d, lo, (None if isinstance(hi, Opaque) else hi)


def is_it(v):
    return isinstance(v, Agg) and v.ty == IT


def to_it(I, st, v):
    """iterator view of a value used as an iterator"""
    if is_it(v):
        return v
    if isinstance(v, Agg) and isinstance(v.ty, int):
        p = adt_path(I, v.ty)
        if p == "std::ops::Range":
            lo, hi = v.f
            return it(Desc("range"), lo, tm_max(st, lo, hi))
        if p == "std::ops::RangeInclusive":
            lo, hi = v.f[0], v.f[1]
            return it(Desc("range"), lo, tm_max(st, lo, tm.add(hi, 1)))
        if p == "std::ops::RangeFrom":
            return it(Desc("range"), v.f[0], None)
    return None


def tm_max(st, a, b):
    """max(a, b); plain b when provable"""
    p = st.facts.prove(tm.cmp("Le", a, b))
    if p is True:
        return b
    if p is False:
        return a
    return b if True else None    # an empty range: lo >= hi is tested on every step


def tmin(st, a, b):
    if a is None:
        return b
    if b is None:
        return a
    p = st.facts.prove(tm.cmp("Le", a, b))
    if p is True:
        return a
    if p is False:
        return b
    return tm.select(tm.cmp("Le", a, b), [(1, a)], b)


def it_len(v):
    d, lo, hi = parts(v)
    return None if hi is None else tm.sub(hi, lo)


def pure(v):
    d, lo, hi = parts(v)
    if d.k == "map":
        return False
    return all(pure(x) for x in d.a if is_it(x))


def elem(I, st, v, i, span, caller):
    """[(state, element number i, absolute)]"""
    d, lo, hi = parts(v)
    if d.k == "refs":
        return [(st, elem_ref(d.a[0], i))]
    if d.k == "vals":
        return [(st, I.seq_get(st, d.a[0], i))]
    if d.k == "range":
        return [(st, i)]
    if d.k == "const":
        return [(st, d.a[0])]
    if d.k == "map":
        sub, f = d.a
        out = []
        for s, x in elem(I, st, sub, tm.add(parts(sub)[1], i), span, caller):
            out += call_fn(I, s, f, [x], None, span, caller)
        return out
    if d.k == "rev":
        sub = d.a[0]
        return elem(I, st, sub, tm.sub(tm.sub(parts(sub)[2], 1), i), span, caller)
    if d.k == "enum":
        sub = d.a[0]
        return [(s, Agg(None, (i, x))) for s, x in elem(I, st, sub, tm.add(parts(sub)[1], i), span, caller)]
    if d.k == "zip":
        a, b = d.a
        out = []
        for s, x in elem(I, st, a, tm.add(parts(a)[1], i), span, caller):
            for s2, y in elem(I, s, b, tm.add(parts(b)[1], i), span, caller):
                out.append((s2, Agg(None, (x, y))))
        return out
    if d.k == "deref":
        sub = d.a[0]
        return [(s, I.load(s, x)) for s, x in elem(I, st, sub, tm.add(parts(sub)[1], i), span, caller)]
    if d.k == "chain":
        a, b = d.a
        n = it_len(a)
        c = tm.cmp("Lt", i, n)
        ia, ib = tm.add(parts(a)[1], i), tm.add(parts(b)[1], tm.sub(i, n))
        p = st.facts.prove(c)
        if p is True:
            return elem(I, st, a, ia, span, caller)
        if p is False:
            return elem(I, st, b, ib, span, caller)
        if pure(a) and pure(b):
            (s1, x), = elem(I, st, a, ia, span, caller)
            (s2, y), = elem(I, st, b, ib, span, caller)
            return [(st, combine(c, [(1, x)], y))]
        t, f = I.branch(st, c)
        out = []
        if t is not None:
            out += elem(I, t, a, ia, span, caller)
        if f is not None:
            out += elem(I, f, b, ib, span, caller)
        return out
    raise Unsupported("iterator " + d.k)


def advance(I, st, v, span, caller, back=False):
    """[(state, element | None, new iterator)]"""
    if isinstance(v, GV):
        raise Unsupported("iterator chosen by a branch")
    d, lo, hi = parts(v)
    if d.k == "sieve":
        raise Unsupported("next of a filtered iterator")
    if hi is None:
        if back:
            raise Unsupported("reverse of an endless iterator")
        t, f = st, None
    else:
        t, f = I.branch(st, tm.cmp("Lt", lo, hi))
    out = []
    if t is not None:
        if back:
            nv, i = it(d, lo, tm.sub(hi, 1)), tm.sub(hi, 1)
        else:
            nv, i = it(d, tm.add(lo, 1), hi), lo
        for s, x in elem(I, t, v, i, span, caller):
            out.append((s, x, nv))
    if f is not None:
        out.append((f, None, v))
    return out


def call_fn(I, st, f, args, dest, span, caller):
    if isinstance(f, Agg):
        # closure by value: its own state must not change
        ref = new_cell(I, st, f)
        rs = I.call_closure(st, f, ref, args, dest, span, caller)
        for s, _ in rs:
            if s.mem.get(ref.key) is not None and s.mem[ref.key] != f:
                raise Unsupported("closure with mutable state")
            s.mem.pop(ref.key, None)
        return rs
    return I.call_value(st, f, args, dest, span, caller)


def pieces(I, st, v):
    """bounds of the parts of an iterator over a list of which some elements are listed and a part of unknown length is not"""
    d, lo, hi = parts(v)
    if lo != 0 or hi is None or isinstance(hi, int):
        return None
    while isinstance(d, Desc) and d.k in ("map", "enumerate") and d.a and isinstance(d.a[0], Desc):
        d = d.a[0]
    if not isinstance(d, Desc) or d.k != "refs":
        return None
    q = content(I, st, d.a[0])
    if not isinstance(q, Seq) or len(q.segs) < 2 or q.upds or not {y[0] for y in q.segs} <= {"e", "x"}:
        return None
    out = [0]
    for y in q.segs:
        out.append(st.facts.simp(tm.add(out[-1], seglen(y))))
    return out if out[-1] == st.facts.simp(hi) else None


def drive(I, st, v, span, caller, accs, step):
    """run step(state, element) for every element: step returns [(state, stop tag | None)].
    accs: cells the step changes.  Returns [(tag | None, state)]"""
    d0 = parts(v)[0]
    if d0.k == "sieve":
        inner, step, v = step, None, d0.a[0]

        def step(s, x):
            return sieve(I, s, d0.a[1], 0, x, inner, span, caller)
    cuts = pieces(I, st, v)
    if cuts:
        outs, cur = [], [st]
        for lo, hi in zip(cuts, cuts[1:]):
            nxt = []
            for s in cur:
                known = set(I.loops)
                for tag, s2 in drive(I, s, it(parts(v)[0], lo, hi), span, caller, accs, step):
                    if tag is None:
                        # every element was visited
                        nxt.append(I.substituted(s2, {I.loops[k].total: tm.sub(hi, lo) for k in set(I.loops) - known if I.loops[k].where[2] == span}))
                    else:
                        outs.append((tag, s2))
            cur = nxt
        return outs + [(None, s) for s in cur]
    key = new_cell(I, st, v).key
    I.frames += 1

    def body(s):
        backs, exits = [], []
        for s2, x, nv in advance(I, s, s.mem[key], span, caller):
            s2.mem[key] = nv
            if x is None:
                exits.append((None, s2))
                continue
            for s3, tag in step(s2, x):
                if tag is None:
                    backs.append(s3)
                else:
                    exits.append((tag, s3))
        return backs, exits

    n = it_len(v)
    n = None if n is None else st.facts.simp(n)
    if isinstance(n, int) and n <= 400:
        outs, cur = [], st
        for _ in range(max(n, 0) + 1):
            backs, exits = body(cur)
            outs += exits
            if not backs:
                return outs
            cur = I.merge(backs)
        return outs
    return I.summarise(st, body, (caller["path"] if caller else "?", -1, span))


def sieve(I, st, fs, i, x, inner, span, caller):
    """the element runs through filters and maps before the consumer sees it"""
    if i == len(fs):
        return inner(st, x)
    k, f = fs[i]
    out = []
    if k == "filter":
        ref = new_cell(I, st, x)
        for s, c in call_fn(I, st, f, [ref], None, span, caller):
            t, e = I.branch(s, c)
            if t is not None:
                out += sieve(I, t, fs, i + 1, x, inner, span, caller)
            if e is not None:
                out.append((e, None))
        return out
    for s, y in call_fn(I, st, f, [x], None, span, caller):
        if k == "map":
            out += sieve(I, s, fs, i + 1, y, inner, span, caller)
            continue
        for tag, s2 in I.fork(s, y.disc, [({1}, True), (None, False)]):
            if tag:
                out += sieve(I, s2, fs, i + 1, y.pay[1][0], inner, span, caller)
            else:
                out.append((s2, None))
    return out


# ------------------------------------------------------------------ dispatch
INT_IMPL = re.compile(r"^core::num::<impl ([iu])(\d+|size)>::(\w+)$")
FLT_IMPL = re.compile(r"^(?:core|std)::f(32|64)::<impl f(?:32|64)>::(\w+)$")
TRY_FROM = re.compile(r"TryFrom<([iu]\w+)> for ([iu]\w+)>::try_from$")
FROM_INT = re.compile(r"<impl std::convert::From<(\w+)> for (\w+)>::from$")


def ty_bits(name):
    if name in ("usize", "isize"):
        return (64, name[0] == "i")
    m = re.match(r"^([iu])(\d+)$", name)
    return (int(m.group(2)), m.group(1) == "i") if m else None


def in_range(v, b, s):
    from .interp import bool_and
    lo, hi = tm.trange(b, s)
    return bool_and(tm.cmp("Ge", v, lo), tm.cmp("Le", v, hi))


def int_method(I, st, B, S, m, a, ty, span, f):
    lo, hi = tm.trange(B, S)
    R = st.facts.rng
    ar = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}
    k, _, o = m.partition("_")
    if o in ar and k in ("wrapping", "checked", "saturating", "overflowing", "unchecked", "strict"):
        t = ar[o](a[0], a[1])
        if k == "wrapping":
            return tm.wrap(t, B, S, R)
        if k == "unchecked":
            return t
        c = truth(st, in_range(t, B, S))
        if k == "checked":
            return opt(I, ty, c, t)
        if k == "overflowing":
            return Agg(ty, (tm.wrap(t, B, S, R), tm.sub(1, c)))
        if k == "strict":
            I.oblige(st, "overflow", f["path"], span, c == 1 and isinstance(c, int), m, cond=c)
            return t
        over, under = truth(st, tm.cmp("Gt", t, hi)), truth(st, tm.cmp("Lt", t, lo))
        r = t
        r = tm.select(over, [(1, hi)], r)
        r = tm.select(under, [(1, lo)], r)
        return r
    if m in ("saturating_add_signed", "checked_add_signed", "wrapping_add_signed", "saturating_add_unsigned", "checked_add_unsigned",
             "checked_sub_unsigned", "saturating_sub_unsigned", "wrapping_add_unsigned", "wrapping_sub_unsigned"):
        return int_method(I, st, B, S, m.rsplit("_", 1)[0], a, ty, span, f)
    if m in ("wrapping_neg", "checked_neg", "saturating_neg"):
        return int_method(I, st, B, S, k + "_sub", [0, a[0]], ty, span, f)
    if m in ("wrapping_shl", "wrapping_shr"):
        n = tm.bits(a[1], 0, B.bit_length() - 1, R)
        return (tm.shl if m.endswith("shl") else tm.shr)(a[0], n, B, S, R)
    if m in ("checked_shl", "checked_shr"):
        return opt(I, ty, truth(st, tm.cmp("Lt", a[1], B)), (tm.shl if m.endswith("shl") else tm.shr)(a[0], st.facts.simp(a[1]), B, S, R))
    if m in ("checked_div", "checked_rem", "wrapping_div", "wrapping_rem"):
        from .interp import divt, remt, bool_and
        t = (divt if m.endswith("div") else remt)(a[0], a[1], R)
        if k == "wrapping":
            return tm.wrap(t, B, S, R)
        c = tm.cmp("Ne", a[1], 0)
        if S:
            c = bool_and(c, tm.sub(1, bool_and(tm.cmp("Eq", a[0], lo), tm.cmp("Eq", a[1], -1))))
        return opt(I, ty, truth(st, c), t)
    if m == "div_ceil" and not S:
        from .interp import divt
        return divt(tm.add(a[0], tm.sub(a[1], 1)), a[1], R)
    if m in ("abs", "unsigned_abs", "wrapping_abs", "saturating_abs"):
        c = truth(st, tm.cmp("Lt", a[0], 0))
        if m == "abs":
            ok = st.facts.prove(tm.cmp("Gt", a[0], lo))
            I.oblige(st, "overflow", f["path"], span, ok is True, "abs overflow", cond=tm.cmp("Gt", a[0], lo))
            st.facts.assume(tm.cmp("Gt", a[0], lo), 1)
        t = tm.select(c, [(1, tm.neg(a[0]))], a[0])
        return tm.wrap(t, B, S, R) if m == "wrapping_abs" else t
    if m == "abs_diff":
        return tm.select(truth(st, tm.cmp("Lt", a[0], a[1])), [(1, tm.sub(a[1], a[0]))], tm.sub(a[0], a[1]))
    if m == "is_positive":
        return truth(st, tm.cmp("Gt", a[0], 0))
    if m == "is_negative":
        return truth(st, tm.cmp("Lt", a[0], 0))
    if m == "signum":
        return tm.select(truth(st, tm.cmp("Gt", a[0], 0)), [(1, 1)], tm.select(truth(st, tm.cmp("Lt", a[0], 0)), [(1, -1)], 0))
    if m == "pow":
        if isinstance(a[1], int):
            t = 1
            for _ in range(a[1]):
                t = tm.mul(t, a[0])
            c = truth(st, in_range(t, B, S))
            I.oblige(st, "overflow", f["path"], span, c == 1 and isinstance(c, int), "pow overflow", cond=c)
            return t
        if isinstance(a[0], int) and a[0] == 2:
            ok = st.facts.prove(tm.cmp("Lt", a[1], B - (1 if S else 0)))
            I.oblige(st, "overflow", f["path"], span, ok is True, "pow overflow", cond=tm.cmp("Lt", a[1], B - (1 if S else 0)))
            return tm.shl(1, st.facts.simp(a[1]), B, S, R)
        g = tm.gsplit(a[1])
        if g is not None and isinstance(a[0], int):
            return tm.gmap(lambda e: a[0] ** e, g)
        raise Unsupported("pow")
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        q = a[0]
        n = B // 8
        r = 0
        for i in range(n):
            b = I.seq_get(st, q, i)
            r = tm.add(r, tm.scale(b, 1 << (8 * (n - 1 - i if "be" in m else i))))
        return tm.wrap(r, B, S, R)
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        u = tm.wrap(a[0], B, False, R)
        n = B // 8
        bs = [tm.bits(u, 8 * i, 8, R) for i in range(n)]
        if "be" in m:
            bs.reverse()
        return Seq([("e", tuple(bs))])
    if m in ("swap_bytes", "to_be", "from_be"):
        u = tm.wrap(a[0], B, False, R)
        n = B // 8
        r = 0
        for i in range(n):
            r = tm.add(r, tm.scale(tm.bits(u, 8 * i, 8, R), 1 << (8 * (n - 1 - i))))
        return tm.wrap(r, B, S, R)
    if m in ("to_le", "from_le"):
        return a[0]
    if m == "count_ones" and isinstance(a[0], int):
        return bin(tm.wrap(a[0], B, False)).count("1")
    if m in ("leading_zeros", "trailing_zeros", "count_ones"):
        return I.fresh(m, 0, B)
    if m == "is_power_of_two" and isinstance(a[0], int):
        return int(a[0] > 0 and a[0] & (a[0] - 1) == 0)
    return None


def flt_method(I, st, W, m, a, ty, span, f):
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        return mk("fbits", int_method(I, st, W, False, m, a, ty, span, f), W)
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        u = mk_bits(x=a[0], w=W)
        n = W // 8
        bs = [tm.bits(u, 8 * i, 8) for i in range(n)]
        if "be" in m:
            bs.reverse()
        return Seq([("e", tuple(bs))])
    if m == "to_bits":
        return mk_bits(a[0], W)
    if m == "from_bits":
        return mk("fbits", a[0], W)
    if m in ("round", "trunc", "floor", "ceil", "abs", "sqrt", "fract", "round_ties_even"):
        x = a[0]
        if m == "trunc" and isinstance(x, T) and x.op in ("ftrunc", "fround", "ffloor", "fceil", "i2f"):
            return x
        if m == "fract":
            return mk("fSub", x, mk("ftrunc", x))
        return mk("f" + m, x)
    if m in ("is_nan",):
        return mk("fcmp", "Nan", a[0], 0)
    if m in ("is_finite", "is_infinite", "is_sign_negative", "is_sign_positive"):
        return mk("fcmp", m, a[0], 0)
    return None


def mk_bits(x, w):
    if isinstance(x, T) and x.op == "fbits" and x.args[1] == w:
        return x.args[0]
    return mk("ftob", x, w)


def range_bounds(I, st, v, n):
    """(start, end) of a range value used as an index; None if it is no range"""
    if not isinstance(v, Agg) or not isinstance(v.ty, int):
        return None
    p = adt_path(I, v.ty)
    if p == "std::ops::Range":
        return v.f[0], v.f[1]
    if p == "std::ops::RangeFrom":
        return v.f[0], n
    if p == "std::ops::RangeTo":
        return 0, v.f[0]
    if p == "std::ops::RangeFull":
        return 0, n
    if p == "std::ops::RangeInclusive":
        return v.f[0], tm.add(v.f[1], 1)
    if p == "std::ops::RangeToInclusive":
        return 0, tm.add(v.f[0], 1)
    return None


def index(I, st, r, i, span, caller, what, mut=False):
    """checked index: panics outside"""
    n = size_of(I, st, r)
    r = as_slice(I, st, r) if True else r
    if scalar(i):
        c = tm.cmp("Lt", i, n)
        ok = st.facts.prove(c)
        I.oblige(st, "index", caller["path"], span, ok is True, what, None if ok else f"{show(i)} < {show(n)}", c)
        if ok is None:
            st.facts.assume(c, 1)
        if ok is False or st.facts.bot:
            return []
        return [(st, elem_ref(r, i))]
    b = range_bounds(I, st, i, n)
    if b is None:
        raise Unsupported(f"index by {show(i)[:50]}")
    s, e = b
    for c, w in ((tm.cmp("Le", s, e), "start <= end"), (tm.cmp("Le", e, n), "end <= len")):
        ok = st.facts.prove(c)
        I.oblige(st, "index", caller["path"], span, ok is True, f"{what} ({w})", None if ok else show(c), c)
        if ok is None:
            st.facts.assume(c, 1)
        if ok is False or st.facts.bot:
            return []
    return [(st, sub_ref(r, s, tm.sub(e, s)))]


def sub_ref(r, s, n):
    if isinstance(r, GV):
        return combine(r.sel, [(c, sub_ref(u, s, n)) for c, u in r.cases], None if r.default is None else sub_ref(r.default, s, n))
    return Ref(r.key, r.path, (tm.add(r.meta[0], s), n))


def get_opt(I, st, r, i, ty):
    """slice::get"""
    from .interp import bool_and
    n = size_of(I, st, r)
    rs = as_slice(I, st, r)
    if scalar(i):
        return opt(I, ty, truth(st, tm.cmp("Lt", i, n)), elem_ref(rs, i))
    b = range_bounds(I, st, i, n)
    if b is None:
        raise Unsupported("get by an unmodelled index")
    s, e = b
    c = truth(st, bool_and(tm.cmp("Le", s, e), tm.cmp("Le", e, n)))
    return opt(I, ty, c, sub_ref(rs, s, tm.sub(e, s)))


def append(I, st, r, segs_or_seq):
    q = I.load(st, r)
    I.store(st, r, concat(q, segs_or_seq))


def concat(q, x):
    if isinstance(q, GV):
        return combine(q.sel, [(c, concat(u, x)) for c, u in q.cases], None if q.default is None else concat(q.default, x))
    if isinstance(x, GV):
        if x.default is not None and x.cases and all(isinstance(u, Seq) for _, u in x.cases):
            return Seq(list(q.segs) + [("g", x.sel, x.cases, x.default)], q.kind, q.upds)
        raise Unsupported("append of an unstructured value")
    if x.upds:
        raise Unsupported("append of an updated sequence")
    return Seq(list(q.segs) + list(x.segs), q.kind, q.upds)


def seq_iter(I, st, v):
    """by-value iterator of an owned collection or array"""
    if isinstance(v, Seq):
        return it(Desc("vals", v), 0, I.seq_total(st, v))
    if isinstance(v, GV):
        n = I.seq_total(st, v)
        return it(Desc("vals", v), 0, n)
    raise Unsupported("iterator over an unmodelled collection")


def slice_iter(I, st, r):
    r = as_slice(I, st, r)
    n = size_of(I, st, r)
    return it(Desc("refs", r), 0, n)


NEVER_RE = re.compile(r"panick|unwrap_failed|expect_failed|index_fail|panic_|handle_error|capacity_overflow|abort|assert_failed|begin_panic|len_mismatch_fail|unreachable_default")


def never(I, f):
    t = I.P.types[f["sig"][1]] if f.get("sig") and isinstance(f["sig"][1], int) else None
    return t is not None and t["k"] == "never"


def is_closure(f):
    return "{closure" in f["path"].rsplit("::", 1)[-1]


def model(I, st, f, args, ty, span, caller):
    if f["local"]:
        return None
    p = f["path"]
    m = p.rsplit("::", 1)[-1]
    a = args

    def one(v):
        return [(st, v)]

    # ---------------------------------------------------------------- panics
    if never(I, f) or (f["body"] is None and NEVER_RE.search(p)):
        I.oblige(st, "panic", caller["path"] if caller else "?", span, False, p, describe_guard(st))
        return []
    # ---------------------------------------------------------------- numbers
    mm = INT_IMPL.match(p)
    if mm:
        B, S = (64 if mm.group(2) == "size" else int(mm.group(2))), mm.group(1) == "i"
        vals = [I.load(st, x) if isinstance(x, Ref) else x for x in a]
        r = int_method(I, st, B, S, mm.group(3), vals, ty, span, caller or f)
        if r is not None:
            return one(r)
    mm = FLT_IMPL.match(p)
    if mm:
        r = flt_method(I, st, int(mm.group(1)), mm.group(2), a, ty, span, caller or f)
        if r is not None:
            return one(r)
    mm = TRY_FROM.search(p)
    if mm:
        B, S = ty_bits(mm.group(2))
        c = truth(st, in_range(a[0], B, S))
        return one(result(I, ty, c, a[0]))
    mm = FROM_INT.search(p)
    if mm:
        src, dst = mm.groups()
        if ty_bits(src) and ty_bits(dst) or (src in ("bool", "u8", "char") and (ty_bits(dst) or dst == "char")):
            return one(a[0])
        if dst in ("f32", "f64"):
            W = int(dst[1:])
            if src in ("f32", "f64"):
                from .interp import fconv
                return one(fconv(a[0], int(src[1:]), W))
            if ty_bits(src):
                return one(mk("i2f", a[0], W))
    if "char::" in p and m == "try_from" or p.endswith("char::from_u32") or p.endswith("<impl std::convert::TryFrom<char> for u8>::try_from"):
        if p.endswith("for u8>::try_from"):
            return one(result(I, ty, truth(st, tm.cmp("Le", a[0], 255)), a[0]))
    if re.search(r"std::cmp::impls::<impl std::cmp::(Partial)?Ord for (\w+)>::\w+$", p):
        r = cmp_method(I, st, m, a, ty, p)
        if r is not None:
            return one(r)
    if p in ("std::cmp::max", "std::cmp::min") and scalar(a[0]):
        return one(tm.select(truth(st, tm.cmp("Le", a[0], a[1])), [(1, a[1] if m == "max" else a[0])], a[0] if m == "max" else a[1]))
    if f["kind"] == "intrinsic" or p.startswith("std::intrinsics::") or p.startswith("core::intrinsics::"):
        r = intrinsic(I, st, f, m, a, ty, span)
        if r is not None:
            return r
    # ---------------------------------------------------------------- function values
    if m in ("call_once", "call_mut", "call") and ("FnOnce" in p or "FnMut" in p or "::Fn" in p or "Fn<" in p or f["body"] is None):
        fv = a[0]
        tup = a[1]
        return I.call_value(st, fv, list(tup.f) if isinstance(tup, Agg) else [tup], ty, span, caller)
    # ---------------------------------------------------------------- memory
    if p in ("std::mem::replace", "core::mem::replace"):
        v = I.load(st, a[0])
        I.store(st, a[0], a[1])
        return one(v)
    if p in ("std::mem::swap", "core::mem::swap"):
        x, y = I.load(st, a[0]), I.load(st, a[1])
        I.store(st, a[0], y)
        I.store(st, a[1], x)
        return one(unit(I, ty))
    if p in ("std::mem::drop", "core::mem::drop", "std::mem::forget"):
        return one(unit(I, ty))
    if p in ("std::hint::must_use", "std::convert::identity", "std::hint::black_box"):
        return one(a[0])
    if p == "std::mem::size_of":
        return None
    # ---------------------------------------------------------------- formatting
    if p.startswith("core::fmt::rt::Argument") or p.startswith("std::fmt::rt::Argument"):
        v = a[0]
        while isinstance(v, Ref):
            v = content(I, st, v) if v.meta is not None else I.load(st, v)
        t = next((x for x in f.get("args", ()) if isinstance(x, int)), None)
        while t is not None and I.P.types[t]["k"] == "ref":
            t = I.P.types[t]["to"]
        return one(Opaque("disp", m, v, I.P.types[t]["k"] if t is not None else "?"))
    if p.startswith("std::fmt::Arguments") and m in ("new", "from_str", "new_const", "new_v1"):
        xs = [content(I, st, x) if isinstance(x, Ref) else x for x in a]
        return one(Opaque("fmt", *xs))
    if p in ("std::fmt::format", "alloc::fmt::format"):
        r = formatted(a[0])
        if r is not None:
            return one(r)
        key = ("fmt", a[0])
        return one(Seq([("v", key, mk("len", key, -1, ()), "char", 0)], "chars"))
    if p in ("std::io::_print", "std::io::_eprint"):
        return one(unit(I, ty))
    if "debug_struct" in m or "debug_tuple" in m or p.startswith("std::fmt::Formatter"):
        if isinstance(ty, int) and I.P.types[ty]["k"] == "adt":
            return one(I.sym(ty, f"fmt.{span}"))
        return None
    # ---------------------------------------------------------------- Vec, String, slices
    r = collections(I, st, f, p, m, a, ty, span, caller)
    if r is not None:
        return r
    r = iterators(I, st, f, p, m, a, ty, span, caller)
    if r is not None:
        return r
    if m == "clone" and (f["body"] is None or "Clone for" in p):
        return one(deref1(I, st, a[0]))
    if m == "default" and "Default" in p and isinstance(ty, int):
        t = I.P.types[ty]
        if t["k"] in ("int", "bool"):
            return one(0)
        if I.is_vec(ty):
            return one(Seq([]))
        if I.is_string(ty):
            return one(Seq([], "chars"))
    return None


def deref1(I, st, v):
    return I.load(st, v) if isinstance(v, Ref) else v


def describe_guard(st):
    return "; ".join(f"{show(s)} {'∈' if o[0] == 'in' else '∉'} {sorted(o[1])[:6]}" for s, o in st.guard[-4:])


def cmp_method(I, st, m, a, ty, p):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if not scalar(x) or not scalar(y):
        return None
    fl = re.search(r"Ord for f(32|64)>", p) is not None
    if m in ("lt", "le", "gt", "ge"):
        op = m.capitalize()
        if fl:
            from .interp import fcmp
            return fcmp(op, x, y)
        return truth(st, tm.cmp(op, x, y))
    if fl:
        return None
    if m in ("max", "min"):
        c = truth(st, tm.cmp("Le", x, y))
        return tm.select(c, [(1, y if m == "max" else x)], x if m == "max" else y)
    if m == "cmp":
        # Ordering variants: Less = 0, Equal = 1, Greater = 2
        lt, eq = truth(st, tm.cmp("Lt", x, y)), truth(st, tm.cmp("Eq", x, y))
        d = tm.select(lt, [(1, 0)], tm.select(eq, [(1, 1)], 2))
        return Enum(ty, d, {0: (), 1: (), 2: ()})
    return None


def intrinsic(I, st, f, m, a, ty, span):
    def one(v):
        return [(st, v)]
    nt = I.numty(f["sig"][0][0]) if f.get("sig") and f["sig"][0] else None
    if nt is None and isinstance(ty, int):
        nt = I.numty(ty)
    R = st.facts.rng
    if m in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        r = I.binop(st, m.split("_")[0].capitalize(), a[0], a[1], nt, True)
        return one(Agg(ty, r.f))
    if m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        k, o = m.split("_")
        return one(I.binop(st, o.capitalize() + ("Unchecked" if k == "unchecked" else ""), a[0], a[1], nt))
    if m in ("saturating_add", "saturating_sub"):
        return one(int_method(I, st, nt[0], nt[1], m, a, ty, span, f))
    if m in ("unchecked_shl", "unchecked_shr", "unchecked_div", "unchecked_rem", "exact_div"):
        return one(I.binop(st, {"unchecked_shl": "Shl", "unchecked_shr": "Shr", "unchecked_div": "Div", "unchecked_rem": "Rem", "exact_div": "Div"}[m], a[0], a[1], nt))
    if m in ("likely", "unlikely", "black_box"):
        return one(a[0])
    if m in ("assume", "assert_inhabited", "cold_path", "assert_zero_valid"):
        return one(Agg(ty, ()))
    if m == "discriminant_value":
        v = I.load(st, a[0])
        return one(I.discr(v))
    if m in ("three_way_compare",):
        return one(cmp_method(I, st, "cmp", a, ty, ""))
    mm = re.match(r"^(round|trunc|floor|ceil|fabs|sqrt|round_ties_even)f(32|64)$", m)
    if mm:
        return one(flt_method(I, st, int(mm.group(2)), {"fabs": "abs"}.get(mm.group(1), mm.group(1)), a, ty, span, f))
    if m in ("size_of", "min_align_of", "align_of", "needs_drop", "ub_checks", "overflow_checks", "is_val_statically_known", "ptr_metadata"):
        if m in ("ub_checks", "is_val_statically_known"):
            return one(0)
        if m == "overflow_checks":
            return one(1)
    if m == "ctpop" and isinstance(a[0], int):
        return one(bin(a[0]).count("1"))
    if m in ("bswap", "bitreverse", "ctlz", "cttz", "ctlz_nonzero", "ctpop"):
        if m == "bswap":
            return one(int_method(I, st, nt[0], nt[1], "swap_bytes", a, ty, span, f))
        return one(I.fresh(m, 0, nt[0]))
    return None


VEC = re.compile(r"^(?:std|alloc)::vec::Vec::<")
STRING = re.compile(r"^(?:std|alloc)::string::String::")
SLICE = re.compile(r"^(?:core|std|alloc)::slice::<impl \[T\]>::|^(?:std|alloc)::slice::<impl \[T\]>::")
STR = re.compile(r"^(?:core|std|alloc)::str::<impl str>::")


def collections(I, st, f, p, m, a, ty, span, caller):
    def one(v):
        return [(st, v)]

    def done():
        return [(st, Agg(ty, ()))]

    vec = bool(VEC.match(p) or p.startswith("<std::vec::Vec<"))
    string = bool(STRING.match(p) or p.startswith("<std::string::String as"))
    sl = bool(SLICE.match(p))
    isstr = bool(STR.match(p))
    if p in ("std::vec::from_elem", "alloc::vec::from_elem"):
        return collect(I, st, it(Desc("const", a[0]), 0, a[1]), ty, span, caller)
    if vec or string:
        if m == "resize" and vec:
            n = I.seq_total(st, I.load(st, a[0]))
            alloc(I, st, caller, span, tm.sub(a[1], n))
            t, e = I.branch(st, tm.cmp("Gt", a[1], n))
            out = []
            if t is not None:
                dst = a[0]

                def grow(s, x):
                    append(I, s, dst, Seq([("e", (x,))]))
                    return [(s, None)]
                out += [(s, Agg(ty, ())) for _, s in drive(I, t, it(Desc("const", a[2]), 0, tm.sub(a[1], n)), span, caller, [dst], grow)]
            if e is not None:
                q = I.load(e, a[0])
                if not same(a[1], n):
                    if not same(a[1], 0):
                        raise Unsupported("resize to a smaller length")
                    I.store(e, a[0], Seq([], q.kind))
                out.append((e, Agg(ty, ())))
            return out
        if m in ("new", "with_capacity", "default"):
            if m == "with_capacity":
                alloc(I, st, caller, span, a[0])
            return one(Seq([], "vec" if vec else "chars"))
        if m in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to"):
            if m.startswith("reserve"):
                alloc(I, st, caller, span, a[1])
            return done()
        if m == "push":
            append(I, st, a[0], Seq([("e", (a[1],))]))
            return done()
        if m == "len":
            if string:
                return one(I.seq_total(st, bytes_of(I, st, content(I, st, a[0]))))
            return one(size_of(I, st, a[0]))
        if m == "is_empty":
            return one(truth(st, tm.cmp("Eq", I.seq_total(st, content(I, st, a[0])), 0)))
        if m in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_str", "as_ref", "as_mut", "borrow", "borrow_mut", "as_mut_str"):
            return one(as_slice(I, st, a[0]))
        if m in ("as_bytes", "into_bytes") and string:
            q = I.load(st, a[0]) if isinstance(a[0], Ref) else a[0]
            b = bytes_of(I, st, q)
            b = Seq(b.segs, "vec") if isinstance(b, Seq) else b
            if m == "into_bytes":
                return one(b)
            return one(as_slice(I, st, new_cell(I, st, b)))
        if m in ("index", "index_mut"):
            return index(I, st, a[0], a[1], span, caller, "index out of bounds")
        if m == "insert" and vec:
            q = I.load(st, a[0])
            n = I.seq_total(st, q)
            c = tm.cmp("Le", a[1], n)
            ok = st.facts.prove(c)
            I.oblige(st, "index", caller["path"], span, ok is True, "Vec::insert out of bounds", None if ok else show(c), c)
            if ok is None:
                st.facts.assume(c, 1)
            if ok is False or st.facts.bot:
                return []
            I.store(st, a[0], seq_insert(I, st, q, a[1], a[2]))
            return done()
        if m in ("remove", "swap_remove") and vec:
            q = I.load(st, a[0])
            n = I.seq_total(st, q)
            c = tm.cmp("Lt", a[1], n)
            ok = st.facts.prove(c)
            I.oblige(st, "index", caller["path"], span, ok is True, "Vec::remove out of bounds", None if ok else show(c), c)
            if ok is None:
                st.facts.assume(c, 1)
            if ok is False or st.facts.bot:
                return []
            v = I.seq_get(st, q, a[1])
            if m == "swap_remove":
                last = tm.sub(n, 1)
                q = I.seq_set(st, q, a[1], I.seq_get(st, q, last))
                I.store(st, a[0], seq_remove(I, st, q, last))
                return one(v)
            I.store(st, a[0], seq_remove(I, st, q, a[1]))
            return one(v)
        if m == "pop":
            q = I.load(st, a[0])
            n = I.seq_total(st, q)
            t, e = I.branch(st, tm.cmp("Gt", n, 0))
            out = []
            if t is not None:
                i = tm.sub(n, 1)
                v = I.seq_get(t, q, i)
                I.store(t, a[0], seq_remove(I, t, q, i))
                out.append((t, some(ty, v)))
            if e is not None:
                out.append((e, none(ty)))
            return out
        if m in ("truncate",):
            q = I.load(st, a[0])
            n = I.seq_total(st, q)
            k = tmin(st, n, a[1])
            I.store(st, a[0], I.subseq(st, q, 0, k))
            return done()
        if m == "clear":
            q = I.load(st, a[0])
            I.store(st, a[0], Seq([], q.kind if isinstance(q, Seq) else "vec"))
            return done()
        if m in ("extend_from_slice", "push_str"):
            x = content(I, st, a[1])
            if string:
                x = chars_of(I, st, x)
            append(I, st, a[0], x)
            return done()
        if m == "append":
            x = I.load(st, a[1])
            append(I, st, a[0], x)
            I.store(st, a[1], Seq([], x.kind))
            return done()
        if m in ("extend", "spec_extend"):
            v = a[1]
            src = to_it(I, st, v)
            if src is None and isinstance(v, Ref):
                src = slice_iter(I, st, v)
                src = it(Desc("deref", src), 0, it_len(src))
            if src is None and isinstance(v, (Seq, GV)):
                src = seq_iter(I, st, v)
            if src is None:
                raise Unsupported("extend from an unmodelled iterator")
            d, lo, hi = parts(src)
            if d.k == "vals" and same(lo, 0) and same(hi, d.a[0].len()):
                append(I, st, a[0], d.a[0])
                return done()
            if d.k == "deref" and parts(d.a[0])[0].k == "refs" and same(lo, 0):
                q = content(I, st, parts(d.a[0])[0].a[0])
                if isinstance(q, Seq) and same(q.len(), hi):
                    append(I, st, a[0], q)
                    return done()
            dst = a[0]

            def step(s, x):
                append(I, s, dst, Seq([("e", (x,))]))
                return [(s, None)]

            return [(s, Agg(ty, ())) for _, s in drive(I, st, src, span, caller, [dst], step)]
        if m == "clone":
            return one(deref1(I, st, a[0]))
        if m in ("into_boxed_slice", "into", "into_boxed_str"):
            return None
        if m in ("eq", "ne"):
            r = seq_eq_call(I, st, a[0], a[1])
            if r is not None:
                return one(r if m == "eq" else tm.sub(1, r))
            return None
        if m == "into_iter" and vec:
            if isinstance(a[0], Ref):
                return one(slice_iter(I, st, a[0]))
            return one(seq_iter(I, st, a[0]))
        if m == "from" and string:
            return one(chars_of(I, st, content(I, st, a[0])))
        if m in ("from",) and vec:
            if isinstance(a[0], Seq):
                return one(Seq(a[0].segs, "vec", a[0].upds))
            q = content(I, st, a[0])
            return one(Seq(q.segs, "vec", q.upds))
        if m == "from_iter":
            return collect(I, st, to_it(I, st, a[0]), ty, span, caller)
        if m == "drain":
            q = I.load(st, a[0])
            n = I.seq_total(st, q)
            b = range_bounds(I, st, a[1], n)
            if b and same(b[0], 0) and same(b[1], n):
                I.store(st, a[0], Seq([], q.kind))
                return one(seq_iter(I, st, q))
            raise Unsupported("partial drain")
    if sl or vec:
        if m == "len":
            return one(size_of(I, st, a[0]))
        if m == "is_empty":
            return one(truth(st, tm.cmp("Eq", size_of(I, st, a[0]), 0)))
        if m in ("iter", "iter_mut"):
            return one(slice_iter(I, st, a[0]))
        if m in ("get", "get_mut"):
            return one(get_opt(I, st, a[0], a[1], ty))
        if m in ("first", "first_mut", "last", "last_mut"):
            n = size_of(I, st, a[0])
            c = truth(st, tm.cmp("Gt", n, 0))
            r = as_slice(I, st, a[0])
            return one(opt(I, ty, c, elem_ref(r, 0 if m.startswith("first") else tm.sub(n, 1))))
        if m in ("to_vec", "to_owned", "into_vec"):
            q = content(I, st, a[0])
            return one(Seq(q.segs, "vec", q.upds) if isinstance(q, Seq) else q)
        if m in ("split_at", "split_at_mut"):
            n = size_of(I, st, a[0])
            c = tm.cmp("Le", a[1], n)
            ok = st.facts.prove(c)
            I.oblige(st, "index", caller["path"], span, ok is True, "split_at out of bounds", None if ok else show(c), c)
            if ok is None:
                st.facts.assume(c, 1)
            if ok is False or st.facts.bot:
                return []
            r = as_slice(I, st, a[0])
            return one(Agg(ty, (sub_ref(r, 0, a[1]), sub_ref(r, a[1], tm.sub(n, a[1])))))
        if m in ("split_at_checked", "split_first", "split_last"):
            n = size_of(I, st, a[0])
            r = as_slice(I, st, a[0])
            pt = enum_payload_type(I, ty, 1)
            if m == "split_at_checked":
                return one(opt(I, ty, truth(st, tm.cmp("Le", a[1], n)), Agg(pt, (sub_ref(r, 0, a[1]), sub_ref(r, a[1], tm.sub(n, a[1]))))))
            c = truth(st, tm.cmp("Gt", n, 0))
            if m == "split_first":
                return one(opt(I, ty, c, Agg(pt, (elem_ref(r, 0), sub_ref(r, 1, tm.sub(n, 1))))))
            return one(opt(I, ty, c, Agg(pt, (elem_ref(r, tm.sub(n, 1)), sub_ref(r, 0, tm.sub(n, 1))))))
        if m in ("starts_with", "ends_with"):
            x, y = content(I, st, a[0]), content(I, st, a[1])
            return one(prefix(I, st, x, y, m == "ends_with"))
        if m == "strip_prefix":
            raise Unsupported("strip_prefix on slices")
        if m == "contains":
            return contains(I, st, a, ty, span, caller, f)
        if m in ("copy_from_slice", "clone_from_slice"):
            n1, n2 = size_of(I, st, a[0]), size_of(I, st, a[1])
            c = tm.cmp("Eq", n1, n2)
            ok = st.facts.prove(c)
            I.oblige(st, "index", caller["path"], span, ok is True, "copy_from_slice length", None if ok else show(c), c)
            if ok is None:
                st.facts.assume(c, 1)
            if ok is False or st.facts.bot:
                return []
            x = content(I, st, a[1])
            n1 = st.facts.simp(n1)
            if not isinstance(n1, int):
                raise Unsupported("copy_from_slice of symbolic length")
            r = as_slice(I, st, a[0])
            for i in range(n1):
                I.store(st, elem_ref(r, i), I.seq_get(st, x, i))
            return done()
        if m == "reverse":
            q = content(I, st, a[0])
            n = st.facts.simp(I.seq_total(st, q))
            if isinstance(n, int) and n <= 64:
                I.store(st, Ref(a[0].key, a[0].path), Seq([("e", tuple(I.seq_get(st, q, n - 1 - i) for i in range(n)))]))
                return done()
            raise Unsupported("reverse")
        if m == "swap":
            r = as_slice(I, st, a[0])
            x, y = I.load(st, elem_ref(r, a[1])), I.load(st, elem_ref(r, a[2]))
            I.store(st, elem_ref(r, a[1]), y)
            I.store(st, elem_ref(r, a[2]), x)
            return done()
    if isstr:
        if m == "len":
            return one(I.seq_total(st, bytes_of(I, st, content(I, st, a[0]))))
        if m == "is_empty":
            return one(truth(st, tm.cmp("Eq", size_of(I, st, a[0]), 0)))
        if m == "as_bytes":
            q = content(I, st, a[0])
            if isinstance(q, Seq) and q.kind == "str":
                return one(a[0])
            return one(as_slice(I, st, new_cell(I, st, bytes_of(I, st, q))))
        if m == "chars":
            q = chars_of(I, st, content(I, st, a[0]))
            return one(seq_iter(I, st, q))
        if m == "bytes":
            q = bytes_of(I, st, content(I, st, a[0]))
            return one(seq_iter(I, st, q))
        if m in ("to_owned", "to_string", "into_string"):
            return one(chars_of(I, st, content(I, st, a[0])))
        if m in ("starts_with", "ends_with") and isinstance(a[1], Ref):
            x, y = chars_of(I, st, content(I, st, a[0])), chars_of(I, st, content(I, st, a[1]))
            return one(prefix(I, st, x, y, m == "ends_with"))
        t = known_text(I, st, content(I, st, a[0]))
        if t is not None:
            v = text_method(I, st, m, t, a[1:], ty)
            if v is not None:
                return one(v)
    if p in ("std::str::from_utf8", "core::str::from_utf8"):
        raise Unsupported("from_utf8")
    if m == "to_owned" and ("for str>" in p or "for [T]>" in p):
        q = content(I, st, a[0])
        return one(chars_of(I, st, q) if "for str" in p else Seq(q.segs, "vec", q.upds))
    if m in ("to_string",) and ("str" in p or "String" in p):
        return one(chars_of(I, st, content(I, st, a[0])))
    if m in ("into", "from") and isinstance(ty, int) and I.is_string(ty) and isinstance(a[0], Ref):
        return one(chars_of(I, st, content(I, st, a[0])))
    if m in ("as_ref", "borrow") and ("for str>" in p or "for [T]>" in p) and isinstance(a[0], Ref):
        q = content(I, st, a[0])
        if "AsRef<[u8]> for str" in p and isinstance(q, Seq) and q.kind == "chars":
            return one(as_slice(I, st, new_cell(I, st, bytes_of(I, st, q))))
        return one(as_slice(I, st, a[0]))
    # slice indexing through the trait
    if m in ("index", "index_mut") and ("for [T]>" in p or "for [T; N]>" in p or "for str>" in p):
        return index(I, st, a[0], a[1], span, caller, "index out of bounds")
    # equality of sequences
    if m in ("eq", "ne") and ("PartialEq" in p or "SlicePartialEq" in p):
        r = seq_eq_call(I, st, a[0], a[1])
        if r is not None:
            return one(r if m == "eq" else tm.sub(1, r))
    # slice -> array
    if m in ("try_from", "try_into") and isinstance(ty, int) and I.P.types[ty]["k"] == "adt":
        pt = enum_payload_type(I, ty, 0)
        t = I.P.types[pt]
        arr = t if t["k"] == "array" else (I.P.types[t["to"]] if t["k"] == "ref" and I.P.types[t["to"]]["k"] == "array" else None)
        if arr is not None and isinstance(a[0], Ref) and m == "try_from":
            n = int(arr["len"])
            c = truth(st, tm.cmp("Eq", size_of(I, st, a[0]), n))
            if t["k"] == "ref":
                return one(result(I, ty, c, new_cell(I, st, sub_elems(I, st, a[0], n))))
            return one(result(I, ty, c, sub_elems(I, st, a[0], n)))
        if arr is not None and isinstance(a[0], Seq) and m == "try_from":
            n = int(arr["len"])
            c = truth(st, tm.cmp("Eq", a[0].len(), n))
            return one(Enum(ty, tm.sub(1, c), {0: (Seq([("e", tuple(I.seq_get(st, a[0], i) for i in range(n)))]),), 1: (a[0],)}))
    if p.endswith("box_assume_init_into_vec_unsafe") or p.endswith("slice::<impl [T]>::into_vec"):
        v = a[0]
        v = I.load(st, v) if isinstance(v, Ref) else v
        if isinstance(v, Seq):
            return one(Seq(v.segs, "vec", v.upds))
    return None


def sub_elems(I, st, r, n):
    rs = as_slice(I, st, r)
    q = I.load(st, Ref(rs.key, rs.path)) if isinstance(rs, Ref) else None
    if q is None:
        raise Unsupported("slice chosen by a branch")
    return Seq([("e", tuple(I.seq_get(st, q, tm.add(rs.meta[0], i)) for i in range(n)))])


def prefix(I, st, x, y, back):
    n = st.facts.simp(y.len())
    from .interp import bool_and
    if not isinstance(n, int):
        ge = tm.cmp("Ge", x.len(), n)
        d = st.facts.prove(ge)
        e = None if d is False else seq_equal(I, st, I.subseq(st, x, tm.sub(x.len(), n) if back else 0, n), y)
        if d is not False and e is None:
            raise Unsupported("prefix of unknown elements")
        return 0 if d is False else bool_and(1 if d else ge, e)
    if n > 64:
        raise Unsupported("long prefix")
    ln = st.facts.simp(x.len())
    if isinstance(ln, int) and ln < n:
        return 0
    r = tm.cmp("Ge", ln, n)
    base = tm.sub(ln, n) if back else 0
    for i in range(n):
        u, v = I.seq_get(st, x, tm.add(base, i)), I.seq_get(st, y, i)
        if isinstance(u, Opaque) or isinstance(v, Opaque):
            raise Unsupported("prefix of unknown text")
        r = bool_and(r, tm.cmp("Eq", u, v))
    return r


def seq_eq_call(I, st, a, b):
    def get(v):
        for _ in range(4):
            if isinstance(v, Ref):
                if v.meta is not None:
                    return I.slice_of(st, v)
                v = I.load(st, v)
            else:
                break
        return v
    x, y = get(a), get(b)
    if isinstance(x, (Seq,)) and isinstance(y, (Seq,)):
        return seq_equal(I, st, x, y)
    if (isinstance(x, GV) and isinstance(y, (Seq, GV)) or isinstance(y, GV) and isinstance(x, Seq)):
        leaves = [u for _, u in (x if isinstance(x, GV) else y).cases]
        if leaves and isinstance(leaves[0], Seq):
            return seq_equal(I, st, x, y)
    return None


def seq_insert(I, st, q, i, v):
    n = I.seq_total(st, q)
    if isinstance(q, GV):
        return combine(q.sel, [(c, seq_insert(I, st, u, i, v)) for c, u in q.cases], None if q.default is None else seq_insert(I, st, q.default, i, v))
    a = I.subseq(st, q, 0, i)
    b = I.subseq(st, q, i, tm.sub(n, i))
    return Seq(list(a.segs) + [("e", (v,))] + list(b.segs), q.kind)


def seq_remove(I, st, q, i):
    n = I.seq_total(st, q)
    if isinstance(q, GV):
        return combine(q.sel, [(c, seq_remove(I, st, u, i)) for c, u in q.cases], None if q.default is None else seq_remove(I, st, q.default, i))
    # the last explicit element
    if q.segs and q.segs[-1][0] == "e" and same(tm.sub(n, 1), i) and not q.upds:
        return Seq(list(q.segs[:-1]) + [("e", q.segs[-1][1][:-1])], q.kind)
    a = I.subseq(st, q, 0, i)
    b = I.subseq(st, q, tm.add(i, 1), tm.sub(tm.sub(n, i), 1))
    return Seq(list(a.segs) + list(b.segs), q.kind)


def contains(I, st, a, ty, span, caller, f):
    """[T]::contains through the element type's own equality"""
    x = I.load(st, a[1])
    if scalar(x):
        q = content(I, st, a[0])
        n = st.facts.simp(q.len())
        if isinstance(n, int) and n <= 64:
            from .interp import bool_or
            r = 0
            for i in range(n):
                r = bool_or(r, tm.cmp("Eq", I.seq_get(st, q, i), x))
            return [(st, r)]
    eq = element_eq(I, f)
    if eq is None and not isinstance(x, Seq):
        return None
    src = slice_iter(I, st, a[0])

    def compare(s, y):
        if eq is not None:
            return I.call(s, eq, [y, a[1]], ty, span, f)
        c = seq_equal(I, s, content(I, s, y), content(I, s, a[1]))
        if c is None:
            raise Unsupported(f"contains at {span}")
        return [(s, c)]

    def step(s, y):
        res = []
        for s2, c in compare(s, y):
            t, e = I.branch(s2, c)
            if t is not None:
                res.append((t, "stop"))
            if e is not None:
                res.append((e, None))
        return res

    return [(s, 1 if tag else 0) for tag, s in drive(I, st, src, span, caller, [], step)]


def element_eq(I, f):
    """the equality function the body of [T]::contains ends up calling"""
    todo, seen = [f["id"]], set()
    while todo:
        g = I.P.fns.get(todo.pop(0))
        if g is None or g["id"] in seen or not g["body"]:
            continue
        seen.add(g["id"])
        if len(seen) > 30:
            return None
        for b in g["body"]["blocks"]:
            for c in callees(b):
                h = I.P.fns.get(c)
                if h is not None and h["path"].rsplit("::", 1)[-1] == "eq" and h["local"] and len(h["sig"][0]) == 2:
                    return c
                todo.append(c)
    return None


def callees(block):
    """ids of the function values mentioned in a block"""
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "fn" and isinstance(x[1], (str, int)):
                out.append(x[1])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(block)
    return out


# ------------------------------------------------------------------ iterator calls
def iterators(I, st, f, p, m, a, ty, span, caller):
    def one(v):
        return [(st, v)]

    if m == "into_iter":
        v = a[0]
        if to_it(I, st, v) is not None and is_it(v):
            return one(v)
        if isinstance(v, Agg) and isinstance(v.ty, int) and adt_path(I, v.ty) in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom"):
            return one(to_it(I, st, v))
        if isinstance(v, Ref):
            w = v
            if w.meta is None:
                x = I.load(st, w)
                if is_it(x):
                    return one(v)
                if not isinstance(x, (Seq, GV)):
                    return None
            return one(slice_iter(I, st, v))
        if isinstance(v, Seq):
            return one(seq_iter(I, st, v))
        return None
    if p == "std::iter::repeat" or p == "std::iter::repeat_n" or p == "std::iter::once" or p == "std::iter::empty":
        if m == "repeat":
            return one(it(Desc("const", a[0]), 0, None))
        if m == "repeat_n":
            return one(it(Desc("const", a[0]), 0, a[1]))
        if m == "once":
            return one(it(Desc("const", a[0]), 0, 1))
        return one(it(Desc("const", UNDEF), 0, 0))
    if not a:
        return None
    recv = a[0]
    byref = isinstance(recv, Ref) and recv.meta is None
    try:
        v = I.load(st, recv) if byref else recv
    except Unsupported:
        return None
    src = to_it(I, st, v)
    if src is None:
        return None
    if "ops::Range" in p and m in ("contains", "is_empty", "start", "end", "new"):
        return None
    if m == "contains" or "Clone" in p or m == "clone":
        return one(v) if m == "clone" else None
    if m in ("next", "next_back", "spec_next", "spec_next_back"):
        out = []
        for s, x, nv in advance(I, st, src, span, caller, "back" in m):
            I.store(s, recv, nv)
            if x is None:
                out.append((s, none(ty)))
            else:
                if isinstance(x, Agg) and x.ty is None:
                    x = Agg(enum_payload_type(I, ty, 1), x.f)
                out.append((s, some(ty, x)))
        return out
    d, lo, hi = parts(src)
    if not byref or m in ("by_ref",):
        if m == "by_ref":
            return one(recv)
        if d.k == "sieve":
            if m in ("map", "filter", "filter_map"):
                return one(it(Desc("sieve", d.a[0], d.a[1] + ((m, a[1]),)), 0, None))
            if m not in ("collect", "from_iter", "for_each", "try_for_each", "fold", "any", "all", "position", "find", "find_map", "count", "extend"):
                raise Unsupported(f"{m} of a filtered iterator")
        if m in ("filter", "filter_map"):
            return one(it(Desc("sieve", src, ((m, a[1]),)), 0, None))
        if m == "map":
            return one(it(Desc("map", src, a[1]), 0, it_len(src)))
        if m == "rev":
            return one(it(Desc("rev", src), 0, it_len(src)))
        if m in ("cloned", "copied"):
            return one(it(Desc("deref", src), 0, it_len(src)))
        if m == "enumerate":
            return one(it(Desc("enum", src), 0, it_len(src)))
        if m in ("zip", "chain"):
            o = a[1]
            oi = to_it(I, st, o)
            if oi is None:
                if isinstance(o, Ref):
                    oi = slice_iter(I, st, o)
                elif isinstance(o, (Seq, GV)):
                    oi = seq_iter(I, st, o)
                elif isinstance(o, Enum):
                    raise Unsupported("chain with an Option")
                else:
                    raise Unsupported("zip/chain with an unmodelled iterator")
            n1, n2 = it_len(src), it_len(oi)
            if m == "zip":
                return one(it(Desc("zip", src, oi), 0, tmin(st, n1, n2)))
            if n1 is None:
                return one(src)
            return one(it(Desc("chain", src, oi), 0, None if n2 is None else tm.add(n1, n2)))
        if m == "take":
            n = it_len(src)
            k = a[1] if n is None else tmin(st, a[1], n)
            return one(it(d, lo, tm.add(lo, k)))
        if m == "skip":
            n = it_len(src)
            k = a[1] if n is None else tmin(st, a[1], n)
            return one(it(d, tm.add(lo, k), hi))
        if m == "fuse":
            return one(src)
    if m == "count" and d.k == "sieve":
        ctr = new_cell(I, st, 0)

        def step(s, x):
            s.mem[ctr.key] = tm.add(s.mem[ctr.key], 1)
            return [(s, None)]
        return [(s, s.mem.pop(ctr.key)) for _, s in drive(I, st, src, span, caller, [ctr], step)]
    if m in ("len", "count"):
        n = it_len(src)
        if n is None:
            raise Unsupported("length of an endless iterator")
        return one(n)
    if m == "size_hint":
        return None
    if m in ("collect", "from_iter"):
        if byref:
            raise Unsupported("collect by reference")
        return collect(I, st, src, ty, span, caller)
    if m in ("for_each", "try_for_each", "fold", "try_fold", "any", "all", "position", "rposition", "find", "find_map", "sum", "max", "min", "last", "nth"):
        return consume(I, st, m, recv if byref else None, src, a, ty, span, caller, f)
    return None


def alloc(I, st, caller, span, n):
    """memory for n elements is requested at once"""
    if I.recording and I.allocs is not None and not (isinstance(n, int) and n <= 1 << 16):
        I.allocs.append((caller["path"] if caller else "?", span, n, st.copy()))


def collect(I, st, src, ty, span, caller):
    if src is None:
        raise Unsupported("collect from an unmodelled iterator")
    d, lo, hi = parts(src)
    path = adt_path(I, ty)
    wrapper = None
    vty = ty
    if path in ("std::result::Result", "std::option::Option"):
        wrapper = path.rsplit("::", 1)[-1]
        vty = enum_payload_type(I, ty, 0 if wrapper == "Result" else 1)
    if I.is_vec(vty):
        kind = "vec"
    elif I.is_string(vty):
        kind = "chars"
    else:
        raise Unsupported("collect into an unmodelled collection")
    if wrapper is None:
        q = None
        if d.k == "vals" and isinstance(d.a[0], Seq):
            q = d.a[0]
        elif d.k == "deref" and parts(d.a[0])[0].k == "refs" and same(lo, 0) and same(parts(d.a[0])[1], 0):
            q = content(I, st, parts(d.a[0])[0].a[0])
        if isinstance(q, Seq) and same(lo, 0) and same(hi, q.len()):
            return [(st, Seq(q.segs, kind, q.upds))]
    if wrapper is None and d.k != "sieve" and hi is not None and lo is not None:
        alloc(I, st, caller, span, tm.sub(hi, lo))
    acc = new_cell(I, st, Seq([], kind), vty)

    def step(s, x):
        if wrapper is None:
            append(I, s, acc, Seq([("e", (x,))]))
            return [(s, None)]
        if isinstance(x, GV):
            raise Unsupported("collect of unstructured results")
        good = 0 if wrapper == "Result" else 1
        res = []
        for tag, s2 in I.fork(s, x.disc, [({good}, True), (None, False)]):
            if tag:
                append(I, s2, acc, Seq([("e", (x.pay[good][0],))]))
                res.append((s2, None))
            else:
                s2.mem[("cerr", acc.key)] = x.pay.get(1 - good, ())
                res.append((s2, "stop"))
        return res

    out = []
    for tag, s in drive(I, st, src, span, caller, [acc], step):
        v = s.mem.pop(acc.key)
        if wrapper is None:
            out.append((s, v))
        elif tag is None:
            good = 0 if wrapper == "Result" else 1
            out.append((s, Enum(ty, good, {good: (v,)})))
        else:
            bad = 1 if wrapper == "Result" else 0
            e = s.mem.pop(("cerr", acc.key))
            out.append((s, Enum(ty, bad, {bad: tuple(e)})))
    return out


def consume(I, st, m, recv, src, a, ty, span, caller, f):
    out = consumed(I, st, m, src, a, ty, span, caller, f)
    if isinstance(recv, Ref):
        for s, _ in out:
            I.store(s, recv, UNDEF)     # where the iterator stands afterwards is not modelled
    return out


def consumed(I, st, m, src, a, ty, span, caller, f):
    if m == "rposition":
        n = it_len(src)
        out = []
        for s, v in consumed(I, st, "position", it(Desc("rev", src), 0, n), a, ty, span, caller, f):
            if v.disc == 1:
                v = some(ty, tm.sub(tm.sub(n, 1), v.pay[1][0]))
            elif v.disc != 0:
                raise Unsupported("rposition")
            out.append((s, v))
        return out
    unitv = Agg(ty, ())
    if m == "for_each":
        fn = a[1]

        def step(s, x):
            return [(s2, None) for s2, _ in call_fn(I, s, fn, [x], None, span, caller)]
        return [(s, unitv) for _, s in drive(I, st, src, span, caller, [], step)]
    if m in ("any", "all", "position", "find"):
        fn = a[1]
        ctr = new_cell(I, st, 0)

        def step(s, x):
            arg = x
            if m == "find":
                arg = new_cell(I, s, x)
            res = []
            for s2, c in call_fn(I, s, fn, [arg], None, span, caller):
                t, e = I.branch(s2, c)
                hit, miss = (e, t) if m == "all" else (t, e)
                if hit is not None:
                    hit.mem[("hit", ctr.key)] = x if m == "find" else hit.mem[ctr.key]
                    res.append((hit, "stop"))
                if miss is not None:
                    miss.mem[ctr.key] = tm.add(miss.mem[ctr.key], 1)
                    res.append((miss, None))
            return res

        out = []
        for tag, s in drive(I, st, src, span, caller, [ctr], step):
            s.mem.pop(ctr.key, None)
            x = s.mem.pop(("hit", ctr.key), None)
            if m == "any":
                out.append((s, 1 if tag else 0))
            elif m == "all":
                out.append((s, 0 if tag else 1))
            else:
                out.append((s, some(ty, x) if tag else none(ty)))
        return out
    if m == "fold":
        acc = new_cell(I, st, a[1], ty)
        fn = a[2]

        def step(s, x):
            res = []
            for s2, v in call_fn(I, s, fn, [s.mem[acc.key], x], ty, span, caller):
                s2.mem[acc.key] = v
                res.append((s2, None))
            return res
        out = []
        for _, s in drive(I, st, src, span, caller, [acc], step):
            out.append((s, s.mem.pop(acc.key)))
        return out
    if m == "try_for_each":
        fn = a[1]

        def step(s, x):
            res = []
            for s2, v in call_fn(I, s, fn, [x], ty, span, caller):
                for tag, s3 in I.fork(s2, v.disc, [({0}, True), (None, False)]):
                    if tag:
                        res.append((s3, None))
                    else:
                        s3.mem[("tfe", span)] = v
                        res.append((s3, "stop"))
            return res
        out = []
        for tag, s in drive(I, st, src, span, caller, [], step):
            if tag is None:
                out.append((s, Enum(ty, 0, {0: (Agg(enum_payload_type(I, ty, 0), ()),)})))
            else:
                v = s.mem.pop(("tfe", span))
                out.append((s, Enum(ty, 1, {1: v.pay[1]})))
        return out
    if m in ("max", "min", "sum", "last", "nth"):
        n = it_len(src)
        n = st.facts.simp(n) if n is not None else None
        if m == "nth":
            d, lo, hi = parts(src)
            i = tm.add(lo, a[1])
            t, e = (st, None) if hi is None else I.branch(st, tm.cmp("Lt", i, hi))
            out = []
            if t is not None:
                I.store(t, recv, it(d, tm.add(i, 1), hi))
                out += [(s, some(ty, x)) for s, x in elem(I, t, src, i, span, caller)]
            if e is not None:
                I.store(e, recv, it(d, hi, hi))
                out.append((e, none(ty)))
            return out
        if m == "last" and n is not None:
            d, lo, hi = parts(src)
            t, e = I.branch(st, tm.cmp("Lt", lo, hi))
            out = []
            if t is not None:
                out += [(s, some(ty, x)) for s, x in elem(I, t, src, tm.sub(hi, 1), span, caller)]
            if e is not None:
                out.append((e, none(ty)))
            return out
        raise Unsupported("iterator " + m)
    if m == "find_map":
        fn = a[1]

        def step(s, x):
            res = []
            for s2, v in call_fn(I, s, fn, [x], ty, span, caller):
                for tag, s3 in I.fork(s2, v.disc, [({1}, True), (None, False)]):
                    if tag:
                        s3.mem[("fm", span)] = v.pay[1][0]
                    res.append((s3, "stop" if tag else None))
            return res
        out = []
        for tag, s in drive(I, st, src, span, caller, [], step):
            x = s.mem.pop(("fm", span), None)
            out.append((s, some(ty, x) if tag else none(ty)))
        return out
    if m == "try_fold":
        raise Unsupported("iterator " + m)
    return None


def formatted(x):
    """the string that format! makes of concrete arguments (None: not known)"""
    if not isinstance(x, Opaque) or x.what[:1] != ("fmt",) or len(x.what) < 2:
        return None
    parts = x.what[1:]
    t = concrete_bytes(parts[0])
    if t is None:
        return None
    if len(parts) == 1:
        return Seq([("e", (b,)) for b in t], "chars") if all(b < 128 for b in t) else None
    if not isinstance(parts[1], Seq) or any(y[0] != "e" for y in parts[1].segs):
        return None
    args = [v for y in parts[1].segs for v in y[1]]
    out, i, n = [], 0, 0
    while i < len(t):
        k = t[i]
        i += 1
        if k == 0:
            return Seq([("e", (b,)) for b in out], "chars")
        if k < 0x80:
            out += t[i:i + k]
            i += k
        elif k == 0xC0 and n < len(args):
            a = args[n]
            n += 1
            if not isinstance(a, Opaque) or a.what[:2] != ("disp", "new_display"):
                return None
            v = a.what[2]
            if isinstance(v, int) and a.what[3] == "int":
                out += str(v).encode()
            else:
                v = concrete_bytes(v)
                if v is None:
                    return None
                out += v
        else:
            return None
        if any(b > 127 for b in out):
            return None
    return None


def concrete_bytes(v):
    if not isinstance(v, Seq) or v.upds or any(y[0] != "e" or not all(isinstance(k, int) for k in y[1]) for y in v.segs):
        return None
    b = [k for y in v.segs for k in y[1]]
    return b if all(0 <= k < 256 for k in b) else None
