"""Abstract values: structural aggregates over scalar terms, sequences, references."""
from . import terms as tm
from .terms import T


class Unsupported(Exception):
    """the analysis does not model this construct"""
    where = None


class Agg:
    """struct, tuple, closure or iterator state"""
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.f == o.f)

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return f"{{{', '.join(map(show, self.f))}}}"

    def set(self, i, v):
        f = list(self.f)
        f[i] = v
        return Agg(self.ty, f)


class Enum:
    """disc is the variant index as a term; pay maps a variant index to its fields"""
    __slots__ = ("ty", "disc", "pay")

    def __init__(self, ty, disc, pay):
        self.ty = ty
        self.disc = disc
        self.pay = pay

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Enum) or not same(self.disc, o.disc):
            return False
        if isinstance(self.disc, int):
            return self.pay.get(self.disc, ()) == o.pay.get(self.disc, ())
        return self.pay == o.pay

    def __hash__(self):
        return hash(self.disc)

    def __repr__(self):
        if isinstance(self.disc, int):
            return f"#{self.disc}{list(map(show, self.pay.get(self.disc, ())))}"
        return f"#[{show(self.disc)}]{{{', '.join(f'{k}:{list(map(show, v))}' for k, v in sorted(self.pay.items()) if v)}}}"


class Ref:
    """key: memory cell; path inside; meta: (start, len) for slices and strings"""
    __slots__ = ("key", "path", "meta")

    def __init__(self, key, path=(), meta=None):
        self.key = key
        self.path = tuple(path)
        self.meta = meta

    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.key == o.key and self.path == o.path and self.meta == o.meta)

    def __hash__(self):
        return hash((self.key, self.path))

    def __repr__(self):
        return f"&{self.key}{list(self.path) if self.path else ''}{'[' + show(self.meta[0]) + '; ' + show(self.meta[1]) + ']' if self.meta else ''}"


class Fn:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return isinstance(o, Fn) and self.inst == o.inst

    def __hash__(self):
        return hash(self.inst)

    def __repr__(self):
        return f"fn#{self.inst}"


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Opaque:
    """an unmodelled value; equal only to itself or to one built from the same parts"""
    __slots__ = ("what",)

    def __init__(self, *what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.what == o.what

    def __hash__(self):
        return hash(self.what[0]) if self.what else 0

    def __repr__(self):
        return f"opaque{self.what}"


class GV:
    """a decision between values that have no common structure"""
    __slots__ = ("sel", "cases", "default")

    def __init__(self, sel, cases, default):
        self.sel = sel
        self.cases = tuple(cases)
        self.default = default

    def __eq__(self, o):
        return isinstance(o, GV) and same(self.sel, o.sel) and self.cases == o.cases and self.default == o.default

    def __hash__(self):
        return hash(self.sel)

    def __repr__(self):
        return f"γv[{show(self.sel)}: {'; '.join(f'{v}→{show(u)}' for v, u in self.cases)}; _→{show(self.default)}]"


class Seq:
    """segments: ('e', values) | ('v', id, len, elemty, off) | ('L', loop, segs, n, len) | ('P', id, len) | ('g', sel, cases, default)
    | ('x', key, len, elem function name, payload).  kind: 'vec' | 'str' (bytes of a str) | 'chars' (characters of a String)"""
    __slots__ = ("segs", "kind", "upds")

    def __init__(self, segs, kind="vec", upds=()):
        out = []
        for s in segs:
            if s[0] == "e" and not s[1]:
                continue
            if out and s[0] == "e" and out[-1][0] == "e":
                out[-1] = ("e", out[-1][1] + s[1])
            else:
                out.append(s)
        self.segs = tuple(out)
        self.kind = kind
        self.upds = upds

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.segs == o.segs and self.upds == o.upds)

    def __hash__(self):
        return hash(len(self.segs))

    def __repr__(self):
        return f"⟨{self.kind} {' ++ '.join(map(showseg, self.segs))}{' upd ' + str(self.upds) if self.upds else ''}⟩"

    def len(self):
        r = 0
        for s in self.segs:
            r = tm.add(r, seglen(s))
        return r


def seglen(s):
    if s[0] == "e":
        return len(s[1])
    if s[0] == "v":
        return s[2]
    if s[0] == "L":
        return s[4]
    if s[0] == "P":
        return s[2]
    if s[0] == "x":
        return s[2]
    if s[0] == "g":
        return tm.select(s[1], [(v, q.len()) for v, q in s[2]], None if s[3] is None else s[3].len())
    raise Unsupported("segment " + s[0])


def showseg(s):
    if s[0] == "e":
        return "[" + ", ".join(map(show, s[1])) + "]"
    if s[0] == "v":
        return f"{s[1]}[{show(s[4])}..+{show(s[2])}]"
    if s[0] == "L":
        return f"loop{s[1]}({show(s[3])}× {' '.join(map(showseg, s[2]))})"
    if s[0] == "P":
        return f"phi{s[1]}"
    if s[0] == "x":
        return f"{s[1]}<{show(s[2])}>"
    return f"γ[{show(s[1])}: {'; '.join(f'{v}→{q}' for v, q in s[2])}; _→{s[3]}]"


def show(v):
    if isinstance(v, (T, int)):
        return tm.show(v)
    if tm._nest[0] > 8 or tm._nest[1] > 4000 and tm._nest[0]:
        return "…"
    if not tm._nest[0]:
        tm._nest[1] = 0
    tm._nest[1] += 1
    tm._nest[0] += 1
    try:
        return repr(v)
    finally:
        tm._nest[0] -= 1


def same(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def scalar(v):
    return isinstance(v, (int, T))


# ---------------------------------------------------------------- outcome sets of decisions
def oset_in(*vs):
    return ("in", frozenset(vs))


def oset_union(a, b):
    if a[0] == "in" and b[0] == "in":
        return ("in", a[1] | b[1])
    if a[0] == "out" and b[0] == "out":
        return ("out", a[1] & b[1])
    if a[0] == "in":
        a, b = b, a
    return ("out", a[1] - b[1])


def oset_full(o, rng):
    """does the outcome set cover everything in the range?"""
    if o[0] == "out":
        return not o[1] or all(v < rng[0] or v > rng[1] for v in o[1])
    lo, hi = rng
    return hi - lo < 4096 and all(v in o[1] for v in range(int(lo), int(hi) + 1))


def oset_norm(o, rng):
    lo, hi = rng
    if o[0] == "out" and hi - lo < 64:
        return ("in", frozenset(v for v in range(int(lo), int(hi) + 1) if v not in o[1]))
    return o


# ---------------------------------------------------------------- merging
def merge_values(sel, groups):
    """groups: [(outcome set, value)] disjoint"""
    groups = [(o, v) for o, v in groups if v is not UNDEF]
    if not groups:
        return UNDEF
    v0 = groups[0][1]
    if all(v is v0 or v == v0 for _, v in groups[1:]):
        if not isinstance(v0, (int, T)) or all(same(v, v0) for _, v in groups[1:]):
            return v0
    cases, default = [], None
    outs = [(o, v) for o, v in groups if o[0] == "out"]
    if len(outs) > 1:
        raise Unsupported("overlapping decision outcomes")
    for o, v in groups:
        if o[0] == "in":
            cases += [(k, v) for k in o[1]]
        else:
            default = v
    cases.sort(key=lambda c: c[0])
    return combine(sel, cases, default)


def combine(sel, cases, default):
    vals = [v for _, v in cases] + ([default] if default is not None else [])
    vals = [v for v in vals if v is not UNDEF]
    if not vals:
        return UNDEF
    if len(vals) < len(cases) + (default is not None):
        cases = [(k, v) for k, v in cases if v is not UNDEF]
        if default is UNDEF:
            default = None
        vals = [v for _, v in cases] + ([default] if default is not None else [])
    v0 = vals[0]
    if all(v is v0 or (type(v) is type(v0) and v == v0) for v in vals):
        return v0
    if all(scalar(v) for v in vals):
        return tm.select(sel, cases, default)
    if all(isinstance(v, Agg) and len(v.f) == len(v0.f) for v in vals) and isinstance(v0, Agg) and len({v.ty if not isinstance(v.ty, int) else 0 for v in vals}) == 1:
        return Agg(v0.ty, [combine(sel, [(k, v.f[i]) for k, v in cases], None if default is None else default.f[i]) for i in range(len(v0.f))])
    if all(isinstance(v, Enum) for v in vals):
        disc = combine(sel, [(k, v.disc) for k, v in cases], None if default is None else default.disc)
        pay = {}
        for p in sorted({p for v in vals for p in v.pay}):
            cs = [(k, v.pay[p]) for k, v in cases if p in v.pay]
            df = default.pay.get(p) if default is not None else None
            n = len(cs[0][1]) if cs else len(df)
            pay[p] = tuple(combine(sel, [(k, f[i]) for k, f in cs], None if df is None else df[i]) for i in range(n))
        return Enum(v0.ty, disc, pay)
    if all(isinstance(v, Seq) for v in vals):
        return combine_seqs(sel, cases, default)
    if all(isinstance(v, Ref) for v in vals):
        if all(v.key == v0.key and len(v.path) == len(v0.path) and (v.meta is None) == (v0.meta is None) for v in vals):
            ok, path = True, []
            for i in range(len(v0.path)):
                if all(v.path[i] == v0.path[i] for v in vals):
                    path.append(v0.path[i])
                elif all(v.path[i][0] == "i" for v in vals):
                    path.append(("i", combine(sel, [(k, v.path[i][1]) for k, v in cases], None if default is None else default.path[i][1])))
                else:
                    ok = False
                    break
            if ok:
                meta = None
                if v0.meta is not None:
                    meta = tuple(combine(sel, [(k, v.meta[i]) for k, v in cases], None if default is None else default.meta[i]) for i in range(2))
                return Ref(v0.key, path, meta)
    # GV leaves that decide on the same selector collapse
    def pick(v, k):
        if isinstance(v, GV) and same(v.sel, sel):
            for c, u in v.cases:
                if c == k:
                    return u
            return v.default if v.default is not None else v
        return v
    return GV(sel, [(k, pick(v, k)) for k, v in cases], default)


def combine_seqs(sel, cases, default):
    vals = [v for _, v in cases] + ([default] if default is not None else [])
    if any(v.upds for v in vals):
        # common updates are kept, the rest becomes a decision
        if all(v.upds == vals[0].upds for v in vals):
            q = combine_seqs(sel, [(k, Seq(v.segs, v.kind)) for k, v in cases], None if default is None else Seq(default.segs, default.kind))
            return Seq(q.segs, q.kind, vals[0].upds)
        return Seq((("g", sel, tuple(cases), default),), vals[0].kind)
    # split into single-element units
    def units(q):
        out = []
        for s in q.segs:
            if s[0] == "e":
                out += [("e", (x,)) for x in s[1]]
            else:
                out.append(s)
        return out
    us = [units(v) for v in vals]
    if all(len(u) == len(us[0]) for u in us):
        ok, segs = True, []
        for i in range(len(us[0])):
            col = [u[i] for u in us]
            if all(c == col[0] for c in col):
                segs.append(col[0])
            elif all(c[0] == "e" for c in col):
                cs = [(k, c[1][0]) for (k, _), c in zip(cases, col)]
                segs.append(("e", (combine(sel, cs, None if default is None else col[-1][1][0]),)))
            else:
                ok = False
                break
        if ok:
            return Seq(segs, vals[0].kind)
    n = 0
    while all(len(u) > n for u in us) and all(u[n] == us[0][n] for u in us):
        n += 1
    k = vals[0].kind
    tails = [Seq(u[n:], k) for u in us]
    cs = [(c[0], t) for c, t in zip(cases, tails)]
    return Seq(list(us[0][:n]) + [("g", sel, tuple(cs), None if default is None else tails[-1])], k)


# ---------------------------------------------------------------- generic traversal
def vmap(f, v):
    """apply f to every scalar term of a value"""
    if isinstance(v, (int, T)):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.ty, [vmap(f, x) for x in v.f])
    if isinstance(v, Enum):
        return Enum(v.ty, f(v.disc), {k: tuple(vmap(f, x) for x in p) for k, p in v.pay.items()})
    if isinstance(v, Ref):
        return Ref(v.key, tuple((p[0], f(p[1])) if p[0] == "i" else p for p in v.path), None if v.meta is None else (f(v.meta[0]), f(v.meta[1])))
    if isinstance(v, Seq):
        return Seq([segmap(f, s) for s in v.segs], v.kind, tuple((f(i), vmap(f, x)) for i, x in v.upds))
    if isinstance(v, GV):
        x = f(v.sel)
        cs = [(k, vmap(f, u)) for k, u in v.cases]
        df = None if v.default is None else vmap(f, v.default)
        if isinstance(x, int):
            for k, u in cs:
                if k == x:
                    return u
            return df if df is not None else cs[0][1]
        if x is v.sel:
            return GV(x, cs, df)
        return combine(x, cs, df)
    if isinstance(v, Opaque):
        return Opaque(*[vmap(f, x) if not isinstance(x, (str, bytes, type(None), tuple)) else x for x in v.what])
    if isinstance(v, tuple):
        return tuple(vmap(f, x) for x in v)
    g = getattr(v, "vmap", None)
    if g is not None:
        return g(f)
    return v


def keymap(f, k):
    """key of a sequence inside a symbolic list: it names the index of the element"""
    if isinstance(k, tuple) and len(k) == 4 and k[0] == "s" and isinstance(k[2], T):
        return k[:2] + (f(k[2]),) + k[3:]
    return k


def segmap(f, s):
    if s[0] == "e":
        return ("e", tuple(vmap(f, x) for x in s[1]))
    if s[0] == "v":
        return ("v", keymap(f, s[1]), f(s[2]), s[3], f(s[4]))
    if s[0] == "L":
        return ("L", s[1], tuple(segmap(f, x) for x in s[2]), f(s[3]), f(s[4]))
    if s[0] == "P":
        return ("P", s[1], f(s[2])) + s[3:]
    if s[0] == "x":
        return ("x", s[1], f(s[2])) + s[3:]
    x = f(s[1])
    cs = [(k, vmap(f, q)) for k, q in s[2]]
    df = None if s[3] is None else vmap(f, s[3])
    if isinstance(x, int):
        r = df
        for k, q in cs:
            if k == x:
                r = q
        if r is None:
            r = cs[0][1]
        return ("g", mk0, ((0, r),), None) if len(r.segs) != 1 else r.segs[0]
    return ("g", x, tuple(cs), df)


mk0 = 0


def flatten(q):
    """resolve decided gamma segments"""
    out = []
    for s in q.segs:
        if s[0] == "g" and isinstance(s[1], int):
            r = s[3]
            for k, u in s[2]:
                if k == s[1]:
                    r = u
            out += list(flatten(r).segs)
        else:
            out.append(s)
    return Seq(out, q.kind, q.upds)


def vatoms(v, acc=None):
    if acc is None:
        acc = set()
    vmap(lambda t: (tm.atoms(t, acc), t)[1], v)
    return acc
