"""Abstract interpretation of the dumped MIR.

Every function is evaluated once per calling state over symbolic value numbers.  Control
flow that joins is merged into decision ("gamma") values, facts (intervals, linear
inequalities) are joined, loops are replaced by their inductive summary: linear induction
variables, appended sequences, and a set of invariants found by a Houdini fixpoint.
Nothing is executed and no solver is involved.
"""
from . import terms as tm
from .terms import T, mk, Facts
from .values import (Agg, Enum, Ref, Fn, GV, Seq, Opaque, Undef, UNDEF, Unsupported, merge_values, combine,
                     oset_in, oset_union, oset_full, oset_norm, same, scalar, vmap, flatten, show)

NMAX = 1 << 48          # assumed bound on loop iterations
LENMAX = 1 << 40        # assumed bound on the length of a collection


class State:
    __slots__ = ("mem", "facts", "guard", "trace", "ret")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.guard = ()
        self.trace = ()
        self.ret = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.guard = self.guard
        s.trace = self.trace
        s.ret = self.ret
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)


class LoopDesc:
    """summary of one loop"""

    def __init__(self, id, where):
        self.id = id
        self.where = where
        self.n = None          # iteration variable inside the body
        self.total = None      # number of completed iterations, after the loop
        self.count = None      # closed form of the total for the ordinary exit, if counted
        self.phis = []         # (key, path, kind, initial, head value, next value)
        self.body = ()         # trace of one completed iteration
        self.head = None       # state at the head
        self.back = None       # state at the back edge
        self.exits = []        # (tag, state as left, body-relative guard)


class Oblig:
    __slots__ = ("kind", "fn", "span", "ok", "msg", "detail")

    def __init__(self, kind, fn, span, ok, msg, detail=None):
        self.kind, self.fn, self.span, self.ok, self.msg, self.detail = kind, fn, span, ok, msg, detail


class Impossible(Exception):
    """a decision whose outcome can not occur"""


class Interp:
    def __init__(self, P, prims=None, fuel=400000):
        self.P = P
        self.prims = prims or {}
        self.frames = 0
        self.init = {}          # lazily created memory behind symbolic references
        self.keyty = {}
        self.fresh_n = 0
        self.stack = []
        self.obligs = {}
        self.failed = None      # or the list of obligations that were not discharged: (key, state, condition)
        self.loops = {}
        self.recording = True
        self.fuel = fuel
        self.unroll = 70
        self.unknown = []       # calls that were not modelled
        self.allocs = None      # [(function, span, requested number of elements, state)] if wanted
        self.functions = set()
        self.blocks_seen = set()
        self.merges = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ symbols
    def fresh(self, what, lo=None, hi=None):
        self.fresh_n += 1
        return mk("var", f"{what}~{self.fresh_n}", -tm.INF if lo is None else lo, tm.INF if hi is None else hi)

    def intrange(self, ty):
        t = self.P.types[ty]
        k = t["k"]
        if k == "int":
            return tm.trange(t["bits"], t["signed"])
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        return None

    def is_vec(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and t["path"].endswith("vec::Vec")

    def is_string(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and t["path"].endswith("string::String")

    def sym(self, ty, name, idx=None, path=(), depth=0):
        """symbolic value of a type; name is a hashable, idx an index term for array elements"""
        t = self.P.types[ty]
        k = t["k"]

        def leaf(lo, hi):
            if idx is None:
                nm = name if not path else f"{name}.{'.'.join(map(str, path))}"
                return mk("var", nm, lo, hi)
            return mk("nth", name, path, lo, hi, idx)

        def sub(x):
            return path + (x,)

        if k in ("int", "bool", "char"):
            return leaf(*self.intrange(ty))
        if k == "float":
            return mk("flt", leaf(-tm.INF, tm.INF), t["bits"])
        if k == "ref" or k == "ptr":
            to = self.P.types[t["to"]]
            key = ("s", name, idx, path)
            if to["k"] in ("slice", "str"):
                n = mk("len", name, idx if idx is not None else -1, path)
                elem = to.get("elem")
                if key not in self.init:
                    self.init[key] = Seq([("v", key, n, elem if to["k"] == "slice" else "u8", 0)], "vec" if to["k"] == "slice" else "str")
                    self.keyty[key] = t["to"]
                return Ref(key, (), (0, n))
            if to["k"] == "dyn":
                return Opaque("dyn", str(name))
            if key not in self.init:
                self.init[key] = self.sym(t["to"], name, idx, path, depth + 1)
                self.keyty[key] = t["to"]
            return Ref(key)
        if k == "tuple":
            return Agg(ty, [self.sym(e, name, idx, sub(i), depth + 1) for i, e in enumerate(t["elems"])])
        if k == "array":
            if t["len"] is not None and int(t["len"]) <= 64:
                return Seq([("e", tuple(self.sym(t["elem"], name, idx, sub(i), depth + 1) for i in range(int(t["len"]))))])
            raise Unsupported("symbolic array of unknown length")
        if k == "adt":
            if self.is_vec(ty):
                key = ("s", name, idx, path)
                return Seq([("v", key, mk("len", name, idx if idx is not None else -1, path), t["args"][0], 0)])
            if self.is_string(ty):
                key = ("s", name, idx, path)
                return Seq([("v", key, mk("len", name, idx if idx is not None else -1, path), "char", 0)], "chars")
            vs = t["variants"]
            if len(vs) == 1:
                return Agg(ty, [self.sym(ft, name, idx, sub(fn), depth + 1) for fn, ft in vs[0]["fields"]])
            if not vs:
                return Opaque("uninhabited")
            if depth > 12:
                raise Unsupported("deeply recursive symbolic value")
            return Enum(ty, leaf_enum(leaf_path(name, idx, sub("#")), len(vs)), {
                i: tuple(self.sym(ft, name, idx, path + (v["name"], fn), depth + 1) for fn, ft in v["fields"]) for i, v in enumerate(vs)})
        if k == "fndef":
            return Fn(t["inst"])
        if k == "closure":
            return Agg(ty, [self.sym(u, name, idx, sub(i), depth + 1) for i, u in enumerate(t["upvars"])])
        if k in ("never",):
            return UNDEF
        return Opaque("sym", str(name), str(path))

    # ------------------------------------------------------------ memory
    def cell(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = self.init.get(key)
            if v is None:
                return UNDEF
        return v

    def read_path(self, st, v, path):
        for n, p in enumerate(path):
            if isinstance(v, GV):
                rest = path[n:]
                d = self.decide(st, v.sel)
                if d is not None:
                    nv = next((u for c, u in v.cases if c == d), v.default)
                    return self.read_path(st, nv, rest)
                return combine(v.sel, [(c, self.read_path(st, u, rest)) for c, u in v.cases],
                               None if v.default is None else self.read_path(st, v.default, rest))
            if v is UNDEF or isinstance(v, Undef):
                return UNDEF
            k = p[0]
            if k == "f":
                if isinstance(v, Agg):
                    if p[1] >= len(v.f):
                        raise Unsupported("field out of shape")
                    v = v.f[p[1]]
                elif isinstance(v, tuple):
                    v = v[p[1]] if p[1] < len(v) else UNDEF
                elif isinstance(v, Opaque):
                    return Opaque("field", v, p[1])
                else:
                    raise Unsupported(f"field of {show(v)[:80]}")
            elif k == "d":
                if isinstance(v, Enum):
                    v = v.pay.get(p[1])
                    if v is None:
                        return UNDEF
                elif isinstance(v, Agg):
                    v = v.f
                elif isinstance(v, Opaque):
                    v = Opaque("variant", v, p[1])
                else:
                    raise Unsupported(f"downcast of {show(v)[:80]}")
            elif k == "i":
                v = self.seq_get(st, v, p[1])
            else:
                raise Unsupported("projection " + k)
        return v

    def write_path(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(v, GV):
            return combine(v.sel, [(c, self.write_path(st, u, path, new)) for c, u in v.cases],
                           None if v.default is None else self.write_path(st, v.default, path, new))
        if p[0] == "f":
            if isinstance(v, Agg):
                return v.set(p[1], self.write_path(st, v.f[p[1]], path[1:], new))
            if v is UNDEF:
                raise Unsupported("write to a field of an unset value")
            if isinstance(v, tuple):
                t = list(v)
                t[p[1]] = self.write_path(st, t[p[1]], path[1:], new)
                return tuple(t)
            raise Unsupported(f"write field of {show(v)[:60]}")
        if p[0] == "d":
            if isinstance(v, Enum):
                pay = dict(v.pay)
                if p[1] not in pay:
                    raise Unsupported("write to a missing variant")
                pay[p[1]] = self.write_path(st, pay[p[1]], path[1:], new)
                return Enum(v.ty, v.disc, pay)
            if isinstance(v, Agg):
                return Agg(v.ty, self.write_path(st, v.f, path[1:], new))
            raise Unsupported("write through downcast")
        if p[0] == "i":
            return self.seq_set(st, v, p[1], self.write_path(st, self.seq_get(st, v, p[1]) if len(path) > 1 else None, path[1:], new))
        raise Unsupported("write projection")

    def seq_get(self, st, q, i):
        if isinstance(q, GV):
            return self.get_of(st, q.sel, q.cases, q.default, i)
        if isinstance(q, Opaque):
            return Opaque("elem", q, i)
        if not isinstance(q, Seq):
            raise Unsupported(f"index into {show(q)[:60]}")
        i = st.facts.simp(i)
        for n in range(len(q.upds) - 1, -1, -1):
            j, val = q.upds[n]
            b = tm.eq0(tm.sub(i, j))
            d = st.facts.prove(b)
            if d is True:
                return val
            if d is None:
                return combine(b, [(1, val)], self.seq_get(st, Seq(q.segs, q.kind, q.upds[:n]), i))
        pos = 0
        for s in q.segs:
            n = self.seglen(s)
            rel = tm.sub(i, pos)
            if s[0] == "e":
                if n == 0:
                    continue
                if isinstance(rel, int):
                    if 0 <= rel < n:
                        return s[1][rel]
                    pos = tm.add(pos, n)
                    continue
                lo = st.facts.prove(tm.le0(tm.sub(0, rel)))
                hi = st.facts.prove(tm.cmp("Lt", rel, n))
                if hi is False or lo is False and hi is not True:
                    pos = tm.add(pos, n)
                    continue
                if lo and hi and n <= 300:
                    r = st.facts.rng(rel)
                    return combine(rel, [(k, s[1][k]) for k in range(max(0, int(r[0])), min(n - 1, int(r[1])) + 1)], None)
                if len(q.segs) == 1 and n <= 300:
                    # the value is only used where the index is one of the sequence
                    return s[1][0] if n == 1 else combine(rel, [(k, s[1][k]) for k in range(n - 1)], s[1][n - 1])
                break
            hi = st.facts.prove(tm.cmp("Lt", rel, n))
            if hi is False:
                pos = tm.add(pos, n)
                continue
            if hi is None and s is not q.segs[-1]:
                break
            return self.seg_elem(st, s, rel, q)
        return self.unknown_elem(q, i)

    def get_of(self, st, sel, cases, default, i):
        # sequences that are too short for the index are not the one that is accessed
        def short(u):
            return isinstance(i, int) and isinstance(u, Seq) and isinstance(u.len(), int) and u.len() <= i
        some = [(c, u) for c, u in cases if not short(u)]
        last = None if default is None or short(default) else default
        if not some and last is None:
            some, last = cases, default
        if len(some) + (last is not None) == 1:
            return self.seq_get(st, some[0][1] if some else last, i)
        return combine(sel, [(c, self.seq_get(st, u, i)) for c, u in some], None if last is None else self.seq_get(st, last, i))

    def seglen(self, s):
        from .values import seglen
        return seglen(s)

    def seg_elem(self, st, s, rel, q):
        if s[0] == "v":
            ix = tm.add(s[4], rel)
            if s[3] == "u8":
                return mk("nth", s[1], (), 0, 255, ix)
            if s[3] == "char":
                return mk("nth", s[1], (), 0, 0x10FFFF, ix)
            return self.sym(s[3], s[1], ix)
        if s[0] == "L" and len(s[2]) == 1 and s[2][0][0] == "e" and len(s[2][0][1]) == 1:
            d = self.loops[s[1]]
            return vmap(lambda t: tm.subst(t, {d.n: rel}), s[2][0][1][0])
        if s[0] == "x":
            f = s[3]
            return f(rel)
        if s[0] == "g":
            return self.get_of(st, s[1], s[2], s[3], rel)
        return self.unknown_elem(q, rel)

    def unknown_elem(self, q, i):
        ety = self.elem_type(q)
        nm = ("elem", q.segs, q.upds)
        if ety is None:
            return Opaque("elem", q, i)
        if ety == "u8":
            return mk("nth", nm, (), 0, 255, i)
        if ety == "char":
            return mk("nth", nm, (), 0, 0x10FFFF, i)
        return self.sym(ety, nm, i)

    def elem_type(self, q):
        for s in q.segs:
            if s[0] == "v":
                return s[3]
            if s[0] == "P" and len(s) > 3 and s[3] is not None:
                return s[3]
            if s[0] == "e":
                v = s[1][0]
                if isinstance(v, (Agg, Enum)) and isinstance(v.ty, int):
                    return v.ty
            if s[0] == "g":
                for _, u in s[2]:
                    r = self.elem_type(u)
                    if r is not None:
                        return r
        return None

    def seq_set(self, st, q, i, v):
        if isinstance(q, GV):
            return combine(q.sel, [(c, self.seq_set(st, u, i, v)) for c, u in q.cases], None if q.default is None else self.seq_set(st, q.default, i, v))
        if not isinstance(q, Seq):
            raise Unsupported("indexed write")
        i = st.facts.simp(i)
        if isinstance(i, int) and not q.upds:
            pos, segs = 0, []
            done = False
            for s in q.segs:
                n = self.seglen(s)
                if not done and s[0] == "e" and isinstance(pos, int) and pos <= i < pos + n:
                    e = list(s[1])
                    e[i - pos] = v
                    segs.append(("e", tuple(e)))
                    done = True
                else:
                    segs.append(s)
                pos = tm.add(pos, n)
            if done:
                return Seq(segs, q.kind)
        if not q.upds:
            # a write to one of the explicit elements at a symbolic offset from the start
            pos, segs, done = 0, [], False
            for s in q.segs:
                n = self.seglen(s)
                rel = tm.sub(i, pos)
                if not done and s[0] == "e" and isinstance(rel, int) and 0 <= rel < n:
                    e = list(s[1])
                    e[rel] = v
                    segs.append(("e", tuple(e)))
                    done = True
                else:
                    segs.append(s)
                pos = tm.add(pos, n)
            if done:
                return Seq(segs, q.kind)
        upds = tuple(u for u in q.upds if not same(u[0], i))
        return Seq(q.segs, q.kind, upds + ((i, v),))

    def load(self, st, r):
        """value a reference points to (slices: the whole backing sequence)"""
        if isinstance(r, GV):
            return combine(r.sel, [(c, self.load(st, u)) for c, u in r.cases], None if r.default is None else self.load(st, r.default))
        if isinstance(r, Opaque):
            return Opaque("deref", r)
        if r is UNDEF:
            return UNDEF
        if not isinstance(r, Ref):
            raise Unsupported(f"load through {show(r)[:60]}")
        return self.read_path(st, self.cell(st, r.key), r.path)

    def store(self, st, r, v):
        if isinstance(r, GV):
            # a write that may go to one of several places
            cs = [(c, u) for c, u in r.cases] + ([(None, r.default)] if r.default is not None else [])
            for c, u in cs:
                old = self.load(st, u)
                if c is not None:
                    nv = combine(r.sel, [(c, v)], old)
                else:
                    nv = combine(r.sel, [(k, old) for k, _ in r.cases], v)
                self.store(st, u, nv)
            return
        if not isinstance(r, Ref):
            raise Unsupported(f"store through {show(r)[:60]}")
        st.mem[r.key] = self.write_path(st, self.cell(st, r.key), r.path, v)

    def slice_of(self, st, r):
        """the sequence a slice/str/array/Vec reference denotes"""
        q = self.load(st, r)
        if isinstance(r, Ref) and r.meta is not None:
            return self.subseq(st, q, r.meta[0], r.meta[1])
        return q

    def seq_total(self, st, q):
        if isinstance(q, GV):
            return combine(q.sel, [(c, self.seq_total(st, u)) for c, u in q.cases], None if q.default is None else self.seq_total(st, q.default))
        if isinstance(q, Seq):
            n = q.len()
            if isinstance(n, T):
                st.facts.set_iv(n, 0, LENMAX)
            return n
        raise Unsupported(f"length of {show(q)[:60]}")

    def subseq(self, st, q, start, n):
        if isinstance(q, GV):
            return combine(q.sel, [(c, self.subseq(st, u, start, n)) for c, u in q.cases], None if q.default is None else self.subseq(st, q.default, start, n))
        if not isinstance(q, Seq):
            return Opaque("subseq", q, start, n)
        start, n = st.facts.simp(start), st.facts.simp(n)
        if start == 0 and isinstance(start, int) and same(q.len(), n):
            return q
        if isinstance(n, int) and n <= 512:
            return Seq([("e", tuple(self.seq_get(st, q, tm.add(start, k)) for k in range(n)))], q.kind)
        if len(q.segs) == 1 and q.segs[0][0] == "v" and not q.upds:
            s = q.segs[0]
            return Seq([("v", s[1], n, s[3], tm.add(s[4], start))], q.kind)
        if not q.upds:
            # whole segments
            pos, out, have = 0, [], 0
            for s in q.segs:
                if same(pos, start) or out:
                    if same(have, n):
                        break
                    out.append(s)
                    have = tm.add(have, self.seglen(s))
                pos = tm.add(pos, self.seglen(s))
            if out and same(have, n):
                return Seq(out, q.kind)
        return Seq([("x", ("sub", q, start), n, lambda i: self.seq_get(st, q, tm.add(start, i)))], q.kind)

    # ------------------------------------------------------------ operands
    def const(self, st, c):
        k = c[0]
        if k == "int":
            return int(c[1])
        if k == "float":
            bits = c[1]
            w = self.P.types[c[2]]["bits"]
            return mk("fbits", int(bits), w)
        if k == "str":
            key = ("const", "s" + repr(c[1]))
            self.init[key] = Seq([("e", tuple(c[1]))], "str")
            return Ref(key, (), (0, len(c[1])))
        if k == "slice":
            key = ("const", "l" + repr(c[1:]))
            if key not in self.init:
                self.init[key] = Seq([("e", tuple(self.const(st, x) if isinstance(x, list) else x for x in c[1]))])
            return Ref(key, (), (0, len(c[1])))
        if k == "ref":
            key = ("const", "r" + repr(c[1:]))
            if key not in self.init:
                self.init[key] = self.const(st, c[1])
            to = self.P.types[self.P.types[c[2]]["to"]] if self.P.types[c[2]]["k"] in ("ref", "ptr") else None
            v = self.init[key]
            if isinstance(v, Ref) and to is not None and to["k"] in ("str", "slice"):
                return v
            return Ref(key)
        if k == "agg":
            t = self.P.types[c[3]]
            fs = [self.const(st, x) for x in c[2]]
            if t["k"] == "array":
                return Seq([("e", tuple(fs))])
            if t["k"] == "adt":
                if self.is_vec(c[3]):
                    return Seq([])
                if self.is_string(c[3]):
                    return Seq([], "chars")
                if len(t["variants"]) > 1:
                    return Enum(c[3], int(c[1]), {int(c[1]): tuple(fs)})
            return Agg(c[3], fs)
        if k in ("fn", "fnptr"):
            return Fn(c[1])
        if k == "zst":
            t = c[1] if len(c) > 1 else None
            return self.zst(t)
        if k == "static":
            return Opaque("static", str(c[1:]))
        return Opaque("const", str(c))

    def zst(self, ty):
        if isinstance(ty, int):
            t = self.P.types[ty]
            if t["k"] == "fndef":
                return Fn(t["inst"])
            if t["k"] == "closure":
                return Agg(ty, ())
            if t["k"] == "adt" and len(t["variants"]) > 1:
                for i, v in enumerate(t["variants"]):
                    return Enum(ty, i, {i: ()})
            if t["k"] == "adt" and t["variants"]:
                return Agg(ty, [self.zst(ft) for _, ft in t["variants"][0]["fields"]])
        return Agg(ty, ())

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if o[0] == "k":
            return self.const(st, o[1])
        if o[0] == "rt":
            return 1
        raise Unsupported("operand " + str(o[0]))

    # ------------------------------------------------------------ places
    def place_ref(self, st, fr, p):
        """reference to a place"""
        r = Ref((fr, p[0]))
        return self.project(st, fr, r, p[1])

    def project(self, st, fr, r, proj):
        for e in proj:
            if isinstance(r, GV):
                idx = proj.index(e)
                rest = proj[idx:]
                return combine(r.sel, [(c, self.project(st, fr, u, rest)) for c, u in r.cases],
                               None if r.default is None else self.project(st, fr, r.default, rest))
            k = e[0]
            if k == "*":
                v = self.load(st, r)
                if isinstance(v, GV):
                    idx = [i for i, x in enumerate(proj) if x is e][0]
                    rest = proj[idx + 1:]
                    cs = [(c, self.project(st, fr, u, rest)) for c, u in v.cases]
                    return combine(v.sel, cs, None if v.default is None else self.project(st, fr, v.default, rest))
                if isinstance(v, Ref):
                    r = v
                elif isinstance(v, Agg) and len(v.f) == 1:
                    r = v.f[0]      # Box-like wrapper
                elif isinstance(v, Opaque):
                    r = Ref(("op", v), (), None)
                    self.init.setdefault(("op", v), Opaque("deref", v))
                elif v is UNDEF:
                    raise Unsupported("dereference of an unset value")
                else:
                    raise Unsupported(f"dereference of {show(v)[:60]}")
            elif k == "f":
                r = Ref(r.key, r.path + (("f", e[1]),))
            elif k == "d":
                r = Ref(r.key, r.path + (("d", e[1]),))
            elif k == "i":
                i = self.read_place(st, fr, [e[1], []])
                r = self.at(r, i)
            elif k == "c":
                if e[3]:
                    n = r.meta[1] if r.meta is not None else self.seq_total(st, self.load(st, r))
                    i = tm.sub(n, e[1])
                else:
                    i = e[1]
                r = self.at(r, i)
            elif k == "s":
                n = r.meta[1] if r.meta is not None else self.seq_total(st, self.load(st, r))
                base = r.meta[0] if r.meta is not None else 0
                end = tm.sub(n, e[2]) if e[3] else e[2]
                r = Ref(r.key, r.path, (tm.add(base, e[1]), tm.sub(end, e[1])))
            else:
                raise Unsupported("projection " + str(k))
        return r

    def at(self, r, i):
        if r.meta is not None:
            i = tm.add(r.meta[0], i)
        return Ref(r.key, r.path + (("i", i),))

    def read_place(self, st, fr, p):
        r = self.place_ref(st, fr, p)
        v = self.load(st, r)
        return v

    def write_place(self, st, fr, p, v):
        if not p[1]:
            st.mem[(fr, p[0])] = v
            return
        r = self.place_ref(st, fr, p)
        if isinstance(r, Ref) and self.cell(st, r.key) is UNDEF and r.path:
            # first write to a field of an uninitialised aggregate
            ty = self.keyty.get(r.key)
            if ty is not None:
                st.mem[r.key] = self.blank(ty)
        self.store(st, r, v)

    def blank(self, ty):
        t = self.P.types[ty]
        if t["k"] == "tuple":
            return Agg(ty, [UNDEF] * len(t["elems"]))
        if t["k"] == "adt" and len(t["variants"]) == 1:
            return Agg(ty, [UNDEF] * len(t["variants"][0]["fields"]))
        raise Unsupported("partial initialisation")

    # ------------------------------------------------------------ rvalues
    def optype(self, fr, f, o):
        """type of an operand"""
        if o[0] in ("cp", "mv"):
            return self.place_type(f, o[1])
        if o[0] == "k":
            c = o[1]
            if c[0] in ("int", "float"):
                return c[2]
            if c[0] == "ref":
                return c[2]
            if c[0] == "agg":
                return c[3]
        return None

    def place_type(self, f, p):
        t = f["body"]["locals"][p[0]]
        var = None
        for e in p[1]:
            x = self.P.types[t]
            if e[0] == "*":
                t = x["to"] if x["k"] in ("ref", "ptr") else (x["args"][0] if x["k"] == "adt" and x["args"] else None)
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = x["elem"]
            elif e[0] == "d":
                var = e[1]
                continue
            if t is None:
                return None
        return t

    def numty(self, ty):
        if ty is None:
            return None
        t = self.P.types[ty]
        if t["k"] == "int":
            return (t["bits"], t["signed"])
        if t["k"] == "bool":
            return (1, False)
        if t["k"] == "char":
            return (32, False)
        if t["k"] == "float":
            return ("f", t["bits"])
        return None

    def binop(self, st, op, a, b, nt, checked=False):
        R = st.facts.rng
        if isinstance(a, (Ref, Fn)) or isinstance(b, (Ref, Fn)):
            if op in ("Eq", "Ne"):
                if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
                    return 1 if op == "Eq" else 0
            raise Unsupported("pointer comparison")
        if not scalar(a) or not scalar(b):
            raise Unsupported(f"{op} on {show(a)[:40]}, {show(b)[:40]}")
        if nt and nt[0] == "f":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return fcmp(op, a, b)
            return mk("f" + op, a, b)
        op0 = op.replace("WithOverflow", "").replace("Unchecked", "")
        B, S = nt if nt else (64, False)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return tm.cmp(op, a, b)
        if op0 in ("Add", "Sub", "Mul"):
            t = {"Add": tm.add, "Sub": tm.sub, "Mul": tm.mul}[op0](a, b)
            if checked:
                lo, hi = tm.trange(B, S)
                lt = tm.cmp("Lt", t, lo) if S or op0 != "Add" else 0
                gt = tm.cmp("Gt", t, hi) if S or op0 != "Sub" else 0
                return Agg(None, (t, bool_or(lt, gt)))
            if "Unchecked" in op:
                return t
            return tm.wrap(t, B, S, R)
        if op0 == "Div":
            return divt(a, b, R)
        if op0 == "Rem":
            return remt(a, b, R)
        if op0 == "BitAnd":
            return tm.band(a, b, B, S, R)
        if op0 == "BitOr":
            return tm.bor(a, b, B, S, R)
        if op0 == "BitXor":
            if B == 1:
                return tm.cmp("Ne", a, b)
            return tm.bor(a, b, B, S, R, op="xor")
        if op0 == "Shl":
            return tm.shl(a, st.facts.simp(b), B, S, R)
        if op0 == "Shr":
            return tm.shr(a, st.facts.simp(b), B, S, R)
        raise Unsupported("binary " + op)

    def rvalue(self, st, fr, f, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            return self.borrow(st, fr, f, r[1])
        if k == "addr":
            return self.borrow(st, fr, f, r[1])
        if k in ("bin", "cbin"):
            ty = self.optype(fr, f, r[2])
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.numty(ty), k == "cbin" or "WithOverflow" in r[1])
        if k == "un":
            v = self.operand(st, fr, r[2])
            ty = self.optype(fr, f, r[2])
            nt = self.numty(ty)
            if r[1] == "Not":
                if nt and nt[0] == 1:
                    return tm.sub(1, v)
                B, S = nt
                return tm.wrap(tm.sub(-1, v), B, S, st.facts.rng)
            if r[1] == "Neg":
                if nt[0] == "f":
                    return mk("fNeg", v)
                return tm.wrap(tm.neg(v), nt[0], nt[1], st.facts.rng)
            if r[1] == "PtrMetadata":
                if isinstance(v, Ref) and v.meta is not None:
                    return v.meta[1]
                raise Unsupported("pointer metadata")
            raise Unsupported("unary " + r[1])
        if k == "cast":
            return self.cast(st, fr, f, r)
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            return self.discr(v)
        if k == "len":
            rf = self.place_ref(st, fr, r[1])
            if isinstance(rf, Ref) and rf.meta is not None:
                return rf.meta[1]
            return self.seq_total(st, self.load(st, rf))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = int(r[2])
            if n > 4096:
                raise Unsupported("large repeat")
            return Seq([("e", (v,) * n)])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[3]]
            if r[1] == "array":
                return Seq([("e", tuple(ops))])
            if r[1] == "adt":
                t = self.P.types[r[4]]
                if len(t["variants"]) > 1:
                    return Enum(r[4], r[2], {r[2]: tuple(ops)})
                return Agg(r[4], ops)
            if r[1] in ("tuple", "closure"):
                return Agg(r[4], ops)
            raise Unsupported("aggregate " + r[1])
        raise Unsupported("rvalue " + k)

    def discr(self, v):
        if isinstance(v, GV):
            return combine(v.sel, [(c, self.discr(u)) for c, u in v.cases], None if v.default is None else self.discr(v.default))
        if isinstance(v, Enum):
            vs = self.P.types[v.ty]["variants"] if isinstance(v.ty, int) else None
            if vs is None:
                return v.disc
            ds = [int(x["discr"]) for x in vs]
            if ds == list(range(len(ds))):
                return v.disc
            if isinstance(v.disc, int):
                return ds[v.disc]
            return tm.select(v.disc, [(i, d) for i, d in enumerate(ds)], None)
        if isinstance(v, Agg):
            return 0
        raise Unsupported(f"discriminant of {show(v)[:60]}")

    def borrow(self, st, fr, f, p):
        if p[1] and p[1][-1][0] == "*":
            # reborrow: keep slice metadata
            base = self.place_ref(st, fr, [p[0], p[1][:-1]])
            v = self.load(st, base)
            if isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            return v
        return self.place_ref(st, fr, p)

    def cast(self, st, fr, f, r):
        kind, to = r[1], r[3]
        v = self.operand(st, fr, r[2])
        src = self.optype(fr, f, r[2])
        if kind == "IntToInt":
            nt = self.numty(to)
            if isinstance(v, Enum):
                v = self.discr(v)
            if not scalar(v):
                raise Unsupported("conversion of an unmodelled value")
            return tm.wrap(v, nt[0], nt[1], st.facts.rng)
        if kind == "IntToFloat":
            return mk("i2f", v, self.P.types[to]["bits"])
        if kind == "FloatToInt":
            nt = self.numty(to)
            return mk("f2i", nt[0], nt[1], v)
        if kind == "FloatToFloat":
            a, b = self.P.types[src]["bits"] if src is not None else 0, self.P.types[to]["bits"]
            return fconv(v, a, b)
        if kind.startswith("PointerCoercion:Unsize"):
            tt = self.P.types[to]
            if tt["k"] in ("ref", "ptr") and self.P.types[tt["to"]]["k"] == "slice":
                return self.unsize(st, v)
            return v
        if kind == "PtrToPtr" and src is not None and isinstance(v, Ref):
            s, d = self.P.types[src], self.P.types[to]
            if s["k"] in ("ptr", "ref") and d["k"] in ("ptr", "ref"):
                x, y = self.P.types[s["to"]], self.P.types[d["to"]]
                if x["k"] == "int" and y["k"] == "int" and y["bits"] < x["bits"]:
                    # the first bytes of an integer in memory (the host is little endian)
                    key = ("view", v.key, v.path, y["bits"])
                    self.init[key] = tm.bits(tm.wrap(self.load(st, v), x["bits"], False), 0, y["bits"])
                    return Ref(key)
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr"):
            return v
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            return self.fresh("addr", 1, (1 << 64) - 1)
        if kind == "Transmute":
            sn, tn = self.numty(src), self.numty(to)
            if sn and tn and sn[0] != "f" and tn[0] != "f":
                return tm.wrap(v, tn[0], tn[1], st.facts.rng)
            if isinstance(v, Ref) and tn and tn[0] != "f":
                return self.fresh("addr", 1, (1 << 64) - 1)
            if isinstance(v, (Ref,)):
                return v
            if isinstance(v, T) and sn and tn:
                if sn[0] == "f" and sn[1] == tn[0] and not tn[1]:
                    return self.models.mk_bits(v, sn[1])
                if tn[0] == "f":
                    return mk("fbits", v, tn[1])
            raise Unsupported("transmute")
        raise Unsupported("cast " + kind)

    def unsize(self, st, v):
        if isinstance(v, GV):
            return combine(v.sel, [(c, self.unsize(st, u)) for c, u in v.cases], None if v.default is None else self.unsize(st, v.default))
        if isinstance(v, Ref) and v.meta is None:
            return Ref(v.key, v.path, (0, self.seq_total(st, self.load(st, v))))
        return v

    # ------------------------------------------------------------ decisions
    def decide(self, st, t):
        if isinstance(t, int):
            return t
        r = st.facts.rng(t)
        if r[0] == r[1]:
            return int(r[0])
        if tm.base_range(t) == (0, 1):
            p = st.facts.prove(t)
            if p is not None:
                return int(p)
        return None

    def canon_sel(self, t, groups):
        """(selector, [(outcome set, target)]) with a canonical selector; groups: [(set of values | None, target)]"""
        if isinstance(t, T) and t.op == "lin":
            c, ms = t.args
            if len(ms) == 1 and ms[0][1] in (1, -1):
                k = ms[0][1]
                g2 = [(None if vs is None else {(v - c) * k for v in vs}, tg) for vs, tg in groups]
                return self.canon_sel(ms[0][0], g2)
        if isinstance(t, T) and t.op == "gamma" and all(isinstance(u, int) for _, u in t.args[1]) and (t.args[2] is None or isinstance(t.args[2], int)):
            x, cs, d = t.args
            listed = {v for vs, _ in groups if vs is not None for v in vs}
            out = []
            for vs, tg in groups:
                inn = {c for c, u in cs if (u in vs if vs is not None else u not in listed)}
                dflt = d is not None and (d in vs if vs is not None else d not in listed)
                if dflt:
                    out.append((("out", frozenset(c for c, _ in cs if c not in inn)), tg))
                elif inn:
                    out.append((("in", frozenset(inn)), tg))
            return self.canon_osets(x, out)
        out = []
        listed = frozenset(v for vs, _ in groups if vs is not None for v in vs)
        for vs, tg in groups:
            out.append((("in", frozenset(vs)) if vs is not None else ("out", listed), tg))
        return self.canon_osets(t, out)

    def canon_osets(self, x, out):
        if isinstance(x, T) and x.op == "lin":
            c, ms = x.args
            if len(ms) == 1 and ms[0][1] in (1, -1):
                k = ms[0][1]
                return self.canon_osets(ms[0][0], [((o[0], frozenset((v - c) * k for v in o[1])), tg) for o, tg in out])
        if isinstance(x, T) and x.op == "gamma" and all(isinstance(u, int) for _, u in x.args[1]) and (x.args[2] is None or isinstance(x.args[2], int)):
            y, cs, d = x.args
            res = []
            for o, tg in out:
                ok = (lambda v: v in o[1]) if o[0] == "in" else (lambda v: v not in o[1])
                inn = {c for c, u in cs if ok(u)}
                if d is not None and ok(d):
                    res.append((("out", frozenset(c for c, _ in cs if c not in inn)), tg))
                elif inn:
                    res.append((("in", frozenset(inn)), tg))
            return self.canon_osets(y, res)
        e = tm.eq_const(x)
        if e is not None:
            res = []
            for o, tg in out:
                ok = (lambda v: v in o[1]) if o[0] == "in" else (lambda v: v not in o[1])
                if ok(1) and ok(0):
                    res.append((("out", frozenset()), tg))
                elif ok(1):
                    res.append((("in", frozenset({e[1]})), tg))
                elif ok(0):
                    res.append((("out", frozenset({e[1]})), tg))
            return self.canon_osets(e[0], res)
        rng = tm.base_range(x)
        return x, [(oset_norm(o, rng), tg) for o, tg in out]

    def restrict(self, st, sel, o):
        """assume the outcome; returns False if impossible"""
        F = st.facts
        if isinstance(sel, int):
            return (sel in o[1]) == (o[0] == "in")
        if o[0] == "in":
            if not o[1]:
                return False
            lo, hi = F.rng(sel)
            vs = [v for v in o[1] if lo <= v <= hi and v not in F.ne.get(sel, ())]
            if not vs:
                return False
            if tm.base_range(sel) == (0, 1):
                if len(vs) == 1:
                    F.assume(sel, vs[0])
                return not F.bot
            F.set_iv(sel, min(vs), max(vs))
            if len(vs) < max(vs) - min(vs) + 1 and max(vs) - min(vs) < 4096:
                for v in range(min(vs), max(vs) + 1):
                    if v not in vs:
                        F.add_ne(sel, v)
        else:
            for v in sorted(o[1]):
                F.add_ne(sel, v)
        if not F.bot:
            lo, hi = F.rng(sel)
            if lo > hi:
                return False
        return not F.bot

    def fork(self, st, t, groups):
        """[(target, state)] for the feasible outcomes of term t"""
        if isinstance(t, GV):
            raise Unsupported("decision on an unstructured value")
        d = self.decide(st, t)
        if d is not None:
            for vs, tg in groups:
                if vs is not None and d in vs:
                    return [(tg, st)]
            for vs, tg in groups:
                if vs is None:
                    return [(tg, st)]
            return []
        sel, outs = self.canon_sel(t, groups)
        # one entry per target
        by = {}
        for o, tg in outs:
            by[tg] = oset_union(by[tg], o) if tg in by else o
        res = []
        for tg, o in by.items():
            s = st.copy()
            if self.restrict(s, sel, o):
                res.append((tg, s, o))
        if len(res) == 1:
            return [(res[0][0], res[0][1])]
        for tg, s, o in res:
            s.guard = s.guard + ((sel, o),)
        return [(tg, s) for tg, s, o in res]

    def branch(self, st, cond):
        """(true state | None, false state | None)"""
        r = dict(self.fork(st, cond, [({1}, True), (None, False)]))
        return r.get(True), r.get(False)

    # ------------------------------------------------------------ merging
    def merge(self, sts, memo=None):
        if len(sts) == 1:
            return sts[0]
        if memo is None:
            memo = {}
        key = tuple((id(s.mem), s.guard) for s in sts)
        r = memo.get(key)
        if r is None:
            r = memo[key] = (self.merge_states(sts, memo), sts)
        return r[0].copy()

    def merge_states(self, sts, memo):
        self.merges += 1
        n = 0
        while all(len(s.guard) > n for s in sts) and all(s.guard[n] == sts[0].guard[n] for s in sts):
            n += 1
        sel = None
        for s in sts:
            if len(s.guard) > n:
                sel = self.first_sel(s.guard[n])
                break
        if sel is None:
            return self.choice(sts, n)
        outs, vals = [], set()
        for s in sts:
            for x, o in s.guard[n:]:
                if x is sel:
                    if o not in outs:
                        outs.append(o)
                else:
                    self.outcomes(x, sel, vals, set())
        for v in sorted(vals):
            outs.append(oset_in(v))
        if vals:
            rest = oset_norm(("out", frozenset(vals)), tm.base_range(sel))
            if rest[0] == "out" or rest[1]:
                outs.append(rest)
        # outcomes of the selector that some state distinguishes
        if any(self.overlap(outs[i], outs[j]) for i in range(len(outs)) for j in range(i)):
            outs = self.atoms_of(outs, sel)
        if outs is None or len(outs) < 2:
            return self.choice(sts, n)
        groups = []
        for o in outs:
            g, memo2 = [], {}
            for s in sts:
                guard = self.cofactor(s.guard, n, sel, o, memo2)
                if guard is None:
                    continue
                t = State()
                t.mem, t.facts, t.trace, t.ret = s.mem, s.facts, s.trace, s.ret
                t.guard = guard
                g.append(t)
            if g:
                if len(g) == len(sts) and all(a.guard == b.guard for a, b in zip(g, sts)):
                    return self.choice(sts, n)
                groups.append((o, g))
        if len(groups) == 1:
            return self.choice(sts, n) if len(groups[0][1]) > 1 else groups[0][1][0]
        ms = [(o, self.merge(g, memo) if len(g) > 1 else g[0]) for o, g in groups]
        r = self.join(sel, ms)
        u = ms[0][0]
        for o, _ in ms[1:]:
            u = oset_union(u, o)
        r.guard = sts[0].guard[:n]
        conds = [(o, self.conj(m.guard[n:])) for o, m in ms]
        if all(c == 1 for _, c in conds):
            if not oset_full(u, tm.base_range(sel)):
                r.guard += ((sel, u),)
        else:
            c = self.by_outcome(sel, conds, 0 if not oset_full(u, tm.base_range(sel)) else None)
            if c is not None and not isinstance(c, int):
                r.guard += (self.decision(c, oset_in(1)),)
        return r

    def decision(self, sel, o):
        """a path condition with its selector in canonical form"""
        if isinstance(sel, T) and sel.op in ("lin", "eq0"):
            x, out = self.canon_osets(sel, [(o, None)])
            if out:
                return x, out[0][0]
        return sel, o

    @staticmethod
    def first_sel(g):
        """the selector a path condition decides on first"""
        sel, o = g
        while isinstance(sel, T) and sel.op == "gamma" and tm.base_range(sel) == (0, 1):
            sel = sel.args[0]
        return sel

    def outcomes(self, t, sel, vals, seen):
        """the values of a selector that a decision distinguishes"""
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "gamma":
            x, cs, d = t.args
            if x is sel:
                vals.update(v for v, _ in cs)
            else:
                self.outcomes(x, sel, vals, seen)
            for _, u in cs:
                self.outcomes(u, sel, vals, seen)
            self.outcomes(d, sel, vals, seen)
        elif t.op == "lin":
            for a, _ in t.args[1]:
                self.outcomes(a, sel, vals, seen)
        elif t.op == "eq0":
            e = tm.eq_const(t)
            if e is not None and e[0] is sel:
                vals.add(e[1])
            else:
                self.outcomes(t.args[0], sel, vals, seen)

    def cofactor(self, guard, n, sel, o, memo):
        """a guard under a decided selector; None if it can not hold"""
        out = list(guard[:n])
        for s, q in guard[n:]:
            if s is sel:
                if not self.overlap(q, o):
                    return None
                continue
            try:
                u = self.cofactor_term(s, sel, o, memo)
            except Impossible:
                return None
            if isinstance(u, int):
                if (u in q[1]) != (q[0] == "in"):
                    return None
                continue
            out.append(self.decision(u, q) if u is not s else (u, q))
        return tuple(out)

    def cofactor_term(self, t, sel, o, memo):
        if not isinstance(t, T) or t.op not in ("gamma", "lin", "eq0"):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = self._cofactor(t, sel, o, memo)
        return r

    def _cofactor(self, t, sel, o, memo):
        C = lambda u: self.cofactor_term(u, sel, o, memo)
        if t.op == "lin":
            na = [(C(a), k) for a, k in t.args[1]]
            if all(x is y for (x, _), (y, _) in zip(na, t.args[1])):
                return t
            r = t.args[0]
            for a, k in na:
                r = tm.addk(r, a, k)
            return r
        if t.op == "eq0":
            e = tm.eq_const(t)
            if e is not None and e[0] is sel:
                if not self.overlap(o, oset_in(e[1])):
                    return 0
                return 1 if o == oset_in(e[1]) else t
            x = C(t.args[0])
            return t if x is t.args[0] else tm.eq0(x)
        x, cs, d = t.args
        if x is sel:
            live = []
            for v, u in cs:
                if (v in o[1]) == (o[0] == "in"):
                    live.append(u)
            if d is not None and not (o[0] == "in" and all(any(v == w for w, _ in cs) for v in o[1])):
                live.append(d)
            if not live:
                raise Impossible
            if all(u is live[0] or u == live[0] for u in live):
                return C(live[0])
            return t
        x2 = C(x)
        return tm.select(x2, [(v, C(u)) for v, u in cs], None if d is None else C(d))

    def atoms_of(self, outs, sel):
        """a partition that refines overlapping outcome sets"""
        vals = set()
        for o in outs:
            vals |= o[1]
        if len(vals) > 64:
            return None
        r = [oset_in(v) for v in sorted(vals)]
        rest = oset_norm(("out", frozenset(vals)), tm.base_range(sel))
        if rest[0] == "out" or rest[1]:
            r.append(rest)
        return [a for a in r if any(self.overlap(a, o) for o in outs)]

    def conj(self, g):
        """a conjunction of decisions as a term"""
        r = 1
        for sel, o in reversed(g):
            if o == oset_in(1) and tm.base_range(sel) == (0, 1) and r == 1:
                r = sel
                continue
            r = self.by_outcome(sel, [(o, r)], 0)
            if r is None:
                return 1
        return r

    def by_outcome(self, sel, conds, other):
        cases, default = [], other
        for o, c in conds:
            if o[0] == "out":
                default = c
                listed = {v for p, _ in conds if p[0] == "in" for v in p[1]}
                cases += [(v, other if other is not None else 0) for v in o[1] if v not in listed]
        for o, c in conds:
            if o[0] == "in":
                if len(o[1]) > 256:
                    return None
                cases += [(v, c) for v in o[1]]
        return tm.select(sel, cases, default)

    @staticmethod
    def overlap(a, b):
        if a[0] == "in" and b[0] == "in":
            return bool(a[1] & b[1])
        if a[0] == "out" and b[0] == "out":
            return True
        if a[0] == "out":
            a, b = b, a
        return bool(a[1] - b[1])

    def choice(self, sts, n):
        """merge states that no recorded decision separates"""
        sel = self.fresh("choice", 0, len(sts) - 1)
        r = self.join(sel, [(oset_in(i), s) for i, s in enumerate(sts)])
        r.guard = sts[0].guard[:n]
        return r

    def join(self, sel, ms):
        r = State()
        keys = set()
        for _, s in ms:
            keys |= s.mem.keys()
        m0 = ms[0][1].mem
        for k in keys:
            vs = []
            skip = False
            for o, s in ms:
                v = s.mem.get(k)
                if v is None:
                    v = self.init.get(k)
                    if v is None:
                        skip = True
                        break
                vs.append((o, v))
            if skip:
                continue
            v0 = vs[0][1]
            if all(v is v0 for _, v in vs):
                r.mem[k] = v0
            else:
                r.mem[k] = merge_values(sel, vs)
        r.facts = tm.join_facts([s.facts for _, s in ms])
        self.join_gamma_facts(r, sel, ms, keys)
        r.trace = merge_traces(sel, [(o, s.trace) for o, s in ms])
        rets = [(o, s.ret) for o, s in ms]
        if any(v is not None for _, v in rets):
            r.ret = merge_values(sel, [(o, UNDEF if v is None else v) for o, v in rets])
        return r

    def join_gamma_facts(self, r, sel, ms, keys):
        """bounds of scalars that became decisions: keep the hull over the arms"""
        for k in keys:
            v = r.mem.get(k)
            if isinstance(v, T):
                lo = hi = None
                for _, s in ms:
                    x = s.mem.get(k, self.init.get(k))
                    if not scalar(x):
                        lo = None
                        break
                    a, b = s.facts.rng(x)
                    lo = a if lo is None else min(lo, a)
                    hi = b if hi is None else max(hi, b)
                if lo is not None:
                    br = r.facts.rng(v)
                    if lo > br[0] or hi < br[1]:
                        if v.op not in ("lin",) or True:
                            r.facts.iv[v] = (max(lo, br[0]), min(hi, br[1]))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, fn, span, ok, msg, detail=None, cond=0):
        """cond: what holds if it does not fail"""
        if not self.recording:
            return
        key = (kind, fn, span, msg)
        if not ok and self.failed is not None and len(self.failed) < 4000:
            self.failed.append((key, st.copy(), cond))
        o = self.obligs.get(key)
        if o is None:
            self.obligs[key] = Oblig(kind, fn, span, ok, msg, detail)
        elif not ok and o.ok:
            o.ok = False
            o.detail = detail

    # ------------------------------------------------------------ calls
    def call(self, st, inst, args, dest_ty, span, caller):
        """[(state, value)] of calling an instance"""
        f = self.P.fns.get(inst)
        if f is None:
            raise Unsupported(f"call of unknown instance {inst}")
        h = self.prims.get(f["path"]) if f["path"] in self.prims else None
        if h is not None:
            r = h(self, st, f, args, span)
            if r is not None:
                return r
        r = self.models.model(self, st, f, args, dest_ty, span, caller)
        if r is not None:
            return r
        if f["body"] is None:
            self.unknown.append((f["name"], span))
            raise Unsupported(f"call of {f['name']} at {span}")
        if inst in self.stack:
            raise Unsupported(f"recursion into {f['name']}")
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        return self.inline(st, f, args)

    def inline(self, st, f, args):
        self.frames += 1
        fr = self.frames
        self.functions.add(f["id"])
        b = f["body"]
        if b.get("spread") is not None and len(args) != b["argc"]:
            pass
        if len(args) != b["argc"]:
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == b["argc"]:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsupported(f"argument shape of {f['name']}")
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
            self.keyty[(fr, i + 1)] = b["locals"][i + 1]
        for i, t in enumerate(b["locals"]):
            self.keyty[(fr, i)] = t
        st.mem[(fr, 0)] = self.unit_of(b["locals"][0])
        base = st.guard
        self.stack.append(f["id"])
        try:
            rets, backs, exits = self.run(fr, f, 0, st, None, None)
        except Unsupported as e:
            if e.where is None:
                e.where = [self.P.fns[i]["path"] for i in self.stack]
            raise
        finally:
            self.stack.pop()
        for s in rets:
            s.ret = s.mem.get((fr, 0), UNDEF)
            for k in [k for k in s.mem if k[0] == fr]:
                del s.mem[k]
        return self.group_returns(rets, base)

    def unit_of(self, ty):
        t = self.P.types[ty]
        if t["k"] == "tuple" and not t["elems"]:
            return Agg(ty, ())
        if t["k"] == "adt" and len(t["variants"]) == 1 and not t["variants"][0]["fields"]:
            return Agg(ty, ())
        return UNDEF

    def group_returns(self, rets, base):
        """merge the return states, one group per variant of a returned enum"""
        if not rets:
            return []
        if len(rets) == 1:
            s = rets[0]
            v, s.ret = s.ret, None
            return [(s, v)]
        if all(isinstance(s.ret, Enum) and isinstance(s.ret.disc, int) for s in rets) and len({s.ret.disc for s in rets}) > 1:
            # the variant of the result as a decision term
            saved = []
            for s in rets:
                t = State()
                t.guard = s.guard
                t.mem = {"d": s.ret.disc}
                saved.append(t)
            m = self.merge(saved)
            R = m.mem["d"]
            out = []
            discs = sorted({s.ret.disc for s in rets})
            if isinstance(R, T):
                sel, osets = self.canon_sel(R, [({d}, d) for d in discs])
                omap = {}
                for o, d in osets:
                    omap[d] = oset_union(omap[d], o) if d in omap else o
                by = {d: [s for s in rets if s.ret.disc == d] for d in discs}
                for d in discs:
                    g = by[d]
                    s = self.merge(g)
                    if d in omap:
                        s = s if len(g) > 1 else s
                        if not self.restrict(s, sel, omap[d]):
                            continue
                        s.guard = base + ((sel, omap[d]),)
                    else:
                        s.guard = base
                    v, s.ret = s.ret, None
                    out.append((s, v))
                return out
        s = self.merge(rets)
        s.guard = base if len(s.guard) >= len(base) else s.guard
        v, s.ret = s.ret, None
        return [(s, v)]

    def call_value(self, st, fv, args, dest_ty, span, caller):
        """call a function value with unpacked arguments"""
        if isinstance(fv, Fn):
            return self.call(st, fv.inst, args, dest_ty, span, caller)
        if isinstance(fv, Ref):
            v = self.load(st, fv)
            if isinstance(v, Agg) and isinstance(v.ty, int) and self.P.types[v.ty]["k"] == "closure":
                return self.call_closure(st, v, fv, args, dest_ty, span, caller)
            return self.call_value(st, v, args, dest_ty, span, caller)
        if isinstance(fv, Agg) and isinstance(fv.ty, int) and self.P.types[fv.ty]["k"] == "closure":
            return self.call_closure(st, fv, None, args, dest_ty, span, caller)
        raise Unsupported(f"call of {show(fv)[:60]}")

    def call_closure(self, st, v, ref, args, dest_ty, span, caller):
        inst = self.P.types[v.ty]["inst"]
        f = self.P.fns.get(inst)
        if f is None or f["body"] is None:
            raise Unsupported("closure without body")
        t0 = self.P.types[f["body"]["locals"][1]]
        if t0["k"] == "ref":
            if ref is None:
                self.frames += 1
                key = ("clo", self.frames)
                st.mem[key] = v
                ref = Ref(key)
            a0 = ref
        else:
            a0 = v
        n = f["body"]["argc"] - 1
        if len(args) != n and len(args) == 1 and isinstance(args[0], Agg):
            args = list(args[0].f)
        return self.call(st, inst, [a0] + list(args), dest_ty, span, caller)

    # ------------------------------------------------------------ control flow
    def pure_exit(self, f, b, memo={}):
        """is block b only a path to the return?"""
        k = (id(self.P), f["id"], b)
        if k in memo:
            return memo[k]
        seen = set()
        x = b
        while True:
            if x in seen:
                r = False
                break
            seen.add(x)
            stmts, t = f["body"]["blocks"][x]
            if any(s[0] == "=" for s in stmts):
                r = False
                break
            if t[0] == "ret":
                r = True
                break
            if t[0] == "goto":
                x = t[1]
            elif t[0] == "drop":
                x = t[2]
            else:
                r = False
                break
        memo[k] = r
        return r

    def preds(self, f, memo={}):
        k = (id(self.P), f["id"])
        if k not in memo:
            blocks = f["body"]["blocks"]
            loops, idx = self.P.loops(f["id"], f["body"])
            c = {}
            for b in idx:
                for s in set(self.P.succs(blocks[b][1])):
                    c[s] = c.get(s, 0) + 1
            memo[k] = c
        return memo[k]

    def run(self, fr, f, entry, st, region, header):
        """propagate st from entry through the (sub)graph; loops inside are summarised.
        returns (return states, states on edges back to header, [(block, state)] leaving region)"""
        blocks = f["body"]["blocks"]
        loops, idx = self.P.loops(f["id"], f["body"])
        npred = self.preds(f)
        pending = {entry: [st]}
        rets, backs, exits = [], [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: idx[x])
            sts = [s for s in pending.pop(b) if not s.facts.bot]
            if not sts:
                continue
            is_loop = b in loops and not (b == header and first)
            if len(sts) > 1 and (is_loop or (npred.get(b, 0) > 1 and not self.pure_exit(f, b))):
                sts = [self.merge(sts)]
            first = False
            for s in sts:
                if is_loop:
                    for tb, s2 in self.loop(fr, f, b, s, loops[b]):
                        self.route(tb, s2, region, header, pending, backs, exits)
                    continue
                for tb, s2 in self.block(fr, f, b, s):
                    if tb is None:
                        rets.append(s2)
                    else:
                        self.route(tb, s2, region, header, pending, backs, exits)
        return rets, backs, exits

    @staticmethod
    def route(tb, s, region, header, pending, backs, exits):
        if header is not None and tb == header:
            backs.append(s)
        elif region is not None and tb not in region:
            exits.append((tb, s))
        else:
            pending.setdefault(tb, []).append(s)

    def block(self, fr, f, b, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted")
        self.blocks_seen.add((f["id"], b))
        stmts, t = f["body"]["blocks"][b]
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, f, s[2], s[1])
                if isinstance(v, Agg) and v.ty is None:
                    v = Agg(self.place_type(f, s[1]), v.f)
                self.write_place(st, fr, s[1], v)
            elif k == "dead":
                st.mem.pop((fr, s[1]), None)
            elif k == "sd":
                r = self.place_ref(st, fr, s[1])
                v = self.load(st, r)
                if isinstance(v, Enum):
                    self.store(st, r, Enum(v.ty, s[2], v.pay))
                else:
                    raise Unsupported("set discriminant")
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, Enum):
                v = self.discr(v)
            if not scalar(v):
                raise Unsupported(f"switch on {show(v)[:60]}")
            groups = {}
            nt = self.numty(t[5]) if len(t) > 5 and isinstance(t[5], int) else None
            for val, tb in t[2]:
                x = int(val)
                if nt and nt[1] is True and x >> (nt[0] - 1):
                    x -= 1 << nt[0]
                groups.setdefault(tb, set()).add(x)
            gl = [(vs, tb) for tb, vs in groups.items()]
            ot = t[3]
            oblk = f["body"]["blocks"][ot]
            if ot in groups:
                # a listed target is also the otherwise target: the listed values join the rest
                gl = [(vs, tb) for vs, tb in gl if tb != ot]
            gl.append((None, ot))
            res = self.fork(st, v, gl)
            return [(tb, s) for tb, s in res if not (f["body"]["blocks"][tb][1][0] == "unreachable" and not f["body"]["blocks"][tb][0])]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = 1 if t[2] in (True, 1, "true") else 0
            cond = c if want else tm.sub(1, c)
            p = st.facts.prove(cond) if scalar(cond) else None
            self.oblige(st, "assert", f["path"], t[6], p is True, t[3], None if p else show(cond)[:300], cond)
            if p is False:
                return []
            if p is None:
                st.facts.assume(cond, 1)
                if st.facts.bot:
                    return []
            return [(t[5], st)]
        if k == "drop":
            d = t[3]
            if d is not None:
                g = self.P.fns.get(d)
                if g is not None and g["local"] and g["kind"] == "item":
                    raise Unsupported("local Drop implementation")
            return [(t[2], st)]
        if k == "call":
            return self.term_call(fr, f, t, st)
        if k in ("unreachable",):
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def term_call(self, fr, f, t, st):
        args = [self.operand(st, fr, o) for o in t[2]]
        dty = self.place_type(f, t[3])
        span = t[5]
        fo = t[1]
        if fo[0] == "k" and fo[1][0] == "fn":
            g = self.P.fns.get(fo[1][1])
            if g is not None and self.models.is_closure(g) and len(args) == 2 and isinstance(args[1], Agg):
                # the closure ABI passes the arguments as one tuple
                if isinstance(args[0], Ref):
                    res = self.call_value(st, args[0], list(args[1].f), dty, span, f)
                else:
                    res = self.call(st, fo[1][1], [args[0]] + list(args[1].f), dty, span, f)
            else:
                res = self.call(st, fo[1][1], args, dty, span, f)
        else:
            fv = self.operand(st, fr, fo)
            res = self.call_value(st, fv, args, dty, span, f)
        out = []
        for s, v in res:
            if t[4] is None:
                continue
            self.write_place(s, fr, t[3], v)
            out.append((t[4], s))
        return out

    # ------------------------------------------------------------ loops
    def loop(self, fr, f, h, st, region):
        """[(block, state)] after the loop with header h"""
        blocks = f["body"]["blocks"]

        def body(s):
            rets, backs, exits = self.run(fr, f, h, s, region, h)
            if rets:
                raise Unsupported("return inside a loop body")
            return backs, exits

        # bounded unrolling when the first exit decision is concrete
        loops, idx = self.P.loops(f["id"], f["body"])
        exit_blocks = sorted((b for b in region if any(x not in region for x in self.P.succs(blocks[b][1])
                                                         if not (blocks[x][1][0] == "unreachable" and not blocks[x][0]))), key=lambda b: idx[b])
        if exit_blocks:
            r = self.try_unroll(fr, f, h, st, region, body, exit_blocks[0])
            if r is not None:
                return r
        where = (f["path"], h, blocks[h][1][-2] if False else self.block_span(f, h))
        return self.summarise(st, body, where)

    def block_span(self, f, h):
        stmts, t = f["body"]["blocks"][h]
        for s in stmts:
            if s[0] == "=":
                return s[3]
        for x in reversed(t):
            if isinstance(x, str) and ":" in x:
                return x
        return "?"

    def try_unroll(self, fr, f, h, st, region, body, eb):
        """unroll while the decision in block eb is concrete"""
        outs = []
        cur = st
        rec, self.recording = self.recording, False
        saved_ob = dict(self.obligs)
        try:
            for it in range(self.unroll):
                seen = self.probe(fr, f, h, cur.copy(), region, eb)
                if seen is None or (it == 0 and seen == "both"):
                    return None
                if seen == "both":
                    return None
                self.recording = rec
                backs, exits = body(cur)
                self.recording = False
                outs += exits
                if not backs:
                    return outs
                cur = self.merge(backs)
            return None
        except Unsupported:
            raise
        finally:
            self.recording = rec

    def probe(self, fr, f, h, st, region, eb):
        """how does the branch at the end of block eb go in this state? 'in' | 'out' | 'both' | None"""
        blocks = f["body"]["blocks"]
        res = set()
        orig = self.block
        me = self

        class Stop(Exception):
            pass

        def blk(fr2, f2, b2, s2):
            if fr2 == fr and b2 == eb:
                r = orig(fr2, f2, b2, s2)
                for tb, s in r:
                    res.add("in" if tb in region else "out")
                return []
            return orig(fr2, f2, b2, s2)

        self.block = blk
        try:
            self.run(fr, f, h, st, region, h)
        finally:
            self.block = orig
        if not res:
            return None
        if len(res) > 1:
            return "both"
        return res.pop()

    def summarise(self, st, body, where):
        """generic loop summary; body(state) -> (back states, [(tag, state)])"""
        self.fresh_n += 1
        lid = self.fresh_n
        n = mk("var", f"n~{lid}", 0, NMAX)
        base_guard, base_trace = st.guard, st.trace
        rec, self.recording = self.recording, False
        W = {}     # (key, path) -> [kind, data]
        loops0 = dict(self.loops)
        try:
            for _ in range(40):
                H = self.havoc(st, W, lid, n)
                backs, exits = body(H.copy())
                backs = [b for b in backs if not b.facts.bot]
                if not backs:
                    B = None
                    break
                B = self.merge(backs)
                if not self.widen(st, H, B, W, lid, n):
                    break
            else:
                raise Unsupported("loop summary does not stabilise")
            inv = []
            if B is not None:
                inv = self.invariants(st, W, lid, n, body)
            # final pass
            self.recording = rec
            H = self.havoc(st, W, lid, n)
            for t in inv:
                H.facts.add_le(t)
            Hc = H.copy()
            backs, exits = body(H)
            backs = [b for b in backs if not b.facts.bot]
        finally:
            self.recording = rec
        d = LoopDesc(lid, where)
        d.n = n
        d.total = mk("var", f"N~{lid}", 0, NMAX)
        d.head = Hc
        d.inv = inv
        if backs:
            d.back = self.merge(backs)
            d.body = d.back.trace
            for (key, path), w in W.items():
                hv = self.read_path(Hc, self.cell(Hc, key), path)
                nv = self.read_path(d.back, self.cell(d.back, key), path)
                iv = self.read_path(st, self.cell(st, key), path)
                d.phis.append((key, path, w[0], iv, hv, nv))
        self.loops[lid] = d
        out = []
        closed = self.closed_seqs(d, W) if backs else {}
        many = len(exits) > 1
        for k, (tag, s) in enumerate(exits):
            if s.facts.bot:
                continue
            d.exits.append((tag, s.copy(), s.guard[len(base_guard):]))
            g = self.leave(s, d, closed)
            g.trace = base_trace + ((("loop", lid),) if d.body or True else ()) + vtrace(lambda t: tm.subst(t, {d.n: d.total}), g.trace)
            g.guard = base_guard + (((mk("var", f"exit~{lid}", 0, len(exits) - 1), oset_in(k)),) if many else ())
            if many:
                g.facts.set_iv(mk("var", f"exit~{lid}", 0, len(exits) - 1), k, k)
            out.append((tag, g))
        return out

    def havoc(self, st, W, lid, n):
        H = st.copy()
        H.trace = ()
        for (key, path), w in W.items():
            kind = w[0]
            iv = self.read_path(st, self.cell(st, key), path)
            if kind == "lin":
                v = tm.add(iv, tm.scale(n, w[1]))
            elif kind == "phi":
                v = w[1]
            elif kind == "append":
                v = Seq(list(iv.segs) + [("P", (lid, key, path), tm.scale(n, w[1]) if w[1] is not None else w[2], w[3])], iv.kind, iv.upds)
            elif kind == "val":
                v = w[1]
            H.mem[key] = self.write_path(H, self.cell(H, key), path, v)
        H.facts.set_iv(n, 0, NMAX)
        return H

    def widen(self, st, H, B, W, lid, n):
        """record what the body changes; True if something new was found"""
        new = {}
        for key in set(H.mem) | set(B.mem):
            if key not in B.mem:
                continue
            hv = self.cell(H, key)
            if key not in H.mem and key not in self.init:
                continue    # created inside the body, dead afterwards
            bv = B.mem[key]
            if hv is bv:
                continue
            self.diff(st, key, (), hv, bv, self.cell(st, key), W, new, lid, n)
        if not new:
            return False
        for k, w in new.items():
            # drop finer entries below a coarser one
            for k2 in [k2 for k2 in W if k2[0] == k[0] and len(k2[1]) > len(k[1]) and k2[1][:len(k[1])] == k[1]]:
                del W[k2]
            W[k] = w
        return True

    def diff(self, st, key, path, hv, bv, iv, W, new, lid, n):
        w = W.get((key, path))
        if w is not None:
            if w[0] == "lin":
                if scalar(bv) and same(B_simp(bv), tm.add(hv, w[1])):
                    return
                new[(key, path)] = ["phi", self.phi_var(lid, key, path)]
                return
            if w[0] in ("phi", "val"):
                return
            if w[0] == "append":
                x = self.appended(hv, bv)
                if x is not None:
                    k = x.len()
                    if w[1] is None or (isinstance(k, int) and k == w[1]):
                        return
                    if w[1] is not None:
                        new[(key, path)] = ["append", None, mk("len", f"P{lid}{key}{path}", -1, ()), w[3]]
                        return
                new[(key, path)] = ["val", self.havoc_value(lid, key, path, hv)]
                return
        if hv is bv:
            return
        if scalar(hv) and scalar(bv):
            if same(hv, bv):
                return
            dlt = tm.sub(bv, hv) if not self.is_float(hv) and not self.is_float(bv) else None
            if isinstance(dlt, int) and hv is not UNDEF:
                new[(key, path)] = ["lin", dlt]
            else:
                new[(key, path)] = ["phi", self.phi_var(lid, key, path)]
            return
        if isinstance(hv, Agg) and isinstance(bv, Agg) and len(hv.f) == len(bv.f) and (isinstance(hv.ty, int) or hv.ty == bv.ty):
            for i in range(len(hv.f)):
                self.diff(st, key, path + (("f", i),), hv.f[i], bv.f[i], None, W, new, lid, n)
            return
        if isinstance(hv, Enum) and isinstance(bv, Enum):
            if isinstance(hv.disc, int) and isinstance(bv.disc, int) and hv.disc == bv.disc:
                a, b = hv.pay.get(hv.disc, ()), bv.pay.get(bv.disc, ())
                for i in range(len(a)):
                    self.diff(st, key, path + (("d", hv.disc), ("f", i)), a[i], b[i], None, W, new, lid, n)
                return
            if hv == bv:
                return
            new[(key, path)] = ["val", self.havoc_value(lid, key, path, hv, bv)]
            return
        if isinstance(hv, Seq) and isinstance(bv, Seq):
            if hv == bv:
                return
            x = self.appended(hv, bv)
            if x is not None:
                k = x.len()
                ety = self.elem_type(bv) or self.key_elem_type(key, path)
                if isinstance(k, int):
                    new[(key, path)] = ["append", k, None, ety]
                else:
                    new[(key, path)] = ["append", None, mk("len", f"P{lid}{key}{path}", -1, ()), ety]
                return
            new[(key, path)] = ["val", self.havoc_value(lid, key, path, hv, bv)]
            return
        if isinstance(hv, Ref) and isinstance(bv, Ref):
            if hv == bv:
                return
            new[(key, path)] = ["val", self.havoc_value(lid, key, path, hv, bv)]
            return
        if hv == bv and type(hv) is type(bv):
            return
        if hv is UNDEF or bv is UNDEF:
            # a variable first set inside the loop: no value at the head
            if hv is UNDEF:
                return
            new[(key, path)] = ["val", UNDEF]
            return
        new[(key, path)] = ["val", self.havoc_value(lid, key, path, hv, bv)]

    def is_float(self, t):
        return isinstance(t, T) and (t.op[0] == "f" and t.op not in ("f2i", "fcmp", "ftob") or t.op == "i2f")

    def phi_var(self, lid, key, path):
        ty = self.type_at(key, path)
        r = self.intrange(ty) if ty is not None else None
        if r is None:
            if ty is not None and self.P.types[ty]["k"] == "float":
                return mk("flt", mk("var", f"φ~{lid}:{key}{path}", -tm.INF, tm.INF), self.P.types[ty]["bits"])
            r = (-(1 << 127), 1 << 128)
        return mk("var", f"φ~{lid}:{key}{path}", r[0], r[1])

    def havoc_value(self, lid, key, path, hv, bv=None):
        ty = self.type_at(key, path)
        if ty is None and isinstance(hv, (Agg, Enum)) and isinstance(hv.ty, int):
            ty = hv.ty
        if ty is None and isinstance(hv, Seq):
            return Seq([("P", (lid, key, path, "v"), mk("len", f"P{lid}{key}{path}v", -1, ()), self.elem_type(hv) or (self.elem_type(bv) if bv is not None else None))], hv.kind)
        if ty is None:
            if isinstance(hv, Ref) and hv.meta is not None and isinstance(bv, Ref) and bv.key == hv.key and bv.path == hv.path:
                return Ref(hv.key, hv.path, (mk("var", f"φ~{lid}:{key}{path}s", 0, LENMAX), mk("var", f"φ~{lid}:{key}{path}l", 0, LENMAX)))
            raise Unsupported(f"loop-carried value of unknown type at {key}{path}: {show(hv)[:50]} / {show(bv)[:50]}")
        t = self.P.types[ty]
        if t["k"] in ("ref", "ptr"):
            if isinstance(hv, Ref) and hv.meta is not None and isinstance(bv, Ref) and bv.key == hv.key and bv.path == hv.path:
                return Ref(hv.key, hv.path, (mk("var", f"φ~{lid}:{key}{path}s", 0, LENMAX), mk("var", f"φ~{lid}:{key}{path}l", 0, LENMAX)))
            raise Unsupported("loop-carried reference")
        if self.is_vec(ty) or self.is_string(ty):
            return Seq([("P", (lid, key, path, "v"), mk("len", f"P{lid}{key}{path}v", -1, ()), t["args"][0] if self.is_vec(ty) else "char")], "vec" if self.is_vec(ty) else "chars")
        return self.sym(ty, f"φ~{lid}:{key}{path}")

    def key_elem_type(self, key, path):
        ty = self.type_at(key, path)
        if ty is None:
            return None
        if self.is_vec(ty):
            return self.P.types[ty]["args"][0]
        if self.is_string(ty):
            return "char"
        return None

    def type_at(self, key, path):
        ty = self.keyty.get(key)
        if ty is None:
            return None
        var = 0
        for p in path:
            t = self.P.types[ty] if isinstance(ty, int) else None
            if t is None:
                return None
            if p[0] == "f":
                if t["k"] == "tuple":
                    ty = t["elems"][p[1]] if p[1] < len(t["elems"]) else None
                elif t["k"] == "adt":
                    vs = t["variants"]
                    if var >= len(vs) or p[1] >= len(vs[var]["fields"]):
                        return None
                    ty = vs[var]["fields"][p[1]][1]
                elif t["k"] == "closure":
                    ty = t["upvars"][p[1]]
                else:
                    return None
                var = 0
            elif p[0] == "d":
                var = p[1]
            elif p[0] == "i":
                if t["k"] in ("array", "slice"):
                    ty = t["elem"]
                elif self.is_vec(ty):
                    ty = t["args"][0]
                else:
                    return None
            else:
                return None
        # iterator structs are modelled with their own fields
        return ty

    def appended(self, hv, bv):
        """bv = hv ++ x ?"""
        if hv.upds != bv.upds:
            return None
        a, b = list(hv.segs), list(bv.segs)
        if len(b) < len(a):
            return None
        for i, s in enumerate(a):
            if b[i] == s:
                continue
            if i == len(a) - 1 and s[0] == "e" and b[i][0] == "e" and len(b[i][1]) >= len(s[1]) and b[i][1][:len(s[1])] == s[1]:
                return Seq([("e", b[i][1][len(s[1]):])] + b[i + 1:], hv.kind)
            return None
        return Seq(b[len(a):], hv.kind)

    def closed_seqs(self, d, W):
        """phi sequence -> closed segments"""
        out = {}
        for (key, path), w in W.items():
            if w[0] != "append":
                continue
            hv = self.read_path(d.head, self.cell(d.head, key), path)
            bv = self.read_path(d.back, self.cell(d.back, key), path)
            x = self.appended(hv, bv)
            if x is None:
                continue
            pid = (d.id, key, path)
            out[pid] = (x.segs, tm.scale(d.total, w[1]) if w[1] is not None else w[2])
        return out

    def leave(self, s, d, closed):
        """rewrite an exit state: the head symbols of the iteration that leaves become totals"""
        m = {d.n: d.total}
        memo = {}

        def f(t):
            return tm.subst(t, m, memo)

        def fix(v):
            v = vmap(f, v)
            return self.close(v, d, closed)

        r = State()
        cache = {}
        for k, v in s.mem.items():
            if isinstance(v, (int,)) or v is UNDEF or isinstance(v, Fn):
                r.mem[k] = v
            else:
                r.mem[k] = fix(v)
        r.facts = subst_facts(s.facts, f)
        r.guard = s.guard
        r.trace = s.trace
        return r

    def substituted(self, s, m):
        """the state with variables replaced"""
        if not m:
            return s
        f = lambda t: tm.subst(t, m)
        r = s.copy()
        for k, v in s.mem.items():
            if not isinstance(v, int) and v is not UNDEF and not isinstance(v, Fn):
                r.mem[k] = vmap(f, v)
        r.facts = subst_facts(s.facts, f)
        return r

    def close(self, v, d, closed):
        if not closed:
            return v
        if isinstance(v, Seq):
            segs = []
            for s in v.segs:
                if s[0] == "P" and s[1] in closed:
                    x, n = closed[s[1]]
                    segs.append(("L", d.id, x, d.total, n))
                elif s[0] == "e":
                    segs.append(("e", tuple(self.close(y, d, closed) for y in s[1])))
                elif s[0] == "g":
                    segs.append(("g", s[1], tuple((k, self.close(q, d, closed)) for k, q in s[2]), None if s[3] is None else self.close(s[3], d, closed)))
                else:
                    segs.append(s)
            return Seq(segs, v.kind, tuple((i, self.close(x, d, closed)) for i, x in v.upds))
        if isinstance(v, Agg):
            return Agg(v.ty, [self.close(x, d, closed) for x in v.f])
        if isinstance(v, Enum):
            return Enum(v.ty, v.disc, {k: tuple(self.close(x, d, closed) for x in p) for k, p in v.pay.items()})
        if isinstance(v, GV):
            return GV(v.sel, [(k, self.close(u, d, closed)) for k, u in v.cases], None if v.default is None else self.close(v.default, d, closed))
        return v

    def invariants(self, st, W, lid, n, body):
        """linear facts about the head symbols that hold initially and are preserved"""
        phis = {}
        for (key, path), w in W.items():
            if w[0] == "phi" and isinstance(w[1], T) and w[1].op == "var":
                iv = self.read_path(st, self.cell(st, key), path)
                if scalar(iv) and not self.is_float(iv):
                    phis[w[1]] = (key, path, iv)
            if w[0] == "append" and w[1] is None:
                iv = self.read_path(st, self.cell(st, key), path)
                phis[w[2]] = (key, path, 0)
        H = self.havoc(st, W, lid, n)
        cands = set()
        for v, (key, path, iv) in phis.items():
            cands.add(tm.sub(v, iv))
            cands.add(tm.sub(iv, v))
        seen = self.collect_atoms(H, body)
        hs = set(phis) | {n}
        for a in seen:
            if a.op == "le0":
                x = a.args[0]
                at = tm.atoms(x)
                if at & hs:
                    for t in (x, tm.sub(1, x), tm.sub(x, 1), tm.neg(x)):
                        cands.add(t)
            elif a.op == "eq0" and tm.atoms(a.args[0]) & hs:
                # a loop that ends when two numbers meet
                cands.add(a.args[0])
                cands.add(tm.neg(a.args[0]))
        cands = {tm.norm_le(c) for c in cands if isinstance(c, T)}
        # initial values
        init = {v: iv for v, (k, p, iv) in phis.items()}
        init[n] = 0
        good = set()
        for c in cands:
            c0 = tm.subst(c, init)
            if isinstance(c0, int):
                if c0 <= 0:
                    good.add(c)
            elif st.facts.ub(c0, goal=0) <= 0:
                good.add(c)
        for _ in range(12):
            H = self.havoc(st, W, lid, n)
            for c in good:
                H.facts.add_le(c)
            if H.facts.bot:
                return []
            backs, exits = body(H)
            backs = [b for b in backs if not b.facts.bot]
            bad = set()
            for B in backs:
                nxt = {n: tm.add(n, 1)}
                for v, (key, path, iv) in phis.items():
                    bv = self.read_path(B, self.cell(B, key), path)
                    if isinstance(bv, Seq):
                        hv = self.read_path(H, self.cell(H, key), path) if False else None
                        w = W[(key, path)]
                        x = self.appended_after_phi(bv, (lid, key, path))
                        bv = tm.add(v, x) if x is not None else self.fresh("u", 0, LENMAX)
                    nxt[v] = bv
                for c in good - bad:
                    c1 = tm.subst(c, nxt)
                    if isinstance(c1, int):
                        if c1 > 0:
                            bad.add(c)
                    elif B.facts.ub(c1, goal=0) > 0:
                        bad.add(c)
            if not bad:
                return sorted(good, key=lambda t: t.id)
            good -= bad
        return []

    def appended_after_phi(self, q, pid):
        r, on = 0, False
        for s in q.segs:
            if on:
                r = tm.add(r, self.seglen(s))
            if s[0] == "P" and s[1] == pid:
                on = True
        return r if on else None

    def collect_atoms(self, H, body):
        seen = set()
        orig = self.restrict

        def restrict(st, sel, o):
            if isinstance(sel, T):
                tm.atoms(sel, seen)
            return orig(st, sel, o)

        self.restrict = restrict
        try:
            body(H.copy())
        finally:
            self.restrict = orig
        return seen

    # ------------------------------------------------------------ entry points
    def start(self):
        return State()

    def run_fn(self, st, f, args):
        """[(state, value)] of a whole function"""
        return self.inline(st, f, args)


def B_simp(v):
    return v


def leaf_path(name, idx, path):
    return (name, idx, path)


def leaf_enum(np, n):
    name, idx, path = np
    if idx is None:
        return mk("var", f"{name}.{'.'.join(map(str, path))}" if path != ("#",) else f"{name}.#", 0, n - 1)
    return mk("nth", name, path, 0, n - 1, idx)


def bool_or(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    return tm.bor(a, b, 1, False)


def bool_and(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    return tm.band(a, b, 1, False)


def divt(a, b, R):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b) if b else 0
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and R(a)[0] >= 0:
        return tm.shr(a, b.bit_length() - 1, 64, False, R)
    return mk("div", a, b)


def remt(a, b, R):
    if isinstance(a, int) and isinstance(b, int):
        return a - b * divt(a, b, R) if b else 0
    if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and R(a)[0] >= 0:
        return tm.bits(a, 0, b.bit_length() - 1, R)
    # a - b * (a / b)
    return tm.sub(a, tm.mul(b, divt(a, b, R))) if False else mk("rem", a, b)


fcmp = tm.fcmp


def fconv(v, a, b):
    if a == b:
        return v
    return mk("fconv", v, a, b)


def merge_traces(sel, ts):
    n = 0
    t0 = ts[0][1]
    while all(len(t) > n for _, t in ts) and all(t[n] is t0[n] or t[n] == t0[n] for _, t in ts):
        n += 1
    tails = [(o, t[n:]) for o, t in ts]
    if all(not t for _, t in tails):
        return t0[:n]
    return t0[:n] + (("branch", sel, tuple(tails)),)


def vtrace(f, tr):
    out = []
    for e in tr:
        if e[0] == "branch":
            out.append(("branch", f(e[1]) if isinstance(e[1], (int, T)) else e[1], tuple((o, vtrace(f, t)) for o, t in e[2])))
        else:
            out.append(tuple(x if isinstance(x, (str, bytes)) else vmap(f, x) for x in e))
    return tuple(out)


def subst_facts(F, f):
    r = Facts()
    r.bot = F.bot
    for a, (lo, hi) in F.iv.items():
        b = f(a)
        if isinstance(b, T):
            o = r.iv.get(b)
            r.iv[b] = (lo, hi) if o is None else (max(lo, o[0]), min(hi, o[1]))
    for a, s in F.ne.items():
        b = f(a)
        if isinstance(b, T):
            r.ne[b] = r.ne.get(b, frozenset()) | s
    for a, u in F.le.items():
        b = f(a)
        if isinstance(b, T):
            c, ms = tm.parts(b)
            if c:
                b = tm.lin(0, list(ms))
                u = u - c
            if isinstance(b, T):
                o = r.le.get(b)
                r.le[b] = u if o is None else min(o, u)
    return r
