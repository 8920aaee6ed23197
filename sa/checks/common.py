"""Shared parts of the checks that compare computed function summaries with a specification."""
import re
import time

from .. import decide, interp, models
from .. import terms as tm
from ..decide import Undecided
from ..report import Anchor
from ..terms import T
from ..values import Agg, Enum, Fn, GV, Opaque, Ref, Seq, UNDEF, Unsupported, scalar, show


SHOW = 120
BUDGET = 240     # seconds for the cases of one comparison


class Undec(Exception):
    """this obligation can not be decided on this code"""


def local_fns(P):
    return [f for f in P.fns.values() if f["local"] and f["body"] and f["kind"] == "item"]


def strip_generics(p):
    out, d = [], 0
    for i, c in enumerate(p):
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1:i] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
    return re.sub(r"::+", "::", "".join(out))


def find_fn(P, suffix, pred=None):
    """the local function whose path (generics removed) ends with suffix"""
    c = []
    for f in local_fns(P):
        if "{closure" in f["path"]:
            continue
        p = f["path"] if "<" in suffix else strip_generics(f["path"])
        if (p == suffix or p.endswith("::" + suffix)) and (pred is None or pred(f)):
            c.append(f)
    if not c:
        raise Anchor(f"{suffix}: function not found")
    return c[0]


def find_fns(P, suffix):
    return [f for f in local_fns(P) if strip_generics(f["path"]).endswith("::" + suffix) or strip_generics(f["path"]) == suffix]


def adt(P, suffix):
    c = [i for i, t in enumerate(P.types) if t and t["k"] == "adt" and (t["path"] == suffix or t["path"].endswith("::" + suffix))]
    if not c:
        raise Anchor(f"{suffix}: type not found")
    return c[0]


def variant(P, ty, name):
    for i, v in enumerate(P.types[ty]["variants"]):
        if v["name"] == name:
            return i
    raise Anchor(f"{P.types[ty]['path']}::{name}: variant not found")


def field(P, ty, name, var=0):
    for i, (n, _) in enumerate(P.types[ty]["variants"][var]["fields"]):
        if n == name:
            return i
    raise Anchor(f"{P.types[ty]['path']}.{name}: field not found")


def field_type(P, ty, name, var=0):
    return P.types[ty]["variants"][var]["fields"][field(P, ty, name, var)][1]


class Harness:
    """a straight-line client of the library, written in terms of its functions"""

    def __init__(self, P, prims=None):
        self.P = P
        self.I = interp.Interp(P, prims)
        self.I.lib = self
        self.err_ty = adt(P, "LunifyError")

    def start(self):
        return self.I.start()

    def fn(self, name, pred=None):
        return find_fn(self.P, name, pred)

    def cell(self, st, v, ty=None):
        return models.new_cell(self.I, st, v, ty)

    def run(self, st, f, args):
        if isinstance(f, str):
            f = self.fn(f)
        return self.I.inline(st.copy(), f, list(args))

    def argtype(self, f, i):
        return f["body"]["locals"][i + 1]

    def pointee(self, f, i):
        return self.P.types[self.argtype(f, i)]["to"]

    def sym(self, ty, name):
        return self.I.sym(ty, name)

    # errors
    def error(self, name, *payload):
        i = variant(self.P, self.err_ty, name)
        return Enum(self.err_ty, i, {i: tuple(payload)})

    def enum(self, ty, name, *payload):
        i = variant(self.P, ty, name)
        return Enum(ty, i, {i: tuple(payload)})

    def struct(self, ty, **kw):
        fs = self.P.types[ty]["variants"][0]["fields"]
        return Agg(ty, [kw[n] if n in kw else UNDEF for n, _ in fs])

    def get(self, v, name, var=0):
        return v.f[field(self.P, v.ty, name, var)]

    def get_path(self, v, path):
        for p in path.split("."):
            v = self.get(v, p)
        return v


def is_ok(v):
    """Result value -> True/False/None from a concrete discriminant"""
    return None if not isinstance(v.disc, int) else v.disc == 0


class Cases:
    """results of a run, one obligation per case that the specification distinguishes"""

    def __init__(self, res, H, facts=None, atoms=None):
        self.res = res
        self.H = H
        self.facts = facts
        self.atoms = atoms      # the comparisons of sequences that the specification is about

    silent = False

    def foreign(self, c):
        """does the case rest on a comparison of sequences whose relation to the specified ones is not known"""
        return self.atoms is not None and any(a.op == "seqeq" and a not in self.atoms for t, _ in c.path for a in decide.leafset(t))

    def check(self, name, where, results, spec, rule, base=None, limit=4000, actual=None):
        """spec(ctx) -> expected value; results -> [(state, value)]; every case must agree"""
        from .. import terms
        F = base.facts if base is not None else terms.Facts()
        n = 0
        res = self.res
        if Cases.silent:
            return      # only the run is of interest

        def one(c):
            want = spec(c)
            if isinstance(want, Skip):
                return ("skip", None, None)
            p = c.pick(results)
            if p is None:
                return ("none", None, None)
            st, v = p
            if not c.adopt(st):
                return ("skip", None, None)
            got = actual(c, st, v) if actual else c.val(v)
            return ("cmp", c.fields(c.known(c.val(got))), c.fields(c.known(c.val(want))))

        undec = []
        bad, t0 = 0, time.time()
        try:
            for c, (kind, got, want) in decide.explore(F, one, limit):
                if kind == "skip":
                    continue
                n += 1
                if bad >= 3 or time.time() - t0 > BUDGET:
                    undec.append("stopped early") if not bad else None
                    break
                d = None if kind == "same" else MAYBE if kind == "none" else difference(c, got, want)
                if d is None:
                    res.ob(True)
                elif d is MAYBE or not d.witness or c.free() or self.foreign(c) or feasible(c) is False:
                    undec.append("a case is not covered by the summary: " + describe(c.path) if kind == "none" else f"case {describe(c.path)}: {show(got)[:SHOW]} against {show(want)[:SHOW]}")
                else:
                    bad += 1
                    res.ob(False, name + (f": {c.label}" if c.label else ""), where, rule, f"{d.what}: computed {show(d.got)[:160]}, specified {show(d.want)[:160]}",
                           f"case: {describe(c.path)}\nwitness: {d.witness}\nresult: {show(got)[:600]}\nspecified: {show(want)[:600]}")
        except (Unsupported, Undecided) as e:
            undec.append(str(e))
        if undec:
            self.res.undecided(name, where, f"{len(undec)} case(s): {undec[0]}")
        self.res.coverage["cases"] = self.res.coverage.get("cases", 0) + n


class Skip:
    pass


SKIP = Skip()
ANY = Opaque("any")


class Diff:
    def __init__(self, what, got, want, witness):
        self.what, self.got, self.want, self.witness = what, got, want, witness


MAYBE = Diff("undecided", None, None, None)


def describe(path):
    out = []
    for t, (k, vs) in path[:12]:
        s = ",".join(map(str, sorted(vs)))
        out.append(f"{show(t)[:90]} {'∈' if k == 'in' else '∉'} {{{s[:60]}}}")
    return " ∧ ".join(out) or "always"


def feasible(c, F=None):
    """a valuation of the inputs under the facts of the case (False if none was found)"""
    if c.free():
        return False
    G = tm.Facts()
    F = F or c.F
    G.iv = {k: v for k, v in F.iv.items() if not decide.has_internal(k)}
    G.le = {k: v for k, v in F.le.items() if not decide.has_internal(k)}
    G.ne = {k: v for k, v in F.ne.items() if not decide.has_internal(k)}
    return decide.sample_model(G, ())


def difference(c, got, want, what="result"):
    """None: equal; Diff with a witness; MAYBE"""
    if want == ANY:
        return None
    if scalar(got) and scalar(want):
        r = decide.compare(c.F, got, want)
        if r is True:
            return None
        if r is None:
            return MAYBE
        w = feasible(c)
        return Diff(what, got, want, r or w) if w is not False else MAYBE
    if got is want:
        return None
    if isinstance(want, Enum) and isinstance(got, Enum):
        if got.disc != want.disc:
            w = feasible(c)
            return Diff(what + " (variant)", got, want, w) if w is not False else MAYBE
        a, b = got.pay.get(got.disc, ()), want.pay.get(want.disc, ())
        worst = None
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(c, x, y, f"{what}.{i}")
            if d is MAYBE:
                worst = d
            elif d is not None:
                return d
        return worst
    if isinstance(want, Agg) and isinstance(got, Agg) and (len(got.f) == len(want.f) or got.ty == want.ty):
        worst = None if len(got.f) == len(want.f) else MAYBE
        for i, (x, y) in enumerate(zip(got.f, want.f)):
            d = difference(c, x, y, f"{what}.{i}")
            if d is MAYBE:
                worst = d
            elif d is not None:
                return d
        return worst
    if isinstance(want, Seq) and isinstance(got, Seq):
        return seq_difference(c, got, want, what)
    if want is UNDEF:
        return None
    if got == want:
        return None
    return MAYBE


def seq_difference(c, got, want, what):
    if got == want:
        return None
    ga, wa = units(got), units(want)
    if got.upds or want.upds:
        return MAYBE
    worst = None
    for i, (x, y) in enumerate(zip(ga, wa)):
        if x[0] == "e" and y[0] == "e":
            d = difference(c, x[1][0], y[1][0], f"{what}[{i}]")
            if d is MAYBE:
                worst = d
            elif d is not None:
                return d
            continue
        if x == y:
            continue
        if x[0] == "v" and y[0] == "v" and x[1] == y[1]:
            for p, q in ((x[2], y[2]), (x[4], y[4])):
                r = decide.compare(c.F, p, q)
                if r is None:
                    worst = MAYBE
                elif r is not True:
                    return Diff(f"{what}[{i}] (range)", p, q, r)
            continue
        if x[0] == "v" and y[0] == "v" and independent(c, x[1], y[1]):
            F = c.F.copy()
            F.add_le(tm.sub(1, x[2]))
            F.add_le(tm.sub(1, y[2]))
            w = False if F.bot else feasible(c, F)
            if w is not False:
                return Diff(f"{what}[{i}] (sequence)", Seq([x], got.kind), Seq([y], want.kind), w)
            return MAYBE
        if x[0] == "L" and y[0] == "v":
            d = loop_difference(c, x, y, f"{what}[{i}]")
            if d is MAYBE:
                worst = d
                continue
            return d
        return lengths(c, got, want, what)
    if len(ga) != len(wa):
        if all(u[0] == "e" for u in ga + wa):
            w = feasible(c)
            return Diff(f"{what} (length)", len(ga), len(wa), w) if w is not False else MAYBE
        return lengths(c, got, want, what)
    return worst


def lengths(c, got, want, what):
    r = decide.compare(c.F, got.len(), want.len())
    return Diff(f"{what} (length)", got.len(), want.len(), r) if r not in (True, None) else MAYBE


def independent(c, a, b):
    """two input sequences whose contents are not related by the case"""
    if a == b or not all(isinstance(k, tuple) and k[:1] == ("s",) and isinstance(k[1], str) and "~" not in k[1] for k in (a, b)):
        return False
    for t in list(c.F.iv) + list(c.F.le) + list(c.F.ne) + [t for t, _ in c.path]:
        for x in decide.leafset(t) | ({t} if isinstance(t, T) and t.op == "seqeq" else set()):
            if x.op == "nth" and x.args[0] == b:
                return False
            if x.op == "seqeq" and c.F.rng(x) != (0, 0) and mentions(x, b):
                return False
    return True


def mentions(x, key):
    if isinstance(x, Seq):
        return any(mentions(y, key) for y in x.segs)
    if isinstance(x, T):
        return any(mentions(y, key) for y in x.args)
    if isinstance(x, tuple):
        return x == key or any(mentions(y, key) for y in x)
    return False


def units(q):
    out = []
    for s in q.segs:
        if s[0] == "e":
            out += [("e", (x,)) for x in s[1]]
        elif s[0] == "L":
            out.append(copied(s))
        else:
            out.append(s)
    return out


def loop_difference(c, x, y, what):
    """a loop that appends elements against a range of a sequence"""
    _, lid, body, n, total = x
    i = tm.mk("var", f"n~{lid}", 0, interp.NMAX)
    # any element of the range is reached
    F = c.F.copy()
    F.add_le(tm.add(tm.sub(i, y[2]), 1))
    if F.bot:
        return MAYBE
    j = tm.mk("var", "position", 0, interp.NMAX)
    m = {i: j}
    G = tm.Facts()
    for k, (lo, hi) in F.iv.items():
        if k not in (i,):
            t = tm.subst(k, m, {})
            if isinstance(t, T):
                G.iv[t] = (lo, hi)
    for k, u in F.le.items():
        G.add_le(tm.sub(tm.subst(k, m, {}), u))
    for k, vs in F.ne.items():
        t = tm.subst(k, m, {})
        if isinstance(t, T):
            G.ne[t] = vs
    if len(body) == 1 and body[0][0] == "e" and len(body[0][1]) == 1 and scalar(body[0][1][0]):
        got = tm.subst(body[0][1][0], m, {}) if isinstance(body[0][1][0], T) else body[0][1][0]
        want = tm.mk("nth", y[1], (), 0, 255, tm.add(y[4], j))
        r = decide.compare(G, got, want)
        return Diff(f"{what} (element)", got, want, r) if r not in (True, None) else MAYBE
    if len(body) == 1 and body[0][0] == "g":
        _, sel, cases, default = body[0]
        sel = tm.subst(sel, m, {}) if isinstance(sel, T) else sel
        ns = [(v, q.len()) for v, q in cases]
        k = tm.select(sel, ns, default.len() if default is not None else None)
        r = decide.compare(G, k, 1)
        return Diff(f"{what} (elements per step)", k, 1, r) if r not in (True, None) else MAYBE
    return MAYBE


def copied(s):
    """a loop that appends the elements of a sequence one by one, as a range of it"""
    _, lid, body, n, total = s
    if len(body) != 1 or body[0][0] != "e" or len(body[0][1]) != 1:
        return s
    x = body[0][1][0]
    i = tm.mk("var", f"n~{lid}", 0, interp.NMAX)
    if isinstance(x, T) and x.op == "nth" and x.args[1] == ():
        off = tm.sub(x.args[4], i)
        if i not in tm.atoms(off, set()):
            return ("v", x.args[0], total, 0, off)
    return s
