"""Error discipline: every Result that can carry the crate's error reaches the caller or is a success."""
from .. import graph
from ..report import Anchor, Result
from .effects import api_roots, unify_root

OBSERVERS = ("is_ok", "is_err")
PANICKING = ("unwrap", "expect", "unwrap_err", "expect_err")


def error_type(P):
    u = P.fns[unify_root(P)]
    out = P.types[u["sig"][1]]
    if out["k"] != "adt" or not out["path"].endswith("result::Result"):
        raise Anchor("unify: does not return a Result")
    return out["args"][1]


class Discipline:
    def __init__(self, P):
        self.P = P
        self.E = error_type(P)
        self._c = {}
        self.sites = 0
        self.states = 0

    def has_e(self, t):
        r = self._c.get(t)
        if r is None:
            r = graph.contains_type(self.P, t, lambda x: x == self.E)
            self._c[t] = r
        return r

    def is_result(self, t):
        ty = self.P.types[t]
        return ty["k"] == "adt" and ty["path"].rsplit("::", 1)[-1] in ("Result", "ControlFlow", "Option", "Poll") and self.has_e(t)

    def failing_variant(self, t, v):
        """variant v of t certainly carries an error"""
        ty = self.P.types[t]
        var = ty["variants"][v]
        if not any(self.has_e(x) for _, x in var["fields"]):
            return "ok"
        if var["name"] in ("Err", "Break"):
            return "err"
        return "maybe"

    def place_ty(self, body, place):
        cur = body["locals"][place[0]]
        var = None
        for pr in place[1]:
            ty = self.P.types[cur]
            if pr[0] == "*":
                cur = ty.get("to", cur)
            elif pr[0] == "f":
                cur = pr[2]
            elif pr[0] == "d":
                continue
            else:
                cur = ty.get("elem", cur)
        return cur

    def check_fn(self, f):
        """violations of one function"""
        body = f["body"]
        out = []
        for b, (stmts, term) in enumerate(body["blocks"]):
            if term[0] != "call" or term[4] is None:
                continue
            dest = term[3]
            t = self.place_ty(body, dest)
            if not self.is_result(t):
                continue
            c = graph.callee(term)
            g = self.P.fns.get(c)
            name = g["path"] if g else "?"
            if name.endswith("FromResidual>::from_residual") or "::from_residual" in name:
                # re-wraps an error that is already tracked by its own source
                continue
            self.sites += 1
            if dest[1]:
                continue  # stored in a longer-lived place: not discarded here
            w = self.track(f, b, term, dest[0])
            if w:
                out.append((f"{f['path']}<-{name}", term[5], f"the error of `{name}` {w}"))
        return out

    def track(self, f, b0, term0, dest):
        P, body = self.P, f["body"]
        start = (term0[4], frozenset([dest]), frozenset(), frozenset(), "?")
        seen = {start}
        st = [start]
        while st:
            b, hold, refs, flags, status = st.pop()
            self.states += 1
            stmts, term = body["blocks"][b]
            hold, refs, flags = set(hold), set(refs), dict(flags)
            done = False
            for s in stmts:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                dst = pl[0]
                uses = [o for o in graph.rv_operands(rv) if o[0] in ("cp", "mv") and o[1][0] in hold]
                new = None
                if uses:
                    o = uses[0]
                    ty = self.place_ty(body, o[1])
                    if self.has_e(ty):
                        new = "hold"
                    elif any(pr[0] == "d" for pr in o[1][1]):
                        done = True  # a success payload was taken out
                        break
                elif rv[0] == "ref" and rv[1][0] in hold:
                    new = "ref"
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] in refs and not any(pr[0] == "*" for pr in rv[1][1][1]):
                    new = "ref"
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] in refs and self.has_e(self.place_ty(body, rv[1][1])):
                    new = "hold"
                elif rv[0] == "ref" and rv[1][0] in refs:
                    new = "ref"
                elif rv[0] == "discr" and (rv[1][0] in hold or rv[1][0] in refs):
                    ty = self.place_ty(body, rv[1])
                    if self.has_e(ty) and self.is_result(ty):
                        flags[dst] = ("discr", ty)
                        continue
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] in flags and not rv[1][1][1]:
                    flags[dst] = flags[rv[1][1][0]]
                    continue
                elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv") and rv[2][1][0] in flags:
                    k, v = flags[rv[2][1][0]]
                    if k == "iserr":
                        flags[dst] = (k, not v)
                        continue
                elif status == "err" and rv[0] == "agg" and rv[1] == "adt":
                    t = rv[4]
                    if t == self.E:
                        new = "hold"
                    elif t is not None and self.is_result(t) and self.failing_variant(t, rv[2] or 0) == "err":
                        new = "hold"
                elif status == "err" and rv[0] == "use" and rv[1][0] == "k":
                    if body["locals"][dst] == self.E and not pl[1]:
                        new = "hold"
                    elif self.is_result(body["locals"][dst]) and rv[1][1][0] == "agg" and self.failing_variant(body["locals"][dst], int(rv[1][1][1] or 0)) == "err":
                        new = "hold"
                if new == "hold":
                    hold.add(dst)
                elif new == "ref":
                    refs.add(dst)
                elif not pl[1]:
                    hold.discard(dst)
                    refs.discard(dst)
                    flags.pop(dst, None)
                    if not hold and status == "?":
                        return "is overwritten before it was looked at"
            if done:
                continue
            nxt = []
            k = term[0]
            if k == "switch" and term[1][0] in ("cp", "mv") and term[1][1][0] in flags:
                kind, ty = flags[term[1][1][0]]
                if kind == "discr":
                    listed = set()
                    for v, t in term[2]:
                        vi = [i for i, x in enumerate(P.types[ty]["variants"]) if str(x["discr"]) == str(v)]
                        listed.update(vi)
                        for i in vi:
                            r = self.failing_variant(ty, i)
                            if r != "ok":
                                nxt.append((t, "err" if r == "err" else status))
                    for i in range(len(P.types[ty]["variants"])):
                        if i not in listed:
                            r = self.failing_variant(ty, i)
                            if r != "ok":
                                nxt.append((term[3], "err" if r == "err" else status))
                else:
                    for v, t in term[2]:
                        if (int(v) != 0) == ty:
                            nxt.append((t, "err"))
                    if not any((int(v) != 0) == ty for v, _ in term[2]):
                        nxt.append((term[3], "err"))
            elif k == "call":
                args = term[2]
                used = [a for a in args if a[0] in ("cp", "mv") and a[1][0] in hold and self.has_e(self.place_ty(body, a[1]))]
                usedr = [a for a in args if a[0] in ("cp", "mv") and a[1][0] in refs]
                g = P.fns.get(graph.callee(term))
                last = g["path"].rsplit("::", 1)[-1] if g else "?"
                dty = self.place_ty(body, term[3])
                if term[4] is None:
                    continue
                if not term[3][1] and term[3][0] in hold and not used:
                    hold.discard(term[3][0])
                    if not hold and status == "?":
                        return "is overwritten before it was looked at"
                if used:
                    if self.has_e(dty):
                        hold.add(term[3][0])
                    elif last in PANICKING:
                        continue
                    else:
                        return f"is discarded by `{g['path'] if g else '?'}`"
                elif usedr and last in OBSERVERS:
                    flags[term[3][0]] = ("iserr", last == "is_err")
                elif usedr and self.has_e(dty):
                    hold.add(term[3][0])
                elif status == "err" and self.has_e(dty):
                    # under a known failure an error-carrying result of any call may be the translated error
                    hold.add(term[3][0])
                nxt.append((term[4], status))
            elif k == "ret":
                if 0 in hold:
                    continue
                if status == "err":
                    return "is observed but the function returns without an error"
                return "is never looked at"
            else:
                for t in P.succs(term):
                    nxt.append((t, status))
            for t, s2 in nxt:
                n = (t, frozenset(hold), frozenset(refs), frozenset(flags.items()), s2)
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return None


SWALLOW_OK = ("branch", "from_residual", "from_output", "map_err", "eq", "ne", "fmt", "clone", "cmp", "partial_cmp", "hash", "is_ok", "is_err") + PANICKING


def discipline(ctx):
    r = Result("Typestate dataflow over the control-flow graph of every function of the crate: each call that returns a value carrying the crate's error starts an obligation that is followed through copies, `?`, matches and combinators to every return.",
               "on every path on which such a value may be an error, an error-carrying value derived after it is returned; nothing consumes it into a type without the error")
    for feat in ("", "debug"):
        P = ctx.prog(feat)
        D = Discipline(P)
        par = graph.reach(P, api_roots(P))
        for i in sorted(par):
            f = P.fns.get(i)
            if f is None or not f["local"] or not f["body"]:
                continue
            before = D.sites
            bad = D.check_fn(f)
            for _ in range(D.sites - before - len(bad)):
                r.ob(True)
            for key, sp, msg in bad:
                r.ob(False, key, sp, "error discipline", f"{f['name']}: {msg}")
        # results handed to library adaptors as function values or through IntoIterator
        for i in sorted(par):
            f = P.fns.get(i)
            if f is None or f["local"] or not f["sig"]:
                continue
            if not f["path"].startswith(("std::result::Result", "core::result::Result", "<std::result::Result", "<core::result::Result", "<&std::result::Result", "<&core::result::Result")):
                continue
            last = f["path"].rsplit("::", 1)[-1]
            ins = [P.types[t]["to"] if P.types[t]["k"] == "ref" else t for t in f["sig"][0]]
            if any(D.is_result(t) for t in ins) and not D.has_e(f["sig"][1]):
                direct = last in SWALLOW_OK
                r.ob(direct, f"adaptor:{f['path']}", f["name"], "error discipline", f"`{f['path']}` drops the error of a result; reached via {graph.chain(P, par, i)}")
        r.floor(f"call_sites_{feat or 'default'}", D.sites, 60)
        r.coverage["dataflow_states_" + (feat or "default")] = D.states
    return r


CHECKS = {"C05": discipline}
