"""The two feature sets of one source: the debug build may only add output."""
from .. import graph
from ..report import Result

FMT = ("core::fmt::", "std::fmt::", "alloc::fmt::", "std::string::ToString")


class Norm:
    """a body with everything removed that only feeds printing"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        b = f["body"]
        self.locals = b["locals"]
        self.argc = b["argc"]
        self.blocks = [[list(s), t] for s, t in b["blocks"]]
        self.removed_prints = 0
        while self.step():
            pass

    def observer(self, term):
        """a call that cannot change anything the rest of the function can see"""
        g = self.P.fns.get(graph.callee(term))
        if g is None or g["sig"] is None:
            return False
        if g["path"] == "std::io::_print":
            return True
        for t in g["sig"][0]:
            if self.mutable(t):
                return False
        if self.mutable(g["sig"][1]):
            return False
        return True

    def mutable(self, t):
        seen = set()

        def go(t):
            if t in seen:
                return False
            seen.add(t)
            ty = self.P.types[t]
            k = ty["k"]
            if k in ("ref", "ptr"):
                return ty["mut"] or go(ty["to"])
            if k == "adt":
                if ty["path"].startswith(FMT):
                    return False
                if ty["path"].endswith("cell::UnsafeCell"):
                    return True
                return any(isinstance(x, int) and go(x) for x in ty["args"]) or any(go(x) for v in ty["variants"] for _, x in v["fields"])
            if k == "closure":
                return any(go(x) for x in ty["upvars"])
            if k == "tuple":
                return any(go(x) for x in ty["elems"])
            if k in ("array", "slice"):
                return go(ty["elem"])
            if k == "dyn":
                return True
            return False

        return go(t)

    def reachable(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for t in self.P.succs(self.blocks[b][1]):
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def postdom(self, reach):
        """immediate postdominators over blocks that can finish; -1 is the common exit"""
        succ = {}
        dead = {b for b in reach if self.blocks[b][1][0] == "unreachable" and not self.blocks[b][0]}
        for b in reach:
            ss = [x for x in self.P.succs(self.blocks[b][1]) if x not in dead]
            succ[b] = ss or [-1]
        order, seen = [], {0}
        st = [(0, iter(succ[0]))]
        while st:
            b, it = st[-1]
            for x in it:
                if x != -1 and x not in seen:
                    seen.add(x)
                    st.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        pd = {-1: {-1}}
        full = set(order) | {-1}
        for b in order:
            pd[b] = set(full)
        changed = True
        while changed:
            changed = False
            for b in order:
                n = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    changed = True
        ipd = {}
        for b in order:
            c = pd[b] - {b}
            ipd[b] = max(c, key=lambda x: len(pd[x]))
        return succ, pd, ipd

    def borrowed(self):
        """temporaries that only ever hold `&mut x` of a local, with that local"""
        defs = {}
        for b in self.reachable():
            stmts, term = self.blocks[b]
            for s in stmts:
                if s[0] == "=" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(s[2])
            if term[0] == "call":
                defs.setdefault(term[3][0], []).append(None)
        out = {}
        for _ in range(3):
            for l, ds in defs.items():
                if len(ds) == 1 and ds[0] is not None and ds[0][0] == "ref":
                    p = ds[0][1]
                    if not p[1]:
                        out[l] = p[0]
                    elif p[1] == [["*"]] and p[0] in out:
                        out[l] = out[p[0]]
        return out

    def local_effect(self, term, owned):
        """locals a library call may change, if it can change nothing else; else None"""
        g = self.P.fns.get(graph.callee(term))
        if g is None or g["sig"] is None or term[4] is None or term[3][1]:
            return None
        if self.observer(term):
            return set()
        if g["local"] or g["krate"] not in ("core", "alloc") or "::iter::" not in g["path"] + "::iter::" * ("Iterator" in g["path"]):
            return None
        out = set()
        for o, t in zip(term[2], g["sig"][0]):
            if self.mutable(t):
                if o[0] in ("cp", "mv") and not o[1][1] and o[1][0] in owned:
                    out.add(owned[o[1][0]])
                else:
                    return None
        if self.mutable(g["sig"][1]):
            return None
        return out

    def used(self):
        """locals whose value can matter and blocks whose execution can matter:
        a slice from the essential steps along data and control dependence"""
        reach = self.reachable()
        succ, pd, ipd = self.postdom(reach)
        owned = self.borrowed()
        cdep = {}
        for b in pd:
            if b == -1 or len(set(succ[b])) < 2:
                continue
            for x in succ[b]:
                r = x
                while r != ipd[b] and r != -1:
                    cdep.setdefault(r, set()).add(b)
                    r = ipd[r]
        u, blk, work = set(), set(), []
        defs = {}   # local -> [(block, locals needed)]

        def mark(ls):
            for x in ls:
                if x not in u:
                    u.add(x)
                    work.append(("l", x))

        def need_block(b):
            if b not in blk:
                blk.add(b)
                work.append(("b", b))

        mark([0] + list(range(1, self.argc + 1)))
        for b in pd:
            if b == -1:
                continue
            stmts, term = self.blocks[b]
            for s in stmts:
                if s[0] == "=":
                    need = set()
                    for o in graph.rv_operands(s[2]):
                        if o[0] in ("cp", "mv"):
                            need |= self.plocals(o[1])
                    for p in graph.rv_places(s[2]):
                        need |= self.plocals(p)
                    need |= {x for x in self.plocals(s[1]) if x != s[1][0]}
                    if s[1][1] and any(pr[0] == "*" for pr in s[1][1]):
                        mark(need | {s[1][0]})
                        need_block(b)
                    else:
                        defs.setdefault(s[1][0], []).append((b, need))
                elif s[0] == "assume" and s[1][0] in ("cp", "mv"):
                    pass
            need = set()
            for o in graph.term_operands(term):
                if o[0] in ("cp", "mv"):
                    need |= self.plocals(o[1])
            if term[0] == "switch":
                continue
            eff = self.local_effect(term, owned) if term[0] == "call" else None
            if eff is not None:
                for x in {term[3][0]} | eff:
                    defs.setdefault(x, []).append((b, need))
            elif term[0] in ("call", "assert", "return", "asm"):
                mark(need)
                need_block(b)
                if term[0] == "call" and term[3][1] and any(pr[0] == "*" for pr in term[3][1]):
                    mark({term[3][0]})
                elif term[0] == "call":
                    defs.setdefault(term[3][0], []).append((b, set()))
        while work:
            k, x = work.pop()
            if k == "l":
                for b, need in defs.get(x, ()):
                    mark(need)
                    need_block(b)
            else:
                for s in cdep.get(x, ()):
                    need_block(s)
                    t = self.blocks[s][1]
                    if t[0] == "switch":
                        for o in graph.term_operands(t):
                            if o[0] in ("cp", "mv"):
                                mark(self.plocals(o[1]))
        self.slice = (u, blk, ipd, owned)
        return u

    @staticmethod
    def plocals(p):
        return {p[0]} | {pr[1] for pr in p[1] if pr[0] == "i"}

    def step(self):
        changed = False
        u = self.used()
        live = {x for b in self.slice[2] for x in [b]}
        for b in self.reachable():
            if b not in live:
                continue
            stmts, term = self.blocks[b]
            keep = []
            for s in stmts:
                if s[0] == "=" and s[1][0] not in u and s[1][0] > self.argc and not (s[1][1] and s[1][1][0][0] == "*"):
                    changed = True
                    continue
                if s[0] in ("dead", "sd") and (s[1] if s[0] == "dead" else s[1][0]) not in u:
                    changed = True
                    continue
                keep.append(s)
            self.blocks[b][0] = keep
            if term[0] == "drop" and (term[3] is None or (term[1][0] not in u and not term[1][1])):
                self.blocks[b][1] = ["goto", term[2]]
                changed = True
            elif term[0] == "call" and term[4] is not None and term[3][0] not in u and not term[3][1] and (self.local_effect(term, self.slice[3]) or {0} if not self.observer(term) else set()).isdisjoint(u):
                g = self.P.fns.get(graph.callee(term))
                if g["path"] == "std::io::_print":
                    self.removed_prints += 1
                self.blocks[b][1] = ["goto", term[4]]
                changed = True
            elif term[0] == "switch" and b in self.slice[2] and b not in self.slice[1] and self.slice[2][b] != -1:
                self.blocks[b][1] = ["goto", self.slice[2][b]]
                changed = True
            elif term[0] == "switch":
                ts = {self.thread(x) for _, x in term[2]} | {self.thread(term[3])}
                ts = {t for t in ts if not (self.blocks[t][1][0] == "unreachable" and not self.blocks[t][0])} or ts
                if len(ts) == 1:
                    self.blocks[b][1] = ["goto", ts.pop()]
                    changed = True
        return changed

    def thread(self, b):
        seen = set()
        while b not in seen and not self.blocks[b][0] and self.blocks[b][1][0] == "goto":
            seen.add(b)
            b = self.blocks[b][1][1]
        return b

    def chain(self, b):
        """statements and the terminator from b on, through gotos"""
        out, seen = [], set()
        while True:
            if b in seen:
                return out, ["loop"]
            seen.add(b)
            out += [s for s in self.blocks[b][0] if s[0] in ("=", "sd", "assume", "intr")]
            t = self.blocks[b][1]
            if t[0] == "goto":
                b = t[1]
                continue
            return out, t


class Differ:
    def __init__(self, A, B):
        self.A, self.B = A, B
        self.map = {i: i for i in range(0, A.argc + 1)}
        self.inv = dict(self.map)
        self.compared = 0

    def loc(self, x, y):
        if x in self.map or y in self.inv:
            return self.map.get(x) == y and self.inv.get(y) == x
        self.map[x] = y
        self.inv[y] = x
        return self.tn(self.A.P, self.A.locals[x]) == self.tn(self.B.P, self.B.locals[y])

    @staticmethod
    def tn(P, t):
        return P.types[t].get("n")

    def const(self, a, b):
        if a[0] != b[0]:
            return False
        k = a[0]
        if k in ("fn", "fnptr"):
            fa, fb = self.A.P.fns.get(a[1]), self.B.P.fns.get(b[1])
            return (fa or {}).get("name") == (fb or {}).get("name")
        if k == "ref":
            return self.const(a[1], b[1])
        if k in ("agg", "slice"):
            xs, ys = (a[2], b[2]) if k == "agg" else (a[1], b[1])
            if k == "agg" and a[1] != b[1]:
                return False
            return len(xs) == len(ys) and all((self.const(x, y) if isinstance(x, list) else x == y) for x, y in zip(xs, ys))
        if k in ("int", "float", "str"):
            return a[1] == b[1]
        return True

    def place(self, p, q):
        if len(p[1]) != len(q[1]) or not self.loc(p[0], q[0]):
            return False
        for x, y in zip(p[1], q[1]):
            if x[0] != y[0]:
                return False
            if x[0] == "i":
                if not self.loc(x[1], y[1]):
                    return False
            elif x[0] == "f":
                if x[1] != y[1]:
                    return False
            elif x[1:] != y[1:]:
                return False
        return True

    def op(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] in ("cp", "mv"):
            return self.place(a[1], b[1])
        if a[0] == "k":
            return self.const(a[1], b[1])
        return True

    def rv(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] in ("bin", "cbin", "un") and a[1] != b[1]:
            return False
        if a[0] == "cast" and (a[1] != b[1] or self.tn(self.A.P, a[3]) != self.tn(self.B.P, b[3])):
            return False
        if a[0] == "agg" and (a[1] != b[1] or a[2] != b[2]):
            return False
        x, y = graph.rv_operands(a), graph.rv_operands(b)
        if len(x) != len(y) or not all(self.op(i, j) for i, j in zip(x, y)):
            return False
        x, y = graph.rv_places(a), graph.rv_places(b)
        return len(x) == len(y) and all(self.place(i, j) for i, j in zip(x, y))

    def run(self):
        seen, st = {(0, 0)}, [(0, 0)]
        while st:
            a, b = st.pop()
            sa, ta = self.A.chain(a)
            sb, tb = self.B.chain(b)
            for i in range(max(len(sa), len(sb))):
                if i >= len(sa) or i >= len(sb):
                    s = (sa + sb)[0] if False else (sb[i] if i < len(sb) else sa[i])
                    return f"one build executes an extra step: {s[0]} at {s[3] if len(s) > 3 else '?'}"
                x, y = sa[i], sb[i]
                ok = x[0] == y[0]
                if ok and x[0] == "=":
                    ok = self.rv(x[2], y[2]) and self.place(x[1], y[1])
                elif ok and x[0] == "sd":
                    ok = self.place(x[1], y[1]) and x[2] == y[2]
                if not ok:
                    return f"the builds differ at {y[3] if len(y) > 3 and isinstance(y[3], str) else '?'}"
                self.compared += 1
            if ta[0] != tb[0]:
                return f"control flow differs: {ta[0]} at {self.sp(ta)} against {tb[0]} at {self.sp(tb)}"
            x, y = graph.term_operands(ta), graph.term_operands(tb)
            if len(x) != len(y) or not all(self.op(i, j) for i, j in zip(x, y)):
                return f"the builds differ at {self.sp(tb)}"
            nxt = []
            if ta[0] == "call":
                if not self.place(ta[3], tb[3]) or (ta[4] is None) != (tb[4] is None):
                    return f"the builds differ at {self.sp(tb)}"
                if ta[4] is not None:
                    nxt = [(ta[4], tb[4])]
            elif ta[0] == "switch":
                if [v for v, _ in ta[2]] != [v for v, _ in tb[2]]:
                    return f"the builds branch differently at {self.sp(tb)}"
                nxt = [(p, q) for (_, p), (_, q) in zip(ta[2], tb[2])] + [(ta[3], tb[3])]
            elif ta[0] == "assert":
                if ta[2] != tb[2] or ta[3] != tb[3]:
                    return f"the builds check differently at {self.sp(tb)}"
                nxt = [(ta[5], tb[5])]
            elif ta[0] == "drop":
                if not self.place(ta[1], tb[1]):
                    return f"the builds drop different values at {self.sp(tb)}"
                nxt = [(ta[2], tb[2])]
            self.compared += 1
            for n in nxt:
                n = (self.A.thread(n[0]), self.B.thread(n[1]))
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return None

    @staticmethod
    def sp(t):
        return next((x for x in reversed(t) if isinstance(x, str) and ":" in x), "?")


def debug_equal(ctx):
    r = Result("Both feature sets of the same source are compiled to typed MIR; in both, everything that only feeds printing is removed (dead values, print calls, observers without mutable access, branches left without effect); the remaining control-flow graphs are compared step by step up to renaming.",
               "for every function of the crate, the debug build with its printing removed is the default build")
    P, Q = ctx.prog(""), ctx.prog("debug")
    fa = {f["name"]: f for f in P.local_fns()}
    fb = {f["name"]: f for f in Q.local_fns()}
    prints = steps = 0
    for n, f in sorted(fa.items()):
        g = fb.get(n)
        if g is None:
            if "::fmt" not in n:
                r.ob(False, f"missing:{f['path']}", f["span"], "debug equivalence", f"{n} exists only without the debug feature")
            continue
        a, b = Norm(P, f), Norm(Q, g)
        prints += b.removed_prints
        d = Differ(a, b)
        w = d.run()
        steps += d.compared
        r.ob(w is None, f"diff:{f['path']}", f["span"], "debug equivalence", f"{n}: {w}")
    r.floor("functions_compared", r.obligations, 200)
    r.coverage["steps_compared"] = steps
    r.coverage["print_calls_removed"] = prints
    r.assumptions = ["printing and formatting a value through a shared reference does not change it", "writing to stdout succeeds"]
    return r


CHECKS = {"C07": debug_equal}
