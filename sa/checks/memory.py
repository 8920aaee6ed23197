"""Memory and work are bounded by the size of the input: a count in the input alone reserves nothing."""
from .. import decide, graph, terms as tm
from ..report import Result
from ..values import Seq
from . import header, program, stream, wiring
from .common import *
from .panics import Recorder, fails, short
from .stream import guarded

SMALL = 1 << 20     # elements that may be reserved whatever the input is
FACTOR = 64         # and this many for every element that is in memory already


def consumed(W, st):
    """sections of the function whose elements have been read in this state; None: not known"""
    at = st.mem.get(("in", "at"))
    if not isinstance(at, int):
        return None
    items = W.items["in"]
    if at >= len(items):
        return set(wiring.LISTS)
    order = wiring.ORDER[W.version]
    k = order.index(items[at].sec)
    done = {s for s in order[:k] if s in wiring.LISTS}
    s = items[at].sec
    if s in wiring.LISTS and items[at].part is not None and st.facts.prove(tm.cmp("Ge", st.mem[("in", "idx")], W.count[s])):
        done.add(s)
    return done


def leafs(t):
    return decide.leafset(t) if isinstance(t, tm.T) else set()


def bound(I, st, cap, done, W):
    """the number of elements that may be requested"""
    b = SMALL
    known = set(leafs(cap))
    for t in list(st.facts.le) + [t for t, _ in st.guard]:
        known |= {a for a in leafs(t) if a.op == "len"}
    built = {d.total for d in I.loops.values() if any(p[2] == "append" for p in d.phis)}
    for a in known:
        if a.op == "len" or a in built:
            b = tm.add(b, tm.scale(a, FACTOR))
        elif W is not None and done:
            for s in done:
                if a is W.count[s] or a == W.count[s]:
                    b = tm.add(b, tm.scale(a, FACTOR))
    return b


def judge(res, I, what, W=None):
    seen = {}
    for fn, span, cap, st in I.allocs:
        seen.setdefault((fn, span), []).append((cap, st))
    for (fn, span), rs in seen.items():
        verdict, info = "ok", ""
        try:
            for cap, st in rs[:40]:
                done = consumed(W, st) if W is not None else set()
                if done is None and any(isinstance(a.args[0], str) and a.args[0].startswith("number of ") for a in leafs(cap) if a.op == "var"):
                    verdict, info = "unknown", "position in the input"
                    continue
                v, i = fails(st, tm.cmp("Le", cap, bound(I, st, cap, done, W)))
                if v == "bad":
                    verdict, info = v, f"requested: {show(cap)[:200]}\n{i}"
                    break
                if v == "unknown":
                    verdict, info = v, i
        except (Unsupported, Undecided, RecursionError) as e:
            verdict, info = "unknown", str(e)[:200]
        if verdict == "ok":
            res.ob(True)
        elif verdict == "bad":
            res.ob(False, f"memory requested in {short(fn)}", f"{fn} ({span})", "no more memory is requested at once than a multiple of what is in memory already", "a number in the input decides how much memory is requested", f"{what}\n{info}")
        else:
            res.undecided(f"memory requested in {short(fn)}", f"{fn} ({span})", info)


def reads(d):
    """does an iteration of this loop read from the input?"""
    return any(p[0] in (("in", "at"), ("in", "idx")) for p in d.phis)


def loops(res, W, what):
    """loops whose number of iterations is a count of the input read an item in each"""
    for d in W.H.I.loops.values():
        if not d.phis:
            continue
        if reads(d):
            res.ob(True)
            continue
        head = d.head
        counts = set()
        for tag, s, g in d.exits:
            for t, _ in g:
                counts |= {n for n, v in W.count.items() if isinstance(v, tm.T) and v in leafs(t)}
            for t in list(s.facts.le):
                if d.n in leafs(t):
                    counts |= {n for n, v in W.count.items() if isinstance(v, tm.T) and v in leafs(t)}
        done = consumed(W, head)
        if done is None:
            if counts:
                res.undecided("work of a loop", f"{d.where[0]} ({d.where[2]})", "position in the input")
            continue
        left = counts - done
        if not left:
            res.ob(True)
        else:
            grows = any(p[2] == "append" for p in d.phis)
            msg = f"repeated for the number of {sorted(left)[0]} in the input without reading them"
            if grows:
                res.ob(False, f"work in {short(d.where[0])}", f"{d.where[0]} ({d.where[2]})", "every repetition that the input asks for reads some of it", msg, what)
            else:
                res.undecided(f"work in {short(d.where[0])}", f"{d.where[0]} ({d.where[2]})", msg)


def growth(res, I, what):
    """loops of the translation that add elements, controlled by an operand"""
    from ..interp import subst_facts
    built = {d.total for d in I.loops.values() if any(p[2] == "append" for p in d.phis)}
    for d in I.loops.values():
        if not any(p[2] == "append" for p in d.phis):
            continue
        for tag, st, g in d.exits:
            n = tm.mk("var", "repetitions", *d.n.args[1:])
            f = lambda t: tm.subst(t, {d.n: n}, {}) if isinstance(t, tm.T) else t
            st = st.copy()
            st.facts = subst_facts(st.facts, f)
            st.guard = tuple((f(t), o) for t, o in st.guard)
            b = SMALL
            for a in {a for t in list(st.facts.le) for a in leafs(t)}:
                if a.op == "len" or a in built and a is not d.total:
                    b = tm.add(b, tm.scale(a, FACTOR))
            try:
                v, info = fails(st, tm.cmp("Le", n, b))
            except (Unsupported, Undecided, RecursionError) as e:
                v, info = "unknown", str(e)[:200]
            if v == "ok":
                res.ob(True)
            elif v == "bad":
                res.ob(False, f"work in {short(d.where[0])}", f"{d.where[0]} ({d.where[2]})", "an operand alone adds no unlimited number of elements", "repeated as often as an operand of the input says", f"{what}\n{info}")
            else:
                res.undecided(f"work in {short(d.where[0])}", f"{d.where[0]} ({d.where[2]})", info)


def memory_check(ctx):
    res = Result("every request for memory of a size that is not constant, and every loop of the function reader, for any input",
                 "the size is bounded by a multiple of what has been read, and a loop that the input controls reads some of it in every iteration")
    P = ctx.prog()

    def function(res, version, counts, valid):
        with Recorder():
            W = wiring.Wiring(P, version, counts, valid)
            W.H.I.allocs = []
            W.run()
        judge(res, W.H.I, f"{version} function", W)
        if counts is None:
            loops(res, W, f"{version} function")

    jobs = [("function", v) for v in wiring.ORDER] + [(header, "C11")] + [(m, id) for m in (stream, header) for id in m.CHECKS if id != "C11"]
    jobs += [("word", p, k) for p in program.PAIRS50 for k in range(len(program.LUA50))]
    jobs += [("program", v, s) for v, s, _ in small()]

    def one(j, r):
        if j[0] == "function":
            function(r, j[1], None, True)
            return
        with Recorder() as rec:
            if j[0] == "word":
                program.words50(program.Programs(P), *j[1], j[2])
            elif j[0] == "program":
                PR = program.Programs(P)
                R = program.Ranges(a=255, bc=(1 << 31) - 1)
                prog = [program.source(PR, j[1], i, n, R, fx)[0] for i, (n, fx) in enumerate(j[2])]
                PR.run(j[1], prog, settings={"output.stack_limit": 250, "lua50.fields_per_flush": 32, "output.fields_per_flush": 50, "lua51.fields_per_flush": 32})
                growth(r, PR.H.I, str(j))
            else:
                j[0].CHECKS[j[1]](ctx)
        for I in rec.all:
            judge(r, I, str(j))
        r.coverage["analyses"] = r.coverage.get("analyses", 0) + 1
    program.parallel(ctx, res, jobs, one)
    return res


def small():
    for s in ([("TFORLOOP", {})], [("CALL", {})], [("CONCAT", {})], [("LOADNIL", {})], [("SETLIST", {"Bx": 31})], [("NEWTABLE", {"A": 0}), ("SETLIST", {"Bx": 63, "A": 0})], [("FORLOOP", {"Bx": -1})], [("TFORPREP", {"Bx": 0})]):
        yield 50, s, 0
    for s in ([("LOADNIL", {})], [("SETLIST", {"B": 31, "C": 1})], [("NEWTABLE", {"A": 0}), ("SETLIST", {"B": 31, "C": 2, "A": 0})]):
        yield 51, s, 0


CHECKS = {"C02": memory_check}
