"""No input makes a conversion panic: every panicking operation that the harnesses of the other checks reach, and those reached by malformed programs."""
from .. import decide, graph, interp, terms as tm
from ..report import Result
from ..terms import Facts
from ..values import scalar
from . import header, insn, layout, program, stream, wiring
from .common import *
from .stream import guarded

STATES = 8      # states examined per panicking operation and harness


class Recorder:
    """collects the undischarged obligations of every interpreter created inside"""

    def __enter__(self):
        self.all = []
        self.orig = orig = interp.Interp.__init__
        me = self

        def init(I, *a, **k):
            orig(I, *a, **k)
            I.failed, I.allocs = [], []
            me.all.append(I)
        interp.Interp.__init__ = init
        Cases.silent = True
        return self

    def __exit__(self, *x):
        interp.Interp.__init__ = self.orig
        Cases.silent = False


def empty_signature(c, st):
    """the settings of this case have an empty signature (out of scope: nothing could be told from anything else)"""
    for t, _ in tuple(st.guard) + tuple(c.path):
        for a in decide.leafset(t):
            if a.op == "len" and "binary_signature" in str(a.args) and c.true(tm.cmp("Eq", a, 0)):
                return True
    return False


def examine(res, I, what, seen=None):
    """the obligations of one interpreter: discharged, or a case in which they fail"""
    res.visited = getattr(res, "visited", set()) | {(k[1], k[2]) for k in I.obligs}
    for key, o in I.obligs.items():
        if seen is not None:
            if (key, o.ok) in seen:
                continue
            seen.add((key, o.ok))
        if o.ok:
            res.ob(True)
    groups = {}
    for key, st, cond in I.failed:
        groups.setdefault(key, []).append((st, cond))
    for key, states in groups.items():
        kind, fn, span, msg = key
        verdict, info = "ok", ""
        try:
            for st, cond in states[:STATES]:
                v, i = fails(st, cond)
                if v == "bad":
                    verdict, info = v, i
                    break
                if v == "unknown":
                    verdict, info = v, i
            if verdict == "ok" and len(states) > STATES:
                verdict, info = "unknown", f"{len(states)} states"
        except (Unsupported, Undecided, RecursionError) as e:
            verdict, info = "unknown", str(e)[:200]
        if verdict == "ok":
            res.ob(True)
        elif verdict == "bad":
            if not any(v.where == f"{fn} ({span})" for v in res.violations):
                res.ob(False, f"panic in {short(fn)}", f"{fn} ({span})", "no input panics", f"{kind} {msg} can fail", f"{what}\n{info}")
        else:
            res.undecided(f"panic in {short(fn)}", f"{fn} ({span})", f"{kind} {msg}: {info}"[:300])


def short(fn):
    return fn.split("::")[-1] if not fn.startswith("<") else fn


def fails(st, cond, internals=True):
    """('ok' | 'bad' | 'unknown', description)"""
    out = "ok", ""

    def one(c):
        if not c.holds(st.guard) or not c.adopt(st):
            return None
        if empty_signature(c, st):
            return None
        return c.term(cond)
    for c, v in decide.explore(Facts(), one, 600):
        if v is None or v == 1 and isinstance(v, int):
            continue
        d = difference(c, v, 1)
        if d is None:
            continue
        if d is MAYBE or not d.witness or c.free() or feasible(c) is False or any("('P'" in str(k) for k in d.witness):
            out = "unknown", f"case {describe(c.path)}"[:300]
        else:
            return "bad", f"case: {describe(c.path)}\nwitness: {d.witness}"
    return out


# malformed programs
FAR = [-(1 << 17), -3, -2, -1, 0, 1, 2, (1 << 17) - 1]


def pieces(version, tier):
    """single instructions with the operands that decide how they are translated"""
    yield "MOVE", {}
    yield "LOADNIL", {}
    yield "CLOSURE", {}
    yield "NEWTABLE", {}
    yield "SETTABLE", {}
    yield "CALL", {}
    for d in FAR:
        yield "JMP", {"Bx": d}
    for d in FAR:
        yield "FORLOOP", {"Bx": d}
    if version == 50:
        yield "TEST", {}
        for d in (-(1 << 17), -2, -1, 0, 1):
            yield "TFORPREP", {"Bx": d}
        for n in (0, 1, 2, 511):
            yield "TFORLOOP", {"C": n}
        for a in (0, 1, 255):
            for n in (0, 1, 31, 32, 33, 63, 99, (1 << 18) - 1):
                yield "SETLIST", {"Bx": n, "A": a}
                yield "SETLISTO", {"Bx": n, "A": a}
    else:
        for d in (-(1 << 17), -1, 0, 1):
            yield "FORPREP", {"Bx": d}
        yield "VARARG", {}
        yield "TFORLOOP", {}
        for a in (0, 1, 255):
            for b in (0, 1, 2, 31, 32, 50, 511):
                for c in (0, 1, 2, 511):
                    yield "SETLIST", {"B": b, "C": c, "A": a}


def malformed(version, tier):
    p = list(pieces(version, tier))
    for x in p:
        yield [x]
    small = [x for x in p if x[1].get("A", 0) in (0, 1) and x[1].get("Bx", 0) not in (63, 99) and x[1].get("B", 0) in (0, 1, 50) and x[1].get("C", 0) in (0, 1, 2)]
    for x in small:
        for y in small:
            if x[1] or y[1]:
                yield [x, y]
    lists = [x for x in p if x[0].startswith("SETLIST") and x[1]["A"] == 0]
    for n in ("NEWTABLE", "CLOSURE"):
        for x in lists:
            for y in lists if tier != "quick" else lists[::5]:
                yield [(n, {"A": 0}), x, y]
                yield [(n, {"A": 0}), x, ("LOADK", {"A": 1}), ("LOADNIL", {"A": 2}), y]
                yield [("JMP", {"Bx": 1}), x, y, ("JMP", {"Bx": -2})]


def programs(ctx, res):
    P = ctx.prog()
    jobs = [(v, s, e) for v in (50, 51) for s in malformed(v, ctx.tier) for e in ((0, 1) if v == 50 and len(s) == 1 else (0,))]
    jobs += [(50, [], 1), (50, [], 0), (51, [], 0)]
    valid = [(50, s, v) for s, v in program.expansion_programs("quick")] + [(50, s, v) for s in program.jump_programs(3, 1) for v in (0, 1)]
    jobs += valid
    res.coverage["programs"] = len(jobs)

    def one(j, r):
        version, spec, variadic = j
        with Recorder() as rec:
            PR = program.Programs(P)
            R = program.Ranges(a=255, bc=511)
            if any(n.startswith("SETLIST") for n, _ in spec) and len(spec) > 1:
                # where the constructor starts is decided by the registers
                spec = [(n, {"A": 1, **({"B": 60} if n == "LOADNIL" else {}), **fx}) for n, fx in spec]
            prog = [program.source(PR, version, i, n, R, fx)[0] for i, (n, fx) in enumerate(spec)]
            cfg = {"lua50.fields_per_flush": 32, "output.fields_per_flush": 50, "lua51.fields_per_flush": 32}
            try:
                PR.run(version, prog, settings=cfg, params=tm.mk("var", "parameters", 0, 255), variadic=variadic)
            except (Unsupported, Undecided) as e:
                r.coverage["not followed"] = r.coverage.get("not followed", 0) + 1
                NOTE.append(f"{spec}: {e}")
        for I in rec.all:
            examine(r, I, f"Lua 5.{version - 50} program: {spec}{'; variadic' if variadic else ''}")
    program.parallel(ctx, res, jobs, one)


NOTE = []


def tables(ctx, res):
    """the constructors of C30, through their panicking operations"""
    P = ctx.prog()
    jobs = list(dict.fromkeys(program.tables("quick")))[::3 if ctx.tier == "quick" else 1]

    def one(j, r):
        with Recorder() as rec:
            PR = program.Programs(P)
            program.table_check_one(PR, Result("", ""), "constructor", *j, rule="")
        for I in rec.all:
            examine(r, I, f"constructor {j}")
    program.parallel(ctx, res, jobs, one)


def panic_check(ctx):
    res = Result("every operation that can panic (arithmetic, indexing, unwrap, explicit panics) reached by the analyses of header, primitives, functions and instruction words for any input, "
                 "and by the translation of well-formed and malformed programs",
                 "the operation can not fail in any state that reaches it")
    P = ctx.prog()
    jobs = [(m, id) for m in (wiring, header, stream, insn, layout) for id in m.CHECKS]
    jobs += [("word", p, k) for p in program.PAIRS50 for k in range(len(program.LUA50))] + [("pool", p) for p in program.POOL_PROGRAMS]

    def one(j, r):
        with Recorder() as rec:
            if j[0] == "word":
                what = f"word of {program.LUA50[j[2]][0]}"
                program.words50(program.Programs(P), *j[1], j[2])
            elif j[0] == "pool":
                what = "constants"
                for k in range(len(list(program.pools(program.Programs(P))))):
                    program.pool_one(program.Programs(P), Result("", ""), (*j[1], k, False))
                for k in range(len(list(program.pools(program.Programs(P)))) - 1):
                    guarded(r, "pool", "constants", lambda: program.pool_one(program.Programs(P), Result("", ""), (*j[1], k, True)))
            else:
                what = f"harness of {j[1]}"
                j[0].CHECKS[j[1]](ctx)
        seen = set()
        for I in rec.all:
            examine(r, I, what, seen)
    program.parallel(ctx, res, jobs, one)
    guarded(res, "programs", "panics", lambda: programs(ctx, res))
    guarded(res, "constructors", "panics", lambda: tables(ctx, res))
    sites = operations(P)
    hit = [x for x in sites if x in res.visited]
    res.coverage["panicking operations reached"] = f"{len(hit)} of {len(sites)}"
    res.coverage["not reached"] = sorted(f"{short(a)} {b}" for a, b in sites if (a, b) not in res.visited)[:40]
    return res


def operations(P):
    """(function, place) of the checked arithmetic, indexing and explicit panics of the functions that a conversion can call"""
    out = []
    root = find_fn(P, "unify")
    for i in graph.reach(P, [root["id"]]):
        f = P.fns[i]
        if not f["local"] or not f["body"]:
            continue
        for stmts, t in f["body"]["blocks"]:
            if t[0] == "assert":
                out.append((f["path"], t[6]))
    return list(dict.fromkeys(out))


CHECKS = {"C01": panic_check}
