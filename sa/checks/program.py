"""Translation of the instructions of a function: programs of given opcodes with symbolic operands, lines and constants."""
import copy
import queue
import time

from .. import clock, models, terms as tm
from ..report import Result
from ..decide import has_internal
from ..values import Agg, Enum, GV, Ref, Seq, Unsupported, show, vmap
from .common import *
from .insn import LAYOUTS, LUA51, Insns, Layout, branch, fits, word_fields
from .stream import guarded

OP50 = {n: i for i, n in enumerate(
    "MOVE LOADK LOADBOOL LOADNIL GETUPVAL GETGLOBAL GETTABLE SETGLOBAL SETUPVAL SETTABLE NEWTABLE SELF ADD SUB MUL DIV POW UNM NOT CONCAT JMP EQ LT LE "
    "TEST CALL TAILCALL RETURN FORLOOP TFORLOOP TFORPREP SETLIST SETLISTO CLOSE CLOSURE".split())}
VARIANT = dict(MOVE="Move", LOADK="LoadK", LOADBOOL="LoadBool", LOADNIL="LoadNil", GETUPVAL="GetUpValue", GETGLOBAL="GetGlobal", GETTABLE="GetTable",
               SETGLOBAL="SetGlobal", SETUPVAL="SetUpValue", SETTABLE="SetTable", NEWTABLE="NewTable", SELF="_Self", ADD="Add", SUB="Subtract", MUL="Multiply",
               DIV="Divide", MOD="Modulo", POW="Power", UNM="Unary", NOT="Not", LEN="Length", CONCAT="Concatinate", JMP="Jump", EQ="Equals", LT="LessThan",
               LE="LessEquals", TEST="Test", TESTSET="TestSet", CALL="Call", TAILCALL="TailCall", RETURN="Return", FORLOOP="ForLoop", FORPREP="ForPrep",
               TFORLOOP="TForLoop", TFORPREP="TForPrep", SETLIST="SetList", SETLISTO="SetListO", CLOSE="Close", CLOSURE="Closure", VARARG="VarArg")


class Programs:
    """the functions upcast (Lua 5.0) and convert (Lua 5.1) applied to programs"""

    def __init__(self, P):
        self.P = P
        self.N = Insns(P)
        self.H = self.N.H
        self.fns = {50: self.H.fn("upcast"), 51: self.H.fn("convert")}
        self.ity = {50: self.N.i50, 51: self.N.i51}
        self.const_ty = self.N.element(self.H.argtype(self.fns[50], 2))
        self.constants = None
        self.H.I.unroll = 400
        self.jump_ops = {self.vidx(51, n) for n in ('JMP', 'FORLOOP', 'FORPREP')}

    # instructions
    def vidx(self, version, name):
        return variant(self.P, self.ity[version], VARIANT[name])

    def wrap(self, ty, v):
        """operand v as a value of type ty (newtypes around the numbers)"""
        t = self.P.types[ty]
        if t["k"] in ("int", "uint", "bool", "char"):
            return v
        fs = t["variants"][0]["fields"]
        if not fs:
            return Agg(ty, [])
        if len(fs) == 1:
            return Agg(ty, [self.wrap(fs[0][1], v)])
        if not isinstance(v, tuple):
            v = (v, 0)
        return Agg(ty, [self.wrap(f[1], x) for f, x in zip(fs, v)])

    def ins(self, version, name, a, *ops):
        """an instruction; operands Bx, or B and C (constant registers as pairs)"""
        i = self.vidx(version, name)
        fs = self.P.types[self.ity[version]]["variants"][i]["fields"]
        pay = []
        for n, ty in fs:
            if n == "a":
                pay.append(a)
            else:
                pay.append(self.mode(ty, ops))
        return Enum(self.ity[version], i, {i: tuple(pay)})

    def mode(self, ty, ops):
        fs = self.P.types[ty]["variants"][0]["fields"]
        if len(fs) == 1:
            return Agg(ty, [self.wrap(fs[0][1], ops[0])])
        return Agg(ty, [self.wrap(f[1], x) for f, x in zip(fs, ops)])

    def fields(self, v):
        """(variant name, a, operands) of an instruction value with a concrete opcode"""
        name = next(n for n, x in VARIANT.items() if x == self.P.types[v.ty]["variants"][v.disc]["name"])
        pay = v.pay[v.disc]
        i = [n for n, _ in self.P.types[v.ty]["variants"][v.disc]["fields"]].index("a")
        return name, pay[i], [x for x in self.flat(pay[1 - i])]

    def flat(self, v):
        if isinstance(v, Agg):
            for x in v.f:
                yield from self.flat(x)
        else:
            yield v

    # runs
    def run(self, version, prog, lines=None, constants=(), stack=None, params=None, variadic=0, settings=None, st=None):
        """prog: instruction values.  [(state, Ok: (instructions, lines, constants, stack) | Err)]"""
        P, H = self.P, self.H
        f = self.fns[version]
        self.fuel = getattr(self, "fuel", H.I.fuel)
        H.I.fuel = self.fuel
        st = st or H.start()
        sref = H.sym(H.argtype(f, len(f["sig"][0]) - 1), "settings")
        if P.types[H.argtype(f, len(f["sig"][0]) - 1)]["k"] != "ref":
            raise Unsupported("settings by value")
        self.set_settings(st, sref, settings or {})
        self.sref = sref
        args, self.cells = [], {}
        if lines is None:
            lines = [self.line(i) for i in range(len(prog))]
        vec = lambda q: Seq([("e", (x,)) for x in q], "vec") if not isinstance(q, Seq) else q
        known = [vec(prog), vec(lines)]
        if version == 50:
            constants = vec(constants)
            self.constants = H.cell(st, constants, deref_key(P, H.argtype(f, 2)))
            known += [self.constants]
        self.stack0 = self.H.sym(deref_key(P, H.argtype(f, 3 if version == 50 else 2)), "stack") if stack is None else stack
        self.stack = H.cell(st, self.stack0, deref_key(P, H.argtype(f, 3 if version == 50 else 2)))
        known += [self.stack]
        if version == 50:
            known += [H.sym(H.argtype(f, 4), "parameters") if params is None else params, variadic]
        known += [sref]
        out = []
        for s, v in H.run(st, f, known):
            out.append((s, v))
        return out

    def line(self, i):
        t = deref_key(self.P, self.H.argtype(self.fns[50], 1))
        return self.H.sym(self.P.types[t]["args"][0], f"line{i}")

    def set_settings(self, st, ref, values):
        """{'output.fields_per_flush': 50, ...}"""
        for path, v in values.items():
            which, name = path.split(".")
            s = self.H.I.load(st, ref)
            f = list(s.f)
            i = field(self.P, s.ty, which)
            g = list(f[i].f)
            g[field(self.P, f[i].ty, name)] = v
            f[i] = Agg(f[i].ty, g)
            self.H.I.store(st, ref, Agg(s.ty, f))


def deref_key(P, t):
    while P.types[t]["k"] == "ref":
        t = P.types[t]["to"]
    return t


def operand(i, n, hi, lo=0):
    """operand n of the input instruction i"""
    return tm.mk("var", f"{n}{i}", lo, hi)


BX = {"LOADK", "GETGLOBAL", "SETGLOBAL", "CLOSURE", "SETLIST50", "SETLISTO"}


class Ranges:
    """largest operands of the input: no instruction reaches past the stack limit (C29 covers it)"""

    def __init__(self, a=63, bc=120, bx=(1 << 18) - 1):
        self.a, self.bc, self.bx = a, bc, bx


def source(PR, version, i, name, R, fixed=()):
    """input instruction i with symbolic operands, except the fixed ones: (value, spec form)"""
    fixed = dict(fixed)
    a = fixed.get("A", operand(i, "A", R.a))
    vi = PR.vidx(version, name)
    mode = next(ty for n, ty in PR.P.types[PR.ity[version]]["variants"][vi]["fields"] if n != "a")
    fs = PR.P.types[mode]["variants"][0]["fields"]
    if len(fs) == 1:
        b = fixed.get("Bx", operand(i, "Bx", R.bx))
        return PR.ins(version, name, a, b), (name, a, b)
    ops = []
    for n, (_, ty) in zip("BC", fs):
        k = len(list(PR.flat(PR.wrap(ty, (0, 0)))))
        if not k:
            ops.append(0)
            continue
        v = fixed.get(n, operand(i, n, R.bc))
        ops.append((v, fixed.get(n + "k", operand(i, n + "k", 1))) if k == 2 else v)
    return PR.ins(version, name, a, *ops), (name, a, *[o for o, (_, ty) in zip(ops, fs) if list(PR.flat(PR.wrap(ty, (0, 0))))])


class Emit:
    """an instruction of the specified output"""

    def __init__(self, name, a, *ops, line=0, target=None, of=None):
        self.name, self.a, self.ops, self.line = name, a, list(ops), line
        self.target = target        # source instruction that a jump has to lead to, or an Emit
        self.of = of


DIRECT = set("MOVE LOADK LOADBOOL LOADNIL GETUPVAL GETGLOBAL GETTABLE SETGLOBAL SETUPVAL SETTABLE NEWTABLE SELF ADD SUB MUL DIV POW UNM NOT CONCAT EQ LT LE "
             "CALL TAILCALL RETURN CLOSE CLOSURE".split())


class Refused(Exception):
    def __init__(self, name):
        self.name = name


def translate50(prog, lines, variadic=0, params=0):
    """the Lua 5.1 program for a Lua 5.0 program; constants as ('str', text), ('tmp', key), ('nil',)"""
    out, start = [], []

    def emit(*a, **k):
        e = Emit(*a, **k)
        out.append(e)
        return e
    for i, (name, a, *ops) in enumerate(prog):
        line = lines[i]
        at = len(out)

        def e(name, a, *ops, **k):
            return emit(name, a, *ops, line=line, of=i, **k)
        if name in DIRECT:
            e(name, a, *ops)
        elif name == "TEST":
            e("TESTSET", a, (ops[0], 0), ops[1])
        elif name == "JMP":
            e("JMP", a, None, target=i + 1 + ops[0])
        elif name == "FORLOOP":
            # the loop variable of the body lives where Lua 5.1 keeps its copy of the index
            save = e("SETGLOBAL", tm.add(a, 3), ("tmp", i))
            start.append(save)
            j = i + 1 + ops[0]
            if not 0 <= j <= i:
                raise Refused("UnexpectedForwardJump")
            before = start[j]
            restore = Emit("GETGLOBAL", tm.add(a, 3), ("tmp", i), line=before.line, of=i)
            e("FORLOOP", a, None, target=restore)
            out.insert(out.index(before), restore)
            continue
        elif name == "TFORLOOP":
            c = ops[-1]
            if c == 0:
                e("TFORLOOP", a, 1)
            else:
                base = tm.add(a, c + 3)
                for k in range(3):
                    e("MOVE", tm.add(base, k), tm.add(a, k))
                e("CALL", base, 3, c + 2)
                for k in range(c, -1, -1):
                    e("MOVE", tm.add(a, 2 + k), tm.add(base, k))
                e("LOADK", base, ("nil",))
                e("EQ", 0, (tm.add(a, 2), 0), (base, 0))
        elif name == "TFORPREP":
            a1, a2 = tm.add(a, 1), tm.add(a, 2)
            e("SETGLOBAL", a1, ("tmp", (i, 1)))
            e("SETGLOBAL", a2, ("tmp", (i, 2)))
            e("GETGLOBAL", a1, ("str", "type"))
            e("MOVE", a2, a)
            e("CALL", a1, 2, 2)
            e("LOADK", a2, ("str", "table"))
            e("EQ", 0, (a1, 0), (a2, 0))
            skip = e("JMP", a, None)
            e("SETGLOBAL", a, ("tmp", (i, 1)))
            e("GETGLOBAL", a, ("str", "next"))
            skip.target = e("GETGLOBAL", a1, ("tmp", (i, 1)))
            e("GETGLOBAL", a2, ("tmp", (i, 2)))
            e("JMP", a, None, target=i + 1 + ops[0])
        else:
            raise Unsupported(name)
        start.append(out[at])
    if variadic:
        first = out[0].line if out else 0
        p1 = tm.add(params, 1)
        out[:0] = [Emit("NEWTABLE", p1, line=first), Emit("VARARG", tm.add(params, 2), 0, line=first), Emit("SETLIST", p1, 0, 1, line=first),
                   Emit("MOVE", params, p1, line=first)]
    for p, x in enumerate(out):
        if x.target is not None:
            to = x.target if isinstance(x.target, Emit) else start[x.target] if 0 <= x.target < len(start) else None
            # the distance of a jump that leaves the function has no meaning
            x.ops = [out.index(to) - p - 1 if to is not None else ANY]
    return out


class Names:
    """constants of the output as numbers: the same text the same number; temporary names in the order of their first use"""

    def __init__(self):
        self.ids, self.tmp = {}, {}

    def key(self, k):
        if k[0] == "tmp":
            return 2000 + self.tmp.setdefault(k[1], len(self.tmp))
        return 1000 + INTERN.setdefault(k, len(INTERN))


INTERN = {}


def form(PR, name, a, ops):
    """(opcode, a, operands) as comparable value"""
    op = PR.vidx(51, name)
    return Agg("ins", [op, ANY if name == "JMP" else a] + ops)


def expected(PR, out):
    names = Names()
    rows, lines = [], []
    for x in out:
        ops = []
        for o in x.ops:
            if isinstance(o, tuple) and o and isinstance(o[0], str):
                ops.append(names.key(o))
            elif isinstance(o, tuple):
                ops += list(o)
            else:
                ops.append(o)
        rows.append(("e", (form(PR, x.name, x.a, ops),)))
        lines.append(("e", (x.line,)))
    return Agg("program", [Seq(rows, "vec"), Seq(lines, "vec")])


TMP = "__%lunify%"


def constant(PR, v):
    """key of a constant that the translation has added"""
    if not isinstance(v.disc, int):
        return None
    n = PR.P.types[v.ty]["variants"][v.disc]["name"]
    if n == "Nil":
        return ("nil",)
    if n == "String":
        q = v.pay[v.disc][0]
        bs = models.concrete_bytes(q)
        if bs and bs[-1] == 0:
            t = bytes(bs[:-1]).decode("latin-1")
            return ("tmp", t) if t.startswith(TMP) else ("str", t)
    return ("other", show(v)[:80])


def pool_items(q):
    """(number of constants in front, those behind) of a list with at most a part of any length in front"""
    segs = list(q.segs)
    base = 0
    if segs and segs[0][0] == "x":
        base = segs.pop(0)[2]
    if any(y[0] != "e" for y in segs) or q.upds:
        return 0, []
    return base, [x for y in segs for x in y[1]]


def observed(PR, c, v, constants):
    """the same form of a computed program; constants: see pool_items"""
    names = Names()
    ins, lines = v
    rows = []
    if any(q[0] != "e" for q in ins.segs):
        raise Unsupported("output of unknown length")
    for x in (x for q in ins.segs for x in q[1]):
        x = c.val(x)
        if not isinstance(x.disc, int):
            raise Unsupported("output instruction of unknown opcode")
        name, a, ops = PR.fields(x)
        if name in ("GETGLOBAL", "SETGLOBAL", "LOADK"):
            base, items = constants
            at = tm.sub(ops[0], base)
            if base != 0:
                if not isinstance(at, int):
                    at = next((j for j in range(len(items)) if c.true(tm.cmp("Eq", ops[0], tm.add(base, j)))), None)
            if isinstance(at, int) and 0 <= at < len(items):
                ops = [names.key(constant(PR, c.val(items[at])))]
        rows.append(("e", (form(PR, name, a, ops),)))
    return Agg("program", [Seq(rows, "vec"), lines])


# what of a program a check compares
def keep_all(p):
    return p


def mask(p, ins, jumps, lines, PR):
    """replace what is not compared by ANY"""
    rows, ln = p.f
    out = []
    for x in (y for q in rows.segs for y in q[1]):
        j = x.f[0] in PR.jump_ops
        xf = list(x.f)
        if j:
            f = [xf[0], xf[1] if ins else ANY, xf[2] if jumps else ANY]
        else:
            f = xf if ins else [xf[0]] + [ANY] * (len(xf) - 1)
        out.append(("e", (Agg("ins", f),)))
    return Agg("program", [Seq(out, "vec"), ln if lines else Seq([("e", (ANY,))] * sum(len(q[1]) for q in ln.segs), "vec") if all(q[0] == "e" for q in ln.segs) else ln])


def compare(PR, res, name, where, prog, rule, want, rs, ins=True, jumps=True, lines=True, limit=3000, extra=None):
    """want: list of Emit | Refused"""
    H = PR.H
    if isinstance(want, Refused):
        target = Enum("out", 1, {1: (H.error(want.name),)})
    else:
        target = Enum("out", 0, {0: (mask(expected(PR, want), ins, jumps, lines, PR),)})

    def actual(c, st, v):
        d = c.term(v.disc)
        if not isinstance(d, int):
            raise Unsupported("result that is not resolved")
        if d == 1:
            return Enum("out", 1, {1: v.pay[1]})
        consts = c.val(H.I.load(st, PR.constants)) if PR.constants is not None else Seq([], "vec")
        known = pool_items(consts)
        pair = c.val(v.pay[0][0])
        got = observed(PR, c, (c.val(pair.f[0]), c.val(pair.f[1])), known)
        return Enum("out", 0, {0: (mask(got, ins, jumps, lines, PR),)})
    Cases(res, H).check(name, where, rs, lambda c: target, rule, actual=actual, limit=limit)


def text(prog):
    """a program for the report"""
    return "; ".join(f"{n}" + (f" {o[0]:+d}" if n in ("JMP", "FORLOOP", "TFORPREP", "FORPREP") and isinstance(o[0], int) else f" C={o[-1]}" if n == "TFORLOOP" else "")
                     for n, a, *o in prog)


def parallel(ctx, res, jobs, one, workers=8):
    """run one(job, result) for every job, in several processes"""
    import multiprocessing as mp
    import os
    n = 1 if mp.current_process().name.startswith("worker") else max(1, min(workers, os.cpu_count() or 1, len(jobs)))
    if n == 1:
        for j in jobs:
            guarded(res, str(j)[:60], "program", lambda: one(j, res))
        return

    def work(k, q):
        r = Result("", "")
        clock.ends.clear()
        some = 0
        try:
            for j in jobs[k::n]:
                guarded(r, str(j)[:60], "program", lambda: one(j, r))
                if r.violations:
                    # reported at once
                    for v in r.violations:
                        v.detail = str(v.detail)
                    some += len(r.violations)
                    q.put((False, 0, 0, r.violations, [], {}, set()))
                    r.violations = []
                if some > 3:
                    break
            q.put((True, r.obligations, r.discharged, [], [tuple(map(str, u)) for u in r.undec], {k: n for k, n in r.coverage.items() if isinstance(n, int)}, getattr(r, "visited", set())))
        except BaseException as e:      # noqa: the parent must not wait for ever
            q.put((True, 0, 0, [], [("analysis", "program", f"{type(e).__name__}: {e}")], {}, set()))
    m = mp.get_context("fork")
    q = m.Queue()
    ps = [m.Process(target=work, args=(k, q), name=f"worker{k}") for k in range(n)]
    for p in ps:
        p.daemon = True         # ended with this process
        p.start()
    # the workers keep to the time limit themselves, what they found before is of interest
    clock.arm(None)
    left, end = n, clock.END + 30
    while left:
        try:
            last, o, d, v, u, c, seen = q.get(timeout=max(1, end - time.time()))
        except queue.Empty:
            res.undecided("analysis", "program", "not finished after a violation was found" if res.violations else "time limit")
            break
        left -= last
        res.obligations += o
        res.discharged += d
        res.violations += v
        res.undec += u
        for k, n in c.items():
            res.coverage[k] = res.coverage.get(k, 0) + n
        if seen:
            res.visited = getattr(res, "visited", set()) | seen
        if v:
            # the rest is of less interest
            end = min(end, time.time() + 45)
    for p in ps:
        if left:
            p.terminate()
        p.join()
    if clock.ends:
        clock.arm(clock.ends[-1])


CFG50 = {"output.stack_limit": 250, "output.fields_per_flush": 50, "lua50.fields_per_flush": 32, "lua50.stack_limit": 250}
ROOM = ("A below 64", 63)


def run50(PR, res, name, spec, variadic=0, rule="", have=None, params=None, **what):
    """spec: [(opcode, fixed operands)]"""
    R = Ranges()
    prog = [source(PR, 50, i, n, R, fx) for i, (n, fx) in enumerate(spec)]
    if params is None:
        params = tm.mk("var", "parameters", 0, 245)
    given = [PR.line(i) for i in range(len(prog) if have is None else have)]
    lines = (given + [0] * len(prog))[:len(prog)]
    rs = PR.run(50, [x for x, _ in prog], settings=CFG50, params=params, variadic=variadic, lines=given)
    forms = [y for _, y in prog]
    try:
        want = translate50(forms, lines, variadic, params)
    except Refused as e:
        want = e
    compare(PR, res, name, text(forms) + ("; variadic" if variadic else ""), forms, rule, want, rs, **what)


def jump_programs(n, most, kinds="MTJFP"):
    """programs of n instructions with up to `most` jumps, every distance inside the function"""
    import itertools
    for ks in itertools.product(kinds, repeat=n):
        js = [i for i, k in enumerate(ks) if k in "JFP"]
        if not js or len(js) > most:
            continue
        dist = []
        for i in js:
            lo, hi = (-(i + 1), n - i - 2) if ks[i] in "JP" else (-(i + 1), -1)
            dist.append(range(lo, hi + 1))
        for ds in itertools.product(*dist):
            d = dict(zip(js, ds))
            starts = [i + 1 + d[i] for i in js if ks[i] == "F"]
            if len(set(starts)) < len(starts):
                continue        # the compiler starts the body of a loop with its preparation or a statement, never with another body
            yield [(dict(M="MOVE", T="TFORLOOP", J="JMP", F="FORLOOP", P="TFORPREP")[k], {"C": 1} if k == "T" else {"Bx": d[i]} if k in "JFP" else {}) for i, k in enumerate(ks)]


def jump_check(ctx):
    res = Result("Lua 5.0 programs of moves, jumps, loops and loop preparations with every jump distance inside the function; jumps and loops of Lua 5.0 and 5.1 over constructors whose pages change; operands and lines symbolic",
                 "every jump leads to the first instruction generated for its original target, a loop to the restore of its register")
    P = ctx.prog()
    PR = Programs(P)
    jobs = []
    for n in (2, 3):
        jobs += [(s, 0) for s in jump_programs(n, 2)]
    jobs += [(s, 0) for s in jump_programs(4, 1)]
    jobs += [(s, 1) for s in jump_programs(3, 1)]
    if ctx.tier != "quick":
        jobs += [(s, 0) for s in jump_programs(4, 2)] + [(s, 0) for s in jump_programs(5, 1)] + [(s, 1) for s in jump_programs(4, 1)]
    res.coverage["programs"] = len(jobs)
    # over many instructions
    fill = ("MOVE", {"A": 5, "B": 6})
    for n in (126, 127, 128, 254, 255, 256, 300) if ctx.tier == "quick" else (*range(120, 135), *range(250, 260), 300):
        jobs += [([fill] + [("TFORLOOP", {"A": 7, "C": 1})] + [fill] * n + [("JMP", {"Bx": d}), fill], 0) for d in (-(n + 1), -(n + 2), -(n + 3))]
        jobs += [([fill, ("JMP", {"Bx": n + d})] + [fill] * n + [("TFORLOOP", {"A": 7, "C": 1}), fill, fill], 0) for d in (-1, 0, 1)]
        jobs.append(([("JMP", {"Bx": n + 1}), ("TFORLOOP", {"A": 7, "C": 1})] + [fill] * n + [("FORLOOP", {"A": 1, "Bx": -(n + 2)}), fill], 0))
    jobs += list(frames(ctx.tier))
    res.coverage["programs"] = len(jobs)
    parallel(ctx, res, jobs, lambda j, r: run50(PR, r, "jump", j[0], j[1], "jump target", ins=False, lines=False) if len(j) == 2 else frame_check_one(PR, r, *j))
    return res


# table constructors
NESTED = {"1": "K", "2": "KKK", "3": "KCKHKK", "4": "KKKKKKK"}


class Table:
    """the instructions of a constructor with the given fields, pages of `page` values, as the compiler emits them; every value is described
    by the same symbolic operands whatever the page size"""

    def __init__(self, version, page, fields, tail=None, source_page=None, at=None):
        self.version, self.page, self.fields = version, page, fields
        self.l = at[0] if at else tm.mk("var", "local", 0, 12)
        self.a = at[1] if at else tm.add(tm.add(self.l, 1), tm.mk("var", "above", 0, 8))
        self.out = []
        self.tail = tail
        self.total = sum(2 if k == "N" else 1 for k in fields if k != "H") + (1 if tail else 0)
        self.source_page = source_page
        self.origin = version
        self.name, self.inner, self.nested, self.bad = "", None, {}, False

    def op(self, i, n, hi=255, lo=0):
        return tm.mk("var", f"field{self.name}{i}.{n}", lo, hi)

    def emit(self, name, a, *ops, id=None, to=None):
        e = Emit(name, a, *ops, of=id, target=to)
        self.out.append(e)
        return e

    def value(self, i, kind, r, last):
        """the instructions that put value i into register r"""
        k = lambda n: self.op(i, n, (1 << 18) - 1)
        l = self.l
        if kind == "K":
            self.emit("LOADK", r, k("x"), id=(i, 0))
        elif kind == "L":
            self.emit("MOVE", r, l, id=(i, 0))
        elif kind == "C":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("LOADK", tm.add(r, 1), k("y"), id=(i, 1))
            self.emit("CALL", r, 2, 2, id=(i, 2))
        elif kind == "O":
            self.emit("TESTSET", r, (l, 0), 1, id=(i, 0))
            self.emit("JMP", 0, None, id=(i, 1), to=("after", 1))
            self.emit("LOADK", r, k("x"), id=(i, 2))
        elif kind == "E":
            self.emit("EQ", 1, (l, 0), (self.op(i, "c"), 1), id=(i, 0))
            self.emit("JMP", 0, None, id=(i, 1), to=("after", 1))
            self.emit("LOADBOOL", r, 0, 1, id=(i, 2))
            self.emit("LOADBOOL", r, 1, 0, id=(i, 3))
        elif kind == "T":
            self.emit("NEWTABLE", r, id=(i, 0))
            self.emit("GETGLOBAL", tm.add(r, 1), k("x"), id=(i, 1))
            if self.version == 50:
                self.emit("SETLIST50", r, 0, id=(i, 2))
            else:
                self.emit("SETLIST", r, 1, 1, id=(i, 2))
        elif kind == "U":
            self.emit("CLOSURE", r, k("x"), id=(i, 0))
            self.emit("MOVE", 0, l, id=(i, 1))
        elif kind == "S":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("SELF", r, r, (self.op(i, "c"), 1), id=(i, 1))
            self.emit("LOADK", tm.add(r, 2), k("y"), id=(i, 2))
            self.emit("CALL", r, 3, 2, id=(i, 3))
        elif kind == "B":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("GETGLOBAL", tm.add(r, 1), k("y"), id=(i, 1))
            self.emit("ADD", r, (r, 0), (tm.add(r, 1), 0), id=(i, 2))
        elif kind in "-*/^%":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            name = {"-": "SUB", "*": "MUL", "/": "DIV", "^": "POW", "%": "MOD"}[kind]
            self.emit(name, r, *(((r, 0), (self.op(i, "c"), 1)) if i % 2 else ((self.op(i, "c"), 1), (r, 0))), id=(i, 1))
        elif kind == "G":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("GETTABLE", r, r, (self.op(i, "c"), 1), id=(i, 1))
        elif kind == "I":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("GETGLOBAL", tm.add(r, 1), k("y"), id=(i, 1))
            self.emit("GETTABLE", r, r, (tm.add(r, 1), 0), id=(i, 2))
        elif kind in "M!#":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit({"M": "UNM", "!": "NOT", "#": "LEN"}[kind], r, r, *([(0, 0)] if kind == "M" else []), id=(i, 1))
        elif kind == "V":
            self.emit("VARARG", r, 2, id=(i, 0))
        elif kind == "u":
            self.emit("GETUPVAL", r, self.op(i, "x"), id=(i, 0))
        elif kind == ".":
            for n in range(3):
                self.emit("GETGLOBAL", tm.add(r, n), k(f"x{n}"), id=(i, n))
            self.emit("CONCAT", r, r, tm.add(r, 2), id=(i, 3))
        elif kind == "F":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("MOVE", tm.add(r, 1), l, id=(i, 1))
            self.emit("LOADNIL", tm.add(r, 2), tm.add(r, 3), id=(i, 2))
            self.emit("GETUPVAL", tm.add(r, 4), self.op(i, "y"), id=(i, 3))
            self.emit("CALL", r, 5, 2, id=(i, 4))
        elif kind == "D":
            # f(g())
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("GETGLOBAL", tm.add(r, 1), k("y"), id=(i, 1))
            self.emit("CALL", tm.add(r, 1), 1, 0, id=(i, 2))
            self.emit("CALL", r, 0, 2, id=(i, 3))
        elif kind == "A":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            if self.origin == 50:
                self.emit("TESTSET", r, (r, 0), 0, id=(i, 1))
            else:
                self.emit("TEST", r, 0, 0, id=(i, 1))
            self.emit("JMP", 0, None, id=(i, 2), to=("after", 1))
            self.emit("GETGLOBAL", r, k("y"), id=(i, 3))
        elif kind in "Qq":
            self.emit("GETGLOBAL", r, k("x"), id=(i, 0))
            self.emit("GETGLOBAL", tm.add(r, 1), k("y"), id=(i, 1))
            self.emit("LT" if kind == "Q" else "LE", 1, (r, 0), (tm.add(r, 1), 0), id=(i, 2))
            self.emit("JMP", 0, None, id=(i, 3), to=("after", 1))
            self.emit("LOADBOOL", r, 0, 1, id=(i, 4))
            self.emit("LOADBOOL", r, 1, 0, id=(i, 5))
        elif kind == "P":
            self.emit("CLOSURE", r, k("x"), id=(i, 0))
            self.emit("GETUPVAL", 0, self.op(i, "y"), id=(i, 1))
            self.emit("MOVE", 0, l, id=(i, 2))
        elif kind == "h":
            # a table with a named field only
            self.emit("NEWTABLE", r, id=(i, 0))
            self.emit("SETTABLE", r, (self.op(i, "c"), 1), (self.op(i, "d"), 1), id=(i, 1))
        elif kind in NESTED:
            # a constructor inside
            t = Table(self.version, self.page, NESTED[kind], None, self.source_page)
            t.l, t.a, t.name, t.origin = self.l, r, f"{i}.", self.origin
            if self.inner is None:
                inner = t.source()
                self.nested[i] = [copy.copy(e) for e in inner] if inner else inner
            else:
                inner = t.wanted(self.inner[i])
            for e in inner or [None]:
                if e is None:
                    self.bad = True
                    break
                e.of = (i, e.of)
                self.out.append(e)
        else:
            raise Unsupported(kind)

    def setlist(self, count, number, id, opened=False):
        """flush `count` values, the last of which is value `number` (from 1)"""
        if self.version == 50:
            self.emit("SETLISTO" if opened else "SETLIST50", self.a, number - 1, id=id)
        else:
            self.emit("SETLIST", self.a, 0 if opened else count, (number - 1) // self.page + 1, id=id)

    def source(self):
        a, n, pending = self.a, 0, 0
        self.emit("NEWTABLE", a, id="new")

        def close(i):
            nonlocal pending
            if pending == self.page:
                self.setlist(pending, n, ("flush", n))
                pending = 0
        for i, k in enumerate(self.fields):
            close(i)
            r = tm.add(a, 1 + pending)
            if k == "H":
                self.hash(i, r)
            elif k == "N":
                if pending + 2 > self.page:
                    return None
                self.emit("LOADNIL", r, tm.add(r, 1), id=(i, 0))
                n += 2
                pending += 2
            else:
                self.value(i, k, r, n)
                n += 1
                pending += 1
        close(len(self.fields))
        if self.tail:
            r = tm.add(a, 1 + pending)
            if self.tail == "V":
                self.emit("VARARG", r, 0, id=("t", 0))
            else:
                self.emit("GETGLOBAL", r, self.op("t", "x"), id=("t", 0))
                self.emit("CALL", r, 1, 0, id=("t", 1))
            self.setlist(0, n + 1, "last", True)
        elif pending:
            self.setlist(pending, n, "last")
        return None if self.bad else self.out

    def hash(self, i, r):
        self.emit("GETGLOBAL", r, self.op(i, "x", (1 << 18) - 1), id=(i, 0))
        self.emit("SETTABLE", self.a, (self.op(i, "c"), 1), (r, 0), id=(i, 1))

    def wanted(self, source, inner=None):
        """the same constructor with pages of the output: a page is stored directly behind its last value if values follow; the last page is
        stored where the input stores its last one"""
        a, n, pending, done = self.a, 0, 0, False
        self.inner = inner or {}
        if self.version == 51 and self.tail and self.total <= self.source_page:
            return [copy.copy(e) for e in source]        # a single open page may hold any number of values
        final = [e.of for e in source if e.of == "last" or isinstance(e.of, tuple) and e.of[0] == "flush"]
        final = final[-1] if final else None
        self.emit("NEWTABLE", a, id="new")

        def store():
            nonlocal pending
            if pending == self.page and n < self.total:
                self.setlist(pending, n, ("page", n))
                pending = 0

        def last():
            nonlocal pending, done
            if final is not None and final != "last" and n == final[1] and not done and n == self.total:
                self.setlist(pending, n, final)
                pending, done = 0, True
        for i, k in enumerate(self.fields):
            last()
            r = tm.add(a, 1 + pending)
            if k == "H":
                self.hash(i, r)
            elif k == "N":
                if pending + 2 > self.page:
                    self.emit("LOADNIL", r, r, id=(i, 0))
                    n += 1
                    pending += 1
                    store()
                    r = tm.add(a, 1 + pending)
                    self.emit("LOADNIL", r, r, id=(i, 0)).line = ANY     # of the LOADNIL or of the next instruction
                    n += 1
                    pending += 1
                else:
                    self.emit("LOADNIL", r, tm.add(r, 1), id=(i, 0))
                    n += 2
                    pending += 2
                store()
            else:
                self.value(i, k, r, n)
                n += 1
                pending += 1
                store()
        last()
        if self.tail:
            r = tm.add(a, 1 + pending)
            if self.tail == "V":
                self.emit("VARARG", r, 0, id=("t", 0))
            else:
                self.emit("GETGLOBAL", r, self.op("t", "x"), id=("t", 0))
                self.emit("CALL", r, 1, 0, id=("t", 1))
            self.setlist(0, n + 1, "last", True)
        elif final == "last":
            self.setlist(pending, n, "last")
        return self.out


def input_values(PR, version, ins):
    """the instructions of a constructor as input"""
    values = []
    for e in ins:
        ops = [1 if o is None else o for o in e.ops]
        nm = e.name
        if version == 50:
            nm = {"SETLIST50": "SETLIST", "TESTSET": "TEST"}.get(nm, nm)
            if e.name == "TESTSET":
                ops = [ops[0][0], ops[1]]
        elif nm == "SETLIST50":
            nm = "SETLIST"
        if not ops:
            ops = [0, 0]
        if len(ops) == 1:
            ops.append(0)
        values.append(PR.ins(version, nm, e.a, *ops))
    return values


FRAMES50 = [("JMP", "JMP"), ("JMP", "FORLOOP")]
FRAMES51 = [("JMP", "JMP"), ("FORPREP", "FORLOOP"), ("JMP", "FORLOOP"), ("FORPREP", "JMP")]


def frames(tier):
    """(version, input page, output page, constructors, instruction over them and its target, instruction back and its target)"""
    sizes = [(2, 3), (5, 2), (3, 5)] + ([] if tier == "quick" else [(4, 2), (2, 4), (4, 4)])
    bodies = [["KK"], ["KKKKKK"], ["KKKKK", "KKKK"]] + ([] if tier == "quick" else [["CTOK"], ["KKKK", "K", "KKKKKKK"], ["KHKOKE", "KKKNK"]])
    for v in (50, 51):
        for pin, pout in sizes:
            for body in bodies:
                for over, back in FRAMES50 if v == 50 else FRAMES51:
                    for o in ("behind", "back", "end"):
                        for b in ("first", "over", "table"):
                            yield v, pin, pout, tuple(body), over, o, back, b
        # to every instruction inside
        for pin, pout in sizes:
            for body in ["KKKKKK", "KCOLKHK"] + ([] if tier == "quick" else ["TKUKBKKN", "KKKKKKKKKKKK"]):
                n = len(Table(v, pin, body).source() or ())
                for i in range(1, n):
                    yield v, pin, pout, (body,), "JMP", i, "JMP", "first"
                    yield v, pin, pout, (body,), "JMP", "end", "JMP", i


def counterpart(ins, out, i):
    """the instruction of the output that a jump to instruction i of a constructor leads to"""
    stores = lambda e: e.of == "last" or isinstance(e.of, tuple) and e.of[0] in ("flush", "page")
    number = lambda e: e.of if e.of == "last" else e.of[1]
    for p in range(i, len(ins)):
        e = ins[p]
        for k, o in enumerate(out):
            if o is None:
                continue
            if stores(e) and stores(o) and number(e) == number(o) or not stores(e) and o.of == e.of:
                # or the store that is inserted in front of it
                if k and stores(out[k - 1]) and not (p and stores(ins[p - 1]) and number(ins[p - 1]) == number(out[k - 1])):
                    return out[k - 1]
                return o
    return None


def frame_check_one(PR, res, version, pin, pout, bodies, over, o, back, b):
    """MOVE; over; constructors; MOVE; back; RETURN"""
    ins, out = [], []
    for t, fields in enumerate(bodies):
        src = Table(version, pin, fields)
        src.name = f"{t}."
        x = src.source()
        tab = Table(51, pout, fields, None, pin if version == 51 else 0)
        tab.origin, tab.name = version, f"{t}."
        y = tab.wanted(x, src.nested)
        if version == 51 and pin == pout:
            y = [copy.copy(e) for e in x]
        ins += x
        out += y
    n = len(ins)
    spot = {"behind": n + 2, "back": n + 3, "end": n + 4, "first": 0, "over": 1, "table": 2}
    spot.update({i: 2 + i for i in range(n)})
    l = tm.mk("var", "loop", 0, 12)
    loop = tm.add(l, 14)
    dist = lambda p, q: q - p - 1
    values = [PR.ins(version, "MOVE", l, l, 0), PR.ins(version, over, loop, dist(1, spot[o]))] + input_values(PR, version, ins)
    values += [PR.ins(version, "MOVE", l, l, 0), PR.ins(version, back, loop, dist(n + 3, spot[b])), PR.ins(version, "RETURN", 0, 1, 0)]
    lines = [PR.line(i) for i in range(len(values))]
    first = [Emit("MOVE", l, l), Emit(over, loop, None)]
    last = [Emit("MOVE", l, l), Emit(back, loop, None), Emit("RETURN", 0, 1)]
    starts = {"first": first[0], "over": first[1], "table": out[0], "behind": last[0], "back": last[1], "end": last[2]}
    for i in range(n):
        starts[i] = counterpart(ins, out, i) or last[0]
    want = first + out + last
    goto = {id(first[1]): starts[o], id(last[1]): starts[b]}
    if version == 50 and back == "FORLOOP":
        save = Emit("SETGLOBAL", tm.add(loop, 3), ("tmp", 0))
        restore = Emit("GETGLOBAL", tm.add(loop, 3), ("tmp", 0))
        want.insert(want.index(last[1]), save)
        want.insert(want.index(starts[b]), restore)
        goto[id(last[1])] = restore
        if starts[o] is last[1]:
            goto[id(first[1])] = save
    for p, e in enumerate(want):
        if id(e) in goto:
            e.ops = [want.index(goto[id(e)]) - p - 1]
        elif e.name == "JMP":
            e.ops = [1]
        e.line = ANY
    cfg = dict(CFG50)
    cfg.update({"output.fields_per_flush": pout, ("lua50" if version == 50 else "lua51") + ".fields_per_flush": pin})
    rs = PR.run(version, values, settings=cfg, lines=lines, params=0)
    if version != 50:
        PR.constants = None
    where = f"Lua 5.{version - 50}: {over} to {o}, constructors {' '.join(bodies)} with pages of {pin}, output {pout}, {back} to {b}"
    compare(PR, res, "jump over constructors", where, None, "jump target", want, rs, lines=False)


def table_check_one(PR, res, name, version, pin, pout, fields, tail=False, at=None, jumps=True, rule="", **what):
    src = Table(version, pin, fields, tail, at=at)
    ins = src.source()
    if ins is None:
        return
    out = Table(51, pout, fields, tail, pin if version == 51 else 0, at)
    out.origin = version
    out = out.wanted(ins, src.nested)
    # a jump over the constructor and one back to it
    n = len(ins)
    lines = [PR.line(i) for i in range(n + 3)]
    values = [PR.ins(version, "JMP", 0, n + 1)] + input_values(PR, version, ins)
    values += [PR.ins(version, "JMP", 0, -(n + 1)), PR.ins(version, "RETURN", 0, 1, 0)]
    place = {}
    for p, e in enumerate(ins):
        place.setdefault(e.of, p + 1)
    want = [Emit("JMP", 0, None, line=lines[0])] + out + [Emit("JMP", 0, None, line=lines[n + 1]), Emit("RETURN", 0, 1, line=lines[n + 2])]
    nxt = lines[n + 1]
    for e in reversed(out):
        e.line = nxt = ANY if e.line is ANY else lines[place[e.of]] if e.of in place else nxt
    m = len(out)
    for p, e in enumerate(want):
        if e.name == "JMP":
            e.ops = [m + 1 if p == 0 else -(m + 1) if p == m + 1 else 1]
    cfg = dict(CFG50)
    cfg.update({"output.fields_per_flush": pout, ("lua50" if version == 50 else "lua51") + ".fields_per_flush": pin})
    rs = PR.run(version, values, settings=cfg, lines=lines, params=0)
    if version != 50:
        PR.constants = None
    compare(PR, res, name, f"Lua 5.{version - 50} constructor with pages of {pin}, output {pout}: {fields}{'...' if tail is True else f'...{tail}' if tail else ''}{f', table in register {at[1]}, local in {at[0]}' if at else ''}", None, rule, want, rs, **what)


def fixed_tables(tier):
    """constructors in known registers"""
    for v in (50, 51):
        for pin, pout in [(2, 3), (5, 2), (3, 5)]:
            for k in "LUPOFDT13":
                for at in ((0, 1), (3, 4), (0, 2)) if tier == "quick" else ((0, 1), (3, 4), (0, 2), (1, 2), (2, 3), (9, 14), (40, 41)):
                    for f in (k + "KKKK", "KK" + k + "KK", "KKKK" + k, "KK" + k + "H" + k + "K"):
                        yield v, pin, pout, f, False, at
                    yield v, pin, pout, "KKK" + k + "KK", True, at
        for at in ((0, 1), (100, 120)):
            yield v, 150, 100, "K" * 125, False, at
            yield v, 100, 127, "K" * 130, False, at


def single_page(PR, res, page, bx):
    """one page of a Lua 5.0 constructor, wherever in the constructor it is, with pages of the same size in the output"""
    n = bx % page + 1
    a = tm.mk("var", "table", 0, 60)
    x = [tm.mk("var", f"value {i}", 0, 1000) for i in range(n)]
    values = [PR.ins(50, "NEWTABLE", a, 0, 0)] + [PR.ins(50, "LOADK", tm.add(a, 1 + i), x[i]) for i in range(n)] + [PR.ins(50, "SETLIST", a, bx)]
    want = [Emit("NEWTABLE", a)] + [Emit("LOADK", tm.add(a, 1 + i), x[i]) for i in range(n)] + [Emit("SETLIST", a, n, bx // page + 1)]
    lines = [PR.line(i) for i in range(len(values))]
    cfg = dict(CFG50)
    cfg.update({"output.fields_per_flush": page, "lua50.fields_per_flush": page})
    rs = PR.run(50, values, settings=cfg, lines=lines, params=0)
    compare(PR, res, "page of a constructor", f"Lua 5.0 SETLIST with Bx {bx}, pages of {page}", None, "table constructor", want, rs, lines=False)


def tables(tier):
    """(version, input page, output page, fields, open)"""
    if tier == "same":
        for page in (1, 2, 5):
            for f in ("", "K", "KK", "KKKKK", "KKKKKK", "KHKCKTK", "KEOK"):
                yield 51, page, page, f, False
                yield 51, page, page, f, True
        return
    sizes = [(2, 3), (3, 2), (3, 5), (5, 3), (4, 4)]
    kinds = "COETHUSBN"
    for v in (50, 51):
        for pin, pout in sizes:
            if v == 51 and pin == pout:
                continue
            for n in range(0, 8):
                yield v, pin, pout, "K" * n, False
                yield v, pin, pout, "K" * n, True
            for n in (4, 6, 7) if tier == "quick" else range(1, 9):
                for at in range(n):
                    for k in kinds:
                        f = "K" * at + k + "K" * (n - at - 1)
                        yield v, pin, pout, f, False
                        if tier != "quick" or n == 6:
                            yield v, pin, pout, f, True
    more = "-*/^GIM!u.FDAQqPh1234"
    sizes = [(2, 3), (5, 2), (3, 5), (4, 2), (2, 4)]
    for v in (50, 51):
        for pin, pout in sizes:
            for k in more + ("%#V" if v == 51 else ""):
                for n in (5,) if tier == "quick" else (1, 3, 5, 8):
                    for at in range(n):
                        f = "K" * at + k + "K" * (n - at - 1)
                        yield v, pin, pout, f, False
                        if at in (0, n - 1) and not (k in NESTED and v == 51):
                            yield v, pin, pout, f, True
                if k != "V":
                    yield v, pin, pout, k * 5, False
                    yield v, pin, pout, "KKH" + k + "H" + k + "K", False
            for n in range(6):
                if v == 51:
                    yield v, pin, pout, "K" * n, "V"
    for n in (32, 33, 49, 50, 51, 64, 65, 100, 101):
        yield 50, 32, 50, "K" * n, False
    for at in (31, 32, 49, 50):
        for k in "COETHUN":
            yield 50, 32, 50, "K" * at + k + "K" * 4, False


def table_check(ctx):
    res = Result("table constructors of Lua 5.0 and 5.1 with values of many kinds, named fields and an open end; input and output page sizes; registers, constants and lines symbolic",
                 "the output is the same constructor with the output's pages: every value in its register, one SETLIST per page, jumps keep their targets")
    P = ctx.prog()
    PR = Programs(P)
    jobs = list(dict.fromkeys(tables(ctx.tier)))
    if ctx.tier != "quick":
        rnd = LCG(7)
        for _ in range(3000):
            f = "".join(rnd.pick("KKKCOETHUSBNL") for _ in range(rnd.below(12)))
            pin, pout = 2 + rnd.below(6), 2 + rnd.below(6)
            v = 50 + rnd.below(2)
            if v == 50 or pin != pout:
                jobs.append((v, pin, pout, f, bool(rnd.below(3) == 0)))
    jobs += list(fixed_tables(ctx.tier))
    jobs += [(p, k * p + r) for p in (4, 32, 50, 64) for k in (1, 2, 3, 63, 127, 128, 255, 256, 511, 512, 1000, 2047) for r in (0, 1, p - 1) if k * p + r < 1 << 18]
    res.coverage["programs"] = len(jobs)
    parallel(ctx, res, jobs, lambda j, r: single_page(PR, r, *j) if len(j) == 2 else table_check_one(PR, r, "constructor", *j, rule="table constructor", lines=False))
    return res


class LCG:
    """the same programs on every run"""

    def __init__(self, s):
        self.s = s

    def below(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.s >> 33) % n

    def pick(self, q):
        return q[self.below(len(q))]


# single instructions and their replacements
def expansion_programs(tier):
    many = [*range(0, 9), 15, 16, 31, 32, 33, 63, 64, 65, 100] if tier == "quick" else range(0, 101)
    for n in sorted(DIRECT) + ["TEST"]:
        yield [(n, {})], 0
    for c in many:
        yield [("TFORLOOP", {"C": c} if c < 80 else {"A": c - 60, "C": c}), ("JMP", {"Bx": -2})], 0
    yield [("JMP", {"Bx": 1}), ("MOVE", {}), ("FORLOOP", {"Bx": -2})], 0
    yield [("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1})], 0
    yield [("FORLOOP", {"Bx": 0})], 0
    yield [("MOVE", {}), ("FORLOOP", {"Bx": 1}), ("MOVE", {}), ("MOVE", {})], 0
    yield [("MOVE", {}), ("FORLOOP", {"Bx": -3})], 0
    yield [("TFORPREP", {"Bx": 1}), ("MOVE", {}), ("TFORLOOP", {"C": 1}), ("JMP", {"Bx": -3})], 0
    # more than one of them in a function
    yield [("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 1}), ("JMP", {"Bx": -2}), ("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 2}), ("JMP", {"Bx": -2})], 0
    yield [("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1}), ("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1}), ("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 0})], 0
    yield [("JMP", {"Bx": 4}), ("LOADK", {}), ("JMP", {"Bx": 1}), ("MOVE", {}), ("FORLOOP", {"Bx": -2}), ("FORLOOP", {"Bx": -5}), ("RETURN", {})], 0
    yield [("TFORPREP", {"Bx": 4}), ("JMP", {"Bx": 1}), ("MOVE", {}), ("FORLOOP", {"Bx": -2}), ("NOT", {}), ("TFORLOOP", {"C": 3}), ("JMP", {"Bx": -6})], 0
    for v in (["MOVE"], ["GETGLOBAL", "CALL", "RETURN"], ["TFORPREP", "TFORLOOP"]):
        yield [(n, {"Bx": 0} if n == "TFORPREP" else {"C": 0} if n == "TFORLOOP" else {}) for n in v], 1
    yield [], 1
    yield [("JMP", {"Bx": 1}), ("MOVE", {}), ("FORLOOP", {"Bx": -2})], 1


def expansion_check(ctx):
    res = Result("Lua 5.0 instructions, alone and combined, with symbolic operands", "the instructions specified for each Lua 5.0 instruction, their registers, and the constants they refer to")
    PR = Programs(ctx.prog())
    jobs = [(*j, None) for j in expansion_programs(ctx.tier)]
    jobs += [([], 1, n) for n in range(246)] + [([("MOVE", {}), ("RETURN", {})], 1, n) for n in (0, 1, 2, 127, 128, 200, 245)]
    res.coverage["programs"] = len(jobs)
    parallel(ctx, res, jobs, lambda j, r: run50(PR, r, "replacement", j[0], j[1], "replacement of Lua 5.0 instructions", params=j[2], lines=False))
    return res


def line_check(ctx):
    res = Result("programs of every Lua 5.0 and 5.1 instruction kind with symbolic lines, with complete, shortened, missing and too many lines",
                 "every output instruction has the line of the instruction it was generated for, an inserted one that of the instruction it is placed in front of")
    PR = Programs(ctx.prog())
    jobs = [("50", s, v, None) for s, v in expansion_programs(ctx.tier) if len(s) > 1 or s and s[0][0] in ("MOVE", "TFORLOOP", "RETURN")]
    jobs += [("50", s, 0, None) for s in jump_programs(3, 2)]
    for k in (0, 1, 2, 5):
        jobs += [("50", s, v, k) for s, v in list(expansion_programs("quick")) if len(s) > 2]
    jobs += [("t", t) for t in tables(ctx.tier) if len(t[3]) in (4, 6) or ctx.tier != "quick"]
    jobs += [("51", names, k) for names in (["MOVE", "LOADK", "RETURN"], ["GETGLOBAL", "LOADK", "CALL", "RETURN"]) for k in (None, 0, 1, 7)]
    res.coverage["programs"] = len(jobs)

    def one(j, r):
        if j[0] == "t":
            table_check_one(PR, r, "lines", *j[1], rule="line of every instruction", ins=False, jumps=False)
        elif j[0] == "50":
            run50(PR, r, "lines", j[1], j[2], "line of every instruction", ins=False, jumps=False, have=j[3])
        else:
            run51(PR, r, "lines", [(n, {}) for n in j[1]], "line of every instruction", ins=False, jumps=False, have=j[2])
    parallel(ctx, res, jobs, one)
    return res


def run51(PR, res, name, spec, rule, have=None, pages=(50, 32), R=Ranges(), **what):
    prog = [source(PR, 51, i, n, R, fx) for i, (n, fx) in enumerate(spec)]
    given = [PR.line(i) for i in range(len(prog) if have is None else have)]
    lines = (given + [0] * len(prog))[:len(prog)]
    cfg = dict(CFG50)
    cfg.update({"lua51.fields_per_flush": pages[0], "output.fields_per_flush": pages[1]})
    rs = PR.run(51, [x for x, _ in prog], settings=cfg, lines=given)
    want = [Emit(n, a, *o, line=l) for (n, a, *o), l in zip((y for _, y in prog), lines)]
    PR.constants = None
    compare(PR, res, name, text([y for _, y in prog]), None, rule, want, rs, **what)


# registers that an instruction needs: number of the first one above those it writes
def need(name, a, ops):
    if name in ("SETGLOBAL", "SETUPVAL", "JMP", "EQ", "LT", "LE", "TEST", "TAILCALL", "RETURN", "CLOSE"):
        return []
    if name == "LOADNIL":
        return [tm.add(ops[0], 1)]
    if name == "SELF":
        return [tm.add(a, 2)]
    if name == "CALL":
        # the results; one register is kept free behind them
        return [tm.add(a, ops[1])]
    if name == "FORLOOP":
        return [tm.add(a, 4)]
    if name == "FORPREP":
        return [tm.add(a, 3)]
    if name == "TFORLOOP":
        return [tm.add(tm.add(a, 3), ops[0])]
    if name == "VARARG":
        return [tm.add(a, 1), tm.add(a, ops[0])]
    return [tm.add(a, 1)]


def stack_check(ctx):
    res = Result("every Lua 5.0 instruction and every Lua 5.1 instruction (with pages to convert), symbolic operands, declared stack size and stack limit",
                 "the stack size is the largest of the declared one and what the output instructions write; more than the limit or 255 is StackTooLarge")
    PR = Programs(ctx.prog())
    H = PR.H
    jobs = [(50, [(n, {})], 0) for n in sorted(DIRECT) + ["TEST"]] + [(50, [(n, {"Bx": 0})], 0) for n in ("JMP", "TFORPREP")]
    jobs += [(50, [("TFORLOOP", {"C": c})], 0) for c in (0, 1, 2, 3)]
    jobs += [(50, [("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1})], 0), (50, [("MOVE", {}), ("CALL", {})], 0), (50, [("MOVE", {})], 1), (50, [], 0)]
    for n, _, bc in LUA51:
        if n != "SETLIST":
            jobs.append((51, [(n, {"Bx": 0} if bc == "sBx" else {})], 0))
    jobs.append((51, [("LOADNIL", {}), ("SELF", {})], 0))
    res.coverage["programs"] = len(jobs)

    def one(j, r):
        version, spec, variadic = j
        R = Ranges(a=(1 << 14) - 1, bc=(1 << 20) - 1, bx=(1 << 40) - 1)
        prog = [source(PR, version, i, n, R, fx) for i, (n, fx) in enumerate(spec)]
        forms = [y for _, y in prog]
        cfg = {"output.fields_per_flush": 50, "lua50.fields_per_flush": 32, "lua51.fields_per_flush": 32, "lua50.stack_limit": 250}
        params = tm.mk("var", "parameters", 0, 255)
        rs = PR.run(version, [x for x, _ in prog], settings=cfg, params=params, variadic=variadic)
        sref = rs[0][0] if rs else None
        limit = None
        for s, _ in rs:
            st = H.I.load(s, PR.sref)
            limit = H.get_path(st, "output.stack_limit")
        out = translate50(forms, [0] * len(forms), variadic, params) if version == 50 else [Emit(n, a, *o) for n, a, *o in forms]

        def spec_fn(c):
            # decided while the loop is translated
            for f in forms:
                if version == 50 and f[0] == "TFORLOOP" and f[-1] > 0:
                    n = tm.add(f[1], 2 * f[-1] + 5)
                    if c.true(tm.cmp("Gt", n, limit)):
                        return Enum("out", 1, {1: (H.error("StackTooLarge", n),)})
            top = PR.stack0
            for e in out:
                ns = need(e.name, e.a, e.ops)
                n = ns[0] if ns else None
                for x in ns[1:]:
                    if c.true(tm.cmp("Gt", x, n)):
                        n = x
                if n is None:
                    continue
                if e.name == "CALL" and e.a == 0 and c.true(tm.cmp("Eq", e.ops[1], 0)):
                    return SKIP
                if e.name == "CALL" and not isinstance(e.a, int) and c.true(tm.cmp("Eq", n, 0)):
                    n = 1
                if c.true(tm.cmp("Gt", n, limit)) or c.true(tm.cmp("Gt", n, 255)):
                    return Enum("out", 1, {1: (H.error("StackTooLarge", n),)})
                if c.true(tm.cmp("Gt", n, top)):
                    top = n
            return Enum("out", 0, {0: (top,)})

        def actual(c, st, v):
            d = c.term(v.disc)
            if not isinstance(d, int):
                raise Unsupported("result that is not resolved")
            if d == 1:
                return Enum("out", 1, {1: v.pay[1]})
            return Enum("out", 0, {0: (c.val(H.I.load(st, PR.stack)),)})
        Cases(r, H).check("stack size", f"Lua 5.{version - 50}: " + (text(forms) or "no instructions") + ("; variadic" if variadic else ""), rs, spec_fn, "stack size", actual=actual)
    parallel(ctx, res, jobs, one)
    return res


def same_short(PR, res, j, page):
    if page is None:
        _, page, _, fields, tail = j
        values = input_values(PR, 51, Table(51, page, fields, tail).source())
        lines, where = [PR.line(i) for i in range(len(values))], f"constructor {fields}{'...' if tail else ''}"
    else:
        names, have = j
        fixed = {"MOVE": {"A": 9, "B": 8}, "NEWTABLE": {"A": 0}, "LOADK": {"A": 1}, "SETLIST": {"A": 0, "B": 1, "C": 1}} if len(names) > 40 else {}
        values = [source(PR, 51, i, n, Ranges(), fixed.get(n, {}))[0] for i, n in enumerate(names)]
        lines, where = [PR.line(i) for i in range(len(values) if have is None else have)], "; ".join(names)
    q, l = Seq([("e", tuple(values))], "vec"), Seq([("e", tuple(lines))], "vec")
    rs = PR.run(51, values, lines=lines, settings={"lua51.fields_per_flush": page, "output.fields_per_flush": page, "output.stack_limit": 250})

    def actual(c, st, v):
        if c.term(v.disc) != 0:
            return Enum("out", 1, {1: v.pay[1]})
        return Enum("out", 0, {0: (v.pay[0][0], c.val(PR.H.I.load(st, PR.stack)))})
    want = Enum("out", 0, {0: (Agg(None, [q, l]), PR.stack0)})
    Cases(res, PR.H).check("same page size", f"{where}, {len(lines)} lines, pages of {page}", rs, lambda c: want, "unchanged", actual=actual)


def same_pages_check(ctx):
    """instructions of Lua 5.1 stay as they are if the pages are of the same size; every instruction but SETLIST in any case"""
    res = Result("Lua 5.1 instructions, lines and declared stack size of any number with equal page sizes; every instruction but SETLIST with different ones",
                 "instructions and lines are returned as they are; the stack size is not changed")
    PR = Programs(ctx.prog())
    H = PR.H

    def whole():
        f = PR.fns[51]
        q = H.sym(H.argtype(f, 0), "instructions")
        l = H.sym(H.argtype(f, 1), "lines")
        page = tm.mk("var", "page", 0, (1 << 64) - 1)
        rs = PR.run(51, q, lines=l, settings={"lua51.fields_per_flush": page, "output.fields_per_flush": page})

        def actual(c, st, v):
            if c.term(v.disc) != 0:
                return Enum("out", 1, {1: v.pay[1]})
            return Enum("out", 0, {0: (v.pay[0][0], c.val(H.I.load(st, PR.stack)))})
        want = Enum("out", 0, {0: (Agg(None, [q, l]), PR.stack0)})
        Cases(res, H).check("same page size", "any instructions", rs, lambda c: want, "unchanged", actual=actual)
    guarded(res, "same page size", "convert", whole)
    # the same for short functions, also if the general case is not decided
    short = [([], None), (["MOVE"], None), (["MOVE", "RETURN"], None), (["GETGLOBAL", "LOADK", "CALL", "RETURN"], None), (["NEWTABLE", "LOADK", "SETLIST", "RETURN"], None)]
    short += [(n, k) for n, _ in short[1:] for k in (0, 1, 7)]
    # and for long ones
    short += [(["NEWTABLE", "LOADK", "SETLIST"] + ["MOVE"] * n + ["RETURN"], None) for n in (48, 64, 130, 260)]
    small = tables("same")
    parallel(ctx, res, [(x, p) for x in short for p in (1, 2, 50)] + [(x, None) for x in small], lambda j, r: same_short(PR, r, j[0], j[1]))
    jobs = [n for n, _, _ in LUA51 if n != "SETLIST"]
    parallel(ctx, res, jobs, lambda n, r: run51(PR, r, "unchanged instruction", [("MOVE", {}), (n, {"Bx": 0} if n in ("JMP", "FORLOOP", "FORPREP") else {}), ("LOADK", {})], "unchanged"))
    return res


# Lua 5.0 words, from their bits to the output's words.  Operands as in insn.LUA51
LUA50 = [("MOVE", "r", "r-"), ("LOADK", "r", "Bx"), ("LOADBOOL", "r", "nn"), ("LOADNIL", "r", "r-"), ("GETUPVAL", "r", "n-"), ("GETGLOBAL", "r", "Bx"),
         ("GETTABLE", "r", "rk"), ("SETGLOBAL", "r", "Bx"), ("SETUPVAL", "r", "n-"), ("SETTABLE", "r", "kk"), ("NEWTABLE", "r", "hh"), ("SELF", "r", "rk"),
         ("ADD", "r", "kk"), ("SUB", "r", "kk"), ("MUL", "r", "kk"), ("DIV", "r", "kk"), ("POW", "r", "kk"), ("UNM", "r", "r-"), ("NOT", "r", "r-"),
         ("CONCAT", "r", "rr"), ("JMP", "-", "sBx"), ("EQ", "n", "kk"), ("LT", "n", "kk"), ("LE", "n", "kk"), ("TEST", "r", "rn"), ("CALL", "r", "nn"),
         ("TAILCALL", "r", "nn"), ("RETURN", "r", "n-"), ("FORLOOP", "r", "sBx"), ("TFORLOOP", "r", "-n"), ("TFORPREP", "r", "sBx"), ("SETLIST", "r", "Bx"),
         ("SETLISTO", "r", "Bx"), ("CLOSE", "r", "--"), ("CLOSURE", "r", "Bx")]
PAIRS50 = [("lua 5.0", "standard", 250), ("standard", "wide", 128), ("narrow", "uneven", 100), ("wide", "standard", 250), ("full", "lua 5.0", 250), ("full", "lopsided", 1000),
          ("lopsided", "wide", 255)]


def words50(PR, lin, lout, limit, k):
    """opcode k: word -> decoded -> translated -> encoded: (word, [(state, result)]); encoded words or the error of any step"""
    P, N, H = PR.P, PR.N, PR.H
    dec, enc = N.decoder(N.i50), N.encoder(N.i51)
    li, lo = N.layout(LAYOUTS[lin]), N.layout(LAYOUTS[lout])
    cfg = dict(CFG50)
    cfg.update({"lua50.layout": li, "output.layout": lo, "lua50.stack_limit": limit})
    L = Layout(LAYOUTS[lin])
    st = H.start()
    sref = H.sym(H.argtype(PR.fns[50], len(PR.fns[50]["sig"][0]) - 1), "settings")
    PR.set_settings(st, sref, cfg)
    word = H.sym(P.types[H.fn("ByteStream::instruction")["sig"][1]]["variants"][0]["fields"][0][1], "word")
    name = LUA50[k][0] if k is not None else None
    if k is not None:
        # any word with this opcode: every field and the bits above them on their own
        at = {n: x for n, x in L.at.items() if n not in (("B", "C") if LUA50[k][2] in ("Bx", "sBx") else ("Bx",))}
        fixed = {"Opcode": k}
        if LUA50[k][2] == "sBx":
            fixed["Bx"] = L.excess + (-1 if name == "FORLOOP" else 0)
        if name == "TFORLOOP":
            fixed["C"] = 1
        word, top = 0, max(p + w for p, w in at.values())
        for n, (p, w) in [*at.items(), ("rest", (top, 64 - top))]:
            if w:
                word = tm.add(word, tm.scale(fixed[n], 1 << p) if n in fixed else tm.scale(tm.mk("var", n, 0, (1 << w) - 1), 1 << p))
    N.word_stream(word)
    stream = H.sym(next(a for a in dec["sig"][0] if N.same(a, N.stream_ty)), "stream")
    lref = H.cell(st, li, N.layout_ty)

    def args(f, known):
        out = []
        for a in f["sig"][0]:
            v = [v for ty, v in known if N.same(a, ty)]
            if not v:
                raise Unsupported("argument of " + f["path"])
            out.append(v[0])
        return out
    out = []
    for s, v in H.run(st, dec, args(dec, [(N.stream_ty, stream), (N.settings_ty, sref), (N.layout_ty, lref)])):
        bad, good = branch(H, s, v)
        if bad is not None:
            out.append((bad, Enum("both", 0, {0: (v.pay[1][0],)})))
        if good is None:
            continue
        if k is None:
            out.append((good, Enum("both", 1, {1: (v.pay[0][0],)})))
            continue
        lines = [PR.line(0)]
        for s2, r in PR.run(50, [v.pay[0][0]], lines, settings=cfg, params=2, st=good):
            bad, good2 = branch(H, s2, r)
            if bad is not None:
                out.append((bad, Enum("both", 0, {0: (r.pay[1][0],)})))
            if good2 is None:
                continue
            q = r.pay[0][0].f[0]
            q = H.I.resolve(good2, q) if hasattr(H.I, "resolve") else q
            if not isinstance(q, Seq) or any(y[0] != "e" for y in q.segs):
                raise Undecided("number of output instructions")
            todo = [(good2, [])]
            for x in (x for y in q.segs for x in y[1]):
                nxt = []
                for s3, done in todo:
                    arg = H.cell(s3, x, N.i51) if P.types[enc["sig"][0][0]]["k"] == "ref" else x
                    for s4, w in H.run(s3, enc, args(enc, [(N.i51, arg), (N.settings_ty, sref)])):
                        bad, good3 = branch(H, s4, w)
                        if bad is not None:
                            out.append((bad, Enum("both", 0, {0: (w.pay[1][0],)})))
                        if good3 is not None:
                            nxt.append((good3, done + [w.pay[0][0]]))
                todo = nxt
            out += [(s3, Enum("both", 1, {1: (Seq([("e", tuple(done))], "vec"),)})) for s3, done in todo]
    if not N.hooked:
        raise Undecided("the instruction word is not read with ByteStream::instruction")
    return word, out


def encoded(c, M, e):
    """{field: value} of an expected instruction in layout M; None if it does not fit"""
    kinds = next(x for x in LUA51 if x[0] == e.name)
    out = {"Opcode": [x[0] for x in LUA51].index(e.name)}
    todo = [("A", kinds[1], e.a)]
    if isinstance(kinds[2], str) and kinds[2] in ("Bx", "sBx"):
        todo.append(("Bx", kinds[2], e.ops[0]))
    elif kinds[2] != "hh":
        ops = list(e.ops)
        todo += [(n, k, ops.pop(0)) for n, k in zip("BC", kinds[2]) if k != "-"]
    for n, k, v in todo:
        if k == "-" or v is ANY:
            continue
        const = 0
        if isinstance(v, tuple):
            v, const = v
            if k == "k" and not fits(c, v, M.rk - 1):
                return None
        if k == "sBx":
            v = tm.add(v, M.excess)
        if const:
            v = tm.add(v, M.rk)
        if not fits(c, v, M.limit(n)):
            return None
        out[n] = v
    return out


def words_check(ctx):
    res = Result("every Lua 5.0 instruction word of each of the 35 opcodes (jump distance and number of loop variables fixed), five pairs of input and output layouts",
                 "the output words: opcode and operands of the specified replacement, constants of the input told from registers by the input's stack limit")
    P = ctx.prog()
    PR = Programs(P)
    H, N = PR.H, PR.N
    pairs = PAIRS50 if ctx.tier == "quick" else [(a, b, l) for a in LAYOUTS for b in LAYOUTS for l in (100, 250, 1000)]
    jobs = [(p, k) for p in pairs for k in [None] + list(range(len(LUA50)))]
    res.coverage["words"] = len(jobs)

    def one(j, r):
        (lin, lout, limit), k = j
        L, M = Layout(LAYOUTS[lin]), Layout(LAYOUTS[lout])
        word, rs = words50(PR, lin, lout, limit, k)
        where = f"Lua 5.0 words, layouts {lin} to {lout}, stack limit {limit}"
        if k is None:
            def spec(c):
                o = L.get(word, "Opcode")
                if c.true(tm.cmp("Ge", o, len(LUA50))):
                    return Enum("both", 0, {0: (H.error("InvalidOpcode", o),)})
                return Enum("both", 1, {1: (c.value(o, list(range(len(LUA50)))),)})

            def actual(c, st, v):
                return v if v.disc == 0 else Enum("both", 1, {1: (c.term(v.pay[1][0].disc),)})
            Cases(r, H).check("opcode", where, rs, spec, "opcodes of Lua 5.0", actual=actual)
            return
        name, ka, bc = LUA50[k]

        def spec(c):
            c.label = name
            ops = []
            if bc == "sBx":
                ops = [-1 if name == "FORLOOP" else 0]
            elif bc == "Bx":
                ops = [L.get(word, "Bx")]
            else:
                for n, kind in zip("BC", bc):
                    v = L.get(word, n)
                    if kind == "-" and name != "TFORLOOP" and not c.true(tm.cmp("Eq", v, 0)):
                        return SKIP
                    if kind == "r" and not (c.true(tm.cmp("Lt", v, limit)) and c.true(tm.cmp("Lt", v, M.rk))):
                        return SKIP
                    if kind == "k":
                        v = (tm.sub(v, limit), 1) if c.true(tm.cmp("Ge", v, limit)) else (v, 0)
                    if kind not in "-h":
                        ops.append(v)
            a = L.get(word, "A")
            if ka == "-" and not fits(c, a, M.limit("A")):
                return SKIP       # padding
            if name in ("SETLIST", "SETLISTO"):
                q = tm.mk("rem", ops[0], 50), tm.mk("div", ops[0], 50)
                out = [Emit("SETLIST", a, tm.add(q[0], 1) if name == "SETLIST" else 0, tm.add(q[1], 1))]
            else:
                out = translate50([(name, a, *ops)], [0], 0, 2)
            for e in out:
                for n in need(e.name, e.a, e.ops):
                    if c.true(tm.cmp("Gt", n, 250)):
                        return SKIP       # C29
            names, rows = [], []
            for e in out:
                e.ops = [ANY if isinstance(o, tuple) and o and isinstance(o[0], str) else o for o in e.ops]
                x = encoded(c, M, e)
                if x is None:
                    return Enum("both", 0, {0: (H.error("ValueTooBigForOperand"),)})
                names.append(list(x))
                rows.append(Agg("word", list(x.values()) + [0]))
            c.names = names
            return Enum("both", 1, {1: (Seq([("e", tuple(rows))], "vec"),)})

        def actual(c, st, v):
            if v.disc == 0 or getattr(c, "names", None) is None:
                return v
            ws = [x for y in v.pay[1][0].segs for x in y[1]]
            if len(ws) != len(c.names):
                return Enum("both", 1, {1: (Seq([("e", (Agg("word", [len(ws)]),) * len(ws))], "vec"),)})
            return Enum("both", 1, {1: (Seq([("e", tuple(Agg("word", word_fields(M, w, n)) for w, n in zip(ws, c.names)))], "vec"),)})
        Cases(r, H).check("Lua 5.0 word", where, rs, spec, "operands of the output word", actual=actual)
    parallel(ctx, res, jobs, one)
    return res


# the constant list
def text_constant(PR, t):
    ty = adt(PR.P, "Constant")
    return PR.H.enum(ty, "String", Seq([("e", tuple(t.encode()))], "chars"))


def pools(PR):
    H, ty = PR.H, adt(PR.P, "Constant")
    s = lambda t: text_constant(PR, t)
    nil = H.enum(ty, "Nil")
    number = H.enum(ty, "Number", H.sym(next(t for n, t in PR.P.types[ty]["variants"][[v["name"] for v in PR.P.types[ty]["variants"]].index("Number")]["fields"]), "number"))
    boolean = H.enum(ty, "Boolean", tm.mk("var", "boolean", 0, 1))
    yield "empty", []
    yield "number, boolean", [number, boolean]
    yield "nil", [nil]
    yield "boolean, nil, type", [boolean, nil, s("type\0")]
    yield "next, table, type, nil", [s("next\0"), s("table\0"), s("type\0"), nil]
    yield "texts that only resemble the needed ones", [s("type"), s("typ\0"), s("\0type\0"), s("tables\0"), s("Next\0"), s("\0"), s("")]
    yield "texts that begin with, contain or end with the needed ones", [s(x) for x in ("types\0", "type \0", "nextnext\0", "tables\0", "my type\0", "the table\0", "in next place\0", "nil\0")]
    yield "other case, halves and endings of the needed texts", [s(x) for x in ("TYPE\0", "Table\0", "nexT\0", "ty\0", "ype\0", "ext\0", "able\0", "type\0\0", "next", "table")]
    yield "the needed texts twice", [s("type\0"), number, s("type\0"), s("table\0"), s("table\0"), nil, nil, s("next\0"), s("next\0")]
    yield "temporary names that are taken", 1
    yield "temporary names, and those used instead, that are taken", 2
    yield "texts that extend the temporary names", ("", "x\0")
    yield "temporary names without their end", ("", "")
    yield "texts that end with the temporary names", ("x", "\0")
    yield "300 other constants", [H.enum(ty, "Boolean", i // 3 % 2) if i % 3 else s(f"name{i}\0") for i in range(300)]


def names_of(PR, prog, variadic, pool):
    """the names of the temporaries that the translation of a program adds to a constant list"""
    H, out = PR.H, []
    for s, v in PR.run(50, prog, settings=CFG50, params=3, variadic=variadic, constants=pool):
        q = H.I.load(s, PR.constants)
        if isinstance(v.disc, int) and v.disc == 0 and isinstance(q, Seq) and all(y[0] == "e" for y in q.segs):
            out += [x[1] for x in (constant(PR, c) for c in [x for y in q.segs for x in y[1]][len(pool):]) if x and x[0] == "tmp"]
    return out


POOL_PROGRAMS = [
    ([("MOVE", {}), ("LOADK", {}), ("CLOSURE", {})], 0),
    ([("MOVE", {}), ("SETLIST", {"Bx": 0})], 1),
    ([("TFORLOOP", {"C": 0})], 0),
    ([("TFORLOOP", {"C": 1})], 0),
    ([("TFORLOOP", {"C": 1}), ("TFORLOOP", {"C": 2})], 0),
    ([("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1})], 0),
    ([("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1}), ("JMP", {"Bx": 0}), ("FORLOOP", {"Bx": -1})], 0),
    ([("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 1}), ("JMP", {"Bx": -2})], 0),
    ([("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 1}), ("JMP", {"Bx": -2}), ("TFORPREP", {"Bx": 0}), ("TFORLOOP", {"C": 0}), ("JMP", {"Bx": -2})], 1),
]


def unsettled(v):
    """does a value depend on variables of loop summaries"""
    found = []
    vmap(lambda t: (found.append(1) if has_internal(t) else None, t)[1], v)
    return bool(found)


def pool_one(PR, r, j):
    if not j[3]:
        return pool_job(PR, r, j)
    with clock.limited(seconds=20):
        pool_job(PR, r, j)


def pool_job(PR, r, j):
    H = PR.H
    spec, variadic, k, many = j
    what, pool = list(pools(PR))[k]
    prog = [source(PR, 50, i, n, Ranges(), fx) for i, (n, fx) in enumerate(spec)]
    forms = [y for _, y in prog]
    lines = [PR.line(i) for i in range(len(prog))]
    if isinstance(pool, tuple):
        front, back = pool
        pool = [text_constant(PR, front + t + back) for t in names_of(PR, [x for x, _ in prog], variadic, [])]
        if not pool:
            return
    elif isinstance(pool, int):
        depth, pool = pool, []
        for _ in range(depth):
            pool = pool + [text_constant(PR, t + "\0") for t in names_of(PR, [x for x, _ in prog], variadic, pool)]
        if not pool:
            return
    front = []
    if many:
        # any number of numbers in front
        ty = adt(PR.P, "Constant")
        nty = next(t for v in PR.P.types[ty]["variants"] if v["name"] == "Number" for _, t in v["fields"])
        size = tm.mk("var", "number of constants in front", 1, 1 << 31)
        front = [("x", "front", size, lambda i: H.enum(ty, "Number", H.I.sym(nty, "front", i)))]
        what = f"any number of numbers, then {what}"
    rs = PR.run(50, [x for x, _ in prog], settings=CFG50, params=3, variadic=variadic, lines=lines,
                constants=Seq(front + [("e", tuple(pool))], "vec") if many else pool)
    if many and any(unsettled(v) or unsettled(H.I.load(s, PR.constants)) for s, v in rs):
        raise Undecided("constants of a list of any length: loop that is not resolved")
    if any(f[0] == "SETLIST" for f in forms):
        needs = set()
    else:
        needs = {o for e in translate50(forms, lines, variadic, 3) for o in e.ops if isinstance(o, tuple) and o and isinstance(o[0], str)}
    have = {constant(PR, x) for x in pool}
    new = sorted(INTERN.setdefault(x, len(INTERN)) for x in needs - have if x[0] != "tmp")
    temps = len({x for x in needs if x[0] == "tmp"})
    want = Enum("out", 0, {0: (Agg("pool", [Seq([("e", tuple(pool))], "vec"), Seq([("e", tuple(new))], "vec"), temps]),)})

    def actual(c, st, v):
        d = c.term(v.disc)
        if d != 0:
            return Enum("out", 1, {1: v.pay[1]})
        q = c.val(H.I.load(st, PR.constants))
        base, all_ = pool_items(q)
        if base != (front[0][2] if front else 0):
            raise Unsupported("constants of unknown number")
        all_ = [c.val(x) for x in all_]
        head, tail = all_[:len(pool)], all_[len(pool):]
        keys = [constant(PR, x) for x in tail]
        tmp = [x for x in keys if x[0] == "tmp"]
        good = len(set(tmp)) == len(tmp) and not set(tmp) & have
        ids = sorted(INTERN.setdefault(x, len(INTERN)) for x in keys if x[0] != "tmp")
        return Enum("out", 0, {0: (Agg("pool", [Seq([("e", tuple(head))], "vec"), Seq([("e", tuple(ids))], "vec"), len(tmp) if good else -1]),)})
    where = f"{text(forms)}{'; variadic' if variadic else ''}; constants: {what}"
    Cases(r, H).check("constants", where, rs, lambda c: want, "constant list", actual=actual)
    if needs:
        compare(PR, r, "uses of constants", where, forms, "constants that the instructions refer to", translate50(forms, lines, variadic, 3), rs, jumps=False, lines=False)


def pool_check(ctx):
    res = Result("Lua 5.0 programs that need constants of their own, and constant lists that already have some of them, none, or the names of temporaries",
                 "the constants of the input keep their places; behind them come exactly the needed ones that are missing, and a new name for each temporary")
    PR = Programs(ctx.prog())
    H = PR.H
    jobs = [(p, v, k, m) for p, v in POOL_PROGRAMS for k in range(len(list(pools(PR)))) for m in ((False, True) if k < len(list(pools(PR))) - 1 else (False,))]
    res.coverage["programs"] = len(jobs)

    parallel(ctx, res, jobs, lambda j, r: pool_one(PR, r, j))
    return res


CHECKS = {"C27": expansion_check, "C28": line_check, "C29": stack_check, "C31": same_pages_check, "C32": jump_check, "C30": table_check, "C33": pool_check, "C22": words_check}
