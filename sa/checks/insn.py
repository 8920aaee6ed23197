"""Instruction words: the fields of every opcode, their layout, and the translation between versions."""
from .. import terms as tm
from ..report import Result
from ..values import Agg, Enum, GV, Ref, Seq
from .common import *
from .header import deref_ty
from .stream import guarded, ok, err

MAXSTACK = 250

# Lua 5.1: opcode -> operands that the interpreter reads.  r register, k register or constant, n number, h hint,
# - padding; Bx/sBx instead of B and C.  A is '-' where the interpreter ignores it.
LUA51 = [("MOVE", "r", "r-"), ("LOADK", "r", "Bx"), ("LOADBOOL", "r", "nn"), ("LOADNIL", "r", "r-"), ("GETUPVAL", "r", "n-"), ("GETGLOBAL", "r", "Bx"),
         ("GETTABLE", "r", "rk"), ("SETGLOBAL", "r", "Bx"), ("SETUPVAL", "r", "n-"), ("SETTABLE", "r", "kk"), ("NEWTABLE", "r", "hh"), ("SELF", "r", "rk"),
         ("ADD", "r", "kk"), ("SUB", "r", "kk"), ("MUL", "r", "kk"), ("DIV", "r", "kk"), ("MOD", "r", "kk"), ("POW", "r", "kk"), ("UNM", "r", "r-"),
         ("NOT", "r", "r-"), ("LEN", "r", "r-"), ("CONCAT", "r", "rr"), ("JMP", "-", "sBx"), ("EQ", "n", "kk"), ("LT", "n", "kk"), ("LE", "n", "kk"),
         ("TEST", "r", "-n"), ("TESTSET", "r", "rn"), ("CALL", "r", "nn"), ("TAILCALL", "r", "nn"), ("RETURN", "r", "n-"), ("FORLOOP", "r", "sBx"),
         ("FORPREP", "r", "sBx"), ("TFORLOOP", "r", "-n"), ("SETLIST", "r", "nn"), ("CLOSE", "r", "--"), ("CLOSURE", "r", "Bx"), ("VARARG", "r", "n-")]

# sizes and positions; b and c are adjacent
LAYOUTS = {
    "standard": [("Opcode", 6), ("A", 8), ("C", 9), ("B", 9)],
    "lua 5.0": [("Opcode", 6), ("C", 9), ("B", 9), ("A", 8)],
    "wide": [("B", 12), ("C", 12), ("A", 10), ("Opcode", 7)],
    "narrow": [("A", 7), ("Opcode", 6), ("B", 8), ("C", 8)],
    "uneven": [("Opcode", 8), ("B", 9), ("C", 11), ("A", 9)],
    "lopsided": [("Opcode", 6), ("A", 8), ("C", 8), ("B", 11)],
    "full": [("C", 20), ("B", 20), ("Opcode", 10), ("A", 14)],
}


class Layout:
    """reference: position and size of the fields, from the least significant bit"""

    def __init__(self, spec):
        self.at = {}
        p = 0
        for n, s in spec:
            self.at[n] = (p, s)
            p += s
        b, c = self.at["B"], self.at["C"]
        self.at["Bx"] = (min(b[0], c[0]), b[1] + c[1])
        self.excess = (1 << (self.at["Bx"][1] - 1)) - 1
        self.rk = 1 << (b[1] - 1)

    def get(self, w, n):
        p, s = self.at[n]
        return tm.bits(w, p, s)

    def limit(self, n):
        return (1 << self.at[n][1]) - 1


class Insns:
    def __init__(self, P):
        self.P = P
        self.H = H = Harness(P)
        self.settings_ty = adt(P, "Settings")
        self.i51 = self.element(H.argtype(H.fn("convert"), 0))
        self.i50 = self.element(H.argtype(H.fn("upcast"), 0))
        self.stream_ty = adt(P, "ByteStream")
        spec = H.fn("InstructionLayout::from_specification")
        self.layout_fn = spec
        self.array_ty = H.argtype(spec, 0)
        self.operand_ty = adt(P, "OperandType")
        self.layout_ty = self.result_ok(spec["sig"][1])

    def element(self, t):
        t = deref_ty(self.P, t)
        for a in t.get("args", []):
            if isinstance(a, int) and (self.P.types[a] or {}).get("k") == "adt":
                return a
        raise Anchor("type of the instructions")

    def result_ok(self, t):
        return self.P.types[t]["variants"][0]["fields"][0][1]

    def is_result(self, t):
        t = self.P.types[t]
        return t["k"] == "adt" and t["path"].endswith("Result")

    def same(self, a, b):
        x, y = deref_ty(self.P, a), self.P.types[b]
        return x is y or x["k"] == "adt" and y["k"] == "adt" and x["path"] == y["path"]

    def decoder(self, ity):
        """the function from the stream to one instruction"""
        c = [f for f in local_fns(self.P) if "{closure" not in f["path"] and self.is_result(f["sig"][1]) and self.result_ok(f["sig"][1]) == ity
             and any(self.same(a, self.stream_ty) for a in f["sig"][0])]
        if len(c) != 1:
            raise Undecided("the function that reads an instruction was not found")
        return c[0]

    def encoder(self, ity):
        """the function from an instruction to its word"""
        c = [f for f in local_fns(self.P) if "{closure" not in f["path"] and self.is_result(f["sig"][1]) and self.P.types[self.result_ok(f["sig"][1])]["k"] in ("int", "uint")
             and f["sig"][0] and self.same(f["sig"][0][0], ity)]
        if len(c) != 1:
            raise Undecided("the function that encodes an instruction was not found")
        return c[0]

    def layout(self, spec):
        """the layout that from_specification builds for a concrete specification"""
        H = self.H
        arr = Seq([("e", tuple(H.enum(self.operand_ty, n, s) for n, s in spec))], "array")
        out = [(s, v) for s, v in H.run(H.start(), self.layout_fn, [arr])]
        if len(out) != 1 or out[0][1].disc != 0:
            raise Undecided(f"layout {spec} is not accepted")
        return out[0][1].pay[0][0]

    def with_layouts(self, st, ref, **lay):
        """settings with given layouts; ref: reference to symbolic settings"""
        from ..values import Agg
        P = self.P
        s = self.H.I.load(st, ref)
        f = list(s.f)
        for which, l in lay.items():
            i = field(P, s.ty, which)
            g = list(f[i].f)
            g[field(P, f[i].ty, "layout")] = l
            f[i] = Agg(f[i].ty, g)
        self.H.I.store(st, ref, Agg(s.ty, f))

    def word_stream(self, word):
        """the stream yields one instruction word"""
        P, hooked = self.P, self.hooked = self.P, []
        f = self.H.fn("ByteStream::instruction")

        def prim(I, st, fn, args, span):
            hooked.append(fn["path"])
            return [(st, Enum(fn["sig"][1], 0, {0: (word,)}))]
        self.H.I.prims[f["path"]] = prim


def reencode(P, lin, lout):
    """word -> decoded with one layout -> encoded with another: [(state, result of both)]"""
    N = Insns(P)
    H = N.H
    dec, enc = N.decoder(N.i51), N.encoder(N.i51)
    li, lo = N.layout(LAYOUTS[lin]), N.layout(LAYOUTS[lout])
    st = H.start()
    word = H.sym(N.P.types[H.fn("ByteStream::instruction")["sig"][1]]["variants"][0]["fields"][0][1], "word")
    N.word_stream(word)

    def args(f, known):
        out = []
        for a in f["sig"][0]:
            for ty, v in known:
                if N.same(a, ty):
                    out.append(v)
                    break
            else:
                raise Unsupported("argument of " + f["path"])
        return out
    stream = H.sym(next(a for a in dec["sig"][0] if N.same(a, N.stream_ty)), "stream")
    sref = H.sym(next(a for a in dec["sig"][0] if N.same(a, N.settings_ty)), "settings")
    N.with_layouts(st, sref, lua51=li, output=lo)
    lref = H.cell(st, li, N.layout_ty)
    out = []
    for s, v in H.run(st, dec, args(dec, [(N.stream_ty, stream), (N.settings_ty, sref), (N.layout_ty, lref)])):
        if v.disc == 1 or not isinstance(v.disc, int):
            bad, good = branch(H, s, v)
        else:
            bad, good = None, s
        if bad is not None:
            out.append((bad, Enum("both", 0, {0: (v.pay[1][0],)})))
        if good is not None:
            r = v.pay[0][0]
            if P.types[enc["sig"][0][0]]["k"] == "ref":
                r = H.cell(good, r, N.i51)
            for s2, w in H.run(good, enc, args(enc, [(N.i51, r), (N.settings_ty, sref)])):
                out.append((s2, Enum("both", 1, {1: (w,)})))
    if not N.hooked:
        raise Undecided("the instruction word is not read with ByteStream::instruction")
    return N, word, out


def branch(H, s, v):
    """(state where a result is an error, state where it is not)"""
    if isinstance(v.disc, int):
        return (s, None) if v.disc == 1 else (None, s)
    a, b = s.copy(), s.copy()
    a = a if H.I.restrict(a, v.disc, ("in", frozenset({1}))) else None
    b = b if H.I.restrict(b, v.disc, ("in", frozenset({0}))) else None
    for x, i in ((a, 1), (b, 0)):
        if x is not None:
            x.guard = x.guard + ((v.disc, ("in", frozenset({i}))),)
    return a, b


def fits(c, v, hi):
    return not c.true(tm.cmp("Gt", v, hi)) and not c.true(tm.cmp("Lt", v, 0))


def operand(c, word, L, n, kind):
    """(value, is it a constant) of a field"""
    v = L.get(word, n)
    if kind == "k":
        p, size = L.at[n]
        b = L.rk.bit_length() - 1
        if b < size and c.true(tm.cmp("Ne", tm.bits(word, p + b, 1), 0)):
            return tm.sub(v, L.rk), True
    return v, False


def moved(c, word, L, M, op):
    """{field: value in the output layout}; None if an operand does not fit; ANY if that depends on an ignored field"""
    name, a, bc = op
    out, lost, ignored = {}, False, False
    todo = [("A", a)] + ([("Bx", bc)] if bc in ("Bx", "sBx") else list(zip("BC", bc)))
    for n, kind in todo:
        v, const = operand(c, word, L, n, kind)
        if kind == "-" and n != "A" and not c.true(tm.cmp("Eq", v, 0)):
            return ANY      # padding
        if kind == "r" and n != "A" and not c.true(tm.cmp("Lt", v, MAXSTACK)):
            return ANY      # not a register
        if kind == "sBx":
            v = tm.add(tm.sub(v, L.excess), M.excess)
        if kind == "k":
            if not fits(c, v, M.rk - 1):
                lost = True
                continue
            if const:
                v = tm.add(v, M.rk)
        if not fits(c, v, M.limit(n)):
            if kind in "-h":
                ignored = True
            else:
                lost = True
        elif kind not in "-h":
            out[n] = v
    return None if lost else ANY if ignored else out


def word_fields(M, w, names):
    total = sum(s for n, (p, s) in M.at.items() if n != "Bx")
    out = [M.get(w, n) for n in names]
    return out + [tm.bits(w, total, 64 - total) if total < 64 else 0]


def reencode_check(ctx):
    res = Result("every Lua 5.1 instruction word, eight pairs of instruction layouts", "opcode and operands of the output word, by the operand modes of the Lua 5.1 instruction set")
    P = ctx.prog()
    pairs = [("standard", "standard"), ("standard", "wide"), ("wide", "standard"), ("narrow", "uneven"), ("full", "narrow"), ("uneven", "lua 5.0"), ("lopsided", "wide"), ("standard", "lopsided")]
    if ctx.tier != "quick":
        pairs = [(a, b) for a in LAYOUTS for b in LAYOUTS]
    for lin, lout in pairs:
        def run():
            N, word, rs = reencode(P, lin, lout)
            H, L, M = N.H, Layout(LAYOUTS[lin]), Layout(LAYOUTS[lout])

            def spec(c):
                o = L.get(word, "Opcode")
                c.names = None
                if c.true(tm.cmp("Ge", o, len(LUA51))):
                    return Enum("both", 0, {0: (H.error("InvalidOpcode", o),)})
                k = c.value(o, list(range(len(LUA51))))
                c.label = LUA51[k][0]
                if c.label == "TESTSET" and c.true(tm.cmp("Ge", L.get(word, "B"), min(L.rk, M.rk))):
                    c.label = "TESTSET of a register that does not fit beside the constant bit"
                m = moved(c, word, L, M, LUA51[k])
                if m == ANY:
                    return SKIP
                if m is None:
                    return Enum("both", 0, {0: (H.error("ValueTooBigForOperand"),)})
                c.names = ["Opcode"] + list(m)
                return Enum("both", 1, {1: (Agg("word", [k] + list(m.values()) + [0]),)})

            def actual(c, st, v):
                if v.disc == 0:
                    return v
                r = v.pay[1][0]
                d = c.term(r.disc)
                if d == 1:
                    return Enum("both", 0, {0: (r.pay[1][0],)})
                if c.names is None:
                    return v
                return Enum("both", 1, {1: (Agg("word", word_fields(M, r.pay[0][0], c.names)),)})
            Cases(res, H).check("re-encoding", f"layouts {lin} to {lout}", rs, spec, "Lua 5.1 instruction in the output layout", actual=actual, limit=60000)
        guarded(res, f"{lin} to {lout}", "instruction words", run)
    return res


CHECKS = {"C21": reencode_check}
