"""Instruction layouts: which are accepted, where their fields lie, and the default settings."""
import itertools

from .. import terms as tm
from ..report import Result
from ..values import Agg, Enum, Ref, Seq
from .common import *
from .insn import Insns, Layout
from .program import parallel
from .stream import guarded

# smallest usable size: 38 opcodes, 250 registers of which A holds at least half, one more bit for constants in B and C
LEAST = {"Opcode": 6, "A": 7, "B": 8, "C": 8}
MOST = 31


def field_of(P, v, name):
    return v.f[field(P, v.ty, name)]


def layout_check(ctx):
    res = Result("all 256 sequences of four operand types with symbolic sizes", "accepted exactly if every operand occurs once with a size in its bounds, they fit 64 bits, and B and C are adjacent; positions, sizes and masks of the fields")
    P = ctx.prog()
    N = Insns(P)
    H = N.H

    def one(kinds, r):
        sizes = [tm.mk("var", f"size{i}", 0, (1 << 64) - 1) for i in range(4)]
        arr = Seq([("e", tuple(H.enum(N.operand_ty, n, s) for n, s in zip(kinds, sizes)))], "array")
        rs = H.run(H.start(), N.layout_fn, [arr])
        bad = Enum("layout", 1, {1: (H.error("InvalidInstructionLayout"),)})

        def spec(c):
            if len(set(kinds)) < 4:
                return bad
            at, p = {}, 0
            for n, s in zip(kinds, sizes):
                if c.true(tm.cmp("Lt", s, LEAST[n])) or c.true(tm.cmp("Gt", s, MOST)):
                    return bad
                at[n] = (s, p)
                p = tm.add(p, s)
            if c.true(tm.cmp("Gt", p, 64)):
                return bad
            if abs(kinds.index("B") - kinds.index("C")) != 1:
                return bad
            first = min("BC", key=kinds.index)
            at["Bx"] = (tm.add(at["B"][0], at["C"][0]), at[first][1])
            return Enum("layout", 0, {0: (Agg("fields", [x for n in ("Opcode", "A", "B", "C", "Bx") for x in at[n]]),)})

        def actual(c, st, v):
            d = c.term(v.disc)
            if d != 0:
                return Enum("layout", 1, {1: v.pay[1]})
            lay = c.val(v.pay[0][0])
            fs = []
            for n in ("opcode", "a", "b", "c", "bx"):
                o = field_of(P, lay, n)
                fs += [c.term(field_of(P, o, "size")), c.term(field_of(P, o, "position"))]
            return Enum("layout", 0, {0: (Agg("fields", fs),)})
        Cases(r, H).check("layout specification", f"from_specification({', '.join(kinds)})", rs, spec, "which layouts are valid", actual=actual)
    parallel(ctx, res, list(itertools.product(LEAST, repeat=4)), one)
    return res


def operand_check(ctx):
    """get and put of every field of concrete layouts"""
    res = Result("operand fields of every size at every position, and the fields of layouts of many shapes; symbolic instruction words and values",
                 "get returns the bits of the field, put places a value there or is ValueTooBigForOperand; the bias of signed operands is half of their largest value")
    P = ctx.prog()
    N = Insns(P)
    H = N.H
    new, get, put = (H.fn("OperandLayout::" + n) for n in ("new", "get", "put"))
    word = tm.mk("var", "word", 0, (1 << 64) - 1)
    value = tm.mk("var", "value", 0, (1 << 64) - 1)

    def one(j, r):
        size, position = j
        (st, lay), = H.run(H.start(), new, [size, position])
        ref = H.cell(st, lay, new["sig"][1])
        where = f"{size} bits from bit {position}"
        Cases(r, H).check("reading a field", where, H.run(st, get, [ref, word]), lambda c: tm.bits(word, position, size), "bits of the word")

        def spec(c):
            if c.true(tm.cmp("Gt", value, (1 << size) - 1)):
                return Enum("put", 1, {1: (H.error("ValueTooBigForOperand"),)})
            return Enum("put", 0, {0: (tm.scale(value, 1 << position),)})
        Cases(r, H).check("writing a field", where, H.run(st, put, [ref, value]), spec, "value in its place", actual=lambda c, st, v: Enum("put", c.term(v.disc), v.pay))
    parallel(ctx, res, [(s, p) for s in range(1, 63) for p in range(0, 65 - s)], one)

    def bias():
        for b, c in itertools.product(range(8, 25), repeat=2):
            lay = N.layout([("Opcode", 6), ("A", 7), ("C", c), ("B", b)])
            res.ob(field_of(P, lay, "signed_offset") == (1 << (b + c - 1)) - 1, "bias of signed operands", f"B of {b} bits, C of {c} bits", "half of the largest value",
                   f"computed {field_of(P, lay, 'signed_offset')}")
            for n, (p, s) in Layout([("Opcode", 6), ("A", 7), ("C", c), ("B", b)]).at.items():
                o = field_of(P, lay, n.lower())
                res.ob((field_of(P, o, "size"), field_of(P, o, "position"), field_of(P, o, "bit_mask")) == (s, p, (1 << s) - 1), f"field {n}", f"B of {b} bits, C of {c} bits",
                       "size, position and mask", f"computed {show(o)}")
    guarded(res, "bias of signed operands", "layouts", bias)
    return res


STOCK = {"lua50": (250, 32, [("Opcode", 6), ("C", 9), ("B", 9), ("A", 8)]), "lua51": (250, 50, [("Opcode", 6), ("A", 8), ("C", 9), ("B", 9)]),
         "output": (250, 50, [("Opcode", 6), ("A", 8), ("C", 9), ("B", 9)])}


def default_check(ctx):
    res = Result("the Default implementations of the settings and of the format", "they describe the stock Lua 5.0 and 5.1 interpreters of this host (MAXSTACK 250, LFIELDS_PER_FLUSH 32 and 50, their instruction layouts)")
    P = ctx.prog()
    N = Insns(P)
    H = N.H

    def default(ty):
        f = [f for f in local_fns(P) if f["path"].endswith("::default") and not f["sig"][0] and (f["sig"][1] == ty or P.types[f["sig"][1]].get("path") == P.types[ty].get("path"))]
        if len(f) != 1:
            raise Undecided("Default implementation was not found")
        (st, v), = H.run(H.start(), f[0], [])
        return st, v

    def settings():
        st, s = default(N.settings_ty)
        for which, (stack, fields, lay) in STOCK.items():
            g = field_of(P, s, which)
            for n, want in (("stack_limit", stack), ("fields_per_flush", fields)):
                x = field_of(P, g, n)
                res.ob(x == want, f"{which}.{n}", f"Settings::default().{which}.{n}", "stock value", f"computed {show(x)}, specified {want}")
            sig = field_of(P, g, "binary_signature")
            b = models.concrete_bytes(models.content(H.I, st, sig))
            if b is None:
                raise Undecided("signature")
            res.ob(bytes(b) == b"\x1bLua", f"{which}.binary_signature", f"Settings::default().{which}", "stock value", f"computed {b}")
            got = field_of(P, g, "layout")
            for n, (p, size) in Layout(lay).at.items():
                o = field_of(P, got, n.lower())
                x = (field_of(P, o, "position"), field_of(P, o, "size"))
                res.ob(x == (p, size), f"{which}.layout", f"Settings::default().{which}.layout, operand {n}", "stock layout", f"position and size {show(x[0])}, {show(x[1])}; specified {p}, {size}")

    def formats():
        ty = P.types[H.argtype(H.fn("ByteStream::set_format"), 1)]
        _, v = default(H.argtype(H.fn("ByteStream::set_format"), 1))
        name = lambda x: P.types[x.ty]["variants"][x.disc]["name"]
        import sys
        want = {"format": 0, "integer_width": "Bit32", "size_t_width": "Bit64", "instruction_width": "Bit32", "number_width": "Bit64", "is_number_integral": 0, "endianness": sys.byteorder.capitalize()}
        for n, w in want.items():
            x = field_of(P, v, n)
            x = name(x) if isinstance(x, Enum) else x
            res.ob(x == w, f"format {n}", f"Format::default().{n}", "stock value", f"computed {show(x)}, specified {w}")
    guarded(res, "default settings", "Settings::default", settings)
    guarded(res, "default format", "Format::default", formats)
    return res


CHECKS = {"C23": layout_check, "C24": operand_check, "C34": default_check}
