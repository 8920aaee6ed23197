"""Byte-level reading and writing: widths, byte order, sign, position, strings, numbers."""
from .. import clock, terms as tm
from ..report import Result
from ..values import Agg, Enum, Ref, Seq
from .common import *

WIDTH = {"Bit32": 4, "Bit64": 8}
ABS = "abstract interpretation of the typed MIR (gated value numbering, inductive loop summaries)"


class Reader:
    """new(data); set_format(format); slice(start)?; method; then the position is observed through what can be read next"""

    def __init__(self, P):
        self.H = H = Harness(P)
        st = H.start()
        new = H.fn("ByteStream::new")
        self.data = H.sym(H.argtype(new, 0), "data")
        self.n = self.data.meta[1]
        self.k = H.sym(H.argtype(H.fn("ByteStream::slice"), 1), "start")
        setf = H.fn("ByteStream::set_format")
        self.format = H.sym(H.argtype(setf, 1), "format")
        (st, bs), = H.run(st, new, [self.data])
        self.ref = H.cell(st, bs, new["sig"][1])
        (st, _), = H.run(st, setf, [self.ref, self.format])
        self.st = st
        self.base = H.run(st, "ByteStream::slice", [self.ref, self.k])

    def after(self, f, args=()):
        """[(state, (result, None | (is_empty, next byte)))] after a successful skip"""
        H, out = self.H, []
        for s, v in self.base:
            if v.disc != 0:
                continue
            for s2, v2 in H.run(s, f, [self.ref, *args]):
                if v2.disc != 0:
                    out.append((s2, (v2, None)))
                    continue
                for s3, e in H.run(s2, "ByteStream::is_empty", [self.ref]):
                    for s4, b in H.run(s3, "ByteStream::byte", [self.ref]):
                        out.append((s4, (v2, (e, b))))
        return out

    def bytes(self):
        return self.H.I.init[self.data.key]

    def at(self, i):
        return self.H.I.seq_get(self.st, self.bytes(), i)

    def word(self, c, at, w, signed):
        """the integer stored in w bytes at a position"""
        big = self.is_big(c, self.format)
        r = 0
        for i in range(w):
            r = tm.addk(r, self.at(tm.add(at, i)), 1 << (8 * (w - 1 - i if big else i)))
        return tm.wrap(r, 8 * w, signed) if signed else r

    def is_big(self, c, fmt):
        en = self.H.get(fmt, "endianness")
        return c.value(en.disc, [0, 1]) == variant(self.H.P, en.ty, "Big")

    def width(self, c, field, fmt=None):
        return width_of(self.H, c, fmt or self.format, field)

    def short(self, c, end):
        return c.true(tm.cmp("Gt", end, self.n))

    def next(self, c, end):
        """what can be observed at a position"""
        if c.true(tm.cmp("Ge", end, self.n)):
            return (1, self.H.error("InputTooShort"))
        return (0, self.at(end))

    def bounds(self):
        """facts: the data and the skip are no longer than any slice can be"""
        F = tm.Facts()
        return F


def width_of(H, c, fmt, field):
    w = H.get(fmt, field)
    v = c.value(w.disc, [0, 1])
    return WIDTH[H.P.types[w.ty]["variants"][v]["name"]]


def ok(H, ty, *v):
    return Enum(ty, 0, {0: tuple(v)})


def err(H, ty, e):
    return Enum(ty, 1, {1: (e,)})


def observed(c, st, v):
    """resolve (result, (is_empty, byte result)) into a comparable value"""
    r, o = v
    r = c.val(r)
    if o is None or r.disc != 0:
        return Agg("obs", [r])
    e, b = o
    b = c.val(b)
    return Agg("obs", [r, Agg("pos", [c.term(e), b.pay[b.disc][0] if b.disc == 0 else c.val(b.pay[1][0])])])


def read_spec(R, rty, want):
    """want(c) -> (value | None: too short, end position)"""
    def spec(c):
        if R.short(c, R.k):
            return SKIP
        v, end = want(c)
        if v is None:
            return Agg("obs", [err(R.H, rty, R.H.error("InputTooShort"))])
        e, b = R.next(c, end)
        return Agg("obs", [ok(R.H, rty, v), Agg("pos", [e, b])])
    return spec


def word_checks(res, P, which):
    R = Reader(P)
    H = R.H
    for m, field, signed in (("integer", "integer_width", True), ("size_t", "size_t_width", True), ("instruction", "instruction_width", False)):
        if m not in which:
            continue
        f = H.fn("ByteStream::" + m)

        def want(c, field=field, signed=signed):
            w = R.width(c, field)
            end = tm.add(R.k, w)
            if R.short(c, end):
                return None, None
            return R.word(c, R.k, w, signed), end
        guarded(res, "read " + m, f["path"], lambda: Cases(res, H).check(
            "read " + m, f["path"], R.after(f), read_spec(R, f["sig"][1], want), "value read from the stream", actual=observed))
    return R


def guarded(res, name, where, fn):
    try:
        with clock.limited():
            return fn()
    except (Unsupported, Undecided, clock.TimeUp) as e:
        w = getattr(e, "where", None)
        res.undecided(name, where, f"{e}" + (f" in {w[-1]}" if w else ""))
    except Anchor as e:
        res.undecided(name, where, f"anchor {e}")


class Writer:
    """new(&format); byte(p); method(value); byte(q); finalize"""

    def __init__(self, P, H=None, st=None, name="format"):
        self.H = H = H or Harness(P)
        st = st or H.start()
        new = H.fn("ByteWriter::new")
        self.fref = H.sym(H.argtype(new, 0), name)
        self.format = H.I.init[self.fref.key]
        (st, w), = H.run(st, new, [self.fref])
        self.ref = H.cell(st, w, new["sig"][1])
        b = H.fn("ByteWriter::byte")
        self.p, self.q = H.sym(H.argtype(b, 1), "before"), H.sym(H.argtype(b, 1), "after")
        (st, _), = H.run(st, b, [self.ref, self.p])
        self.st = st

    def after(self, f, args, st=None):
        H, out = self.H, []
        for s, v in H.run(st or self.st, f, [self.ref, *args]):
            if isinstance(v, Enum) and v.disc != 0:
                out.append((s, (v, None)))
                continue
            for s2, _ in H.run(s, "ByteWriter::byte", [self.ref, self.q]):
                for s3, o in H.run(s2, "ByteWriter::finalize", [H.I.load(s2, self.ref)]):
                    out.append((s3, (v, o)))
        return out

    def is_big(self, c):
        en = self.H.get(self.format, "endianness")
        return c.value(en.disc, [0, 1]) == variant(self.H.P, en.ty, "Big")

    def encode(self, c, v, w):
        bs = [tm.bits(v, 8 * i, 8) for i in range(w)]
        return bs[::-1] if self.is_big(c) else bs


def written(c, st, v):
    r, o = v
    r = c.val(r)
    if o is None:
        return Agg("out", [r])
    return Agg("out", [r, c.val(o)])


def write_spec(W, rty, want):
    """want(c) -> error value | list of bytes"""
    def spec(c):
        x = want(c)
        if x is SKIP:
            return SKIP
        if isinstance(x, Enum):
            return Agg("out", [err(W.H, rty, x)])
        unit = Agg("unit", ())
        return Agg("out", [ok(W.H, rty, ANY), Seq([("e", (W.p,))] + list(x) + [("e", (W.q,))])])
    return spec


def fits(c, v, w, signed):
    lo, hi = tm.trange(8 * w, signed)
    return not c.true(tm.cmp("Lt", v, lo)) and not c.true(tm.cmp("Gt", v, hi))


WRITE = (("integer", "integer_width", True, "IntegerOverflow"), ("size_t", "size_t_width", True, "IntegerOverflow"),
         ("instruction", "instruction_width", False, "ValueTooBigForOperand"))


def write_checks(res, P, mode):
    """mode 'fit': the bytes of values that fit; 'narrow': values that do not fit"""
    W = Writer(P)
    H = W.H
    for m, field, signed, e in WRITE:
        f = H.fn("ByteWriter::" + m)
        v = H.sym(H.argtype(f, 1), "value")

        def want(c, field=field, signed=signed, e=e, v=v):
            w = width_of(H, c, W.format, field)
            if not fits(c, v, w, signed):
                return H.error(e) if mode == "narrow" else SKIP
            if mode == "narrow":
                return SKIP
            return [("e", tuple(W.encode(c, v, w)))]
        guarded(res, "write " + m, f["path"], lambda: Cases(res, H).check(
            "write " + m, f["path"], W.after(f, [v]), write_spec(W, f["sig"][1], want), "bytes written", actual=written))


def c17(ctx):
    P = ctx.prog()
    res = Result("every integer, size_t and instruction read from any position of any input and written to any output, for both byte orders and both widths",
                 "value = two's complement of exactly the declared number of bytes in the declared order; the position advances by that number")
    word_checks(res, P, ("integer", "size_t", "instruction"))
    write_checks(res, P, "fit")
    res.floor("cases", res.coverage.get("cases", 0), 1)
    return res


def c18(ctx):
    P = ctx.prog()
    res = Result("every value that does not fit the declared output width", "an error, no bytes with the value cut off")
    write_checks(res, P, "narrow")
    return res


def c10(ctx):
    P = ctx.prog()
    res = Result("every primitive read at every position of every input", "InputTooShort exactly if the input ends before the field does")
    R = word_checks(res, P, ("integer", "size_t", "instruction"))
    H = R.H
    f = H.fn("ByteStream::byte")

    def want(c):
        if R.short(c, tm.add(R.k, 1)):
            return None, None
        return R.at(R.k), tm.add(R.k, 1)
    guarded(res, "read byte", f["path"], lambda: Cases(res, H).check("read byte", f["path"], R.after(f), read_spec(R, f["sig"][1], want), "value read from the stream", actual=observed))
    f = H.fn("ByteStream::slice")
    ln = H.sym(H.argtype(f, 1), "length")

    def want2(c):
        if R.short(c, tm.add(R.k, ln)):
            return None, None
        return ANY, tm.add(R.k, ln)
    guarded(res, "read slice", f["path"], lambda: Cases(res, H).check("read slice", f["path"], R.after(f, [ln]), read_spec(R, f["sig"][1], want2), "value read from the stream", actual=observed))
    f = H.fn("ByteStream::string")

    def want3(c):
        w = R.width(c, "size_t_width")
        end = tm.add(R.k, w)
        if R.short(c, end):
            return None, None
        n = tm.wrap(R.word(c, R.k, w, True), 64, False)
        end = tm.add(end, n)
        if R.short(c, end):
            return None, None
        return ANY, end
    guarded(res, "read string", f["path"], lambda: Cases(res, H).check("read string", f["path"], R.after(f), read_spec(R, f["sig"][1], want3), "value read from the stream", actual=observed))
    f = H.fn("ByteStream::number")

    def want4(c):
        end = tm.add(R.k, R.width(c, "number_width"))
        if R.short(c, end):
            return None, None
        return ANY, end
    guarded(res, "read number", f["path"], lambda: Cases(res, H).check("read number", f["path"], R.after(f), read_spec(R, f["sig"][1], want4), "value read from the stream", actual=observed))
    return res


# ---------------------------------------------------------------- numbers
def number_ty(H):
    return adt(H.P, "Number")


def c19(ctx):
    P = ctx.prog()
    res = Result("every number read in every declared representation and written in every other", "the same number, or an error if the other representation can not hold it")
    R = Reader(P)
    H = R.H
    f = H.fn("ByteStream::number")
    num = number_ty(H)

    def read(c):
        w = R.width(c, "number_width")
        end = tm.add(R.k, w)
        if R.short(c, end):
            return None, None
        if c.true(H.get(R.format, "is_number_integral")):
            return H.enum(num, "Integer", R.word(c, R.k, w, True)), end
        x = tm.mk("fbits", R.word(c, R.k, w, False), 8 * w)
        return H.enum(num, "Float", interp.fconv(x, 8 * w, 64)), end
    guarded(res, "read number", f["path"], lambda: Cases(res, H).check("read number", f["path"], R.after(f), read_spec(R, f["sig"][1], read), "number read from the stream", actual=observed))

    W = Writer(P)
    H = W.H
    f = H.fn("ByteWriter::number")
    v = H.sym(H.argtype(f, 1), "value")
    fl, it = v.pay[variant(P, num, "Float")][0], v.pay[variant(P, num, "Integer")][0]

    def write(c):
        w = 8 * width_of(H, c, W.format, "number_width")
        is_float = c.value(v.disc, [0, 1]) == variant(P, num, "Float")
        if c.true(H.get(W.format, "is_number_integral")):
            x = it
            if is_float:
                if not c.true(tm.fcmp("Eq", fl, tm.mk("fround", fl))):
                    return H.error("FloatPrecisionLoss")
                x = tm.mk("f2i", 64, True, fl)
                if not c.true(tm.eq0(tm.sub(tm.mk("f2i", 128, True, fl), x))):
                    return H.error("IntegerOverflow")
            if not fits(c, x, w // 8, True):
                return H.error("IntegerOverflow")
            return [("e", tuple(W.encode(c, x, w // 8)))]
        x = fl
        if not is_float:
            x = tm.mk("i2f", it, 64)
            if not c.true(tm.eq0(tm.sub(tm.mk("f2i", 128, True, x), it))):
                return H.error("IntegerOverflow")
        x = tm.mk("ftob", interp.fconv(x, 64, w), w)
        return [("e", tuple(W.encode(c, x, w // 8)))]
    guarded(res, "write number", f["path"], lambda: Cases(res, H).check("write number", f["path"], W.after(f, [v]), write_spec(W, f["sig"][1], write), "number written", actual=written))
    return res


# ---------------------------------------------------------------- strings
def c20(ctx):
    P = ctx.prog()
    res = Result("every string constant and name of every input", "the bytes written are the bytes read, preceded by their number in the output's width")
    R = Reader(P)
    H = R.H
    W = Writer(P, H, R.st, "output")
    R.base = H.run(W.st, "ByteStream::slice", [R.ref, R.k])
    f, g = H.fn("ByteStream::string"), H.fn("ByteWriter::string")
    name = "string from input to output"

    def run():
        out = []
        for s, v in R.base:
            if v.disc != 0:
                continue
            for s2, r in H.run(s, f, [R.ref]):
                if r.disc != 0:
                    continue
                out += W.after(g, [models.as_slice(H.I, s2, H.cell(s2, r.pay[0][0]))], s2)
        return out

    def want(c):
        w = R.width(c, "size_t_width")
        end = tm.add(R.k, w)
        if R.short(c, R.k) or R.short(c, end):
            return SKIP
        n = tm.wrap(R.word(c, R.k, w, True), 64, False)
        if R.short(c, tm.add(end, n)):
            return SKIP
        ow = width_of(H, c, W.format, "size_t_width")
        if not fits(c, n, ow, True):
            return H.error("IntegerOverflow")
        return [("e", tuple(W.encode(c, n, ow))), ("v", R.data.key, n, 0, end)]
    guarded(res, name, g["path"], lambda: Cases(res, H).check(name, g["path"], run(), write_spec(W, g["sig"][1], want), "string written", actual=written))
    for n in (0, 1, 2, 3) if ctx.tier == "quick" else range(7):
        guarded(res, name, f"{n} bytes", lambda: short_string(P, res, name, n))
    return res


def short_string(P, res, name, n):
    """strings of some length, and any bytes, also if those of any length are not decided"""
    for w in WIDTH.values():
        for order in ("Big", "Little"):
            H = Harness(P)
            st = H.start()
            new, setf, f, g = (H.fn(x) for x in ("ByteStream::new", "ByteStream::set_format", "ByteStream::string", "ByteWriter::string"))
            fmt = H.sym(H.argtype(setf, 1), "input format")
            parts = list(fmt.f)
            for x in ("size_t_width", "endianness"):
                i = field(P, fmt.ty, x)
                vs = [v["name"] for v in P.types[parts[i].ty]["variants"]]
                d = vs.index(order) if x == "endianness" else next(k for k, v in enumerate(vs) if WIDTH[v] == w)
                parts[i] = Enum(parts[i].ty, d, {d: ()})
            text = [tm.mk("var", f"character {i}", 0, 255) for i in range(n)]
            size = list(n.to_bytes(w, order.lower()))
            data = H.cell(st, Seq([("e", tuple(size + text))], "slice"), P.types[H.argtype(new, 0)]["to"])
            (st, bs), = H.run(st, new, [models.as_slice(H.I, st, data)])
            ref = H.cell(st, bs, new["sig"][1])
            (st, _), = H.run(st, setf, [ref, Agg(fmt.ty, parts)])
            W = Writer(P, H, st, "output")
            out = []
            for s, r in H.run(W.st, f, [ref]):
                if r.disc != 0:
                    out.append((s, (r, None)))
                    continue
                out += W.after(g, [models.as_slice(H.I, s, H.cell(s, r.pay[0][0]))], s)

            def want(c):
                return [("e", tuple(W.encode(c, n, width_of(H, c, W.format, "size_t_width")) + text))]
            Cases(res, H).check(name, f"{n} bytes, size of {w} bytes, {order}", out, write_spec(W, g["sig"][1], want), "string written", actual=written)


CHECKS = {"C10": c10, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
