"""The whole conversion seen from outside: signature, header, passthrough, trailing bytes, output header."""
import struct

from .. import graph
from .. import terms as tm
from ..interp import bool_and
from ..report import Result
from ..values import GV, Agg, Enum, Ref, Seq
from .common import *
from .stream import guarded, ok, err

FORMAT = ("format", "endianness", "integer_width", "size_t_width", "instruction_width", "number_width", "is_number_integral")
PI = struct.unpack("<Q", struct.pack("<d", 31415926.0))[0]
WIDTHS = (("integer_width", "UnsupportedIntegerWidth"), ("size_t_width", "UnsupportedSizeTWidth"), ("instruction_width", "UnsupportedInstructionWidth"))


def recursive(P):
    """local functions that can reach themselves"""
    out = {}
    es = {f["id"]: graph.edges(P, f) for f in local_fns(P) if "{closure" not in f["path"]}
    ids = set(es)

    def closure(i):
        seen, todo = set(), list(es.get(i, ()))
        while todo:
            j = todo.pop()
            j = j[0] if isinstance(j, tuple) else j
            if j in seen or j not in P.fns:
                continue
            seen.add(j)
            todo += graph.edges(P, P.fns[j]) if P.fns[j]["body"] else []
        return seen
    for i in ids:
        if i in closure(i):
            out[i] = P.fns[i]
    return out


def deref_ty(P, t):
    t = P.types[t]
    while t["k"] in ("ref", "ptr"):
        t = P.types[t["to"]]
    return t


class Unify:
    """unify(input, output format, settings) with the function bodies abstracted: reading a function advances the
    input by an arbitrary number of bytes, writing one appends an arbitrary number of bytes"""

    def __init__(self, P, observe):
        self.P = P
        self.H = H = Harness(P)
        self.observe = observe
        self.hooked = []
        self.stream_ty, self.writer_ty = adt(P, "ByteStream"), adt(P, "ByteWriter")
        self.version_ty, self.settings_ty = adt(P, "LuaVersion"), adt(P, "Settings")
        for f in recursive(P).values():
            for a in f["body"]["locals"][1:1 + f["body"]["argc"]]:
                t = deref_ty(P, a)
                if t is P.types[self.stream_ty] or t["k"] == "adt" and t["path"] == P.types[self.stream_ty]["path"]:
                    H.I.prims[f["path"]] = self.parse
                elif t["k"] == "adt" and t["path"] == P.types[self.writer_ty]["path"]:
                    H.I.prims[f["path"]] = self.write
        self.f = f = H.fn("unify")
        ok3 = [deref_ty(P, H.argtype(f, i)) for i in range(f["body"]["argc"])]
        if len(ok3) != 3:
            raise Anchor("unify: three arguments expected")
        self.data, self.fmt, self.settings = [H.sym(H.argtype(f, i), n) for i, n in enumerate(("input", "output", "settings"))]
        self.n = self.data.meta[1]
        self.ofmt = H.I.init[self.fmt.key]
        self.set = H.I.init[self.settings.key]
        self.skip = H.sym(H.argtype(H.fn("ByteStream::slice"), 1), "parsed")
        self.fails = H.sym(next(i for i, t in enumerate(P.types) if t and t["k"] == "bool"), "read fails")
        self.wfails = H.sym(next(i for i, t in enumerate(P.types) if t and t["k"] == "bool"), "write fails")
        self.body = H.sym(H.argtype(H.fn("ByteWriter::slice"), 1), "body")
        self.st = H.start()
        self.atoms = set()
        I = H.I
        for w in ("lua50", "lua51", "output"):
            sig = self.text(w)
            self.atoms |= decide.leafset(models.seq_equal(I, self.st, I.subseq(self.st, self.bytes(), 0, sig.meta[1]), I.slice_of(self.st, sig)))
        self.atoms |= decide.leafset(models.seq_equal(I, self.st, I.slice_of(self.st, self.text("lua51")), I.slice_of(self.st, self.text("output"))))
        self.sequences = {self.data.key} | {self.text(w).key for w in ("lua50", "lua51", "output")} | {self.body.key}

    # prims
    def at_args(self, I, st, args, path):
        for a in args:
            r = a
            while isinstance(r, Ref):
                v = I.load(st, r)
                if isinstance(v, (Agg, Enum)) and isinstance(v.ty, int) and self.P.types[v.ty].get("path", "") == path:
                    return r, v
                r = v
            if isinstance(r, (Agg, Enum)) and isinstance(r.ty, int) and self.P.types[r.ty].get("path", "") == path:
                return None, r
        return None, None

    def parse(self, I, st, f, args, span):
        rty = f["sig"][1]
        ref, stream = self.at_args(I, st, args, self.P.types[self.stream_ty]["path"])
        if ref is None:
            raise Unsupported("input stream of the function reader")
        self.hooked.append(f["path"])
        self.first_call = (f, args)
        if self.observe:
            _, ver = self.at_args(I, st, args, self.P.types[self.version_ty]["path"])
            fty = self.H.argtype(self.H.fn("ByteStream::set_format"), 1)
            fm = [x for x in stream.f if isinstance(x, Agg) and x.ty == fty]
            if len(fm) != 1:
                raise Unsupported("format of the input stream")
            obs = Agg("parse", [ver.disc if ver is not None else UNDEF, Agg("format", [self.H.get(fm[0], n) for n in FORMAT])])
            out = []
            for s, b in self.inner(st, "ByteStream::byte", [ref]):
                out.append((s, Enum(rty, 1, {1: (Agg("seen", [obs, b]),)})))
            return out
        fresh = I.sym(f["sig"][1], "function")
        v = fresh.pay[0]
        out = []
        bad, good = self.inner_branch(st, self.fails)
        if bad is not None:
            out.append((bad, Enum(rty, 1, {1: fresh.pay[1]})))
        if good is not None:
            for s, r in self.inner(good, "ByteStream::slice", [ref, self.skip]):
                out.append((s, Enum(rty, 0, {0: v}) if r.disc == 0 else Enum(rty, 1, {1: r.pay[1]})))
        return out

    def write(self, I, st, f, args, span):
        rty = f["sig"][1]
        ref, w = self.at_args(I, st, args, self.P.types[self.writer_ty]["path"])
        if ref is None:
            raise Unsupported("output of the function writer")
        self.hooked.append(f["path"])
        t = self.P.types[rty]
        unit = None
        out = []
        is_result = t["k"] == "adt" and t["path"].endswith("Result")
        if is_result:
            fresh = I.sym(rty, "written")
            bad, good = self.inner_branch(st, self.wfails)
            if bad is not None:
                out.append((bad, Enum(rty, 1, {1: fresh.pay[1]})))
        else:
            good = st
        if good is not None:
            for s, _ in self.inner(good, "ByteWriter::slice", [ref, self.body]):
                out.append((s, Enum(rty, 0, {0: fresh.pay[0]}) if is_result else I.unit_of(rty)))
        return out

    def inner(self, st, f, args):
        return self.H.I.inline(st, self.H.fn(f), list(args))

    def inner_branch(self, st, cond):
        """(state where cond, state where not cond)"""
        I = self.H.I
        a, b = st.copy(), st.copy()
        a = a if I.restrict(a, cond, ("in", frozenset({1}))) else None
        b = b if I.restrict(b, cond, ("in", frozenset({0}))) else None
        for s, v in ((a, 1), (b, 0)):
            if s is not None:
                s.guard = s.guard + ((cond, ("in", frozenset({v}))),)
        return a, b

    def results(self):
        return self.H.run(self.st, self.f, [self.data, self.fmt, self.settings])

    # specification
    def bytes(self):
        return self.H.I.init[self.data.key]

    def at(self, i):
        return self.H.I.seq_get(self.st, self.bytes(), i)

    def text(self, which):
        r = self.H.get_path(self.set, which + ".binary_signature")
        return r

    def starts_with(self, c, which):
        I = self.H.I
        sig = self.text(which)
        n = sig.meta[1]
        if not c.true(tm.cmp("Gt", self.n, n)):
            return None
        e = models.seq_equal(I, self.st, I.subseq(self.st, self.bytes(), 0, n), I.slice_of(self.st, sig))
        return n if c.true(e) else None

    def byte(self, c, p):
        return None if c.true(tm.cmp("Ge", p, self.n)) else self.at(p)

    def header(self, c):
        """error | (version name, {field: value}, position of the body)"""
        H, P = self.H, self.P
        p = self.starts_with(c, "lua50")
        if p is None:
            p = self.starts_with(c, "lua51")
        if p is None:
            return H.error("IncorrectSignature")
        short = H.error("InputTooShort")
        v = self.byte(c, p)
        if v is None:
            return short
        if c.true(tm.cmp("Eq", v, 0x51)):
            version = "Lua51"
        elif c.true(tm.cmp("Eq", v, 0x50)):
            version = "Lua50"
        else:
            return H.error("UnsupportedVersion", v)
        p = tm.add(p, 1)
        fty = self.ofmt.ty
        out = {"format": 0}
        if version == "Lua51":
            out["format"] = self.byte(c, p)
            if out["format"] is None:
                return short
            p = tm.add(p, 1)
        e = self.byte(c, p)
        if e is None:
            return short
        if c.true(tm.cmp("Eq", e, 0)):
            big = True
        elif c.true(tm.cmp("Eq", e, 1)):
            big = False
        else:
            return H.error("InvaildEndianness", e)
        out["endianness"] = H.enum(field_type(P, fty, "endianness"), "Big" if big else "Little")
        p = tm.add(p, 1)

        def width(name, error):
            b = self.byte(c, p)
            if b is None:
                return short
            t = field_type(P, fty, name)
            if c.true(tm.cmp("Eq", b, 4)):
                out[name] = H.enum(t, "Bit32")
                return 4
            if c.true(tm.cmp("Eq", b, 8)):
                out[name] = H.enum(t, "Bit64")
                return 8
            return H.error(error, b)
        for name, error in WIDTHS:
            r = width(name, error)
            if isinstance(r, Enum):
                return r
            p = tm.add(p, 1)
        if version == "Lua50":
            if c.true(tm.cmp("Gt", tm.add(p, 4), self.n)):
                return short
            for i, o in enumerate(("opcode", "a", "b", "c")):
                size = tm.wrap(H.get_path(self.set, f"lua50.layout.{o}.size"), 8, False)
                if not c.true(tm.cmp("Eq", self.at(tm.add(p, i)), size)):
                    return H.error("UnsupportedInstructionFormat", ANY)
            p = tm.add(p, 4)
        w = width("number_width", "UnsupportedNumberWidth")
        if isinstance(w, Enum):
            return w
        p = tm.add(p, 1)
        if version == "Lua51":
            b = self.byte(c, p)
            if b is None:
                return short
            out["is_number_integral"] = tm.cmp("Eq", b, 1)
            p = tm.add(p, 1)
        else:
            if c.true(tm.cmp("Gt", tm.add(p, w), self.n)):
                return short
            x = 0
            for i in range(w):
                x = tm.addk(x, self.at(tm.add(p, i)), 1 << (8 * (w - 1 - i if big else i)))
            x = interp.fconv(tm.mk("fbits", x, 8 * w), 8 * w, 64)
            out["is_number_integral"] = tm.sub(1, tm.fcmp("Eq", tm.mk("ftrunc", x), tm.mk("fbits", PI, 64)))
            p = tm.add(p, w)
        return version, out, p


    def equal_settings(self, c, a, b):
        """field by field"""
        if isinstance(a, Ref):
            I = self.H.I
            return c.true(models.seq_equal(I, self.st, I.slice_of(self.st, a), I.slice_of(self.st, b)))
        if isinstance(a, Agg):
            return all(self.equal_settings(c, x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Enum):
            return c.true(tm.cmp("Eq", a.disc, b.disc))
        return c.true(tm.cmp("Eq", a, b))

    def unchanged(self, c, version, fields):
        if version != "Lua51":
            return False
        for n in FORMAT:
            x, y = fields[n], self.H.get(self.ofmt, n)
            if isinstance(y, Enum):
                x, y = x.disc, y.disc
            if not c.true(tm.cmp("Eq", x, y)):
                return False
        return self.equal_settings(c, self.H.get(self.set, "lua51"), self.H.get(self.set, "output"))


def header_spec(U, which):
    rty = U.f["sig"][1]
    H = U.H

    def spec(c):
        if which == "C08":
            return int(U.starts_with(c, "lua50") is None and U.starts_with(c, "lua51") is None)
        h = U.header(c)
        if isinstance(h, Enum):
            if which != "C09" or H.P.types[h.ty]["variants"][h.disc]["name"] == "IncorrectSignature":
                return SKIP
            return err(H, rty, h)
        version, fields, p = h
        v = variant(H.P, U.version_ty, version)
        if which == "C12":
            if U.unchanged(c, version, fields):
                return ok(H, rty, Seq([("v", U.data.key, U.n, 0, 0)], "vec"))
            return err(H, rty, ANY)
        if c.true(tm.cmp("Eq", H.get_path(U.set, "lua51.stack_limit"), H.get_path(U.set, "output.stack_limit"))):
            return SKIP
        at = tm.cmp("Ge", p, U.n)
        b = H.error("InputTooShort") if c.true(at) else U.at(p)
        return err(H, rty, Agg("seen", [Agg("parse", [v, Agg("format", [fields[n] for n in FORMAT])]), b]))
    return spec


def is_signature_error(U):
    code = variant(U.P, U.H.err_ty, "IncorrectSignature")

    def actual(c, st, v):
        d = c.term(v.disc)
        if d == 0:
            return 0
        x = v.pay[1][0]
        if isinstance(x, GV):
            x = c.val(x)
        return tm.cmp("Eq", x.disc, code) if isinstance(x, Enum) else 0
    return actual


def seen(c, st, v):
    """resolve the observation of the body reader"""
    v = c.val(v)
    x = v.pay[v.disc][0]
    if v.disc == 1 and isinstance(x, Agg) and x.ty == "seen":
        b = x.f[1]
        return Enum(v.ty, 1, {1: (Agg("seen", [x.f[0], b.pay[b.disc][0]]),)})
    return v


def parts(ctx):
    P = ctx.prog()
    if "unify" not in ctx.cache:
        U = Unify(P, True)
        ctx.cache["unify"] = (U, U.results())
    return ctx.cache["unify"]


def header(which, title, over, oracle):
    def check(ctx):
        res = Result(over, oracle)
        h = {}

        def run():
            U = Unify(ctx.prog(), True)
            rs = U.results()
            if not U.hooked:
                raise Undecided("the function reader was not found")
            Cases(res, U.H, atoms=U.atoms).check(title, U.f["path"], rs, header_spec(U, which), "result of the header", actual=is_signature_error(U) if which == "C08" else seen, limit=60000)
            h["n"] = len(U.H.I.functions)
        guarded(res, title, "unify", run)
        res.coverage["functions"] = h.get("n", 0)
        return res
    return check


# ---------------------------------------------------------------- output
def width_byte(H, P, v):
    return tm.select(v.disc, [(i, {"Bit32": 4, "Bit64": 8}[x["name"]]) for i, x in enumerate(P.types[v.ty]["variants"])], None)


def output_spec(U, which):
    rty = U.f["sig"][1]
    H, P = U.H, U.P

    def spec(c):
        h = U.header(c)
        if isinstance(h, Enum):
            return SKIP
        version, fields, p = h
        if which == "C13" and len({fields[n].disc for n in FORMAT if n.endswith("_width")}) > 1:
            return SKIP
        if c.true(tm.cmp("Eq", H.get_path(U.set, "lua51.stack_limit"), H.get_path(U.set, "output.stack_limit"))):
            return SKIP
        if c.true(U.fails):
            return SKIP
        end = tm.add(p, U.skip)
        if c.true(tm.cmp("Gt", end, U.n)):
            return SKIP
        if not c.true(tm.cmp("Eq", end, U.n)):
            return err(H, rty, H.error("InputTooLong")) if which == "C11" else SKIP
        if c.true(U.wfails):
            return SKIP
        if which == "C11":
            return ok(H, rty, ANY)
        f = U.ofmt
        en = H.get(f, "endianness")
        big = variant(P, en.ty, "Big")
        head = [0x51, H.get(f, "format"), tm.select(en.disc, [(big, 0)], 1)]
        head += [width_byte(H, P, H.get(f, n)) for n in FORMAT if n.endswith("_width")]
        head += [H.get(f, "is_number_integral")]
        I = H.I
        sig, body = I.slice_of(U.st, U.text("output")), I.slice_of(U.st, U.body)
        return ok(H, rty, Seq(list(sig.segs) + [("e", tuple(head))] + list(body.segs), "vec"))
    return spec


def output(which, title, over, oracle):
    def check(ctx):
        res = Result(over, oracle)

        def run():
            U = Unify(ctx.prog(), False)
            rs = U.results()
            if len(set(U.hooked)) < 2:
                raise Undecided("the function reader or writer was not found")
            Cases(res, U.H, atoms=U.atoms).check(title, U.f["path"], rs, output_spec(U, which), "result of the conversion", limit=60000)
            res.coverage["functions"] = len(U.H.I.functions)
        guarded(res, title, "unify", run)
        return res
    return check


CHECKS = {
    "C08": header("C08", "signature", "every input and every pair of signatures", "IncorrectSignature exactly if the input is not longer than, or does not begin with, either signature"),
    "C09": header("C09", "header", "every input with a known signature, every Lua 5.0 layout", "the error of the first header field that is wrong or missing; otherwise the format and the position the function is read with"),
    "C12": header("C12", "passthrough", "every input with a valid header, every output format and settings", "the input is returned as it is exactly if it is Lua 5.1, has the output format, and the settings agree"),
    "C11": output("C11", "trailing bytes", "every input with a valid header, every number of bytes the function takes", "InputTooLong exactly if bytes follow the function"),
    "C13": output("C13", "output header", "every output format and signature", "output signature, 0x51, the seven bytes of the output format, then the function"),
}
