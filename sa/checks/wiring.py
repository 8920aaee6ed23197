"""The function reader and writer: which input item ends up where in the output."""
import re

from .. import graph
from .. import terms as tm
from ..report import Result
from ..values import GV, Agg, Enum, Ref, Seq
from .common import *
from .header import deref_ty, recursive
from .stream import guarded

BIG = 1 << 40
KINDS = {"byte": "b", "integer": "i", "instruction": "w", "number": "n", "string": "s"}
NAMES = {"b": "byte", "i": "integer", "w": "instruction", "n": "number", "s": "string", "f": "function"}
SCALARS = {"source": "s", "line_defined": "i", "last_line": "i", "upvalue_count": "b", "parameter_count": "b", "is_variadic": "b", "stack": "b"}
LISTS = {"instructions": [("w", "word")], "constants": [("b", "type")], "functions": [("f", "function")], "lines": [("i", "line")],
         "locals": [("s", "name"), ("i", "start"), ("i", "end")], "upvalues": [("s", "name")]}
ORDER = {
    "Lua51": ["source", "line_defined", "last_line", "upvalue_count", "parameter_count", "is_variadic", "stack", "instructions", "constants", "functions", "lines", "locals", "upvalues"],
    "Lua50": ["source", "line_defined", "upvalue_count", "parameter_count", "is_variadic", "stack", "lines", "locals", "upvalues", "constants", "functions", "instructions"],
}
PAYLOAD = {0: None, 1: "b", 3: "n", 4: "s"}


class Item:
    """a place of the grammar: the header of a section, or part of the element of a list"""

    def __init__(self, sec, part=None):
        self.sec, self.part = sec, part     # part None: the scalar or the count


def table(order):
    out = []
    for s in order:
        out.append(Item(s))
        if s in LISTS:
            out += [Item(s, p) for p in range(len(LISTS[s]))]
            if s == "constants":
                out += [Item(s, "payload1"), Item(s, "payload3"), Item(s, "payload4")]
    return out


class Mismatch(Exception):
    pass


class Wiring:
    """counts: None (every count is arbitrary) or {section: number of elements}"""

    def __init__(self, P, version, counts=None, valid=True):
        self.P = P
        self.H = H = Harness(P)
        self.version = version
        self.valid = valid
        self.counts = counts
        self.obs = []           # (key, where, state, got, want, what)
        self.bad = {}           # key -> (where, message)
        self.errs = []
        self.depths = []
        self.level = {}
        I = H.I
        self.stream_ty, self.writer_ty, self.version_ty, self.settings_ty = (adt(P, n) for n in ("ByteStream", "ByteWriter", "LuaVersion", "Settings"))
        u8 = self.u8 = next(i for i, t in enumerate(P.types) if t and t["k"] == "int" and t["bits"] == 8 and not t["signed"])
        u64 = self.u64 = next(i for i, t in enumerate(P.types) if t and t["k"] == "int" and t["bits"] == 64 and not t["signed"])
        self.out_ty = {}
        for n, k in KINDS.items():
            f = H.fn("ByteStream::" + n)
            self.out_ty[k] = P.types[f["sig"][1]]["variants"][0]["fields"][0][1]
            H.I.prims[f["path"]] = self.reader(k)
            H.I.prims[H.fn("ByteWriter::" + n)["path"]] = self.writer(k)
        for n in ("slice", "size_t"):
            for s in ("ByteStream::", "ByteWriter::"):
                H.I.prims[H.fn(s + n)["path"]] = self.other
        self.convert, self.upcast = H.fn("convert"), H.fn("upcast")
        H.I.prims[self.convert["path"]] = self.translate
        H.I.prims[self.upcast["path"]] = self.translate
        from .insn import Insns
        N = Insns(P)
        self.i51, self.i50 = N.i51, N.i50
        self.ity = self.i51 if version == "Lua51" else self.i50
        self.dec = {N.decoder(t)["path"]: t for t in (self.i51, self.i50)}
        for p in self.dec:
            H.I.prims[p] = self.decode
        self.enc = N.encoder(self.i51)
        H.I.prims[self.enc["path"]] = self.encode
        self.same = N.same
        self.reader_fn, self.writer_fn = self.entry(self.stream_ty), self.entry(self.writer_ty)
        H.I.prims[self.reader_fn["path"]] = self.nested
        H.I.prims[self.writer_fn["path"]] = self.nested_write
        self.function_ty = P.types[self.reader_fn["sig"][1]]["variants"][0]["fields"][0][1]
        self.st = st = H.start()
        self.items = {"in": table(ORDER[version]), "out": table(ORDER["Lua51"])}
        self.pos = {}
        for d in ("in", "out"):
            for w in ("at", "idx"):
                k = (d, w)
                st.mem[k] = 0
                I.keyty[k] = self.u64
        self.count = {s: tm.mk("var", f"number of {s}", 0, BIG) if counts is None or counts.get(s) is None else counts[s] for s in LISTS}
        self.stream = H.sym(self.arg_of(self.reader_fn, self.stream_ty), "stream")
        self.sink = H.sym(self.arg_of(self.writer_fn, self.writer_ty), "sink")
        self.settings = H.sym(self.arg_of(self.reader_fn, self.settings_ty), "settings")
        self.depth = None
        # the translated function
        self.vec_lines = P.types[self.upcast["sig"][1]]["variants"][0]["fields"][0][1]
        ty = P.types[self.vec_lines]["elems"]
        self.new_ins, self.new_lines = H.sym(ty[0], "translated instructions"), H.sym(ty[1], "translated lines")
        self.new_stack = H.sym(u8, "translated stack")
        ct = next(a for a in self.upcast["sig"][0] if P.types[a]["k"] == "ref" and I.is_vec(P.types[a]["to"]))
        self.const_vec = P.types[ct]["to"]
        self.new_consts = H.sym(self.const_vec, "translated constants")
        if counts is not None:
            self.new_ins, self.new_lines, self.new_consts = [self.fixed(q, 1) for q in (self.new_ins, self.new_lines, self.new_consts)]

    def fixed(self, q, n):
        return Seq([("e", tuple(self.H.I.seq_get(self.H.start(), q, i) for i in range(n)))], q.kind)

    def arg_of(self, f, ty):
        for i in range(f["body"]["argc"]):
            if self.same(self.H.argtype(f, i), ty):
                return self.H.argtype(f, i)
        raise Unsupported(f"argument of {f['path']}")

    def entry(self, ty):
        """the recursive function with such an argument that is called from outside of the recursion"""
        P = self.P
        rec = {f["id"]: f for f in recursive(P).values() if any(self.same(a, ty) for a in f["sig"][0])}
        called = set()
        for f in local_fns(P):
            if f["id"] in rec or any(f["path"].startswith(r["path"] + "::{closure") for r in rec.values()):
                continue
            for e in graph.edges(P, f):
                called.add(e[0] if isinstance(e, tuple) else e)
        c = [f for i, f in rec.items() if i in called]
        if len(c) != 1:
            raise Undecided("the recursive function reader or writer was not found")
        return c[0]

    # ------------------------------------------------------------------ grammar
    def where(self, it, part=True):
        if it.part is None:
            return it.sec if it.sec not in LISTS else f"number of {it.sec}"
        if isinstance(it.part, str):
            return f"payload of {it.sec}"
        return f"{LISTS[it.sec][it.part][1]} of {it.sec}"

    def kind(self, it):
        if it.part is None:
            return SCALARS.get(it.sec, "i")
        if isinstance(it.part, str):
            return PAYLOAD[int(it.part[-1])]
        return LISTS[it.sec][it.part][0]

    def find(self, d, sec, part=None):
        for n, it in enumerate(self.items[d]):
            if it.sec == sec and it.part == part:
                return n
        return len(self.items[d])

    def following(self, d, n):
        """header of the next section"""
        s = self.items[d][n].sec
        for m in range(n, len(self.items[d])):
            if self.items[d][m].sec != s:
                return m
        return len(self.items[d])

    def resolve(self, st, d, k, span):
        """[(state, item number, index)] for an access of kind k in direction d"""
        at = st.mem[(d, "at")]
        if not isinstance(at, int):
            vals = range(len(self.items[d]) + 1)
            out = []
            for n, s in self.H.I.fork(st, at, [({v}, v) for v in vals]):
                s.mem[(d, "at")] = n
                out += self.resolve(s, d, k, span)
            return out
        idx = st.mem[(d, "idx")]
        if at >= len(self.items[d]):
            raise Mismatch("end of the function")
        it = self.items[d][at]
        if it.sec in LISTS and it.part == 0:
            more = st.facts.prove(tm.cmp("Lt", idx, self.length(d, it.sec)))
            if more is None:
                # decided by the kind of the access if that tells
                nxt = self.following(d, at)
                a, b = self.kind(it) == k, nxt < len(self.items[d]) and self.kind(self.items[d][nxt]) == k
                if a and not b or not self.H.I.recording and a:
                    more = True
                elif b and not a:
                    more = False
                else:
                    raise Unsupported(f"{self.where(it)}: end of the list")
            if not more:
                at, idx = self.following(d, at), 0
                if at >= len(self.items[d]):
                    raise Mismatch("end of the function")
        return [(st, at, idx)]

    def length(self, d, sec):
        if d == "in":
            return self.count[sec]
        q = {"instructions": self.new_ins, "lines": self.new_lines}.get(sec)
        if sec == "constants" and self.version == "Lua50":
            q = self.new_consts
        return q.len() if q is not None else self.count[sec]

    def advance(self, st, d, at, idx, payload=None):
        it = self.items[d][at]
        if it.sec not in LISTS:
            st.mem[(d, "at")], st.mem[(d, "idx")] = at + 1, 0
        elif it.part is None:
            st.mem[(d, "at")], st.mem[(d, "idx")] = at + 1, 0
        elif it.sec == "constants" and it.part == 0 and payload is not None:
            st.mem[(d, "at")], st.mem[(d, "idx")] = self.find(d, "constants", f"payload{payload}"), idx
        elif isinstance(it.part, int) and it.part + 1 < len(LISTS[it.sec]):
            st.mem[(d, "at")], st.mem[(d, "idx")] = at + 1, idx
        else:
            st.mem[(d, "at")], st.mem[(d, "idx")] = self.find(d, it.sec, 0), tm.add(idx, 1)

    def token(self, it, idx):
        """the input item"""
        H = self.H
        if it.part is None:
            if it.sec in LISTS:
                return self.count[it.sec]
            return H.sym(self.out_ty[SCALARS[it.sec]], it.sec)
        name = f"{it.sec}.{it.part if isinstance(it.part, str) else LISTS[it.sec][it.part][1]}"
        k = self.kind(it)
        return H.I.sym({"f": self.function_ty if hasattr(self, "function_ty") else None, "w": self.ity}.get(k) if k in "fw" else self.out_ty[k], name, idx)

    def at_end(self, st, d):
        at, idx = st.mem[(d, "at")], st.mem[(d, "idx")]
        if not isinstance(at, int):
            return None
        while at < len(self.items[d]):
            it = self.items[d][at]
            if it.part is None:
                return False
            if it.part != 0:
                return False
            more = st.facts.prove(tm.cmp("Lt", idx, self.length(d, it.sec)))
            if more is None:
                return None
            if more:
                return False
            at, idx = self.following(d, at), 0
        return True

    def complain(self, where, span, msg):
        if self.H.I.recording:
            self.bad.setdefault(where, (span, msg))

    # ------------------------------------------------------------------ reading
    def ok(self, f, v):
        return Enum(f["sig"][1], 0, {0: (v,)})

    def is_stream(self, I, st, args):
        return any(isinstance(a, Ref) and a.key == self.stream.key for a in args)

    def read(self, I, st, k, span, wrap):
        out = []
        try:
            todo = self.resolve(st, "in", k, span)
        except Mismatch as e:
            self.complain("input " + str(e), span, f"{NAMES[k]} read behind the {e}")
            return []
        for s, at, idx in todo:
            it = self.items["in"][at]
            if self.kind(it) != k:
                self.complain("input " + self.where(it), span, f"{NAMES[k]} read where the input has a {NAMES[self.kind(it)]}, the {self.where(it)}")
                continue
            v = self.token(it, idx)
            if it.sec == "constants" and it.part == 0:
                for t in (0, 1, 3, 4, None):
                    if t is None and self.valid:
                        continue
                    o = ("in", frozenset({t})) if t is not None else ("out", frozenset(PAYLOAD))
                    s2 = s.copy()
                    if not I.restrict(s2, v, o):
                        continue
                    s2.guard = s2.guard + ((v, o),)
                    self.advance(s2, "in", at, idx, t if t is not None and PAYLOAD[t] else None)
                    out.append((s2, wrap(v)))
                continue
            self.advance(s, "in", at, idx)
            out.append((s, wrap(v)))
        return out

    def reader(self, k):
        def prim(I, st, f, args, span):
            if not self.is_stream(I, st, args):
                return None
            return self.read(I, st.copy(), k, span, lambda v: self.ok(f, v))
        return prim

    def decode(self, I, st, f, args, span):
        if not self.is_stream(I, st, args):
            return None
        if self.dec[f["path"]] != self.ity:
            self.complain("input instruction set", span, f"instructions of a {self.version} function are read as those of the other version")
            return []
        self.check_settings(I, st, args, span)
        for a, t in zip(args, f["sig"][0]):
            if isinstance(a, Ref) and a.key == self.settings.key and (deref_ty(self.P, t)["path"].endswith("InstructionLayout")):
                want = self.H.get_path(I.load(st, self.settings), ("lua51" if self.version == "Lua51" else "lua50") + ".layout")
                self.see("input instruction layout", span, st, I.load(st, a), want, "layout")
        return self.read(I, st.copy(), "w", span, lambda v: self.ok(f, v))

    def other(self, I, st, f, args, span):
        if self.is_stream(I, st, args) or any(isinstance(a, Ref) and a.key == self.sink.key for a in args):
            raise Unsupported(f"{f['path']} in the function reader or writer")
        return None

    def check_settings(self, I, st, args, span):
        for a in args:
            if isinstance(a, Ref) and a.meta is None:
                v = I.load(st, a)
                if isinstance(v, Agg) and isinstance(v.ty, int) and self.same(v.ty, self.settings_ty):
                    self.see("settings", span, st, v, I.load(self.st, self.settings), "settings")
                elif isinstance(v, Ref):
                    self.check_settings(I, st, [v], span)

    def nested(self, I, st, f, args, span):
        if not self.is_stream(I, st, args):
            return None
        self.check_settings(I, st, args, span)
        for a, p, n in zip(args, self.args, range(99)):
            if isinstance(p, Enum) and isinstance(a, Enum):
                self.see("nested version", span, st, a, p, "version")
            elif isinstance(p, tm.T) or isinstance(p, int):
                if self.H.I.recording:
                    self.depths.append((n, p, a, st.facts.copy()))
        return self.read(I, st.copy(), "f", span, lambda v: self.ok(f, v))

    # ------------------------------------------------------------------ writing
    def see(self, key, span, st, got, want, what):
        if self.H.I.recording and got is not want:
            self.obs.append((key, span, st.copy(), got, want, what))

    def expected(self, I, st, it, idx):
        """value of an output item"""
        new = {"instructions": self.new_ins, "lines": self.new_lines}
        if self.version == "Lua50":
            new["constants"] = self.new_consts
        if it.part is None:
            if it.sec in LISTS:
                return self.length("out", it.sec)
            if it.sec == "last_line" and self.version == "Lua50":
                return self.token(Item("line_defined"), 0)
            if it.sec == "stack":
                return self.new_stack
            v = self.token(it, 0)
            if it.sec == "is_variadic" and self.version == "Lua50":
                return tm.select(v, [(0, 0)], tm.bor(v, 2, 8, False))
            return v
        if it.sec == "lines":
            return I.seq_get(st, self.new_lines, idx)
        if it.sec == "instructions":
            return self.word(idx)
        if it.sec == "constants" and self.version == "Lua50":
            e = I.seq_get(st, self.new_consts, idx)
            return e
        return self.token(it, idx)

    def word(self, j):
        return self.H.I.sym(self.u64, "words", j)

    def constant(self, st, idx):
        """{type: (condition, payload)} of a constant of the translated function"""

    def emit(self, I, st, k, v, span, result):
        out = []
        try:
            todo = self.resolve(st, "out", k, span)
        except Mismatch as e:
            self.complain("output " + str(e), span, f"{NAMES[k]} written behind the {e}")
            return []
        for s, at, idx in todo:
            it = self.items["out"][at]
            if self.kind(it) != k:
                self.complain("output " + self.where(it), span, f"{NAMES[k]} written where the output has a {NAMES[self.kind(it)]}, the {self.where(it)}")
                continue
            name = "output " + self.where(it)
            if it.sec == "constants" and it.part is not None:
                if it.part == 0:
                    t = self.constant_type(I, s, idx)
                    self.see(name, span, s, v, t, self.where(it))
                    for x, s2 in I.fork(s, v, [({x}, x) for x in PAYLOAD] + [(None, None)]):
                        if x is None:
                            raise Unsupported("type of a constant")
                        self.advance(s2, "out", at, idx, x if PAYLOAD[x] else None)
                        out.append((s2, result))
                    continue
                else:
                    self.see(name, span, s, v, self.constant_payload(I, s, idx, int(it.part[-1])), self.where(it))
                    self.advance(s, "out", at, idx)
            else:
                self.see(name, span, s, v, self.expected(I, s, it, idx), self.where(it))
                self.advance(s, "out", at, idx)
            out.append((s, result))
        return out

    def constant_type(self, I, st, idx):
        if self.version == "Lua51":
            return self.token(Item("constants", 0), idx)
        e = I.seq_get(st, self.new_consts, idx)
        vs = self.P.types[e.ty]["variants"]
        code = {"Nil": 0, "Boolean": 1, "Number": 3, "String": 4}
        return tm.select(e.disc, [(i, code[v["name"]]) for i, v in enumerate(vs)], None)

    def constant_payload(self, I, st, idx, t):
        if self.version == "Lua51":
            v = self.token(Item("constants", f"payload{t}"), idx)
            return tm.select(v, [(0, 0)], 1) if t == 1 else v
        e = I.seq_get(st, self.new_consts, idx)
        i = variant(self.P, e.ty, {1: "Boolean", 3: "Number", 4: "String"}[t])
        return e.pay[i][0]

    def writer(self, k):
        def prim(I, st, f, args, span):
            if not (args and isinstance(args[0], Ref) and args[0].key == self.sink.key):
                return None
            v = args[1]
            if k == "s" or isinstance(v, Ref):
                while isinstance(v, Ref) and isinstance(I.load(st, v), Ref):
                    v = I.load(st, v)
                v = I.slice_of(st, v)
            rty = f["sig"][1]
            t = self.P.types[rty]
            r = Enum(rty, 0, {0: (I.unit_of(t["variants"][0]["fields"][0][1]),)}) if t["k"] == "adt" else I.unit_of(rty)
            return self.emit(I, st.copy(), k, v, span, r)
        return prim

    def nested_write(self, I, st, f, args, span):
        if not any(isinstance(a, Ref) and a.key == self.sink.key for a in args):
            return None
        v = next(a for a in args if not (isinstance(a, Ref) and a.key == self.sink.key))
        while isinstance(v, Ref):
            v = I.load(st, v)
        rty = f["sig"][1]
        t = self.P.types[rty]
        r = Enum(rty, 0, {0: (I.unit_of(t["variants"][0]["fields"][0][1]),)}) if t["k"] == "adt" else I.unit_of(rty)
        return self.emit(I, st.copy(), "f", v, span, r)

    # ------------------------------------------------------------------ instructions
    def input_list(self, sec, part=0):
        return lambda j: self.token(Item(sec, part), j)

    def see_list(self, key, span, I, st, q, n, elem, what):
        """q has n elements, elem(j) each"""
        if not I.recording:
            return
        got = I.seq_total(st, q)
        self.see(key + " (length)", span, st, got, n, what)
        if isinstance(n, int):
            if isinstance(got, int):
                for j in range(min(n, got)):
                    self.see(key, span, st, I.seq_get(st, q, j), elem(j), what)
            return
        j = tm.mk("var", f"any of {what}", 0, BIG)
        s = st.copy()
        if I.restrict(s, tm.cmp("Lt", j, n), ("in", frozenset({1}))):
            self.see(key, span, s, I.seq_get(s, q, j), elem(j), what)

    def translate(self, I, st, f, args, span):
        up = f is self.upcast
        if up != (self.version == "Lua50"):
            self.complain("translation", span, f"a {self.version} function is translated by {f['path']}")
            return []
        st = st.copy()
        self.check_settings(I, st, args, span)
        self.see_list("translated instructions", span, I, st, args[0], self.count["instructions"], self.input_list("instructions"), "the instructions")
        self.see_list("translated lines", span, I, st, args[1], self.count["lines"], self.input_list("lines"), "the line numbers")
        rest = list(args[2:])
        if up:
            c = rest.pop(0)
            self.see_list("translated constants", span, I, st, I.load(st, c), self.count["constants"], lambda j: self.const_value(I, st, j), "the constants")
            I.store(st, c, self.new_consts)
        s = rest.pop(0)
        self.see("translated stack", span, st, I.load(st, s), self.token(Item("stack"), 0), "the stack size")
        I.store(st, s, self.new_stack)
        if up:
            self.see("translated parameters", span, st, rest[0], self.token(Item("parameter_count"), 0), "the number of parameters")
            v = self.token(Item("is_variadic"), 0)
            self.see("translated variadic flag", span, st, rest[1], tm.select(v, [(0, 0)], 1), "the variadic flag")
        self.translated = True
        return [(st, self.ok(f, Agg(self.vec_lines, [self.new_ins, self.new_lines])))]

    def const_value(self, I, st, j):
        t = self.token(Item("constants", 0), j)
        ty = self.P.types[self.const_vec]["args"][0]
        vs = {v["name"]: i for i, v in enumerate(self.P.types[ty]["variants"])}
        b = self.token(Item("constants", "payload1"), j)
        d = tm.select(t, [(0, vs["Nil"]), (1, vs["Boolean"]), (3, vs["Number"]), (4, vs["String"])], None)
        return Enum(ty, d, {vs["Nil"]: (), vs["Boolean"]: (tm.select(b, [(0, 0)], 1),),
                            vs["Number"]: (self.token(Item("constants", "payload3"), j),), vs["String"]: (self.token(Item("constants", "payload4"), j),)})

    def encode(self, I, st, f, args, span):
        """the word of an instruction of the translated function"""
        self.check_settings(I, st, args, span)
        v = args[0]
        while isinstance(v, Ref):
            v = I.load(st, v)
        js = set()
        if isinstance(v, Enum) and scalar(v.disc):
            for l in decide.leafset(v.disc) if not isinstance(v.disc, int) else ():
                if l.op == "nth":
                    js.add(l.args[-1])
        if len(js) != 1:
            raise Unsupported("instruction of the output")
        j = js.pop()
        self.see("encoded instruction", span, st, v, I.seq_get(st, self.new_ins, j), "the instruction")
        return [(st, self.ok(f, self.word(j)))]

    # ------------------------------------------------------------------ run
    def run(self):
        """[(state, outcome of reading, outcome of writing | None)]"""
        H, P = self.H, self.P
        f = self.reader_fn
        self.args = []
        for i in range(f["body"]["argc"]):
            t = H.argtype(f, i)
            if self.same(t, self.stream_ty):
                self.args.append(self.stream)
            elif self.same(t, self.settings_ty):
                self.args.append(self.settings)
            elif self.same(t, self.version_ty):
                v = H.enum(self.version_ty, self.version)
                self.args.append(v if P.types[t]["k"] != "ref" else H.cell(self.st, v, self.version_ty))
            else:
                self.args.append(self.level[i] if i in self.level else H.sym(t, f"level {i}"))
        out = []
        for s, v in H.run(self.st, f, self.args):
            if v.disc != 0:
                out.append((s, v, None))
                continue
            args = []
            w = self.writer_fn
            for i in range(w["body"]["argc"]):
                t = H.argtype(w, i)
                if self.same(t, self.writer_ty):
                    args.append(self.sink)
                elif self.same(t, self.function_ty):
                    x = v.pay[0][0]
                    args.append(H.cell(s, x, self.function_ty) if P.types[t]["k"] == "ref" else x)
                else:
                    raise Unsupported(f"argument of {w['path']}")
            for s2, v2 in H.run(s, w, args):
                out.append((s2, v, v2))
        return out


# ---------------------------------------------------------------------- checks
ITER = re.compile(r"^[nN]~(\d+)$")


def rename(v, m):
    from ..values import vmap
    return vmap(lambda t: tm.subst(t, m, {}), v)


def leaves(v):
    from ..values import vmap
    out = set()

    def f(t):
        if isinstance(t, tm.T):
            out.update(decide.leafset(t))
        return t
    vmap(f, v)
    return out


def iterations(st, *vs):
    """the iteration numbers of the enclosing loops as ordinary variables"""
    seen = set()
    for v in vs:
        seen |= leaves(v)
    for t in list(st.facts.iv) + list(st.facts.le) + list(st.facts.ne):
        seen |= decide.leafset(t)
    for t, _ in st.guard:
        seen |= decide.leafset(t)
    return {x: tm.mk("var", f"iteration {x.args[0][2:]}", *x.args[1:]) for x in seen if x.op == "var" and str(x.args[0]).startswith("n~")}


def judge(res, W, label):
    """one obligation per observed access"""
    from ..interp import subst_facts
    H = W.H
    for key, span, st, got, want, what in W.obs:
        m = iterations(st, got, want)
        st, g, w = st.copy(), got, want
        if m:
            f = lambda t: tm.subst(t, m, {}) if isinstance(t, tm.T) else t
            st.facts = subst_facts(st.facts, f)
            st.guard = tuple((f(t), o) for t, o in st.guard)
            g, w = rename(got, m), rename(want, m)

        def spec(c):
            return w if c.holds(st.guard) else SKIP
        Cases(res, H).check(key, f"{span} ({label})", [(st, g)], spec, "the input item that belongs here", limit=4000)


class Runs:
    """the runs for one version, shared by the checks of one process"""
    cache = {}

    @classmethod
    def get(cls, P, version, n):
        k = (id(P), version, n)
        if k not in cls.cache:
            W = Wiring(P, version, None if n is None else {s: n for s in LISTS})
            cls.cache[k] = (W, W.run())
        return cls.cache[k]


def function_check(ctx, version):
    res = Result(f"every function of a {version} file, any number of list elements",
                 "each item is read where the format has it, and each item of the output is the one that belongs there")
    P = ctx.prog()
    sure = set()
    for n in (0, 1, 2, None) if ctx.tier == "quick" else (0, 1, 2, 3, None):
        label = f"{version}, " + ("any number of elements" if n is None else f"{n} element(s) in each list")

        def run():
            W, rs = Runs.get(P, version, n)
            for where, (span, msg) in W.bad.items():
                if n is not None or where in sure:
                    sure.add(where)
                    res.ob(False, where, span, "order of the items in the file", f"{msg} ({label})")
                else:
                    res.undecided(where, span, msg)
            judge(res, W, label)
            good = 0
            for s, v, w in rs:
                if v.disc != 0 or W.bad:
                    continue
                if w is None or isinstance(w, Enum) and w.disc == 1:
                    continue
                good += 1
                for d, what in (("in", "input"), ("out", "output")):
                    e = W.at_end(s, d)
                    if e is None:
                        res.undecided(f"end of the {what}", label, "position behind the last item")
                    elif not e and n is None:
                        res.undecided(f"end of the {what}", label, "items are left")
                    else:
                        at = s.mem[(d, "at")]
                        res.ob(e, f"end of the {what}", label, "order of the items in the file",
                               "" if e else f"{'not read' if d == 'in' else 'not written'}: " + ", ".join(W.where(i) for i in W.items[d][at:])[:200])
            if not good and not W.bad:
                res.undecided("result", label, "no successful conversion")
            res.coverage["functions"] = max(res.coverage.get("functions", 0), len(W.H.I.functions))
        guarded(res, label, "function reader and writer", run)

    def types():
        W = Wiring(P, version, {s: int(s == "constants") for s in LISTS}, valid=False)
        t = W.token(Item("constants", 0), 0)
        rs = [(s, v if v.disc != 0 else Enum("read", 0, {0: ()})) for s, v, w in W.run() if w is None or W.at_end(s, "in")]

        def spec(c):
            if not shallow(c, W):
                return SKIP
            if c.value(t, [0, 1, 3, 4]) is None:
                return Enum("read", 1, {1: (W.H.error("InvalidConstantType", t),)})
            return Enum("read", 0, {0: ()})
        if W.bad:
            return
        Cases(res, W.H).check("type of a constant", f"{version}, one constant", rs, spec, "only the types nil, boolean, number and string")
    guarded(res, "type of a constant", version, types)
    return res


def shallow(c, W):
    """the nesting limit does not apply"""
    for a, i in zip(W.args, range(99)):
        if isinstance(a, tm.T) and not c.true(tm.cmp("Lt", a, 100)):
            return False
    return True



def nesting_check(ctx):
    from .header import Unify
    res = Result("the recursion of the function reader and writer", "each level adds one, and the limit is checked before the next level is entered")
    P = ctx.prog()

    def run():
        U = Unify(P, True)
        U.results()
        f, first = U.first_call
        for version in ORDER:
            W, _ = Runs.get(P, version, None)
            if f is not W.reader_fn:
                raise Undecided("the recursive function reader was not found")
            if not W.depths:
                raise Undecided("nested functions are not read by a recursive call with a level")
            step = None
            depths = W.depths
            if any(not isinstance(tm.sub(a, p), int) for _, p, a, _ in depths):
                # one level per function of the list: each must be as deep as the others
                depths = Runs.get(P, version, 3)[0].depths
                for n in sorted({x[0] for x in depths}):
                    ds = sorted({d for m, p, a, _ in depths if m == n and isinstance(d := tm.sub(a, p), int)})
                    if len(ds) > 1:
                        res.ob(False, "level of a nested function", W.reader_fn["path"], "each level adds one",
                               f"functions in the same list are read at different levels: {', '.join(f'enclosing level + {d}' for d in ds)}")
                        return
            for n, p, a, facts in depths:
                d = tm.sub(a, p)
                if d == 0:
                    continue
                if not isinstance(d, int) or step not in (None, (n, d)):
                    raise Undecided(f"level of a nested function: {show(a)}")
                step = (n, d)
            for n in {x[0] for x in W.depths}:
                if step is None:
                    res.ob(False, "level of a nested function", W.reader_fn["path"], "each level adds one", "the level that is passed on is the one of the enclosing function: the nesting is not limited")
                    return
            n, d = step
            if d != 1 or not isinstance(first[n], int):
                raise Undecided(f"the level starts at {show(first[n])} and changes by {d}")
            V = Wiring(P, version, {s: 0 for s in LISTS})
            H = V.H
            level = tm.mk("var", "level", 0, BIG)
            V.level = {n: tm.add(first[n], level)}
            rs = [(s, v if v.disc != 0 else Enum("read", 0, {0: ()})) for s, v, w in V.run() if w is None or V.at_end(s, "in")]

            def spec(c):
                if c.true(tm.cmp("Gt", level, 200)):
                    return Enum("read", 1, {1: (H.error("FunctionsNestedTooDeep"),)})
                return Enum("read", 0, {0: ()})
            Cases(res, H).check("nesting limit", version, rs, spec, "at most 200 levels of nested functions")
        inner = {W.reader_fn["id"], W.writer_fn["id"]}
        for i, g in recursive(P).items():
            if W.H.fn("unify")["id"] == i:
                continue
            # every cycle has to go through the reader or the writer
            seen, todo = set(), [i]
            while todo:
                for e in graph.edges(P, P.fns[todo.pop()]):
                    j = e[0] if isinstance(e, tuple) else e
                    if j in seen or j in inner or j not in P.fns or not P.fns[j]["body"]:
                        continue
                    seen.add(j)
                    todo.append(j)
            if i in inner or i not in seen:
                res.ob(True)
            else:
                res.undecided("recursion", g["path"], "a recursion that does not pass through the function reader or writer")
    guarded(res, "nesting", "function reader and writer", run)
    return res


CHECKS = {"C03": nesting_check, "C14": lambda ctx: function_check(ctx, "Lua51"), "C15": lambda ctx: function_check(ctx, "Lua50")}
