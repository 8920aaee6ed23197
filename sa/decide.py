"""Comparison of a computed summary with a specification.

Both sides are terms over the same input symbols.  Decisions are resolved by cofactoring:
the comparison descends into both outcomes of every decision either side depends on, under
the facts that outcome implies, until both sides are free of decisions.  The remaining
terms are compared in normal form; a difference is only reported together with a valuation
of the input symbols under which the two terms have different values.
"""
import random
import struct
from . import terms as tm
from .terms import T, mk
from .values import Agg, Enum, Ref, GV, Seq, Opaque, UNDEF, scalar, show, Unsupported

LIMIT = 60000


class Split(Exception):
    def __init__(self, term, outcomes):
        self.term = term
        self.outcomes = outcomes     # [('in'|'out', frozenset)]


class Undecided(Exception):
    pass


class Ctx:
    """decisions under the facts of one case"""

    def __init__(self, facts, path=()):
        self.label = None
        self.F = facts
        self.path = path
        self.memo = {}
        self.eqs = {}
        self.subs = {}

    def true(self, b):
        b = self.term(b)
        if isinstance(b, int):
            return bool(b)
        p = self.F.prove(b)
        if p is not None:
            return p
        raise Split(b, [("in", frozenset({1})), ("in", frozenset({0}))])

    def value(self, t, vals):
        """which of the listed values has t (None: another one)"""
        t = self.term(t)
        if isinstance(t, int):
            return t if t in vals else None
        t2 = self.F.simp(t)
        if isinstance(t2, int):
            return t2 if t2 in vals else None
        lo, hi = self.F.rng(t)
        ne = self.F.ne.get(t, ())
        live = [v for v in vals if lo <= v <= hi and v not in ne]
        rest = hi - lo + 1 > len(live)
        if rest and hi - lo < 64:
            rest = any(v not in live and v not in ne for v in range(int(lo), int(hi) + 1))
        if not live:
            return None
        if len(live) == 1 and not rest:
            return live[0]
        raise Split(t, [("in", frozenset({v})) for v in live] + ([("out", frozenset(live))] if rest else []))

    def term(self, t):
        """resolve every decision inside a term"""
        if isinstance(t, int):
            return t
        r = self.memo.get(t)
        if r is None:
            u = t
            if self.eqs and has_internal(t):
                u = self.known(t)
            r = u if isinstance(u, int) else self._term(u)
            self.memo[t] = r
        return r

    def outer(self, t):
        """resolve the decisions of a term inside a loop that do not depend on the iteration"""
        if isinstance(t, int):
            return t
        if t.op == "gamma" and not has_internal(t.args[0]):
            x, cs, d = t.args
            y = self.value(x, [c for c, _ in cs])
            for c, u in cs:
                if c == y:
                    return self.outer(u)
            return self.outer(d if d is not None else cs[0][1])
        if t.op == "lin":
            r = t.args[0]
            for a, k in t.args[1]:
                r = tm.addk(r, self.outer(a), k)
            return r
        na = tuple(self.outer(a) if isinstance(a, T) else tuple((v, self.outer(u)) for v, u in a) if t.op == "gamma" and isinstance(a, tuple) else a for a in t.args)
        if na == t.args:
            return t
        return tm.select(na[0], list(na[1]), na[2]) if t.op == "gamma" else tm.rebuild(t.op, na)

    def _term(self, t):
        op = t.op
        if op == "lin":
            r = t.args[0]
            for a, k in t.args[1]:
                r = tm.addk(r, self.term(a), k)
            return r
        if op == "gamma":
            x, cs, d = t.args
            v = self.value(x, [c for c, _ in cs])
            for c, u in cs:
                if c == v:
                    return self.term(u)
            if d is None:
                return self.term(cs[0][1])
            return self.term(d)
        if op == "var":
            return self.F.simp(t)
        if op in ("le0", "eq0"):
            x = self.term(t.args[0])
            if x is not t.args[0]:
                t = tm.le0(x) if op == "le0" else tm.eq0(x)
                if isinstance(t, int):
                    return t
            p = self.F.prove(t)
            return t if p is None else int(p)
        na = tuple(self.term(a) if isinstance(a, T) else a for a in t.args)
        if op == "bits":
            t = tm.bits(na[0], na[1], na[2], self.F.rng)
        elif op == "wrap":
            t = tm.wrap(na[2], na[0], na[1], self.F.rng)
        elif op in ("or", "xor"):
            t = tm.bor(na[0], na[1], na[2], False, self.F.rng, op)
        elif op == "and":
            t = tm.band(na[0], na[1], na[2], False, self.F.rng)
        elif na != t.args:
            t = tm.rebuild(op, na)
        return self.F.simp(t)

    def val(self, v):
        """resolve every decision inside a value"""
        if scalar(v):
            return self.term(v)
        if isinstance(v, GV):
            x = self.value(v.sel, [c for c, _ in v.cases])
            for c, u in v.cases:
                if c == x:
                    return self.val(u)
            return self.val(v.default if v.default is not None else v.cases[0][1])
        if isinstance(v, Agg):
            return Agg(v.ty, [self.val(x) for x in v.f])
        if isinstance(v, Enum):
            n = sorted(v.pay)
            d = self.term(v.disc)
            if not isinstance(d, int):
                vals = n if len(n) > 1 else list(range(8))
                d = self.value(d, sorted(set(vals) | set(range(self.nvar(v)))))
                if d is None:
                    raise Split(v.disc, [])  # no variant is left: the case is impossible
            return Enum(v.ty, d, {d: tuple(self.val(x) for x in v.pay.get(d, ()))})
        if isinstance(v, Seq):
            return Seq([s for x in v.segs for s in self.seg(x)], v.kind, tuple((self.term(i), self.val(x)) for i, x in v.upds))
        if isinstance(v, Ref):
            return Ref(v.key, tuple((p[0], self.term(p[1])) if p[0] == "i" else p for p in v.path), None if v.meta is None else (self.term(v.meta[0]), self.term(v.meta[1])))
        if isinstance(v, Opaque):
            return Opaque(*[self.val(x) if not isinstance(x, (str, bytes, type(None), tuple)) else x for x in v.what])
        return v

    nvariants = {}

    def nvar(self, v):
        n = self.nvariants.get(v.ty)
        if n is None:
            r = tm.base_range(v.disc)
            return int(min(r[1], 64)) + 1
        return n

    def seg(self, s):
        if s[0] == "e":
            return [("e", tuple(self.val(x) for x in s[1]))]
        if s[0] == "g":
            x = self.value(s[1], [c for c, _ in s[2]])
            for c, u in s[2]:
                if c == x:
                    return list(self.val(u).segs)
            return list(self.val(s[3] if s[3] is not None else s[2][0][1]).segs)
        if s[0] == "v":
            return [("v", s[1], self.term(s[2]), s[3], self.term(s[4]))]
        if s[0] == "L":
            from .values import segmap
            return [("L", s[1], tuple(segmap(self.outer, x) for x in s[2]), self.term(s[3]), self.term(s[4]))]
        return [s]

    def holds(self, guard):
        """does a guard (conjunction of decisions) hold in this case"""
        for sel, o in guard:
            s = self.term(sel)
            if isinstance(s, int):
                if (s in o[1]) != (o[0] == "in"):
                    return False
                continue
            v = self.value(s, sorted(o[1]))
            if (v is not None) != (o[0] == "in"):
                return False
        return True

    def weak(self, t, memo):
        """resolve the decisions the facts settle, without asking for others"""
        if isinstance(t, int):
            return t
        r = memo.get(t)
        if r is None:
            try:
                r = self.memo.get(t)
                if r is None:
                    op = t.op
                    if op == "lin":
                        r = t.args[0]
                        for a, k in t.args[1]:
                            r = tm.addk(r, self.weak(a, memo), k)
                    elif op == "gamma":
                        x, cs, d = t.args
                        y = self.weak(x, memo)
                        if not isinstance(y, int):
                            y = self.F.simp(y)
                        if isinstance(y, int):
                            r = self.weak(tm.select(y, list(cs), d), memo)
                        else:
                            r = tm.select(y, [(v, self.weak(u, memo)) for v, u in cs], None if d is None else self.weak(d, memo))
                    elif op in ("var", "flt"):
                        r = self.F.simp(t)
                    else:
                        na = tuple(self.weak(a, memo) if isinstance(a, T) else a for a in t.args)
                        r = tm.rebuild(op, na) if na != t.args else t
            except RecursionError:
                r = t
            memo[t] = r
        return r

    def adopt(self, st):
        """what the analysis established about a state holds in this case as well; False if it can not be"""
        F, memo = self.F, {}
        W = lambda k: self.weak(k, memo)
        for k, (lo, hi) in list(st.facts.iv.items()):
            t = W(k)
            if isinstance(t, int):
                if not lo <= t <= hi:
                    F.bot = True
            elif tm.base_range(t) == (0, 1) and lo == hi:
                F.assume(t, int(lo))
            else:
                F.set_iv(t, lo, hi)
            if F.bot:
                return False
        for k, u in list(st.facts.le.items()):
            F.add_le(tm.sub(W(k), u))
            if F.bot:
                return False
        for k, vs in list(st.facts.ne.items()):
            t = W(k)
            for v in sorted(vs):
                F.add_ne(t, v)
            if F.bot:
                return False
        self.solve()
        self.memo = {}
        return not F.bot

    def solve(self):
        """internal variables of the summaries that the facts equate with inputs"""
        F, sol = self.F, self.eqs

        def eliminate(t):
            t = tm.subst(t, sol, {}) if sol and isinstance(t, T) else t
            if isinstance(t, int):
                return
            for a, q in tm.parts(t)[1]:
                if q in (1, -1) and internal(a):
                    rest = tm.scale(tm.addk(t, a, -q), -q)
                    m = {a: rest}
                    for b in sol:
                        if isinstance(sol[b], T):
                            sol[b] = tm.subst(sol[b], m, {})
                    sol[a] = rest
                    return
        for k, u in list(F.le.items()):
            if F.le.get(tm.neg(k)) == -u:
                eliminate(tm.sub(k, u))
        for a in [a for a in F.iv if internal(a)]:
            lo, hi = F.iv[a]
            if lo == hi and a not in sol:
                eliminate(tm.sub(a, int(lo)))
        if not sol:
            return
        memo = {}
        full = deep(sol, list(F.iv) + list(F.le) + list(F.ne))
        S = lambda t: tm.subst(t, full, memo)
        for k, (lo, hi) in list(F.iv.items()):
            t = S(k)
            if t is k:
                continue
            if isinstance(t, int):
                if not lo <= t <= hi:
                    F.bot = True
            elif tm.base_range(t) == (0, 1) and lo == hi:
                F.assume(t, int(lo))
            else:
                F.set_iv(t, lo, hi)
        for k, u in list(F.le.items()):
            t = S(k)
            if t is not k:
                F.add_le(tm.sub(t, u))
        for k, vs in list(F.ne.items()):
            t = S(k)
            if t is not k:
                for v in vs:
                    F.add_ne(t, v)

    def known(self, v):
        """replace internal variables by what they are equal to"""
        if not self.eqs:
            return v
        from .values import vmap
        for _ in range(3):
            ts = []
            vmap(lambda t: (ts.append(t), t)[1], v)
            m = deep(self.eqs, ts)
            memo = self.subs.setdefault(frozenset(m.items()), {})
            v = vmap(lambda t: t if isinstance(t, int) else tm.subst(t, m, memo), v)
        return v

    def fields(self, v):
        """bit fields in terms of the parts whose value the case decides"""
        for _ in range(3):
            u = self._fields(v)
            if u is v:
                break
            v = u
        return v

    def _fields(self, v):
        from .values import vmap
        fixed = {}
        for k, (lo, hi) in self.F.iv.items():
            if k.op == "bits" and lo == hi:
                fixed.setdefault(k.args[0], []).append((k.args[1], k.args[2], int(lo)))
        seen = {}

        def scan(t):
            if not isinstance(t, T) or t in seen:
                return
            seen[t] = 1
            for a in t.args:
                for b in (a if isinstance(a, tuple) else (a,)):
                    for d in (b if isinstance(b, tuple) else (b,)):
                        scan(d)
        vmap(lambda t: (scan(t), t)[1], v)
        m = {}
        for t in seen:
            if t.op != "bits":
                continue
            x, p, w = t.args
            parts = [(q, n, None, c) for q, n, c in fixed.get(x, ()) if p <= q and q + n <= p + w and n < w]
            hi = self.F.rng(t)[1]
            top = p + w
            if hi < (1 << (w - 1)):
                top = p + int(hi).bit_length()
            out, at = 0, p
            for q, n, _, c in sorted(parts):
                if q < at or q >= top:
                    continue
                out = tm.add(out, tm.scale(tm.bits(x, at, q - at), 1 << (at - p)) if q > at else 0)
                out = tm.add(out, c << (q - p))
                at = q + n
            if at < top:
                out = tm.add(out, tm.scale(tm.bits(x, at, top - at), 1 << (at - p)))
            if len(parts) == 0 and top == p + w:
                continue
            if out is not t:
                m[t] = out
        if not m:
            return v
        memo = {}
        return vmap(lambda t: self.F.simp(tm.subst(t, m, memo)) if isinstance(t, T) else t, v)

    def free(self):
        """does the case rest on a value of the summaries that the inputs do not determine"""
        for t, _ in self.path:
            if not has_internal(t):
                continue
            for a in leafset(t):
                if internal(a) and not isinstance(self.eqs.get(a), T) or derived(a):
                    return True
            if has_internal(self.known(t)):
                return True
        return False

    def pick(self, results):
        """the (state, value) whose guard holds; None if the function does not return"""
        for st, v in results:
            if self.holds(st.guard):
                return st, v
        return None


def explore(facts, fn, limit=LIMIT):
    """run fn(ctx) for every case; fn raises Split where it needs a decision. Yields (ctx, result)"""
    work = [(facts.copy(), ())]
    n = 0
    while work:
        F, path = work.pop()
        n += 1
        if n > limit:
            raise Undecided("too many cases")
        if F.bot:
            continue
        c = Ctx(F, path)
        try:
            r = fn(c)
        except Split as s:
            outs = []
            for o in s.outcomes:
                G = F.copy()
                assume(G, s.term, o)
                if not G.bot:
                    outs.append((G, path + ((s.term, o),)))
            work += reversed(outs)
            continue
        yield c, r


def assume(F, t, o):
    if o[0] == "in":
        vs = sorted(o[1])
        if tm.base_range(t) == (0, 1) and len(vs) == 1:
            F.assume(t, vs[0])
        else:
            F.set_iv(t, vs[0], vs[-1])
            for v in range(vs[0], vs[-1] + 1):
                if v not in o[1]:
                    F.add_ne(t, v)
    else:
        for v in sorted(o[1]):
            F.add_ne(t, v)


# ------------------------------------------------------------------ differences
def equal_terms(F, a, b):
    """True | False (with a witness) | None"""
    r = compare(F, a, b)
    return r if r in (True, None) else False


def compare(F, a, b):
    """True: equal for every valuation; a valuation that tells them apart; None: unknown"""
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return True
    if not (isinstance(a, int) and isinstance(b, int)):
        if not is_float(a) and not is_float(b) and F.prove(tm.eq0(tm.sub(a, b))) is True:
            return True
    return witness(F, a, b)


def is_float(t):
    return isinstance(t, T) and (t.op.startswith("f") and t.op not in ("f2i", "fcmp", "ftob") or t.op == "i2f")


def internal(a):
    """a variable of the summaries rather than an input"""
    return isinstance(a, T) and a.op == "var" and "~" in str(a.args[0])


INTERNAL = {}


def has_internal(t):
    if not isinstance(t, T):
        return False
    r = INTERNAL.get(t)
    if r is None:
        r = INTERNAL[t] = any(internal(a) or derived(a) for a in leafset(t))
    return r


def derived(a):
    """length or element of a sequence computed from another one"""
    return isinstance(a, T) and a.op in ("len", "nth") and isinstance(a.args[0], tuple) and a.args[0][0] in ("utf8", "chars", "x", "clo") and utf8_len(a, {}) is None


def deep(sol, ts):
    """the substitution extended to the sequences that lengths and elements refer to"""
    from .values import segmap
    ls = set()
    for t in ts:
        if isinstance(t, T):
            leaves(t, ls)
    m = dict(sol)
    for a in ls:
        if a.op in ("len", "nth") and isinstance(a.args[0], tuple) and a.args[0][0] in ("utf8", "chars") and isinstance(a.args[0][1], tuple):
            g = segmap(lambda t: t if isinstance(t, int) else tm.subst(t, sol, {}), a.args[0][1])
            if g != a.args[0][1]:
                m[a] = mk(a.op, (a.args[0][0], g), *a.args[1:])
    return m


def utf8_len(a, env):
    """bytes of a text whose free characters all are U+00C8 (as a term)"""
    if a.op == "len" and isinstance(a.args[0], tuple) and a.args[0][0] == "utf8":
        g = a.args[0][1]
        if g[0] == "L" and len(g[2]) == 1 and g[2][0][0] == "e" and len(g[2][0][1]) == 1:
            x = g[2][0][1][0]
            if isinstance(x, T) and x.op == "nth" and x.args[1] == () and not (isinstance(x.args[0], tuple) and x.args[0][0] in ("utf8", "chars")):
                return tm.scale(g[4], 2)
    return None


LEAF = ("var", "nth", "len", "seqeq")


LSETS = {}
NONE = frozenset()


def leaves(t, acc):
    acc |= leafset(t)


def leafset(t):
    """the input symbols and uninterpreted parts a term depends on"""
    if not isinstance(t, T):
        return NONE
    r = LSETS.get(t)
    if r is not None:
        return r
    sub = []
    own = NONE
    if t.op in LEAF:
        own = frozenset((t,))
        if t.op in ("nth", "len"):
            sub = [a for a in t.args if isinstance(a, T)]
        if t.op == "len":
            u = utf8_len(t, None)
            if u is not None:
                sub.append(u)
    elif t.op == "flt":
        own = frozenset((t,))
    else:
        for a in t.args:
            if isinstance(a, T):
                sub.append(a)
            elif isinstance(a, tuple):
                for y in a:
                    if isinstance(y, T):
                        sub.append(y)
                    elif isinstance(y, tuple):
                        sub += [z for z in y if isinstance(z, T)]
    r = own.union(*[leafset(a) for a in sub]) if sub else own
    LSETS[t] = r
    return r


def isleaf(t):
    return t.op in LEAF or t.op == "flt"


class NoValue(Exception):
    pass


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def fbits(x, w):
    try:
        return struct.unpack("<f" if w == 32 else "<d", struct.pack("<I" if w == 32 else "<Q", x & ((1 << w) - 1)))[0]
    except struct.error:
        raise NoValue()


def ev(t, env):
    """value of a term under a valuation of its leaves"""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == "lin":
        r = a[0]
        for x, k in a[1]:
            v = ev(x, env)
            if isinstance(v, float):
                raise NoValue()
            r += k * v
    elif op == "gamma":
        s = ev(a[0], env)
        for c, u in a[1]:
            if c == s:
                r = ev(u, env)
                break
        else:
            if a[2] is None:
                raise NoValue()
            r = ev(a[2], env)
    elif op == "le0":
        r = int(ev(a[0], env) <= 0)
    elif op == "eq0":
        r = int(ev(a[0], env) == 0)
    elif op == "wrap":
        r = tm.wrap(int(ev(a[2], env)), a[0], a[1])
    elif op == "bits":
        r = (int(ev(a[0], env)) >> a[1]) & ((1 << a[2]) - 1)
    elif op == "mul":
        r = ev(a[0], env) * ev(a[1], env)
    elif op in ("and", "or", "xor"):
        x, y = ev(a[0], env), ev(a[1], env)
        r = x & y if op == "and" else x | y if op == "or" else x ^ y
    elif op in ("shl", "shr"):
        x, y = ev(a[0], env), ev(a[1], env)
        if y < 0 or y > 200:
            raise NoValue()
        r = x << y if op == "shl" else x >> y
    elif op in ("div", "rem"):
        x, y = ev(a[0], env), ev(a[1], env)
        if y == 0:
            raise NoValue()
        q = abs(x) // abs(y)
        q = q if (x >= 0) == (y >= 0) else -q
        r = q if op == "div" else x - y * q
    elif op in ("min", "max"):
        r = (min if op == "min" else max)(ev(a[0], env), ev(a[1], env))
    elif op == "abs":
        r = abs(ev(a[0], env))
    elif op == "fbits":
        r = fbits(int(ev(a[0], env)), a[1])
    elif op == "ftob":
        x = ev(a[0], env)
        try:
            r = struct.unpack("<I" if a[1] == 32 else "<Q", struct.pack("<f" if a[1] == 32 else "<d", x))[0]
        except OverflowError:
            r = struct.unpack("<I", struct.pack("<f", f32(x)))[0]
    elif op == "i2f":
        r = float(ev(a[0], env))
        if a[1] == 32:
            r = f32(r)
    elif op == "fconv":
        r = ev(a[0], env)
        if a[2] == 32:
            r = f32(r)
    elif op == "f2i":
        x = ev(a[2], env)
        lo, hi = tm.trange(a[0], a[1])
        if x != x:
            r = 0
        elif x in (float("inf"), float("-inf")):
            r = hi if x > 0 else lo
        else:
            r = max(lo, min(hi, int(x)))
    elif op == "fcmp":
        x, y = ev(a[1], env), ev(a[2], env)
        r = {"Eq": x == y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Nan": x != x}.get(a[0])
        if r is None:
            raise NoValue()
        r = int(r)
    elif op in ("fround", "ftrunc", "ffloor", "fceil", "fabs", "fNeg"):
        import math
        x = ev(a[0], env)
        if x != x or x in (float("inf"), float("-inf")):
            r = x if op not in ("fabs", "fNeg") else (abs(x) if op == "fabs" else -x)
        else:
            r = {"fround": lambda: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1), "ftrunc": lambda: float(math.trunc(x)), "ffloor": lambda: float(math.floor(x)),
                 "fceil": lambda: float(math.ceil(x)), "fabs": lambda: abs(x), "fNeg": lambda: -x}[op]()
    elif op in ("fAdd", "fSub", "fMul", "fDiv", "fRem"):
        x, y = ev(a[0], env), ev(a[1], env)
        try:
            r = {"fAdd": lambda: x + y, "fSub": lambda: x - y, "fMul": lambda: x * y, "fDiv": lambda: x / y, "fRem": lambda: __import__("math").fmod(x, y)}[op]()
        except (ZeroDivisionError, ValueError, OverflowError):
            raise NoValue()
    else:
        raise NoValue()
    env[t] = r
    return r


INTERESTING_F = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -0.5, 255.0, 256.0, 2.0**31, 2.0**31 - 1, 2.0**32, 2.0**53, 2.0**53 + 2, 2.0**63, -2.0**63, 2.0**64, 1e300, -1e300,
                 float("inf"), float("-inf"), float("nan"), 31415926.0, 31415926.535897933, 0.1, 123456.75, -2.0**31, -2.0**31 - 1, 2.0**24 + 1, 3.4e38, 1e-40]


POINTS = [0, 1, 2, 3, 127, 128, 255, 256, 2**31 - 1, 2**31, -1, -2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**63]


def sample(lo, hi, rnd):
    if lo == -tm.INF:
        lo = -(1 << 63)
    if hi == tm.INF:
        hi = 1 << 63
    lo, hi = int(lo), int(hi)
    if lo >= hi:
        return lo
    k = rnd.random()
    if hi - lo < 64:
        return rnd.randint(lo, hi)
    if k < 0.3:
        return lo + rnd.randint(0, 3)
    if k < 0.45:
        return hi - rnd.randint(0, 3)
    if k < 0.65:
        b = rnd.randint(0, max(1, (hi - lo).bit_length() - 1))
        v = lo + (1 << b) + rnd.randint(-2, 2)
        return max(lo, min(hi, v))
    if k < 0.8:
        return max(lo, min(hi, rnd.choice(POINTS)))
    if k < 0.9:
        return max(lo, min(hi, rnd.randint(0, 1000)))
    return rnd.randint(lo, hi)


class Search:
    """valuations of the input symbols that satisfy the facts of a case"""

    def __init__(self, F, terms):
        self.F = F
        ls = set()
        for t in terms:
            leaves(t, ls)
        le = [(k, u, lset(k)) for k, u in F.le.items()]
        iv = [(k, lo, hi, lset(k)) for k, (lo, hi) in F.iv.items()]
        ne = [(k, vs, lset(k)) for k, vs in F.ne.items()]
        for _ in range(6):
            n = len(ls)
            for x in le + iv + ne:
                if x[-1] & ls:
                    ls |= x[-1]
            if len(ls) == n:
                break
        self.le = [x for x in le if x[-1] & ls]
        self.iv = [x for x in iv if x[-1] & ls]
        self.ne = [x for x in ne if x[-1] & ls]
        # linear view: every leaf's facts
        self.of = {}
        for k, u, s in self.le:
            ms = k.args[1] if k.op == "lin" else ((k, 1),)
            c = k.args[0] if k.op == "lin" else 0
            for a, q in ms:
                self.of.setdefault(a, []).append((ms, c, u))
        self.parts = {}
        for k, lo, hi, _ in self.iv:
            if k.op == "bits" and isleaf(k.args[0]):
                self.parts.setdefault(k.args[0], []).append((k.args[1], k.args[2], max(0, int(lo)), int(min(hi, (1 << k.args[2]) - 1))))
        for v in self.parts.values():
            v.sort(key=lambda x: -x[1])
        self.words, self.floats = [], set()
        seen = set()
        for t in list(terms) + [x[0] for x in self.le + self.iv + self.ne]:
            self.scan(t, seen)
        self.order = sorted(ls, key=lambda t: (utf8_len(t, None) is not None, t.op != "len", t.op == "nth", t.id))
        self.rnd = random.Random(7)

    def bounds(self, a, env):
        lo, hi = self.F.rng(a)
        for ms, c, u in self.of.get(a, ()):
            # k*a <= u - c - rest
            rest, q = c, 0
            for b, k in ms:
                if b is a:
                    q = k
                    continue
                v = env.get(b)
                if v is None and not isleaf(b):
                    try:
                        v = ev(b, env)
                    except NoValue:
                        v = None
                if v is None:
                    r = self.F.rng(b)
                    v = r[0] if k > 0 else r[1]
                if isinstance(v, float) and v in (tm.INF, -tm.INF):
                    rest = None
                    break
                rest += k * v
            if rest is None or isinstance(rest, float):
                continue
            if q > 0:
                hi = min(hi, (u - rest) // q)
            elif q < 0:
                lo = max(lo, -((u - rest) // -q))
        return lo, hi

    def scan(self, t, seen):
        """float constants, and words that are read as floats"""
        if isinstance(t, float):
            self.floats.add(t)
        if isinstance(t, tuple):
            for x in t:
                self.scan(x, seen)
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "fbits" and isinstance(t.args[0], int):
            self.floats.add(fbits(*t.args))
        if t.op == "fbits" and isinstance(t.args[0], T):
            self.words.append((t.args[0], t.args[1]))
        for x in t.args:
            if isinstance(x, (T, tuple, float)):
                self.scan(x, seen)

    def preset(self, env):
        """give the bytes of a word the representation of a float constant"""
        fs = sorted(self.floats) or INTERESTING_F
        for x, w in self.words:
            c = self.rnd.choice(fs) + self.rnd.choice((0.0, 0.0, 0.25, 1.0))
            if self.rnd.random() < 0.2:
                c = -c
            try:
                b = struct.unpack("<I" if w == 32 else "<Q", struct.pack("<f" if w == 32 else "<d", c))[0]
            except OverflowError:
                continue
            ms, k = (x.args[1], x.args[0]) if x.op == "lin" else (((x, 1),), 0)
            if k == 0 and all(isleaf(a) and q > 0 and q & (q - 1) == 0 for a, q in ms):
                for a, q in ms:
                    if a not in env:
                        lo, hi = a.args[2:4] if a.op == "nth" else (0, 255)
                        v = b // q
                        env[a] = v & 255 if hi == 255 else v

    def models(self, tries):
        rnd = self.rnd
        for _ in range(tries):
            env, cells = {}, {}
            ok = True
            if self.words and rnd.random() < 0.6:
                self.preset(env)
            for a in self.order:
                if a in env and a.op != "nth":
                    continue
                if a.op == "flt":
                    env[a] = rnd.choice(INTERESTING_F) if rnd.random() < 0.8 else rnd.uniform(-1e6, 1e6)
                    if a.args[1] == 32:
                        env[a] = f32(env[a])
                    continue
                if a.op == "nth":
                    try:
                        key = (a.args[0], a.args[1]) + tuple(ev(x, env) if isinstance(x, T) else x for x in a.args[2:])
                    except NoValue:
                        key = a
                    if key in cells:
                        env[a] = cells[key]
                        continue
                    if a in env:
                        cells[key] = env[a]
                        continue
                lo, hi = self.bounds(a, env)
                if lo > hi:
                    ok = False
                    break
                u = utf8_len(a, env)
                if u is not None:
                    try:
                        env[a] = ev(u, env)
                    except NoValue:
                        ok = False
                        break
                    continue
                env[a] = sample(lo, hi, rnd)
                for p, w, l, h in self.parts.get(a, ()):
                    v = env[a]
                    x = sample(l, h, rnd)
                    env[a] = v & ~(((1 << w) - 1) << p) | x << p
                if a.op == "nth":
                    cells[key] = env[a]
            if not ok:
                continue
            try:
                for k, lo, hi, s in self.iv:
                    v = ev(k, env)
                    if isinstance(v, float) or not lo <= v <= hi:
                        ok = False
                        break
                if ok:
                    for k, u, s in self.le:
                        if ev(k, env) > u:
                            ok = False
                            break
                if ok:
                    for k, vs, s in self.ne:
                        if ev(k, env) in vs:
                            ok = False
                            break
                if ok:
                    yield env
            except (NoValue, OverflowError):
                continue


def lset(t):
    return leafset(t)


def witness(F, a, b, tries=3000):
    """a valuation satisfying the facts under which the terms differ"""
    if has_internal(a) or has_internal(b):
        return None
    s = Search(F, (a, b))
    good = 0
    for env in s.models(tries):
        try:
            x, y = ev(a, env), ev(b, env)
        except (NoValue, OverflowError):
            continue
        good += 1
        if not (x == y and (x or not isinstance(x, float) or not isinstance(y, float) or math.copysign(1, x) == math.copysign(1, y))) and not (x != x and y != y):
            return {show(l)[:120]: env[l] for l in s.order[:24]}
        if good > 600:
            break
    return None


def sample_model(F, terms, tries=3000):
    """a valuation satisfying all facts, or False"""
    s = Search(F, list(terms) + list(F.le) + list(F.iv) + list(F.ne))
    for env in s.models(tries):
        return {show(l)[:120]: env[l] for l in s.order[:24]} or {"-": "any"}
    return False
