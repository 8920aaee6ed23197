"""Symbolic scalar terms (hash-consed), their normal forms, interval and linear facts.

Integer terms denote mathematical integers.  A term is a Python int or a T.  T nodes
are atoms (op, args) or the linear form ('lin', const, ((atom, coeff), ...)).
Booleans are the integers 0/1.  Machine wrap-around is explicit: ('wrap', bits, signed, t).
"""
from math import gcd

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "id", "_r")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _cnt[0] += 1
        t.id = _cnt[0]
        t._r = None
        _tab[key] = t
    return t


_nest = [0, 0]


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, int) else str(t)
    if d > 14 or _nest[0] > 8 or _nest[1] > 4000:
        return "…"
    if d == 0 and not _nest[0]:
        _nest[1] = 0
    _nest[1] += 1
    if d == 0:
        _nest[0] += 1
        try:
            return _show(t, 0)
        finally:
            _nest[0] -= 1
    return _show(t, d)


def _show(t, d):
    if t.op == "lin":
        c, ms = t.args
        s = " + ".join((show(a, d + 1) if k == 1 else f"{k}*{show(a, d + 1)}") for a, k in ms)
        return f"({s}{' + ' + str(c) if c else ''})"
    if t.op == "var":
        return t.args[0] if isinstance(t.args[0], str) else repr(t.args[0])
    if t.op == "gamma":
        x, cs, dfl = t.args
        return f"γ[{show(x, d + 1)}: " + "; ".join(f"{v}→{show(u, d + 1)}" for v, u in cs) + (f"; _→{show(dfl, d + 1)}" if dfl is not None else "") + "]"
    return f"{t.op}(" + ", ".join(show(a, d + 1) if isinstance(a, (T, int)) else str(a) for a in t.args) + ")"


# ---------------------------------------------------------------- ranges
def trange(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


INF = float("inf")


def base_range(t):
    """Range of a term from its shape alone."""
    if isinstance(t, int):
        return (t, t)
    if t._r is None:
        t._r = _range(t, base_range)
    return t._r


def _mulr(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0 if x == 0 or y == 0 else x * y)
    return (min(ps), max(ps))


def _range(t, R):
    op, a = t.op, t.args
    if op == "lin":
        lo = hi = a[0]
        for x, k in a[1]:
            r = R(x)
            p, q = r[0] * k, r[1] * k
            if p > q:
                p, q = q, p
            lo += p
            hi += q
        return (lo, hi)
    if op == "var":
        return (a[1], a[2])
    if op == "nth":  # (array id, field path, lo, hi, index)
        return (a[2], a[3])
    if op == "byte":
        return (0, 255)
    if op == "ftob":
        return (0, (1 << a[1]) - 1)
    if op in ("le0", "eq0", "fcmp", "seqeq", "bvar", "bnot"):
        return (0, 1)
    if op == "wrap":
        r = R(a[2])
        tr = trange(a[0], a[1])
        return r if tr[0] <= r[0] and r[1] <= tr[1] else tr
    if op == "bits":
        r = R(a[0])
        hi = (1 << a[2]) - 1
        if a[1] == 0 and r[0] >= 0:
            return (max(0, r[0]) if r[1] <= hi else 0, min(hi, r[1]))
        if r[0] >= 0 and r[1] < INF:
            return (0, min(hi, r[1] >> a[1]))
        if r[1] < 0 and r[0] >= -(1 << (a[1] + a[2])):
            return ((int(r[0]) >> a[1]) + (1 << a[2]), (int(r[1]) >> a[1]) + (1 << a[2]))
        return (0, hi)
    if op == "gamma":
        rs = [R(u) for _, u in a[1]] + ([R(a[2])] if a[2] is not None else [])
        return (min(r[0] for r in rs), max(r[1] for r in rs))
    if op == "and":
        x, y = R(a[0]), R(a[1])
        if x[0] >= 0 and y[0] >= 0:
            return (0, min(x[1], y[1]))
        if x[0] >= 0:
            return (0, x[1])
        if y[0] >= 0:
            return (0, y[1])
        return trange(a[2], True)
    if op in ("or", "xor"):
        x, y = R(a[0]), R(a[1])
        if x[0] >= 0 and y[0] >= 0 and x[1] < INF and y[1] < INF:
            return (max(x[0], y[0]) if op == "or" else 0, (1 << max(x[1].bit_length(), y[1].bit_length())) - 1)
        return trange(a[2], True)
    if op == "shr":  # value of nonneg a[0] >> a[1]
        x, s = R(a[0]), R(a[1])
        if x[0] >= 0:
            return (0, x[1] if s[0] == 0 or x[1] == INF else x[1] >> s[0])
        return (x[0], max(x[1], 0))
    if op == "shl":  # ideal a[0] << a[1]
        x, s = R(a[0]), R(a[1])
        if x[0] >= 0 and s[1] <= 130 and s[0] >= 0:
            return (x[0] << s[0], INF if x[1] == INF else x[1] << s[1])
        return (-INF, INF)
    if op == "mul":
        return _mulr(R(a[0]), R(a[1]))
    if op == "div":
        x, y = R(a[0]), R(a[1])
        if y[0] > 0 and x[0] >= 0:
            return (0 if y[1] == INF else x[0] // y[1], x[1] if x[1] == INF else x[1] // y[0])
        m = max(abs(x[0]), abs(x[1]))
        return (-m, m)
    if op == "rem":
        x, y = R(a[0]), R(a[1])
        m = max(abs(y[0]), abs(y[1]))
        m = m - 1 if m > 0 else 0
        if x[0] >= 0:
            return (0, min(x[1], m))
        return (-m, m)
    if op == "min":
        x, y = R(a[0]), R(a[1])
        return (min(x[0], y[0]), min(x[1], y[1]))
    if op == "max":
        x, y = R(a[0]), R(a[1])
        return (max(x[0], y[0]), max(x[1], y[1]))
    if op == "abs":
        x = R(a[0])
        lo = 0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
        return (lo, max(abs(x[0]), abs(x[1])))
    if op == "sgn":
        return (-1, 1)
    if op == "count":
        return (0, a[1] if len(a) > 1 else 1 << 62)
    if op == "f2i":
        return trange(a[0], a[1])
    if op == "len":
        return (0, (1 << 63) - 1)
    return (-INF, INF)


# ---------------------------------------------------------------- linear forms
def parts(t):
    if isinstance(t, int):
        return t, ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def lin(c, ms):
    ms = [(a, k) for a, k in ms if k]
    if not ms:
        return c
    if c == 0 and len(ms) == 1 and ms[0][1] == 1:
        return ms[0][0]
    ms.sort(key=lambda m: m[0].id)
    return mk("lin", c, tuple(ms))


def addk(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, ma = parts(a)
    cb, mb = parts(b)
    d = dict(ma)
    for x, k in mb:
        d[x] = d.get(x, 0) + kb * k
    return lin(ca + kb * cb, list(d.items()))


def add(a, b):
    return addk(a, b, 1)


def sub(a, b):
    return addk(a, b, -1)


def neg(a):
    return addk(0, a, -1)


def scale(a, k):
    return addk(0, a, k)


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    # distribute over linear forms of one side when small
    ca, ma = parts(a)
    cb, mb = parts(b)
    if len(ma) + len(mb) <= 6:
        r = ca * cb
        for x, k in ma:
            r = addk(r, x, k * cb)
        for x, k in mb:
            r = addk(r, x, k * ca)
        for x, k in ma:
            for y, j in mb:
                p, q = (x, y) if x.id <= y.id else (y, x)
                r = addk(r, mk("mul", p, q), k * j)
        return r
    p, q = (a, b) if a.id <= b.id else (b, a)
    return mk("mul", p, q)


# ---------------------------------------------------------------- gamma (decision) terms
def eq_const(x):
    """(a, c) if x is the decision a = c"""
    if isinstance(x, T) and x.op == "eq0":
        c, ms = parts(x.args[0])
        if len(ms) == 1 and ms[0][1] in (1, -1) and base_range(ms[0][0]) != (0, 1):
            return ms[0][0], -c * ms[0][1]
    return None


def gamma(x, cases, default=None):
    """cases: list of (value, term); default term or None (= impossible)."""
    e = eq_const(x)
    if e is not None:
        by = dict(cases)
        t, f = by.get(1, default), by.get(0, default)
        if f is None:
            return t if t is not None else mk("gamma", x, tuple(cases), default)
        if t is None:
            return f
        return gamma(e[0], [(e[1], t)], f)
    if default is not None and isinstance(default, T) and default.op == "gamma" and default.args[0] is x:
        listed = {v for v, _ in cases}
        cases = list(cases) + [(v, u) for v, u in default.args[1] if v not in listed]
        default = default.args[2]
    cases = sorted(cases, key=lambda c: c[0])
    if any(isinstance(u, T) and u.op == "gamma" and u.args[0] is x for _, u in cases):
        def pick(v, u):
            if isinstance(u, T) and u.op == "gamma" and u.args[0] is x:
                for w, y in u.args[1]:
                    if w == v:
                        return y
                return u.args[2] if u.args[2] is not None else u
            return u
        cases = [(v, pick(v, u)) for v, u in cases]
    if default is not None:
        cases = [(v, u) for v, u in cases if u is not default and u != default]
    leaves = [u for _, u in cases] + ([default] if default is not None else [])
    if all(u is leaves[0] or (isinstance(u, int) and isinstance(leaves[0], int) and u == leaves[0]) for u in leaves):
        return leaves[0]
    # factor a common linear part: leaves l_i = base + r_i
    if all(isinstance(u, (int, T)) for u in leaves):
        pl = [parts(u) for u in leaves]
        common = None
        for c, ms in pl:
            s = dict(ms)
            if common is None:
                common = s
            else:
                common = {a: k for a, k in common.items() if s.get(a) == k}
        if common:
            base = lin(0, list(common.items()))
            return add(base, gamma(x, [(v, sub(u, base)) for v, u in cases], None if default is None else sub(default, base)))
    # boolean gamma selecting on one value
    if default is not None and len(cases) == 1 and default == 0 and cases[0][1] == 1:
        return eq0(sub(x, cases[0][0]))
    if default is not None and len(cases) == 1 and default == 1 and cases[0][1] == 0:
        return sub(1, eq0(sub(x, cases[0][0])))
    # identity over a fully listed 0/1 domain
    if default is None and all(isinstance(u, int) and u == v for v, u in cases) and all(isinstance(v, int) for v, _ in cases):
        return x
    return mk("gamma", x, tuple(cases), default)


def gleaves(t):
    if isinstance(t, T) and t.op == "gamma":
        r = []
        for _, u in t.args[1]:
            r += gleaves(u)
        if t.args[2] is not None:
            r += gleaves(t.args[2])
        return r
    return [t]


def gconst(t):
    """t is a gamma tree with only integer leaves"""
    return isinstance(t, T) and t.op == "gamma" and all(isinstance(l, int) for l in gleaves(t))


def gmap(f, t):
    if isinstance(t, T) and t.op == "gamma":
        x, cs, d = t.args
        return gamma(x, [(v, gmap(f, u)) for v, u in cs], None if d is None else gmap(f, d))
    return f(t)


def gsplit(t):
    """linear form c + k*gamma with constant leaves -> the equivalent constant gamma, else None"""
    if gconst(t):
        return t
    if isinstance(t, T) and t.op == "lin" and len(t.args[1]) == 1 and gconst(t.args[1][0][0]):
        c, ((g, k),) = t.args
        x, cs, d = g.args

        def go(u):
            if isinstance(u, int):
                return c + k * u
            x, cs, d = u.args
            return mk("gamma", x, tuple((v, go(w)) for v, w in cs), None if d is None else go(d))

        return go(g)
    return None


# ---------------------------------------------------------------- comparisons
def norm_le(t):
    """normalise 'lin <= 0' by the gcd of its coefficients"""
    c, ms = parts(t)
    g = 0
    for _, k in ms:
        g = gcd(g, abs(k))
    if g > 1:
        # g*s + c <= 0  <=>  s + ceil(c/g) <= 0
        c2 = -((-c) // g)
        return lin(c2, [(a, k // g) for a, k in ms])
    return t


def le0(t):
    if isinstance(t, int):
        return 1 if t <= 0 else 0
    r = base_range(t)
    if r[1] <= 0:
        return 1
    if r[0] > 0:
        return 0
    g = gsplit(t)
    if g is not None:
        return gmap(lambda u: 1 if u <= 0 else 0, g)
    t = norm_le(t)
    # canonical polarity: x <= 0 vs not(-x+1 <= 0): choose the one with positive leading coefficient
    c, ms = parts(t)
    if ms[0][1] < 0:
        return sub(1, mk("le0", sub(1, t)))
    return mk("le0", t)


def eq0(t):
    if isinstance(t, int):
        return 1 if t == 0 else 0
    r = base_range(t)
    if r[0] > 0 or r[1] < 0:
        return 0
    c, ms = parts(t)
    g = 0
    for _, k in ms:
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return 0
        t = lin(c // g, [(a, k // g) for a, k in ms])
        c, ms = parts(t)
    if ms[0][1] < 0:
        t = neg(t)
        c, ms = parts(t)
    gs = gsplit(t)
    if gs is not None:
        return gmap(lambda u: 1 if u == 0 else 0, gs)
    # x in {0,1} boolean: x == 1 is x ; x == 0 is 1-x
    if len(ms) == 1 and ms[0][1] == 1 and base_range(ms[0][0]) == (0, 1):
        if c == -1:
            return ms[0][0]
        if c == 0:
            return sub(1, ms[0][0])
    return mk("eq0", t)


def cmp(op, a, b):
    if op == "Eq":
        return eq0(sub(a, b))
    if op == "Ne":
        return sub(1, eq0(sub(a, b)))
    if op == "Le":
        return le0(sub(a, b))
    if op == "Lt":
        return le0(add(sub(a, b), 1))
    if op == "Ge":
        return le0(sub(b, a))
    if op == "Gt":
        return le0(add(sub(b, a), 1))
    raise ValueError(op)


# ---------------------------------------------------------------- bit forms
def bitform(t, R=base_range):
    """[(pos, width, atom or None, lo-or-const)] for a non-negative term with disjoint bit fields, else None"""
    if isinstance(t, int):
        if t <= 0:
            return [] if t == 0 else None
        c, ms = t, ()
    else:
        c, ms = parts(t)
    if c < 0:
        return None
    out = []
    if c:
        # split the constant into runs of ones
        p = 0
        while c >> p:
            if (c >> p) & 1:
                q = p
                while (c >> q) & 1:
                    q += 1
                out.append((p, q - p, None, (1 << (q - p)) - 1))
                p = q
            else:
                p += 1
    for a, k in ms:
        if k <= 0 or k & (k - 1):
            return None
        r = R(a)
        if r[0] < 0 or r[1] == INF:
            return None
        w = max(1, int(r[1]).bit_length())
        p = k.bit_length() - 1
        if a.op == "bits":
            out.append((p, min(w, a.args[2]), a.args[0], a.args[1]))
        else:
            out.append((p, w, a, 0))
    out.sort(key=lambda s: s[0])
    for i in range(len(out) - 1):
        if out[i][0] + out[i][1] > out[i + 1][0]:
            return None
    return out


def from_bitform(sl, R=base_range):
    r = 0
    # merge adjacent slices of the same atom
    sl = sorted(sl, key=lambda s: s[0])
    m = []
    for s in sl:
        if m and s[2] is not None and m[-1][2] is s[2] and m[-1][0] + m[-1][1] == s[0] and m[-1][3] + m[-1][1] == s[3]:
            m[-1] = (m[-1][0], m[-1][1] + s[1], s[2], m[-1][3])
        else:
            m.append(s)
    for p, w, a, lo in m:
        if a is None:
            r = add(r, lo << p)
        else:
            r = addk(r, rawbits(a, lo, w, R), 1 << p)
    return r


def rawbits(a, lo, w, R=base_range):
    if isinstance(a, int):
        return (a >> lo) & ((1 << w) - 1)
    r = R(a)
    if lo == 0 and r[0] >= 0 and r[1] < (1 << w):
        return a
    if r[0] >= 0 and r[1] < (1 << lo):
        return 0
    if a.op == "bits":
        w = min(w, a.args[2] - lo)
        if w <= 0:
            return 0
        return mk("bits", a.args[0], a.args[1] + lo, w)
    if a.op == "wrap" and lo + w <= a.args[0]:
        # low bits of a reduced value are the low bits of the value
        return bits(a.args[2], lo, w, R)
    return mk("bits", a, lo, w)


def sumbits(t, lo, w, R):
    """bits of a sum whose parts do not carry into one another"""
    c, ms = parts(t)
    if R(t)[0] < 0:
        return None

    def low(n):
        """(the part below 2^n, the rest)"""
        m = 1 << n
        a = [(x, k % m if k > 0 else k) for x, k in ms if k % m]
        b = [(x, k - k % m if k > 0 else k) for x, k in ms if not k % m or k > m]
        u = lin(0, a)
        r = R(u) if isinstance(u, T) else (u, u)
        if r[0] == -INF or r[1] == INF:
            return None
        d = c % m
        d += -((int(r[0]) + d) // m) * m
        if r[1] + d < m:
            return add(u, d), lin(c - d, b)
        return None
    if lo:
        r = low(lo)
        if r is None:
            return None
        u = r[1]
        if isinstance(u, int):
            return (u >> lo) & ((1 << w) - 1)
        k, ns = parts(u)
        return bits(lin(k >> lo, [(x, q >> lo) for x, q in ns]), 0, w, R)
    r = R(t)
    if r[1] < (1 << w):
        return t
    r = low(w)
    return None if r is None else r[0]


def bits(t, lo, w, R=base_range):
    """bits lo..lo+w of the non-negative term t"""
    if w <= 0:
        return 0
    if isinstance(t, int):
        return (t >> lo) & ((1 << w) - 1)
    bf = bitform(t, R)
    if bf is None:
        r = sumbits(t, lo, w, R) if t.op == "lin" else None
        return rawbits(t, lo, w, R) if r is None else r
    out = []
    for p, ww, a, l in bf:
        s, e = max(p, lo), min(p + ww, lo + w)
        if s >= e:
            continue
        if a is None:
            out.append((s - lo, e - s, None, (l >> (s - p)) & ((1 << (e - s)) - 1)))
        else:
            out.append((s - lo, e - s, a, l + (s - p)))
    return from_bitform(out, R)


def wrap(t, b, signed, R=base_range):
    """value of t reduced to the machine type"""
    lo, hi = trange(b, signed)
    if isinstance(t, int):
        v = t & ((1 << b) - 1)
        if signed and v >> (b - 1):
            v -= 1 << b
        return v
    r = R(t)
    if lo <= r[0] and r[1] <= hi:
        return t
    # reduce the inside modulo 2^b
    c, ms = parts(t)
    m = 1 << b
    d = {}
    c2 = c
    ch = False
    for a, k in ms:
        if a.op == "wrap" and a.args[0] >= b:
            ic, ims = parts(a.args[2])
            c2 += k * ic
            for x, j in ims:
                d[x] = d.get(x, 0) + k * j
            ch = True
        else:
            d[a] = d.get(a, 0) + k

    def red(k):
        k %= m
        return k - m if k > m // 2 else k

    c3 = red(c2)
    items = [(a, red(k)) for a, k in d.items()]
    u = lin(c3, [(a, k) for a, k in items])
    if isinstance(u, int):
        return wrap(u, b, signed)
    if u is not t:
        r = R(u)
        if lo <= r[0] and r[1] <= hi:
            return u
    if not signed:
        bf = bitform(u, R)
        if bf is not None:
            return bits(u, 0, b, R)
        if u.op == "bits" :
            return bits(u, 0, b, R)
    g = gsplit(u)
    if g is not None:
        return gmap(lambda x: wrap(x, b, signed), g)
    if isinstance(u, T) and u.op == "gamma":
        return gmap(lambda x: wrap(x, b, signed, R), u)
    return mk("wrap", b, signed, u)


def band(a, b, B, signed, R=base_range):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    ua, ub = wrap(a, B, False, R), wrap(b, B, False, R)
    if isinstance(ua, int) and isinstance(ub, int):
        return wrap(ua & ub, B, signed)
    if R(ua) == (0, 1) and R(ub) == (0, 1) and ua is ub:
        return ua
    if isinstance(ub, int):
        if ub == 0:
            return 0
        r = 0
        p = 0
        nruns = 0
        m = ub
        while m >> p:
            if (m >> p) & 1:
                q = p
                while (m >> q) & 1:
                    q += 1
                r = add(r, scale(bits(ua, p, q - p, R), 1 << p))
                p = q
                nruns += 1
            else:
                p += 1
        if nruns <= 8:
            return wrap(r, B, signed, R)
    if isinstance(ua, int):
        return band(b, a, B, signed, R)
    x, y = (ua, ub) if ua.id <= ub.id else (ub, ua)
    if x is y:
        return wrap(x, B, signed, R)
    return wrap(mk("and", x, y, B), B, signed, R)


def _mask(t, R):
    """the bits a non-negative term can have set, or None"""
    f = bitform(t, R)
    if f is not None:
        m = 0
        for p, w, _, _ in f:
            m |= ((1 << w) - 1) << p
        return m
    lo, hi = R(t)
    if lo < 0 or hi == INF:
        return None
    c, ms = parts(t)
    z = 64
    for k in [k for _, k in ms] + ([c] if c else []):
        z = min(z, (k & -k).bit_length() - 1)
    n = int(hi).bit_length()
    return ((1 << n) - 1) & ~((1 << z) - 1)


def _disjoint(a, b, R):
    fa, fb = bitform(a, R), bitform(b, R)
    if fa is None or fb is None:
        x, y = _mask(a, R), _mask(b, R)
        return x is not None and y is not None and not x & y
    for p, w, _, _ in fa:
        for q, v, _, _ in fb:
            if p < q + v and q < p + w:
                return False
    return True


def bor(a, b, B, signed, R=base_range, op="or"):
    ua, ub = wrap(a, B, False, R), wrap(b, B, False, R)
    if isinstance(ua, int) and isinstance(ub, int):
        return wrap(ua | ub if op == "or" else ua ^ ub, B, signed)
    if ua == 0 and isinstance(ua, int):
        return b
    if ub == 0 and isinstance(ub, int):
        return a
    if _disjoint(ua, ub, R):
        return wrap(add(ua, ub), B, signed, R)
    if isinstance(ua, int):
        ua, ub = ub, ua
    if isinstance(ub, int):
        if op == "or":
            # setting known bits
            return wrap(add(band(ua, ((1 << B) - 1) ^ ub, B, False, R), ub), B, signed, R)
        # flipping known bits: x ^ m = x + m - 2*(x & m)
        return wrap(add(add(ua, ub), scale(band(ua, ub, B, False, R), -2)), B, signed, R)
    if ua is ub:
        return a if op == "or" else 0
    if isinstance(ua, int) or (not isinstance(ub, int) and ua.id > ub.id):
        ua, ub = ub, ua
    return wrap(mk(op, ua, ub, B), B, signed, R)


def shl(a, s, B, signed, R=base_range):
    if isinstance(s, int):
        return wrap(scale(a, 1 << s), B, signed, R)
    g = gsplit(s)
    if g is not None:
        return gmap(lambda k: shl(a, k, B, signed, R), g)
    return wrap(mk("shl", a, s), B, signed, R)


def shr(a, s, B, signed, R=base_range):
    if isinstance(s, int):
        if isinstance(a, int):
            return a >> s
        if R(a)[0] >= 0:
            return bits(a, s, B - s, R)
        return mk("shr", a, s)
    g = gsplit(s)
    if g is not None:
        return gmap(lambda k: shr(a, k, B, signed, R), g)
    return mk("shr", a, s)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace atoms by terms (m: dict atom -> term) and re-normalise"""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "lin":
        r = t.args[0]
        for a, k in t.args[1]:
            r = addk(r, subst(a, m, memo), k)
    elif t.op == "var":
        r = t
    elif t.op == "gamma":
        x, cs, d = t.args
        nx = subst(x, m, memo)
        if isinstance(nx, int):
            r = None
            for v, u in cs:
                if v == nx:
                    r = subst(u, m, memo)
            if r is None:
                r = subst(d, m, memo) if d is not None else subst(cs[0][1], m, memo)
        else:
            ncs = [(v, subst(u, m, memo)) for v, u in cs]
            nd = None if d is None else subst(d, m, memo)
            if nx is x or (isinstance(nx, T) and nx.op != "gamma" and nx.op != "lin"):
                r = gamma(nx, ncs, nd)
            else:
                r = select(nx, ncs, nd)
    else:
        na = tuple(subst(a, m, memo) if isinstance(a, T) else (tuple(subst(y, m, memo) for y in a) if isinstance(a, tuple) and any(isinstance(y, T) for y in a) else a) for a in t.args)
        if na == t.args:
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def select(x, cases, default):
    """gamma whose selector is an arbitrary term"""
    if isinstance(x, int):
        for v, u in cases:
            if v == x:
                return u
        return default if default is not None else cases[0][1]
    g = gsplit(x)
    if g is not None:
        return gmap(lambda k: select(k, cases, default), g)
    return gamma(x, cases, default)


ROUNDED = ("fround", "ftrunc", "ffloor", "fceil", "fround_ties_even")


def fcmp(op, a, b):
    if isinstance(a, T) and isinstance(b, T):
        if op == "Ne":
            return sub(1, fcmp("Eq", a, b))
        if op == "Eq":
            # integral: whichever way of rounding is compared
            for x, y in ((a, b), (b, a)):
                if x.op in ROUNDED and x.args[0] is y:
                    a, b = y, mk("fround", y)
            if a.id > b.id:
                a, b = b, a
        if op == "Gt":
            return mk("fcmp", "Lt", b, a)
        if op == "Ge":
            return mk("fcmp", "Le", b, a)
    return mk("fcmp", op, a, b)


def rebuild(op, a):
    if op == "wrap":
        return wrap(a[2], a[0], a[1])
    if op == "bits":
        return bits(a[0], a[1], a[2])
    if op == "le0":
        return le0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "mul":
        return mul(a[0], a[1])
    if op == "and":
        return band(a[0], a[1], a[2], False)
    if op in ("or", "xor"):
        return bor(a[0], a[1], a[2], False, op=op)
    if op == "ftob" and isinstance(a[0], T) and a[0].op == "fbits" and a[0].args[1] == a[1]:
        return a[0].args[0]
    if op == "fcmp":
        return fcmp(*a)
    if op == "fconv" and isinstance(a[0], T) and a[0].op == "fconv" and a[0].args[1] == a[2] and a[0].args[2] >= a[1]:
        return a[0].args[0]
    if op == "shl":
        return scale(a[0], 1 << a[1]) if isinstance(a[1], int) else mk("shl", *a)
    if op == "shr":
        if isinstance(a[1], int):
            return shr(a[0], a[1], 64, False)
        return mk("shr", *a)
    if op in ("div", "rem", "min", "max", "abs", "sgn"):
        if all(isinstance(x, int) for x in a):
            return {
                "div": lambda x, y: int(x / y) if False else (abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1),
                "rem": lambda x, y: x - y * ((abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1)),
                "min": min,
                "max": max,
                "abs": abs,
                "sgn": lambda x: (x > 0) - (x < 0),
            }[op](*a)
    return mk(op, *a)


def atoms(t, acc=None):
    """all T nodes inside t"""
    if acc is None:
        acc = set()
    if isinstance(t, T):
        if t in acc:
            return acc
        acc.add(t)
        for a in t.args:
            if isinstance(a, T):
                atoms(a, acc)
            elif isinstance(a, tuple):
                for y in a:
                    if isinstance(y, T):
                        atoms(y, acc)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                atoms(z, acc)
    return acc


# ---------------------------------------------------------------- facts
class Facts:
    """Interval, disequality and linear facts; persistent by copy."""

    __slots__ = ("iv", "le", "ne", "bot")

    def __init__(self):
        self.iv = {}
        self.le = {}
        self.ne = {}
        self.bot = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.le = dict(self.le)
        f.ne = dict(self.ne)
        f.bot = self.bot
        return f

    def rng(self, t, memo=None):
        if isinstance(t, int):
            return (t, t)
        r = self.iv.get(t)
        if t.op in ("var", "byte", "len", "nth"):
            return r if r is not None else base_range(t)
        if memo is None:
            memo = {}
        else:
            b = memo.get(t)
            if b is not None:
                return b
        b = memo[t] = self._rng(t, r, memo)
        return b

    def _rng(self, t, r, memo):
        if t.op == "gamma":
            x, cs, d = t.args
            rx = self.rng(x, memo)
            ne = self.ne.get(x, ())
            us = [u for v, u in cs if rx[0] <= v <= rx[1] and v not in ne]
            if d is not None and not (rx[0] == rx[1] and any(v == rx[0] for v, _ in cs)):
                us.append(d)
            if us:
                rs = [self.rng(u, memo) for u in us]
                b = (min(q[0] for q in rs), max(q[1] for q in rs))
            else:
                b = base_range(t)
        else:
            b = _range(t, lambda u: self.rng(u, memo))
        if r is not None:
            b = (max(r[0], b[0]), min(r[1], b[1]))
        if t.op == "bits" and len(self.iv) < 400:
            # part of a field whose value is bounded, or field with decided parts
            x, p, w = t.args
            lo, hi = b
            tops, lows = [], {}
            for k, (l, h) in self.iv.items():
                if k.op == "bits" and k.args[0] is x and k is not t:
                    q, n = k.args[1:]
                    if q == p and n < w:
                        lows[n] = (int(l), int(h))
                    elif q > p and q + n == p + w:
                        tops.append((q - p, int(l), int(h)))
                    if q <= p and p + w <= q + n and h >= 0:
                        hi = min(hi, int(h) >> (p - q))
                        if q + n == p + w:
                            lo = max(lo, int(l) >> (p - q))
                        elif q == p:
                            for k2, (l2, _) in self.iv.items():
                                if l2 > 0 and k2.op == "bits" and k2.args[0] is x and k2.args[1] >= p + w and k2.args[1] + k2.args[2] <= q + n:
                                    hi = min(hi, int(h) - (int(l2) << (k2.args[1] - p)))
                    elif p <= q and q + n <= p + w:
                        lo = max(lo, int(l) << (q - p))
                        if q + n == p + w:
                            hi = min(hi, ((int(h) + 1) << (q - p)) - 1)
            for q, l, h in tops:
                if q in lows:
                    lo = max(lo, (l << q) + lows[q][0])
                    hi = min(hi, (h << q) + lows[q][1])
            b = (lo, hi) if lo <= hi else b
        if t.op == "lin" and len(t.args[1]) > 1 and all(a.op == "bits" for a, _ in t.args[1]) and len(self.iv) < 400:
            b = self._tiled(t, b)
        if t.op == "lin" and self.le:
            # use a directly stored bound
            c, ms = t.args
            key = lin(0, list(ms))
            u = self.le.get(key)
            if u is not None and u + c < b[1]:
                b = (b[0], u + c)
            k2 = lin(0, [(a, -k) for a, k in ms])
            u = self.le.get(k2)
            if u is not None and -u + c > b[0]:
                b = (-u + c, b[1])
        return b

    def simp(self, t):
        """constant if the facts force one"""
        if isinstance(t, int):
            return t
        r = self.rng(t)
        if r[0] == r[1]:
            return r[0]
        return t

    # upper bound of a linear term using the linear facts (bounded depth)
    def ub(self, t, depth=3, goal=None):
        r = self.rng(t)[1]
        if goal is not None and r <= goal:
            return r
        if depth == 0 or isinstance(t, int):
            return r
        c, ms = parts(t)
        best = r
        mset = dict(ms)
        for f, u in self.le.items():
            fc, fms = parts(f)
            # t = f*m + rest, with m > 0 chosen so that some monomial cancels
            for a, k in fms:
                tk = mset.get(a)
                if tk and (tk > 0) == (k > 0) and tk % k == 0:
                    m = tk // k
                    rest = addk(t, f, -m)
                    if isinstance(rest, T) and len(parts(rest)[1]) > len(ms) + 1:
                        continue
                    v = self.ub(rest, depth - 1, None if goal is None else goal - m * u) + m * u
                    if v < best:
                        best = v
                        if goal is not None and best <= goal:
                            return best
                    break
        return best

    def lb(self, t, depth=3, goal=None):
        return -self.ub(neg(t), depth, None if goal is None else -goal)

    def prove(self, b, memo=None):
        """True if the boolean term is certainly 1, False if certainly 0, None otherwise"""
        if not isinstance(b, int) and b.op in ("gamma", "and", "or", "lin"):
            if memo is None:
                memo = {}
            elif b in memo:
                return memo[b]
            r = memo[b] = self._prove(b, memo)
            return r
        return self._prove(b, memo)

    def _prove(self, b, memo):
        if isinstance(b, int):
            return bool(b)
        r = self.iv.get(b)
        if r and r[0] == r[1]:
            return bool(r[0])
        op = b.op
        if op == "le0":
            u = self.ub(b.args[0], goal=0)
            if u <= 0:
                return True
            if self.ub(sub(1, b.args[0]), goal=0) <= 0:
                return False
            return None
        if op == "eq0":
            t = b.args[0]
            lo, hi = self.rng(t)
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            c, ms = parts(t)
            if len(ms) == 1 and ms[0][1] == 1 and -c in self.ne.get(ms[0][0], ()):
                return False
            if t in self.ne and 0 in self.ne[t]:
                return False
            if self.ub(t, goal=0) <= 0 and self.lb(t, goal=0) >= 0:
                return True
            if self.ub(t, goal=-1) < 0 or self.lb(t, goal=1) > 0:
                return False
            return None
        if op == "lin":
            c, ms = b.args
            if c == 1 and len(ms) == 1 and ms[0][1] == -1:
                p = self.prove(ms[0][0], memo)
                return None if p is None else not p
        r = self.rng(b)
        if r == (1, 1):
            return True
        if r == (0, 0):
            return False
        if op == "gamma":
            x, cs, d = b.args
            rs = set()
            rx = self.rng(x)
            ne = self.ne.get(x, ())
            for v, u in cs:
                if rx[0] <= v <= rx[1] and v not in ne:
                    rs.add(self.prove(u, memo))
                    if None in rs or len(rs) > 1:
                        return None
            if d is not None and not (rx[0] == rx[1] and any(v == rx[0] for v, _ in cs)):
                rs.add(self.prove(d, memo))
            if len(rs) == 1:
                return rs.pop()
            return None
        if op == "and":
            p, q = self.prove(b.args[0], memo), self.prove(b.args[1], memo)
            if p is False or q is False:
                return False
            if p and q:
                return True
        if op == "or":
            p, q = self.prove(b.args[0], memo), self.prove(b.args[1], memo)
            if p or q:
                return True
            if p is False and q is False:
                return False
        return None

    # ---- learning (mutates)
    def set_iv(self, a, lo, hi):
        if isinstance(a, int):
            if a < lo or a > hi:
                self.bot = True
            return
        o = self.rng(a)
        lo, hi = max(lo, o[0]), min(hi, o[1])
        ne = self.ne.get(a)
        if ne:
            while lo in ne and lo <= hi:
                lo += 1
            while hi in ne and lo <= hi:
                hi -= 1
        if lo > hi:
            self.bot = True
            return
        if (lo, hi) != self.iv.get(a):
            self.iv[a] = (lo, hi)
            if lo == hi:
                self._propagate_eq(a, lo)
            # bits/gamma refinement
            if a.op == "gamma":
                self._gamma_refine(a)
            elif a.op == "wrap":
                self._wrap_refine(a, lo, hi)
            elif a.op == "bits":
                # the upper bits bound the whole value
                x, p, w = a.args
                r = self.rng(x)
                if isinstance(x, T) and p > 0 and r[0] >= 0 and r[1] < 1 << (p + w):
                    self.set_iv(x, lo << p, (hi << p) + (1 << p) - 1)
                if len(self.iv) < 400:
                    self._bits_conflict(x, p, w)

    def _tiled(self, t, b):
        """a sum of fields of one word, in their places: a bounded field that covers them, without its other bits"""
        c, ms = t.args[0], sorted(t.args[1], key=lambda m: m[0].args[1])
        x, p0, k0 = ms[0][0].args[0], ms[0][0].args[1], ms[0][1]
        if k0 < 1 or any(a.args[0] is not x or k != k0 << (a.args[1] - p0) for a, k in ms):
            return b
        end = ms[-1][0].args[1] + ms[-1][0].args[2]
        gaps, at = [], p0
        for a, _ in ms:
            if a.args[1] > at:
                gaps.append((at, a.args[1] - at))
            elif a.args[1] < at:
                return b
            at = a.args[1] + a.args[2]
        for k, (l, h) in list(self.iv.items()):
            if k.op == "bits" and k.args[0] is x and k.args[1] == p0 and k.args[1] + k.args[2] >= end:
                lo, hi = int(l), int(h)
                for q, n in gaps + ([(end, p0 + k.args[2] - end)] if p0 + k.args[2] > end else []):
                    g = self.iv.get(mk("bits", x, q, n), (0, (1 << n) - 1))
                    lo -= int(g[1]) << (q - p0)
                    hi -= int(g[0]) << (q - p0)
                if lo <= hi:
                    b = (max(b[0], c + k0 * lo), min(b[1], c + k0 * hi))
        return b

    def _bits_conflict(self, x, p, w):
        """a field of x was bounded: do the fields that contain it still have values?"""
        fs = [(k.args[1], k.args[2], int(b[0]), int(b[1])) for k, b in self.iv.items() if k.op == "bits" and k.args[0] is x]
        for q, n, l, h in fs:
            if q + n == p + w and n > w:
                low, top = (q, n - w), (p, w)
            elif q == p and n > w:
                low, top = (p, w), (p + w, n - w)
            else:
                continue
            for lq, ln, ll, lh in fs:
                if (lq, ln) == low:
                    for tq, tn, tl, th in fs:
                        if (tq, tn) == top and ((tl << ln) + ll > h or (th << ln) + lh < l):
                            self.bot = True
                            return

    def _wrap_refine(self, a, lo, hi):
        """the reduced value is in a range: so is the value, if only one period is possible"""
        u = a.args[2]
        if isinstance(u, int):
            return
        m = 1 << a.args[0]
        r = self.rng(u)
        if r[0] == -INF or r[1] == INF or r[1] - r[0] > 4 * m:
            return
        ks = [k for k in range(int((r[0] - hi) // m), int((r[1] - lo) // m) + 2) if max(lo + k * m, r[0]) <= min(hi + k * m, r[1])]
        if not ks:
            self.bot = True
        elif len(ks) == 1:
            self.bound(u, lo + ks[0] * m, hi + ks[0] * m)

    def bound(self, u, lo, hi):
        """lo <= u <= hi for any term"""
        if u.op == "lin":
            self.add_le(sub(u, hi))
            self.add_le(sub(lo, u))
        else:
            self.set_iv(u, lo, hi)

    def _gamma_refine(self, g):
        lo, hi = self.iv[g]
        x, cs, d = g.args
        ok = [(v, u) for v, u in cs if not (self.rng(u)[1] < lo or self.rng(u)[0] > hi)]
        dok = d is not None and not (self.rng(d)[1] < lo or self.rng(d)[0] > hi)
        if not dok:
            if not ok:
                self.bot = True
                return
            if len(ok) == 1:
                self.set_iv(x, ok[0][0], ok[0][0])
                if isinstance(ok[0][1], T):
                    self.set_iv(ok[0][1], lo, hi)
            else:
                self.set_iv(x, min(v for v, _ in ok), max(v for v, _ in ok))
                for v, _ in cs:
                    if all(v != w for w, _ in ok):
                        self.add_ne(x, v)
        else:
            for v, u in cs:
                if (v, u) not in ok:
                    self.add_ne(x, v)
            if not ok and isinstance(d, T):
                self.set_iv(d, lo, hi)

    def _propagate_eq(self, a, v):
        if a.op == "le0":
            self.add_le(a.args[0]) if v else self.add_le(sub(1, a.args[0]))
        elif a.op == "eq0":
            t = a.args[0]
            if v:
                self.add_le(t)
                self.add_le(neg(t))
            else:
                c, ms = parts(t)
                if len(ms) == 1 and ms[0][1] == 1:
                    self.add_ne(ms[0][0], -c)
                else:
                    self.add_ne(t, 0)
                    r = self.rng(t)
                    if r[1] <= 0:
                        self.add_le(add(t, 1))
                    elif r[0] >= 0:
                        self.add_le(sub(1, t))
        elif a.op == "lin":
            self.add_le(sub(a, v))
            self.add_le(sub(v, a))
        elif a.op == "and" and v == 1 and base_range(a) == (0, 1):
            self.set_iv(a.args[0], 1, 1)
            self.set_iv(a.args[1], 1, 1)
        elif a.op == "or" and v == 0 and base_range(a) == (0, 1):
            self.set_iv(a.args[0], 0, 0)
            self.set_iv(a.args[1], 0, 0)

    def add_ne(self, a, v):
        if isinstance(a, int):
            if a == v:
                self.bot = True
            return
        s = self.ne.get(a, frozenset())
        if v not in s:
            self.ne[a] = s | {v}
        lo, hi = self.rng(a)
        if lo == hi == v:
            self.bot = True
        elif v == lo or v == hi:
            self.set_iv(a, lo, hi)

    def add_le(self, t):
        """assume t <= 0"""
        if isinstance(t, int):
            if t > 0:
                self.bot = True
            return
        t = norm_le(t)
        c, ms = parts(t)
        lo, hi = self.rng(t)
        if hi <= 0:
            return
        if lo > 0:
            self.bot = True
            return
        if len(ms) == 1:
            a, k = ms[0]
            # k*a + c <= 0
            if k > 0:
                self.set_iv(a, -INF, (-c) // k)
            else:
                self.set_iv(a, -((-c) // -k) if False else -((-c) // (-k)) if False else ceil_div(c, -k), INF)
            return
        key = lin(0, list(ms))
        old = self.le.get(key)
        if old is None or -c < old:
            self.le[key] = -c
            # contradiction with the reverse bound
            rk = lin(0, [(a, -k) for a, k in ms])
            ro = self.le.get(rk)
            if ro is not None and ro + (-c) < 0:
                self.bot = True
                return
        # tighten single-variable intervals
        for a, k in ms:
            rest = addk(t, a, -k)
            rlo = self.rng(rest)[0]
            if rlo == -INF:
                continue
            if k > 0:
                self.set_iv(a, -INF, (-rlo) // k) if (-rlo) // k < self.rng(a)[1] else None
            else:
                v = ceil_div(rlo, -k)
                if v > self.rng(a)[0]:
                    self.set_iv(a, v, INF)

    def assume(self, b, val):
        if isinstance(b, int):
            if bool(b) != bool(val):
                self.bot = True
            return
        c, ms = parts(b)
        if b.op == "lin" and c == 1 and len(ms) == 1 and ms[0][1] == -1:
            return self.assume(ms[0][0], 0 if val else 1)
        p = self.prove(b)
        if p is not None:
            if p != bool(val):
                self.bot = True
                return
        self.set_iv(b, 1 if val else 0, 1 if val else 0)


def ceil_div(a, b):
    return -((-a) // b)


def join_facts(fs):
    """facts true in all of fs"""
    r = Facts()
    f0 = fs[0]
    rest = fs[1:]
    for a, (lo, hi) in f0.iv.items():
        for g in rest:
            l2, h2 = g.rng(a)
            lo, hi = min(lo, l2), max(hi, h2)
        b = base_range(a)
        if lo > b[0] or hi < b[1]:
            r.iv[a] = (lo, hi)
            if 1 < hi - lo <= 32:
                # values between that none of them has
                gap = set(range(int(lo) + 1, int(hi)))
                for g in fs:
                    l2, h2 = g.rng(a)
                    ne = g.ne.get(a, ())
                    gap = {v for v in gap if v < l2 or v > h2 or v in ne}
                    if not gap:
                        break
                if gap:
                    r.ne[a] = frozenset(gap)
    # atoms known only in the others: hull with f0's structural range is found when f0 knows them, skip
    for k, u in f0.le.items():
        ok = True
        for g in rest:
            v = g.le.get(k)
            if v is None:
                v = g.rng(k)[1]
                if v == INF or v > base_range(k)[1]:
                    ok = False
                    break
                if v >= base_range(k)[1]:
                    v2 = g.ub(k, 2)
                    v = v2
                    if v >= base_range(k)[1]:
                        ok = False
                        break
            u = max(u, v)
        if ok:
            r.le[k] = u
    for a, s in f0.ne.items():
        t = set()
        for v in s:
            good = True
            for g in rest:
                lo, hi = g.rng(a)
                if not (v in g.ne.get(a, ()) or v < lo or v > hi):
                    good = False
                    break
            if good:
                t.add(v)
        if t:
            r.ne[a] = r.ne.get(a, frozenset()) | t
    return r
