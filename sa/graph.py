"""Queries over the dumped MIR: operands, call graph, reachability."""


def consts_in(c):
    yield c
    if c[0] == "ref":
        yield from consts_in(c[1])
    elif c[0] in ("agg", "slice"):
        xs = c[2] if c[0] == "agg" else c[1]
        for x in xs:
            if isinstance(x, list):
                yield from consts_in(x)


def rv_operands(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k in ("bin", "cbin"):
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "cast":
        return [rv[2]]
    if k == "repeat":
        return [rv[1]]
    if k == "agg":
        return list(rv[3])
    return []


def rv_places(rv):
    if rv[0] in ("ref", "addr"):
        return [rv[1]]
    if rv[0] in ("discr", "len"):
        return [rv[1]]
    return []


def term_operands(t):
    k = t[0]
    if k == "switch":
        return [t[1]]
    if k == "call":
        return [t[1]] + list(t[2])
    if k == "assert":
        return [t[1]] + list(t[4])
    return []


def body_consts(body):
    for stmts, term in body["blocks"]:
        for s in stmts:
            if s[0] == "=":
                for o in rv_operands(s[2]):
                    if o[0] == "k":
                        yield from consts_in(o[1])
        for o in term_operands(term):
            if o[0] == "k":
                yield from consts_in(o[1])


def callee(t):
    """instance id of a direct call, else None"""
    f = t[1]
    if f[0] == "k" and f[1][0] == "fn":
        return f[1][1]
    return None


def body_types(P, body):
    for t in body["locals"]:
        yield t


def edges(P, f):
    """instances a function may run (calls, function values, drops, closures it builds)"""
    body = f["body"]
    out = set()
    if not body:
        return out
    for c in body_consts(body):
        if c[0] in ("fn", "fnptr"):
            if isinstance(c[1], int):
                out.add(c[1])
    for stmts, term in body["blocks"]:
        if term[0] == "drop" and term[3] is not None:
            out.add(term[3])
    for t in body_types(P, body):
        ty = P.types[t]
        if ty["k"] == "closure" and ty.get("inst") is not None:
            out.add(ty["inst"])
        if ty["k"] == "fndef" and ty.get("inst") is not None:
            out.add(ty["inst"])
    return out


def reach(P, roots):
    """function id -> (parent id) over everything the roots can run"""
    par = {r: None for r in roots}
    st = list(roots)
    while st:
        i = st.pop()
        f = P.fns.get(i)
        if not f:
            continue
        for j in edges(P, f):
            if j not in par:
                par[j] = i
                st.append(j)
    return par


def chain(P, par, i):
    out = []
    while i is not None:
        out.append(P.fns[i]["name"] if i in P.fns else f"#{i}")
        i = par.get(i)
    return " <- ".join(out)


def contains_type(P, t, pred, seen=None):
    """does a value of type t own (not behind a reference) a type satisfying pred?"""
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    ty = P.types[t]
    k = ty["k"]
    if k == "array":
        return contains_type(P, ty["elem"], pred, seen)
    if k == "tuple":
        return any(contains_type(P, x, pred, seen) for x in ty["elems"])
    if k == "closure":
        return any(contains_type(P, x, pred, seen) for x in ty["upvars"])
    if k == "adt":
        if any(isinstance(x, int) and contains_type(P, x, pred, seen) for x in ty["args"]):
            return True
        return any(contains_type(P, x, pred, seen) for v in ty["variants"] for _, x in v["fields"])
    return False
