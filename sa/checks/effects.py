"""Effect properties decided on the whole-program call graph and the typed MIR."""
from .. import graph
from ..report import Anchor, Result

# std (the crate with I/O, time, threads, environment, random hashing): only these may be reached
STD_ALLOWED = {
    "std::io::_print": "what println! expands to (debug feature): writes stdout, returns nothing",
}
STD_PURE_IMPL = ("std::f32::<impl f32>::", "std::f64::<impl f64>::", "core::f32::", "core::f64::")


def unify_root(P):
    r = [f["id"] for f in P.fns.values() if f["path"] == P.crate + "::unify" and f["body"]]
    if len(r) != 1:
        raise Anchor("unify: the public function `unify` was not found")
    return r[0]


def api_roots(P):
    out = [unify_root(P)]
    for f in P.fns.values():
        if f["local"] and f["body"] and (f["path"].endswith("::from_specification") or "std::default::Default>::default" in f["path"]):
            out.append(f["id"])
    return out


def interior_mut(P, t):
    return graph.contains_type(P, t, lambda x: P.types[x]["k"] == "adt" and P.types[x]["path"].endswith("cell::UnsafeCell"))


def deref_types(P, t):
    ty = P.types[t]
    if ty["k"] in ("ref", "ptr"):
        return ty["to"]
    return t


def impurities(P, par, features):
    """(key, function, what) for every way a result could depend on more than the arguments"""
    out = []
    for i in par:
        f = P.fns.get(i)
        if f is None:
            continue
        k = f["krate"]
        if k not in ("core", "alloc", P.crate):
            ok = f["path"] in STD_ALLOWED or f["path"].startswith(STD_PURE_IMPL)
            if not ok:
                out.append((f"call:{f['path']}", i, f"reaches `{f['path']}` of crate `{k}`"))
                continue
        if f["path"] == "std::io::_print" and "debug" not in features:
            out.append(("print", i, "writes to stdout without the debug feature"))
        if "std::fmt::Pointer" in f["path"] or "core::fmt::Pointer" in f["path"]:
            if f["krate"] == P.crate or any(P.fns.get(par.get(i), {}).get("local", False) for _ in (0,)):
                out.append((f"pointer-format:{f['path']}", i, "formats an address"))
        body = f["body"]
        if not body:
            continue
        for c in graph.body_consts(body):
            if c[0] == "static":
                out.extend(static_use(P, f, c))
        for stmts, term in body["blocks"]:
            if term[0] == "asm":
                out.append((f"asm:{f['path']}", i, "inline assembly"))
            if not f["local"]:
                continue
            for s in stmts:
                if s[0] == "=" and s[2][0] == "cast":
                    kind = str(s[2][1])
                    if "Expose" in kind or ("Transmute" in kind and addr_leak(P, body, s[2]) and not compiler_check_only(body, s[1][0])):
                        out.append((f"address:{f['path']}", i, "turns an address into a number"))
                if s[0] == "=" and s[2][0] in ("bin", "cbin") and ptr_cmp(P, body, s[2]):
                    out.append((f"ptr-compare:{f['path']}", i, "compares raw addresses"))
    return out


def static_use(P, f, c):
    t = None
    for x in c[1:]:
        if isinstance(x, int):
            t = x
    txt = str(c)
    r = []
    if t is not None:
        inner = deref_types(P, t)
        if "mut" in txt or interior_mut(P, inner):
            r.append((f"static:{f['path']}", f["id"], f"uses a mutable static ({P.types[inner]['n'] if 'n' in P.types[inner] else inner})"))
    return r


def op_ty(P, body, op):
    if op[0] in ("cp", "mv") and not op[1][1]:
        return P.types[body["locals"][op[1][0]]]
    return None


def ptr_cmp(P, body, rv):
    if rv[1] not in ("Lt", "Le", "Gt", "Ge", "Cmp", "Offset", "Sub"):
        return False
    return any(t is not None and t["k"] == "ptr" for t in (op_ty(P, body, rv[2]), op_ty(P, body, rv[3])))


def addr_leak(P, body, rv):
    t = op_ty(P, body, rv[2])
    return t is not None and t["k"] in ("ptr", "ref") and P.types[rv[3]]["k"] == "int"


def compiler_check_only(body, local):
    """the value feeds nothing but the compiler's own null / alignment assertion"""
    tainted = {local}
    for _ in range(8):
        for stmts, term in body["blocks"]:
            for s in stmts:
                if s[0] != "=":
                    continue
                if any(o[0] in ("cp", "mv") and o[1][0] in tainted for o in graph.rv_operands(s[2])):
                    if s[2][0] not in ("bin", "un", "use") or s[1][1]:
                        return False
                    tainted.add(s[1][0])
    for stmts, term in body["blocks"]:
        if any(o[0] in ("cp", "mv") and o[1][0] in tainted for o in graph.term_operands(term)):
            if term[0] != "assert" or "PointerDereference" not in str(term[3]):
                return False
    return 0 not in tainted


def selftest():
    """the rule must fire on a known-bad call"""
    class F:
        crate = "x"
        types = [{"k": "int", "bits": 64, "signed": False}]
        fns = {
            0: {"id": 0, "name": "x::a", "path": "x::a", "krate": "x", "local": True, "body": {"locals": [], "blocks": [[[], ["call", ["k", ["fn", 1, 0]], [], [0, []], None, ""]]]}},
            1: {"id": 1, "name": "std::time::Instant::now", "path": "std::time::Instant::now", "krate": "std", "local": False, "body": None},
        }
    return len(impurities(F, graph.reach(F, [0]), "")) == 1


def purity(ctx):
    r = Result("Whole-program call graph of the resolved, monomorphised MIR (both feature sets); every reachable function, static, pointer cast and comparison is classified.",
               "no function reachable from the public API may call outside core/alloc/the crate except a frozen allow-list, use a mutable or interior-mutable static, observe an address, or (without the debug feature) print")
    r.ob(selftest(), "selftest", "-", "self test", "the purity rule does not fire on its positive example")
    nf = 0
    for feat in ("", "debug"):
        P = ctx.prog(feat)
        par = graph.reach(P, api_roots(P))
        nf += len(par)
        bad = {i: [] for i in par}
        for key, i, what in impurities(P, par, feat):
            bad[i].append((key, what))
        for i in par:
            f = P.fns.get(i)
            if f is None:
                continue
            if not bad[i]:
                r.ob(True)
            for key, what in bad[i]:
                r.ob(False, key, f.get("span") or f["name"], "purity", f"{f['name']} {what}; reached via {graph.chain(P, par, i)}")
        # shared arguments stay untouched: no interior mutability behind unify's references
        u = P.fns[unify_root(P)]
        for t in u["sig"][0]:
            ty = P.types[t]
            r.ob(ty["k"] == "ref" and not ty["mut"] and not interior_mut(P, ty["to"]), f"arg:{ty.get('n')}", u["name"], "arguments are read-only",
                 f"unify can modify its argument of type {ty.get('n')}")
        loc = [i for i in par if P.fns.get(i, {}).get("local")]
        r.floor(f"crate_functions_{feat or 'default'}", len(loc), 120)
    r.coverage["functions_analysed"] = nf
    r.assumptions = ["functions of core and alloc are deterministic apart from what the rule excludes", "the allocator does not fail"]
    return r


# ------------------------------------------------------------------ unsafe
def size_of(P, t):
    ty = P.types[t]
    if ty["k"] == "int":
        return ty["bits"] // 8
    if ty["k"] == "float":
        return ty["bits"] // 8
    if ty["k"] == "bool":
        return 1
    if ty["k"] == "char":
        return 4
    if ty["k"] == "array":
        s = size_of(P, ty["elem"])
        return None if s is None else s * int(ty["len"])
    return None


def defs_of(body, local):
    out = []
    for stmts, term in body["blocks"]:
        for s in stmts:
            if s[0] == "=" and s[1][0] == local and not s[1][1]:
                out.append(s[2])
        if term[0] == "call" and term[3][0] == local and not term[3][1]:
            out.append(["call"])
    return out


def proven_pointer(P, body, local, want):
    """the raw pointer local was cast, unchanged, from a reference to a plain value at least as large"""
    for _ in range(12):
        ty = P.types[body["locals"][local]]
        if ty["k"] == "ref":
            have = size_of(P, ty["to"])
            need = size_of(P, want)
            w, h = P.types[want], P.types[ty["to"]]
            return have is not None and need is not None and need <= have and w["k"] == "int" and h["k"] in ("int", "array")
        ds = defs_of(body, local)
        if len(ds) != 1:
            return False
        d = ds[0]
        if d[0] == "cast" and d[2][0] in ("cp", "mv") and not d[2][1][1]:
            local = d[2][1][0]
        elif d[0] == "use" and d[1][0] in ("cp", "mv") and not d[1][1][1]:
            local = d[1][1][0]
        elif d[0] == "addr" and d[1][1] == [["*"]]:
            local = d[1][0]
        elif d[0] == "addr" and not d[1][1]:
            have = size_of(P, body["locals"][d[1][0]])
            need = size_of(P, want)
            return have is not None and need is not None and need <= have
        else:
            return False
    return False


def place_derefs(P, body, place):
    """(local, pointee) for a raw pointer dereference that starts the place"""
    t = body["locals"][place[0]]
    out = []
    cur = t
    for n, pr in enumerate(place[1]):
        ty = P.types[cur]
        if pr[0] == "*":
            if ty["k"] == "ptr":
                out.append((place[0] if n == 0 else None, ty["to"]))
            cur = ty.get("to", cur) if ty["k"] in ("ptr", "ref") else cur
            if ty["k"] == "adt":
                return out
        elif pr[0] == "f":
            if ty["k"] == "adt" and ty.get("adt") == "union":
                out.append((None, pr[2]))
            cur = pr[2]
        elif pr[0] in ("i", "c"):
            cur = ty.get("elem", cur)
    return out


def all_places(body):
    for stmts, term in body["blocks"]:
        for s in stmts:
            if s[0] == "=":
                yield s[1], s[3]
                for p in graph.rv_places(s[2]):
                    # taking an address is not an access
                    if s[2][0] != "addr":
                        yield p, s[3]
                for o in graph.rv_operands(s[2]):
                    if o[0] in ("cp", "mv"):
                        yield o[1], s[3]
        for o in graph.term_operands(term):
            if o[0] in ("cp", "mv"):
                yield o[1], term[-1] if isinstance(term[-1], str) else ""
        if term[0] == "call":
            yield term[3], term[5]


def unsafe_check(ctx):
    r = Result("Every MIR place access, call, cast and static use of every function of the crate, both feature sets.",
               "no raw-pointer dereference, union access, unsafe call, transmute to a reference-carrying type or mutable static in the crate, except a read through a pointer that was cast unchanged from a reference to an integer at least as wide")
    n = 0
    seen_ok = 0
    for feat in ("", "debug"):
        P = ctx.prog(feat)
        fns = P.local_fns()
        r.floor(f"crate_functions_{feat or 'default'}", len(fns), 200)
        for f in fns:
            body = f["body"]
            bad = []
            for p, sp in all_places(body):
                n += 1
                for loc, want in place_derefs(P, body, p):
                    if loc is not None and proven_pointer(P, body, loc, want):
                        seen_ok += 1
                    else:
                        bad.append((f"deref:{f['path']}", sp, "dereferences a raw pointer that is not a reference to a large enough integer"))
            for stmts, term in body["blocks"]:
                for s in stmts:
                    if s[0] == "=" and s[2][0] == "cast" and "Transmute" in str(s[2][1]) and not (P.types[s[2][3]]["k"] == "int" and compiler_check_only(body, s[1][0])):
                        bad.append((f"transmute:{f['path']}", s[3], "transmutes a value"))
                    if s[0] == "assume":
                        bad.append((f"assume:{f['path']}", "", "assumes a condition without checking it"))
                if term[0] == "call":
                    c = graph.callee(term)
                    g = P.fns.get(c)
                    if g is not None and g["unsafe"] and not g["path"].startswith(("core::fmt::rt::", "std::fmt::")) :
                        bad.append((f"call:{f['path']}:{g['path']}", term[5], f"calls the unsafe function {g['path']}"))
                if term[0] == "asm":
                    bad.append((f"asm:{f['path']}", "", "inline assembly"))
            for c in graph.body_consts(body):
                if c[0] == "static":
                    for k, _, w in static_use(P, f, c):
                        bad.append((k, f["span"], w))
            if not bad:
                r.ob(True)
            for k, sp, w in bad:
                r.ob(False, k, sp or f["span"], "unsafe confinement", f"{f['name']} {w}")
    r.coverage["places_analysed"] = n
    r.coverage["proven_raw_reads"] = seen_ok
    r.assumptions = ["core and alloc are memory safe behind their safe interfaces"]
    return r


CHECKS = {"C04": purity, "C06": unsafe_check}
