"""Loading of the MIR dump, type queries and control-flow helpers."""
import json


class Program:
    def __init__(self, path, label=""):
        with open(path) as f:
            d = json.load(f)
        self.label = label
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.items = d["items"]
        self.roots = [int(x) for x in d["roots"]]
        self.iter_next = {}
        self.iter_into = {}
        for k, t, i in d["iters"]:
            (self.iter_next if k == "next" else self.iter_into)[t] = i
        self.by_name = {}
        for f in d["fns"]:
            self.by_name.setdefault(f["name"], f)
        self._loops = {}

    # ---- types
    def ty(self, t):
        return self.types[t]

    def is_adt(self, t, path_end, krate=None):
        x = self.types[t]
        return x["k"] == "adt" and x["path"].endswith(path_end) and (krate is None or x["krate"] == krate)

    def adt_last(self, t):
        x = self.types[t]
        return x["path"].rsplit("::", 1)[-1] if x["k"] == "adt" else None

    def find_fn(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def local_fns(self):
        return [f for f in self.fns.values() if f["local"] and f["body"]]

    # ---- control flow
    @staticmethod
    def succs(term):
        k = term[0]
        if k == "goto":
            return [term[1]]
        if k == "switch":
            return [b for _, b in term[2]] + [term[3]]
        if k == "drop":
            return [term[2]]
        if k == "call":
            return [] if term[4] is None else [term[4]]
        if k == "assert":
            return [term[5]]
        return []

    def loops(self, fid, body=None):
        """header -> set of blocks of the natural loop (merged by header)."""
        if fid in self._loops:
            return self._loops[fid]
        body = body or self.fns[fid]["body"]
        blocks = body["blocks"]
        n = len(blocks)
        succ = [self.succs(b[1]) for b in blocks]
        # reachable + rpo
        order, seen, stack = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body_set = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_set:
                            body_set.add(x)
                            st.extend(pred[x])
        res = (loops, idx)
        self._loops[fid] = res
        return res
