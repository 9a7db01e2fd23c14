"""The analysed program: monomorphic MIR, types and constants as dumped by tools/mirdump."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {int(k): v for k, v in d["types"].items()}
        self.fns = d["fns"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.spans = {int(k): v for k, v in d["spans"].items()}
        self.items = d["items"]
        self.by_name = {}
        for f in self.fns:
            if f:
                self.by_name.setdefault(f["name"], f["id"])
                self.by_name.setdefault(f["def"], f["id"])
        self.crate = d["crate"]
        self._loops = {}
        self._roots = None
        self._live = {}
        self.usize = next((i for i, t in self.types.items() if t["k"] == "uint" and t["w"] == "Usize"), None)
        self.char = next((i for i, t in self.types.items() if t["k"] == "char"), -2)
        self.bool = next((i for i, t in self.types.items() if t["k"] == "bool"), -3)
        if self.char == -2:
            self.types[-2] = {"k": "char", "text": "char", "id": -2}
        if self.bool == -3:
            self.types[-3] = {"k": "bool", "text": "bool", "id": -3}
        self.unit = next((i for i, t in self.types.items() if t["k"] == "tuple" and not t["elems"]), None)
        self.vtables = {(v["ty"], v["dyn"]): {int(k): f for k, f in v["slots"].items()} for v in d.get("vtables", ())}
        self.vtables_text = {}
        for (a, b), s in self.vtables.items():
            self.vtables_text.setdefault((self.types[a]["text"], self.types[b]["text"]), s)
        self.trait_methods = {}
        for i, t in self.types.items():
            if t["k"] == "fndef" and t.get("inst") is not None and t["args"]:
                self.trait_methods.setdefault((t["name"], t["args"][0]), t["inst"])

    def slot(self, ty, dyn, idx):
        """Function behind a slot of the vtable of type `ty` as trait object `dyn`."""
        s = self.vtables.get((ty, dyn)) or self.vtables_text.get((self.types[ty]["text"], self.types[dyn]["text"]))
        return None if s is None else s.get(idx)

    def roots(self):
        """Entry points of the probe crate by name."""
        if self._roots is None:
            self._roots = {}
            for f in self.fns:
                if f and f["crate"] == self.crate and f.get("body") is not None and "{closure" not in f["name"]:
                    self._roots.setdefault(f["name"].split("::")[-1], f["id"])
        return self._roots

    def t_result_unit(self):
        for i, t in self.types.items():
            if t["text"] == "std::result::Result<(), std::fmt::Error>":
                return i
        raise KeyError("fmt::Result")

    def t(self, ty):
        return self.types[ty]

    def adt(self, ty):
        t = self.types[ty]
        return t["name"] if t["k"] == "adt" else None

    def text(self, ty):
        return self.types[ty]["text"]

    def find_ty(self, text):
        for i, t in self.types.items():
            if t["text"] == text:
                return i
        return None

    def find_adt(self, name):
        for i, t in self.types.items():
            if t["k"] == "adt" and t["name"] == name:
                return i
        return None

    def fields(self, ty, variant=0):
        """[(name, ty)] of a struct, tuple or enum variant."""
        t = self.types[ty]
        if t["k"] == "adt":
            return t["variants"][variant]["fields"]
        if t["k"] == "tuple":
            return [[str(i), e] for i, e in enumerate(t["elems"])]
        return []

    def is_enum(self, ty):
        t = self.types[ty]
        return t["k"] == "adt" and t["kind"] == "Enum"

    def variant_index(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["name"] == name:
                return i
        return None

    def span(self, s):
        return self.spans.get(s, "?")

    # ---- control flow -----------------------------------------------------------------------
    def succs(self, body, b):
        k = body["blocks"][b]["terminator"]["kind"]
        if isinstance(k, str):
            return []
        n, v = next(iter(k.items()))
        if n == "Goto":
            return [v["target"]]
        if n == "SwitchInt":
            s = [x[1] for x in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
            return s
        if n in ("Drop", "Assert"):
            return [v["target"]]
        if n == "Call":
            return [v["target"]] if v["target"] is not None else []
        return []

    def loops(self, fid):
        """header -> set of blocks of its natural loop (unwind edges are not followed)."""
        r = self._loops.get(fid)
        if r is not None:
            return r
        body = self.fns[fid]["body"]
        n = len(body["blocks"])
        # iterative DFS for back edges (reducible graphs)
        order, state, back = [], {}, []
        stack = [(0, iter(self.succs(body, 0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succs(body, s))))
                    break
                elif state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        preds = {}
        for b in state:
            for s in self.succs(body, b):
                preds.setdefault(s, set()).add(b)
        r = {}
        for tail, head in back:
            blk = r.setdefault(head, {head})
            work = [tail]
            while work:
                x = work.pop()
                if x in blk:
                    continue
                blk.add(x)
                work.extend(preds.get(x, ()))
        self._loops[fid] = r
        return r

    def live_in(self, fid, block):
        """Locals live at the start of a block."""
        r = self._live.get(fid)
        if r is None:
            r = self._compute_live(fid)
            self._live[fid] = r
        return r[block]

    def _compute_live(self, fid):
        body = self.fns[fid]["body"]
        n = len(body["blocks"])
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def visit(x, u):
            if isinstance(x, dict):
                if "local" in x and "projection" in x:
                    u.add(x["local"])
                    for e in x["projection"]:
                        if isinstance(e, dict) and "Index" in e:
                            u.add(e["Index"])
                    return
                for v in x.values():
                    visit(v, u)
            elif isinstance(x, list):
                for v in x:
                    visit(v, u)

        for b, bb in enumerate(body["blocks"]):
            u, d = use[b], deff[b]

            def add_use(s):
                for l in s:
                    if l not in d:
                        u.add(l)
            for s in bb["statements"]:
                k = s["kind"]
                if isinstance(k, dict) and "Assign" in k:
                    pl, rv = k["Assign"]
                    us = set()
                    visit(rv, us)
                    if pl["projection"]:
                        visit(pl, us)
                    add_use(us)
                    if not pl["projection"]:
                        d.add(pl["local"])
                elif isinstance(k, dict) and ("StorageLive" in k or "StorageDead" in k):
                    d.add(k.get("StorageLive", k.get("StorageDead")))
                else:
                    us = set()
                    visit(k, us)
                    add_use(us)
            k = bb["terminator"]["kind"]
            if isinstance(k, dict):
                nme, v = next(iter(k.items()))
                us = set()
                if nme == "Call":
                    visit(v["func"], us)
                    visit(v["args"], us)
                    if v["destination"]["projection"]:
                        visit(v["destination"], us)
                    add_use(us)
                    if not v["destination"]["projection"]:
                        d.add(v["destination"]["local"])
                elif nme == "Drop":
                    pass
                else:
                    visit(v, us)
                    add_use(us)
            elif k == "Return":
                add_use({0})
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(body, b):
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        return live
