"""Loader for the MIR facts: bodies, monomorphic instances, call graph, types."""
import json, os, re
from collections import defaultdict, deque


class Body:
    __slots__ = ("id", "path", "kind", "file", "lo", "hi", "argc", "locals", "blocks", "raw", "cor", "parent", "_succ", "_live", "crate")

    def __init__(self, d, crate):
        self.id = d["id"]
        self.path = d["path"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.lo, self.hi = d["lo"], d["hi"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.cor = d.get("cor")
        self.parent = d.get("parent")
        self.raw = d
        self._succ = None
        self._live = None
        self.crate = crate

    @property
    def is_coroutine(self):
        return bool(self.cor)

    def succ(self, bb, unwind=False):
        t = self.blocks[bb]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            r = [t[4]] if t[4] is not None else []
            if unwind and isinstance(t[5], int):
                r.append(t[5])
            return r
        if k == "drop":
            r = [t[2]] if t[2] is not None else []
            if unwind and isinstance(t[3], int):
                r.append(t[3])
            return r
        if k == "assert":
            return [t[4]] if t[4] is not None else []
        if k == "yield":
            return [t[2]] if t[2] is not None else []
        if k == "other":
            return [x for x in t[1:] if isinstance(x, int)]
        return []

    def local_name(self, l):
        x = self.locals[l]
        return x[1] if len(x) > 1 else None

    def name(self):
        return self.path

    def live(self):
        """live-in local sets per block (locals mentioned later before full def); address-taken locals stay live."""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        taken = set()

        def uplace(p, u, d):
            l = p[0]
            if l not in d:
                u.add(l)
            for pr in p[1:]:
                if isinstance(pr, dict) and "i" in pr and pr["i"] not in d:
                    u.add(pr["i"])

        def uop(o, u, d):
            if "c" in o:
                uplace(o["c"], u, d)
            elif "m" in o:
                uplace(o["m"], u, d)

        for i, b in enumerate(self.blocks):
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        uop(o, u, d)
                    for p in rv_places(s[2]):
                        uplace(p, u, d)
                    if s[2][0] in ("ref", "rawptr") :
                        p = s[2][-1]
                        if "*" not in p:
                            taken.add(p[0])
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        uplace(s[1], u, d)
                elif s[0] == "setd":
                    uplace(s[1], u, d)
            t = b["t"]
            if t[0] == "switch":
                uop(t[1], u, d)
            elif t[0] == "call":
                uop(t[1], u, d)
                for o in t[2]:
                    uop(o, u, d)
                if len(t[3]) > 1:
                    uplace(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == "drop":
                uplace(t[1], u, d)
            elif t[0] == "assert":
                uop(t[1], u, d)
            elif t[0] == "yield":
                uop(t[1], u, d)
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        preds = defaultdict(list)
        for i in range(n):
            for s in self.succ(i, True):
                preds[s].append(i)
        wl = deque(range(n - 1, -1, -1))
        inq = set(wl)
        while wl:
            i = wl.popleft()
            inq.discard(i)
            out = set()
            for s in self.succ(i, True):
                out |= live[s]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                for p in preds[i]:
                    if p not in inq:
                        inq.add(p)
                        wl.append(p)
        self._live = (live, taken)
        return self._live


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def rv_places(rv):
    k = rv[0]
    if k == "ref":
        return [rv[2]]
    if k == "rawptr":
        return [rv[-1]]
    if k == "discr":
        return [rv[1]]
    if k == "other":
        return [x for x in rv[1:] if isinstance(x, list) and x and isinstance(x[0], int)]
    return []


def op_place(o):
    if "c" in o:
        return o["c"]
    if "m" in o:
        return o["m"]
    return None


class Inst:
    __slots__ = ("id", "body", "args", "calls", "reify", "consts", "ltys", "_callees")

    def __init__(self, d, body):
        self.id = d["id"]
        self.body = body
        self.args = d["args"]
        self.calls = {int(k): v for k, v in d["calls"].items()}
        self.reify = d.get("reify") or []
        self.consts = d.get("consts") or []
        self.ltys = d.get("ltys")
        self._callees = None

    @property
    def path(self):
        return self.body.path

    def __repr__(self):
        return "%s<%s>" % (self.body.path, self.args)


class Callee:
    """A resolved call target at (inst, bb)."""
    __slots__ = ("path", "inst", "ext", "selfty", "t0", "may", "declared", "ga", "line", "fnptr", "prog")


class Program:
    def __init__(self, facts_dir, crate="skyd"):
        with open(os.path.join(facts_dir, crate + ".json")) as f:
            d = json.load(f)
        self.d = d
        self.types = d["types"]
        self.bodies = {b["id"]: Body(b, crate) for b in d["bodies"]}
        self.by_path = defaultdict(list)
        for b in self.bodies.values():
            self.by_path[b.path].append(b)
        self.insts = {}
        self.inst_of_body = defaultdict(list)
        for i in d["instances"]:
            x = Inst(i, self.bodies[i["b"]])
            self.insts[x.id] = x
            self.inst_of_body[x.body.id].append(x)
        self.adts = {a["p"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.consts = {c[0]: c[1] for c in d["consts"] if not isinstance(c[1], list)}
        self.arrays = {c[0]: c[1] for c in d["consts"] if isinstance(c[1], list)}
        for im in self.impls:
            for it in im["items"]:
                if "arr" in it:
                    self.arrays[it["p"]] = it["arr"]
        self._callees = {}
        self._callers = None
        self._callee_cache = {}

    # ---- types
    def ty(self, tid):
        return self.types[tid]

    def tys(self, tid):
        return self.types[tid]["s"] if tid is not None else "?"

    def lty(self, inst, l):
        if inst.ltys:
            return inst.ltys[l]
        return inst.body.locals[l][0]

    # ---- calls
    def bodies_of(self, path):
        """the bodies with this path"""
        if not hasattr(self, "_by_path"):
            self._by_path = {}
            for b in self.bodies.values():
                self._by_path.setdefault(b.path, []).append(b)
        return self._by_path.get(path, ())

    def callee(self, inst, bb):
        key = (inst.id, bb)
        c = self._callee_cache.get(key)
        if c is not None:
            return c
        t = inst.body.blocks[bb]["t"]
        c = Callee()
        c.prog = self
        c.path = c.inst = c.ext = c.selfty = c.t0 = c.declared = c.ga = None
        c.may = []
        c.fnptr = False
        info = inst.calls.get(bb, {})
        if t[0] == "call":
            c.line = t[6]
            k = t[1].get("k") if isinstance(t[1], dict) else None
            if k and "fn" in k:
                c.declared = k["fn"]
                c.ga = k.get("ga")
        else:
            c.line = t[-1]
        if "i" in info:
            c.inst = self.insts[info["i"]]
            c.path = c.inst.body.path
        elif "x" in info:
            c.ext = info["x"]
            c.path = info["x"]
        elif "fnptr" in info:
            c.fnptr = True
            c.path = "<fnptr>"
        else:
            c.path = c.declared or "<?>"
        if "self" in info:
            c.selfty = self.tys(info["self"])
        if "t0" in info:
            c.t0 = self.tys(info["t0"])
        c.may = [self.insts[m] for m in info.get("may", [])]
        self._callee_cache[key] = c
        return c

    def callees(self, inst):
        r = self._callees.get(inst.id)
        if r is None:
            s = {}
            for bb, info in inst.calls.items():
                if "i" in info:
                    s[info["i"]] = 1
                for m in info.get("may", []):
                    s[m] = 1
            for m in inst.reify:
                # reified fn pointers: may be called by whoever receives them
                mid = m if isinstance(m, int) else None
                if mid is not None:
                    s[mid] = 1
            r = [self.insts[x] for x in s]
            self._callees[inst.id] = r
        return r

    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for i in self.insts.values():
                for j in self.callees(i):
                    c[j.id].append(i)
            self._callers = c
        return self._callers

    def reach_back(self, seeds):
        """ids of instances from which some seed instance id is reachable (incl. seeds)"""
        cs = self.callers()
        seen = set(seeds)
        wl = list(seeds)
        while wl:
            x = wl.pop()
            for p in cs.get(x, ()):
                if p.id not in seen:
                    seen.add(p.id)
                    wl.append(p.id)
        return seen

    def reach_fwd(self, seeds):
        seen = set(seeds)
        wl = list(seeds)
        while wl:
            x = wl.pop()
            for p in self.callees(self.insts[x]):
                if p.id not in seen:
                    seen.add(p.id)
                    wl.append(p.id)
        return seen

    def find(self, regex):
        r = re.compile(regex)
        return [b for b in self.bodies.values() if r.search(b.path)]

    def find_insts(self, regex):
        r = re.compile(regex)
        return [i for i in self.insts.values() if r.search(i.body.path)]

    def call_sites(self, pred):
        """(inst, bb, callee) for all call terminators in instances satisfying pred(callee)"""
        for i in self.insts.values():
            for bb, b in enumerate(i.body.blocks):
                if b["t"][0] == "call" and not b.get("cl"):
                    c = self.callee(i, bb)
                    if pred(c):
                        yield i, bb, c
