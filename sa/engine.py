"""Path-sensitive interprocedural typestate engine over monomorphised MIR (ESP style).

A state is (env, aut): `env` maps locals and argument cells to abstract values (known enum
variants, constants, references, closures and symbols that are refined at switches), `aut` is the
property automaton's state. Functions are analysed on demand and summarised per
(instance, automaton state, abstract arguments); helpers are therefore transparent.
"""
import re
import sys
from collections import defaultdict, deque
from .facts import rv_operands, op_place

sys.setrecursionlimit(20000)

MAXDEPTH = 5


def K(n):
    return ("k", n)


def V(i, *f):
    return ("v", i, tuple(f))


OKV = V(0, None)
ERRV = V(1, None)
TRUE, FALSE = K(1), K(0)


def subst(v, f):
    """apply f to symbols bottom-up; f returns replacement value or None for 'unchanged'"""
    if v is None:
        return None
    t = v[0]
    if t == "y":
        r = f(v)
        return v if r is None else r[0]
    if t in ("k", "r"):
        return v
    if t == "v":
        n = tuple([subst(x, f) for x in v[2]])
        return v if n == v[2] else ("v", v[1], n)
    if t == "s":
        n = tuple([subst(x, f) for x in v[1]])
        return v if n == v[1] else ("s", n)
    if t == "c":
        n = tuple([subst(x, f) for x in v[2]])
        return v if n == v[2] else ("c", v[1], n)
    if t == "d":
        b = subst(v[1], f)
        if b is None:
            return None
        if b[0] == "v":
            return K(_discr(v[2], b[1]))
        if b[0] == "y":
            return ("d", b, v[2])
        return None
    if t == "n":
        b = subst(v[1], f)
        return mknot(b)
    if t == "q":
        b = subst(v[1], f)
        if b is None:
            return None
        if b[0] == "k":
            return K(1 if b[1] == v[2] else 0)
        if b[0] == "v":
            return K(int(b[1] == v[2][1])) if isinstance(v[2], tuple) else None
        return ("q", b, v[2])
    if t == "t":
        return v
    return v


ADTS = {}


def _discr(adtp, vidx):
    a = ADTS.get(adtp) if adtp else None
    if a:
        vs = a.get("variants") or []
        if vidx < len(vs) and isinstance(vs[vidx].get("d"), int):
            return vs[vidx]["d"]
    return vidx


def mknot(b):
    if b is None:
        return None
    if b[0] == "k":
        return K(0 if b[1] else 1)
    if b[0] == "n":
        return b[1]
    return ("n", b)


def has_sym(v):
    if v is None:
        return False
    t = v[0]
    if t == "y":
        return True
    if t == "v":
        return any(has_sym(x) for x in v[2])
    if t == "s":
        return any(has_sym(x) for x in v[1])
    if t == "c":
        return any(has_sym(x) for x in v[2])
    if t in ("d", "n", "q"):
        return has_sym(v[1])
    return False


def trim(v, d=MAXDEPTH):
    if v is None:
        return None
    if d <= 0:
        return None if v[0] in ("v", "s", "c") and (v[2] if v[0] != "s" else v[1]) else v
    t = v[0]
    if t == "v":
        n = tuple(trim(x, d - 1) for x in v[2])
        while n and n[-1] is None:
            n = n[:-1]
        return ("v", v[1], n)
    if t == "s":
        n = tuple(trim(x, d - 1) for x in v[1])
        while n and n[-1] is None:
            n = n[:-1]
        return ("s", n) if n else None
    if t == "c":
        return ("c", v[1], tuple(trim(x, d - 1) for x in v[2]))
    return v


def G(*tags):
    """a value that carries provenance tags"""
    return ("g", frozenset(tags))


PRUNE = object()     # returned by on_branch: this branch cannot be taken
NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}
CMPFN = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


def conds(v, truth):
    """atomic comparisons implied by boolean value v being `truth`"""
    if v is None:
        return []
    k = v[0]
    if k == "n":
        return conds(v[1], not truth)
    if k == "cmp":
        return [(v[1] if truth else NEG[v[1]], v[2], v[3])]
    if k == "ba":
        return [c for x in v[1] for c in conds(x, True)] if truth else []
    if k == "bo":
        return [c for x in v[1] for c in conds(x, False)] if not truth else []
    if k == "g":
        return [("Eq", v[1], frozenset(["#%d" % int(truth)]))]
    return []


def alts(v, truth):
    """the alternatives of a boolean value known to be `truth`, if that is a choice between several"""
    if v is None:
        return None
    if v[0] == "n":
        return alts(v[1], not truth)
    if v[0] == ("bo" if truth else "ba"):
        out = []
        for x in v[1]:
            out += alts(x, truth) or [conds(x, truth)]
        return out
    return None


class Outcome:
    """`wr`: (reference, value) written by the call"""
    __slots__ = ("aut", "ret", "wr")

    def __init__(self, aut, ret=None, wr=None):
        self.aut = aut
        self.ret = ret
        self.wr = wr


class Ctx:
    """handed to spec hooks"""
    __slots__ = ("eng", "inst", "bb", "aut", "env", "stack", "line", "dty")

    def __init__(self, eng, inst, bb, aut, env, stack, line):
        self.eng, self.inst, self.bb, self.aut, self.env, self.stack, self.line = eng, inst, bb, aut, env, stack, line

    def report(self, key, msg):
        self.eng.report(self, key, msg)

    def read(self, place):
        return self.eng.read(self.env, place)

    def where(self):
        return "%s:%s (%s)" % (self.inst.body.file, self.line, self.inst.body.path)


class Spec:
    """Override. `interesting(inst)` is computed from `event_insts()`; others are summarised as opaque."""
    name = "spec"
    inline_blocks = 120
    inline_results = 24    # distinct results of such a function that are told apart
    tagging = False
    field_tags = {}
    str_consts = False   # literals are sequences of their bytes
    count_steps = False  # a constant added twice leaves a tag of its own
    disjunctions = False # a choice none of whose alternatives on_branch allows cannot be taken
    debug_asserts = False       # what is compiled into debug builds only is looked at as well
    small_arith = False  # constant arithmetic on small numbers
    promoted = False     # constants built by a promoted body have their value
    slice_tags = ()      # tags to which an index is added when an element is viewed
    index_tags = False   # a view by index also carries the tags of the index
    moves = False        # a place that was moved from is empty (else only whole locals passed on are)
    max_states = 400

    def __init__(self, prog):
        self.prog = prog
        self._rel = None

    def is_event_call(self, callee):
        return False

    def has_event(self, inst):
        """instance contains an event of its own"""
        for bb, b in enumerate(inst.body.blocks):
            if b.get("cl"):
                continue
            if b["t"][0] == "call" and self.is_event_call(self.prog.callee(inst, bb)):
                return True
            if b["t"][0] == "drop" and self.is_event_drop(inst, bb):
                return True
        return self.has_stmt_event(inst)

    def is_event_drop(self, inst, bb):
        return False

    def has_stmt_event(self, inst):
        return False

    def reads_tagged(self, inst):
        """instance mentions a field that carries a provenance tag"""
        for b in inst.body.blocks:
            if not b.get("cl"):
                for x in (b["s"], b["t"]):
                    x = str(x)
                    for o, n in self.field_tags:
                        if "'n': '%s', 'o': '%s'" % (n, o) in x:
                            return True
        return False

    def stop(self, inst):
        """do not descend into inst"""
        return False

    def relevant(self):
        if self._rel is None:
            ev = [i.id for i in self.prog.insts.values() if self.has_event(i)]
            self.event_holders = ev
            self._rel = self.reach_back_stop(ev)
        return self._rel

    def reach_back_stop(self, seeds):
        cs = self.prog.callers()
        seen = set(seeds)
        wl = list(seeds)
        while wl:
            x = wl.pop()
            if self.stop(self.prog.insts[x]):
                continue
            for p in cs.get(x, ()):
                if p.id not in seen:
                    seen.add(p.id)
                    wl.append(p.id)
        # fnptr callers
        return seen

    # hooks
    gc = None       # (engine, aut, env, aut at entry) -> aut without what is not needed any more

    def on_call(self, ctx, callee, args):
        return None

    def after_call(self, ctx, callee, args, aut0, outcome):
        return outcome

    def on_yield(self, ctx):
        """the task is suspended"""

    def on_drop(self, ctx, place, tys):
        return None

    def on_stmt(self, ctx, stmt):
        return None

    def on_return(self, ctx, ret):
        return None

    def on_branch(self, ctx, op, a, b):
        """a branch on which `a op b` holds is taken (a, b: provenance tags); PRUNE if it cannot be"""
        return None


class Engine:
    def __init__(self, prog, spec):
        self.p = prog
        ADTS.update(prog.adts)
        self.spec = spec
        self.memo = {}
        self.active = set()
        self.violations = {}
        self.n_states = 0
        self.n_funcs = set()
        self.rel = set(spec.relevant())
        self.fnptr_resolve()
        self.recursion_hits = 0
        self.merged = 0
        self.call_sites_seen = set()

    # ---- function pointer resolution by signature
    def norm(self, s):
        s = re.sub(r"for<[^>]*> ?", "", s)
        s = re.sub(r"'[a-z_0-9]+ ?", "", s)
        s = s.replace("<>", "").replace("unsafe ", "").replace("extern \"Rust\" ", "")
        s = re.sub(r"<, ", "<", s)
        return s.replace(" ", "")

    def fnptr_resolve(self):
        p = self.p
        if hasattr(p, "_reified"):
            self.reified = p._reified
        else:
            m = defaultdict(list)
            done = set()
            for i in p.insts.values():
                for r in i.reify:
                    if r in done:
                        continue
                    done.add(r)
                    x = p.insts[r]
                    args = list(range(1, x.body.argc + 1))
                    if "{closure#" in x.body.path.rsplit("::", 1)[-1]:
                        args = args[1:]
                    sig = "fn(%s)" % ", ".join(p.tys(p.lty(x, a)) for a in args)
                    rt = p.tys(p.lty(x, 0))
                    if rt != "()":
                        sig += " -> " + rt
                    m[self.norm(sig)].append(x)
            p._reified = self.reified = m
        # add fnptr edges to relevance
        changed = True
        extra = []
        for i in p.insts.values():
            for bb, info in i.calls.items():
                if "fnptr" in info:
                    extra.append((i, self.fnptr_targets(info)))
        while changed:
            changed = False
            new = []
            for i, ts in extra:
                if i.id not in self.rel and any(t.id in self.rel for t in ts):
                    new.append(i.id)
            if new:
                self.rel |= self.spec.reach_back_stop(new)
                changed = True

    def fnptr_targets(self, info):
        return self.reified.get(self.norm(self.p.tys(info["fnptr"])), [])

    # ---- reporting
    def report(self, ctx, key, msg):
        if key not in self.violations:
            self.violations[key] = {
                "key": key,
                "msg": msg,
                "where": ctx.where(),
                "path": ["%s" % (s,) for s in ctx.stack] + [ctx.where()],
            }

    # ---- value access
    def read(self, env, place):
        cur = env.get(place[0])
        return self.project(env, cur, place[1:])

    def project(self, env, cur, projs):
        for pr in projs:
            if cur is None:
                return None
            if pr == "*":
                if cur[0] == "r":
                    cur = self.read_path(env, cur[1], cur[2])
                elif cur[0] == "bx":
                    cur = cur[1]
                elif cur[0] in ("g", "st"):
                    pass
                else:
                    return None
            elif cur[0] == "g":
                if self.spec.slice_tags and ("i" in pr or "ci" in pr):
                    n = env.get(pr["i"]) if "i" in pr else K(pr["ci"]) if isinstance(pr.get("ci"), int) else None
                    n = n[1] if n is not None and n[0] == "k" else "?"
                    cur = ("g", frozenset("%s[%s]" % (x, n) if x.startswith(self.spec.slice_tags) else x for x in cur[1]))
            elif "f" in pr:
                if cur[0] == "v":
                    cur = cur[2][pr["f"]] if pr["f"] < len(cur[2]) else None
                elif cur[0] == "s":
                    cur = cur[1][pr["f"]] if pr["f"] < len(cur[1]) else None
                elif cur[0] == "c":
                    cur = cur[2][pr["f"]] if pr["f"] < len(cur[2]) else None
                else:
                    return None
            elif "d" in pr:
                if cur[0] != "v" or cur[1] != pr["d"]:
                    return None
            else:
                return None
        return cur

    def read_path(self, env, key, path):
        cur = env.get(key)
        for f in path:
            if cur is None:
                return None
            if cur[0] == "g":
                continue
            if f[0] == "f":
                i = f[1]
                if cur[0] == "v":
                    cur = cur[2][i] if i < len(cur[2]) else None
                elif cur[0] == "s":
                    cur = cur[1][i] if i < len(cur[1]) else None
                elif cur[0] == "c":
                    cur = cur[2][i] if i < len(cur[2]) else None
                else:
                    return None
            else:
                if cur[0] != "v" or cur[1] != f[1]:
                    return None
        return cur

    def write_path(self, env, key, path, val):
        cur = env.get(key)
        n = self._set(cur, path, val)
        if n is None:
            env.pop(key, None)
        else:
            env[key] = n

    def _set(self, cur, path, val):
        if not path:
            return val
        f = path[0]
        if f[0] == "d":
            if cur is not None and cur[0] == "v" and cur[1] == f[1]:
                return self._set(cur, path[1:], val)
            if val is None:
                return cur if (cur is None or cur[0] != "y") else None
            return self._set(("v", f[1], ()), path[1:], val)
        i = f[1]
        if cur is not None and cur[0] in ("v", "c"):
            fs = list(cur[2])
        elif cur is not None and cur[0] == "s":
            fs = list(cur[1])
        else:
            if val is None:
                return None
            fs = []
            cur = ("s", ())
        while len(fs) <= i:
            fs.append(None)
        fs[i] = self._set(fs[i], path[1:], val)
        if cur[0] in ("v", "c"):
            return (cur[0], cur[1], tuple(fs))
        return ("s", tuple(fs))

    def resolve(self, env, place):
        """-> (key, path) or None if it goes through an unknown pointer"""
        key, path = place[0], []
        for pr in place[1:]:
            if pr == "*":
                v = self.read_path(env, key, path)
                if v is None or v[0] != "r":
                    return None
                key, path = v[1], list(v[2])
            elif "f" in pr:
                path.append(("f", pr["f"]))
            elif "d" in pr:
                path.append(("d", pr["d"]))
            else:
                return None
        return key, tuple(path)

    def write(self, env, place, val):
        r = self.resolve(env, place)
        if r is None:
            return
        self.write_path(env, r[0], r[1], trim(val))

    # ---- provenance
    def ptag(self, place):
        ft = self.spec.field_tags
        for pr in reversed(place[1:]):
            if isinstance(pr, dict) and "o" in pr:
                t = ft.get((pr["o"], pr.get("n")))
                if t:
                    return t
        return None

    def tags(self, env, v, d=5):
        if v is None or d < 0:
            return frozenset()
        k = v[0]
        if k == "g":
            return v[1]
        if k == "k":
            return frozenset(["#%s" % v[1]])
        if k == "r":
            return self.tags(env, self.read_path(env, v[1], v[2]), d - 1)
        if k in ("v", "c"):
            r = frozenset(x for f in v[2] for x in self.tags(env, f, d - 1))
            return r if k == "c" or not all(f is None for f in v[2]) else r | frozenset(["%%%s" % v[1]])
        if k == "s":
            return frozenset(x for f in v[1] for x in self.tags(env, f, d - 1))
        if k == "bx":
            return self.tags(env, v[1], d - 1)
        if k == "cmp":
            return v[2] | v[3]
        if k in ("ba", "bo"):
            return frozenset(x for f in v[1] for x in self.tags(env, f, d - 1))
        if k in ("n", "mb"):
            return self.tags(env, v[1], d)
        return frozenset()

    def union(self, env, vs):
        t = frozenset(x for v in vs for x in self.tags(env, v) if x[0] not in "#%")
        return ("g", t) if t else None

    def operand(self, env, o, inst=None):
        if self.spec.tagging and "k" not in o:
            t = self.ptag(op_place(o))
            if t:
                return ("g", frozenset([t]) | frozenset(x for x in self.tags(env, self.read(env, op_place(o))) if x[0] not in "#%"))
        if "k" in o:
            k = o["k"]
            if self.spec.promoted and "promoted" in k and inst is not None:
                v = self.promoted(inst, k)
                if v is not None:
                    return v
            if "rv" in k or "promoted" in k:
                n = k.get("rv")
                if n is None and inst is not None:
                    for nm, v in inst.consts or ():
                        if nm == "%s#p%s" % (k.get("p"), k["promoted"]):
                            n = v
                ty = self.p.types[k["ty"]]
                if n is not None and ty.get("k") == "ref":
                    it = self.p.types[ty["a"]] if isinstance(ty.get("a"), int) else None
                    if it is None and isinstance(ty.get("a"), list) and ty["a"]:
                        it = self.p.types[ty["a"][0]]
                    if it is not None and it.get("k") == "adt":
                        return ("bx", V(self.vidx_of(it.get("p"), int(n))))
                    return ("bx", K(int(n)))
                return None
            if inst is not None and k.get("g") and inst.consts:
                for n, v in inst.consts:
                    if n == k.get("p") or n == k.get("name"):
                        ty = self.p.types[k["ty"]]
                        if ty.get("k") == "adt":
                            a = self.p.adts.get(ty.get("p"))
                            return V(self.vidx_of(ty.get("p"), v)) if a and a.get("k") == "enum" else None
                        return K(int(v))
            if "v" in k and isinstance(k["v"], (int, bool)):
                return K(int(k["v"]))
            if "static" in k and k["static"] in self.tables():
                return ("st", k["static"])
            if self.spec.str_consts and "str" in k:
                return ("bx", ("s", tuple(K(b) for b in k["str"].encode())))
            if k.get("p") in self.p.arrays:
                return ("s", tuple(K(x) for x in self.p.arrays[k["p"]]))
            return None
        pl = op_place(o)
        if len(pl) > 1 and isinstance(pl[-1], dict) and ("i" in pl[-1] or "ci" in pl[-1]):
            b = self.read(env, pl[:-1])
            if b is not None and b[0] == "st":
                n = env.get(pl[-1]["i"]) if "i" in pl[-1] else K(pl[-1]["ci"]) if isinstance(pl[-1].get("ci"), int) else None
                t = self.tables()[b[1]]
                if n is not None and n[0] == "k" and 0 <= n[1] < len(t):
                    return ("fn", t[n[1]])
                return self.union(env, (n,)) if self.spec.tagging else None
            if b is not None and b[0] == "s":
                n = env.get(pl[-1]["i"]) if "i" in pl[-1] else K(pl[-1]["ci"]) if isinstance(pl[-1].get("ci"), int) else None
                if n is not None and n[0] == "k" and 0 <= n[1] < len(b[1]):
                    return b[1][n[1]]
        return self.read(env, pl)

    def promoted(self, inst, k):
        """the value of a constant that was promoted out of a body"""
        c = self.p.__dict__.setdefault("_promoted", {})
        key = (k.get("p"), k["promoted"])
        if key not in c:
            val = None
            for b in self.p.bodies_of(k.get("p")):
                pr = b.raw.get("prom") or ()
                if key[1] < len(pr):
                    env = {}
                    for pl, rv in pr[key[1]]:
                        v = None
                        if rv[0] == "agg" and isinstance(rv[1], dict) and "adt" in rv[1]:
                            fs = tuple(env.get(op_place(o)[0]) if "k" not in o else self.operand(env, o) for o in rv[2])
                            a = self.p.adts.get(rv[1]["adt"])
                            v = ("v", rv[1]["v"], fs) if a and a.get("k") == "enum" else ("s", fs)
                        elif rv[0] == "use":
                            v = self.operand(env, rv[1])
                        elif rv[0] == "ref" and len(rv[2]) == 1:
                            v = env.get(rv[2][0])
                            v = ("bx", v) if v is not None else None
                        if len(pl) == 1:
                            env[pl[0]] = v
                    val = env.get(0)
            c[key] = val
        return c[key]

    def tables(self):
        if not hasattr(self.p, "_tables"):
            self.p._tables = {i.body.path: list(i.reify) for i in self.p.insts.values() if i.reify and i.body.kind.startswith("Static")}
        return self.p._tables

    # ---- symbols
    def kill_sym(self, env, pred):
        def f(v):
            return (None,) if pred(v[1]) else None
        for k in list(env):
            v = env[k]
            if has_sym(v):
                n = subst(v, f)
                if n is None:
                    del env[k]
                elif n is not v:
                    env[k] = n

    def refine(self, env, sym, val):
        def f(v):
            return (val,) if v == sym else None
        for k in list(env):
            v = env[k]
            if has_sym(v):
                n = subst(v, f)
                if n is None:
                    del env[k]
                elif n is not v:
                    env[k] = n

    # ---- havoc everything reachable mutably from a value
    def havoc(self, env, v, seen=None, fill=None):
        if v is None:
            return
        t = v[0]
        if t == "r":
            seen = seen or set()
            if (v[1], v[2]) in seen:
                return
            seen.add((v[1], v[2]))
            inner = self.read_path(env, v[1], v[2])
            self.havoc(env, inner, seen, fill)
            if v[3]:
                self.write_path(env, v[1], v[2], fill)
        elif t == "v":
            for x in v[2]:
                self.havoc(env, x, seen, fill)
        elif t == "s":
            for x in v[1]:
                self.havoc(env, x, seen, fill)
        elif t == "c":
            for x in v[2]:
                self.havoc(env, x, seen, fill)

    def opaque(self, env, args, rv=None):
        """effect of a call that is not looked into"""
        if not self.spec.tagging:
            for a in args:
                self.havoc(env, a)
            return rv
        u = self.union(env, args)
        for a in args:
            self.havoc(env, a, None, u)
        return rv if rv is not None else u

    # ---- types helpers
    def is_enumish(self, tid):
        if tid is None:
            return None
        ty = self.p.types[tid]
        if ty["s"] == "bool":
            return 2
        if ty.get("k") == "adt":
            p = ty.get("p")
            if p in ("std::result::Result", "std::option::Option", "std::ops::ControlFlow", "std::task::Poll"):
                return 2
            a = self.p.adts.get(p)
            if a and a.get("k") == "enum":
                return len(a.get("variants", [])) or 3
        return None

    # ---- analysis
    def run(self, inst, aut, args=None, stack=()):
        """-> list of (aut, ret)"""
        n = inst.body.argc
        a = list(args or [])
        while len(a) < n:
            a.append(None)
        outs = self.summary(inst, aut, tuple(a), {}, stack)
        return [(o[0], o[1]) for o in outs]

    def summary(self, inst, aut, args, cells, stack):
        """args refer to cells ('A',n) in `cells`; returns list of (aut, ret, cells_out, psyms_out)"""
        key = (inst.id, aut, args, tuple(sorted(cells.items(), key=lambda kv: kv[0][1])))
        r = self.memo.get(key)
        if r is not None:
            return r
        akey = key
        if akey in self.active or len(stack) > 60:
            self.recursion_hits += 1
            return [(aut, None, {k: None for k in cells}, {})]
        # recursion on the same instance with growing args: cut
        if sum(1 for k in self.active if k[0] == inst.id) > 3:
            self.recursion_hits += 1
            return [(aut, None, {k: None for k in cells}, {})]
        self.active.add(akey)
        try:
            r = self.analyse(inst, aut, args, cells, stack)
        finally:
            self.active.discard(akey)
        self.memo[key] = r
        return r

    def analyse(self, inst, aut0, args, cells, stack):
        body = inst.body
        live, taken = body.live()
        env0 = dict(cells)
        syms = {}
        for i, v in enumerate(args):
            if v is not None:
                env0[i + 1] = v
        # pseudo-cells for parameter symbols
        allsyms = set()

        def coll(v):
            allsyms.add(v)
            return None
        for v in list(env0.values()):
            subst(v, coll)
        for s in allsyms:
            env0[("P", s[1])] = s
        self.n_funcs.add(inst.id)
        spec = self.spec
        seen = defaultdict(set)
        envs_at = defaultdict(lambda: defaultdict(list))
        outs = {}
        wl = deque()
        wl.append((0, env0, aut0))
        limit = spec.max_states
        while wl:
            bb, env, aut = wl.pop()
            # prune
            lv = live[bb]
            e2 = {}
            for k, v in env.items():
                if v is None:
                    continue
                if isinstance(k, int):
                    if k in lv or k in taken or k == 0:
                        e2[k] = v
                else:
                    e2[k] = v
            env = e2
            if spec.gc is not None:
                aut = spec.gc(self, aut, env, aut0)
            cnt = envs_at[bb][aut]
            fz = frozenset(env.items())
            sk = (fz, aut)
            if sk in seen[bb]:
                continue
            if len(cnt) >= limit:
                # merge: keep only what is common to all seen so far
                self.merged += 1
                common = dict(cnt[-1]) if not isinstance(cnt[-1], dict) else cnt[-1]
                common = {k: v for k, v in common.items() if env.get(k) == v}
                fz = frozenset(common.items())
                sk = (fz, aut)
                cnt.append(common)
                if sk in seen[bb]:
                    continue
                env = common
            else:
                cnt.append(env)
            seen[bb].add(sk)
            self.n_states += 1
            env = dict(env)
            blk = body.blocks[bb]
            for st in blk["s"]:
                k = st[0]
                if k == "=":
                    if spec_on_stmt := spec.on_stmt:
                        na = spec_on_stmt(Ctx(self, inst, bb, aut, env, stack, st[3]), st)
                        if na is not None:
                            aut = na
                    self.assign(inst, env, st, bb)
                    if spec.moves:
                        self.move_out(env, st[2], st[1])
                elif k == "dead":
                    env.pop(st[1], None)
                elif k == "setd":
                    self.write(env, st[1], V(st[2]))
            t = blk["t"]
            for nbb, nenv, naut in self.term(inst, bb, t, env, aut, stack):
                if nbb == "ret":
                    ret = nenv.get(0)
                    ctx = Ctx(self, inst, bb, naut, nenv, stack, body.hi)
                    r2 = spec.on_return(ctx, ret)
                    if r2 is not None:
                        naut = r2
                    co = {c: nenv.get(c) for c in cells}
                    po = {s: nenv.get(("P", s[1])) for s in allsyms}
                    ok = (naut, ret, tuple(sorted(co.items(), key=lambda kv: kv[0][1])), tuple(sorted(po.items(), key=repr)))
                    outs[ok] = (naut, ret, co, po)
                else:
                    wl.append((nbb, nenv, naut))
        return list(outs.values())

    def move_out(self, env, rv, dest):
        """what was moved is no longer there"""
        for o in ([rv[1]] if rv[0] == "use" else rv[2] if rv[0] == "agg" else ()):
            if isinstance(o, dict) and "m" in o and o["m"][0] != dest[0]:
                r = self.resolve(env, o["m"])
                if r is not None and len(o["m"]) == 1:
                    env.pop(o["m"][0], None)
                elif r is not None:
                    self.write_path(env, r[0], r[1], None)

    def assign(self, inst, env, st, bb):
        place, rv = st[1], st[2]
        k = rv[0]
        val = None
        if k == "use":
            val = self.operand(env, rv[1], inst)
            if val is None and "k" not in rv[1] and len(place) == 1:
                # give unknown bools/enums an identity so later copies stay correlated
                if self.is_enumish(self.p.lty(inst, place[0])):
                    src = self.resolve(env, op_place(rv[1]))
                    if src is not None:
                        sym = ("y", ("u", bb, place[0]))
                        self.kill_sym(env, lambda u: u == sym[1])
                        self.write_path(env, src[0], src[1], sym)
                        val = sym
            if "m" in rv[1]:
                pl = rv[1]["m"]
                if len(pl) == 1 and pl[0] != place[0]:
                    env.pop(pl[0], None)
        elif k in ("ref", "rawptr") and self.spec.tagging and self.ptag(rv[-1]):
            val = ("g", frozenset([self.ptag(rv[-1])]))
        elif k == "ref":
            r = self.resolve(env, rv[2])
            if r is None:
                v = self.read(env, rv[2])
                if v is not None and v[0] == "g" and self.spec.tagging:
                    val = v
                elif v is not None and (v[0] in ("v", "k", "s") or v[0] == "bx" and self.spec.str_consts):
                    val = ("bx", v)  # reborrow of a constant
            elif r is not None:
                val = ("r", r[0], r[1], 1 if rv[1] else 0)
                # reborrow of shared ref stays shared
        elif k == "rawptr":
            r = self.resolve(env, rv[-1])
            if r is not None:
                val = ("r", r[0], r[1], 1)
        elif k == "cast":
            v = self.operand(env, rv[2], inst)
            kind = rv[1]
            if v is not None and v[0] == "g":
                val = v
            elif kind in ("IntToInt", "Transmute", "PtrToPtr") or kind.startswith("PointerCoercion"):
                val = v
                if kind == "Transmute" and v is not None and v[0] not in ("r", "k", "y", "d"):
                    val = None
                    if v[0] == "v" and "k" not in rv[2]:
                        t = self.place_ty(inst, op_place(rv[2]))
                        ad = self.p.adts.get(self.p.types[t].get("p")) if t is not None else None
                        if ad and ad.get("k") == "enum" and not any(x["f"] for x in ad["variants"]) and v[1] < len(ad["variants"]):
                            val = K(int(ad["variants"][v[1]].get("d", v[1])))       # fieldless enum -> integer
                if kind == "Transmute" and v is not None and v[0] == "k":
                    # integer -> fieldless enum
                    n = self.is_enumish(self.p.lty(inst, place[0])) if len(place) == 1 else None
                    if n and self.p.tys(self.p.lty(inst, place[0])) != "bool":
                        val = V(v[1])
        elif k == "bin":
            val = self.binop(inst, env, place, rv)
        elif k == "un":
            v = self.operand(env, rv[2], inst)
            if v is not None and v[0] == "g" and rv[1] != "Not":
                val = v
            if rv[1] == "Not" and v is not None and v[0] in ("k", "y", "n", "q", "d", "g", "cmp", "ba", "bo"):
                if len(place) == 1 and self.p.tys(self.p.lty(inst, place[0])) == "bool" and v[0] != "d":
                    val = mknot(v)
        elif k == "discr":
            r = self.resolve(env, rv[1])
            v = self.read(env, rv[1])
            if self.spec.tagging and self.ptag(rv[1]):
                val = ("g", frozenset([self.ptag(rv[1])]) | frozenset(x for x in self.tags(env, v) if x[0] not in "#%"))
            elif v is not None and v[0] == "v":
                val = K(self.discr_of(inst, rv[1], v[1]))
            elif v is not None and v[0] == "y":
                val = ("d", v, self.nvar(inst, rv[1]))
            elif v is not None and v[0] == "g":
                val = v
            elif v is None and r is not None:
                sym = ("y", ("d", bb, rv[1][0], len(rv[1])))
                self.kill_sym(env, lambda u: u == sym[1])
                self.write_path(env, r[0], r[1], sym)
                if self.read_path(env, r[0], r[1]) == sym:
                    val = ("d", sym, self.nvar(inst, rv[1]))
        elif k == "agg":
            kind = rv[1]
            ops = [self.operand(env, o, inst) for o in rv[2]]
            for o in rv[2]:
                if "m" in o and len(o["m"]) == 1:
                    pass
            if kind in ("tuple", "array"):
                val = ("s", tuple(ops))
            elif isinstance(kind, dict):
                if "adt" in kind:
                    a = self.p.adts.get(kind["adt"])
                    if kind["adt"] in ("std::result::Result", "std::option::Option", "std::ops::ControlFlow", "std::task::Poll") or (a and a.get("k") == "enum"):
                        val = ("v", kind["v"], tuple(ops))
                    else:
                        val = ("s", tuple(ops))
                elif "closure" in kind:
                    val = ("c", kind["closure"], tuple(ops))
                elif "coroutine" in kind:
                    val = ("c", kind["coroutine"], tuple(ops))
        if val is None and self.spec.tagging and k not in ("ref", "rawptr"):
            val = self.union(env, [self.operand(env, o, inst) for o in rv_operands(rv)])
        self.write(env, place, val)

    def assigned(self, ctx, st):
        """the value statement `st` is about to store"""
        e, rv = dict(ctx.env), st[2]
        if self.resolve(e, st[1]) is None:      # a place behind an unknown reference
            if rv[0] == "bin":
                return self.binop(ctx.inst, e, st[1], rv)
            if rv[0] in ("use", "cast", "un"):
                o = rv[2] if rv[0] != "use" else rv[1]
                return self.operand(e, o, ctx.inst)
            return None
        self.assign(ctx.inst, e, st, ctx.bb)
        return self.read(e, st[1])

    def stepped(self, u, t):
        if self.spec.count_steps and t in u[1]:
            t += "+"
        return ("g", u[1] | {t})

    def discr_of(self, inst, place, vidx):
        a = self.place_adt(inst, place)
        if a:
            vs = a.get("variants") or []
            if vidx < len(vs) and isinstance(vs[vidx].get("d"), int):
                return vs[vidx]["d"]
        return vidx

    def vidx_of(self, adtp, d):
        a = self.p.adts.get(adtp)
        if a:
            for i, v in enumerate(a.get("variants") or []):
                if v.get("d") == d:
                    return i
        return d

    _STDARG = {("std::result::Result", 0): 0, ("std::result::Result", 1): 1, ("std::option::Option", 1): 0,
               ("std::ops::ControlFlow", 0): 1, ("std::ops::ControlFlow", 1): 0, ("std::task::Poll", 0): 0}

    def place_ty(self, inst, place):
        """type id of a place, or None"""
        t = self.p.lty(inst, place[0])
        var = 0
        for pr in place[1:]:
            if t is None:
                return None
            ty = self.p.types[t]
            if pr == "*":
                a = ty.get("a") or []
                if ty.get("k") in ("ref", "rawptr", "ptr") and a and isinstance(a[0], int):
                    t = a[0]
                elif ty["s"].startswith("std::boxed::Box") and a and isinstance(a[0], int):
                    t = a[0]
                else:
                    return None
                var = 0
            elif "d" in pr:
                var = pr["d"]
            elif "f" in pr:
                a = ty.get("a") or []
                if ty.get("k") == "tuple":
                    t = a[pr["f"]] if pr["f"] < len(a) and isinstance(a[pr["f"]], int) else None
                elif ty.get("k") == "adt":
                    ad = self.p.adts.get(ty.get("p"))
                    si = self._STDARG.get((ty.get("p"), var))
                    if si is not None:
                        t = a[si] if si < len(a) and isinstance(a[si], int) else None
                    elif ad and ad.get("local"):
                        fs = ad["variants"][var]["f"] if var < len(ad["variants"]) else []
                        f = fs[pr["f"]] if pr["f"] < len(fs) else None
                        t = f[1] if f and len(f) > 1 and isinstance(f[1], int) else None
                        if t is not None and self.p.types[t].get("k") == "param":
                            t = None
                    else:
                        t = None
                else:
                    t = None
                var = 0
            else:
                return None
        return t

    def place_adt(self, inst, place):
        t = self.place_ty(inst, place)
        if t is None:
            return None
        ty = self.p.types[t]
        if ty.get("k") == "adt":
            return self.p.adts.get(ty.get("p"))
        return None

    def nvar(self, inst, place):
        a = self.place_adt(inst, place)
        return a["p"] if a else None

    def binop(self, inst, env, place, rv):
        op = rv[1]
        a, b = self.operand(env, rv[2], inst), self.operand(env, rv[3], inst)
        isb = len(place) == 1 and self.p.tys(self.p.lty(inst, place[0])) == "bool"
        if self.spec.tagging and any(x is not None and x[0] in ("g", "cmp", "ba", "bo", "n") for x in (a, b)):
            if self.spec.small_arith and op[:3] == "Mul" and not isb:
                for u, w in ((a, b), (b, a)):
                    if u and u[0] == "k" and w and w[0] in ("cmp", "ba", "bo", "n"):
                        m = ("mb", w, u[1])     # a boolean times a number
                        return ("s", (m, FALSE)) if op.endswith("WithOverflow") else m
            if self.spec.small_arith and op[:3] == "Shl" and b and b[0] == "k" and a and a[0] in ("cmp", "ba", "bo", "n") and b[1] < 8:
                return ("mb", a, 1 << b[1])
            if isb and op in NEG:
                return ("cmp", op, self.tags(env, a), self.tags(env, b))
            if isb and op in ("BitAnd", "BitOr"):
                for u, w in ((a, b), (b, a)):
                    if u and u[0] == "k":
                        if op == "BitAnd":
                            return w if u[1] else FALSE
                        return TRUE if u[1] else w
                return ("ba" if op == "BitAnd" else "bo", (a, b))
            u = self.union(env, (a, b))
            if op == "BitAnd" and u is not None:
                for x in (a, b):
                    if x and x[0] == "k":
                        u = ("g", u[1] | {"&%d" % (x[1] & ((1 << 64) - 1))})
            if op[:3] in ("Add", "Sub") and u is not None and b and b[0] == "k" and b[1] != 0:
                u = self.stepped(u, "%s%d" % ("+" if op[0] == "A" else "-", b[1]))
            elif op[:3] == "Add" and u is not None and a and a[0] == "k" and a[1] != 0:
                u = self.stepped(u, "+%d" % a[1])
            return u
        if a and b and a[0] == "k" and b[0] == "k":
            x, y = a[1], b[1]
            try:
                if op == "Eq":
                    return K(int(x == y))
                if op == "Ne":
                    return K(int(x != y))
                if op == "Lt":
                    return K(int(x < y))
                if op == "Le":
                    return K(int(x <= y))
                if op == "Gt":
                    return K(int(x > y))
                if op == "Ge":
                    return K(int(x >= y))
                if op == "BitAnd":
                    return K(x & y)
                if op == "BitOr":
                    return K(x | y)
                if op == "BitXor":
                    return K(x ^ y)
                if self.spec.small_arith and op[:3] in ("Add", "Sub", "Mul") and 0 <= x <= 4096 and 0 <= y <= 4096:
                    n = x + y if op[0] == "A" else x * y if op[0] == "M" else x - y
                    if n >= 0:
                        return ("s", (K(n), FALSE)) if op.endswith("WithOverflow") else K(n)
                if op.startswith("Mul") and (x in (0, 1) or y in (0, 1)):
                    return K(x * y)
                if op in ("Shl", "ShlUnchecked") and 0 <= y < 64:
                    return K((x << y) & ((1 << 64) - 1))
                if op in ("Sub", "SubUnchecked") and 0 <= y <= x <= 64:
                    return K(x - y)
            except Exception:
                return None
            return None
        if isb and op in ("BitAnd", "BitOr"):
            for u, w in ((a, b), (b, a)):
                if u and u[0] == "k":
                    if op == "BitAnd":
                        return w if u[1] else FALSE
                    return TRUE if u[1] else w
            if a is not None and a == b:
                return a
            return None
        for u, w in ((a, b), (b, a)):
            if u and u[0] == "k":
                if u[1] == 0 and op in ("BitAnd", "Mul"):
                    return K(0)
                if u[1] == 0 and op in ("BitOr", "BitXor") or u[1] == 1 and op == "Mul":
                    return w
        if op in ("Eq", "Ne"):
            for u, w in ((a, b), (b, a)):
                if u and u[0] == "k" and w and w[0] in ("y", "d"):
                    if w[0] == "y":
                        r = ("q", w, u[1])
                        return r if op == "Eq" else mknot(r)
                    if w[0] == "d" and w[2]:
                        r = ("q", w[1], ("V", self.vidx_of(w[2], u[1])))
                        return r if op == "Eq" else mknot(r)
                    if w[0] == "d":
                        return None
                if u and u[0] == "k" and w and w[0] == "n" and u[1] in (0, 1):
                    r = w if u[1] else w[1]
                    return r if op == "Eq" else mknot(r)
        return None

    # ---- terminators -> list of (bb, env, aut)
    def term(self, inst, bb, t, env, aut, stack):
        k = t[0]
        if k == "goto":
            return [(t[1], env, aut)]
        if k == "ret":
            return [("ret", env, aut)]
        if k == "switch":
            if self.spec.debug_asserts:
                pl, st = op_place(t[1]), [x for x in inst.body.blocks[bb]["s"] if x[0] == "="]
                if pl is not None and len(pl) == 1 and st and st[-1][1] == [pl[0]] and st[-1][2][0] == "use" and st[-1][2][1].get("k", {}).get("v") == 0 and self.p.tys(self.p.lty(inst, pl[0])) == "bool":
                    e = dict(env)
                    e.pop(pl[0], None)
                    return [(x, e, aut) for x in {t[3]} | {x[1] for x in t[2]}]
            return self.switch(inst, bb, t, env, aut, stack)
        if k == "assert":
            return [(t[4], env, aut)] if t[4] is not None else []
        if k == "drop":
            ctx = Ctx(self, inst, bb, aut, env, stack, t[5] if len(t) > 5 else 0)
            tyid = inst.calls.get(bb, {}).get("ty", t[4])
            na = self.spec.on_drop(ctx, t[1], self.p.tys(tyid))
            res = []
            if na is not None:
                aut = na
            auts = {aut}
            for m in self.p.callee(inst, bb).may:
                if m.id in self.rel and not self.spec.stop(m):
                    nx = set()
                    for a in auts:
                        st2 = stack + (ctx.where(),)
                        for o in self.summary(m, a, (None,) * m.body.argc, {}, st2):
                            nx.add(o[0])
                    # the dropped type's own destructor runs unconditionally; component destructors may
                    own = m.body.path.startswith("<" + self.p.types[tyid].get("p", "?").split("<")[0]) and m.body.path.endswith("::drop")
                    auts = nx if own else auts | nx
            for a in auts:
                e = dict(env)
                if len(t[1]) == 1:
                    e.pop(t[1][0], None)
                if t[2] is not None:
                    res.append((t[2], e, a))
            return res
        if k == "yield":
            self.spec.on_yield(Ctx(self, inst, bb, aut, env, stack, t[-1] if isinstance(t[-1], int) else 0))
            e = dict(env)
            e.pop(t[1] and 0, None) if False else None
            return [(t[2], e, aut)] if t[2] is not None else []
        if k == "call":
            return self.call(inst, bb, t, env, aut, stack)
        if k == "other":
            return [(x, env, aut) for x in t[1:] if isinstance(x, int)]
        return []

    def switch_tags(self, inst, bb, t, env, aut, v, stack):
        targets, other = t[2], t[3]
        pl = op_place(t[1])
        isb = pl is not None and len(pl) == 1 and self.p.tys(self.p.lty(inst, pl[0])) == "bool"
        line = t[4] if len(t) > 4 else 0
        res = []
        dty = None      # type of the value whose variant is switched on
        if pl is not None and len(pl) == 1:
            for st in reversed(inst.body.blocks[bb]["s"]):
                if st[0] == "=" and st[1] == [pl[0]]:
                    if st[2][0] == "discr":
                        x = self.place_ty(inst, st[2][1])
                        dty = self.p.tys(x) if x is not None else None
                    break

        def go(tb, facts, val, choice=None):
            e = dict(env)
            ctx = Ctx(self, inst, bb, aut, e, stack, line)
            ctx.dty = dty
            if choice and self.spec.disjunctions:
                def fails(alt):
                    a = aut
                    for op, x, y in alt:
                        c = Ctx(self, inst, bb, a, dict(env), stack, line)
                        c.dty = dty
                        na = self.spec.on_branch(c, op, x, y)
                        if na is PRUNE:
                            return True
                        a = a if na is None else na
                    return False
                if all(fails(alt) for alt in choice):
                    return
            for op, a, b in facts:
                na = self.spec.on_branch(ctx, op, a, b)
                if na is PRUNE:
                    return
                if na is not None:
                    ctx.aut = na
            res.append((tb, e, ctx.aut))
        for val, tb in targets:
            if isb:
                go(tb, conds(v, bool(val)), val, alts(v, bool(val)))
            else:
                go(tb, [("Eq", self.tags(env, v), frozenset(["#%s" % val]))], val)
        if other is not None:
            if isb and len(targets) == 1:
                go(other, conds(v, not bool(targets[0][0])), None, alts(v, not bool(targets[0][0])))
            else:
                go(other, [("Ne", self.tags(env, v), frozenset(["#%s" % val])) for val, _ in targets], None)
        return res

    def switch(self, inst, bb, t, env, aut, stack=()):
        v = self.operand(env, t[1], inst)
        targets, other = t[2], t[3]
        if self.spec.tagging and v is not None and (v[0] in ("g", "cmp", "ba", "bo") or (v[0] == "n" and v[1][0] in ("g", "cmp", "ba", "bo"))):
            return self.switch_tags(inst, bb, t, env, aut, v, stack)
        if v is not None and v[0] == "k":
            for val, tb in targets:
                if val == v[1]:
                    return [(tb, env, aut)]
            return [(other, env, aut)] if other is not None else []
        neg = False
        while v is not None and v[0] == "n":
            neg = not neg
            v = v[1]
        res = []
        pl = op_place(t[1])
        if v is None:
            isb = pl is not None and len(pl) == 1 and self.p.tys(self.p.lty(inst, pl[0])) == "bool"
            r = self.resolve(env, pl) if pl is not None else None
            for val, tb in targets:
                e = dict(env)
                if r is not None:
                    self.write_path(e, r[0], r[1], K(val))
                res.append((tb, e, aut))
            if other is not None:
                e = dict(env)
                if r is not None and isb and len(targets) == 1:
                    self.write_path(e, r[0], r[1], K(1 - targets[0][0]))
                res.append((other, e, aut))
            return res
        if v[0] == "k":
            val = v[1]
            if neg:
                val = 0 if val else 1
            for x, tb in targets:
                if x == val:
                    return [(tb, env, aut)]
            return [(other, env, aut)] if other is not None else []
        if v[0] == "y":
            for val, tb in targets:
                e = dict(env)
                x = val
                if neg:
                    x = 0 if val else 1
                self.refine(e, v, K(x))
                res.append((tb, e, aut))
            if other is not None:
                e = dict(env)
                tid = self.p.lty(inst, pl[0]) if pl and len(pl) == 1 else None
                if tid is not None and self.p.tys(tid) == "bool" and len(targets) == 1:
                    x = 1 - targets[0][0]
                    if neg:
                        x = 1 - x
                    self.refine(e, v, K(x))
                res.append((other, e, aut))
            return res
        if v[0] == "q":
            sym, c = v[1], v[2]
            c = V(c[1]) if isinstance(c, tuple) else K(c)
            for val, tb in targets:
                e = dict(env)
                truth = bool(val) != neg
                if truth:
                    self.refine(e, sym, c)
                res.append((tb, e, aut))
            if other is not None and len(targets) == 1:
                e = dict(env)
                truth = (not bool(targets[0][0])) != neg
                if truth:
                    self.refine(e, sym, c)
                res.append((other, e, aut))
            return res
        if v[0] == "d":
            sym, adtp = v[1], v[2]
            ad = self.p.adts.get(adtp) if adtp else None
            n = len(ad["variants"]) if ad and ad.get("k") == "enum" else None
            used = set()
            for val, tb in targets:
                e = dict(env)
                vi = self.vidx_of(adtp, val)
                self.refine(e, sym, V(vi))
                used.add(vi)
                res.append((tb, e, aut))
            if other is not None:
                if n is not None:
                    rest = [i for i in range(n) if i not in used]
                    if len(rest) == 1:
                        e = dict(env)
                        self.refine(e, sym, V(rest[0]))
                        res.append((other, e, aut))
                    elif rest:
                        res.append((other, dict(env), aut))
                else:
                    res.append((other, dict(env), aut))
            return res
        for val, tb in targets:
            res.append((tb, dict(env), aut))
        if other is not None:
            res.append((other, dict(env), aut))
        return res

    # ---- calls
    def call(self, inst, bb, t, env, aut, stack):
        spec = self.spec
        callee = self.p.callee(inst, bb)
        args = [self.operand(env, o, inst) for o in t[2]]
        dest, target = t[3], t[4]
        self.call_sites_seen.add((inst.id, bb))
        ctx = Ctx(self, inst, bb, aut, env, stack, t[6])
        outs = None
        r = spec.on_call(ctx, callee, args)
        if r is not None:
            outs = []
            e0 = dict(env)
            self.opaque(e0, args)
            for o in r:
                e1 = dict(e0)
                if o.wr is not None:
                    self.write_path(e1, o.wr[0][1], o.wr[0][2], o.wr[1])
                outs.append((o.aut, o.ret, e1))
        else:
            outs = self.enum_eq(bb, callee, args, env, aut)
            if outs is None:
                outs = self.do_call(inst, bb, t, env, aut, stack, callee, args)
            fin = []
            for a, rv, e in outs:
                o = spec.after_call(Ctx(self, inst, bb, a, e, stack, t[6]), callee, args, aut, Outcome(a, rv))
                if o is None:
                    continue
                if isinstance(o, list):
                    for x in o:
                        fin.append((x.aut, x.ret, e))
                else:
                    fin.append((o.aut, o.ret, e))
            outs = fin
        res = []
        if target is None:
            return []
        dst_enum = None
        if len(dest) == 1:
            dst_enum = self.is_enumish(self.p.lty(inst, dest[0]))
        for a, rv, e in outs:
            e = dict(e)
            for o in t[2]:
                if "m" in o and len(o["m"]) == 1:
                    e.pop(o["m"][0], None)
                elif "m" in o and self.spec.moves:
                    r = self.resolve(e, o["m"])
                    if r is not None:
                        self.write_path(e, r[0], r[1], None)
            if rv is None and dst_enum:
                sym = ("y", ("c", bb))
                self.kill_sym(e, lambda u: u == ("c", bb))
                rv = sym
            self.write(e, dest, rv)
            res.append((target, e, a))
        return res

    def enum_eq(self, bb, callee, args, env, aut):
        """derived equality of a fieldless enum with a constant"""
        decl = callee.declared or callee.path or ""
        if self.spec.tagging or len(args) != 2 or not decl.startswith("std::cmp::PartialEq::"):
            return None
        x = callee.inst
        if x is None and decl.endswith("::ne"):
            if not hasattr(self.p, "_eqs"):
                self.p._eqs = {i.body.path: i for i in self.p.insts.values() if i.body.path.endswith("as std::cmp::PartialEq>::eq")}
            x = self.p._eqs.get("<%s as std::cmp::PartialEq>::eq" % (callee.selfty or callee.t0))
        if x is None:
            return None
        ty = self.p.types[self.p.lty(x, 1)]
        it = ty.get("a")
        it = it[0] if isinstance(it, list) and it else it
        if not isinstance(it, int) or self.p.types[it].get("k") != "adt":
            return None
        ad = self.p.adts.get(self.p.types[it].get("p"))
        if not ad or ad.get("k") != "enum" or any(v["f"] for v in ad["variants"]) or len(x.body.blocks) > 4:
            return None
        vs, refs = [], []
        for a in args:
            r = None
            for _ in range(3):
                if a is not None and a[0] == "r":
                    r, a = a, self.read_path(env, a[1], a[2])
                elif a is not None and a[0] == "bx":
                    a = a[1]
            vs.append(a)
            refs.append(r)
        for i in (0, 1):
            if vs[i] is None and refs[i] is not None and vs[1 - i] is not None and vs[1 - i][0] == "v":
                env = dict(env)
                self.kill_sym(env, lambda u: u == ("e", bb))
                vs[i] = ("y", ("e", bb))
                self.write_path(env, refs[i][1], refs[i][2], vs[i])
        neg = decl.endswith("::ne")
        for u, w in ((vs[0], vs[1]), (vs[1], vs[0])):
            if u is not None and u[0] == "v" and w is not None:
                if w[0] == "v":
                    r = K(int(u[1] == w[1]))
                elif w[0] == "y":
                    r = ("q", w, ("V", u[1]))
                else:
                    continue
                return [(aut, mknot(r) if neg else r, env)]
        return None

    def do_call(self, inst, bb, t, env, aut, stack, callee, args):
        """-> list of (aut, ret, env)"""
        if callee.inst is not None:
            return self.call_inst(inst, bb, callee.inst, callee, args, env, aut, stack)
        if callee.fnptr:
            tg = self.fnptr_targets(inst.calls[bb])
            fv = self.operand(env, t[1], inst)
            if fv is not None and fv[0] == "fn":
                tg = [self.p.insts[fv[1]]]
            rel = [x for x in tg if x.id in self.rel]
            outs = []
            if not tg or len(rel) < len(tg):
                e = dict(env)
                outs.append((aut, self.opaque(e, args), e))
            for x in rel:
                if "{closure#" in x.body.path.rsplit("::", 1)[-1]:
                    outs += self.call_inst(inst, bb, x, callee, [None] + list(args), env, aut, stack)
                else:
                    outs += self.call_inst(inst, bb, x, callee, list(args), env, aut, stack)
            return outs
        m = self.model(inst, bb, callee, args, env, aut, stack)
        if m is not None:
            return m
        # opaque external: may call the closures it was given, any number of times
        e = dict(env)
        states = [(aut, None, e)]
        may = [x for x in callee.may if x.id in self.rel and not spec_is_wrapper(callee.path)]
        for _ in range(2):
            nxt = []
            for a, rv, ee in states:
                for x in may:
                    if spec_stop(self.spec, x):
                        continue
                    for o in self.call_closure(inst, bb, x, args, None, ee, a, stack):
                        nxt.append((o[0], None, o[2]))
            new = [s for s in nxt if not any(s[0] == q[0] for q in states)]
            if not new:
                break
            states += new
        outs = []
        for a, rv, ee in states:
            ee = dict(ee)
            outs.append((a, self.opaque(ee, args), ee))
        return outs

    def call_closure(self, inst, bb, x, args, actual, env, aut, stack):
        """call closure/coroutine instance x found among args (by path) with `actual` argument list"""
        path = x.body.path
        clo = None
        for a in args:
            clo = find_closure(a, path)
            if clo is not None:
                break
        a = list(actual) if actual is not None else [None] * max(0, x.body.argc - 1)
        if "{closure#" in path.rsplit("::", 1)[-1] or x.body.is_coroutine:
            cargs = [clo] + a
        else:
            cargs = a
        cargs = cargs[: x.body.argc] + [None] * max(0, x.body.argc - len(cargs))
        return self.call_inst(inst, bb, x, None, cargs, env, aut, stack)

    def call_inst(self, inst, bb, x, callee, args, env, aut, stack):
        spec = self.spec
        body = x.body
        rel = x.id in self.rel and not spec.stop(x)
        if spec.stop(x) or not rel and len(body.blocks) > spec.inline_blocks:
            e = dict(env)
            return [(aut, self.opaque(e, args), e)]
        args = list(args)
        env = dict(env)
        tmp = None
        decl = callee.declared if callee is not None else None
        last = body.path.rsplit("::", 1)[-1]
        isclo = last.startswith("{closure#")
        if decl and (decl.startswith("std::ops::Fn") or decl.startswith("std::ops::AsyncFn")) and decl.rsplit("::", 1)[-1] in ("call", "call_once", "call_mut"):
            slf = args[0] if args else None
            tup = args[1] if len(args) > 1 else None
            n = body.argc - (1 if isclo else 0)
            if tup is not None and tup[0] == "s":
                al = list(tup[1])
            else:
                al = []
            al = (al + [None] * n)[:n]
            args = ([slf] if isclo else []) + al
        if body.is_coroutine:
            # poll(Pin<&mut coroutine>, ctx)
            c = args[0] if args else None
            c = self.peel(env, c)
            args = [c] + [None] * (body.argc - 1)
        elif isclo and args and args[0] is not None:
            ty = self.p.types[self.p.lty(x, 1)]
            isref = ty.get("k") == "ref" or ty["s"].startswith("&")
            if isref and args[0][0] == "c":
                tmp = ("T", len(stack), bb)
                env[tmp] = args[0]
                args[0] = ("r", tmp, (), 1)
            elif not isref and args[0][0] == "r":
                args[0] = self.peel(env, args[0])
            elif isref and args[0][0] == "r":
                inner = self.read_path(env, args[0][1], args[0][2])
                if inner is not None and inner[0] == "r":
                    args[0] = inner
        args = (args + [None] * body.argc)[: body.argc]
        # canonicalise
        cells, cmap, smap = {}, {}, {}

        def canon(v, d):
            if v is None:
                return None
            k = v[0]
            if k == "r":
                ck = (v[1], v[2])
                if ck not in cmap:
                    if d <= 0:
                        return None
                    name = ("A", len(cmap))
                    cmap[ck] = name
                    cells[name] = None
                    cells[name] = canon(self.read_path(env, v[1], v[2]), d - 1)
                return ("r", cmap[ck], (), v[3])
            if k == "y":
                if v not in smap:
                    smap[v] = ("y", ("P", len(smap)))
                return smap[v]
            if k == "v":
                return ("v", v[1], tuple(canon(z, d - 1) for z in v[2]))
            if k == "s":
                return ("s", tuple(canon(z, d - 1) for z in v[1]))
            if k == "c":
                return ("c", v[1], tuple(canon(z, d - 1) for z in v[2]))
            if k in ("d", "q"):
                b = canon(v[1], d)
                return (k, b, v[2]) if b is not None else None
            if k == "n":
                b = canon(v[1], d)
                return (k, b) if b is not None else None
            return v
        cargs = tuple(trim(canon(a, 4)) for a in args)
        where = "%s:%s (%s)" % (inst.body.file, inst.body.blocks[bb]["t"][-1] if inst.body.blocks[bb]["t"][0] != "call" else inst.body.blocks[bb]["t"][6], inst.body.path)
        if not rel:
            if not self.worth(x, cargs, cells):
                e = dict(env)
                rv = self.opaque(e, args)
                if tmp is not None:
                    e.pop(tmp, None)
                return [(aut, rv, e)]
            if len([1 for s in stack if s == "~"]) > 4:
                e = dict(env)
                return [(aut, self.opaque(e, args), e)]
            outs = self.summary(x, aut, cargs, cells, stack + ("~",))
            if len(outs) > spec.inline_results:
                # too many distinct results from a pure helper: forget them
                e = dict(env)
                rv = self.opaque(e, args)
                if tmp is not None:
                    e.pop(tmp, None)
                return [(aut, rv, e)]
        else:
            outs = self.summary(x, aut, cargs, cells, stack + (where,))
        back = {v: k for k, v in cmap.items()}
        sback = {v: k for k, v in smap.items()}
        res = []
        for o in outs:
            a2, ret, co, po = o
            e = dict(env)
            self.kill_sym(e, lambda u: isinstance(u, tuple) and len(u) > 2 and u[0] == "x" and u[1] == bb)
            ren = {}

            def uncanon(v):
                if v is None:
                    return None
                k = v[0]
                if k == "r":
                    if v[1] in back:
                        kk, pp = back[v[1]]
                        return ("r", kk, tuple(pp) + tuple(v[2]), v[3])
                    return None
                if k == "y":
                    if v in sback:
                        return sback[v]
                    if v not in ren:
                        ren[v] = ("y", ("x", bb, len(ren)))
                    return ren[v]
                if k == "v":
                    return ("v", v[1], tuple(uncanon(z) for z in v[2]))
                if k == "s":
                    return ("s", tuple(uncanon(z) for z in v[1]))
                if k == "c":
                    return ("c", v[1], tuple(uncanon(z) for z in v[2]))
                if k in ("d", "q"):
                    b = uncanon(v[1])
                    return (k, b, v[2]) if b is not None else None
                if k == "n":
                    b = uncanon(v[1])
                    return (k, b) if b is not None else None
                return v
            for cname, val in co.items():
                kk, pp = back[cname]
                self.write_path(e, kk, pp, uncanon(val))
            for s, val in po.items():
                if val != s and s in sback:
                    if val is not None and val[0] in ("k", "v"):
                        self.refine(e, sback[s], uncanon(val))
            rv = uncanon(ret)
            if body.is_coroutine:
                rv = V(0, rv)
            if tmp is not None:
                e.pop(tmp, None)
            res.append((a2, rv, e))
        return res

    def worth(self, x, cargs, cells):
        """is inlining a non-relevant helper useful? only if it returns something trackable or takes refs"""
        n = self.is_enumish(self.p.lty(x, 0))
        if n:
            return True
        if any(c is not None for c in cargs):
            return True
        return False

    def peel(self, env, v):
        for _ in range(4):
            if v is None:
                return None
            if v[0] == "r":
                v = self.read_path(env, v[1], v[2])
            elif v[0] == "s" and len(v[1]) == 1:
                v = v[1][0]
            else:
                break
        return v

    # ---- models of std functions
    def model(self, inst, bb, callee, args, env, aut, stack):
        p = callee.path
        a0 = args[0] if args else None

        def one(v):
            return [(aut, v, env)]
        m = _MODEL.get(p)
        if m is None:
            for rx, fn in _MODEL_RX:
                if rx.search(p):
                    m = fn
                    break
            _MODEL[p] = m or False
        if not m:
            return None
        return m(self, inst, bb, callee, args, env, aut, stack)


def spec_is_wrapper(path):
    return bool(_WRAP.search(path))


def spec_stop(spec, x):
    return spec.stop(x)


_WRAP = re.compile(r"IntoFuture>::into_future$|Pin::<Ptr>::(new_unchecked|new)$|Box::<T>::(pin|new)$|mem::(forget|size_of|drop)|ManuallyDrop")


def find_closure(v, path, d=4):
    if v is None or d < 0:
        return None
    if v[0] == "c":
        if v[1] == path:
            return v
        for x in v[2]:
            r = find_closure(x, path, d - 1)
            if r:
                return r
    if v[0] == "s":
        for x in v[1]:
            r = find_closure(x, path, d - 1)
            if r:
                return r
    if v[0] == "v":
        for x in v[2]:
            r = find_closure(x, path, d - 1)
            if r:
                return r
    return None


# ------------------------------------------------------------------ std models
_MODEL = {}
_MODEL_RX = []


def model(rx):
    def d(fn):
        _MODEL_RX.append((re.compile(rx), fn))
        return fn
    return d


def is_opt(callee):
    s = callee.selfty or ""
    return s.startswith("std::option::Option") or "option::Option" in callee.path.split(" as ")[0]


def split(eng, env, v, variants=(0, 1)):
    """enumerate known variant(s) of an enum value: list of (variant value, env)"""
    if v is not None and v[0] == "v":
        return [(v, env)]
    if v is not None and v[0] == "y":
        r = []
        for i in variants:
            e = dict(env)
            eng.refine(e, v, V(i))
            r.append((V(i, None), e))
        return r
    if v is not None and v[0] == "g":
        return [(V(i, v), dict(env)) for i in variants]
    return [(V(i, None), dict(env)) for i in variants]


def split_ref(eng, env, v, variants=(0, 1)):
    """same for a reference to an enum: also refines the referent"""
    if v is not None and v[0] == "g":
        return [(V(i, v), dict(env)) for i in variants]
    if v is not None and v[0] == "r":
        inner = eng.read_path(env, v[1], v[2])
        if inner is not None and inner[0] == "v":
            return [(inner, env)]
        r = []
        for i in variants:
            e = dict(env)
            if inner is not None and inner[0] == "y":
                eng.refine(e, inner, V(i))
            else:
                eng.write_path(e, v[1], v[2], V(i))
            r.append((V(i, None), e))
        return r
    return [(V(i, None), dict(env)) for i in variants]


def f0(v):
    return v[2][0] if v[2] else None


@model(r"as std::ops::Try>::branch$")
def _branch(eng, inst, bb, callee, args, env, aut, stack):
    opt = is_opt(callee)
    out = []
    if "Poll" in (callee.selfty or ""):
        return None
    for v, e in split(eng, env, args[0]):
        if opt:
            out.append((aut, V(0, f0(v)) if v[1] == 1 else V(1, V(0)), e))
        else:
            out.append((aut, V(0, f0(v)) if v[1] == 0 else V(1, V(1, f0(v))), e))
    return out


@model(r"FromResidual<.*>>::from_residual$|as std::ops::FromResidual>::from_residual$")
def _resid(eng, inst, bb, callee, args, env, aut, stack):
    if is_opt(callee):
        return [(aut, V(0), env)]
    if "Poll" in (callee.selfty or ""):
        return None
    return [(aut, V(1, None), env)]


@model(r"^std::result::Result::<T, E>::(is_ok|is_err)$|^std::option::Option::<T>::(is_some|is_none)$")
def _isok(eng, inst, bb, callee, args, env, aut, stack):
    n = callee.path.rsplit("::", 1)[-1]
    yes = {"is_ok": 0, "is_err": 1, "is_some": 1, "is_none": 0}[n]
    return [(aut, K(int(v[1] == yes)), e) for v, e in split_ref(eng, env, args[0])]


@model(r"^std::(result::Result::<T, E>|option::Option::<T>)::(unwrap|expect|unwrap_unchecked)$")
def _unwrap(eng, inst, bb, callee, args, env, aut, stack):
    good = 1 if "Option" in callee.path else 0
    return [(aut, f0(v), e) for v, e in split(eng, env, args[0]) if v[1] == good]


@model(r"^std::result::Result::<T, E>::(unwrap_err|expect_err)$")
def _unwrap_err(eng, inst, bb, callee, args, env, aut, stack):
    return [(aut, f0(v), e) for v, e in split(eng, env, args[0]) if v[1] == 1]


def clo_call(eng, inst, bb, callee, args, ai, actual, env, aut, stack):
    """call closure argument index ai. -> list of (aut, ret, env)"""
    c = args[ai] if ai < len(args) else None
    for x in callee.may:
        if c is not None and c[0] == "c" and c[1] != x.body.path:
            continue
        if x.id in eng.rel or len(x.body.blocks) <= eng.spec.inline_blocks:
            cargs = [c] + list(actual) if x.body.path.rsplit("::", 1)[-1].startswith("{closure#") else list(actual)
            cargs = (cargs + [None] * x.body.argc)[: x.body.argc]
            return eng.call_inst(inst, bb, x, None, cargs, env, aut, stack)
        e = dict(env)
        eng.havoc(e, c)
        return [(aut, None, e)]
    e = dict(env)
    eng.havoc(e, c)
    return [(aut, None, e)]


@model(r"^std::(result::Result::<T, E>|option::Option::<T>)::(map|and_then|inspect|is_ok_and|is_some_and|is_none_or)$")
def _map(eng, inst, bb, callee, args, env, aut, stack):
    opt = "Option" in callee.path
    n = callee.path.rsplit("::", 1)[-1]
    good = 1 if opt else 0
    out = []
    for v, e in split(eng, env, args[0]):
        if v[1] != good:
            if n in ("is_ok_and", "is_some_and"):
                out.append((aut, FALSE, e))
            elif n == "is_none_or":
                out.append((aut, TRUE, e))
            else:
                out.append((aut, v, e))
            continue
        for a, r, e2 in clo_call(eng, inst, bb, callee, args, 1, [f0(v) if n != "inspect" else None], e, aut, stack):
            if n == "map":
                out.append((a, V(good, r), e2))
            elif n == "inspect":
                out.append((a, v, e2))
            elif n == "and_then":
                if r is None:
                    out.append((a, V(0), e2))
                    out.append((a, V(1), e2))
                else:
                    out.append((a, r, e2))
            else:
                out.append((a, r, e2))
    return out


@model(r"Iterator>::(all|any|find|position|for_each|try_for_each)$|^std::iter::Iterator::(all|any|find|position|for_each|try_for_each)$")
def _iter_consume(eng, inst, bb, callee, args, env, aut, stack):
    n = callee.path.rsplit("::", 1)[-1]
    c = args[1] if len(args) > 1 else None
    rel = [x for x in callee.may if x.id in eng.rel and not eng.spec.stop(x)]
    if not rel or c is None or c[0] != "c" or any(x.body.path != c[1] for x in rel):
        return None
    good = None
    if n == "try_for_each":
        rt = eng.p.tys(eng.p.lty(rel[0], 0))
        good = 0 if rt.startswith(("std::result::Result", "std::ops::ControlFlow")) else 1 if rt.startswith("std::option::Option") else None
        if good is None:
            return None
    end = {"all": TRUE, "any": FALSE, "find": V(0), "position": V(0), "for_each": None}.get(n) if n != "try_for_each" else V(good, None)
    stopv = {"all": FALSE, "any": TRUE, "find": V(1, None), "position": V(1, None)}.get(n)
    going, out, wl = [(aut, env)], [], [(aut, env)]
    for _ in range(4):
        nxt = []
        for a, e in wl:
            e = dict(e)
            eng.havoc(e, args[0])
            for a2, r, e2 in clo_call(eng, inst, bb, callee, args, 1, [None], e, a, stack):
                if n == "for_each":
                    go, halt = True, None
                elif n == "try_for_each":
                    go = r is None or r[0] != "v" or r[1] == good
                    halt = (r if r is not None and r[0] == "v" else V(1 - good, None)) if r is None or r[0] != "v" or r[1] != good else None
                else:
                    k = r[1] if r is not None and r[0] == "k" else None
                    want = 1 if n == "all" else 0
                    go = k is None or int(k) == want
                    halt = stopv if k is None or int(k) != want else None
                if halt is not None:
                    out.append((a2, halt, e2))
                if go and (a2, e2) not in going:
                    going.append((a2, e2))
                    nxt.append((a2, e2))
        wl = nxt
        if not wl:
            break
    for a, e in going:
        e = dict(e)
        eng.havoc(e, args[0])
        out.append((a, end, e))
    return out


@model(r"^std::result::Result::<T, E>::(map_err|or_else|inspect_err|unwrap_or_else|unwrap_or_default|unwrap_or)$")
def _map_err(eng, inst, bb, callee, args, env, aut, stack):
    n = callee.path.rsplit("::", 1)[-1]
    out = []
    for v, e in split(eng, env, args[0]):
        if v[1] == 0:
            out.append((aut, v if n in ("map_err", "or_else", "inspect_err") else f0(v), e))
            continue
        if n == "unwrap_or":
            out.append((aut, args[1], e))
            continue
        if n == "unwrap_or_default":
            out.append((aut, None, e))
            continue
        for a, r, e2 in clo_call(eng, inst, bb, callee, args, 1, [f0(v) if n != "inspect_err" else None], e, aut, stack):
            if n == "map_err":
                out.append((a, V(1, r), e2))
            elif n == "inspect_err":
                out.append((a, v, e2))
            elif n == "or_else":
                if r is None:
                    out += [(a, V(0), e2), (a, V(1), e2)]
                else:
                    out.append((a, r, e2))
            else:
                out.append((a, r, e2))
    return out


@model(r"^std::option::Option::<T>::(ok_or|ok_or_else|unwrap_or|unwrap_or_else|unwrap_or_default|or_else|or|map_or|map_or_else)$|^std::result::Result::<T, E>::(map_or|map_or_else)$")
def _okor(eng, inst, bb, callee, args, env, aut, stack):
    n = callee.path.rsplit("::", 1)[-1]
    opt = "Option" in callee.path
    good = 1 if opt else 0
    out = []
    for v, e in split(eng, env, args[0]):
        if v[1] == good:
            if n in ("ok_or", "ok_or_else"):
                out.append((aut, V(0, f0(v)), e))
            elif n in ("or_else", "or"):
                out.append((aut, v, e))
            elif n in ("map_or", "map_or_else"):
                out += clo_call(eng, inst, bb, callee, args, 2, [f0(v)], e, aut, stack)
            else:
                out.append((aut, f0(v), e))
        else:
            if n == "ok_or":
                out.append((aut, V(1, args[1]), e))
            elif n in ("unwrap_or", "or", "map_or"):
                out.append((aut, args[1], e))
            elif n == "unwrap_or_default":
                out.append((aut, None, e))
            else:
                for a, r, e2 in clo_call(eng, inst, bb, callee, args, 1, [f0(v)] if not opt else [], e, aut, stack):
                    out.append((a, V(1, r) if n == "ok_or_else" else r, e2))
    return out


@model(r"^std::result::Result::<T, E>::(ok|err)$")
def _ok(eng, inst, bb, callee, args, env, aut, stack):
    want = 0 if callee.path.endswith("::ok") else 1
    return [(aut, V(1, f0(v)) if v[1] == want else V(0), e) for v, e in split(eng, env, args[0])]


@model(r"^std::(option::Option::<T>|result::Result::<T, E>)::(as_ref|as_mut|as_deref|as_deref_mut)$")
def _asref(eng, inst, bb, callee, args, env, aut, stack):
    out = []
    a = args[0]
    for v, e in split_ref(eng, env, a):
        if v[2] and a is not None and a[0] == "r" and "deref" not in callee.path.rsplit("::", 1)[-1]:
            out.append((aut, V(v[1], ("r", a[1], tuple(a[2]) + (("d", v[1]), ("f", 0)), a[3])), e))
        else:
            out.append((aut, V(v[1], None), e))
    return out


@model(r"^std::option::Option::<&T>::(cloned|copied)$|^std::option::Option::<&mut T>::(cloned|copied)$")
def _cloned(eng, inst, bb, callee, args, env, aut, stack):
    return [(aut, V(v[1], None), e) for v, e in split(eng, env, args[0])]


@model(r"^std::option::Option::<T>::take$|^std::mem::(take|replace)$|^std::option::Option::<T>::replace$")
def _take(eng, inst, bb, callee, args, env, aut, stack):
    a = args[0]
    e = dict(env)
    old = None
    n = callee.path
    if a is not None and a[0] == "r":
        old = eng.read_path(e, a[1], a[2])
        new = None
        if n.endswith("Option::<T>::take"):
            new = V(0)
        elif n.endswith("mem::replace"):
            new = args[1]
        elif n.endswith("Option::<T>::replace"):
            new = V(1, args[1])
        eng.write_path(e, a[1], a[2], new)
    return [(aut, old, e)]


@model(r"^core::bool::<impl bool>::(then|then_some)$")
def _then(eng, inst, bb, callee, args, env, aut, stack):
    out = []
    b = args[0]
    some = callee.path.endswith("then_some")
    cases = []
    if b is not None and b[0] == "k":
        cases = [(b[1], env)]
    else:
        for x in (0, 1):
            e = dict(env)
            if b is not None and b[0] == "y":
                eng.refine(e, b, K(x))
            elif b is not None and b[0] == "n" and b[1][0] == "y":
                eng.refine(e, b[1], K(1 - x))
            cases.append((x, e))
    for x, e in cases:
        if not x:
            out.append((aut, V(0), e))
        elif some:
            out.append((aut, V(1, args[1]), e))
        else:
            for a, r, e2 in clo_call(eng, inst, bb, callee, args, 1, [], e, aut, stack):
                out.append((a, V(1, r), e2))
    return out


@model(r"IntoFuture>::into_future$|Pin::<Ptr>::new_unchecked$|Pin::<Ptr>::new$|^std::convert::identity$|^std::hint::(black_box|must_use)$|^std::intrinsics::(transmute|likely|unlikely|black_box)$|^std::mem::ManuallyDrop::<T>::(new|into_inner)$|^<I as std::iter::IntoIterator>::into_iter$")
def _ident(eng, inst, bb, callee, args, env, aut, stack):
    return [(aut, args[0], env)]


@model(r"as std::ops::(Deref|Index)>::deref$|as std::ops::DerefMut>::deref_mut$|as std::ops::Index(Mut)?<.*>>::index(_mut)?$|^std::ops::Index(Mut)?::index(_mut)?$|<impl std::ops::Index(Mut)?<.*> for .*>::index(_mut)?$|::(as_slice|as_mut_slice|as_bytes|as_ref|as_mut|borrow|borrow_mut|get_unchecked|get_unchecked_mut|as_ptr|as_mut_ptr|cast|cast_mut|cast_const|from_ref|from_mut|from_raw_parts|from_raw_parts_mut)$")
def _view(eng, inst, bb, callee, args, env, aut, stack):
    """with provenance: a view of a container stands for the container"""
    if "option::Option" in callee.path or "result::Result" in callee.path:
        return None
    if eng.spec.tagging and args and args[0] is not None and args[0][0] in ("r", "g"):
        if eng.spec.index_tags and len(args) > 1 and eng.tags(env, args[1]):
            return [(aut, eng.union(env, args), env)]
        return [(aut, args[0], env)]
    return None


@model(r"^std::ops::Fn(Once|Mut)?::call|as std::ops::Fn(Once|Mut)?<.*>>::call")
def _fncall(eng, inst, bb, callee, args, env, aut, stack):
    return None


@model(r"^std::clone::Clone::clone$|as std::clone::Clone>::clone$|^std::clone::impls::<impl std::clone::Clone for .*>::clone$")
def _clone(eng, inst, bb, callee, args, env, aut, stack):
    a = args[0]
    if a is not None and a[0] == "r":
        v = eng.read_path(env, a[1], a[2])
        if eng.spec.tagging and eng.union(env, (v,)) is not None:
            return [(aut, v if v[0] in ("v", "s") else eng.union(env, (v,)), env)]
        if v is not None and v[0] in ("k", "v", "y"):
            return [(aut, v if v[0] != "v" else V(v[1], *[x if x and x[0] in ("k", "v") else None for x in v[2]]), env)]
    return [(aut, a if a is not None and a[0] == "g" else None, env)]


@model(r"^std::thread::LocalKey::<T>::with$|^std::panic::catch_unwind$")
def _with(eng, inst, bb, callee, args, env, aut, stack):
    ai = len(args) - 1
    outs = clo_call(eng, inst, bb, callee, args, ai, [None], env, aut, stack)
    if callee.path.endswith("catch_unwind"):
        return [(a, V(0, r), e) for a, r, e in outs] + [(aut, V(1, None), dict(env))]
    return outs


@model(r"^core::panicking::|^std::rt::begin_panic|^std::process::exit$|^std::process::abort$|^std::hint::unreachable_unchecked$|^std::rt::panic")
def _diverge(eng, inst, bb, callee, args, env, aut, stack):
    return []


@model(r"^std::cmp::Partial(Eq|Ord)::(eq|ne|lt|le|gt|ge)$|as std::cmp::Partial(Eq|Ord)(<.*>)?>::(eq|ne|lt|le|gt|ge)$|^(?:core|std|alloc)::.*::<impl std::cmp::Partial(Eq|Ord).* for .*>::(eq|ne|lt|le|gt|ge)$")
def _eq(eng, inst, bb, callee, args, env, aut, stack):
    vs = []
    for a in args[:2]:
        for _ in range(3):
            if a is not None and a[0] == "r":
                a = eng.read_path(env, a[1], a[2])
            elif a is not None and a[0] == "bx":
                a = a[1]
        vs.append(a)
    op = callee.path.rsplit("::", 1)[-1]
    if op in ("eq", "ne"):
        if len(vs) == 2 and all(v is not None and v[0] in ("k",) for v in vs):
            r = vs[0][1] == vs[1][1]
            if op == "ne":
                r = not r
            return [(aut, K(int(r)), env)]
        if len(vs) == 2 and all(v is not None and v[0] == "v" for v in vs) and vs[0][1] != vs[1][1]:
            return [(aut, K(int(op == "ne")), env)]
    if eng.spec.tagging and len(vs) == 2 and any(eng.union(env, (v,)) for v in vs):
        return [(aut, ("cmp", CMPFN[op], eng.tags(env, vs[0]), eng.tags(env, vs[1])), env)]
    return [(aut, None, env)]
