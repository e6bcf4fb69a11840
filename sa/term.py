"""What a small function computes, as terms over its inputs.

The function's instructions are followed from the entry on symbolic inputs, calls of functions whose bodies are at hand
included; where a branch cannot be decided from the assumptions, both sides are followed.  Integers are kept as linear
sums, so that different ways to write one come out the same.  A function that loops, or does something that is not
covered here, gives None.
"""

LIM = 64


def lin(c=0, **a):
    return ("lin", (), c)


def atom(x):
    return ("lin", ((x, 1),), 0)


def add(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = d.get(k, 0) + s * v
    return ("lin", tuple(sorted(((k, v) for k, v in d.items() if v), key=repr)), a[2] + s * b[2])


def num(n):
    return ("lin", (), n)


class Fail(Exception):
    pass


class Fork(Exception):
    """a boolean is used as a number: both values are followed"""


class Path:
    def __init__(self, store, facts, truth):
        self.store, self.facts, self.truth = store, facts, truth
        self.fix = {}

    def copy(self):
        q = Path(dict(self.store), list(self.facts), dict(self.truth))
        q.fix = dict(self.fix)
        return q


class Terms:
    """`views`: functions whose calls are not followed but kept as terms (regex matched on the path)"""

    def __init__(self, prog, views=None, facts=(), consts=None):
        self.p, self.views, self.base = prog, views, list(facts)
        self.n = 0

    # ---- linear facts: each is a sum known to be >= 0
    def ge0(self, pa, x):
        if not x[1]:
            return x[2] >= 0
        fs = self.base + pa.facts
        for f in fs:
            d = add(x, f, -1)
            if not d[1] and d[2] >= 0:
                return True
            e = add(x, f)
            if not e[1] and e[2] < 0:
                return False
        for i, f in enumerate(fs):
            for g in fs[i:]:
                d = add(add(x, f, -1), g, -1)
                if not d[1] and d[2] >= 0:
                    return True
                e = add(add(x, f), g)
                if not e[1] and e[2] < 0:
                    return False
        return None

    def cmp(self, pa, op, a, b):
        if a is None or b is None or a[0] != "lin" or b[0] != "lin":
            if a is not None and b is not None and a[0] == b[0] == "b":
                raise Fail("comparison of booleans")
            return ("b", ("app", op, (a, b)))
        d = add(a, b, -1)
        if op in ("Eq", "Ne"):
            g, l = self.ge0(pa, d), self.ge0(pa, add(num(0), d, -1))
            r = True if g and l else False if g is False or l is False else None
            if r is None:
                k = ("eq", min(d, add(num(0), d, -1), key=repr))
                if k in pa.truth:
                    r = pa.truth[k]
            if r is None:
                return ("b", k) if op == "Eq" else ("b", ("not", k))
            return num(int(r == (op == "Eq")))
        x = {"Ge": d, "Gt": add(d, num(-1)), "Le": add(num(0), d, -1), "Lt": add(num(-1), d, -1)}[op]
        r = self.ge0(pa, x)
        return ("b", ("ge", x)) if r is None else num(int(r))

    def boolean(self, pa, v):
        """[(path, truth)]"""
        if v is not None and v[0] == "lin" and not v[1]:
            return [(pa, bool(v[2]))]
        if v is not None and v[0] == "b":
            k, neg = v[1], False
            while k[0] == "not":
                k, neg = k[1], not neg
            if k[0] in ("and", "or"):
                out = []
                for q, t in self.boolean(pa, ("b", k[1])):
                    if t == (k[0] == "or"):
                        out.append((q, t))
                    else:
                        out += self.boolean(q, ("b", k[2]))
                return [(q, t != neg) for q, t in out]
            if k in pa.truth:
                return [(pa, pa.truth[k] != neg)]
            out = []
            for t in (True, False):
                q = pa.copy()
                q.truth[k] = t
                if k[0] == "ge":
                    r = self.ge0(q, k[1])
                    if r is not None and r != t:
                        continue
                    q.facts.append(k[1] if t else add(num(-1), k[1], -1))
                elif k[0] == "eq" and t:
                    q.facts += [k[1], add(num(0), k[1], -1)]
                out.append((q, t != neg))
            return out
        raise Fail("branch on %r" % (v,))

    # ---- places
    def place(self, pa, env, pl):
        """(kind, key) of a place: ('l', local, projs) or ('m', path)"""
        cur = ("l", pl[0], ())
        for e in pl[1:]:
            if e == "*":
                v = self.load(pa, env, cur)
                if v is None or v[0] != "ptr":
                    raise Fail("deref of %r" % (v,))
                cur = ("m", v[1])
            elif isinstance(e, dict) and "f" in e:
                cur = cur[:-1] + (cur[-1] + (e.get("n", e["f"]),),)
            elif isinstance(e, dict) and "i" in e:
                i = env.get((e["i"],))
                cur = cur[:-1] + (cur[-1] + (("at", i),),)
            elif isinstance(e, dict) and "d" in e:
                cur = cur[:-1] + (cur[-1] + (("as", e["d"]),),)
            else:
                raise Fail("projection %r" % (e,))
        return cur

    def load(self, pa, env, c):
        if c[0] == "l":
            k = (c[1],) + c[2]
            if k in env:
                return env[k]
            for n in range(len(k) - 1, 0, -1):
                if k[:n] in env and env[k[:n]] is not None and env[k[:n]][0] == "tup":
                    v = env[k[:n]]
                    for x in k[n:]:
                        if v is None or v[0] != "tup" or not str(x).isdigit() or int(x) >= len(v[1]):
                            return None
                        v = v[1][int(x)]
                    return v
            return None
        if c[1] in pa.store:
            return pa.store[c[1]]
        return self.input(c[1])

    def input(self, path):
        return atom(path)

    def value(self, pa, env, o, inst):
        if "k" in o:
            k = o["k"]
            if isinstance(k.get("v"), (int, bool)):
                return num(int(k["v"]))
            if k.get("g") or k.get("p"):
                for n, v in inst.consts or []:
                    if n in (k.get("p"), k.get("name")):
                        return num(int(v))
            return ("const", repr(sorted(k.items(), key=repr)))
        return self.load(pa, env, self.place(pa, env, o.get("c", o.get("m"))))

    def rvalue(self, pa, env, rv, inst):
        k = rv[0]
        if k == "use":
            return self.value(pa, env, rv[1], inst)
        if k in ("ref", "rawptr"):
            c = self.place(pa, env, rv[2])
            if c[0] == "m":
                return ("ptr", c[1])
            v = self.load(pa, env, c)
            key = ("tmp", c[1], c[2], self.depth)
            pa.store[key] = v
            return ("ptr", key)
        if k == "un" and rv[1] == "PtrMetadata":
            v = self.value(pa, env, rv[2], inst)
            return atom(("len", self.slice_of(pa, v)))
        if k == "un" and rv[1] == "Not":
            v = self.value(pa, env, rv[2], inst)
            if v is not None and v[0] == "lin" and not v[1]:
                return num(1 - v[2])
            if v is not None and v[0] == "b":
                return ("b", ("not", v[1])) if v[1][0] != "not" else ("b", v[1][1])
            raise Fail("not")
        if k == "len":
            return atom(("len", self.place(pa, env, rv[1])[1]))
        if k == "cast":
            v = self.value(pa, env, rv[2], inst)
            if v is not None and v[0] == "b":
                if v in pa.fix:
                    return num(int(pa.fix[v]))
                raise Fork(v)
            return v
        if k == "bin":
            op = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
            a, b = self.value(pa, env, rv[2], inst), self.value(pa, env, rv[3], inst)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return self.cmp(pa, op, a, b)
            if op in ("Add", "Sub") and a is not None and b is not None and a[0] == b[0] == "lin":
                r = add(a, b, 1 if op == "Add" else -1)
                return ("tup", (r, num(0))) if "WithOverflow" in rv[1] else r
            if op in ("BitAnd", "BitOr"):
                zero = op == "BitAnd"
                for x, y in ((a, b), (b, a)):
                    if x is not None and x[0] == "lin" and not x[1] and x[2] in (0, 1):
                        return (num(0) if zero else y) if x[2] == 0 else (y if zero else num(1))
                if a is not None and b is not None and a[0] == b[0] == "b":
                    return ("b", ("and" if zero else "or", a[1], b[1]))
            raise Fail("%s of %r and %r" % (rv[1], a, b))
        if k == "agg":
            d = rv[1]
            vs = tuple(self.value(pa, env, x, inst) for x in rv[2])
            if d == "tuple" or isinstance(d, dict) and d.get("adt") in ("std::ops::RangeFrom", "std::ops::Range", "std::ops::RangeTo"):
                return ("tup", vs) if d == "tuple" else ("rng", d["adt"].rsplit("::", 1)[-1], vs)
            if isinstance(d, dict) and "adt" in d:
                return ("agg", d["adt"], d.get("v"), vs)
        raise Fail("rvalue %r" % (rv,))

    def slice_of(self, pa, v):
        return v[1] if v is not None and v[0] == "ptr" else v

    # ---- calls and paths
    def run(self, inst, args, pa=None):
        """[(path, return value)]"""
        self.depth = 0
        self.n = 0
        return self.func(inst, args, pa or Path({}, [], {}))

    def func(self, inst, args, pa):
        self.depth += 1
        if self.depth > 8:
            raise Fail("depth")
        env = {(k + 1,): v for k, v in enumerate(args)}
        out = []
        todo = [(0, env, pa, frozenset())]
        while todo:
            bb, env, pa, seen = todo.pop()
            self.n += 1
            if bb in seen or self.n > 4000 or len(out) > LIM:
                raise Fail("loop")
            seen = seen | {bb}
            b = inst.body.blocks[bb]
            env0, pa0 = dict(env), pa.copy()
            try:
                for st in b["s"]:
                    if st[0] == "=":
                        v = self.rvalue(pa, env, st[2], inst)
                        c = self.place(pa, env, st[1])
                        if c[0] == "l":
                            env[(c[1],) + c[2]] = v
                        else:
                            pa.store[c[1]] = v
                    elif st[0] not in ("live", "dead", "nop"):
                        raise Fail("statement %s" % st[0])
            except Fork as e:
                for q, tr in self.boolean(pa0, e.args[0]):
                    e2 = {k: (num(int(tr)) if v == e.args[0] else v) for k, v in env0.items()}
                    q = q.copy()
                    q.fix = dict(pa0.fix)
                    q.fix[e.args[0]] = tr
                    todo.append((bb, e2, q, seen - {bb}))
                continue
            t = b["t"]
            if t[0] in ("goto",):
                todo.append((t[1], env, pa, seen))
            elif t[0] == "assert":
                todo.append((t[4] if False else self.after_assert(t), env, pa, seen))
            elif t[0] == "drop":
                todo.append((t[2], env, pa, seen))
            elif t[0] == "ret":
                out.append((pa, env.get((0,))))
            elif t[0] == "switch":
                v = self.value(pa, env, t[1], inst)
                if v is not None and v[0] == "lin" and not v[1]:
                    nx = [x for n, x in t[2] if n == v[2]]
                    todo.append((nx[0] if nx else t[3], env, pa, seen))
                elif len(t[2]) == 1 and t[2][0][0] in (0, 1):
                    if v is not None and v[0] == "lin":
                        v = self.cmp(pa, "Eq", v, num(1))
                    for q, tr in self.boolean(pa, v):
                        todo.append((t[2][0][1] if int(tr) == t[2][0][0] else t[3], dict(env), q, seen))
                else:
                    raise Fail("switch")
            elif t[0] == "call":
                c = self.p.callee(inst, bb)
                av = [self.value(pa, env, a, inst) for a in t[2]]
                if t[4] is None:
                    continue
                for q, r in self.do(c, av, pa):
                    e = dict(env)
                    d = self.place(q, e, t[3])
                    if d[0] == "l":
                        e[(d[1],) + d[2]] = r
                    else:
                        q.store[d[1]] = r
                    todo.append((t[4], e, q, seen))
            elif t[0] in ("unreachable", "resume"):
                continue
            else:
                raise Fail("terminator %s" % t[0])
        self.depth -= 1
        return out

    @staticmethod
    def after_assert(t):
        return t[4] if isinstance(t[4], int) else t[3] if isinstance(t[3], int) and t[3] > 2 else t[4]

    def do(self, c, args, pa):
        p = c.path or ""
        d = c.declared or p
        if p.endswith("<impl [T]>::len"):
            return [(pa, atom(("len", self.slice_of(pa, args[0]))))]
        if d in ("std::cmp::min", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::Ord::max"):
            out = []
            for q, t in self.boolean(pa, self.cmp(pa, "Le", args[0], args[1])):
                out.append((q, args[0] if t == d.endswith("min") else args[1]))
            return out
        if d in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            k = ("app", "eq", tuple(sorted((self.deref(pa, a) for a in args), key=repr)))
            return [(pa, ("b", k) if d.endswith("eq") else ("b", ("not", k)))]
        if d == "std::ops::Index::index" and args[1] is not None:
            base = self.slice_of(pa, args[0])
            if args[1][0] == "rng" and args[1][1] == "RangeFrom":
                return [(pa, ("ptr", base + (("from", args[1][2][0]),)))]
            if args[1][0] == "rng" and args[1][1] == "Range":
                return [(pa, ("ptr", base + (("from", args[1][2][0]), ("upto", args[1][2][1]))))]
            if args[1][0] == "lin":
                return [(pa, ("ptr", base + (("at", args[1]),)))]
        if self.views and self.views.search(p):
            return [(pa, ("b", ("app", p.rsplit("::", 1)[-1], tuple(self.deref(pa, a) for a in args[-1:]))))]
        if c.inst is not None:
            return self.func(c.inst, args, pa)
        raise Fail("call of " + p)

    def deref(self, pa, a):
        if a is not None and a[0] == "ptr":
            v = pa.store.get(a[1])
            return v if v is not None else ("in", a[1])
        return a


def outcomes(t, inst, args, pa, fields):
    """[(decisions, return, {field: value})]; booleans are decided"""
    res = []
    for pa, r in t.run(inst, args, pa):
        todo = [(pa, r)]
        if r is not None and r[0] == "b":
            todo = [(q, num(int(x))) for q, x in t.boolean(pa, r)]
        for f in fields:
            nx = []
            for q, rr in todo:
                v = q.store.get(f)
                if v is not None and v[0] == "b":
                    for q2, x in t.boolean(q, v):
                        q2 = q2.copy()
                        q2.store[f] = num(int(x))
                        nx.append((q2, rr))
                else:
                    nx.append((q, rr))
            todo = nx
        for q, rr in todo:
            res.append((q, rr, {f: q.store.get(f, atom(f)) for f in fields}))
    return res
