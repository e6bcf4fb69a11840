"""Type checks of cells, the operators of UPDATE and the key of a WHERE clause (C13)."""
import re
import struct
from .engine import Spec, Outcome, V, K, G, TRUE, FALSE, conds
from .dml import CELL, bare

FIELD = "engine::core::model::Field"
LAYER = "engine::core::model::Layer"
NUM = {"UnsignedInt": ("uint", "UIntSpec"), "SignedInt": ("sint", "SIntSpec"), "Float": ("float", "FloatSpec")}
ACC = {"Bool": "bool", "UnsignedInt": "uint", "SignedInt": "sint", "Float": "float", "Bin": "bin", "Str": "str", "List": "list"}


def sig(prog, inst):
    return tuple(re.sub(r"'\w+ ", "", prog.tys(prog.lty(inst, k))) for k in range(0, inst.body.argc + 1))


def is_vt(prog, inst):
    s = sig(prog, inst)
    if inst.body.path.rsplit("::", 1)[-1].startswith("{closure#") and len(s) >= 3:
        s = (s[0],) + s[2:]
    return s[0] == "bool" and len(s) == 3 and s[1] == LAYER and s[2] == "&mut " + CELL


def is_rvt(prog, inst):
    s = sig(prog, inst)
    return s[0] == "bool" and len(s) == 3 and s[1] in ("&[%s]" % LAYER,) and s[2] == "&mut " + CELL


def fnptr_sig_vt(prog, inst, bb):
    """an indirect call with arguments (Layer, &mut Datacell)"""
    t = inst.body.blocks[bb]["t"]
    d = t[3]
    if len(d) != 1 or prog.tys(prog.lty(inst, d[0])) != "bool" or len(t[2]) != 2:
        return False
    ts = []
    for o in t[2]:
        pl = o.get("m") or o.get("c")
        if not pl or len(pl) != 1:
            return False
        ts.append(re.sub(r"'\w+ ", "", prog.tys(prog.lty(inst, pl[0]))))
    return ts == [LAYER, "&mut " + CELL]


class Valid(Spec):
    """(a) the functions that decide whether a value is valid for a field.
    aut = (nullable, null, same class, single layer, field is list, cell is list, called, bad, in an element, elements done, element checks)"""
    name = "valid"
    tagging = True
    index_tags = True
    START = (None, None, None, 0, None, None, 0, 0, 0, 0, 0)
    field_tags = {(FIELD, "nullable"): "nullable", (FIELD, "layers"): "layers", (LAYER, "tag"): "ltag"}

    def __init__(self, prog, root, table, classes):
        super().__init__(prog)
        self.root, self.table, self.classes = root, table, classes
        self._rel = set(prog.insts)
        self.n = {"type": 0, "elem": 0, "true": 0}

    def stop(self, inst):
        return bool(re.search(r"::layertrace$|^engine::mem|^engine::data::cell::Datacell::(?!kind|is_)", inst.body.path))

    def en(self, ctx, i, ret=lambda b: TRUE if b else FALSE):
        a = ctx.aut
        out = []
        for b in (0, 1):
            if a[i] in (None, b):
                out.append(Outcome(a[:i] + (b,) + a[i + 1:], ret(b)))
        return out

    def is_event_call(self, c):
        return False

    def on_call(self, ctx, c, args):
        eng, env, a = ctx.eng, ctx.env, ctx.aut
        p = c.path or ""
        d = c.declared or p
        key = self.root
        if re.search(r"model::Field::is_nullable$", p):
            return self.en(ctx, 0)
        if re.search(r"Datacell::is_null$", p) and "cell" in eng.tags(env, args[0]):
            return self.en(ctx, 1)
        if re.search(r"Datacell::is_init$", p) and "cell" in eng.tags(env, args[0]):
            return self.en(ctx, 1, lambda b: FALSE if b else TRUE)
        m = re.search(r"PartialEq(?:<.*>)?(?:>)?::(eq|ne)$", d)
        if m and (c.ga or "").startswith('["engine::data::tag::TagClass"'):
            ts = [eng.tags(env, x) for x in args]
            if not (any("layers" in t or "ltag" in t for t in ts) and any("cell" in t for t in ts)):
                return None
            eq = m.group(1) == "eq"
            return self.en(ctx, 2, lambda b: TRUE if bool(b) == eq else FALSE)
        if re.search(r"Datacell::kind$", p):
            return [Outcome(a, G("cell", "kind"))]
        if re.search(r"ops::Index::index$|slice::Index.*::index$|<impl \[T\]>::(split_first|split_at|get)$", d) and LAYER in (c.ga or "") + (c.selfty or ""):
            t = eng.tags(env, args[0])
            if "Range" in (c.ga or ""):
                r = args[1]
                st = r[1][0] if r is not None and r[0] == "s" and r[1] and "RangeFrom" in c.ga else None
                if st == ("k", 0):
                    return [Outcome(a, G(*t))]
                return [Outcome(a, G(*(t | {"sub" if st == ("k", 1) and "sub" not in t else "subx"})))]
            if re.search(r"::split_first$", d):
                return [Outcome(a, V(1, ("s", (G(*t), G(*(t | {"subx" if "sub" in t else "sub"})))))), Outcome(a, V(0))]
            return None
        vt = (c.inst is not None and is_vt(self.prog, c.inst)) or (c.fnptr and fnptr_sig_vt(self.prog, ctx.inst, ctx.bb))
        if vt:
            self.n["type"] += 1
            ids = None
            if c.inst is not None:
                ids = [i for i, x in enumerate(self.table) if x == c.inst.id]
                it = frozenset()
            else:
                fv = eng.operand(env, ctx.inst.body.blocks[ctx.bb]["t"][1], ctx.inst)
                it = eng.tags(env, fv)
                if fv is not None and fv[0] == "fn":
                    ids = [i for i, x in enumerate(self.table) if x == fv[1]]
                elif fv is None or fv[0] != "g":
                    it = frozenset()
            if ids is not None and all(i >= len(self.classes) for i in ids) and ids:
                return [Outcome(a, FALSE)]
            lt, ct = eng.tags(env, args[0]), eng.tags(env, args[-1])
            if "cell" not in ct or ("layers" not in lt and "ltag" not in lt) or "sub" in lt or "subx" in lt:
                ctx.report("other-check:" + key, "a value is checked against another layer than its own")
            if a[1] == 1 and a[0] != 1:
                ctx.report("null:" + key, "a null is accepted for a field that is not nullable")
            if a[1] != 1:
                if ids is not None:
                    names = [self.classes[i] for i in ids if i < len(self.classes)]
                    if names != ["List"] or a[4] != 1 or a[5] != 1:
                        ctx.report("class:" + key, "a value is checked as %s without that being its class" % "/".join(names))
                else:
                    if "cell" not in it and "ltag" not in it and "layers" not in it:
                        ctx.report("class:" + key, "the check applied to a value is not chosen by its class")
                    if a[2] != 1:
                        ctx.report("class:" + key, "a value is accepted whose class is not known to be that of the field")
                    if not a[3] and a[4] != 0 and a[5] != 0:
                        ctx.report("elements:" + key, "a list is accepted without its elements being checked")
            b = a[:6] + (1,) + a[7:]
            return [Outcome(b, TRUE), Outcome(b[:7] + (1,) + b[8:], FALSE)]
        if c.inst is not None and is_rvt(self.prog, c.inst):
            lt, ct = eng.tags(env, args[0]), eng.tags(env, args[1])
            if "cell" not in ct or "layers" not in lt or "subx" in lt:
                ctx.report("other-check:" + key, "a value is checked against layers that are not its field's")
            if "sub" in lt and self.root != "vt_list_element":
                self.n["elem"] += 1
                b = a[:8] + (0, a[9], 1)
            else:
                if self.root == "vt_list_element" and "sub" not in lt:
                    ctx.report("other-check:" + key, "an element is checked against the type of the list")
                if self.root == "vt_data_fpath" and a[1] != 0:
                    ctx.report("null:" + key, "a null is checked as if it were a value")
                if self.root == "rvt":
                    ctx.report("other-check:" + key, "an element of a list is checked against the type of the list")
                b = a[:6] + (1,) + a[7:]
            return [Outcome(b, TRUE), Outcome(b[:7] + (1,) + b[8:], FALSE)]
        if re.search(r"Iterator>?::next$", d) and CELL in (c.selfty or "") + str(c.t0) and "cell" in eng.tags(env, args[0]):
            return self.step(ctx, True, V(1, G("cell"))) + self.step(ctx, False, V(0))
        if re.search(r"Iterator>?::all$", d) and CELL in (c.selfty or "") + str(c.t0):
            cl = args[1]
            out = []
            for m in c.may:
                if cl is not None and cl[0] == "c" and m.body.path == cl[1]:
                    st = a[:8] + (1,) + a[9:]
                    for o in eng.call_closure(ctx.inst, ctx.bb, m, args, [G("cell")], env, st, ctx.stack):
                        x = o[0]
                        if x[8]:
                            ctx.report("element-skipped:" + key, "an element of a list is not checked")
                        t = o[1] is not None and o[1] == TRUE
                        out.append(Outcome(x[:8] + (0, 1 if t else x[9], x[10]), o[1]))
            out.append(Outcome(a[:9] + (1, 1), TRUE))
            return out
        return None

    def step(self, ctx, more, ret=None):
        a = ctx.aut
        if a[8]:
            ctx.report("element-skipped:" + self.root, "an element of a list is not checked")
        return [Outcome(a[:8] + (1 if more else 0, a[9] if more else 1, a[10]), ret)]

    def on_branch(self, ctx, op, x, y):
        a = ctx.aut
        for s, t, o in ((x, y, op), (y, x, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
            if "nullable" in s and bare(s) == {"nullable"} and o == "Eq" and t in ({"#1"}, {"#0"}):
                v = int("#1" in t)
                a = (v,) + a[1:]
            if ("layers" in s or "field" in s) and "#1" in t and o in ("Eq", "Le", "Lt") and "kind" not in s:
                a = a[:3] + (1,) + a[4:]
            n = self.classes.index("List")
            if "#%d" % n in t and o in ("Eq", "Ne"):
                if "kind" in s:
                    a = a[:5] + (int(o == "Eq"),) + a[6:]
                elif "layers" in s or "ltag" in s:
                    a = a[:4] + (int(o == "Eq"),) + a[5:]
            if "cell" in t and "kind" not in t and "cell" not in s and self.root == "rvt" and a[4] == 1:
                ctx.aut = a
                if o in ("Lt", "Ne"):
                    a = self.step(ctx, True)[0].aut
                elif o in ("Ge", "Eq"):
                    a = self.step(ctx, False)[0].aut
        return a

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        a = ctx.aut
        if ret == FALSE:
            return None
        self.n["true"] += 1
        if ret != TRUE and (ret is None or ret[0] != "k"):
            ctx.report("outcome-lost:" + self.root, "whether a value is valid is not what its checks say")
            return None
        if a[7]:
            ctx.report("accepted:" + self.root, "a value is accepted although one of its checks failed")
        if not a[6]:
            ctx.report("unchecked:" + self.root, "a value is accepted without being checked")
        if self.root == "rvt" and a[4] == 1 and a[5] == 1 and not a[9]:
            ctx.report("elements:" + self.root, "a list is accepted before all its elements were checked")
        return None


class ClassCheck(Spec):
    """(b) the check of one class of value; aut = (cell takes the field's type,)"""
    name = "class-check"
    tagging = True
    field_tags = {(LAYER, "tag"): "ltag"}

    def __init__(self, prog, cls):
        super().__init__(prog)
        self.cls = cls
        self._rel = set(prog.insts)
        self.n = 0

    def stop(self, inst):
        return bool(re.search(r"::layertrace$|Datacell::", inst.body.path))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        eng, env = ctx.eng, ctx.env
        if re.search(r"Datacell::set_tag$", p):
            if "ltag" in eng.tags(env, args[1]) or "layer" in eng.tags(env, args[1]):
                return [Outcome((1,))]
            ctx.report("other-type:" + self.cls, "a value is given another type than its field's")
            return [Outcome(ctx.aut)]
        m = re.search(r"Datacell::(?:read_|try_)?(bool|uint|sint|float|bin|str|list)$", p)
        if m:
            if m.group(1) != ACC.get(self.cls):
                ctx.report("accessor:" + self.cls, "a %s value is read as %s" % (self.cls, m.group(1)))
            return [Outcome(ctx.aut, G("cell", "val"))]
        m = re.search(r"tag::(UIntSpec|SIntSpec|FloatSpec)::check$", p)
        if m:
            self.n += 1
            st, vt = eng.tags(env, args[0]), eng.tags(env, args[1])
            if self.cls not in NUM or m.group(1) != NUM[self.cls][1]:
                ctx.report("range-kind:" + self.cls, "a %s value is checked against the range of another class" % self.cls)
            if not st & {"ltag", "layer"} or "val" not in vt:
                ctx.report("range-other:" + self.cls, "the range check does not compare the value with its field's type")
            return [Outcome(ctx.aut, G("range"))]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack or ret == FALSE:
            return None
        if self.cls in NUM:
            if not any(o == "Eq" and "range" in x and "#1" in y for o, x, y in conds(ret, True)):
                ctx.report("range:" + self.cls, "a %s value is accepted without a range check" % self.cls)
            if not ctx.aut[0]:
                ctx.report("type-not-set:" + self.cls, "an accepted %s value does not take the exact type of its field" % self.cls)
        return None


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


M64 = (1 << 64) - 1
F32 = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]
F64 = struct.unpack("<d", b"\xff\xff\xff\xff\xff\xff\xef\x7f")[0]
LIMITS = {"Float32": (fbits(-F32), fbits(F32)), "Float64": (fbits(-F64), fbits(F64))}
for _n in (8, 16, 32, 64):
    LIMITS["UInt%d" % _n] = (0, (1 << _n) - 1)
    LIMITS["SInt%d" % _n] = ((-(1 << (_n - 1))) & M64, (1 << (_n - 1)) - 1)


class Range(Spec):
    """the range check of a numeric type, for one selector: accepted only between its limits"""
    name = "range"
    tagging = True

    def __init__(self, prog, who, sel, idx):
        super().__init__(prog)
        self.who, self.sel, self.idx = who, sel, idx
        self.lo, self.hi = LIMITS[sel]
        self._rel = set(prog.insts)

    def stop(self, inst):
        return bool(re.search(r"DataTag|TagSelector", inst.body.path))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        if re.search(r"::tag_selector$", p):
            return [Outcome(ctx.aut, V(self.idx))]
        if re.search(r"TagSelector::value_\w+$", p):
            return [Outcome(ctx.aut, K(self.idx))]
        if re.search(r"RangeInclusive::<.*>::new$", p):
            return [Outcome(ctx.aut, ("s", tuple(args)))]
        if re.search(r"::contains$", p) and "Range" in p and len(args) > 1:
            r = args[0]
            while r is not None and r[0] == "r":
                r = ctx.eng.read_path(ctx.env, r[1], r[2])
            if r is not None and r[0] == "s" and len(r[1]) >= 2:
                lo, hi = [ctx.eng.tags(ctx.env, x) for x in r[1][:2]]
                v = ctx.eng.tags(ctx.env, args[1])
                return [Outcome(ctx.aut + (("Ge", v, lo), ("Le" if "Inclusive" in p else "Lt", v, hi)), TRUE), Outcome(ctx.aut, FALSE)]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack or ret == FALSE:
            return None
        FL = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
        hi = lo = False
        for o, x, y in list(ctx.aut) + conds(ret, True):
            if "v" in y and "v" not in x:
                o, x, y = FL.get(o, o), y, x
            if "v" not in x or "v" in y:
                continue
            ks = {int(t[1:]) & M64 for t in y if t[:1] == "#"}
            if o in ("Lt", "Le") and len(ks) == 1:
                hi |= ks <= {self.hi} if o == "Le" else ks <= {(self.hi + 1) & M64}
            if o in ("Gt", "Ge") and len(ks) == 1:
                lo |= ks <= {self.lo} if o == "Ge" else ks <= {(self.lo - 1) & M64}
        if self.sel in ("UInt64",):
            hi = True
        if self.sel == "SInt64":
            hi = lo = True
        if not hi:
            ctx.report("upper:" + self.sel, "a value above the range of %s is accepted" % self.sel)
        if self.lo and not lo:
            ctx.report("lower:" + self.sel, "a value below the range of %s is accepted" % self.sel)
        return None

    def on_branch(self, ctx, op, x, y):
        return (tuple(ctx.aut) + ((op, x, y),))[-6:]


PRIM = {"AddAssign": "add", "SubAssign": "sub", "MulAssign": "mul", "DivAssign": "div"}
BIN = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div"}


class Operator(Spec):
    """(c) one entry of the operator table; aut = (primitive applied, rhs known non-zero, pieces appended)"""
    name = "operator"
    tagging = True
    START = (None, 0, ())

    def __init__(self, prog, cls, op):
        super().__init__(prog)
        self.cls, self.op = cls, op
        self.k = "%s-%s" % (cls, op)
        self._rel = set(prog.insts)
        self.n = 0

    def stop(self, inst):
        return bool(re.search(r"^engine::data::", inst.body.path))

    def prim(self, ctx, name, x, y):
        a = ctx.aut
        want = PRIM.get(self.op)
        if name != want:
            ctx.report("wrong-operation:" + self.k, "%s on a %s value computes %s" % (self.op, self.cls, name))
        if not ("lhs" in x and "rhs" in y and "rhs" not in x and "lhs" not in y) and not (name in ("add", "mul") and "lhs" in y and "rhs" in x and "lhs" not in x and "rhs" not in y):
            ctx.report("wrong-operands:" + self.k, "%s on a %s value does not combine the old value with the operand" % (self.op, self.cls))
        if name == "div" and self.cls in ("UnsignedInt", "SignedInt") and not a[1]:
            ctx.report("division-by-zero:" + self.k, "a %s value can be divided by zero, which panics" % self.cls)
        return (name, a[1], a[2])

    def on_call(self, ctx, c, args):
        p = c.path or ""
        eng, env, a = ctx.eng, ctx.env, ctx.aut
        tg = [eng.tags(env, x) for x in args]
        m = re.search(r"lit::Lit::<'a>::(?:read_|try_)?(bool|uint|sint|float|bin|str)$", p)
        if m:
            if m.group(1) != ACC[self.cls]:
                ctx.report("accessor:" + self.k, "the operand of a %s operation is read as %s" % (self.cls, m.group(1)))
            return [Outcome(a, G("rhs"))]
        m = re.search(r"Datacell::(?:read_|try_)?(bool|uint|sint|float|bin|str|list)$", p)
        if m:
            if m.group(1) != ACC[self.cls]:
                ctx.report("accessor:" + self.k, "the old value of a %s operation is read as %s" % (self.cls, m.group(1)))
            return [Outcome(a, G("lhs"))]
        if re.search(r"Datacell::tag$", p):
            return [Outcome(a, G("ltype"))]
        m = re.search(r"core::num::<impl [ui]64>::(\w+)_(add|sub|mul|div)$", p)
        if m:
            self.n += 1
            how, nm = m.groups()
            if how == "checked":
                a = self.prim(ctx, nm, tg[0], tg[1]) if nm != "div" else self.prim(type("C", (), {"aut": (a[0], 1, a[2]), "report": ctx.report})(), nm, tg[0], tg[1])
                return [Outcome(a, V(1, G("res", nm, "nof"))), Outcome(a, V(0))]
            a = self.prim(ctx, nm, tg[0], tg[1])
            if how == "overflowing":
                return [Outcome(a, ("s", (G("res", nm), G("of"))))]
            ctx.report("overflow:" + self.k, "%s on a %s value silently leaves the range of its type" % (self.op, self.cls))
            return [Outcome(a, G("res", nm, "nof"))]
        m = re.search(r"tag::(UIntSpec|SIntSpec|FloatSpec)::check$", p)
        if m:
            if self.cls not in NUM or m.group(1) != NUM[self.cls][1]:
                ctx.report("range-kind:" + self.k, "the result of a %s operation is checked against the range of another class" % self.cls)
            t = tg[1]
            want = {"rhs"} if self.op == "Assign" else {"lhs", "rhs"} if self.cls == "Float" else {"res"}
            if not want <= t:
                ctx.report("range-other:" + self.k, "the range check of a %s operation is not applied to its result" % self.cls)
            return [Outcome(a, G("range"))]
        m = re.search(r"Datacell::new_(\w+?)(?:_default)?$", p)
        if m:
            if m.group(1) != ACC[self.cls]:
                ctx.report("result-class:" + self.k, "the result of a %s operation is stored as %s" % (self.cls, m.group(1)))
            t = {x for x in tg[0] if x[:1] not in "#%"}
            return [Outcome(a, G("cellval", *t))]
        if re.search(r"Datacell::null$", p):
            return [Outcome(a, G("nullcell"))]
        if re.search(r"try_reserve\w*$", p):
            return [Outcome(a, V(0, None)), Outcome(a, V(1, None))]
        if re.search(r"Vec::<.*>::(extend_from_slice|extend|push|append)$|String::(push_str|push)$|::extend$", p) and len(tg) > 1:
            t = {x for x in tg[1] if x in ("lhs", "rhs")}
            a = (a[0], a[1], (a[2] + tuple(sorted(t)))[:4])
            return [Outcome(a, None)]
        if re.search(r"Vec::<.*>::(new|with_capacity)$|String::(new|with_capacity)$", p):
            return [Outcome((a[0], a[1], ()), G("buf"))]
        return None

    def on_branch(self, ctx, op, x, y):
        a = ctx.aut
        if op in ("Ne", "Gt") and "rhs" in x and "#0" in y and "lhs" not in x or op == "Lt" and "rhs" in y and "#0" in x:
            a = (a[0], 1, a[2])
        return a

    def on_stmt(self, ctx, st):
        if st[0] != "=" or st[2][0] != "bin" or st[2][1].replace("WithOverflow", "").replace("Unchecked", "") not in BIN:
            return None
        nm = BIN[st[2][1].replace("WithOverflow", "").replace("Unchecked", "")]
        x, y = [ctx.eng.tags(ctx.env, ctx.eng.operand(ctx.env, o, ctx.inst)) for o in st[2][2:4]]
        if not ({"lhs", "rhs"} & (x | y)):
            return None
        self.n += 1
        a = self.prim(ctx, nm, x, y)
        if self.cls != "Float":
            ctx.report("overflow:" + self.k, "%s on a %s value is computed without noticing an overflow" % (self.op, self.cls))
        return a

    def has_stmt_event(self, inst):
        return True

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        if ret is None or ret[0] != "s" or len(ret[1]) < 1:
            ctx.report("result-lost:" + self.k, "the outcome of a %s operation is lost" % self.cls)
            return None
        ok, val = ret[1][0], ret[1][1] if len(ret[1]) > 1 else None
        if ok == FALSE:
            return None
        a = ctx.aut
        t = ctx.eng.tags(ctx.env, val)
        supported = self.op == "Assign" or self.cls in NUM or self.op == "AddAssign" and self.cls in ("Bin", "Str")
        if not supported:
            ctx.report("unsupported:" + self.k, "%s on a %s value is accepted" % (self.op, self.cls))
            return None
        cs = conds(ok, True)
        if self.cls in NUM:
            if not any(o == "Eq" and "range" in x and "#1" in y for o, x, y in cs):
                ctx.report("range:" + self.k, "the result of a %s operation is accepted without a range check" % self.cls)
        if self.op == "Assign":
            if "lhs" in t:
                ctx.report("assigned-old:" + self.k, "an assignment keeps part of the old %s value" % self.cls)
            if a[0]:
                ctx.report("wrong-operation:" + self.k, "an assignment computes %s" % a[0])
            if "rhs" not in t and "rhs" not in a[2]:
                ctx.report("assigned-other:" + self.k, "an assignment does not store the operand")
        elif self.cls in NUM:
            if a[0] != PRIM[self.op]:
                ctx.report("wrong-operation:" + self.k, "%s on a %s value computes %s" % (self.op, self.cls, a[0] or "nothing"))
            if self.cls != "Float":
                if "nof" not in t and not any(o == "Eq" and "of" in x and "#0" in y for o, x, y in cs):
                    ctx.report("overflow:" + self.k, "%s on a %s value ignores an overflow" % (self.op, self.cls))
            if not ({"res"} <= t or self.cls == "Float" and {"lhs", "rhs"} <= t):
                ctx.report("result-other:" + self.k, "%s on a %s value stores something other than the result" % (self.op, self.cls))
        else:
            if a[2] != ("lhs", "rhs"):
                ctx.report("append:" + self.k, "%s on a %s value does not append the operand to the old value" % (self.op, self.cls))
        return None


class Where(Spec):
    """(d) the key a WHERE clause selects; aut = (from the clause on the primary key, is an equality, same type)"""
    name = "where"
    tagging = True
    field_tags = {("engine::core::model::ModelData", "p_key"): "pkname", ("engine::core::model::ModelData", "p_tag"): "ptag"}

    def __init__(self, prog):
        super().__init__(prog)
        self._rel = set(prog.insts)
        self.n = 0

    def stop(self, inst):
        return not re.search(r"resolve_where|ModelData|FullTag", inst.body.path)

    def on_call(self, ctx, c, args):
        a = ctx.aut
        p, d = c.path or "", c.declared or c.path or ""
        tg = [ctx.eng.tags(ctx.env, x) for x in args]
        if re.search(r"HashMap::<.*>::(remove|get|get_mut|remove_entry)$", p) and "RelationalExpr" in (c.selfty or "") + str(c.ga or ""):
            ok = any("pkname" in t for t in tg[1:])
            return [Outcome((1 if ok else 0, a[1], a[2]), V(1, G("clause"))), Outcome(a, V(0))]
        if p.endswith("::filter_hint_none"):
            return [Outcome((a[0], 1, a[2]), TRUE), Outcome((a[0], 0, a[2]), FALSE)]
        m = re.search(r"PartialEq(?:<.*>)?>?::(eq|ne)$", d)
        if m and "engine::data::tag::Tag" in (c.ga or ""):
            ok = "TagUnique" in (c.ga or "") and any("ptag" in t for t in tg) and any("clause" in t for t in tg)
            eq = m.group(1) == "eq"
            return [Outcome((a[0], a[1], int(ok)), TRUE if eq else FALSE), Outcome((a[0], a[1], 0), FALSE if eq else TRUE)]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack or ret is None or ret[0] != "v" or ret[1] != 0:
            return None
        self.n += 1
        a = ctx.aut
        if not a[0]:
            ctx.report("where-column", "a WHERE clause is accepted that does not name the primary key")
        if not a[1]:
            ctx.report("where-operator", "a WHERE clause is accepted that is not an equality")
        if not a[2]:
            ctx.report("where-type", "a WHERE clause is accepted whose value is not of the primary key's type")
        if ret[2] and ret[2][0] is not None and "clause" not in ctx.eng.tags(ctx.env, ret[2][0]):
            ctx.report("where-value", "a WHERE clause selects by something other than its value")
        return None
