"""Only valid values are stored in rows."""
import re
from ..engine import Engine, G
from .. import cells, dml
from .C12 import analyse


def table(prog, rx, want):
    """static tables of functions that satisfy `want`"""
    for i in prog.insts.values():
        if i.body.kind.startswith("Static") and i.reify and any(want(prog.insts[x]) for x in i.reify):
            yield i


def run(prog, res, tier):
    res.rule("(1) The table of value checks is consulted for the value stored, with the field it is stored into, on every path of INSERT and UPDATE to a stored cell. (2) Each check accepts a value only after comparing its kind with the field's and, for sized integers and floats, its range. (3) Each of the arithmetic slots produces a result only from a checked operation (overflow, division by zero are refusals), of the kind of its field. (4) A WHERE clause becomes a key only through an equality on the primary key with a value of its type.")
    for kind, s in analyse(prog, res, "C13"):
        for k in {"ins": ("check", "store", "takepk"), "upd": ("check", "operator", "change")}.get(kind, ()):
            res.floor("%s_%s" % (kind, k), len(s.n.get(k, ())), 1, "%s events in the handler" % k)
    classes = [v["n"] for v in prog.adts["engine::data::tag::TagClass"]["variants"]]
    ops = [v["n"] for v in prog.adts["engine::core::query_meta::AssignmentOperator"]["variants"]]
    # class checks
    ts = list(table(prog, None, lambda x: cells.is_vt(prog, x)))
    res.floor("check_tables", len(ts), 1, "tables of type checks")
    vt = []
    for t in ts:
        vt = list(t.reify)
        for i, x in enumerate(t.reify):
            x = prog.insts[x]
            cls = classes[i] if i < len(classes) else "none"
            s = cells.ClassCheck(prog, cls)
            e = Engine(prog, s)
            lead = [None] if "{closure#" in x.body.path.rsplit("::", 1)[-1] else []
            outs = e.run(x, (0,), args=lead + [G("layer"), G("cell")])
            if i >= len(classes) and any(o[1] != ("k", 0) for o in outs):
                res.violation("table-end", "a value of no class is accepted", x.body.path)
            res.merge_engine(e, "_class_checks")
            if cls in cells.NUM:
                res.floor("range_checks_" + cls, s.n, 1, "range checks of the class")
    n = 0
    for i in prog.insts.values():
        nm = i.body.path.rsplit("::", 1)[-1]
        if re.search(r"model::Field::vt_\w+$", i.body.path) or cells.is_rvt(prog, i):
            root = nm if nm.startswith("vt_") else "rvt"
            s = cells.Valid(prog, root, vt, classes)
            e = Engine(prog, s)
            e.run(i, s.START, args=[G("layers"), G("cell")])
            res.merge_engine(e, "_validity")
            res.sample("validity: %s" % i.body.path)
            n += 1
            if not s.n["true"]:
                res.violation("never-valid:" + root, "no value is ever valid", i.body.path)
    res.floor("validity_functions", n, 2, "functions that decide whether a value is valid")
    n = 0
    for i in prog.find_insts(r"engine::data::tag::(UIntSpec|SIntSpec|FloatSpec)::check$"):
        who = i.body.path.split("::")[-2]
        for idx, v in enumerate(prog.adts["engine::data::tag::TagSelector"]["variants"]):
            if v["n"][:3] != who[:3] and not (who[:4] == "UInt" and v["n"][:4] == "UInt"):
                continue
            if (who[:4] == "UInt") != (v["n"][:4] == "UInt"):
                continue
            s = cells.Range(prog, who, v["n"], idx)
            e = Engine(prog, s)
            if not any(o[1] != ("k", 0) for o in e.run(i, (), args=[G("spec"), G("v")])):
                res.violation("range-empty:" + v["n"], "no value is in the range of %s" % v["n"], i.body.path)
            res.merge_engine(e, "_ranges")
            n += 1
    res.floor("range_checks", n, 10, "range checks of numeric types")
    # operators
    cellret = "(bool, %s)" % dml.CELL
    ts = list(table(prog, None, lambda x: prog.tys(prog.lty(x, 0)) == cellret))
    res.floor("operator_tables", len(ts), 1, "tables of update operators")
    n = 0
    for t in ts:
        if len(t.reify) < (len(classes) - 1) * len(ops):
            res.violation("operator-table", "the operator table has no entry for some class and operator", t.body.path)
            continue
        for i, x in enumerate(t.reify):
            cls, op = classes[i // len(ops)], ops[i % len(ops)]
            s = cells.Operator(prog, cls, op)
            e = Engine(prog, s)
            outs = e.run(prog.insts[x], s.START, args=[G("cell"), G("lit")])
            res.merge_engine(e, "_operators")
            n += 1
            if cls in cells.NUM or op == "Assign" or op == "AddAssign" and cls in ("Bin", "Str"):
                if all(o[1] is not None and o[1][0] == "s" and o[1][1] and o[1][1][0] == ("k", 0) for o in outs):
                    res.violation("operator-missing:%s-%s" % (cls, op), "%s on a %s value always fails" % (op, cls), prog.insts[x].body.path)
    res.floor("operators", n, 30, "entries of the operator table")
    # index into the operator table
    n = 0
    for i in prog.insts.values():
        a = [prog.tys(prog.lty(i, k)) for k in range(0, i.body.argc + 1)]
        if a == ["usize", "engine::data::tag::TagClass", "engine::core::query_meta::AssignmentOperator"]:
            n += 1
            s = Index(prog)
            e = Engine(prog, s)
            e.run(i, (), args=[G("cls"), G("op")])
            res.merge_engine(e, "_index")
            if s.mul != {len(ops)} or not s.ok:
                res.violation("operator-index", "the position in the operator table is not class * number of operators + operator", i.body.path)
    # where
    n = 0
    for i in prog.find_insts(r"ModelData>?::resolve_where$"):
        s = cells.Where(prog)
        e = Engine(prog, s)
        e.run(i, (0, 0, 0), args=[G("mdl"), G("where")])
        res.merge_engine(e, "_where")
        n += s.n
    res.floor("where_clauses", n, 1, "ways a WHERE clause is accepted")


class Index(cells.Spec):
    name = "index"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.mul, self.ok = set(), True
        self._rel = set(prog.insts)

    def stop(self, inst):
        return True

    def has_stmt_event(self, inst):
        return True

    def on_stmt(self, ctx, st):
        if st[0] == "=" and st[2][0] == "bin":
            op = st[2][1].replace("WithOverflow", "")
            a, b = [ctx.eng.tags(ctx.env, ctx.eng.operand(ctx.env, o, ctx.inst)) for o in st[2][2:4]]
            if op == "Mul":
                for x, y in ((a, b), (b, a)):
                    if "cls" in y and "op" not in y:
                        self.mul |= {int(z[1:]) for z in x if z[:1] == "#"}
                    if "op" in y:
                        self.ok = False
            elif op == "Add":
                if not ("cls" in a and "op" in b and "cls" not in b or "cls" in b and "op" in a and "cls" not in a):
                    self.ok = False
            else:
                self.ok = False
        return None
