"""Row changes and the changes queued for the log."""
from ..engine import Engine, G
from .. import dml


def analyse(prog, res, owner):
    for kind in ("ins", "upd", "del"):
        rs = dml.roots(prog, kind)
        res.floor("handlers_" + kind, len(rs), 1, "handlers of %s statements" % kind)
        for i, k in rs:
            s = dml.RowChange(prog, kind, owner)
            e = Engine(prog, s)
            args = [None] * i.body.argc
            args[k] = G("stmt")
            e.run(i, dml.INIT, args=args)
            res.merge_engine(e, "_" + kind)
            res.sample("%s: %s" % (kind, i.body.path))
            yield kind, s


def run(prog, res, tier):
    res.rule("Typestate over every path of the INSERT, UPDATE and DELETE handlers: the rows of a key are changed only under their lock and the model's shared lock; a version is drawn, the change is made, the change is queued for the log with the version, the row and the kind of change that was made; a path that reports failure leaves neither a changed row (every replaced value is put back from an undo record) nor a queued change; the size handed to the flush trigger is the number of changes queued.")
    for kind, s in analyse(prog, res, "C12"):
        for k in ("version", "delta", "ok", "err") + (("change", "undo_log", "rowlock", "revised") if kind == "upd" else ("index",)):
            res.floor("%s_%s" % (kind, k), len(s.n.get(k, ())), 1, "%s events in the handler" % k)
