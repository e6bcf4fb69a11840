"""A committed log record is durable before the commit reports success."""
from ..engine import Engine, Spec, Outcome, V
from ..iomodel import is_file_write, is_file_sync, buf_op

ASSUMPTIONS = ["a write-all helper reports success only when every byte was written (decided by C05)"]


class Durable(Spec):
    """aut = (buffered, dirty, failed, synced)"""
    name = "durable"

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = {"write": set(), "sync": set(), "buffer": set()}

    def is_event_call(self, c):
        return is_file_write(c) or is_file_sync(c) or bool(buf_op(c))

    def on_call(self, ctx, c, args):
        b, d, f, s = ctx.aut
        if is_file_write(c):
            self.sites["write"].add(ctx.inst.body.path)
            return [Outcome((b, 1, f, s), V(0, None)), Outcome((b, 1, 1, s), V(1, None))]
        if is_file_sync(c):
            self.sites["sync"].add(ctx.inst.body.path)
            return [Outcome((b, 0, f, 1), V(0, None)), Outcome((b, d, 1, s), V(1, None))]
        o = buf_op(c)
        if o:
            self.sites["buffer"].add(ctx.inst.body.path)
            return [Outcome((1 if o == "add" else 0, d, f, s), None)]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        b, d, f, s = ctx.aut
        ok = ret is None or ret[0] != "v" or ret[1] == 0
        if not ok:
            return None
        t = ctx.inst.args.split(" | ")
        what = t[-1].rsplit("::", 1)[-1].split("<")[0]
        if f:
            ctx.report("io-error-swallowed:" + what, "a commit of %s reports success although a write or sync of the log failed" % what)
        elif b:
            ctx.report("not-flushed:" + what, "a commit of %s reports success while its bytes are still in the write buffer" % what)
        elif d:
            ctx.report("not-synced:" + what, "a commit of %s reports success before the log file was synced after its last write" % what)
        elif not s:
            ctx.report("no-io:" + what, "a commit of %s reports success without any sync of the log file" % what)
        return None


def run(prog, res, tier):
    res.rule("For every monomorphised instance of the journal's commit entry points (each catalog event type and each batch type), every path that returns success has passed: all buffered bytes flushed to the file, then a successful fsync after the last file write, and no write or fsync failure on the path was discarded.")
    spec = Durable(prog)
    eng = Engine(prog, spec)
    roots = [i for i in prog.find_insts(r"journal::raw::RawJournalWriter::<.*>::commit_with_ctx$")]
    roots = roots or [i for i in prog.find_insts(r"journal::raw::RawJournalWriter::<.*>::commit\w*$")]
    res.floor("commit_instances", len(roots), 13, "commit entry points")
    for r in roots:
        eng.run(r, (0, 0, 0, 0))
        res.sample("commit of " + r.args.split(" | ")[-1])
    res.merge_engine(eng)
    for k, v in spec.sites.items():
        res.floor(k + "_sites", len(v), 1, k + " sites")
