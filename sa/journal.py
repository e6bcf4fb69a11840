"""Provenance of bytes read back from a log and the checks they pass before they are used (C06)."""
import re
from .engine import Spec, Outcome, V, G
from .catalog import map_event, stmt_event

RX_READ = re.compile(r"io::Read>?::read(_exact|_to_end|_buf|_vectored)?$|os::unix::fs::FileExt>?::read(_exact)?_at$")
RX_CRC = re.compile(r"engine::storage::common::checksum::SCrc64(?: as [\w:]+)?>?::(\w+)$")
RX_IDX = re.compile(r"::mt_(insert|update|upsert|delete|clear)\w*$|DeltaState::__set_delta_version$")
RD = "engine::storage::v2::raw::journal::raw::RawJournalReader"
EV = "engine::storage::v2::raw::journal::raw::DriverEvent"
TR = "engine::storage::common::sdss::impls::sdss_r1::rw::TrackedReader"
KIND = "engine::storage::v2::raw::journal::raw::DriverEventKind"
MASK = "&%d" % (1 << 63)


class ReplaySpec(Spec):
    """aut = (phase, kind of the event being read, facts)"""
    name = "replay"
    tagging = True
    field_tags = {(RD, "txn_id"): "txn", (RD, "last_txn_id"): "lid", (RD, "last_txn_offset"): "loff", (RD, "last_txn_checksum"): "lck",
                  (EV, "event"): "kind", (TR, "cs"): "running", (TR, "len"): "len", (TR, "cursor"): "cur"}

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = {}
        vs = [v["n"] for v in prog.adts[KIND]["variants"]]
        self.kinds = {}
        for i, v in enumerate(prog.adts[KIND]["variants"]):
            self.kinds["#%s" % v.get("d", i)] = v["n"]
            self.kinds["%%%d" % i] = v["n"]
        self.what = ""

    def site(self, k, ctx):
        self.sites.setdefault(k, set()).add(ctx.inst.body.path)

    def crc(self, c):
        m = RX_CRC.search(c.path or "")
        return m.group(1) if m else None

    def is_event_call(self, c):
        return bool(RX_READ.search(c.path or "")) or self.crc(c) in ("new", "update", "finish", "default") or bool(self.apply(c))

    def apply(self, c):
        if RX_IDX.search(c.path or ""):
            return "row index"
        e = map_event(c)
        return "catalog" if e else None

    def accept(self, st):
        if st[0] != "=" or "*" not in st[1]:
            return False
        last = st[1][-1]
        return isinstance(last, dict) and last.get("o") == RD and last.get("n") == "txn_id"

    def has_stmt_event(self, inst):
        return any(self.accept(s) or stmt_event(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    # ---- events
    def on_call(self, ctx, c, args):
        ph, kind, facts = ctx.aut
        if RX_READ.search(c.path or ""):
            self.site("read", ctx)
            if len(args) > 1 and args[1] is not None and args[1][0] == "r":
                ctx.eng.write_path(ctx.env, args[1][1], args[1][2], G("disk", "!"))
            aut = (ph, kind, facts - {"eof"})
            return [Outcome(aut, V(0, None)), Outcome(aut, V(1, None))]
        n = self.crc(c)
        if n in ("new", "default"):
            return [Outcome(ctx.aut, G("crc"))]
        if n == "update":
            self.site("crc", ctx)
            t = ctx.eng.tags(ctx.env, args[0])
            b = args[1]
            if "running" not in t and b is not None and b[0] == "r":
                bt = ctx.eng.tags(ctx.env, b)
                if "!" in bt:
                    ctx.eng.write_path(ctx.env, b[1], b[2], G(*[x for x in bt if x != "!"]))
            return [Outcome(ctx.aut, None)]
        if n == "finish":
            t = ctx.eng.tags(ctx.env, args[0])
            return [Outcome(ctx.aut, G("sum-running" if "running" in t else "sum"))]
        a = self.apply(c)
        if a:
            self.applied(ctx, a, args)
            return [Outcome(ctx.aut, None)]
        return None

    def applied(self, ctx, what, args):
        ph, kind, facts = ctx.aut
        self.site("apply", ctx)
        for f, m in (("txn", "its transaction id was compared with the expected one"), ("ck", "its checksum was compared with the stored one")):
            if f not in facts:
                ctx.report("applied-before:%s:%s" % (f, self.what), "an event of the %s changes the %s before %s" % (self.what, what, m))
        if kind == "driver":
            ctx.report("applied-driver-event:" + self.what, "a driver event of the %s is applied as if it were data" % self.what)
        for a in args[1:]:
            if "!" in ctx.eng.tags(ctx.env, a):
                ctx.report("uncovered:%s" % self.what, "bytes of the %s that are not part of the verified checksum are applied to the %s" % (self.what, what))

    def on_stmt(self, ctx, st):
        ph, kind, facts = ctx.aut
        if self.accept(st):
            self.site("accept", ctx)
            need = ["txn", "ck"] if kind == "server" else ["txn", "ck", "lck", "lid", "loff", "kind"]
            txt = {"txn": "transaction id", "ck": "checksum", "lck": "checksum of the preceding events", "lid": "preceding transaction id", "loff": "preceding offset", "kind": "event kind"}
            fk = [f[5:] for f in facts if f.startswith("kind:")]
            for n in need:
                if n == "kind":
                    want = "Closed" if ph == "open" else "Reopened"
                    if fk != [want]:
                        ctx.report("kind:%s:%s" % (want, self.what), "the %s is read past a driver event without checking that it is a `%s` event" % (self.what, want))
                elif n not in facts:
                    ctx.report("accepted-without:%s:%s:%s" % (n, kind or "?", self.what), "a %s event of the %s is accepted without comparing its %s with the expected value" % (kind or "driver", self.what, txt[n]))
            if kind == "server" and ph == "closed":
                ctx.report("event-after-close:" + self.what, "an event that follows a close event of the %s is accepted" % self.what)
            return ("open" if kind == "server" or ph == "closed" else "closed", None if ph == "open" else None, frozenset())
        e = stmt_event(st)
        if e:
            self.applied(ctx, "catalog", [])
        return None

    def on_branch(self, ctx, op, a, b):
        ph, kind, facts = ctx.aut
        for x, y in ((a, b), (b, a)):
            if op in ("Ne", "Eq") and MASK in x and "disk" in x and "#0" in y:
                return (ph, "server" if op == "Ne" else "driver", facts)
            if op == "Eq":
                for f in ("lid", "loff", "lck", "txn"):
                    if f in x and "disk" in y and f not in y:
                        return (ph, kind, facts | {f})
                if "sum" in x and "disk" in y:
                    return (ph, kind, facts | {"ck"})
                if "kind" in x:
                    for t in y:
                        if t in self.kinds:
                            return (ph, kind, frozenset(f for f in facts if not f.startswith("kind:")) | {"kind:" + self.kinds[t]})
                if "len" in x and "cur" in y:
                    return (ph, kind, facts | {"eof"})
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        ph, kind, facts = ctx.aut
        if ret is not None and ret[0] == "v" and ret[1] == 1:
            return None
        if ph != "closed" or "eof" not in facts:
            ctx.report("end:" + self.what, "the %s is accepted as complete although its last event is not a verified close event at the end of the file" % self.what)
        return None
