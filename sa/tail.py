"""What the log writer believes about the end of the file, on success and on failure (C10)."""
import re
from .engine import Spec, Outcome, V, G
from .iomodel import buf_op

TW = "engine::storage::common::sdss::impls::sdss_r1::rw::TrackedWriter"
RW = "engine::storage::v2::raw::journal::raw::RawJournalWriter"
JI = "engine::storage::v2::raw::journal::raw::JournalInitializer"
RX_ALL = re.compile(r"FileWrite(::|>::)fwrite_all_count$")
RX_ONE = re.compile(r"FileWrite(::|>::)fwrite$")
RX_CRC = re.compile(r"checksum::SCrc64(?: as .*Default>)?::(new|default|update|finish)$|checksum::SCrc64::(new|default|update|finish)$")
RX_POS = re.compile(r"FileExt(::|>::)f_cursor$")
RX_TAKE = re.compile(r"mem::(take|replace)$")


def crc(c):
    m = RX_CRC.search(c.path or "")
    return (m.group(1) or m.group(2)) if m else None


def bare(t):
    return {x for x in t if x[:1] not in "#%&"}


def field_of(prog, st):
    """(adt, field name) a statement assigns"""
    pl = st[1]
    if st[0] != "=" or len(pl) < 2 or not isinstance(pl[-1], dict) or "n" not in pl[-1]:
        return None
    return pl[-1].get("o"), pl[-1].get("n")


class WriteAll(Spec):
    """A. the helper that writes all of a buffer; aut = (number of writes, last one known non-empty, total compared equal to the length)"""
    name = "write-all"
    tagging = True
    index_tags = True
    LIMIT = 3

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = set()

    def is_event_call(self, c):
        return bool(RX_ONE.search(c.path or "") or RX_ONE.search(c.declared or ""))

    def all(self, n):
        return {"n%d" % k for k in range(1, n + 1)}

    def on_call(self, ctx, c, args):
        if (c.path or "").endswith("::is_empty") and args:
            return [Outcome(ctx.aut, ("cmp", "Eq", frozenset(ctx.eng.tags(ctx.env, args[0])), frozenset(["#0"])))]
        if not self.is_event_call(c):
            return None
        self.sites.add(ctx.inst.body.path)
        n, nz, done = ctx.aut
        t = ctx.eng.tags(ctx.env, args[-1])
        if n and nz is not True or nz == "zero":
            ctx.report("zero-length-write", "a write that accepted no bytes can be repeated for ever")
        if "buf" not in t:
            ctx.report("other-bytes", "bytes other than the caller's are written")
        if not self.all(n) <= t:
            ctx.report("restart", "after a partial write the remaining bytes are not written from where it stopped")
        if n >= self.LIMIT:
            return []
        a = (n + 1, False, False)
        return [Outcome(a, V(0, G("n%d" % (n + 1)))), Outcome((n, False, False), V(1, None))]

    def on_branch(self, ctx, op, a, b):
        n, nz, done = ctx.aut
        cur = "n%d" % n
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
            if n and cur in x and "#0" in y and o in ("Ne", "Gt"):
                nz = True
            if n and nz is False and x >= {cur} and not bare(x) - {cur} and "#0" in y and o in ("Eq", "Le"):
                return (n - 1, "zero", False)
            if n and self.all(n) <= x and "#0" in y and "buf" in x and o in ("Eq", "Le"):
                done = True           # nothing is left of the slice
            if (self.all(n) <= x if n else not bare(x)) and "buf" in y and not self.all(max(n, 1)) & y and o in ("Eq", "Ge"):
                done = True
        return (n, nz, done)

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        n, nz, done = ctx.aut
        cnt, r = split(ret)
        if r is None:
            ctx.report("result-lost", "the outcome of writing a buffer is not returned with the number of bytes written")
            return None
        if r[1] == 0 and not done:
            ctx.report("incomplete", "a partial write can be reported as complete")
        if n and not self.all(n) <= ctx.eng.tags(ctx.env, cnt):
            ctx.report("miscounted", "the number of bytes reported as written leaves out a partial write")
        return None


def split(ret):
    """(count, result) of a `(u64, IoResult<()>)`"""
    if ret is None or ret[0] != "s" or len(ret[1]) != 2:
        return None, None
    a, b = ret[1]
    if b is not None and b[0] == "v":
        return a, b
    return None, None


TFIELDS = {(TW, "t_cursor"): "cur", (TW, "t_checksum"): "ck", (TW, "t_partial_checksum"): "pck", (TW, "buf"): "buf"}


class Tracked(Spec):
    """B. the buffering writer; aut = (file writes, credited, kind of the last one, taken from the buffer, it was complete,
    updates of the running and of the partial checksum, data accepted, room for more)"""
    name = "tracked"
    tagging = True
    field_tags = TFIELDS
    START = (0, True, "", True, True, 0, 0, 0, False)

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = {k: set() for k in ("write", "cursor", "checksum", "buffer")}
        self.root = ""

    def is_event_call(self, c):
        return bool(RX_ALL.search(c.path or "") or buf_op(c) or crc(c) == "update")

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst)

    def ev(self, st):
        f = field_of(self.prog, st)
        return f[1] if f and f[0] == TW and f[1] in ("t_cursor", "t_checksum", "t_partial_checksum") else None

    def settle(self, ctx):
        n, cred, kind, rem, full, ck, pck, acc, room = ctx.aut
        if not cred:
            ctx.report("cursor-lost:" + self.root, "bytes that were written are not added to the tracked file offset")
        if not rem:
            ctx.report("buffer-kept:" + self.root, "bytes that were written from the buffer are not removed from it")

    def on_call(self, ctx, c, args):
        n, cred, kind, rem, full, ck, pck, acc, room = ctx.aut
        if RX_ALL.search(c.path or ""):
            self.sites["write"].add(ctx.inst.body.path)
            self.settle(ctx)
            t = ctx.eng.tags(ctx.env, args[-1])
            kind = "buf" if "buf" in t else "data"
            if kind == "data" and "data" not in t:
                ctx.report("other-bytes:" + self.root, "bytes other than the caller's or the buffered ones are written")
            if kind == "data" and not room and acc & 2:
                ctx.report("order:" + self.root, "bytes are written past bytes that are still in the buffer")
            b = kind == "buf"
            ac = acc | (0 if b else 1)
            g = G("w%d" % (n + 1))
            return [Outcome((n + 1, False, kind, not b, True, ck, pck, ac, room or b), ("s", (g, V(0, None)))),
                    Outcome((n + 1, False, kind, not b, False, ck, pck, ac, room), ("s", (g, V(1, None))))]
        o = buf_op(c)
        if o == "add":
            self.sites["buffer"].add(ctx.inst.body.path)
            if not room:
                ctx.report("overflow:" + self.root, "bytes are added to the write buffer without checking that there is room for them")
            if "data" not in ctx.eng.tags(ctx.env, args[-1]):
                ctx.report("other-bytes:" + self.root, "bytes other than the caller's are added to the buffer")
            return [Outcome((n, cred, kind, rem, full, ck, pck, acc | 2, room), None)]
        if o == "rem":
            t = set()
            for a in args[1:]:
                t |= ctx.eng.tags(ctx.env, a)
            m = c.path.rsplit("::", 1)[-1]
            if kind != "buf" or rem or m != "clear" and "w%d" % n not in t:
                ctx.report("buffer-dropped:" + self.root, "bytes are removed from the write buffer that were not written")
            elif m != "clear_start" and not full:
                ctx.report("buffer-dropped:" + self.root, "after a partial write bytes are removed from the wrong end of the buffer")
            return [Outcome((n, cred, kind, True, full, ck, pck, acc, room), None)]
        if crc(c) == "update":
            self.sites["checksum"].add(ctx.inst.body.path)
            t = ctx.eng.tags(ctx.env, args[0])
            if "data" not in ctx.eng.tags(ctx.env, args[-1]):
                ctx.report("checksum-bytes:" + self.root, "the checksum is updated with bytes that were not given to the writer")
            if "pck" in t:
                pck = min(pck + 1, 2)
            elif "ck" in t:
                ck = min(ck + 1, 2)
            return [Outcome((n, cred, kind, rem, full, ck, pck, acc, room), None)]
        return None

    def on_stmt(self, ctx, st):
        e = self.ev(st)
        if not e:
            return None
        n, cred, kind, rem, full, ck, pck, acc, room = ctx.aut
        if e != "t_cursor":
            ctx.report("checksum-replaced:" + self.root, "a write replaces the running checksum")
            return None
        self.sites["cursor"].add(ctx.inst.body.path)
        t = bare(ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st)))
        if cred or "w%d" % n not in t or "cur" not in t or any(x[:1] in "+-" for x in t):
            ctx.report("cursor:" + self.root, "the tracked file offset is changed by something else than the number of bytes just written")
        return (n, True, kind, rem, full, ck, pck, acc, room)

    def on_branch(self, ctx, op, a, b):
        n, cred, kind, rem, full, ck, pck, acc, room = ctx.aut
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
            if n and "w%d" % n in x and "buf" in y and o in ("Eq", "Ge"):
                full = True
            if "buf" in x and "data" in y and o in ("Ge", "Gt"):
                room = True
        return (n, cred, kind, rem, full, ck, pck, acc, room)

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        self.settle(ctx)
        n, cred, kind, rem, full, ck, pck, acc, room = ctx.aut
        ok = ret is None or ret[0] != "v" or ret[1] == 0
        takes = self.takes
        if ok and n and not full:
            ctx.report("error-lost:" + self.root, "a failed write is reported as a success")
        if ok and takes:
            if not acc:
                ctx.report("not-written:" + self.root, "a write reports success although its bytes are neither written nor buffered")
            if ck != (0 if self.root.startswith("untracked") else 1):
                ctx.report("checksum:" + self.root, "a successful write updates the running checksum %s" % ("more than once" if ck > 1 else "although it is untracked" if ck else "not at all"))
            if pck != (1 if self.root.startswith("dtrack") else 0):
                ctx.report("partial-checksum:" + self.root, "a successful write updates the partial checksum %d times" % pck)
        if not ok and (ck > 1 or pck):
            ctx.report("checksum-failed:" + self.root, "a failed write updates the checksums as if it had succeeded")
        return None


class Resume(Spec):
    """C. resuming after a failure; aut = set of facts"""
    name = "resume"
    tagging = True
    field_tags = {**TFIELDS, (RW, "txn_id"): "txn", (RW, "known_txn_id"): "kid", (RW, "known_txn_offset"): "koff", (RW, "known_txn_checksum"): "kck"}
    NEED = {"pos": "the file offset was compared with the tracked one", "off": "the file offset was compared with the end of the last good record",
            "buf": "the buffered bytes of the failed record were dropped", "ck": "the running checksum was set back to that of the last good record",
            "pck": "the partial checksum was reset", "txn": "the next transaction id was set to follow the last good record"}

    def __init__(self, prog):
        super().__init__(prog)
        self.n = 0

    def is_event_call(self, c):
        return bool(RX_POS.search(c.path or "") or buf_op(c) or crc(c) in ("new", "default", "update") or RX_ALL.search(c.path or "") or self.take(c))

    def take(self, c):
        m = RX_TAKE.search(c.path or "")
        return m and "SCrc64" in (c.ga or "") + (c.t0 or "")

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst)

    def ev(self, st):
        f = field_of(self.prog, st)
        if not f:
            return None
        if f[0] == TW and f[1] in ("t_cursor", "t_checksum", "t_partial_checksum") or f[0] == RW and f[1] in ("txn_id", "known_txn_id", "known_txn_offset", "known_txn_checksum"):
            return f[1]
        return None

    def on_call(self, ctx, c, args):
        if RX_POS.search(c.path or ""):
            self.n += 1
            return [Outcome(ctx.aut, V(0, G("fpos"))), Outcome(ctx.aut, V(1, None))]
        o = buf_op(c)
        if o == "rem":
            return [Outcome(ctx.aut | {"buf" if c.path.endswith("::clear") else "buf?"}, None)]
        if o == "add" or RX_ALL.search(c.path or ""):
            ctx.report("writes", "resuming after a failed write writes to the log")
            return [Outcome(ctx.aut, None)]
        k = crc(c)
        if k in ("new", "default"):
            return [Outcome(ctx.aut, G("fresh"))]
        if k == "update":
            return [Outcome(ctx.aut | {"bad"}, None)]
        if self.take(c):
            r = args[0]
            if r is not None and r[0] == "r" and "pck" in ctx.eng.tags(ctx.env, r):
                v = args[1] if len(args) > 1 else G("fresh")
                ctx.eng.write_path(ctx.env, r[1], r[2], v)
                return [Outcome(ctx.aut | ({"pck"} if "fresh" in ctx.eng.tags(ctx.env, v) else set()), None)]
        return None

    def on_stmt(self, ctx, st):
        e = self.ev(st)
        if not e:
            return None
        t = bare(ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st)))
        a = ctx.aut
        if e == "t_checksum":
            return a | {"ck"} if t == {"kck"} else a - {"ck"} | {"bad"}
        if e == "t_partial_checksum":
            return a | {"pck"} if t <= {"fresh"} else a - {"pck"}
        if e == "txn_id":
            return a | {"txn"} if t == {"kid", "+1"} else a - {"txn"}
        ctx.report("resume:" + e, "resuming after a failed write changes `%s`" % e)
        return None

    def on_branch(self, ctx, op, a, b):
        if op != "Eq":
            return None
        f = set()
        for x, y in ((a, b), (b, a)):
            x, y = bare(x), bare(y)
            if x == {"fpos"} and y == {"cur"}:
                f.add("pos")
            if x in ({"fpos"}, {"cur"}) and y == {"koff"}:
                f.add("off")
        return ctx.aut | f

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        if ret is None or ret[0] != "v":
            ctx.report("result-lost", "the outcome of resuming after a failed write is lost")
            return None
        if ret[1] == 1:
            return None
        for k, m in self.NEED.items():
            if k not in ctx.aut:
                ctx.report("resume:" + k, "writing resumes after a failure on a path on which it is not true that %s" % m)
        if "bad" in ctx.aut:
            ctx.report("resume:checksum", "resuming after a failed write sets the running checksum to something else than that of the last good record")
        return None


class Commit(Spec):
    """D. what is remembered as the last good record; aut = (known fields set, something was written, next id)"""
    name = "commit"
    tagging = True
    field_tags = Resume.field_tags
    SET = {"known_txn_id": ("txn",), "known_txn_offset": ("cur",), "known_txn_checksum": ("ck",)}

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = set()
        self.what = ""

    def is_event_call(self, c):
        return bool(RX_ALL.search(c.path or "") or buf_op(c) == "add")

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst)

    def ev(self, st):
        f = field_of(self.prog, st)
        return f[1] if f and f[0] == RW and f[1] in ("txn_id", "known_txn_id", "known_txn_offset", "known_txn_checksum") else None

    def on_call(self, ctx, c, args):
        if not self.is_event_call(c):
            return None
        known, wrote, nxt = ctx.aut
        if known:
            ctx.report("remembered-early:" + self.what, "a record is remembered as the last good one before it is written in full")
        if RX_ALL.search(c.path or ""):
            a = (known, True, nxt)
            return [Outcome(a, ("s", (G("n"), V(0, None)))), Outcome(a, ("s", (G("n"), V(1, None))))]
        return [Outcome((known, True, nxt), None)]

    def on_stmt(self, ctx, st):
        e = self.ev(st)
        if not e:
            return None
        known, wrote, nxt = ctx.aut
        t = bare(ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st)))
        self.sites.add(e)
        if e == "txn_id":
            if t != {"txn", "+1"} or nxt:
                ctx.report("next-id:" + self.what, "the next transaction id is not the one that follows the record being written")
            return (known, wrote, True)
        want = self.SET[e][0]
        if want not in t or any(x[:1] in "+-" for x in t) or t & {"kid", "koff", "kck", "txn", "cur", "ck"} != {want}:
            ctx.report("remembered:%s:%s" % (e, self.what), "`%s` is not taken from the record that was written" % e)
        return (known | {e}, wrote, nxt)

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        known, wrote, nxt = ctx.aut
        if ret is None or ret[0] != "v":
            ctx.report("result-lost:" + self.what, "the outcome of writing a record is lost")
            return None
        if ret[1] == 1:
            if known:
                ctx.report("remembered-failed:" + self.what, "a record that was not written is remembered as the last good one")
            return None
        for k in self.SET:
            if k not in known:
                ctx.report("forgotten:%s:%s" % (k, self.what), "after a record was written `%s` still describes the one before" % k)
        if not nxt:
            ctx.report("same-id:" + self.what, "two records are written with the same transaction id")
        return None
