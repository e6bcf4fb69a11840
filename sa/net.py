"""The exchange of queries and responses with a client (C18)."""
import re
from .engine import Engine, Spec, Outcome, V, G, K, TRUE, FALSE, PRUNE
from .access import variants

DBG = 0
FUT = {
    "read": re.compile(r"AsyncReadExt::read_(buf|u8)$|AsyncReadExt::read$"),
    "write": re.compile(r"AsyncWriteExt::write_(all|u8)$"),
    "part": re.compile(r"AsyncWriteExt::write(_buf|_vectored)?$"),
    "flush": re.compile(r"AsyncWriteExt::(flush|shutdown)$"),
}
RX_POLL = re.compile(r"^<tokio::io::util::(\w+::)+(ReadBuf|Read|WriteAll|WriteU8|Write|Flush|Shutdown|ReadU8|WriteBuf)<.*Future>::poll$|^tokio::io::util::.*::poll$")
RX_TYPE = re.compile(r"(?:net::protocol::ResponseType)>?::value_(u8|word)$")
RX_CODE = re.compile(r"(?:error::QueryError)>?::value_(u8|word)$")
RX_HCODE = re.compile(r"handshake::ProtocolError>?::value_(u8|word)$")
RX_INT = re.compile(r"mem::numbuf::IntegerRepr(::<\w+>)?::as_bytes$")
RX_RESUME = re.compile(r"net::protocol::exchange::resume$")
RX_DISP = re.compile(r"core::exec::dispatch_to_executor$")
RX_DPOLL = re.compile(r"core::exec::dispatch_to_executor::\{closure#\d+\}$")
RX_HS = re.compile(r"net::protocol::do_handshake$")
RX_HPOLL = re.compile(r"net::protocol::do_handshake::\{closure#\d+\}$")
RX_FRESH = re.compile(r"<engine::net::protocol::exchange::(Resume|QExchangeState) as std::default::Default>::default$|exchange::QExchangeState::new$")
BUF = "bytes::BytesMut::"


def elems(ctx, v, d=6):
    """the bytes of a value, one entry of tags per known element"""
    e = ctx.eng
    while v is not None and d:
        d -= 1
        if v[0] == "r":
            v = e.read_path(ctx.env, v[1], v[2])
        elif v[0] == "bx":
            v = v[1]
        else:
            break
    if v is None:
        return ("?",)
    if v[0] == "s":
        out = []
        for x in v[1]:
            out += elems(ctx, x, d)
        return tuple(out)
    if v[0] == "k":
        return ("c%s" % v[1],)
    t = sorted(x for x in e.tags(ctx.env, v) if x[0] not in "#%")
    return ("+".join(t) if t else "?",)


class Exchange(Spec):
    """aut = (phase, todo, dirty, clean, gen, got)

    phase  hs | idle (waiting for a query) | more (a query is incomplete) | sq (complete, not run) | ran | bad (malformed)
    todo   what of the response remains to be written
    dirty  something was written and not flushed
    clean  (buffer, cursor, state) were reset since the last query
    gen    parity of the last incomplete step
    eof    None, 'eof' (the client closed), 'empty'/'rest' (and the buffer was found empty or not)
    """
    name = "exchange"
    tagging = True
    str_consts = True
    field_tags = {}

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.rt = variants(prog, "engine::net::protocol::ResponseType")
        self.resp = prog.adts["engine::net::protocol::Response"]["variants"]
        self.qerr = variants(prog, "engine::error::QueryError")
        self.qx = variants(prog, "engine::net::protocol::exchange::QExchangeResult")
        self.ph = variants(prog, "engine::net::protocol::PostHandshake")
        self.ql = variants(prog, "engine::net::QueryLoopResult")

    START = ("hs", (), 0, 0, 0, None)

    def fut(self, c):
        p = c.path or ""
        for k, rx in FUT.items():
            if rx.search(p):
                return k
        return None

    def kind(self, c):
        p = c.path or ""
        if c.inst is None:
            f = self.fut(c)
            if f:
                return f
            if re.search(r"^<tokio::io::util::.* as std::future::Future>::poll$", p):
                return "poll"
            if p.startswith(BUF) or (c.selfty or "").endswith("BytesMut"):
                m = p.rsplit("::", 1)[-1]
                if m in ("clear", "is_empty", "advance", "truncate", "split", "len"):
                    return "buf:" + m
            if re.search(r"num::<impl u16>::to_(le|be|ne)_bytes$", p):
                return "bytes:" + p[-8:-6]
            return None
        for k, rx in (("type", RX_TYPE), ("code", RX_CODE), ("hcode", RX_HCODE), ("int", RX_INT), ("resume", RX_RESUME), ("dpoll", RX_DPOLL), ("disp", RX_DISP),
                      ("hpoll", RX_HPOLL), ("hs", RX_HS), ("fresh", RX_FRESH)):
            if rx.search(p):
                return k
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        ph, todo, dirty, clean, gen, eof = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        if k in ("read", "write", "flush", "part"):
            if k == "write":
                return [Outcome(ctx.aut, ("s", (G("fut:write"), ("s", tuple(G(x) for x in elems(ctx, args[1]))))))]
            return [Outcome(ctx.aut, ("s", (G("fut:" + k),)))]
        if k == "poll":
            v = args[0]
            d = 6
            while v is not None and v[0] in ("r", "bx") and d:
                v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
                d -= 1
            fs = v[1] if v is not None and v[0] == "s" else ()
            w = next(iter(ctx.eng.tags(ctx.env, fs[0])), None) if fs else None
            if DBG: print(ctx.bb, c.selfty[:60], args[0], w, ctx.aut)
            pend = Outcome(ctx.aut, V(1), wr=(args[0], v))
            err = Outcome(ctx.aut, V(0, V(1, None)))
            if w == "fut:read":
                if dirty:
                    ctx.report("read-unflushed", "the connection waits for more from the client before what it wrote was flushed")
                if ph in ("sq",):
                    ctx.report("query-dropped", "a complete query is neither run nor answered before the next is read")
                if ph in ("ran", "bad"):
                    if todo:
                        ctx.report("response-incomplete", "the next query is read before the whole response (missing: %s) was written" % ", ".join(todo))
                    if "b" not in clean:
                        ctx.report("buffer-kept", "the next query is read into a buffer that still holds the last one")
                if ph == "hs":
                    ctx.report("read-before-handshake", "a query is read before the handshake")
                if ph == "ready" and todo:
                    ctx.report("handshake-unanswered", "queries are read before the handshake was answered")
                return [pend, Outcome((ph, todo, dirty, clean, gen, "eof"), V(0, V(0, K(0)))), Outcome((ph, todo, dirty, clean, gen, None), V(0, V(0, G("n")))), err]
            if w == "fut:write":
                items = elems(ctx, fs[1])
                return [pend, Outcome(self.wrote(ctx, items), V(0, V(0, None))), err]
            if w == "fut:part":
                ctx.report("partial-write", "a response is written with a call that may write only a part of it")
                return None
            if w == "fut:flush":
                return [pend, Outcome((ph, todo, 0, clean, gen, eof), V(0, V(0, None))), err]
            return None
        if k == "hpoll":
            out = [Outcome(ctx.aut, V(1)), Outcome(ctx.aut, V(0, V(1, None)))]
            for i, n in enumerate(self.ph):
                a = {"Okay": ("ready", ("c72", "c0", "c0", "c0")), "Error": ("hserr", ("c72", "c0", "c1", "herr")), "ConnectionClosedFin": ("fin", ()), "ConnectionClosedRst": ("rst", ())}.get(n)
                f = {"Okay": (G("session"),), "Error": (G("he"),)}.get(n, ())
                out.append(Outcome(a + (0, "bcs", gen, None), V(0, V(0, V(i, *f)))))
            return out
        if k in ("hs", "disp"):
            if k == "disp":
                if ph != "sq":
                    ctx.report("run-without-query", "a query is run %s" % ("twice" if ph == "ran" else "before it was received in full"))
                elif "sq" not in tags(args[2] if len(args) > 2 else None):
                    ctx.report("run-other", "what is run is not the query that was just received")
                return [Outcome(("disp", todo, dirty, clean, gen, eof), None)]
            return None
        if k == "dpoll":
            out = [Outcome(ctx.aut, V(1))]
            for i, v in enumerate(self.resp):
                nm = v["n"]
                tn = "type:" + nm
                if nm == "Serialized":
                    exp = ("type:ty", "dec:size", "c10", "data")
                    f = tuple(G(x[0]) for x in v["f"])
                elif nm == "Bool":
                    out.append(Outcome(("ran", (tn, "c1"), dirty, "", gen, eof), V(0, V(0, V(i, TRUE)))))
                    exp, f = (tn, "c0"), (FALSE,)
                else:
                    exp, f = (tn,), ()
                out.append(Outcome(("ran", exp, dirty, "", gen, eof), V(0, V(0, V(i, *f)))))
            out.append(Outcome(("ran", ("type:Error", "lo:err", "hi:err"), dirty, "", gen, eof), V(0, V(1, G("err")))))
            return out
        if k == "fresh":
            w = "fresh:" + ("cur" if "Resume" in (c.path or "") else "st")
            return [Outcome(ctx.aut, G(w))]
        if k == "resume":
            cur, st = tags(args[1]), tags(args[2])
            if ph == "more":
                if cur != {"cur%d" % gen}:
                    ctx.report("cursor-lost", "an incomplete query is continued from a position other than where it stopped")
                if st != {"st%d" % gen}:
                    ctx.report("state-lost", "an incomplete query is continued with a state other than the one it stopped with")
            elif ph in ("ready", "idle", "ran", "bad"):
                if cur != {"fresh:cur"}:
                    ctx.report("cursor-stale", "a new query is parsed from a position left by an earlier one")
                if st != {"fresh:st"}:
                    ctx.report("state-stale", "a new query is parsed with the state left by an earlier one")
            else:
                ctx.report("parse-out-of-turn", "a query is parsed while the connection is not waiting for one")
            if eof:
                ctx.report("parse-after-close", "a query is parsed although the client closed the connection and sent nothing more")
            out = []
            for i, nm in enumerate(self.qx):
                if nm == "SQCompleted":
                    out.append(Outcome(("sq", (), dirty, "", gen, None), ("s", (G("oldcur"), V(i, G("sq"))))))
                elif nm == "ChangeState":
                    g = 1 - gen
                    out.append(Outcome(("more", (), dirty, "", g, None), ("s", (G("cur%d" % g), V(i, G("st%d" % g))))))
                else:
                    out.append(Outcome(("bad", ("type:Error", "lo:illegal", "hi:illegal"), dirty, "", gen, None), ("s", (G("oldcur"), V(i)))))
            return out
        if k == "type":
            v = args[0]
            if v is not None and v[0] in ("r", "bx"):
                v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            if v is not None and v[0] == "v":
                return [Outcome(ctx.aut, G("type:" + self.rt[v[1]]))]
            return [Outcome(ctx.aut, G(*["type:" + x for x in tags(v)] or ["?"]))]
        if k == "code":
            v = args[0]
            if v is not None and v[0] in ("r", "bx"):
                v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            if v is not None and v[0] == "v":
                return [Outcome(ctx.aut, G("illegal" if self.qerr[v[1]] == "SysNetworkSystemIllegalClientPacket" else "error:" + self.qerr[v[1]]))]
            return [Outcome(ctx.aut, G(*sorted(tags(v)) or ["?"]))]
        if k == "hcode":
            return [Outcome(ctx.aut, G(*["herr"] if "he" in tags(args[0]) else ["?"]))]
        if k.startswith("bytes:"):
            t = sorted(tags(args[0]))
            lo, hi = G(*["lo:" + x for x in t] or ["?"]), G(*["hi:" + x for x in t] or ["?"])
            return [Outcome(ctx.aut, ("s", (lo, hi) if k != "bytes:be" else (hi, lo)))]
        if k == "int":
            return [Outcome(ctx.aut, G(*["dec:" + x for x in sorted(tags(args[1]))] or ["?"]))]
        if k == "buf:is_empty":
            o = lambda e: (ph, todo, dirty, clean, gen, e if eof else None)
            return [Outcome(o("empty"), TRUE), Outcome(o("rest"), FALSE)]
        if k in ("buf:clear", "buf:truncate", "buf:advance", "buf:split"):
            if k == "buf:truncate" and args[1] != K(0) or k == "buf:advance" and "oldcur" not in tags(args[1]):
                return [Outcome(ctx.aut, None)]
            if ph in ("more", "sq"):
                ctx.report("buffer-cleared-early", "the bytes of a query that is not finished are dropped")
            return [Outcome((ph, todo, dirty, clean + "b" if "b" not in clean else clean, gen, eof), None)]
        return None

    def on_branch(self, ctx, op, a, b):
        if "n" in a and "#0" in b and op in ("Eq", "Le") or "n" in b and "#0" in a and op in ("Eq", "Ge") or "n" in a and "#1" in b and op == "Lt":
            return PRUNE        # a read that returned bytes
        return None

    def wrote(self, ctx, items):
        ph, todo, dirty, clean, gen, eof = ctx.aut
        self.see("wrote:" + ph)
        for it in items:
            if not todo:
                ctx.report("response-extra:" + ph, "%s is written although %s" % (it, {"more": "the query is not complete", "sq": "the query was not run yet", "ran": "the response is complete already", "bad": "the response is complete already"}.get(ph, "no response is due")))
                break
            if it != todo[0]:
                ctx.report("response-content:" + todo[0], "the response has `%s` where `%s` belongs" % (it, todo[0]))
            todo = todo[1:]
        return (ph, todo, 1, clean, gen, eof)

    def on_return(self, ctx, ret):
        if DBG: print("RET", ctx.stack, ret, ctx.aut)
        if ctx.stack or ret is None:
            return None
        v = ret
        if v[0] == "v" and v[1] != 0:
            return None
        ph, todo, dirty, clean, gen, eof = ctx.aut
        r = v[2][0] if v[0] == "v" and v[2] else None
        nm = self.ql[r[1]] if r is not None and r[0] == "v" else "?"
        self.see("end:" + nm)
        if ph == "hserr":
            if todo:
                ctx.report("handshake-error-unsent", "a connection whose handshake failed is closed without telling the client")
            if nm != "HSFailed":
                ctx.report("end-reported", "a failed handshake is reported as %s" % nm)
            return None
        want = {"fin": "Fin", "rst": "Rst", "empty": "Fin", "rest": "Rst"}.get(eof if ph not in ("fin", "rst") else ph)
        if want is None:
            ctx.report("closed-by-server", "the server ends a connection whose client has not closed it")
        elif nm != want:
            ctx.report("end-reported", "a connection that ended with %s is reported as %s" % ("nothing left to parse" if want == "Fin" else "an incomplete query", nm))
        if ph in ("sq", "ran", "bad") and todo:
            ctx.report("response-incomplete", "the connection ends before the response was written")
        return None


SC = r"engine::mem::scanner::Scanner(::)?<.*>::"
QST = "engine::net::protocol::exchange::QExchangeState"


class Parse(Spec):
    """one step of parsing a query packet  S <packet size> LF <window> LF <payload>

    aut = (first byte seen to be S, size complete, window complete, why (an error is due), checks, at)
    checks: target (>= cursor known), win (window <= payload), full (all of the payload is there), short (it is not)
    at: what the cursor stands behind"""
    name = "parse"
    tagging = True
    debug_asserts = True
    count_steps = True

    def __init__(self, prog, variant):
        super().__init__(prog)
        self.n = {}
        self.var = variants(prog, "engine::net::protocol::exchange::QExchangeStateInternal")
        self.vi = self.var.index(variant)
        self.qx = variants(prog, "engine::net::protocol::exchange::QExchangeResult")
        one, two = variant in ("PendingMeta2", "PendingData"), variant == "PendingData"
        self.start = (int(variant != "Initial"), int(one), int(two), "", frozenset(), "win" if two else "size" if one else "")
        f = {"state": V(self.vi), "target": G("target" if one else "target0"), "md_packet_size": G("size" if one else "size0"), "md_q_window": G("win" if two else "win0")}
        order = [x[0] for x in prog.adts[QST]["variants"][0]["f"]]
        self.order = order
        self.arg = ("s", tuple(f[n] for n in order))

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def kind(self, c):
        p = c.path or ""
        if re.search(r"net::protocol::scan_int$", p):
            return "int"
        m = re.search(SC + r"(\w+)$", p) if c.inst is not None else None
        if m:
            return "sc:" + m.group(2)
        m = re.search(r"num::<impl usize>::(checked_add|checked_sub)$", p)
        if m:
            return m.group(1)
        if re.search(r"exchange::SQuery::<'a>::new$", p):
            return "squery"
        if c.inst is None and re.search(r"^core::panicking::", p):
            return "panic"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        s, one, two, why, ck, at = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        if k == "int":
            which, acc = ("size", "size0") if not one else ("win", "win0")
            if not s:
                ctx.report("marker-unchecked", "a packet is parsed as a query without its first byte being the marker of a query")
            if two:
                ctx.report("metadata-again", "a number is parsed where the payload of the query begins")
            if tags(args[1]) != {acc}:
                ctx.report("partial-number:" + which, "the digits of a number received so far are not those its parsing continues with")
            d = (s, 1, two, why, ck, "size") if which == "size" else (s, one, 1, why, ck, "win")
            return [Outcome(d, V(0, V(1, G(which)))), Outcome(ctx.aut, V(0, V(0, G(which + "P")))), Outcome((s, one, two, "number", ck, at), V(1, K(0)))]
        if k == "sc:next_byte":
            return [Outcome(ctx.aut, G("byte"))]
        if k == "sc:cursor":
            return [Outcome(ctx.aut, G("cur:" + at))]
        if k == "sc:remaining":
            return [Outcome(ctx.aut, G("rem:" + at))]
        if k == "sc:eof":
            return [Outcome(ctx.aut, None)]
        if k == "sc:has_left":
            if self.payload(tags(args[1]), ck) and at == "win":
                return [Outcome((s, one, two, why, ck | {"full"}, at), TRUE), Outcome((s, one, two, why, ck | {"short"}, at), FALSE)]
            lit = args[1] is not None and args[1][0] == "k" and isinstance(args[1][1], int)
            if lit and args[1][1] <= (0 if self.vi or at else 5):
                return [Outcome(ctx.aut, TRUE)]
            return [Outcome(ctx.aut, TRUE), Outcome((s, one, two, why, ck | {"less"}, at), FALSE)]
        if k == "panic":
            if "less" in ck:
                ctx.report("panic-on-partial", "parsing a packet panics when fewer bytes than expected are left unread, which ends the connection without a response")
            return None
        if k == "checked_add":
            if tags(args[0]) | tags(args[1]) == {"cur:size", "size"}:
                return [Outcome(ctx.aut, V(1, G("target"))), Outcome((s, one, two, "overflow", ck, at), V(0))]
            return None
        if k == "checked_sub":
            if tags(args[0]) == {"target"} and tags(args[1]) == {"cur:win"}:
                return [Outcome(ctx.aut, V(1, G("payload"))), Outcome((s, one, two, "short packet", ck, at), V(0))]
            return None
        if k in ("sc:next_chunk_variable", "sc:try_next_variable_block"):
            if not self.payload(tags(args[1]), ck) or at != "win":
                ctx.report("payload-length", "the payload taken from the buffer is not what remains of the packet after its metadata")
            if k == "sc:try_next_variable_block":
                return [Outcome((s, one, two, why, ck | {"full"}, at), V(1, G("data"))), Outcome((s, one, two, why, ck | {"short"}, at), V(0))]
            if "full" not in ck:
                ctx.report("payload-incomplete", "the payload is taken from the buffer although it may not have been received in full")
            return [Outcome(ctx.aut, G("data"))]
        if k == "squery":
            if "data" not in tags(args[0]):
                ctx.report("query-data", "a query is made of something other than the payload of its packet")
            if tags(args[1]) != {"win"}:
                ctx.report("query-window", "the window of a query is not the one in its packet")
            if "win" not in ck:
                ctx.report("window-unchecked", "a query can have a window larger than its payload")
            return [Outcome((s, one, two, why, ck | {"made"}, at), G("query"))]
        return None

    def payload(self, t, ck):
        return t == {"payload"} or t == {"target", "cur:win"} and "target" in ck

    def on_branch(self, ctx, op, a, b):
        s, one, two, why, ck, at = ctx.aut
        FL = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        for x, y, o in ((a, b, op), (b, a, FL.get(op))):
            t = lambda z: frozenset(i for i in z if i[0] not in "#%")
            if "byte" in x and "#83" in y:
                if o == "Eq":
                    return (1, one, two, why, ck, at)
                if o == "Ne":
                    return (s, one, two, "marker", ck, at)
            if t(x) == {"win"} and self.payload(t(y), ck):
                if o in ("Le", "Lt", "Eq"):
                    return (s, one, two, why, ck | {"win"}, at)
                if o == "Gt":
                    return (s, one, two, "window", ck, at)
                if o in ("Ge", "Ne"):
                    return (s, one, two, why, ck | {"win?"}, at)
            if t(x) == {"rem:win"} and self.payload(t(y), ck):
                if o in ("Ge", "Eq"):
                    return (s, one, two, why, ck | {"full"}, at)
                return (s, one, two, why, ck | {"short"}, at)
            if x & {"rem:", "rem:size", "rem:win"} and not t(y) and o in ("Lt", "Le", "Ne") and self.vi:
                return (s, one, two, why, ck | {"less"}, at)
            if t(x) == {"target"} and t(y) == {"cur:win"}:
                if o in ("Ge", "Gt", "Eq"):
                    return (s, one, two, why, ck | {"target"}, at)
                if o == "Lt":
                    return (s, one, two, "short packet", ck, at)
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        s, one, two, why, ck, at = ctx.aut
        r = ret
        nm = self.qx[r[1]] if r is not None and r[0] == "v" else None
        self.see("ret:%s" % nm)
        if nm is None:
            ctx.report("result-unknown", "the outcome of parsing cannot be told")
        elif nm == "Error":
            if not why:
                ctx.report("refused", "a packet can be refused although nothing was found wrong with it")
        elif why:
            ctx.report("accepted-malformed", "parsing goes on although the packet is malformed (%s)" % why)
        elif nm == "SQCompleted":
            if "made" not in ck:
                ctx.report("query-unchecked", "a query is reported complete that was not made from a complete packet")
        else:
            if "full" in ck:
                ctx.report("complete-not-run", "a query that was received in full is reported incomplete")
            f = r[2][0] if r[2] else None
            if f is None or f[0] != "s":
                ctx.report("state-unknown", "the state in which parsing stops cannot be told")
                return None
            d = dict(zip(self.order, f[1]))
            tg = {k: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%") for k, v in d.items()}
            want = "PendingMeta1" if not one else "PendingMeta2" if not two else "PendingData"
            st = d["state"]
            if st is None or st[0] != "v" or self.var[st[1]] != want:
                ctx.report("resume-state:" + want, "parsing stops in `%s` where it has to continue as `%s`" % (self.var[st[1]] if st and st[0] == "v" else "?", want))
            if not one:
                if tg["md_packet_size"] != {"sizeP"}:
                    ctx.report("partial-number-kept:size", "the digits received of the packet size are not kept")
                if not tg["target"] <= {"target0", "+1"}:
                    ctx.report("resume-target", "parsing waits for some other number of bytes than one more")
            else:
                if tg["target"] != {"target"}:
                    ctx.report("resume-target", "parsing does not continue when the packet is complete")
                if tg["md_q_window"] != ({"win"} if two else {"winP"}):
                    ctx.report("partial-number-kept:window", "the %s of the window %s not kept" % (("value", "is") if two else ("digits received", "are")))
        return None


class Number(Spec):
    """scan_int: aut = (line feed next?, all digits so far, value (of the digits read), taken, eof)"""
    name = "number"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.acc = variants(prog, "engine::net::protocol::AccumlatorStatus")

    START = (None, 1, "acc", 0, None)

    def kind(self, c):
        p = c.path or ""
        m = re.search(SC + r"(\w+)$", p) if c.inst is not None else None
        if m:
            return "sc:" + m.group(2)
        m = re.search(r"num::<impl u(?:64|8)>::(checked_add|checked_mul|is_ascii_digit)$", p)
        return m.group(1) if m else None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.n[k] = self.n.get(k, 0) + 1
        lf, ok, val, took, eof = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "%")
        if k in ("sc:rounded_eq", "sc:rounded_cursor_not_eof_equals"):
            if "#10" not in ctx.eng.tags(ctx.env, args[1]):
                ctx.report("terminator", "a number is taken to end at some byte other than a line feed")
            return [Outcome((1, ok, val, took, 0), TRUE), Outcome((0, ok, val, took, eof), FALSE)]
        if k == "sc:eof":
            if eof is not None:
                return [Outcome(ctx.aut, TRUE if eof else FALSE)]
            return [Outcome((lf, ok, val, took, 1), TRUE), Outcome((lf, ok, val, took, 0), FALSE)]
        if k in ("sc:remaining", "sc:has_left"):
            return [Outcome(ctx.aut, None)]
        if k == "sc:next_byte":
            if eof != 0:
                ctx.report("past-the-end", "a byte is read without knowing that there is one left")
            if val != "acc":
                ctx.report("digit-lost", "a digit is read and not added to the number")
            return [Outcome((None, ok, "digit?", took, None), G("digit"))]
        if k == "is_ascii_digit":
            return [Outcome((lf, ok, "digit" if val == "digit?" else val, took, eof), TRUE), Outcome((lf, 0, val, took, eof), FALSE)]
        if k == "checked_mul":
            t = tags(args[0])
            if "acc" in t and "#10" in tags(args[1]):
                return [Outcome(ctx.aut, V(1, G("ten"))), Outcome((lf, 0, val, took, eof), V(0))]
            return [Outcome(ctx.aut, V(1, G("other"))), Outcome((lf, 0, val, took, eof), V(0))]
        if k == "checked_add":
            a, b = tags(args[0]), tags(args[1])
            if "ten" in a and "digit" in b or "ten" in b and "digit" in a:
                return [Outcome((lf, ok, "acc" if val == "digit" or not ok else val, took, eof), V(1, G("acc"))), Outcome((lf, 0, val, took, eof), V(0))]
            return [Outcome(ctx.aut, V(1, G("other"))), Outcome((lf, 0, val, took, eof), V(0))]
        if k in ("sc:incr_cursor", "sc:incr_cursor_if", "sc:incr_cursor_by"):
            v = args[1] if len(args) > 1 else K(1)
            if v == K(1) or v == TRUE:
                if lf != 1:
                    ctx.report("skipped", "a byte that is not the line feed behind a number is skipped")
                return [Outcome((None, ok, val, 1, None), None)]
            if v == K(0) or v == FALSE:
                return [Outcome(ctx.aut, None)]
            ctx.report("skipped", "how many bytes behind a number are skipped cannot be told")
            return [Outcome(ctx.aut, None)]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        lf, ok, val, took, eof = ctx.aut
        if ret is None or ret[0] != "v":
            ctx.report("number-result", "the outcome of scanning a number cannot be told")
            return None
        if ret[1] == 1:
            self.n["err"] = self.n.get("err", 0) + 1
            if ok:
                ctx.report("number-refused", "a number can be refused although all of its bytes are digits and it fits")
            return None
        if not ok:
            ctx.report("number-malformed", "a number is accepted although a byte of it is no digit or it does not fit")
            return None
        r = ret[2][0] if ret[2] else None
        nm = self.acc[r[1]] if r is not None and r[0] == "v" else None
        self.n["ok:%s" % nm] = self.n.get("ok:%s" % nm, 0) + 1
        v = r[2][0] if nm and r[2] else None
        if "acc" not in ctx.eng.tags(ctx.env, v) or val != "acc":
            ctx.report("number-value", "the value of a number is not that of its digits")
        if nm == "Completed" and not took:
            ctx.report("number-unfinished", "a number is taken to be complete although its line feed was not read")
        if nm == "Pending" and took:
            ctx.report("number-unended", "a number whose line feed was read is reported incomplete")
        return None


class Closing(Spec):
    """the task of a connection sends what the connection loop left unsent (aut: loop ended, unsent)"""
    name = "closing"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}

    def kind(self, c):
        p = c.path or ""
        if re.search(r"PollFn<F> as std::future::Future>::poll$", p):
            return "select"
        if re.search(r"(^|::)poll_fn$", p):
            return "poll_fn"
        if c.inst is not None and re.search(r"net::protocol::query_loop::\{closure#\d+\}$", p):
            return "loop"
        if c.inst is None and FUT["flush"].search(p):
            return "flush"
        if c.inst is None and re.search(r"^<tokio::io::util::.* as std::future::Future>::poll$", p):
            return "poll"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.n[k] = self.n.get(k, 0) + 1
        if k == "select":
            b = ctx.inst.body.blocks[ctx.bb]["t"]
            ty = self.prog.types[self.prog.lty(ctx.inst, b[3][0])]
            inner = self.prog.types[ty["a"][0]] if ty.get("a") else None
            if inner is None or "select_util::Out" not in inner["s"]:
                return None
            r = []
            for i, a in enumerate(inner["a"]):
                if "QueryLoopResult" in self.prog.tys(a):
                    r += [Outcome((1, 1), V(0, V(i, V(0, None)))), Outcome((1, 0), V(0, V(i, V(1, None))))]
                else:
                    r.append(Outcome(ctx.aut, V(0, V(i, None))))
            return r
        if k == "poll_fn":
            return [Outcome(ctx.aut, G("poll_fn"))]
        if k == "loop":
            return [Outcome(ctx.aut, V(1)), Outcome((1, 1), V(0, V(0, None))), Outcome((1, 0), V(0, V(1, None)))]
        if k == "flush":
            return [Outcome(ctx.aut, ("s", (G("fut:flush"),)))]
        v = args[0]
        d = 6
        while v is not None and v[0] in ("r", "bx") and d:
            v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            d -= 1
        if "fut:flush" in ctx.eng.tags(ctx.env, v):
            return [Outcome(ctx.aut, V(1), wr=(args[0], v)), Outcome((ctx.aut[0], 0), V(0, V(0, None))), Outcome((ctx.aut[0], 0), V(0, V(1, None)))]
        return None

    def on_return(self, ctx, ret):
        if not ctx.stack and ctx.aut[1]:
            ctx.report("left-unsent", "a connection is closed without sending what was last written to it")
        return None


class Window(Spec):
    """the query and its parameters are the payload up to and from the window"""
    name = "window"
    tagging = True

    def __init__(self, prog, want):
        super().__init__(prog)
        self.want = want
        self.n = 0

    def is_event_call(self, c):
        return self.kind(c) is not None

    def kind(self, c):
        if c.inst is None and re.search(r"Index<I?.*>::index$|slice::<impl \[T\]>::(get|get_unchecked|split_at)$", c.path or ""):
            return "index"
        return None

    def on_call(self, ctx, c, args):
        if self.kind(c) is None:
            return None
        ga = str(c.ga) + str(c.t0)
        part = "to" if "RangeTo<" in ga else "from" if "RangeFrom<" in ga else None
        t = lambda v: {x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%"}
        if part is None or t(args[0]) != {"payload"} or t(args[1]) != {"window"}:
            return [Outcome(ctx.aut, G("other"))]
        self.n += 1
        return [Outcome(ctx.aut, G("part:" + part))]

    def on_return(self, ctx, ret):
        if not ctx.stack and {x for x in ctx.eng.tags(ctx.env, ret) if x[0] not in "#%"} != {"part:" + self.want}:
            ctx.report("window-split:" + self.want, "the %s of a query are not the part of its payload %s its window" % (("text", "before") if self.want == "to" else ("parameters", "behind")))
        return None


class Plain(Spec):
    name = "plain"
    tagging = True

    def is_event_call(self, c):
        return False


HS = "engine::net::protocol::handshake::"
HS_ERR = ("CorruptedHSPacket", "RejectHSVersion", "RejectProtocol", "RejectExchangeMode", "RejectQueryMode", "RejectAuth")
HS_ENUM = (None, "HandshakeVersion", "ProtocolVersion", "DataExchangeMode", "QueryMode", "AuthMode")


def arith(c):
    p = c.path or ""
    if c.inst is None and (re.search(r"num::<impl \w+>::\w+$", p) or re.search(r"cmp::(Ord::)?(max|min|clamp)$", p) or re.search(r"as std::cmp::Ord>::(max|min|clamp)$", p) or re.search(r"cmp::impls::<impl .*Ord for \w+>::(max|min|clamp)$", p)):
        return "arith"
    return None


def computed(ctx, c, args):
    """a number computed by a library function: what it is made of, and that it is not any of that"""
    t = set()
    for a in args:
        t |= {x for x in ctx.eng.tags(ctx.env, a) if x[0] not in "#%"}
    return [Outcome(ctx.aut, G(*t, "?" + (c.path or "").rsplit("::", 1)[-1]))]


class Hello(Spec):
    """one step of parsing a handshake  H <5 choices> <length> LF <length> LF <username> <password>

    aut = (ok, bad, at, why, ck)
    ok/bad  which of the six leading bytes are known to be acceptable / not to be
    at      what the cursor stands behind: '' | fixed | uname | pwd
    why     a number is malformed (an error is due); or 'wait:...': more is needed
    ck      full: the credentials are all there"""
    name = "hello"
    inline_blocks = 200
    inline_results = 40
    disjunctions = True
    tagging = True
    count_steps = True

    def __init__(self, prog, variant):
        super().__init__(prog)
        self.n = {}
        vs = prog.adts[HS + "HandshakeState"]["variants"]
        self.var = [v["n"] for v in vs]
        self.fields = [[x[0] for x in v["f"]] for v in vs]
        self.vi = self.var.index(variant)
        self.err = variants(prog, HS + "ProtocolError")
        self.res = variants(prog, HS + "HandshakeResult")
        self.rf = [[x[0] for x in v["f"]] for v in prog.adts[HS + "HandshakeResult"]["variants"]]
        self.max = [None] + [len(variants(prog, HS + n)) - 1 for n in HS_ENUM[1:]]
        at = {"Initial": "", "StaticBlock": "fixed", "ExpectingMetaForVariableBlock": "uname", "ExpectingVariableBlock": "pwd"}[variant]
        allok = frozenset(range(6)) if at else frozenset()
        self.start = (allok, frozenset(), at, "", frozenset())
        self.arg = V(self.vi, *[G("hs" if n in ("static_hs", "0") else n) for n in self.fields[self.vi]])

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def kind(self, c):
        p = c.path or ""
        m = re.search(SC + r"(\w+)$", p) if c.inst is not None else None
        if m:
            return "num" if m.group(2).startswith("try_next_ascii_u64_lf_separated_with_result_or") else "num?" if m.group(2).startswith("try_next_ascii") else "sc:" + m.group(2)
        m = re.search(r"num::<impl usize>::(checked_add|saturating_add)$", p)
        if m:
            return m.group(1)
        return arith(c)

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        if k == "arith":
            return computed(ctx, c, args)
        ok, bad, at, why, ck = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        if k == "sc:next_chunk":
            if at:
                ctx.report("fixed-again", "the fixed part of a handshake is read again behind it")
            if "six" not in ck:
                ctx.report("fixed-short", "the fixed part of a handshake is read without knowing that it was received in full")
            return [Outcome((ok, bad, "fixed", why, ck), ("s", tuple(G("b%d" % i) for i in range(6))))]
        if k == "sc:remaining":
            return [Outcome(ctx.aut, G("rem:" + at))]
        if k == "sc:cursor":
            return [Outcome(ctx.aut, G("cur:" + at))]
        if k == "sc:eof":
            return [Outcome(ctx.aut, None)]
        if k == "sc:has_left":
            t = ctx.eng.tags(ctx.env, args[1])
            if at == "pwd" and self.block(tags(args[1])):
                return [Outcome((ok, bad, at, why, ck | {"full"}), TRUE), Outcome((ok, bad, at, "wait", ck | {"short"}), FALSE)]
            if at == "" and "#6" in t:
                return [Outcome((ok, bad, at, why, ck | {"six"}), TRUE), Outcome((ok, bad, at, "wait", ck), FALSE)]
            if at == "fixed" and t & {"#1", "#2", "#3", "#4"}:
                return [Outcome(ctx.aut, TRUE), Outcome((ok, bad, at, "wait", ck), FALSE)]
            return [Outcome(ctx.aut, None)]
        if k == "num":
            if at not in ("fixed", "uname"):
                ctx.report("length-out-of-turn", "a length is parsed %s" % ("where the credentials begin" if at else "where the fixed part of the handshake begins"))
            nx = "uname" if at == "fixed" else "pwd"
            rv = variants(self.prog, "engine::mem::scanner::ScannerDecodeResult")
            o = {"Value": Outcome((ok, bad, nx, why, ck), V(rv.index("Value"), G(nx + "_l"))),
                 "NeedMore": Outcome((ok, bad, at, "wait", ck), V(rv.index("NeedMore"))),
                 "Error": Outcome((ok, bad, at, "number", ck), V(rv.index("Error")))}
            return [o[n] for n in rv]
        if k == "num?":
            ctx.report("length-scan", "a length is scanned in a way that does not tell an incomplete number from a malformed one")
            return None
        if k in ("checked_add", "saturating_add"):
            t = tags(args[0]) | tags(args[1])
            if t == {"uname_l", "pwd_l"} and k == "checked_add":
                return [Outcome(ctx.aut, V(1, G("auth_l"))), Outcome((ok, bad, at, "overflow", ck), V(0))]
            if k == "saturating_add":
                r = ctx.eng.tags(ctx.env, args[0]) | ctx.eng.tags(ctx.env, args[1])
                return [Outcome(ctx.aut, G(*["+" + x[1:] if x[0] == "#" else x for x in r]))]
            return None
        if k in ("sc:next_chunk_variable", "sc:try_next_variable_block"):
            t = tags(args[1])
            if at not in ("pwd", "name"):
                ctx.report("credentials-early", "the credentials are read before both of their lengths")
            want = "uname_l" if at == "pwd" else "pwd_l"
            if t != {want}:
                ctx.report("credential-length:" + want, "the %s of a handshake is not as long as it says" % ("username" if at == "pwd" else "password"))
            nx, r = ("name", "username") if at == "pwd" else ("all", "password")
            if k == "sc:try_next_variable_block":
                return [Outcome((ok, bad, nx, why, ck | ({"full"} if nx == "all" else set())), V(1, G(r))), Outcome((ok, bad, at, "wait", ck | {"short"}), V(0))]
            if "full" not in ck:
                ctx.report("credentials-incomplete", "the credentials are taken from the buffer although they may not have been received in full")
            return [Outcome((ok, bad, nx, why, ck), G(r))]
        return None

    def block(self, t):
        return t == {"auth_l"}

    def on_branch(self, ctx, op, a, b):
        ok, bad, at, why, ck = ctx.aut
        FL = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        for x, y, o in ((a, b, op), (b, a, FL.get(op))):
            num = next((int(i[1:]) for i in y if re.match(r"#\d+$", i)), None)
            t = frozenset(i for i in x if i[0] not in "#%")
            for i in range(6):
                if t == {"b%d" % i} and num is not None:
                    m = self.max[i]
                    if i == 0:
                        good = o == "Eq" and num == 72
                        wrong = o == "Ne" and num == 72 or o == "Eq" and num != 72
                    else:
                        good = (o == "Le" and num <= m) or (o == "Lt" and num <= m + 1) or (o == "Eq" and num <= m)
                        wrong = (o == "Gt" and num >= m) or (o == "Ge" and num > m) or (o == "Eq" and num > m) or (o == "Ne" and num == 0 and m == 0)
                    if good:
                        return PRUNE if i in bad else (ok | {i}, bad, at, why, ck)
                    if wrong:
                        return PRUNE if i in ok else (ok, bad | {i}, at, why, ck)
            if len(t) == 1 and next(iter(t)).startswith("rem:"):
                if at == "" and num is not None:
                    if o == "Ge" and num >= 6 or o == "Gt" and num >= 5 or o == "Eq" and num >= 6:
                        return (ok, bad, at, why, ck | {"six"})
                    if o == "Lt" and num <= 6:
                        return (ok, bad, at, "wait", ck)
                if at == "fixed" and num is not None and (o == "Lt" and num <= 4 or o == "Le" and num <= 3):
                    return (ok, bad, at, "wait", ck)
                if at == "pwd" and self.block(frozenset(i for i in y if i[0] not in "#%")):
                    if o in ("Ge", "Eq"):
                        return (ok, bad, at, why, ck | {"full"})
                    if o == "Lt":
                        return (ok, bad, at, "wait", ck | {"short"})
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        ok, bad, at, why, ck = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        nm = self.res[ret[1]] if ret is not None and ret[0] == "v" else None
        self.see("ret:%s" % nm)
        if nm is None:
            ctx.report("result-unknown", "the outcome of a step of the handshake cannot be told")
            return None
        allok = ok == frozenset(range(6))
        if nm == "Error":
            v = ret[2][0] if ret[2] else None
            if v is None or v[0] != "v":
                ctx.report("error-unknown", "why a handshake is refused cannot be told")
                return None
            en = self.err[v[1]]
            if why in ("number", "overflow"):
                if en != "CorruptedHSPacket":
                    ctx.report("error-kind", "a handshake with a malformed length is refused as `%s`" % en)
                return None
            if why == "wait":
                ctx.report("refused-incomplete", "a handshake of which a part is yet to come is refused")
                return None
            j = HS_ERR.index(en) if en in HS_ERR else 0
            if j in ok or at == "":
                ctx.report("refused:" + en, "a handshake is refused with `%s` although what that stands for was found in order" % en)
            elif not frozenset(range(j)) <= ok:
                ctx.report("refused-first:" + en, "a handshake is refused with `%s` although something before that may be wrong" % en)
            return None
        if why in ("number", "overflow"):
            ctx.report("accepted-malformed", "a handshake with a malformed length is accepted")
        if nm == "ChangeState":
            d = dict(zip(self.rf[ret[1]], ret[2]))
            st = d.get("new_state")
            stn = self.var[st[1]] if st is not None and st[0] == "v" else None
            want = {"": "Initial", "fixed": "StaticBlock", "uname": "ExpectingMetaForVariableBlock", "pwd": "ExpectingVariableBlock"}.get(at)
            if why != "wait":
                ctx.report("wait-for-nothing", "a handshake waits for more although nothing was found missing")
            if stn != want:
                ctx.report("resume-state:" + str(want), "a handshake stops in `%s` where it has to continue as `%s`" % (stn, want))
            elif want != "Initial":
                if not allok:
                    ctx.report("unchecked", "a handshake goes on although one of its choices (byte %s) may not be supported" % sorted(frozenset(range(6)) - ok)[0])
                f = dict(zip(self.fields[st[1]], st[2]))
                for k in ("uname_l", "pwd_l"):
                    if k in f and tags(f[k]) != {k}:
                        ctx.report("length-lost:" + k, "a length of the credentials is not kept while waiting for more")
                if self.var[self.vi] != "Initial":
                    for k in ("static_hs", "0"):
                        if k in f and tags(f[k]) != {"hs"}:
                            ctx.report("choices-lost", "the choices of the client are not kept while waiting for more")
            ex = d.get("expect")
            t = ctx.eng.tags(ctx.env, ex)
            least = {"": 6, "fixed": 10, "uname": 10}.get(at)
            known = next((int(i[1:]) for i in t if re.match(r"#\d+$", i)), None) if ex is None or ex[0] != "k" else ex[1]
            base = frozenset(i for i in t if i[0] not in "#%")
            good = known is not None and not base and known <= (least or 10)
            if at in ("uname", "pwd") and not good:
                plus = [int(i[1:]) for i in base if re.match(r"\+\d+$", i)]
                core = frozenset(i for i in base if not re.match(r"\+\d+$", i))
                good = core <= ({"uname_l"} if at == "uname" else {"uname_l", "pwd_l", "auth_l"}) and len(core) <= 1 and (sum(plus) <= 10)
            if not good:
                ctx.report("waits-for-more:" + (at or "start"), "a handshake may wait for more bytes than it has")
            return None
        # completed
        if at != "all":
            ctx.report("completed-early", "a handshake is taken to be complete before its credentials were read")
        if not allok:
            ctx.report("unchecked", "a handshake is accepted although one of its choices (byte %s) may not be supported" % (sorted(frozenset(range(6)) - ok) or ["?"])[0])
        got = []
        def walk(v, d=6):
            if v is None or not d:
                got.append(None)
            elif v[0] in ("s", "c"):
                for x in v[-1]:
                    walk(x, d - 1)
            else:
                got.append(v)
        hs = ret[2][0] if ret[2] else None
        f = dict(zip([x[0] for x in self.prog.adts[HS + "CHandshake"]["variants"][0]["f"]], hs[1])) if hs is not None and hs[0] == "s" else {}
        au = f.get("hs_auth")
        g = dict(zip([x[0] for x in self.prog.adts[HS + "CHandshakeAuth"]["variants"][0]["f"]], au[1])) if au is not None and au[0] == "s" else {}
        for k in ("username", "password"):
            if tags(g.get(k)) != {k}:
                ctx.report("credential:" + k, "the %s of a handshake is not the one that was received" % k)
        return None


class HelloLoop(Spec):
    """receiving a handshake: aut = (phase, gen, eof, advanced)

    phase  new | more (a step stopped midway) | done | utf | user (verified) | deny | bad"""
    name = "hello-loop"
    tagging = True
    field_tags = {}

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.res = prog.adts[HS + "HandshakeResult"]["variants"]
        self.ph = variants(prog, "engine::net::protocol::PostHandshake")
        self.vu = variants(prog, "engine::core::system_db::VerifyUser")
        self.err = variants(prog, HS + "ProtocolError")
        f = {"hs_static": G("static"), "hs_auth": None}
        au = ("s", tuple(G(x[0]) for x in prog.adts[HS + "CHandshakeAuth"]["variants"][0]["f"]))
        f["hs_auth"] = au
        self.hs = ("s", tuple(f.get(x[0]) for x in prog.adts[HS + "CHandshake"]["variants"][0]["f"]))

    START = ("new", 0, None, 0)

    def kind(self, c):
        p = c.path or ""
        if c.inst is None:
            f = next((k for k, rx in FUT.items() if rx.search(p)), None)
            if f:
                return f
            if re.search(r"^<tokio::io::util::.* as std::future::Future>::poll$", p):
                return "poll"
            if p.startswith(BUF) or (c.selfty or "").endswith("BytesMut"):
                m = p.rsplit("::", 1)[-1]
                if m in ("clear", "is_empty", "advance", "truncate", "split", "split_to", "len", "reserve"):
                    return "buf:" + m
            if re.search(r"str::from_utf8$", p):
                return "utf8"
            return arith(c)
        if re.search(r"CHandshake::<'a>::resume_with$", p):
            return "step"
        if re.search(SC + "(new_with_cursor|new)$", p):
            return "scanner:" + p.rsplit("::", 1)[-1]
        if re.search(SC + "cursor$", p):
            return "cursor"
        if re.search(r"SystemDatabase::verify_user$", p):
            return "verify"
        if re.search(r"HandshakeState as std::default::Default>::default$", p):
            return "fresh"
        if re.search(r"ClientLocalState::new$", p):
            return "session"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.n[k] = self.n.get(k, 0) + 1
        if k == "arith":
            return computed(ctx, c, args)
        ph, gen, eof, adv = ctx.aut
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        if k in ("read", "write", "part", "flush"):
            return [Outcome(ctx.aut, ("s", (G("fut:" + k),)))]
        if k == "poll":
            v = args[0]
            d = 6
            while v is not None and v[0] in ("r", "bx") and d:
                v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
                d -= 1
            if "fut:read" not in ctx.eng.tags(ctx.env, v):
                return None
            if ph not in ("new", "more"):
                ctx.report("read-on", "a handshake that is over is read on")
            return [Outcome(ctx.aut, V(1), wr=(args[0], v)), Outcome((ph, gen, "eof", adv), V(0, V(0, K(0)))), Outcome((ph, gen, None, adv), V(0, V(0, G("n")))), Outcome(ctx.aut, V(0, V(1, None)))]
        if k == "buf:is_empty":
            o = lambda e: (ph, gen, e if eof else None, adv)
            return [Outcome(o("empty"), TRUE), Outcome(o("rest"), FALSE)]
        if k == "buf:len":
            return [Outcome(ctx.aut, G("received"))]
        if k == "buf:reserve":
            return [Outcome(ctx.aut, None)]
        if k.startswith("buf:"):
            if ph in ("new", "more"):
                ctx.report("dropped", "bytes of a handshake are dropped before it is complete")
            elif ph != "deny" and (k not in ("buf:advance", "buf:split_to") or tags(args[1]) != {"end"}):
                ctx.report("not-the-handshake", "what is dropped from the buffer after a handshake is not the handshake")
            elif adv:
                ctx.report("dropped-twice", "a handshake is dropped from the buffer twice")
            return [Outcome((ph, gen, eof, 1), None)]
        if k.startswith("scanner"):
            t = args[1] if len(args) > 1 else K(0)
            ct = tags(t)
            return [Outcome(ctx.aut, ("s", (G("at:0") if t == K(0) else G(*["at:" + x for x in ct] or ["at:?"]),)))]
        if k == "fresh":
            return [Outcome(ctx.aut, G("fresh"))]
        if k == "cursor":
            return [Outcome(ctx.aut, G("end" if ph not in ("new", "more") else "pos%d" % gen))]
        if k == "step":
            sc, st = tags(args[0]), tags(args[1])
            v0 = args[1]
            initial = st == {"fresh"} or v0 is not None and v0[0] == "v" and variants(self.prog, HS + "HandshakeState")[v0[1]] == "Initial"
            if eof:
                ctx.report("parse-after-close", "a handshake is parsed although the client closed the connection")
            if ph == "new":
                if sc != {"at:0"}:
                    ctx.report("position", "a handshake is not parsed from the start of what was received")
                if not initial:
                    ctx.report("state", "a handshake does not start in its initial state")
            elif ph == "more":
                if sc != {"at:pos%d" % gen}:
                    ctx.report("position-lost", "a handshake is continued from a position other than where it stopped")
                if st != {"hs%d" % gen}:
                    ctx.report("state-lost", "a handshake is continued with a state other than the one it stopped with")
            else:
                ctx.report("parse-again", "a handshake that is over is parsed again")
            out = []
            g = 1 - gen
            for i, v in enumerate(self.res):
                if v["n"] == "Completed":
                    out.append(Outcome(("done", gen, None, 0), V(i, self.hs)))
                elif v["n"] == "ChangeState":
                    f = {"new_state": G("hs%d" % g), "expect": G("expect%d" % g)}
                    out.append(Outcome(("more", g, None, 0), V(i, *[f.get(x[0], None) for x in v["f"]])))
                else:
                    out.append(Outcome(("bad", gen, None, 0), V(i, G("e"))))
            return out
        if k == "utf8":
            if tags(args[0]) != {"username"}:
                return None
            return [Outcome(ctx.aut, V(0, G("username"))), Outcome(("deny", gen, eof, adv), V(1, None))]
        if k == "verify":
            if ph != "done":
                ctx.report("verify-early", "credentials are verified that are not those of a complete handshake")
            if tags(args[1]) != {"username"} or tags(args[2]) != {"password"}:
                ctx.report("verify-other", "what is verified is not the username and the password of the handshake")
            return [Outcome(("user" if n.startswith("Okay") else "deny", gen, eof, adv), V(i)) for i, n in enumerate(self.vu)]
        if k == "session":
            if ph != "user":
                ctx.report("session-unverified", "a session is opened for a client that was not verified")
            if "username" not in tags(args[0]):
                ctx.report("session-other", "a session is opened for a user other than the one that was verified")
            return [Outcome(ctx.aut, G("session"))]
        return None

    def on_branch(self, ctx, op, a, b):
        ph, gen, eof, adv = ctx.aut
        if "n" in a and "#0" in b and op in ("Eq", "Le") or "n" in b and "#0" in a and op in ("Eq", "Ge") or "n" in a and "#1" in b and op == "Lt":
            return PRUNE
        FL = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        for x, y, o in ((a, b, op), (b, a, FL.get(op))):
            if "received" in x and ph in ("new", "more") and o in ("Lt", "Le"):
                t = frozenset(i for i in y if i[0] not in "#%")
                num = [int(i[1:]) for i in y if re.match(r"#\d+$", i)]
                least = bool(num) and num[0] <= 6
                good = least and not t or ph == "more" and t == {"expect%d" % gen}
                if not good or o == "Le" and not (num and num[0] < 6):
                    ctx.report("waits-wrong", "whether enough of a handshake was received to go on is not decided by what its last step asked for")
        return None

    def on_return(self, ctx, ret):
        if ctx.stack or ret is None:
            return None
        if ret[0] == "v" and ret[1] != 0:
            return None
        ph, gen, eof, adv = ctx.aut
        r = ret[2][0] if ret[0] == "v" and ret[2] else None
        nm = self.ph[r[1]] if r is not None and r[0] == "v" else "?"
        self.n["end:" + nm] = self.n.get("end:" + nm, 0) + 1
        tags = lambda v: frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        if nm == "Okay":
            if ph != "user":
                ctx.report("accepted", "a handshake is accepted although its credentials were not verified")
            if not adv:
                ctx.report("handshake-kept", "a handshake stays in the buffer, where it is taken for a query")
        elif nm == "Error":
            e = r[2][0] if r[2] else None
            if ph == "bad":
                if tags(e) != {"e"}:
                    ctx.report("error-kind", "a handshake is refused with a code other than that of the problem found")
            elif ph == "deny":
                if e is None or e[0] != "v" or self.err[e[1]] != "RejectAuth":
                    ctx.report("deny-kind", "bad credentials are refused with something other than `RejectAuth`")
            else:
                ctx.report("refused", "a handshake is refused although nothing was found wrong with it")
        elif nm in ("ConnectionClosedFin", "ConnectionClosedRst"):
            if not eof:
                ctx.report("closed-by-server", "a handshake is given up although the client has not closed the connection")
            elif eof != {"ConnectionClosedFin": "empty", "ConnectionClosedRst": "rest"}[nm]:
                ctx.report("end-reported", "a connection closed during the handshake is reported as %s" % nm)
        else:
            ctx.report("result-unknown", "the outcome of a handshake cannot be told")
        return None
