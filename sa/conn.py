"""The limit on connections, the tasks that accept them and the tasks that serve them (C21)."""
import re
from .engine import Engine, Spec, Outcome, V, G, K, PRUNE

DBG = 0
RX_LOOP = re.compile(r"^engine::net::protocol::query_loop::\{closure#\d+\}$")
RX_ACQ = re.compile(r"^tokio::sync::Semaphore::acquire(_owned|_many|_many_owned)?$")
RX_TRY = re.compile(r"^tokio::sync::Semaphore::try_acquire(_\w+)?$")
RX_ACQ_POLL = re.compile(r"^tokio::sync::Semaphore::acquire(_owned|_many|_many_owned)?::\{closure#\d+\}$")
RX_ACC_POLL = re.compile(r"^tokio::net::(TcpListener|\w+::listener::TcpListener)::accept::\{closure#\d+\}$")
RX_ACC_POLLF = re.compile(r"^tokio::net::TcpListener::poll_accept$")
RX_TIME = re.compile(r"tokio::time::(sleep::)?(Sleep|Interval)\b|tokio::task::yield_now|tokio::time::Interval::tick")
RX_RECV_POLL = re.compile(r"^tokio::sync::(broadcast::Receiver|watch::Receiver|Notify|oneshot::Receiver)\b.*(recv|changed|notified)\b.*\{closure#\d+\}$")
RX_SPAWN = re.compile(r"^tokio::(task::)?(spawn|spawn_local|join_set::JoinSet.*::spawn\w*|JoinSet.*::spawn\w*|builder::Builder.*::spawn\w*)$|^tokio::runtime::.*::spawn$|JoinSet<T>::spawn(_on|_local)?$")
RX_KEEP = re.compile(r"^std::mem::forget$|ManuallyDrop<T>::new$|ManuallyDrop::<T>::new$|Box::?<T(, A)?>::(leak|into_raw)|SemaphorePermit(::)?<.*>::(forget|split|merge)$|OwnedSemaphorePermit::(forget|split|merge)$|Arc::?<T(, A)?>::into_raw")
RX_BLOCK = re.compile(r"^std::thread::(sleep|park|JoinHandle<.*>::join)|Handle::block_on$|Runtime::block_on$|futures::executor::block_on|blocking_(recv|send|lock|read|write)$")
PERMIT = "SemaphorePermit"


def has_permit(prog, tid, d=5):
    """does a value of this type own a permit"""
    seen = set()

    def go(t, d):
        if t is None or d < 0 or t in seen:
            return False
        seen.add(t)
        ty = prog.types[t]
        if re.match(r"^&|^\*", ty["s"]):
            return False
        if PERMIT in ty["s"]:
            return True
        for a in ty.get("a") or ():
            if isinstance(a, int) and go(a, d - 1):
                return True
        ad = prog.adts.get(ty.get("p"))
        if ad and (ty.get("p") or "").startswith("engine::"):
            for v in ad["variants"]:
                for f in v["f"]:
                    if go(f[1], d - 1):
                        return True
        return False
    return go(tid, d)


class Base(Spec):
    tagging = True
    moves = True
    str_consts = True
    field_tags = {}

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.loops = [i.id for i in prog.insts.values() if RX_LOOP.search(i.body.path)]
        self.serving = prog.reach_back(self.loops)

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def polled(self, c):
        """the future an external poll drives"""
        p = c.path or ""
        if c.declared == "std::future::Future::poll" or p.endswith("Future>::poll"):
            return p
        return None

    def tags(self, ctx, v):
        return frozenset(t for t in ctx.eng.tags(ctx.env, v) if t[0] not in "#%")

    def select_of(self, ctx, args):
        v = args[0]
        d = 8
        while v is not None and d:
            d -= 1
            if v[0] == "r":
                v = ctx.eng.read_path(ctx.env, v[1], v[2])
            elif v[0] == "bx":
                v = v[1]
            elif v[0] == "s" and len(v[1]) == 2 and v[1][0] == G("pollfn"):
                return v[1][1]
            else:
                return None
        return None

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return len(t[1]) == 1 and has_permit(self.prog, self.prog.lty(inst, t[1][0]))

    def keeps(self, ctx, c, args):
        """calls that would keep a permit from being given back"""
        if c.inst is None and RX_KEEP.search(c.path or "") and (any("permit" in self.tags(ctx, a) for a in args) or PERMIT in str(c.t0) or PERMIT in str(c.selfty)):
            ctx.report("permit-kept", "a permit is kept from being given back when its connection ends: by %s" % c.path)


class Accept(Base):
    """a task that accepts connections (aut: a permit is held, a connection was accepted)"""
    name = "accept"

    def __init__(self, prog):
        super().__init__(prog)
        self.spawned = {}

    def kind(self, c):
        p = c.path or ""
        if c.inst is not None:
            if c.inst.id in self.loops:
                return "serve"
            return None
        if RX_ACQ.search(p) or RX_TRY.search(p):
            return "acquire"
        if RX_SPAWN.search(p):
            return "spawn"
        if RX_KEEP.search(p):
            return "keep"
        if RX_BLOCK.search(p):
            return "block"
        if re.search(r"(^|::)poll_fn$", p):
            return "poll_fn"
        f = self.polled(c)
        if f:
            if RX_ACQ_POLL.search(f):
                return "acquired"
            if RX_ACC_POLL.search(f):
                return "accept"
            return "poll"
        if RX_ACC_POLLF.search(p):
            return "accept"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def stop(self, inst):
        return inst.id in self.loops

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        held, conn = ctx.aut
        if DBG: print(ctx.inst.body.path, ctx.bb, k, c.path, ctx.aut, args)
        if k == "acquire":
            s = args[0]
            self.see("pool:" + (s[1] if s is not None and s[0] == "st" else ",".join(sorted(self.tags(ctx, s))) or "?"))
            if RX_TRY.search(c.path):
                return [Outcome((1, conn), V(0, G("permit"))), Outcome(ctx.aut, V(1, None))]
            return [Outcome(ctx.aut, None)]
        if k == "acquired":
            return [Outcome(ctx.aut, V(1)), Outcome((1, conn), V(0, V(0, G("permit")))), Outcome(ctx.aut, V(0, V(1, None)))]
        if k == "accept":
            if not held:
                ctx.report("accepted-without-permit", "a connection is accepted before a permit for it was taken")
            return [Outcome(ctx.aut, V(1)), Outcome((held, 1), V(0, V(0, None))), Outcome(ctx.aut, V(0, V(1, None)))]
        if k == "spawn":
            v = args[-1] if args else None
            ins = [i for i in self.task(ctx, c, v) if i.id in self.serving]
            if not ins:
                return [Outcome(ctx.aut, None)]
            if not any("permit" in self.tags(ctx, a) for a in args):
                ctx.report("served-without-permit", "a connection is served by a task that does not hold a permit")
            for i in ins:
                self.spawned.setdefault(i.id, set()).add(self.flat(ctx, v))
            self.see("connection")
            return [Outcome((0, 0), None)]
        if k == "serve":
            ctx.report("served-in-place", "a connection is served by the task that accepts connections: no other is accepted meanwhile")
            return [Outcome(ctx.aut, None)]
        if k == "keep":
            self.keeps(ctx, c, args)
            return None
        if k == "block":
            ctx.report("accept-blocks", "the task that accepts connections blocks its thread in %s" % c.path)
            return None
        if k == "poll_fn":
            return [Outcome(ctx.aut, ("s", (G("pollfn"), args[0])))]
        # any other future
        f = self.polled(c)
        if "PollFn" in f:
            w = self.select_of(ctx, args)
            if w is None or w[0] != "c":
                ctx.report("accept-select", "what the task that accepts connections waits for could not be followed")
                return None
            for i in self.prog.insts.values():
                if i.body.path == w[1]:
                    for _, x in self.prog_polls(i):
                        self.allowed(ctx, x)
            return None
        self.allowed(ctx, f, c.selfty)
        return None

    def prog_polls(self, inst):
        out = []
        for j in self.prog.reach_fwd([inst.id]):
            i = self.prog.insts[j]
            for bb, b in enumerate(i.body.blocks):
                if b["t"][0] == "call" and not b.get("cl"):
                    c = self.prog.callee(i, bb)
                    if c.inst is None and self.polled(c):
                        out.append((i, (self.polled(c) or "") + " " + str(c.selfty)))
        return out

    def allowed(self, ctx, f, selfty=""):
        x = "%s %s" % (f, selfty or "")
        if RX_ACQ_POLL.search(f.split(" ")[0]) or RX_ACC_POLL.search(f.split(" ")[0]) or RX_TIME.search(x) or RX_RECV_POLL.search(f.split(" ")[0]):
            return
        if "MaybeDone" in f or "Pin<" in f:
            return
        ctx.report("accept-waits:" + re.sub(r"\{closure#\d+\}", "{..}", f)[:80], "the task that accepts connections waits for something other than a permit and the next connection (%s): a client can keep others from connecting" % f[:120])

    def task(self, ctx, c, v):
        d = 4
        while v is not None and v[0] in ("r", "bx") and d:
            v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            d -= 1
        if v is not None and v[0] == "c":
            r = [i for i in self.prog.insts.values() if i.body.path == v[1]]
            if r:
                return r
        if c.may:
            return list(c.may)
        # by the type of the future
        for t in ctx.inst.body.blocks[ctx.bb]["t"][2]:
            pass
        return []

    def flat(self, ctx, v, d=4):
        if v is None or d < 0:
            return None
        if v[0] == "c":
            return ("c", v[1], tuple(self.flat(ctx, x, d - 1) for x in v[2]))
        if v[0] == "s":
            return ("s", tuple(self.flat(ctx, x, d - 1) for x in v[1]))
        if v[0] == "bx":
            return ("bx", self.flat(ctx, v[1], d - 1))
        t = self.tags(ctx, v)
        return G("permit") if "permit" in t else None

    def on_drop(self, ctx, place, tys):
        held, conn = ctx.aut
        v = ctx.eng.operand(ctx.env, {"c": place}, ctx.inst)
        if v is not None and "permit" in self.tags(ctx, v):
            return (0, conn)
        return None


class Select(Base):
    """what a task waits for in one select (aut: 1 the termination was noticed, 2 its client was waited for)"""
    name = "select"

    def __init__(self, prog):
        super().__init__(prog)
        self.term = set()
        self.other = set()

    def kind(self, c):
        f = self.polled(c)
        if f is None:
            return None
        if c.inst is None and RX_RECV_POLL.search(f):
            return "recv"
        return "poll"

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        if ctx.aut & 1:
            ctx.report("termination-ignored", "a connection goes on waiting for its client after it was told that the server is terminating")
        if k == "recv":
            return [Outcome(ctx.aut, V(1)), Outcome(ctx.aut | 1, V(0, V(0, G("recv")))), Outcome(ctx.aut | 1, V(0, V(1, G("recv"))))]
        return [Outcome(ctx.aut, V(1)), Outcome(ctx.aut | 2, V(0, G("other")))]

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        if ctx.aut & 1:
            inner = ret[2][0] if ret is not None and ret[0] == "v" and ret[1] == 0 and ret[2] else None
            if inner is None or inner[0] != "v":
                ctx.report("termination-ignored", "a connection goes on waiting for its client after it was told that the server is terminating")
            else:
                self.term.add(inner[1])
        elif ctx.aut & 2 and ret is not None and ret[0] == "v" and ret[1] == 0 and ret[2] and ret[2][0] is not None and ret[2][0][0] == "v":
            self.other.add(ret[2][0][1])
        return None


class Task(Base):
    """the task that serves a connection (aut: permit given back, told to terminate)"""
    name = "task"

    def __init__(self, prog, res):
        super().__init__(prog)
        self.res = res
        self.sel = {}

    def kind(self, c):
        p = c.path or ""
        if c.inst is not None:
            if c.inst.id in self.loops:
                return "serve"
            return None
        if RX_KEEP.search(p):
            return "keep"
        if re.search(r"^std::mem::drop$", p):
            return "drop"
        if re.search(r"(^|::)poll_fn$", p):
            return "poll_fn"
        if re.search(r"<u\d+ as std::default::Default>::default$", p):
            return "zero"
        if re.search(r"AsyncWriteExt::(flush|shutdown)$", p):
            return "flush"
        if self.polled(c):
            return "poll"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def stop(self, inst):
        return inst.id in self.loops

    def select(self, path):
        if path not in self.sel:
            s = Select(self.prog)
            for i in [i for i in self.prog.insts.values() if i.body.path == path]:
                e = Engine(self.prog, s)
                e.run(i, 0)
                self.res.merge_engine(e, "_select")
            for k, n in s.n.items():
                self.see("select:" + k)
            self.sel[path] = s
        return self.sel[path]

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.see(k)
        gone, term = ctx.aut
        if DBG: print(ctx.inst.body.path, ctx.bb, k, c.path, ctx.aut, args)
        if k == "keep":
            self.keeps(ctx, c, args)
            return None
        if k == "drop":
            if any("permit" in self.tags(ctx, a) for a in args):
                return [Outcome((1, term), None)]
            return None
        if k == "zero":
            return [Outcome(ctx.aut, K(0))]
        if k == "poll_fn":
            for x in args[0][2] if args[0] is not None and args[0][0] == "c" else ():
                if x is not None and x[0] == "r" and self.small(ctx, x) and ctx.eng.read_path(ctx.env, x[1], x[2]) != K(0):
                    ctx.report("branch-disabled", "a connection may wait for its client with the branch for the termination of the server disabled")
            return [Outcome(ctx.aut, ("s", (G("pollfn"), args[0])))]
        if k == "flush":
            return [Outcome(ctx.aut, ("s", (G("fut:flush"),)))]
        # the client is waited for
        if gone:
            ctx.report("permit-given-back-early", "a connection goes on after its permit was given back")
        if k == "serve":
            ctx.report("not-told-to-terminate", "a connection waits for its client without waiting for the termination of the server")
            return [Outcome(ctx.aut, V(1)), Outcome(ctx.aut, V(0, None))]
        f = self.polled(c)
        if "PollFn" in f:
            w = self.select_of(ctx, args)
            if w is None or w[0] != "c":
                ctx.report("select-unknown", "what a connection waits for could not be followed")
                return None
            s = self.select(w[1])
            if not s.n.get("recv"):
                ctx.report("not-told-to-terminate", "a connection waits for its client without waiting for the termination of the server")
            if term:
                ctx.report("goes-on-terminating", "a connection goes on after it was told that the server is terminating")
            keep = (args[0], ctx.eng.read_path(ctx.env, args[0][1], args[0][2])) if args[0][0] == "r" else None
            r = [Outcome(ctx.aut, V(1), wr=keep)]
            for i in s.term | s.other:
                r.append(Outcome((gone, 1 if i in s.term else term), V(0, V(i, None)), wr=keep))
            return r
        if RX_RECV_POLL.search(f) or RX_TIME.search(f + " " + str(c.selfty)):
            return None
        v = args[0]
        d = 6
        while v is not None and v[0] in ("r", "bx") and d:
            v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            d -= 1
        if "fut:flush" in self.tags(ctx, v):
            return None
        if term:
            ctx.report("goes-on-terminating", "a connection goes on after it was told that the server is terminating")
        ctx.report("not-told-to-terminate", "a connection waits for its client without waiting for the termination of the server")
        return None

    def small(self, ctx, ref):
        k = ref[1]
        v = ctx.eng.read_path(ctx.env, ref[1], ref[2])
        return v is not None and v[0] == "k" or self.u8(ctx, ref)

    def u8(self, ctx, ref):
        try:
            l = ref[1][-1] if isinstance(ref[1], tuple) else ref[1]
            return not ref[2] and re.match(r"^u(8|16|32|64)$", self.prog.tys(self.prog.lty(ctx.inst, l))) is not None
        except Exception:
            return False

    def on_drop(self, ctx, place, tys):
        gone, term = ctx.aut
        v = ctx.eng.operand(ctx.env, {"c": place}, ctx.inst) if place else None
        if v is not None and "permit" in self.tags(ctx, v):
            return (1, term)
        return None


def listeners(prog):
    """the tasks that accept connections: the outermost coroutines of the network that reach both"""
    loops = [i.id for i in prog.insts.values() if RX_LOOP.search(i.body.path)]
    serving = prog.reach_back(loops)
    acc = set()
    for i in prog.insts.values():
        for bb, b in enumerate(i.body.blocks):
            if b["t"][0] == "call" and not b.get("cl"):
                c = prog.callee(i, bb)
                if c.inst is None and (RX_ACC_POLL.search(c.path or "") or RX_ACC_POLLF.search(c.path or "")):
                    acc.add(i.id)
    acc_r = prog.reach_back(list(acc))
    both = [j for j in serving & acc_r if prog.insts[j].body.is_coroutine and prog.insts[j].body.path.startswith("engine::net::")]
    inner = set()
    for j in both:
        inner |= {x for x in prog.reach_fwd([j]) if x in both and x != j}
    return acc, [j for j in both if j not in inner]
