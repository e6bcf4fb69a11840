"""Order of a clean shutdown: connections, final sync, closing of the journals."""
import re
from .engine import Spec, Outcome, V, TRUE, FALSE, G
from .faults import IMPL, kind_of, NAME

MODEL = "engine::core::model::Model"


class Fanout(Spec):
    """something is done for every model of the namespace, however the others fare

    aut = (pending, gns done, complete, driver state, send failed)"""
    name = "fanout"
    tagging = True
    start = (0, 0, 0, None, 0)

    def __init__(self, prog, what):
        super().__init__(prog)
        self.what = what
        self.n = {}
        self.survived = False

    def models(self, c):
        s = c.selfty or ""
        return MODEL in s and "hash_map::" in s

    def each(self, c):
        n = (c.path or "").rsplit("::", 1)[-1]
        return n in ("for_each",) and MODEL in ((c.selfty or "") + str(c.t0 or ""))

    def nxt(self, c):
        return c.ext is not None and (c.path or "").endswith("::next") and self.models(c)

    def jr(self, c):
        m = re.search(r"RawJournalWriter::<.*>::(\w+)$", c.path or "")
        if not m or c.inst is None:
            return None
        k = kind_of("RawJournalWriter " + c.inst.args)
        if m.group(1) == "__lwt_heartbeat" or "heartbeat" in m.group(1):
            return (k, "hb")
        if re.match(r"_*close", m.group(1)):
            return (k, "close")
        if m.group(1).startswith("commit"):
            return (k, "commit")
        return None

    def atom(self, c):
        return bool(re.search(r"sync::atomic::Atomic::<bool>::load$", c.path or ""))

    def is_event_call(self, c):
        return bool(self.nxt(c) or self.jr(c) or self.each(c) or self.sent(c) or self.took(c))

    def sent(self, c):
        return bool(re.search(r"mpsc::UnboundedSender::<T>::send$", c.path or ""))

    def took(self, c):
        return self.what == "sync" and bool(re.search(r"sync::atomic::Atomic::<usize>::(swap|fetch_sub|fetch_update|compare_exchange\w*)$", c.path or ""))

    def has_event(self, inst):
        if IMPL.search(inst.body.path):
            return any(b["t"][0] == "call" and self.atom(self.prog.callee(inst, bb)) for bb, b in enumerate(inst.body.blocks) if not b.get("cl"))
        return super().has_event(inst)

    def miss(self, ctx):
        if self.what == "close":
            ctx.report("model-not-closed", "at shutdown the journal of a model can be passed over without closing it")
        else:
            ctx.report("model-not-synced", "the final sync can pass over a model without writing its outstanding changes")

    def on_call(self, ctx, c, args):
        pend, gns, end, drv, sf = ctx.aut
        if self.nxt(c):
            if pend and not (self.what == "sync" and drv == "bad"):
                self.miss(ctx)
            self.n["next"] = self.n.get("next", 0) + 1
            if sf:
                self.survived = True
            return [Outcome((1, gns, 0, None, 0), V(1, None)), Outcome((0, gns, 1, None, 0), V(0))]
        if self.each(c):
            self.n["next"] = self.n.get("next", 0) + 1
            for x in c.may:
                if x.id in ctx.eng.rel:
                    for o in ctx.eng.call_closure(ctx.inst, ctx.bb, x, args, None, dict(ctx.env), (1, gns, 0, None, 0), ctx.stack):
                        if o[0][0] and not (self.what == "sync" and o[0][3] == "bad"):
                            self.miss(ctx)
                        if o[0][4]:
                            self.survived = True
                else:
                    self.miss(ctx)
            return [Outcome((0, gns, 1, None, 0), None)]
        if self.sent(c) and self.what == "sync":
            return [Outcome(ctx.aut, V(0, None)), Outcome((pend, gns, end, drv, 1), V(1, None))]
        if self.took(c):
            return [Outcome(ctx.aut, G("taken"))]
        if self.atom(c) and IMPL.search(ctx.inst.body.path):
            return [Outcome((pend, gns, end, "ok", sf), TRUE), Outcome((pend, gns, end, "bad", sf), FALSE)]
        j = self.jr(c)
        if j:
            k, what = j
            self.n[what] = self.n.get(what, 0) + 1
            if what == "hb":
                # an attempt: if recovery fails there's nothing more to be done for this journal
                return [Outcome((pend, gns, end, "ok", sf), V(0, None)),
                        Outcome((0 if k == "M" else pend, 1 if k == "G" else gns, end, "bad", sf), V(1, None))]
            if what == "close":
                if drv != "ok":
                    ctx.report("faulty-closed:" + k, "%s is closed at shutdown without it being known to have no unrecovered fault: its log could end in a partial record" % NAME.get(k, "a journal"))
                na = (0 if k == "M" else pend, 1 if k == "G" else gns, end, None, sf)
                return [Outcome(na, V(0, None)), Outcome(na, V(1, None))]
            if what == "commit" and self.what == "sync":
                na = (0, gns, end, drv, sf)
                return [Outcome(na, V(0, None)), Outcome(na, V(1, None))]
            return None
        return None

    def on_branch(self, ctx, op, a, b):
        pend, gns, end, drv, sf = ctx.aut
        if self.what == "sync" and pend and op == "Eq" and "taken" in a | b and any(str(t) == "#0" for t in a | b):
            # nothing to write
            return (0, gns, end, drv, sf)
        return None

    def on_return(self, ctx, ret):
        pend, gns, end, drv, sf = ctx.aut
        if ctx.stack:
            return None
        if pend:
            self.miss(ctx)
        if not end and not getattr(self, "single", False):
            ctx.report("%s-incomplete" % self.what, "%s can stop before it has been through all models" % ("closing the journals at shutdown" if self.what == "close" else "the final sync"))
        if self.what == "close" and not gns and not getattr(self, "single", False):
            ctx.report("catalog-not-closed", "at shutdown the catalog's journal can be left without closing it")
        return None


class Start(Spec):
    """engine::start: which signal ends which service, and when

    aut = (boot tags, listening, finished, handles awaited)"""
    name = "start"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.fin = prog.reach_back([x.id for x in prog.find_insts(r"engine::net::Listener::terminate(::\{closure#0\})?$")])
        self.lis = prog.reach_back([x.id for x in prog.find_insts(r"engine::net::Listener::accept(::\{closure#0\})?$")])
        self.n = {}

    def sender(self, t):
        return "broadcast::Sender<" in (t or "")

    def kind(self, c):
        p = c.path or ""
        if p == "tokio::sync::broadcast::channel":
            return "chan"
        if c.inst is not None and "mgr::FractalHandle" in self.prog.tys(self.prog.lty(c.inst, 0)) and not c.inst.body.is_coroutine:
            return "boot"
        if self.sender(c.selfty) and p.endswith("::clone"):
            return "clone"
        if self.sender(c.selfty) and p.endswith("::send"):
            return "send"
        if p == "std::mem::drop" and self.sender(str(c.t0)):
            return "drop"
        if re.search(r"::(into_future|maybe_done)$", p) and "JoinHandle<" in str(c.selfty or "") + str(c.t0 or ""):
            return "join"
        if c.inst is not None and c.inst.body.is_coroutine and c.inst.id in self.fin:
            return "fin"
        if c.inst is not None and c.inst.body.is_coroutine and c.inst.id in self.lis:
            return "lis"
        if c.inst is not None and re.search(r"net::Listener::new\w*$", p):
            return "listener"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def stop(self, inst):
        return False

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return self.sender(self.prog.tys(self.prog.lty(inst, t[1][0]))) if len(t[1]) == 1 else False

    def signalled(self, ctx, tags):
        boot, lis, fin, joined = ctx.aut
        if boot and lis and not fin and any(t in boot for t in tags):
            ctx.report("sync-before-connections", "the final sync is told to start while connections can still be executing statements")

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            # the listeners are started in a future that is only polled inside select!
            if c.inst is not None and c.inst.id in self.lis and not c.inst.body.is_coroutine:
                boot, lis, fin, joined = ctx.aut
                self.n["listen"] = 1
                return [Outcome((boot, 1, fin, joined), None)]
            return None
        self.n[k] = self.n.get(k, 0) + 1
        boot, lis, fin, joined = ctx.aut
        tg = ctx.eng.tags
        if k == "chan":
            t = G("chan:%d" % ctx.bb)
            return [Outcome(ctx.aut, ("s", (t, None)))]
        if k == "clone":
            return [Outcome(ctx.aut, G(*[t for t in tg(ctx.env, args[0]) if str(t).startswith("chan:")]))]
        if k == "boot":
            u = frozenset(t for a in args for t in tg(ctx.env, a) if str(t).startswith("chan:"))
            if not u:
                ctx.report("sync-signal-unknown", "the background services are started with a termination signal whose origin could not be followed")
            return [Outcome((u, lis, fin, joined), ("s", (G("handle:0"), G("handle:1"))))]
        if k == "listener":
            u = {t for a in args for t in tg(ctx.env, a) if str(t).startswith("chan:")}
            if boot and u & boot:
                ctx.report("shared-signal", "connections and the background services are terminated by the same signal: the final sync can run before a statement that is still being executed")
            return [Outcome(ctx.aut, None)]
        if k in ("drop", "send"):
            self.signalled(ctx, tg(ctx.env, args[0]))
            return [Outcome(ctx.aut, None)]
        if k == "join":
            h = frozenset(t for a in args for t in tg(ctx.env, a) if str(t).startswith("handle:"))
            return [Outcome((boot, lis, fin, joined | h), args[0] if args else None)]
        if k == "fin":
            if not lis:
                return [Outcome(ctx.aut, V(0, None))]
            return [Outcome((boot, lis, 1, joined), V(0, None))]
        if k == "lis":
            return [Outcome((boot, 1, fin, joined), V(0, None)), Outcome((boot, 1, fin, joined), V(1, None))]
        return None

    def on_drop(self, ctx, place, tys):
        if self.sender(tys):
            v = ctx.env.get(place[0]) if len(place) == 1 else ctx.read(place)
            self.signalled(ctx, ctx.eng.tags(ctx.env, v))
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        boot, lis, fin, joined = ctx.aut
        if not lis:
            return None
        self.n["ret"] = self.n.get("ret", 0) + 1
        if not fin:
            ctx.report("connections-not-awaited", "the server can stop without waiting for its connections")
        if len(joined) < 2:
            ctx.report("sync-not-awaited", "the server can stop without waiting for the background services to write outstanding changes")
        return None


class Svc(Spec):
    """a background service: when told to terminate it does its final pass

    aut = (why: None/'term'/'closed'/'other', work done since)"""
    name = "svc"

    def __init__(self, prog, work, drain):
        super().__init__(prog)
        self.work = prog.reach_back([x.id for x in work])
        self.drain = drain
        self.n = {}

    def kind(self, c, inst=None):
        p = c.path or ""
        if re.search(r"PollFn<F> as std::future::Future>::poll$", p):
            return "select"
        if p.endswith("task::spawn_blocking") and any(x.id in self.work for x in c.may):
            return "work"
        if c.inst is not None and c.inst.id in self.work:
            return "work"
        if re.search(r"mpsc::UnboundedReceiver::<T>::try_recv$", p):
            return "try"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def outs(self, ctx):
        """variants of the select! outcome: (variant, reason)"""
        b = ctx.inst.body.blocks[ctx.bb]["t"]
        ty = self.prog.types[self.prog.lty(ctx.inst, b[3][0])]
        inner = self.prog.types[ty["a"][0]] if ty.get("a") else None
        if inner is None or "select_util::Out" not in inner["s"]:
            return None
        r = []
        for i, a in enumerate(inner["a"]):
            s = self.prog.tys(a)
            if "broadcast::error::RecvError" in s:
                r.append((V(i, None), "term"))
            elif s.startswith("std::option::Option"):
                r.append((V(i, V(0)), "closed"))
                r.append((V(i, V(1, None)), "other"))
            else:
                r.append((V(i, None), "other"))
        return r

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        why, done = ctx.aut
        if k is None:
            return None
        if k == "select":
            o = self.outs(ctx)
            if o is None:
                return None
            self.n["select"] = 1
            self.check(ctx, why, done, "goes on")
            return [Outcome((w, 0), V(0, v)) for v, w in o]
        if k == "work":
            self.n["work"] = self.n.get("work", 0) + 1
            if self.drain:
                return [Outcome((why, "left" if done in ("task", "left") else done), None)]
            return [Outcome((why, 1), None)]
        if k == "try":
            if done == "task":
                ctx.report("task-dropped", "a queued retry can be taken out of the queue and dropped while terminating")
            self.n["try"] = 1
            return [Outcome((why, "task"), V(0, None)), Outcome((why, 1), V(1, None))]
        return None

    def check(self, ctx, why, done, how):
        if why == "term" and done != 1:
            if self.drain:
                ctx.report("retries-not-drained", "told to terminate, the high priority service %s without emptying its queue of retries" % how)
            else:
                ctx.report("no-final-sync", "told to terminate, the background service %s without a final sync of all models" % how)

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        why, done = ctx.aut
        if why in (None, "other"):
            ctx.report("service-ends", "a background service ends although it wasn't told to")
        self.check(ctx, why, done, "ends")
        return None


LISTENER = "engine::net::Listener"


class Finish(Spec):
    """every listener is terminated and waited for (aut: tags of the listeners waited for)"""
    name = "finish"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}

    def kind(self, c):
        p = c.path or ""
        if c.inst is not None and re.search(r"net::Listener::terminate::\{closure#0\}$", c.inst.body.path):
            return "wait"
        if p.endswith("::maybe_done") and "Listener::terminate()" in str(c.t0):
            return "wait"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        if self.kind(c):
            self.n["wait"] = self.n.get("wait", 0) + 1
            t = frozenset(t for a in args for t in ctx.eng.tags(ctx.env, a) if str(t).startswith("L"))
            return [Outcome(ctx.aut | t, V(0, None) if c.inst is not None else args[0])]
        return None

    def on_return(self, ctx, ret):
        if not ctx.stack and ctx.aut != self.want:
            ctx.report("listener-not-awaited", "stopping does not wait for the connections of every listener")
        return None


class Terminate(Spec):
    """Listener::terminate: lets go of its own senders, then waits for the connections

    aut = (shutdown sender dropped, in-flight sender dropped, waited)"""
    name = "terminate"

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}

    def which(self, t):
        t = t or ""
        return "S" if t.startswith("tokio::sync::broadcast::Sender<") else "I" if t.startswith("tokio::sync::mpsc::Sender<") else None

    def kind(self, c):
        p = c.path or ""
        if p == "std::mem::drop":
            return self.which(str(c.t0))
        if re.search(r"mpsc::Receiver::<T>::recv::\{closure#0\}$|mpsc::Receiver::<T>::(poll_recv|blocking_recv)$", p):
            return "recv"
        if re.search(r"broadcast::Sender::<T>::send$", p):
            return "S"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return bool(self.which(self.prog.tys(self.prog.lty(inst, t[1][0])))) if len(t[1]) == 1 else False

    def gone(self, aut, k):
        s, i, r = aut
        return (1, i, r) if k == "S" else (s, 1, r)

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        if k == "recv":
            self.n["recv"] = 1
            s, i, r = ctx.aut
            if not s:
                ctx.report("connections-not-told", "stopping waits for the connections without telling them to stop")
            if not i:
                ctx.report("waits-for-itself", "stopping waits for the connections while holding a sender itself: it never ends")
            return [Outcome((s, i, 1), V(0, None))]
        return [Outcome(self.gone(ctx.aut, k), None)]

    def on_drop(self, ctx, place, tys):
        k = self.which(tys)
        return self.gone(ctx.aut, k) if k else None

    def on_return(self, ctx, ret):
        if not ctx.stack and not ctx.aut[2]:
            ctx.report("listener-no-wait", "stopping a listener does not wait for its connections")
        return None


class Handlers(Spec):
    """every connection task holds the in-flight guard and listens to the termination signal of its listener"""
    name = "handlers"
    tagging = True
    field_tags = {(LISTENER, "sig_inflight"): "inflight", (LISTENER, "sig_shutdown"): "shut"}

    def __init__(self, prog):
        super().__init__(prog)
        self.n = 0

    def is_event_call(self, c):
        return c.path in ("tokio::spawn", "tokio::task::spawn")

    def has_event(self, inst):
        return super().has_event(inst) or self.reads_tagged(inst)

    def on_call(self, ctx, c, args):
        if not self.is_event_call(c):
            return None
        if not any("ConnectionHandler" in self.prog.tys(t) for x in c.may for t in [self.prog.lty(x, 1)]) and "net::Listener" not in ctx.inst.body.path:
            return None
        self.n += 1
        tg = {t for a in args for t in ctx.eng.tags(ctx.env, a)}
        for w, k, m in (("inflight", "guard", "is not waited for when the server stops"), ("shut", "signal", "is not told to stop when the server stops")):
            if w not in tg:
                ctx.report("connection-without-%s@%s" % (k, ctx.inst.body.path), "a connection is served by a task that %s" % m)
        return [Outcome(ctx.aut, None)]


class ConnTerm(Svc):
    """a connection told to terminate is closed"""
    name = "conn"

    def __init__(self, prog):
        super().__init__(prog, [], False)

    def check(self, ctx, why, done, how):
        if why == "term" and how == "goes on":
            ctx.report("connection-goes-on", "a connection can go on although it was told to stop")

    def on_return(self, ctx, ret):
        if not ctx.stack:
            self.n["ret:%s" % ctx.aut[0]] = 1
        return None


class Main(Spec):
    """the process: journals are closed once nothing runs any more

    aut = (started, runtime gone, closed)"""
    name = "main"

    def __init__(self, prog):
        super().__init__(prog)
        self.start = prog.reach_back([i.id for i in prog.find_insts(r"^engine::start(::\{closure#0\})?$")])
        self.close = prog.reach_back([i.id for i in prog.find_insts(r"engine::fractal::Global::unload_all$")]) - self.start
        self.n = {}

    def kind(self, c):
        p = c.path or ""
        if p.startswith("tokio::runtime::Runtime::block_on") and any(x.id in self.start for x in c.may):
            return "start"
        if c.inst is not None and c.inst.body.path.endswith("Global::unload_all"):
            return "close"
        if p in ("std::process::exit", "std::process::abort"):
            return "exit"
        if p == "std::mem::drop" and str(c.t0) == "tokio::runtime::Runtime":
            return "rt"
        if p.startswith("tokio::runtime::Runtime::shutdown"):
            return "bg"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return len(t[1]) == 1 and self.prog.tys(self.prog.lty(inst, t[1][0])) == "tokio::runtime::Runtime"

    def end(self, ctx):
        if ctx.aut[0] and not ctx.aut[2]:
            ctx.report("not-closed", "the server can exit after serving without closing its journals")

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        s, r, d = ctx.aut
        if k is None:
            return None
        self.n[k] = self.n.get(k, 0) + 1
        if k == "start":
            return [Outcome((1, 0, d), V(0, None)), Outcome((1, 0, d), V(1, None))]
        if k == "close":
            if s and not r:
                ctx.report("closed-while-running", "the journals are closed while tasks can still be running")
            return [Outcome((s, r, 1), None)]
        if k == "exit":
            self.end(ctx)
            return []
        if k == "rt":
            return [Outcome((s, 1, d), None)]
        if k == "bg":
            ctx.report("runtime-not-awaited", "the runtime is shut down without waiting for running statements")
        return None

    def on_drop(self, ctx, place, tys):
        if tys == "tokio::runtime::Runtime":
            return (ctx.aut[0], 1, ctx.aut[2])
        return None

    def on_return(self, ctx, ret):
        if not ctx.stack:
            self.n["ret"] = 1
            self.end(ctx)
        return None
