"""Clean shutdown."""
from ..engine import Engine, V, G
from .. import shutdown as sd


def run(prog, res, tier):
    res.rule("Typestate over every path of the shutdown: of the process (journals closed after the runtime is gone), of the server task (sync signalled only after all connections were awaited, and awaited in turn; distinct signals by provenance), of each listener (senders released, then awaited), of each connection task (holds the in-flight guard and the termination signal), of both background services (final sync / retry queue drained before they end), and of the loops over all models in the final sync and in closing the journals (no model passed over and no early exit when one fails, no faulty journal closed without recovery).")

    def go(rx, mk, aut, label, floor=1, args=None):
        r = prog.find_insts(rx)
        res.floor(label + "_roots", len(r), floor, "entry points of the %s analysis" % label)
        out = []
        for i in r:
            s = mk()
            e = Engine(prog, s)
            e.run(i, aut, args=args(i) if args else None)
            res.merge_engine(e, "_" + label)
            res.sample("%s: %s" % (label, i.body.path))
            out.append(s)
        return out

    for s in go(r"engine::fractal::Global::unload_all$", lambda: sd.Fanout(prog, "close"), sd.Fanout.start, "close"):
        res.floor("journals_closed", s.n.get("close", 0), 2, "calls that close a journal at shutdown")
    for s in go(r"fractal::mgr::FractalMgr::general_executor$", lambda: sd.Fanout(prog, "sync"), sd.Fanout.start, "sync"):
        res.floor("batches", s.n.get("commit", 0), 1, "batch commits in the final sync")
        if not s.survived:
            res.violation("sync-stops-without-retry", "the final sync does not go on with the next model if a failed one can't be queued for a retry", "engine::fractal::mgr::FractalMgr::general_executor")
    for s in go(r"^engine::start::\{closure#0\}$", lambda: sd.Start(prog), (frozenset(), 0, 0, frozenset()), "start"):
        for k in ("boot", "listener", "fin", "join"):
            res.floor("start_" + k, s.n.get(k, 0), 1, "%s events in the server task" % k)
    for rx, wk, dr, lb in ((r"FractalMgr::general_executor_svc::\{closure#0\}$", r"FractalMgr::general_executor$", False, "general_service"), (r"FractalMgr::hp_executor_svc::\{closure#0\}$", r"FractalMgr::hp_executor$", True, "hp_service")):
        for s in go(rx, lambda: sd.Svc(prog, prog.find_insts(wk), dr), (None, 0), lb):
            res.floor(lb + "_select", s.n.get("select", 0), 1, "select points of the service")
    # listeners
    adt = prog.adts.get("engine::EndpointListeners")
    if adt:
        for vi, v in enumerate(adt["variants"]):
            fs, want = [], set()
            for fi, f in enumerate(v["f"]):
                if prog.tys(f[1]) == sd.LISTENER:
                    fs.append(G("L%d" % fi))
                    want.add("L%d" % fi)
                else:
                    fs.append(None)

            def mk():
                s = sd.Finish(prog)
                s.want = frozenset(want)
                return s
            go(r"^engine::EndpointListeners::finish::\{closure#0\}$", mk, frozenset(), "finish_%s" % v["n"], args=lambda i: [("c", i.body.path, (V(vi, *fs),))])
    go(r"^engine::net::Listener::terminate::\{closure#0\}$", lambda: sd.Terminate(prog), (0, 0, 0), "terminate")
    n = 0
    for s in go(r"^engine::net::Listener::listen_\w+::\{closure#0\}$", lambda: sd.Handlers(prog), 0, "accept", 2):
        n += s.n
    res.floor("connection_tasks", n, 2, "tasks that serve connections")
    for s in go(r"^engine::net::ConnectionHandler::<.*>::run::\{closure#0\}$", lambda: sd.ConnTerm(prog), (None, 0), "connection", 1):
        if not s.n.get("ret:term"):
            res.violation("connection-ignores-signal", "a connection does not end when it is told to", "engine::net::ConnectionHandler::run")
    for s in go(r"^entrypoint$", lambda: sd.Main(prog), (0, 0, 0), "process"):
        for k in ("start", "close", "ret"):
            res.floor("process_" + k, s.n.get(k, 0), 1, "%s events of the process" % k)
