"""Every query gets exactly one response."""
from ..engine import Engine, G
from .. import net


def run(prog, res, tier):
    res.rule("(1) Every path of the connection loop: reads, parsing steps, runs, writes (byte by byte, with where each byte comes from), flushes and buffer resets are the events; a query completed by the parser is run once, what is written afterwards is the response it gave in the layout of its kind, it is flushed, and the buffer is cleared and position and state are fresh before the next read; a step that stopped midway is continued with the position and state it returned; the connection ends only when the client closed it. (2) Every path of the packet parser, from each of its states: numbers are scanned in order and their partial values kept, the payload is what the packet size leaves behind the metadata, is taken only when it is all there, the window is compared with it, and a packet is refused exactly when something was found wrong. (3) The number scanner takes all digits, refuses everything else and overflow, and ends at the line feed.")
    s = net.Exchange(prog)
    e = Engine(prog, s)
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::net::protocol::query_loop") and i.body.is_coroutine]
    res.floor("roots", len(roots), 1, "connection loops")
    for i in roots:
        e.run(i, s.START)
    for k, n in sorted(s.n.items()):
        res.count(k, n)
    for k in ("read", "resume", "disp", "dpoll", "hpoll", "wrote:ran", "wrote:bad"):
        res.floor("loop_" + k, s.n.get(k, 0), 1, "events of the connection loop")
    res.merge_engine(e, "")
    # parsing of query packets
    roots = [i for i in prog.insts.values() if i.body.path == "engine::net::protocol::exchange::QExchangeState::resume"]
    res.floor("parsers", len(roots), 1, "parsers of query packets")
    n = {}
    for i in roots:
        for v in net.variants(prog, "engine::net::protocol::exchange::QExchangeStateInternal"):
            s = net.Parse(prog, v)
            e = Engine(prog, s)
            e.run(i, s.start, args=[s.arg, None])
            res.merge_engine(e, "_parse")
            for k, c in s.n.items():
                n[k] = n.get(k, 0) + c
    for k, c in sorted(n.items()):
        res.count("parse:" + k, c)
    for k in ("int", "squery", "ret:SQCompleted", "ret:ChangeState", "ret:Error"):
        res.floor("parse_" + k, n.get(k, 0), 1, "parsing events")
    roots = prog.find_insts(r"^engine::net::protocol::scan_int$")
    res.floor("numbers", len(roots), 1, "scanners of numbers")
    for i in roots:
        s = net.Number(prog)
        e = Engine(prog, s)
        e.run(i, s.START, args=[None, G("acc")])
        res.merge_engine(e, "_numbers")
        for k in ("ok:Completed", "ok:Pending", "err", "sc:next_byte"):
            res.floor("number_" + k, s.n.get(k, 0), 1, "outcomes of scanning a number")
    for nm, want in (("query", "to"), ("params", "from")):
        roots = prog.find_insts(r"^engine::net::protocol::exchange::SQuery::<'a>::%s$" % nm)
        res.floor("query_" + nm, len(roots), 1, "functions that split a query")
        for i in roots:
            s = net.Window(prog, want)
            e = Engine(prog, s)
            order = [x[0] for x in prog.adts["engine::net::protocol::exchange::SQuery"]["variants"][0]["f"]]
            e.run(i, (), args=[("bx", ("s", tuple(G({"q": "payload", "q_window": "window"}.get(n, n)) for n in order)))])
            res.merge_engine(e, "_window")
    # when parsing is tried, and from where
    for i in prog.find_insts(r"exchange::QExchangeState::has_reached_target$"):
        s = net.Plain(prog)
        e = Engine(prog, s)
        order = [x[0] for x in prog.adts[net.QST]["variants"][0]["f"]]
        for _, ret in e.run(i, (), args=[("bx", ("s", tuple(G(n) for n in order))), G("buffer")]):
            t = lambda v: frozenset(v)
            if ret not in (("cmp", "Ge", t(["buffer"]), t(["target"])), ("cmp", "Le", t(["target"]), t(["buffer"]))):
                res.violation("target-test", "whether enough was received to go on parsing is not decided by comparing what was received with the target", i.body.path)
        res.count("target_tests", 1)
    for i in prog.find_insts(r"exchange::QExchangeState::new$"):
        s = net.Plain(prog)
        e = Engine(prog, s)
        order = [x[0] for x in prog.adts[net.QST]["variants"][0]["f"]]
        for _, ret in e.run(i, ()):
            f = dict(zip(order, ret[1])) if ret is not None and ret[0] == "s" else {}
            st = f.get("state")
            if not f or st is None or st[0] != "v" or net.variants(prog, net.QST + "Internal")[st[1]] != "Initial" or f["md_packet_size"] != ("k", 0) or f["md_q_window"] != ("k", 0):
                res.violation("fresh-state", "the state a new query is parsed with is not empty", i.body.path)
            tg = f.get("target")
            res.sample("initial target: %s" % (tg,))
            if tg is not None and not (tg[0] == "k" and 1 <= tg[1] <= 5):
                res.violation("fresh-target", "parsing a query starts after more bytes than the shortest query has", i.body.path)
        res.count("fresh_states", 1)
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::net::ConnectionHandler") and "::run" in i.body.path and i.body.is_coroutine]
    res.floor("connection_tasks", len(roots), 1, "connection tasks")
    for i in roots:
        s = net.Closing(prog)
        e = Engine(prog, s)
        e.run(i, (0, 0))
        res.merge_engine(e, "_closing")
        res.floor("closing_select", s.n.get("select", 0) + s.n.get("loop", 0), 1, "runs of the connection loop")
        res.sample(dict(s.n))
