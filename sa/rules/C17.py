"""Locks are taken in one order."""
import re
from ..engine import Engine
from .. import locks

ROOTS = [("statements and connections", r"^engine::net::protocol::query_loop", 1), ("background tasks", r"::FractalMgr::\w*executor$", 2)]


def run(prog, res, tier):
    res.rule("Every path of the connection loop (and so of every statement) and of the two background executors is followed with the set of locks held. Waiting for a lock B while A is held puts A before B; the order so found over all paths must have no cycle. A lock is identified by the type it protects. No path waits for a lock of a kind it holds (lists inside of lists excepted), suspends its task or waits for another thread while it holds one, leaks a guard, or ends with one held.")
    edges, tot = {}, {}
    for what, rx, least in ROOTS:
        rs = [i for i in prog.insts.values() if re.search(rx, i.body.path) and (i.body.is_coroutine or "query_loop" not in rx) and "{closure#" not in i.body.path.replace("query_loop::{closure#0}", "")]
        res.floor(what.replace(" ", "_"), len(rs), least, what)
        for i in rs:
            s = locks.Locks(prog)
            e = Engine(prog, s)
            e.run(i, ())
            res.merge_engine(e, "_" + what.split()[0])
            for k, v in s.edges.items():
                edges.setdefault(k, []).extend(v)
            for k, v in s.n.items():
                tot.setdefault(k, set()).update(v)
            res.sample("from %s" % i.body.path)
    for (a, b), v in sorted(edges.items()):
        res.sample("%s before %s (%d places)" % (locks.short(a), locks.short(b), len({x[0] for x in v})))
    bad = {tuple(x) for x in locks.cycles(set(edges))}
    for a, b in sorted(bad):
        for w in sorted({x[0] for x in edges[(a, b)]})[:2]:
            res.violation("order:%s>%s" % (locks.short(a), locks.short(b)), "a lock of %s is waited for while one of %s is held, and elsewhere it is the other way around" % (locks.short(b), locks.short(a)), w)
    kinds = {x[2] for x in tot.get("take", ())}
    res.count("order_edges", len(edges))
    res.floor("lock_kinds", len(kinds), 5, "kinds of locks")
    res.floor("lock_sites", len({x[:2] for x in tot.get("take", ())}), 5, "places that take a lock")
    res.floor("suspension_points", len(tot.get("suspend", ())), 1, "suspension points")
