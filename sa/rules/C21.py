"""Connections are limited, and no client can hold up others or the shutdown."""
import re
from ..engine import Engine
from .. import conn


def run(prog, res, tier):
    res.rule("(1) Every path of each task that accepts connections: taking a permit, accepting, spawning, every future polled and every drop of a permit are the events; a connection is accepted only while a permit is held, the task spawned for it owns that permit, and the only futures polled are those of a permit, of the next connection and of a timer. (2) Every path of each task spawned for a connection, with what it owns: nothing is polled after the permit was dropped, the permit is never forgotten or leaked; its client (TLS handshake, queries) is only waited for in a select whose closure also polls the termination signal, with that branch enabled; the closure ends with that branch as soon as the signal (or its end) arrives, and after it the task waits for nothing. (3) All permits come from one static semaphore of constant size, to which none are added and from which none are removed.")
    acc, roots = conn.listeners(prog)
    res.floor("accepting_functions", len(acc), 1, "functions that accept a connection")
    res.floor("accepting_tasks", len(roots), 1, "tasks that accept connections")
    spawned = {}
    for j in roots:
        i = prog.insts[j]
        s = conn.Accept(prog)
        e = Engine(prog, s)
        e.run(i, (0, 0))
        res.merge_engine(e, "_accept")
        for k, n in sorted(s.n.items()):
            if not k.startswith("pool:"):
                res.count("accept:" + k, n)
        if not s.n.get("accept"):
            res.violation("accept-unseen:" + i.body.path, "how this task accepts connections could not be followed", i.body.path)
        if not s.spawned:
            res.violation("spawn-unseen:" + i.body.path, "how this task has its connections served could not be followed", i.body.path)
        res.sample("%s spawns %s" % (i.body.path, sorted(prog.insts[x].body.path for x in s.spawned)))
        for x, vs in s.spawned.items():
            spawned.setdefault(x, set()).update(vs)
    for x, vs in sorted(spawned.items()):
        for v in sorted(vs, key=repr):
            t = conn.Task(prog, res)
            e = Engine(prog, t)
            e.run(prog.insts[x], (0, 0), args=[v])
            res.merge_engine(e, "_task")
            for k, n in sorted(t.n.items()):
                res.count("task:" + k, n)
            if not t.n.get("select:poll") and not t.n.get("serve"):
                res.violation("task-unseen:" + prog.insts[x].body.path, "how this task serves its connection could not be followed", prog.insts[x].body.path)
    # nobody else runs the connection loop
    loops = [i.id for i in prog.insts.values() if conn.RX_LOOP.search(i.body.path)]
    serving = prog.reach_back(loops)
    ok = prog.reach_fwd(list(roots)) | prog.reach_fwd(list(spawned)) | prog.reach_back(list(roots))
    for j in sorted(serving - ok):
        i = prog.insts[j]
        if i.body.is_coroutine and not conn.RX_LOOP.search(i.body.path) and not i.body.path.startswith("engine::net::ConnectionHandler"):
            res.violation("served-elsewhere:" + i.body.path, "connections are served by a task that does not come from one that accepts them with a permit", i.body.path)
    # the pool of permits
    pools = set()
    n = 0
    for i in prog.insts.values():
        for bb, b in enumerate(i.body.blocks):
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "use" and isinstance(st[2][1], dict) and "k" in st[2][1] and isinstance(st[2][1]["k"], dict) and "static" in st[2][1]["k"]:
                    if "tokio::sync::Semaphore" in prog.tys(prog.lty(i, st[1][0])):
                        pools.add(st[2][1]["k"]["static"])
            if b["t"][0] == "call" and not b.get("cl"):
                c = prog.callee(i, bb)
                p = c.path or ""
                if c.inst is None and re.search(r"^tokio::sync::Semaphore::", p):
                    n += 1
                    m = p.split("::")[3]
                    if m in ("add_permits", "forget_permits", "close"):
                        res.violation("pool-changed:" + m, "the number of permits is changed while the server runs", i.body.path)
                    if m in ("new",):
                        res.violation("pool-second", "permits come from a pool that is not the one of all connections", i.body.path)
    res.count("semaphore_calls", n)
    res.floor("pools", len(pools), 1, "pools of permits")
    if len(pools) > 1:
        res.violation("pool-second", "permits come from more than one pool: %s" % ", ".join(sorted(pools)))
