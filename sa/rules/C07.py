"""Only authenticated clients run queries, and only root changes the catalog or the accounts."""
from ..engine import Engine
from .. import access as a

ASSUMPTIONS = ["rcrypt::verify decides whether a password matches a hash"]


def run(prog, res, tier):
    res.rule("(1) Every path of the connection loop creates a session only after verify_user accepted the credentials, with the root flag equal to its verdict, and executes a query only with a session. (2) verify_user accepts only on paths where the password matched the stored hash, and as root only where the name was found equal to the root account's. (3) On every path from the query dispatcher to a commit into the catalog log, or to the account table, the client was found to be root. (4) No other code creates sessions or dispatches queries.")
    s = a.Session(prog)
    e = Engine(prog, s)
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::net::protocol::query_loop") and i.body.is_coroutine]
    res.floor("connection_loops", len(roots), 1, "connection loop instances")
    for r in roots:
        e.run(r, (None, 0))
    res.merge_engine(e, "_connection")
    for k in s.seen:
        res.floor(k + "_sites", len(s.seen[k]), 1, k + " sites")
    for rx, k in ((a.RX_NEW, "session"), (a.RX_DISP, "dispatch")):
        for i, bb, _c in prog.call_sites(lambda c: bool(rx.search(c.path or ""))):
            res.oblige(i.id in s.seen[k], "outside:%s:%s" % (k, i.body.path), "%s is called outside the connection loop, by %s" % (rx.pattern.rstrip("$"), i.body.path))
    v = a.Verify(prog)
    e = Engine(prog, v)
    for r in prog.find_insts(r"system_db::SystemDatabase::verify_user$"):
        e.run(r, (None, None))
    res.merge_engine(e, "_verification")
    res.floor("password_checks", v.n, 1, "password checks")
    p = a.Privilege(prog)
    e = Engine(prog, p)
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::core::exec::dispatch_to_executor") and i.body.is_coroutine]
    res.floor("dispatchers", len(roots), 1, "query dispatchers")
    for r in roots:
        e.run(r, None)
    res.merge_engine(e, "_privilege")
    for k, n in (("check", 1), ("commit", 1), ("list", 1)):
        res.floor("privilege_%s_sites" % k, len(p.seen[k]), n, k + " sites")
    t = a.RootTarget(prog)
    e = Engine(prog, t)
    for r in roots:
        e.run(r, False)
    res.merge_engine(e, "_root_target")
    res.floor("root_target_commits", len(t.seen), 2, "user-altering commits")
