"""Passwords are kept and logged only as hashes."""
import re
from ..engine import Engine, Spec, Outcome, V, G
from ..catalog import commit_txn

USER = "engine::core::system_db::User"
RX_HASH = re.compile(r"rcrypt::(\w+::)*hash\w*$")
RX_TXN = re.compile(r"engine::txn::gns::\w+::(CreateUserTxn|AlterUserTxn)(::<[^>]*>)?::new$")
RX_STORED = re.compile(r"engine::core::system_db::User::hash$")
RX_USER = re.compile(r"engine::core::system_db::User::new$")


class Hashes(Spec):
    name = "hashes"
    tagging = True
    field_tags = {(USER, "phash"): "hash"}

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = {"hash": set(), "logged": set(), "stored": set()}

    def stop(self, inst):
        return "RawJournalReader" in inst.body.path or inst.body.path.startswith("engine::storage::v1::")

    def is_event_call(self, c):
        p = c.path or ""
        return bool(RX_HASH.search(p) or RX_STORED.search(p) or RX_TXN.search(p) or RX_USER.search(p))

    def has_stmt_event(self, inst):
        return any(self.stores(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def stores(self, st):
        if st[0] != "=":
            return None
        if len(st[1]) > 1 and isinstance(st[1][-1], dict) and st[1][-1].get("o") == USER and st[1][-1].get("n") == "phash":
            return st[2][1] if st[2][0] == "use" else None
        if st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt") == USER:
            return st[2][2][0]
        return None

    def need(self, ctx, v, what, where):
        if "hash" not in ctx.eng.tags(ctx.env, v):
            ctx.report("%s-unhashed:%s" % (what, where), "a password that did not pass through the hash function is %s (%s)" % (what, where))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        if RX_HASH.search(p):
            self.seen["hash"].add(ctx.inst.body.path)
            return [Outcome(None, V(0, G("hash"))), Outcome(None, V(1, None))]
        if RX_STORED.search(p):
            return [Outcome(None, G("hash"))]
        m = RX_TXN.search(p)
        if m:
            self.seen["logged"].add(ctx.inst.body.path)
            self.need(ctx, args[-1], "logged", m.group(1))
            return None
        if RX_USER.search(p):
            self.seen["stored"].add(ctx.inst.body.path)
            self.need(ctx, args[-1], "stored", "User::new")
            return None
        return None

    def on_stmt(self, ctx, st):
        o = self.stores(st)
        if o is not None and not RX_USER.search(ctx.inst.body.path):
            self.seen["stored"].add(ctx.inst.body.path)
            self.need(ctx, ctx.eng.operand(ctx.env, o, ctx.inst), "stored", "User.phash")
        return None


def run(prog, res, tier):
    res.rule("On every path of the statement handlers and of the creation, opening and migration of a database, the password argument of every CreateUser/AlterUser record and every value stored as a user's password hash carries the provenance of the password hash function (or of an already stored hash).")
    s = Hashes(prog)
    e = Engine(prog, s)
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::core::exec::dispatch_to_executor") and i.body.is_coroutine]
    roots += prog.find_insts(r"^engine::storage::load$")
    res.floor("roots", len(roots), 2, "entry points")
    for r in roots:
        e.run(r, None)
    res.merge_engine(e)
    for k in s.seen:
        res.floor(k + "_sites", len(s.seen[k]), 1, k + " sites")
    # the functions that store hashes are reachable only from what was analysed, or from the replay of the log
    for i, bb, c in prog.call_sites(lambda c: bool(RX_TXN.search(c.path or ""))):
        res.oblige(i.body.path in s.seen["logged"] or i.id not in prog.reach_fwd([r.id for r in roots]) or s.stop(i), "unseen:" + i.body.path, "%s logs a password on a path that was not analysed" % i.body.path)
