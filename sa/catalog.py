"""Events on the in-memory catalogue (spaces, models, users) and commits to the system journal."""
import re
from .engine import Spec, Outcome, OKV, ERRV, V

GNS = "GNSEventLog"
MAP_INS = {"insert", "insert_unique_unchecked", "insert_entry", "or_insert", "or_insert_with", "or_default", "extend", "try_insert"}
MAP_DEL = {"remove", "remove_entry", "clear", "retain", "drain", "extract_if"}
FIELDS = {
    "engine::core::space::Space": {"models", "props", "uuid"},
    "engine::core::model::ModelData": {"fields", "decl", "p_key", "p_tag"},
    "engine::core::system_db::User": {"phash"},
}


def table_of(ty):
    if not ty or ("hash_map" not in ty and "HashMap" not in ty):
        return None
    if "system_db::User" in ty:
        return "users"
    if re.search(r"engine::core::model::Model\b", ty):
        return "models"
    if "engine::core::space::Space" in ty:
        return "spaces"
    return None


def map_event(callee):
    """('users'|'models'|'spaces', 'ins'|'del') for a mutating call on one of the catalogue maps"""
    if callee.ext is None:
        m = re.search(r"STIndex<.*>>?::st_(\w+)$|STIndex.* for .*::st_(\w+)$", callee.path)
        if not m or callee.inst is None:
            return None
        t = table_of(callee.prog.tys(callee.prog.lty(callee.inst, 1)))
        n = m.group(1) or m.group(2)
        if t is None:
            return None
        if n in ("insert", "upsert", "update", "update_return"):
            return (t, "ins")
        if n in ("delete", "delete_return", "clear", "delete_if"):
            return (t, "del")
        return None
    t = table_of(callee.selfty)
    if t is None:
        return None
    n = callee.path.rsplit("::", 1)[-1]
    if n in MAP_INS:
        return (t, "ins")
    if n in MAP_DEL:
        return (t, "del")
    return None


def place_event(place):
    """mutable use of a catalogue field through a reference"""
    if "*" not in place:
        return None
    for i, pr in enumerate(place):
        if isinstance(pr, dict) and "o" in pr and pr["o"] in FIELDS and pr.get("n") in FIELDS[pr["o"]]:
            if "*" in place[:i]:
                if pr["n"] == "decl":
                    return ("ModelData", "decl")
                return (pr["o"].rsplit("::", 1)[-1], "w" if pr["o"].endswith("ModelData") else pr["n"])
    return None


def stmt_event(st):
    if st[0] != "=":
        return None
    e = place_event(st[1])
    if e:
        return e
    rv = st[2]
    if rv[0] in ("ref", "rawptr") and rv[1]:
        return place_event(rv[-1])
    return None


def commit_txn(callee):
    """name of the event type if this is a commit of a single event into the system journal"""
    if callee.inst is None or GNS not in callee.inst.args:
        return None
    if not re.search(r"RawJournalWriter::<.*>::commit\w*$", callee.path):
        return None
    m = re.search(r"engine::txn::gns::\w+::(\w+)", callee.inst.args)
    return m.group(1) if m else "?"


REQ = {
    "CreateSpaceTxn": ({("spaces", "ins")}, set()),
    "AlterSpaceTxn": ({("Space", "props")}, set()),
    "DropSpaceTxn": ({("spaces", "del")}, {("models", "del")}),
    "CreateModelTxn": ({("models", "ins"), ("Space", "models")}, set()),
    "DropModelTxn": ({("models", "del"), ("Space", "models")}, set()),
    "AlterModelAddTxn": ({("ModelData", "w")}, set()),
    "AlterModelRemoveTxn": ({("ModelData", "w")}, set()),
    "AlterModelUpdateTxn": ({("ModelData", "w")}, set()),
    "CreateUserTxn": ({("users", "ins")}, set()),
    "AlterUserTxn": ({("User", "phash")}, set()),
    "DropUserTxn": ({("users", "del")}, set()),
}


class CatalogSpec(Spec):
    """phase: N(othing committed) / C(ommitted) / F(ailed commit)"""
    name = "catalog"

    def __init__(self, prog, kinds):
        super().__init__(prog)
        self.kinds = kinds          # event kinds this property owns
        self.commits = set()
        self.muts = set()
        self.inst_stmt = {}

    def is_event_call(self, callee):
        return bool(map_event(callee)) or bool(commit_txn(callee))

    def has_stmt_event(self, inst):
        return any(stmt_event(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def mutate(self, ctx, ev):
        phase, txn, muts = ctx.aut
        if ev == ("ModelData", "decl"):
            # the derived declaration string is rebuilt when a change is complete (and when a model is built)
            return (phase, txn, muts | {("ModelData", "w")}) if phase == "C" else ctx.aut
        self.muts.add((ev, ctx.inst.body.path))
        if ev[0] in self.kinds:
            if phase != "C":
                ctx.report("unjournaled:%s.%s@%s" % (ev[0], ev[1], ctx.inst.body.path),
                           "in-memory %s is changed (%s) %s" % (ev[0], ev[1], "after its journal commit failed" if phase == "F" else "before any commit to the system journal succeeded"))
            elif txn in REQ and ev not in REQ[txn][0] and ev not in REQ[txn][1]:
                ctx.report("wrong-event:%s.%s:%s@%s" % (ev[0], ev[1], txn, ctx.inst.body.path),
                           "in-memory %s is changed (%s) but the committed journal event is %s, which does not describe it" % (ev[0], ev[1], txn))
        return (phase, txn, muts | {ev})

    def on_call(self, ctx, callee, args):
        t = commit_txn(callee)
        if t:
            self.commits.add((t, ctx.inst.body.path))
            ph, _, muts = ctx.aut
            return [Outcome(("C", t, muts), V(0, None)), Outcome(("F", t, muts), V(1, None))]
        ev = map_event(callee)
        if ev:
            return [Outcome(self.mutate(ctx, ev), None)]
        return None

    def on_stmt(self, ctx, st):
        ev = stmt_event(st)
        if ev:
            return self.mutate(ctx, ev)
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        phase, txn, muts = ctx.aut
        owns = txn in REQ and any(e[0] in self.kinds for e in REQ[txn][0])
        if phase == "F" and owns and ret is not None and ret[0] == "v" and ret[1] == 0:
            ctx.report("failed-commit-acked:%s" % txn, "a path acknowledges the statement although committing %s failed" % txn)
        if phase == "F" and owns and (ret is None or ret[0] != "v"):
            ctx.report("failed-commit-lost:%s" % txn, "the failure to commit %s does not determine the response" % txn)
        if phase == "C" and owns:
            missing = REQ[txn][0] - muts
            if missing:
                ctx.report("not-applied:%s:%s" % (txn, ",".join("%s.%s" % m for m in sorted(missing))),
                           "a path returns after committing %s without applying it in memory (%s)" % (txn, sorted(missing)))
            if ret is not None and ret[0] == "v" and ret[1] == 1:
                ctx.report("committed-but-error:%s" % txn, "a path reports an error although %s was committed" % txn)
        return None


def exec_roots(prog):
    """the statement handlers: every function in a dispatch table of the executor that yields a client response"""
    out = {}
    for i in prog.insts.values():
        if i.path.startswith("engine::core::exec::"):
            for r in i.reify:
                x = prog.insts[r]
                if "engine::net::protocol::Response" in prog.tys(prog.lty(x, 0)):
                    out[x.id] = x
    return list(out.values())
