"""Statements act on the objects they name."""
from ..engine import Engine
from ..catalog import exec_roots, commit_txn
from .. import naming


def run(prog, res, tier):
    res.rule("Typestate over every path of every statement handler, with the provenance of every key: look-ups in the spaces, in the models of a space and in the index of models are the events, and each forks into found and not found. What was found out holds as long as the lock it was found out under; a commit, and every change after it, needs to be possible by it. Every key has to be made of the names in the statement.")
    s = naming.Named(prog)
    tx = {}
    for i in prog.insts.values():
        for bb, b in enumerate(i.body.blocks):
            if b["t"][0] == "call" and not b.get("cl"):
                t = commit_txn(prog.callee(i, bb))
                if t:
                    tx.setdefault(i.id, set()).add(t)
    eng = Engine(prog, s)
    kinds = {}
    for r in exec_roots(prog):
        have = set()
        for x in prog.reach_fwd([r.id]):
            have |= tx.get(x, set())
        s.root = None
        for k in ("Create", "Drop", "Alter"):
            if have & {k + "SpaceTxn", k + "ModelTxn", k + "ModelAddTxn"} and not any("User" in t for t in have):
                s.root = k.lower()
        if any(prog.insts[x].body.path.endswith("ClientLocalState::set_cs") or any(s.sets_cs(st) for b in prog.insts[x].body.blocks for st in b["s"]) for x in prog.reach_fwd([r.id])):
            s.root = "use"
        kinds[s.root] = kinds.get(s.root, 0) + 1
        eng.run(r, s.START)
    res.merge_engine(eng)
    for k in ("create", "drop", "alter", "use"):
        res.floor("handlers_" + k, kinds.get(k, 0), 1, "handlers of %s statements" % k.upper())
    for k, v in sorted(s.n.items()):
        res.count(k, v)
    for k in ("spaces.key", "models.key", "set.key", "selects", "spaces.ins", "spaces.del", "models.ins", "models.del", "set.ins", "set.del", "nothing:Bool", "done:CreateSpaceTxn", "done:DropSpaceTxn", "done:CreateModelTxn", "done:DropModelTxn", "commit:AlterSpaceTxn"):
        res.floor("seen_" + k, s.n.get(k, 0), 1, "`%s` events" % k)
