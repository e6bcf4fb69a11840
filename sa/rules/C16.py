"""Row changes survive a failed batch and are replayed newest first."""
import re
from ..engine import Engine, G
from .. import batch, dml, schema


def run(prog, res, tier):
    res.rule("(1) Taken from the moment a change leaves the queue, on each path it is either written to the batch that is then committed, or returned to the queue before the failure is reported and the retry queued for the number returned. (2) Batch replay lets a row's change take effect only if its version is newer than the one in the index or in the set of deletions seen, for both orders and kinds, and never moves the model's data version back.")
    # failure of a batch
    s0 = batch.Failed(prog)
    evs = {m.group(1) for i in prog.insts.values() for m in [re.match(r"<(engine::storage::v2::impls::[\w:]+)(?:<.*>)? as .*JournalAdapterEvent<.*>>::write_direct$", i.body.path)] if m}
    wd = [i for i in prog.insts.values() if i.body.path.endswith("::write_direct") and any(batch.delta_op(prog.callee(j, bb)) == "take" for j in [prog.insts[x] for x in prog.reach_fwd([i.id])] for bb, b in enumerate(j.body.blocks) if b["t"][0] == "call" and not b.get("cl"))]
    names = set()
    for i in wd:
        names.add(re.sub(r"<.*", "", prog.tys(prog.lty(i, 1))))
    res.floor("batch_writers", len(wd), 1, "writers of batches of row changes")
    batch.Failed.events = names
    tv = prog.adts[batch.TASK]["variants"]
    batch.Failed.wb = next((k for k, v in enumerate(tv) if v["n"] == "WriteBatch"), None)
    sites = [i for i in prog.insts.values() if any(s0.commit(prog.callee(i, bb)) for bb, b in enumerate(i.body.blocks) if b["t"][0] == "call" and not b.get("cl"))]
    callers = prog.callers()
    roots, todo, seen = [], list(sites), set()
    while todo:
        i = todo.pop()
        if i.id in seen:
            continue
        seen.add(i.id)
        if prog.tys(prog.lty(i, 0)) == "()" and not i.body.is_coroutine:
            roots.append(i)
            continue
        for x in callers.get(i.id, ()):
            todo.append(prog.insts[x] if isinstance(x, int) else x)
    # where statements queue their changes
    live = set()
    for x in prog.reach_fwd([r[0].id for k in ("ins", "upd", "del") for r in dml.roots(prog, k)]):
        i = prog.insts[x]
        for bb, b in enumerate(i.body.blocks):
            if b["t"][0] == "call" and not b.get("cl") and batch.delta_op(prog.callee(i, bb)) == "give":
                live.add(batch.container(prog.callee(i, bb)))
    res.floor("live_queues", len(live), 1, "queues that statements put row changes in")
    tot = {}
    backs = set()
    for rnd, i in [(r, i) for r in (0, 1) for i in roots]:
        s = batch.Failed(prog)
        s.live = live
        if rnd:
            s.backs = frozenset(backs)
        e = Engine(prog, s)
        e.run(i, (0, 0, 0, 0, 0, 0, 0, 0), args=[G("obs") if batch.TASK in prog.tys(prog.lty(i, k)) else None for k in range(1, i.body.argc + 1)])
        backs |= s.back
        if not rnd:
            continue
        res.merge_engine(e, "_failed")
        res.sample("batch committed by %s" % i.body.path)
        for k, v in s.n.items():
            tot.setdefault(k, set()).update(v)
    res.floor("committers", len(roots), 2, "background tasks that commit batches")
    for k in ("take", "keep", "give", "commit", "retry"):
        res.floor("failed_" + k, len(tot.get(k, ())), 1, "%s events" % k)
    # what is written
    tot = {}
    for i in wd:
        final = set()
        for rnd in (0, 1):
            s = batch.Write(prog)
            s.final = final
            if rnd:
                if len(final) != 1:
                    break
                s.counter = next(iter(final))
            e = Engine(prog, s)
            e.run(i, (None, 0, None, 0))
        res.merge_engine(e, "_write")
        res.sample({"writer": i.body.path, "counter": sorted(final)})
        for k, v in s.n.items():
            tot.setdefault(k, set()).update(v)
    for k in ("take", "write"):
        res.floor("write_" + k, len(tot.get(k, ())), 1, "%s events" % k)
    # replay
    rr = schema.restore_roots(prog)
    res.floor("restore_functions", len(rr), 2, "functions restoring the rows of a batch")
    nset = 0
    for i in rr:
        s = batch.Replay(prog)
        s.final = set()
        s.versions = "::v1::" not in i.path
        e = Engine(prog, s)
        e.run(i, s.INIT)
        res.merge_engine(e, "_replay")
        res.sample({"restore": i.body.path, "events": {k: len(v) for k, v in s.n.items()}})
        s.n["insert"] = set().union(*[v for k, v in s.n.items() if re.search(r"insert|upsert", k)])
        for k in ("next_ev", "next_del", "pending", "insert"):
            res.floor("%s:%s" % (i.body.path.split("::")[2], k), len(s.n.get(k, ())), 1, "%s events in %s" % (k, i.body.path))
        if s.versions:
            nset += len(s.n.get("set_version", ()))
            res.oblige(bool({"etx", "dtx"} & s.final), "version-from-all", "the data version restored from a batch is not derived from its changes", i.body.path)
    res.floor("version_restored", nset, 1, "places that restore the data version")
