"""A failed write leaves the log writer able to continue exactly after the last good record, or not at all."""
from ..engine import Engine, G
from ..tail import WriteAll, Tracked, Resume, Commit, TW, RW, RX_ALL

SELF = ("r", "self", (), 1)


def run(prog, res, tier):
    res.rule("(A) The helper that writes a whole buffer continues a partial write with the bytes after the ones accepted, never repeats a write that accepted nothing, reports success only once the sum of the accepted counts was compared equal to the length, and always returns that sum. (B) Every entry of the buffering writer adds each returned count to its file offset exactly once on success and on failure, removes exactly the written bytes from its buffer, adds to the buffer only where there is room, and updates its checksums exactly once with the bytes it accepted. (C) Writing resumes after a failure only if the file offset was compared equal with the tracked one and with the end of the last good record; the buffer is then emptied, the checksums set back and the next id set to follow that record. (D) A record becomes the last good one (id, end offset, checksum) on every path that reports success, after its last write, and on no path that fails.")
    a = WriteAll(prog)
    ea = Engine(prog, a)
    for i in prog.find_insts(r"FileWrite(::|>::)fwrite_all_count$"):
        ea.run(i, (0, False, False), [None, G("buf")])
    res.merge_engine(ea, "_write_all")
    res.floor("write_loops", len(a.sites), 1, "loops that write a whole buffer")
    b = Tracked(prog)
    eb = Engine(prog, b)
    callers = prog.callers()
    rel = b.relevant()
    n = 0
    for i in prog.find_insts("^" + TW.replace(".", r"\.") + r"::<.*>::\w+$"):
        if i.id not in rel or i.body.argc < 1:
            continue
        t = prog.types[prog.lty(i, 1)]
        if t.get("k") != "ref" or not t.get("m"):
            continue
        if not any(not c.body.path.startswith(TW + "::") for c in callers.get(i.id, ())):
            continue
        nm = i.body.path.rsplit("::", 1)[-1]
        if not any(RX_ALL.search(prog.insts[x].body.path) for x in prog.reach_fwd([i.id])):
            continue
        b.root = nm
        b.takes = i.body.argc > 1
        n += 1
        eb.run(i, b.START, [SELF] + [G("data")] * (i.body.argc - 1))
        res.sample("writer entry %s" % nm)
    res.merge_engine(eb, "_writer")
    res.floor("writer_entries", n, 3, "entries of the buffering writer used by the journal")
    for k, v in b.sites.items():
        res.floor("writer_%s_sites" % k, len(v), 1, k + " sites of the buffering writer")
    c = Resume(prog)
    ec = Engine(prog, c)
    hb = list(prog.find_insts(r"RawJournalWriter::<.*>::__lwt_heartbeat$"))
    for i in hb:
        ec.run(i, frozenset(), [SELF])
    res.merge_engine(ec, "_resume")
    res.floor("resume_entries", len(hb), 2, "recovery entries of the journal writer")
    res.floor("file_offset_reads", c.n, 1, "reads of the real file offset")
    d = Commit(prog)
    ed = Engine(prog, d)
    roots = list(prog.find_insts(r"journal::raw::RawJournalWriter::<.*>::(commit_with_ctx|close_driver|reopen_driver)$"))
    for i in roots:
        d.what = i.body.path.rsplit("::", 1)[-1] + ":" + i.args.split(" | ")[-1].rsplit("::", 1)[-1].split("<")[0].rstrip(">")
        ed.run(i, (frozenset(), False, False), [SELF])
    res.merge_engine(ed, "_commit")
    res.floor("commit_entries", len(roots), 13, "commit entry points")
    res.floor("known_fields", len(d.sites), 4, "fields describing the last good record")
