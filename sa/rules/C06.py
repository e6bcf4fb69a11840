"""Nothing read back from a log takes effect before it was verified."""
from ..engine import Engine
from ..journal import ReplaySpec


def run(prog, res, tier):
    res.rule("Provenance-tracking typestate over every path of the log reader (both log formats): each change of the catalog, of a row index or of a delta version happens after the event's transaction id was compared equal to the expected one and a checksum over all bytes that flow into the change was compared equal to the stored one; each driver event is accepted only after its checksum, transaction id and the three links to the preceding event were compared; the log is accepted as complete only after a verified close event at end of file.")
    roots = prog.find_insts(r"journal::raw::RawJournalReader::<.*>::scroll$") or prog.find_insts(r"journal::raw::open_journal$")
    res.floor("readers", len(roots), 2, "log readers")
    sites = {}
    for r in roots:
        spec = ReplaySpec(prog)
        spec.what = "catalog log" if "GNSEventLog" in r.args else "data log" if "ModelDataAdapter" in r.args else "log"
        eng = Engine(prog, spec)
        eng.run(r, ("open", None, frozenset()))
        res.merge_engine(eng, "_" + spec.what.replace(" ", "_"))
        for k, v in spec.sites.items():
            for x in v:
                sites.setdefault(k, set()).add((spec.what, x))
        res.sample("read %s: %s" % (spec.what, r.args))
    for k, n in (("read", 2), ("crc", 2), ("apply", 6), ("accept", 2)):
        res.floor(k + "_sites", len(sites.get(k, ())), n, k + " sites")
    for k, v in sorted(sites.items()):
        for x in sorted(v):
            res.sample("%s: %s in %s" % ((k,) + x))
