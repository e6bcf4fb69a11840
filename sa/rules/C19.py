"""A handshake is parsed in full, checked and answered the same however it arrives."""
from ..engine import Engine
from .. import net


def run(prog, res, tier):
    res.rule("(1) Every path of one step of the handshake parser, from each of its states: which of the six leading bytes are known to be acceptable (their first byte, and the number of variants of the type each stands for), which lengths were scanned and what the credentials were cut from are followed; a handshake goes on or completes only with all six acceptable, is refused only with the code of the first byte that is not (or of a malformed length), never while merely incomplete, stops in the state that stands for what was parsed with the lengths and choices kept, and waits for no more bytes than it can still have. (2) Every path of the receiving loop: a step continues from the position and state the last one returned, the credentials verified are those of this handshake, a session is opened only for a verified user, exactly the handshake is dropped from the buffer, and every other outcome is the code of the problem.")
    roots = prog.find_insts(r"handshake::CHandshake::<'a>::resume_with$")
    res.floor("parsers", len(roots), 1, "handshake parsers")
    n = {}
    for i in roots:
        for v in net.variants(prog, net.HS + "HandshakeState"):
            s = net.Hello(prog, v)
            e = Engine(prog, s)
            e.run(i, s.start, args=[("r", "sc", (), 1), s.arg])
            res.merge_engine(e, "_steps")
            for k, c in s.n.items():
                n[k] = n.get(k, 0) + c
    for k, c in sorted(n.items()):
        res.count("step:" + k, c)
    for k in ("num", "ret:Completed", "ret:ChangeState", "ret:Error"):
        res.floor("step_" + k, n.get(k, 0), 1, "events of the parser")
    roots = [i for i in prog.insts.values() if i.body.path.startswith("engine::net::protocol::do_handshake") and i.body.is_coroutine]
    res.floor("loops", len(roots), 1, "loops that receive a handshake")
    for i in roots:
        s = net.HelloLoop(prog)
        e = Engine(prog, s)
        e.run(i, s.START)
        res.merge_engine(e, "_loop")
        for k in ("read", "step", "verify", "end:Okay", "end:Error"):
            res.floor("loop_" + k, s.n.get(k, 0), 1, "events of the receiving loop")
            res.count("loop:" + k, s.n.get(k, 0))
