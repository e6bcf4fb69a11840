"""No statement makes a parser read past its end; what is accepted was understood; each statement goes to its parser."""
from .. import ql, prims


def run(prog, res, tier):
    res.rule("(1) Every path of every statement parser, from the token after its keyword with nothing known about what follows: how many tokens are known to be left, which kind the token at each place is known to have, whether the parse is still sound, whether a space is selected and how deeply collections are nested are followed; a token is read, viewed or skipped only where it is known to be there, taken for an identifier or a literal only where it is known to be one, an uninitialised slot or an `Option` is unwrapped only where it is known to be filled, no panic or point declared unreachable is reached, and a statement is accepted only with the parse sound and no token left. (2) Functions that parse by recursion: every cycle of calls enters the counted nesting, which is left again, and whose bound is a constant. (3) What each of the parser state's primitives computes, as a term over its fields, is what (1) takes it to be. (4) From the first token of a statement, for each keyword: the parser that it is given to is the one for that keyword (and the word after it).")
    sp, eng, roots, engs, given = ql.run(prog, res)
    res.floor("parsers", len(roots), 10, "statement parsers")
    res.merge_engine(eng, "_parsers")
    for k, v in sorted(sp.n.items()):
        res.count(k, len(v))
    res.floor("reads_checked", len(sp.n.get("reads", ())), 10, "places where a token is read")
    for i in sorted({r.id for r in roots} - sp.ended):
        res.count("without_outcome", 1)
    for i in ql.cycles(prog, sp.unnested):
        x = prog.insts[i]
        w = [v for (a, b), v in sp.unnested.items() if a == i]
        res.violation("recursion@" + x.body.path, "%s recurses without entering the counted nesting: deep enough a statement overflows the stack" % x.body.path, w[0] if w else "")
    bad, good, left = prims.check(prog, ql.RX_STATE)
    for nm, x in bad:
        res.violation("primitive:" + nm, "State::%s does not do what the parsers rely on" % nm, x.body.path)
    res.count("primitives", len(good))
    if left:
        res.count("primitives_not_decided", len(left))
    for nm, v, x in prims.kinds(prog, ql.TOKEN)[0]:
        res.violation("kind:%s:%s" % (nm, v), "%s of a token of kind %s is wrong" % (nm, v), x.body.path)
    for e in engs:
        res.merge_engine(e, "_dispatch")
    res.floor("dispatched", sum(1 for v in given.values() if v), 10, "statements given to a parser")
    for (kw, word), v in sorted(given.items(), key=repr):
        what = kw.lower() + ("" if word is None else " " + word.lower())
        want = ql.Dispatch.EXPECT.get((kw, word))
        res.sample("%s -> %s" % (what, ", ".join(sorted(v))))
        if len(v) > 3:
            res.count("dispatch_not_decided", 1)
            continue
        for node, where in sorted(v.items()):
            if res.oblige(node == want, "dispatch:%s:%s" % (what, node), "`%s` is given to the parser of %s%s" % (what, node, "" if want is None else " instead of %s" % want), where):
                continue
