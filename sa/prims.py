"""The primitives of the parser state, on whose meaning the analysis of the parsers (ql.py) rests."""
import re
from .term import Terms, Path, Fail, Fork, outcomes, atom, add, num
from .engine import Engine, Spec, V, TRUE, FALSE

S = ("self",)
I, N, LEN = atom(S + ("i",)), atom(S + ("n",)), atom(("len", S + ("t",)))
ARG = atom(("arg", 1))
FIELDS = [S + ("i",), S + ("f",), S + ("n",)]
VIEWS = re.compile(r"::Token::<[^>]*>::is_(ident|lit)$")
LEFT = add(LEN, I, -1)
SOME, NONE = [add(LEFT, num(-1))], [LEFT, add(num(0), LEFT, -1), add(LEN, num(-1))]
ANY = [LEFT, add(LEN, num(-1))]
MAXNEST = 1024


class Got:
    def __init__(self, t, q, ret, f):
        self.t, self.q, self.ret, self.f = t, q, ret, f

    def zero(self, d):
        return self.t.ge0(self.q, d) is True and self.t.ge0(self.q, add(num(0), d, -1)) is True

    def lin(self, v, w):
        return v is not None and v[0] == "lin" and self.zero(add(v, w, -1))

    def path(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in ("at", "from", "upto"):
                if not self.lin(x[1], y[1]):
                    return False
            elif x != y:
                return False
        return True

    def ptr(self, *p):
        return self.ret is not None and self.ret[0] == "ptr" and self.path(self.ret[1], S + ("t",) + p)

    def true(self):
        return self.ret == num(1)

    def false(self):
        return self.ret == num(0)

    def fin(self):
        return self.q.truth.get(("in", "f"))

    def i(self, w=I):
        return self.lin(self.f[FIELDS[0]], w)

    def n(self, w=N):
        return self.lin(self.f[FIELDS[2]], w)

    def okay(self, w=None):
        """the flag is w (None: unchanged)"""
        v = self.f[FIELDS[1]]
        w = self.fin() if w is None else w
        if w is None:
            return v == atom(FIELDS[1])
        return v == num(int(w))

    def same(self):
        return self.i() and self.n() and self.okay()

    def arg(self):
        return self.q.truth.get(("in", 1))

    def token(self, name, *p):
        """the return value is the predicate `name` of the token"""
        for k, v in self.q.truth.items():
            if k[0] == "app" and k[1] == name:
                for a in k[2]:
                    at = a[1] if a[0] in ("in", "ptr") else None
                    if at is not None and self.path(at, p) and (name != "eq" or any(b[0] in ("in", "ptr") and b[1] == ("arg", 1) for b in k[2])):
                        return self.ret == num(int(v))
        return False


def at(x):
    return ("at", x)


HERE = S + ("t", at(I))


def nest(g):
    if g.true():
        return g.t.ge0(g.q, add(num(MAXNEST), N, -1)) is True and g.n(add(N, num(1))) and g.i() and g.okay()
    return g.false() and g.okay(False) and g.i() and g.n()


def rounded(g):
    d = add(add(LEN, num(-1)), add(I, ARG), -1)        # how far the place is before the last token
    return g.same() and (g.ptr(at(add(I, ARG))) and g.t.ge0(g.q, d) is True or g.ptr(at(add(LEN, num(-1)))) and g.t.ge0(g.q, add(num(0), d, -1)) is True)


def many(g):
    r = g.t.ge0(g.q, add(LEFT, ARG, -1))
    return g.same() and r is not None and (g.true() if r else g.false())


# name: [(assumptions, test of an outcome)]
SPEC = {
    "okay": [(ANY, lambda g: g.same() and g.fin() is not None and g.ret == num(int(g.fin())))],
    "poison": [(ANY, lambda g: g.i() and g.n() and g.okay(False))],
    "poison_if": [(ANY, lambda g: g.i() and g.n() and (g.okay(False) if g.arg() else g.okay() if g.arg() is False else g.fin() is False and g.okay(False)))],
    "poison_if_not": [(ANY, lambda g: g.i() and g.n() and (g.okay(False) if g.arg() is False else g.okay() if g.arg() else g.fin() is False and g.okay(False)))],
    "cursor_ahead": [(SOME, lambda g: g.i(add(I, num(1))) and g.n() and g.okay())],
    "cursor_ahead_by": [(SOME, lambda g: g.i(add(I, ARG)) and g.n() and g.okay())],
    "cursor_ahead_if": [(SOME, lambda g: g.arg() is not None and g.i(add(I, num(int(g.arg())))) and g.n() and g.okay())],
    "cursor_back": [(ANY, lambda g: g.i(add(I, num(-1))) and g.n() and g.okay())],
    "cursor_back_by": [(ANY, lambda g: g.i(add(I, ARG, -1)) and g.n() and g.okay())],
    "read": [(SOME, lambda g: g.same() and g.ptr(at(I)))],
    "fw_read": [(SOME, lambda g: g.ptr(at(I)) and g.i(add(I, num(1))) and g.n() and g.okay())],
    "current": [(ANY, lambda g: g.same() and g.ptr(("from", I)))],
    "offset_current_r": [(ANY, rounded)],
    "remaining": [(ANY, lambda g: g.same() and g.lin(g.ret, LEFT))],
    "has_remaining": [(ANY, many)],
    "exhausted": [(SOME, lambda g: g.same() and g.false()), (NONE, lambda g: g.same() and g.true())],
    "not_exhausted": [(SOME, lambda g: g.same() and g.true()), (NONE, lambda g: g.same() and g.false())],
    "can_read_lit_rounded": [(SOME, lambda g: g.same() and g.token("is_lit", *HERE)), (NONE, lambda g: g.same() and g.false())],
    "cursor_rounded_eq": [(SOME, lambda g: g.same() and g.token("eq", *HERE)), (NONE, lambda g: g.same() and g.false())],
    "cursor_eq": [(SOME, lambda g: g.same() and g.token("eq", *HERE))],
    "cursor_is_ident": [(SOME, lambda g: g.same() and g.token("is_ident", *HERE))],
    "can_read_lit_from": [(ANY, lambda g: g.same() and g.token("is_lit", "arg", 1))],
    "nest": [(ANY, nest)],
    "unnest": [(ANY, lambda g: g.i() and g.n(add(N, num(-1))) and g.okay())],
}


def check(prog, rx):
    """[(name, inst, what)] for the primitives that do something else; and how many were decided, and which not"""
    bad, good, open_ = [], [], []
    for x in sorted(prog.insts.values(), key=lambda x: x.id):
        m = rx.match(x.body.path)
        if not m or m.group(1) not in SPEC:
            continue
        nm = m.group(1)

        def arg(k):
            ty = prog.types[x.body.locals[k + 1][0]]
            return ("ptr", ("arg", k)) if ty.get("k") in ("ref", "adt") else ("b", ("in", k)) if ty.get("s") == "bool" else atom(("arg", k))
        try:
            for facts, test in SPEC[nm]:
                t = Terms(prog, VIEWS, facts)
                pa = Path({S + ("t",): ("ptr", S + ("t",)), S + ("f",): ("b", ("in", "f")), S + ("d",): None}, [], {})
                out = outcomes(t, x, [("ptr", S)] + [arg(k) for k in range(1, x.body.argc)], pa, FIELDS)
                if not out or not all(test(Got(t, q, r, f)) for q, r, f in out):
                    bad.append((nm, x))
                    break
            else:
                good.append(nm)
        except (Fail, Fork) as e:
            open_.append((nm, str(e)))
    return bad, good, open_


class Plain(Spec):
    name = "plain"
    tagging = False


def kinds(prog, token):
    """the tests of a token's kind that do not test for it"""
    bad, good = [], []
    names = [v["n"] for v in prog.adts[token]["variants"]]
    for nm, want in (("is_ident", "Ident"), ("is_lit", "Lit")):
        for x in prog.find_insts(r"^%s::<[^>]*>::%s$" % (re.escape(token), nm)):
            for i, v in enumerate(names):
                sp = Plain(prog)
                sp._rel = set(prog.insts)
                rets = {r for _, r in Engine(prog, sp).run(x, 0, [("bx", V(i))])}
                if rets != {TRUE if v == want else FALSE}:
                    bad.append((nm, v, x))
                else:
                    good.append((nm, v))
    return bad, good
