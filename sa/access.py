"""Who may do what: sessions exist only after authentication, privileged effects only for root (C07)."""
import re
from .engine import Engine, Spec, Outcome, V, G, TRUE, FALSE, K
from .catalog import commit_txn

SYS = "engine::core::system_db::SystemDatabase::"
RX_VERIFY = re.compile(r"system_db::SystemDatabase::verify_user$")
RX_NEW = re.compile(r"ClientLocalState::new$")
RX_DISP = re.compile(r"core::exec::dispatch_to_executor$")
RX_ISROOT = re.compile(r"ClientLocalState::is_root$")
RX_USERS = re.compile(r"system_db::SystemDatabase::users$")
RX_CHECK = re.compile(r"rcrypt::(\w+::)*verify$|bcrypt::verify$")


def variants(prog, adt):
    return [v["n"] for v in prog.adts[adt]["variants"]]


class Session(Spec):
    """aut = (verdict, session): verdict of the last verification; root flag of the session made"""
    name = "session"

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = {"verify": set(), "session": set(), "dispatch": set()}
        self.vu = variants(prog, "engine::core::system_db::VerifyUser")

    def is_event_call(self, c):
        p = c.path or ""
        return bool(RX_VERIFY.search(p) or RX_NEW.search(p) or RX_DISP.search(p))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        verdict, sess = ctx.aut
        if RX_VERIFY.search(p):
            self.seen["verify"].add(ctx.inst.id)
            return [Outcome((v, sess), V(i)) for i, v in enumerate(self.vu)]
        if RX_NEW.search(p):
            self.seen["session"].add(ctx.inst.id)
            if verdict not in ("Okay", "OkayRoot"):
                ctx.report("session-unverified", "a session is created %s" % ("although the credentials were rejected" if verdict else "without verifying the credentials"))
            else:
                r = args[1]
                if r is None or r[0] != "k":
                    ctx.report("session-root-flag", "the root flag of a new session is not determined by the verdict on its credentials")
                elif bool(r[1]) != (verdict == "OkayRoot"):
                    ctx.report("session-root-flag", "a session verified as `%s` is created with root = %s" % (verdict, bool(r[1])))
            return [Outcome((verdict, 1), None)]
        if RX_DISP.search(p):
            self.seen["dispatch"].add(ctx.inst.id)
            if not sess:
                ctx.report("query-without-session", "a query can be executed on a connection that did not authenticate")
            return [Outcome(ctx.aut, None)]
        return None


class Verify(Spec):
    """aut = (password matches, name compared equal to the root account)"""
    name = "verify"

    def __init__(self, prog):
        super().__init__(prog)
        self.vu = variants(prog, "engine::core::system_db::VerifyUser")
        self.n = 0

    def streq(self, c):
        return c.inst is None and re.search(r"PartialEq(<.*>)?>?::(eq|ne)$", c.path or "") and re.search(r"\bstr\b|String", c.selfty or "")

    def is_event_call(self, c):
        return bool(RX_CHECK.search(c.path or "")) or bool(self.streq(c))

    def on_call(self, ctx, c, args):
        ok, eq = ctx.aut
        if RX_CHECK.search(c.path or ""):
            self.n += 1
            return [Outcome((1, eq), V(0, TRUE)), Outcome((0, eq), V(0, FALSE)), Outcome((0, eq), V(1, None))]
        if self.streq(c):
            t, f = (TRUE, FALSE) if c.path.endswith("eq") else (FALSE, TRUE)
            return [Outcome((ok, 1), t), Outcome((ok, 0), f)]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        ok, eq = ctx.aut
        v = self.vu[ret[1]] if ret is not None and ret[0] == "v" else None
        if ok != 1 and v in ("Okay", "OkayRoot", None):
            ctx.report("accepted-unchecked", "verify_user can return %s on a path where the password was not found to match the stored hash" % (v or "an unknown verdict"))
        if ok == 1 and v == "OkayRoot" and eq != 1:
            ctx.report("root-by-name", "verify_user can return OkayRoot for an account whose name was not found equal to that of the root account")
        return None


class Privilege(Spec):
    """aut = what the root check of this statement answered"""
    name = "privilege"

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = {"check": set(), "commit": set(), "list": set()}

    def is_event_call(self, c):
        p = c.path or ""
        return bool(commit_txn(c) or RX_ISROOT.search(p) or RX_USERS.search(p))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        if RX_ISROOT.search(p):
            self.seen["check"].add(ctx.inst.body.path)
            return [Outcome("root", TRUE)] * (ctx.aut != "user") + [Outcome("user", FALSE)] * (ctx.aut != "root")
        t = commit_txn(c)
        if t:
            self.seen["commit"].add(ctx.inst.body.path)
            if ctx.aut != "root":
                ctx.report("unprivileged:" + t, "a statement can commit %s %s" % (t, "for a client that is not root" if ctx.aut else "without checking that the client is root"))
            return [Outcome(ctx.aut, V(0, None)), Outcome(ctx.aut, V(1, None))]
        if RX_USERS.search(p):
            self.seen["list"].add(ctx.inst.body.path)
            if ctx.aut != "root":
                ctx.report("accounts-listed", "a statement can read the account table %s" % ("for a client that is not root" if ctx.aut else "without checking that the client is root"))
            return [Outcome(ctx.aut, None)]
        return None


class RootTarget(Spec):
    """aut = the account named by the statement was found different from the root's (or one's own) account"""
    name = "root-target"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = set()

    def target(self, c):
        return bool(re.search(r"ql::dcl::User(Decl|Del)(::<.*>)?::username$", c.path or ""))

    def is_event_call(self, c):
        return bool(commit_txn(c)) or self.target(c)

    def on_call(self, ctx, c, args):
        if self.target(c):
            return [Outcome(ctx.aut, G("target"))]
        t = commit_txn(c)
        if t:
            if t in ("AlterUserTxn", "DropUserTxn"):
                self.seen.add(t)
                if not ctx.aut:
                    ctx.report("root-account:" + t, "a statement can commit %s for the root account: the account it names is not compared with a protected one" % t)
            return [Outcome(ctx.aut, V(0, None)), Outcome(ctx.aut, V(1, None))]
        return None

    def on_branch(self, ctx, op, a, b):
        if op == "Ne" and ("target" in a) != ("target" in b):
            return True
        return None
