"""Typestate of the storage drivers: lock, health flag, commit, heartbeat, fault accounting and recovery tasks.

Shared by C04 (containment: no commit through a faulty driver) and C05 (recovery and accounting)."""
import re
from .engine import Spec, Outcome, V, TRUE, FALSE, K
from .catalog import map_event

RX_STATUS = re.compile(r"engine::fractal::util::Status(::|$)")
RX_HEALTH = re.compile(r"engine::fractal::GlobalHealth(::|$)")
IMPL = re.compile(r"^engine::fractal::util::Status::|^engine::fractal::GlobalHealth::")

FIELDS = ["held", "kind", "healthy", "res", "iffy", "fault", "task", "retry", "hb", "okay", "rec", "ustat", "pair", "urec"]
INIT = (None, None, 0, None, 0, 0, 0, 0, None, 0, 0, None, "-", 0)


class A:
    __slots__ = FIELDS

    def __init__(self, t):
        for f, v in zip(FIELDS, t):
            setattr(self, f, v)

    def t(self):
        return tuple(getattr(self, f) for f in FIELDS)


def kind_of(ty):
    if ty and "RawJournalWriter" in ty:
        if "GNSEventLog" in ty:
            return "G"
        if "ModelDataAdapter" in ty:
            return "M"
    return None


NAME = {"G": "the catalog driver", "M": "a model's driver"}


class FaultSpec(Spec):
    name = "faults"

    def __init__(self, prog, owner):
        super().__init__(prog)
        self.owner = owner
        self.sites = {}

    def site(self, k, ctx):
        self.sites.setdefault(k, set()).add(ctx.inst.body.path)

    def say(self, ctx, prop, key, msg):
        if prop == self.owner:
            ctx.report(key, msg)

    # classification
    def lock(self, c):
        if re.search(r"lock_api::Mutex::<R, T>::(lock|try_lock\w*)$|sync::Mutex::<T>::(lock|try_lock)$", c.path or ""):
            return kind_of(c.selfty)
        return None

    def jr(self, c):
        m = re.search(r"raw::RawJournalWriter::<.*>::(commit\w*|__lwt_heartbeat)$", c.path or "")
        if m and c.inst is not None:
            k = "G" if "GNSEventLog" in c.inst.args else "M" if "ModelDataAdapter" in c.inst.args else None
            return (k, "hb" if "heartbeat" in m.group(1) else "commit")
        return None

    def atom(self, c):
        m = re.search(r"sync::atomic::Atomic::<(bool|usize)>::(\w+)$", c.path or "")
        return (m.group(1), m.group(2)) if m else None

    def send(self, c):
        return bool(re.search(r"mpsc::UnboundedSender::<T>::send$", c.path or "")) and "CriticalTask" in (c.selfty or "")

    def delta(self, c):
        return bool(re.search(r"DeltaState::append_new_data_delta\w*$", c.path or ""))

    def is_event_call(self, c):
        if self.lock(c) or self.jr(c) or self.send(c) or self.delta(c):
            return True
        e = map_event(c)
        if e and e == ("models", "del"):
            return True
        if re.search(r"mem::drop$", c.path or "") and kind_of(c.t0 if isinstance(c.t0, str) else None):
            return True
        return False

    def has_event(self, inst):
        if IMPL.search(inst.body.path):
            return any(b["t"][0] == "call" and self.atom(self.prog.callee(inst, bb)) for bb, b in enumerate(inst.body.blocks) if not b.get("cl"))
        return super().has_event(inst)

    def guard(self, tys):
        return kind_of(tys) if "MutexGuard<" in tys else None

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return bool(self.guard(self.prog.tys(self.prog.lty(inst, t[1][0])))) if len(t[1]) == 1 else False

    # the state machine
    def settle(self, ctx, a):
        """obligations that must be met before the next lock cycle / the return of a root"""
        k = a.kind
        w = NAME.get(k, "?")
        if a.res == "fail":
            if not a.fault:
                self.say(ctx, "C05", "fault-not-reported:" + k, "after a failed commit through %s the fault is not added to the global fault count" % w)
            if not a.task:
                self.say(ctx, "C05", "no-recovery-task:" + k, "after a failed commit through %s no task to recover it is queued" % w)
        if a.res in ("fail", "refused") and k == "M" and not a.retry:
            self.say(ctx, "C05", "no-retry:%s" % a.res, "a batch that %s is not queued again" % ("failed to commit" if a.res == "fail" else "was refused because its driver is faulty"))
        if a.hb == "ok":
            if not a.okay:
                self.say(ctx, "C05", "not-reopened:" + k, "%s stays marked as faulty although it recovered" % w)
            if a.rec != 1:
                self.say(ctx, "C05", "recovery-not-reported:" + k, "the recovery of %s is not reported exactly once" % w)
        if a.hb == "fail" and not a.task:
            self.say(ctx, "C05", "recovery-dropped:" + k, "a failed attempt to recover %s is not repeated" % w)

    def unlock(self, ctx, a):
        if a.held and a.res == "fail" and not a.iffy:
            self.say(ctx, "C04", "unlocked-faulty:" + a.held, "%s is unlocked after a failed commit without having been marked as faulty" % NAME[a.held])
        a.held = None
        a.healthy = 0

    def removal(self, ctx, a):
        if a.pair == "removed":
            self.say(ctx, "C05", "removal-unchecked", "a model is removed without checking whether its driver is faulty")
        if a.pair == "read":
            if a.ustat == "bad" and not a.urec:
                self.say(ctx, "C05", "removal-not-reported", "a model with a faulty driver is removed without taking its fault off the global fault count")
            a.pair, a.urec, a.ustat = "-", 0, None
        else:
            a.pair = "removed"

    def on_call(self, ctx, c, args):
        if not self.is_event_call(c) and not (IMPL.search(ctx.inst.body.path) and self.atom(c)):
            return None
        a = A(ctx.aut)
        k = self.lock(c)
        if k:
            self.site("lock", ctx)
            if a.kind:
                self.unlock(ctx, a)
                self.settle(ctx, a)
            n = A(INIT)
            n.held = n.kind = k
            n.ustat, n.pair, n.urec = a.ustat, a.pair, a.urec
            return [Outcome(n.t(), None)]
        j = self.jr(c)
        if j:
            k, what = j
            self.site(what, ctx)
            if a.held != k:
                self.say(ctx, "C04", "unlocked-%s:%s" % (what, k), "%s is used without holding its lock" % NAME.get(k, "a driver"))
                a.kind = k
            ok, bad = A(a.t()), A(a.t())
            if what == "commit":
                if a.held == k and not a.healthy:
                    self.say(ctx, "C04", "unchecked-commit:" + k, "an event is committed through %s without checking, while it is locked, that it has no unrecovered fault" % NAME[k])
                if a.res == "fail":
                    self.say(ctx, "C04", "commit-after-failure:" + k, "an event is committed through %s after an earlier commit failed" % NAME[k])
                ok.res = ok.res or "ok"
                bad.res = "fail"
                bad.iffy = bad.fault = bad.task = bad.retry = 0
            else:
                ok.hb, bad.hb = "ok", "fail"
                ok.okay = ok.rec = bad.task = 0
            return [Outcome(ok.t(), V(0, None)), Outcome(bad.t(), V(1, None))]
        at = self.atom(c) if IMPL.search(ctx.inst.body.path) else None
        if at:
            return self.atomic(ctx, a, at, args)
        if self.send(c):
            v = args[1] if len(args) > 1 else None
            var = None
            if v and v[0] in "sv":
                for x in (v[1] if v[0] == "s" else v[2]):
                    if x and x[0] == "v":
                        var = x[1]
            names = [x["n"] for x in self.prog.adts["engine::fractal::mgr::CriticalTask"]["variants"]]
            nm = names[var] if var is not None and var < len(names) else None
            self.site("task", ctx)
            if nm is None or (nm == "CheckGNSDriver" and a.kind == "G") or (nm == "TryModelAutorecoverLWT" and a.kind == "M"):
                a.task = 1
            if nm is None or nm == "WriteBatch":
                a.retry = 1
            return [Outcome(a.t(), V(0, None))]
        if self.delta(c):
            self.site("delta", ctx)
            if a.ustat != "ok":
                self.say(ctx, "C04", "dml-on-faulty@" + ctx.inst.body.path, "a row change is recorded without checking that the model's driver has no unrecovered fault")
            return [Outcome(a.t(), None)]
        e = map_event(c)
        if e == ("models", "del"):
            self.site("removal", ctx)
            self.removal(ctx, a)
            return [Outcome(a.t(), None)]
        if re.search(r"mem::drop$", c.path or ""):
            self.unlock(ctx, a)
            return [Outcome(a.t(), None)]
        return None

    def atomic(self, ctx, a, at, args):
        ty, op = at
        if ty == "bool":
            if op == "load":
                self.site("status_read", ctx)
                ok, bad = A(a.t()), A(a.t())
                if a.held:
                    ok.healthy = 1
                    bad.healthy = 0
                    bad.res = bad.res or "refused"
                else:
                    ok.ustat, bad.ustat = "ok", "bad"
                    ok.urec = bad.urec = 0
                    if a.pair == "removed":
                        ok.pair = "-"
                        bad.pair = "owed"
                    else:
                        if a.pair == "owed":
                            self.owed(ctx, a)
                        ok.pair = bad.pair = "read"
                return [Outcome(ok.t(), TRUE), Outcome(bad.t(), FALSE)]
            if op == "store":
                v = args[1] if len(args) > 1 else None
                self.site("status_write", ctx)
                val = v[1] if v and v[0] == "k" else None
                if val == 0:
                    if not a.held:
                        self.say(ctx, "C04", "marked-unlocked", "a driver is marked as faulty without holding its lock: another thread may commit through it first")
                    a.iffy = 1
                else:
                    if a.hb != "ok":
                        self.say(ctx, "C04", "reopened-unrecovered", "a driver is marked as healthy without a successful recovery of its log")
                    a.okay = 1
                return [Outcome(a.t(), None)]
            return None
        if op == "fetch_add":
            self.site("fault", ctx)
            if a.res != "fail":
                self.say(ctx, "C05", "spurious-fault", "a fault is added to the global fault count although no commit failed")
            if a.fault:
                self.say(ctx, "C05", "double-fault:%s" % a.kind, "one failed commit is added to the global fault count twice")
            a.fault = 1
            return [Outcome(a.t(), None)]
        if op == "fetch_sub":
            self.site("recovery", ctx)
            if a.hb == "ok" and a.rec == 0:
                a.rec = 1
            elif a.ustat == "bad" and a.urec == 0 and a.pair in ("read", "owed"):
                a.urec = 1
                if a.pair == "owed":
                    a.pair = "-"
            else:
                self.say(ctx, "C05", "spurious-recovery", "a fault is taken off the global fault count without a recovery or the removal of a faulty driver")
                if a.hb == "ok":
                    a.rec = 2
            return [Outcome(a.t(), None)]
        return None

    def owed(self, ctx, a):
        self.say(ctx, "C05", "removal-not-reported", "a model with a faulty driver is removed without taking its fault off the global fault count")

    def on_drop(self, ctx, place, tys):
        if len(place) == 1 and self.guard(tys):
            a = A(ctx.aut)
            if a.held == self.guard(tys):
                self.unlock(ctx, a)
                return a.t()
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        a = A(ctx.aut)
        if a.kind:
            self.unlock(ctx, a)
            self.settle(ctx, a)
        if a.pair == "removed":
            self.say(ctx, "C05", "removal-unchecked", "a model is removed without checking whether its driver is faulty")
        if a.pair == "owed":
            self.owed(ctx, a)
        isok = ret is not None and ret[0] == "v" and ret[1] == 0
        if "Response" in self.prog.tys(self.prog.lty(ctx.inst, 0)) and isok:
            if a.res in ("fail", "refused"):
                self.say(ctx, "C04", "acked:%s:%s" % (a.kind, a.res), "a statement is acknowledged although its commit through %s %s" % (NAME[a.kind], "failed" if a.res == "fail" else "was refused"))
            if a.ustat == "bad" and a.pair == "read":
                self.say(ctx, "C04", "acked-faulty-model", "a row change is acknowledged although the model's driver is marked as faulty")
        return None


def roots(prog):
    from .catalog import exec_roots
    r = exec_roots(prog)
    bg = prog.find_insts(r"engine::fractal::mgr::FractalMgr::(hp_executor|general_executor)$")
    # whoever else locks a driver outside startup/shutdown is covered through its callers
    return r, bg


def run(prog, res, owner, what):
    from .engine import Engine
    spec = FaultSpec(prog, owner)
    eng = Engine(prog, spec)
    ex, bg = roots(prog)
    res.floor("statement_roots", len(ex), 15, "statement handlers")
    res.floor("background_roots", len(bg), 2, "background executors")
    for i in ex + bg:
        eng.run(i, INIT)
    res.merge_engine(eng)
    for k, n in (("lock", 1), ("commit", 10), ("hb", 1), ("status_read", 1), ("status_write", 1), ("fault", 1), ("recovery", 1), ("task", 1), ("delta", 1), ("removal", 1)):
        res.floor(k + "_sites", len(spec.sites.get(k, ())), n, k + " sites")
    for k, v in sorted(spec.sites.items()):
        for x in sorted(v):
            res.sample("%s in %s" % (k, x))
