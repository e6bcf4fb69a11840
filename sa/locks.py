"""Which locks are waited for while others are held (C17)."""
import re
from .engine import Spec, Outcome, V, G
from .schema import self_of, tail

RX_OP = re.compile(r"(?:lock_api::(?:RwLock|Mutex|FairMutex|ReentrantMutex)|std::sync::(?:\w+::)*(?:RwLock|Mutex))(?:::)?<.*>::(\w+)$")
RX_TY = re.compile(r"(?:lock_api::(?:RwLock|Mutex|FairMutex)|std::sync::(?:\w+::)*(?:RwLock|Mutex))<")
RX_G = re.compile(r"(?:lock_api::(?:Mapped)?(?:RwLockUpgradableReadGuard|RwLockReadGuard|RwLockWriteGuard|MutexGuard)|lock_api::(?:Arc)\w*Guard|std::sync::(?:\w+::)*(?:Mapped)?(?:RwLockReadGuard|RwLockWriteGuard|MutexGuard))<")
TAKE = re.compile(r"^(try_)?(read|write|lock|upgradable_read)(_recursive|_arc|_for|_until)*$")
LIST = "std::vec::Vec<engine::data::cell::Datacell>"


def gargs(s, i):
    """top-level generic arguments of the type whose '<' is at s[i-1]; and the end"""
    d, st, out = 1, i, []
    k = i
    while k < len(s) and d:
        ch = s[k]
        if ch in "<([":
            d += 1
        elif ch in ")]" or ch == ">" and s[k - 1] != "-":
            d -= 1
            if not d:
                break
        elif ch == "," and d == 1:
            out.append(s[st:k].strip())
            st = k + 1
        k += 1
    out.append(s[st:k].strip())
    return out, k


def short(t):
    return re.sub(r"(\w+::)+", "", t)[:90]


class Locks(Spec):
    """aut = sorted tuple of (lock, mode) held by this thread"""
    name = "locks"

    def __init__(self, prog):
        super().__init__(prog)
        self.memo = {}
        self.edges = {}
        self.n = {}

    # types
    def guards(self, s, depth=0):
        """locks whose guards a value of this type may own"""
        r = self.memo.get(s)
        if r is not None:
            return r
        self.memo[s] = frozenset()
        out = set()
        if not s.startswith(("&", "*")):
            for m in RX_G.finditer(s):
                out.add(gargs(s, m.end())[0][-1])
            if not out and depth < 7:
                for a in re.findall(r"engine::[\w:]+", s):
                    d = self.prog.adts.get(a)
                    for v in (d or {}).get("variants", ()):
                        for f in v["f"]:
                            t = self.prog.tys(f[1])
                            if not t.startswith("std::sync::Arc"):
                                out |= self.guards(t, depth + 1)
        self.memo[s] = frozenset(out)
        return self.memo[s]

    def op(self, c):
        m = RX_OP.search(c.path or "")
        if not m or not TAKE.match(m.group(1)):
            return None
        s = self_of(c)
        t = RX_TY.search(s)
        if not t:
            return None
        return m.group(1), gargs(s, t.end())[0][-1]

    def leak(self, c):
        if re.search(r"mem::forget$|ManuallyDrop::<.*>::new$|Box::<.*>::leak$|RwLock\w*Guard::<.*>::leak$", c.path or "") and self.guards(str(c.t0)):
            return True
        return bool(re.search(r"lock_api::.*::(force_unlock\w*|unlock_unchecked|make_guard_unchecked|bump\w*|unlocked\w*)$", c.path or ""))

    def waits(self, c):
        """waits for another thread or task"""
        return bool(re.search(r"(thread::JoinHandle::<.*>::join|thread::park\w*|Condvar::wait\w*|Barrier::wait|mpsc::Receiver::<.*>::recv\w*|blocking_recv\w*|blocking_lock|Handle::block_on|Runtime::block_on|LocalSet::block_on|thread::scope)$", c.path or ""))

    def is_event_call(self, c):
        return bool(self.waits(c) or self.op(c) or self.leak(c) or re.search(r"mem::drop$", c.path or "") and self.guards(str(c.t0)))

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return bool(self.guards(self.tyof(inst, t)))

    def tyof(self, inst, t):
        return self.prog.tys(self.prog.lty(inst, t[1][0])) if len(t[1]) == 1 else self.prog.tys(t[4]) if isinstance(t[4], int) else ""

    def on_yield(self, ctx):
        self.n.setdefault("suspend", set()).add((ctx.inst.body.path, ctx.line))
        if ctx.aut:
            ctx.report("held-suspended", "a task is suspended while it holds a lock of %s" % ", ".join(short(x[0]) for x in ctx.aut))

    def on_drop(self, ctx, place, tys):
        g = self.guards(tys)
        if g:
            return tuple(x for x in ctx.aut if x[0] not in g)
        return None

    def take(self, ctx, name, lock):
        self.n.setdefault("take", set()).add((ctx.inst.body.path, ctx.line, lock))
        mode = "w" if re.search(r"write|lock|upgrad", name) else "r"
        blocking = not name.startswith("try_")
        if blocking:
            for h, m in ctx.aut:
                if h == lock:
                    if lock != LIST:
                        ctx.report("taken-twice:%s" % short(lock), "a lock of %s is waited for by a thread that may hold it (or another one of its kind) already" % short(lock))
                    continue
                self.edges.setdefault((h, lock), []).append((ctx.where(), tuple(ctx.stack), frozenset(x for x, k in ctx.aut if k == "w" and x != h)))
        a = tuple(sorted(set(ctx.aut) | {(lock, mode)}))
        return a

    def on_call(self, ctx, c, args):
        o = self.op(c)
        if o:
            a = self.take(ctx, *o)
            if o[0].startswith("try_"):
                return [Outcome(a, V(1, G("guard"))), Outcome(ctx.aut, V(0))]
            return [Outcome(a, None)]
        if self.waits(c):
            if ctx.aut:
                ctx.report("held-waiting", "a thread waits for another one while it holds a lock of %s" % ", ".join(short(x[0]) for x in ctx.aut))
            return None
        if self.leak(c):
            ctx.report("leaked", "the guard of a lock is leaked, or a lock is released without its guard")
            return None
        if re.search(r"mem::drop$", c.path or ""):
            g = self.guards(str(c.t0))
            if g:
                return [Outcome(tuple(x for x in ctx.aut if x[0] not in g), None)]
        return None


    def on_return(self, ctx, ret):
        if not ctx.stack and ctx.aut:
            ctx.report("not-released", "a lock of %s is still held at the end" % ", ".join(short(x[0]) for x in ctx.aut))
        return None


def cycles(edges):
    """strongly connected parts of the order"""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    r = {a: reach(a) for a in set(succ) | {b for _, b in edges}}
    return [(a, b) for a, b in edges if a in r[b]]
