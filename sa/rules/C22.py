"""A statement that was begun runs to its end."""
import re
from ..engine import Engine, Spec

RX_AWAY = re.compile(r"(^|::)spawn(_\w+)?$|^std::thread::(spawn|scope|Builder::.*)|thread::Builder::spawn\w*$|::block_on$|rayon::|crossbeam_utils::thread::scope|ThreadPool|catch_unwind$")
RX_ROOT = re.compile(r"^engine::core::exec::dispatch_to_executor::\{closure#\d+\}$")
STATE = "engine::ql::ast::State"


class Whole(Spec):
    """aut: the space the statement was given was released"""
    name = "whole"
    promoted = True

    def __init__(self, prog, rel):
        super().__init__(prog)
        self.n = {}
        self.relx = rel

    def see(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.bb))

    def has_event(self, inst):
        if any(b["t"][0] == "yield" for b in inst.body.blocks):
            return True
        return super().has_event(inst)

    def is_event_call(self, c):
        p = c.path or ""
        return c.inst is None and (bool(RX_AWAY.search(p)) or p.endswith("block_in_place"))

    def on_call(self, ctx, c, args):
        p = c.path or ""
        if c.inst is None and RX_AWAY.search(p):
            self.see("away", ctx)
            ctx.report("handed-away", "a statement is handed to another thread or task (%s): it can be abandoned by the one it belongs to while it runs, and what it uses goes away" % p)
        elif c.inst is None and p.endswith("block_in_place"):
            self.see("in_place", ctx)
        return None

    def on_yield(self, ctx):
        self.see("suspended", ctx)
        ctx.report("suspended", "a statement is suspended while it runs: a client that disconnects, or the termination of the server, stops it midway")


def run(prog, res, tier):
    res.rule("(1) Every path of the task that runs a statement, from its tokens to its result, with the futures it polls followed into: no path suspends the task (a poll that can only be ready leads to no suspension). (2) No function that is reachable from it, from the tables of statement handlers or from the handlers themselves hands work to another thread or task, or catches a panic to go on. (3) The connection loop takes the result of a statement only from that task.")
    roots = [i for i in prog.insts.values() if RX_ROOT.search(i.body.path) and i.body.is_coroutine]
    res.floor("statement_tasks", len(roots), 1, "tasks that run a statement")
    for i in roots:
        s = Whole(prog, None)
        e = Engine(prog, s)
        outs = e.run(i, 0)
        res.merge_engine(e, "")
        if not outs:
            res.violation("no-result", "no path of the task that runs a statement leads to its result", i.body.path)
        for k, v in s.n.items():
            res.count(k, len(v))
    # the handlers
    seeds = [i.id for i in prog.insts.values() if i.body.path.startswith("engine::core::exec::")]
    reach = prog.reach_fwd(seeds)
    # functions a table or a value of function type leads to
    todo = list(reach)
    while todo:
        j = todo.pop()
        for x in prog.insts[j].reify or ():
            if x in prog.insts and x not in reach:
                for y in prog.reach_fwd([x]):
                    if y not in reach:
                        reach.add(y)
                        todo.append(y)
    res.floor("functions_reached", len(reach), 100, "functions that statements use")
    handlers = [prog.insts[j].body.path for j in reach if re.search(r"transactional_exec|dml::.*(insert|update|delete|select)_resp|dml::.*select_all_resp|core::dcl::exec", prog.insts[j].body.path)]
    res.floor("handlers", len(set(handlers)), 10, "statement handlers among them")
    n = 0
    for j in sorted(reach):
        k = prog.insts[j]
        for bb, b in enumerate(k.body.blocks):
            if b["t"][0] == "call" and not b.get("cl"):
                c = prog.callee(k, bb)
                n += 1
                if c.inst is None and RX_AWAY.search(c.path or ""):
                    res.violation("handed-away@" + k.body.path, "a statement is handed to another thread or task (%s): it can be abandoned by the one it belongs to while it runs, and what it uses goes away" % c.path, k.body.path)
    res.count("calls_checked", n)
    # nobody else runs statements
    for f in prog.insts.values():
        if f.id in reach or not f.body.path.startswith("engine::net::"):
            continue
        for bb, b in enumerate(f.body.blocks):
            if b["t"][0] == "call" and not b.get("cl"):
                c = prog.callee(f, bb)
                if c.inst is None and RX_AWAY.search(c.path or "") and c.ga and "engine::core::exec" in str(c.ga):
                    res.violation("handed-away@" + f.body.path, "a statement is handed to another task by the connection that received it", f.body.path)
