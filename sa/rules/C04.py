"""A driver with an unrecovered fault is never written through."""
from .. import faults


def run(prog, res, tier):
    res.rule("Typestate over every path of the statement handlers and background executors: each commit through a shared driver happens while its lock is held and after a health check made under that same lock; a failed commit marks the driver faulty before the lock is released; the mark is cleared only after a successful heartbeat; a row change is recorded only after the model's driver was seen healthy; a refused or failed commit is never acknowledged.")
    faults.run(prog, res, "C04", None)
