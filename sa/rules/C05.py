"""Faults are recovered from and accounted for."""
from .. import faults


def run(prog, res, tier):
    res.rule("Typestate over every path of the statement handlers and background executors: each failed commit is added to the fault count exactly once and queues the recovery task of its driver; a failed recovery queues itself again; a successful one marks the driver healthy and takes exactly one fault off the count; removing a model takes its fault off exactly when its driver is faulty; a batch that failed or was refused is queued again.")
    faults.run(prog, res, "C05", None)
