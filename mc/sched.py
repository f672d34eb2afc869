"""Controlled scheduling of two calls on two threads: the switch points are the source lines (or function calls) of python_dice.

One run is given by the schedule (k1, k2): the first call runs until its k1-th point, the second one then starts and runs until its
k2-th point (None: to its end), the first one runs to its end, the second one finishes.  If a thread cannot go on because it waits
for a lock the other one holds, the other one continues after a short wait; that only changes the schedule, never the verdict.
"""
import os
import sys
import threading

from . import impl

ROOT = os.path.join(os.path.realpath(impl.REPO), "python_dice") + os.sep
BLOCKED_S = [3.0]
_inside = {}


def inside(name):
    if name not in _inside:
        _inside[name] = os.path.realpath(name).startswith(ROOT)
    return _inside[name]


def wait(event):
    """Waits for the other thread; once one turned out to be blocked (code that uses locks), later waits are short."""
    if not event.wait(BLOCKED_S[0]):
        BLOCKED_S[0] = 0.03


def counter(event_kind, at, action):
    """A trace function that calls action() at the at-th point."""
    state = {"n": 0, "hit": False}

    def local(frame, event, arg):
        if event == event_kind:
            state["n"] += 1
            if state["n"] == at and not state["hit"]:
                state["hit"] = True
                action()
        return local

    def trace(frame, event, arg):
        if not inside(frame.f_code.co_filename):
            return None
        if event_kind == "call":
            local(frame, event, arg)
            return None
        return local

    return trace, state


def run(first, second, k1, k2=None, points="line"):
    """Returns (outcome of first, outcome of second, points passed by the first, points passed by the second, k1 reached, k2 reached)."""
    go_on, first_done = threading.Event(), threading.Event()
    answers = {}
    thread = [None]

    def at_k2():
        go_on.set()
        wait(first_done)

    trace2, state2 = counter(points, k2 if k2 is not None else -1, at_k2)

    def body():
        try:
            if k2 is not None:
                sys.settrace(trace2)
            try:
                answers["second"] = impl.outcome(second)
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: B902  reported by the caller
            answers["second"] = ("crash", "%s: %s" % (type(e).__name__, e))
        finally:
            go_on.set()

    def at_k1():
        thread[0] = threading.Thread(target=body, daemon=True)
        thread[0].start()
        wait(go_on)

    trace1, state1 = counter(points, k1, at_k1)
    sys.settrace(trace1)
    try:
        answers["first"] = impl.outcome(first)
    except Exception as e:
        answers["first"] = ("crash", "%s: %s" % (type(e).__name__, e))
    finally:
        sys.settrace(None)
        first_done.set()
    if thread[0] is None:
        at_k1()  # the first call ended before its k1-th point: the second one follows it
    thread[0].join(60)
    if thread[0].is_alive():
        answers["second"] = ("crash", "never ends")
    return answers["first"], answers["second"], state1["n"], state2["n"], state1["hit"], state2["hit"]
