"""Deterministic interleaving of several workers, line by line of the code under test.

Every worker runs in its own thread, and stops before each line of the library it executes; ``schedule`` says which
worker goes on and for how many lines. When it is used up the workers go on in turns of ``lockstep`` lines, or one after
the other. A worker that does not
come to a line within BLOCKED seconds (it waits for a lock of another) is left alone and another one goes on.
"""
import os
import random
import sys
import threading
import time

from .boot import REPO
from .core import Violation

BLOCKED = 0.3
GIVE_UP = 60


class _Worker:
    def __init__(self, i, fun):
        self.i, self.fun = i, fun
        self.go = threading.Semaphore(0)
        self.parked = False
        self.done = False
        self.error = None
        self.lines = 0
        self.random = random.getstate()


def run(funs, schedule, lockstep=None):
    """Runs the functions, interleaved. Returns the number of switches between unfinished workers; raises the first error."""
    prefix = os.path.join(os.path.abspath(REPO), "ruleskit") + os.sep
    workers = [_Worker(i, f) for i, f in enumerate(funs)]
    cv = threading.Condition()

    def stop(w):
        with cv:
            w.parked = True
            cv.notify_all()
        w.go.acquire()

    def body(w):
        def local(frame, event, arg):
            if event == "line":
                w.lines += 1
                stop(w)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(prefix) else None

        stop(w)
        sys.settrace(trace)
        try:
            w.fun()
        except BaseException as e:
            w.error = e
        finally:
            sys.settrace(None)
            with cv:
                w.done = True
                w.parked = False
                cv.notify_all()

    threads = [threading.Thread(target=body, args=(w,), daemon=True) for w in workers]
    for t in threads:
        t.start()
    start = time.time()

    def step(w):
        """Lets a stopped worker execute one line. False if it has not come to the next one in time."""
        with cv:
            w.parked = False
        w.go.release()
        with cv:
            return cv.wait_for(lambda: w.parked or w.done, timeout=BLOCKED)

    with cv:
        cv.wait_for(lambda: all(w.parked for w in workers), timeout=GIVE_UP)
    switches, last = 0, None
    turns = [(i % len(workers), n) for i, n in schedule]
    k = 0
    while not all(w.done for w in workers):
        if time.time() - start > GIVE_UP:
            raise Violation("the interleaved workers do not come to an end")
        i, n = turns[k] if k < len(turns) else (k % len(workers), lockstep or 10 ** 9)
        k += 1
        w = workers[i]
        if w.done:
            continue
        if not w.parked:  # waits for another one
            with cv:
                cv.wait_for(lambda: w.parked or w.done or any(x.parked for x in workers), timeout=0.01)
            continue
        if last is not None and last is not w and not last.done:
            switches += 1
        if last is not w:  # workers that are processes have each their own random generator
            if last is not None:
                last.random = random.getstate()
            random.setstate(w.random)
        last = w
        for _ in range(n):
            if not step(w) or w.done:
                break
    for t in threads:
        t.join()
    for w in workers:
        if w.error is not None:
            raise w.error
    return switches
