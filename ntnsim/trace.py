"""Execution seam: interrupts at arbitrary lines, and a cooperative scheduler for
caller threads, both driven by line events of the code under test."""
import sys
import threading

from .boot import is_ntn_file


class Interrupt(BaseException):
    """Asynchronous interruption (cancellation, signal) raised by the simulator"""


class LineBomb:
    """Context manager raising `exc` before the `at`-th executed line of the code
    under test. ``count`` holds the number of lines seen."""

    def __init__(self, at=None, exc=Interrupt):
        self.at = at
        self.exc = exc
        self.count = 0
        self.fired = None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.at is not None and self.count == self.at:
                self.fired = (frame.f_code.co_filename.rsplit("/", 1)[-1],
                              frame.f_code.co_name)
                self.at = None
                raise self.exc("injected interruption")
        return self._local

    def _global(self, frame, event, arg):
        if is_ntn_file(frame.f_code.co_filename):
            return self._local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class Stuck(Exception):
    """The scheduler could not make progress (harness error)"""


class ThreadSim:
    """Runs functions in real threads, exactly one at a time. At every line event
    of the code under test the running thread may be preempted; a seeded generator
    decides when, and who runs next. `schedule` is a list of (thread index, number
    of lines to run) and is consumed first; it records what was done."""

    def __init__(self, rng, mean_burst=40, max_switches=400, schedule=None):
        self.rng = rng
        self.mean_burst = mean_burst
        self.max_switches = max_switches
        self.given = list(schedule) if schedule is not None else None
        self.schedule = []
        self.switches = 0
        self.blocked = 0
        self.cv = threading.Condition()
        self.running = None
        self.budget = 0

    def _pick(self, alive):
        if self.given is not None:
            while self.given:
                t, n = self.given.pop(0)
                if t in alive:
                    return t, n
            return alive[0], 10**9
        if self.switches >= self.max_switches:
            return alive[0], 10**9
        t = alive[self.rng.randrange(len(alive))]
        n = 1 + int(self.rng.expovariate(1.0/self.mean_burst))
        return t, n

    def _next(self):
        alive = [i for i, d in enumerate(self.done) if not d]
        if not alive:
            self.running = None
        else:
            self.running, self.budget = self._pick(alive)
            self.schedule.append((self.running, self.budget))
            self.switches += 1
        self.cv.notify_all()

    def _wait(self, i):
        # If the running thread is blocked on something another thread holds,
        # it never reaches its next line: hand the baton on.
        idle = 0
        while self.running != i:
            seen = (self.running, self.budget)
            if not self.cv.wait(timeout=5):
                if seen == (self.running, self.budget):
                    idle += 1
                    if idle >= 2 and self.running is not None:
                        alive = [j for j, d in enumerate(self.done)
                                 if not d and j != self.running]
                        self.blocked += 1
                        self.running, self.budget = alive[0], 10**9
                        self.cv.notify_all()
                        idle = 0
                else:
                    idle = 0

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.budget -= 1
                if self.budget < 0:
                    with self.cv:
                        self._next()
                        self._wait(i)
            return local

        def glob(frame, event, arg):
            if is_ntn_file(frame.f_code.co_filename):
                return local
            return None
        return glob

    def run(self, fns):
        n = len(fns)
        self.done = [False]*n
        results = [None]*n
        errors = [None]*n

        def body(i):
            with self.cv:
                self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                results[i] = fns[i]()
            except BaseException as e:  # reported to the caller
                errors[i] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.done[i] = True
                    self._next()

        ths = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
        for t in ths:
            t.start()
        with self.cv:
            self._next()
        for t in ths:
            t.join(timeout=300)
            if t.is_alive():
                raise Stuck("simulated thread did not finish")
        return results, errors
