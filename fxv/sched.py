"""Controlled scheduler for real Python threads: exactly one thread runs at a time; control returns to the explorer at every
traced source line (or bytecode) of the code under test and at every lock operation.  explore() enumerates all schedules
depth-first up to a preemption bound (None: all schedules)."""
import sys, threading, time, _thread

_alloc = _thread.allocate_lock
_cur = {}            # thread ident -> T


class Abort(BaseException):
    pass


class T:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = _alloc()
        self.go.acquire()
        self.blocked = None
        self.yielded = False
        self.done = False
        self.result = self.error = None


class Lock:
    """Replacement of threading.Lock / RLock."""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _me(self):
        return _cur.get(_thread.get_ident(), "main")

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner is me)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if me == "main":
            if not self._free(me):
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("self-deadlock outside the explored threads")
        else:
            me.s.point()
            while not self._free(me):
                if not blocking or timeout >= 0:
                    # given up at once, or the time has run out; a caller that polls lets the others go on meanwhile
                    me.s.give_way()
                    return False
                me.blocked = self
                me.s.point()
            me.blocked = None
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = self._me()
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if me != "main":
            me.s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner is self._me()

    def _release_save(self):
        st = self.count
        self.count = 0
        self.owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st


class RLock(Lock):
    reentrant = True


class Patched:
    """threading's lock constructors replaced while active."""

    def __enter__(self):
        self.old = {n: getattr(threading, n) for n in ("Lock", "RLock", "_allocate_lock", "_CRLock") if hasattr(threading, n)}
        threading.Lock = threading._allocate_lock = Lock
        threading.RLock = RLock
        self.sleep = time.sleep

        def sleep(secs):
            t = _cur.get(_thread.get_ident())
            if t is None:
                self.sleep(secs)
            else:
                t.s.give_way()
        time.sleep = sleep
        return self

    def __exit__(self, *a):
        time.sleep = self.sleep
        for n, v in self.old.items():
            setattr(threading, n, v)


class Stuck(Exception):
    pass


class Run:
    """One execution under a given prefix of choices."""

    def __init__(self, fns, files, opcodes, prefix, maxsteps=20000):
        self.dirs = tuple(f for f in files if f.endswith('/')) or ('\0',)
        self.files, self.opcodes = files, opcodes
        self.main = _alloc()
        self.main.acquire()
        self.threads = [T(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            t.s = self
        self.prefix, self.trace = prefix, []      # trace: (chosen, enabled tuple, thread that goes on without a preemption)
        self.abort = False
        self.maxsteps = maxsteps
        self.problem = None
        self.expect, self.diverged = None, False
        self.last = None

    def point(self):
        t = _cur.get(_thread.get_ident())
        if t is None:
            return
        if self.abort:
            if sys.exc_info()[0] is None:
                raise Abort()
            return
        n = self._decide()
        if n is t:
            return
        (n.go if n else self.main).release()
        t.go.acquire()
        if self.abort:
            raise Abort()

    def give_way(self):
        """The running thread waits for time to pass: another thread takes the next step, if one can."""
        _cur[_thread.get_ident()].yielded = True
        self.point()

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.files or frame.f_code.co_filename.startswith(self.dirs):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point()
        return self._local

    def _body(self, t):
        _cur[_thread.get_ident()] = t
        t.go.acquire()
        try:
            if not self.abort:
                sys.settrace(self._tracer)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:      # noqa
            t.error = e
        t.done = True
        _cur.pop(_thread.get_ident(), None)
        n = None if self.abort else self._decide()
        (n.go if n else self.main).release()

    def _decide(self):
        """The thread that takes the next step (chosen by the running thread); None at the end of the execution."""
        last = self.last
        en = [t for t in self.threads if not t.done and (t.blocked is None or t.blocked._free(t))]
        if not en:
            if not all(t.done for t in self.threads):
                self.problem = "deadlock: " + ", ".join("thread %d %s" % (t.i, "done" if t.done else "waits for a lock") for t in self.threads)
            return None
        k = len(self.trace)
        if k >= self.maxsteps:
            self.problem = "no termination within %d steps" % self.maxsteps
            return None
        ids = [t.i for t in en]
        gave = last is not None and self.threads[last].yielded
        if gave:
            self.threads[last].yielded = False
            if len(ids) > 1:
                # the others in turn, so that threads that poll cannot keep a third one from running
                ids = [i for i in ids if i > last] + [i for i in ids if i < last]
        if k < len(self.prefix):
            c = self.prefix[k]
            if self.expect is not None and k < len(self.expect) and self.expect[k] != tuple(ids):
                self.diverged = True
            if c not in ids:
                c = last if last in ids else ids[0]
        else:
            c = last if last in ids else ids[0]
        self.trace.append((c, tuple(ids), ids[0] if gave else last))
        self.last = c
        return self.threads[c]

    def execute(self):
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        n = self._decide()
        if n:
            n.go.release()
            seen = 0
            while not self.main.acquire(timeout=60):
                if len(self.trace) == seen:
                    raise Stuck("thread does not return control")
                seen = len(self.trace)
        # unwind what is left
        self.abort = True
        for t in self.threads:
            if not t.done:
                t.go.release()
                if not self.main.acquire(timeout=60):
                    raise Stuck("thread does not unwind")
        return self


def warm_up():
    """CPython 3.12 delivers bytecode events reliably only once f_trace_opcodes has been set in the interpreter."""
    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr

    def f():
        return 1
    sys.settrace(tr)
    try:
        f()
    finally:
        sys.settrace(None)


class OutOfTime(Exception):
    pass


def deepen(make, files, opcodes, bound, on_end, budget):
    """explore() with 0, 1, ... `bound` preemptions (None: up to 4, then all schedules) until `budget` seconds have passed; with 0
    and 1 in any case.  Returns explore()'s values and the last bound that was completed (-1: none)."""
    t0, done = time.monotonic(), -1
    n = steps = 0
    for b in list(range(0, (4 if bound is None else bound) + 1)) + ([None] if bound is None else []):
        count = [0, 0]
        try:
            a, s, prob, sc = explore(make, files, opcodes, b, on_end, until=None if b in (0, 1) else t0 + budget, count=count)
        except OutOfTime:
            return n + count[0], steps + count[1], None, None, done
        n, steps, done = a, s, b
        if prob:
            break
    return n, steps, prob, sc, done


def explore(make, files, opcodes, bound, on_end, limit=None, until=None, count=None):
    """make() -> (thread functions, context).  Depth-first enumeration of all schedules with at most `bound` preemptions
    (switching away from a thread that could go on).  on_end(run, context) -> problem text or None.
    Returns (executions, steps, first problem or None, schedule)."""
    if opcodes:
        warm_up()
    stack = [((), ())]
    n = steps = 0
    while stack:
        prefix, expect = stack.pop()
        fns, ctx = make()
        r = Run(fns, files, opcodes, list(prefix))
        r.expect = expect
        r.execute()
        explore.diverged += r.diverged
        n += 1
        steps += len(r.trace)
        if count is not None:
            count[:] = n, steps
        if until is not None and time.monotonic() > until:
            raise OutOfTime
        sched = [c for c, _, _ in r.trace]
        p = r.problem or on_end(r, ctx)
        if p:
            return n, steps, p, sched
        if limit and n >= limit:
            raise Stuck("more than %d schedules" % limit)
        # preemptions used up to each position
        pre = 0
        alts = []
        for k, (c, en, last) in enumerate(r.trace):
            if k >= len(prefix):
                for a in en:
                    if a != c:
                        cost = pre + (1 if last in en and a != last else 0)
                        if bound is None or cost <= bound:
                            alts.append((tuple(sched[:k]) + (a,), tuple(e for _, e, _ in r.trace[:k + 1])))
            if last in en and c != last:
                pre += 1
        stack.extend(reversed(alts))
    return n, steps, None, None


explore.diverged = 0      # replays whose enabled threads differed from the recorded ones
