"""Controlled scheduler: runs real threads one at a time, switching only where it decides to.

Scheduling points are the lines (or bytecodes) executed in selected source files and every
acquisition of a lock. install() replaces threading.Lock / threading.RLock before the code under
test is imported, so every lock of the code under test is visible, wherever it keeps it.

explore() enumerates all schedules with at most `bound` preemptions (switches away from a thread
that could go on) and all choices at points where the running thread blocks or ends.
"""

import _thread
import sys
import threading

_real_lock = _thread.allocate_lock
_real_rlock = threading._RLock if not hasattr(_thread, 'RLock') else _thread.RLock

_active = None  # the scheduler in charge
_by_ident = {}


class _Lock:
    _make = staticmethod(_real_lock)

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = _by_ident.get(_thread.get_ident()) if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout >= 0:
                return False
            s.block(me, self)
        return True

    def release(self):
        self._l.release()
        s = _active
        if s is not None:
            s.released(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return type(self)()

    def __reduce__(self):
        raise TypeError('cannot pickle lock')

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, '_l'), name)


class _RLock(_Lock):
    _make = staticmethod(_real_rlock)


def install():
    threading.Lock = _Lock
    threading.RLock = _RLock


class Deadlock(Exception):
    pass


class Stuck(Exception):
    """A thread waits for something the scheduler does not control."""


class _Abort(BaseException):
    pass


class Execution:
    """One controlled run of `bodies` (callables); plan: {step: thread} deviations."""

    def __init__(self, bodies, files, plan, opcodes=False, max_steps=20000, timeout=20.0):
        self.n = len(bodies)
        self.bodies = bodies
        self.files = files
        self.plan = plan
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.timeout = timeout
        self.step = 0
        self.running = None
        self.state = ['ready'] * self.n  # ready, blocked, done
        self.waiting = [None] * self.n
        self.gate = [_real_lock() for _ in bodies]
        for g in self.gate:
            g.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.choices = []  # (step, kind, running, alternatives)
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.verdict = None
        self.aborted = False

    # -- decisions ----------------------------------------------------------------------------
    def ready(self, but=None):
        return [i for i in range(self.n) if self.state[i] == 'ready' and i != but]

    def point(self, me):
        """A scheduling point of a thread that could go on."""
        if self.aborted:
            raise _Abort
        self.step += 1
        if self.step > self.max_steps:
            self._abort('livelock')
            raise _Abort
        others = self.ready(me)
        if not others:
            return
        self.choices.append((self.step, 'preempt', me, others))
        to = self.plan.get(self.step)
        if to is not None and to in others:
            self._switch(me, to)

    def _pick(self, kind, me):
        """The running thread cannot go on: choose another one."""
        self.step += 1
        others = self.ready(me)
        if not others:
            return None
        to = self.plan.get(self.step)
        if to not in others:
            to = others[0]
        self.choices.append((self.step, kind, to, [o for o in others if o != to]))
        return to

    def _switch(self, me, to):
        self.running = to
        self.gate[to].release()
        self.gate[me].acquire()
        if self.aborted:
            raise _Abort

    def block(self, me, lock):
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        to = self._pick('block', me)
        if to is None:
            self._abort('deadlock')
            raise _Abort
        self._switch(me, to)

    def released(self, lock):
        for i in range(self.n):
            if self.state[i] == 'blocked' and self.waiting[i] is lock:
                self.state[i] = 'ready'
                self.waiting[i] = None

    def _abort(self, verdict):
        self.verdict = self.verdict or verdict
        self.aborted = True

    # -- threads ------------------------------------------------------------------------------
    def _tracer(self, me):
        files = self.files

        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.point(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.endswith(files):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def _body(self, me):
        self.gate[me].acquire()
        _by_ident[_thread.get_ident()] = me
        try:
            if not self.aborted:
                sys.settrace(self._tracer(me))
                try:
                    self.result[me] = self.bodies[me]()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error[me] = e
        _by_ident.pop(_thread.get_ident(), None)
        self.state[me] = 'done'
        if self.aborted:
            left = [i for i in range(self.n) if self.state[i] != 'done']
        else:
            left = []
            to = self._pick('end', me)
            if to is not None:
                self.running = to
                self.gate[to].release()
                return
            if any(s != 'done' for s in self.state):
                self._abort('deadlock')
                left = [i for i in range(self.n) if self.state[i] != 'done']
        if left:  # let the next one unwind
            self.gate[left[0]].release()
        else:
            self.finished.release()

    def run(self):
        global _active
        for i in range(self.n):
            _thread.start_new_thread(self._body, (i,))
        _active = self
        try:
            first = self._pick('start', None)
            self.running = first
            self.gate[first].release()
            if not self.finished.acquire(timeout=self.timeout):
                self.verdict = 'stuck'
        finally:
            _active = None
        return self


def explore(make, files, bound, opcodes=False, limit=None, visit=None, max_steps=20000, part=None):
    """make() -> (bodies, finish). finish(execution) is called after each run.

    Enumerates exhaustively within the preemption bound; stops
    at `limit` executions (then the caller reports a cap)."""
    stack = [({}, 0, 0)]  # plan, first step that may deviate, preemptions used
    n = 0
    root = 0
    while stack:
        plan, start, used = stack.pop()
        bodies, finish = make()
        ex = Execution(bodies, files, plan, opcodes, max_steps)
        ex.run()
        if plan or part is None or part[0] == 0:
            n += 1
            visit(ex, plan, finish)
        if limit is not None and n >= limit:
            return n, len(stack)
        for step, kind, _, others in ex.choices:
            if step <= start:
                continue
            cost = used + (kind == 'preempt')
            if cost > bound:
                continue
            for o in others:
                if not plan and part is not None:
                    # the subtrees of the first deviation are shared among the workers
                    root += 1
                    if root % part[1] != part[0]:
                        continue
                stack.append(({**plan, step: o}, step, cost))
    return n, 0


