"""
Line-level seam on the library: a hook is called before each line of bartz
executed by the threads under control, and may switch thread or raise. Uses
sys.monitoring, so that /repo needs no change.
"""

import dis
import functools
import sys
import threading

from . import core

TOOL = 4
LOCAL = threading.local()


@functools.lru_cache(None)
def _layout(code):
    """what is needed to tell where the interpreter may deliver an exception"""
    ins = [(i.offset, i.opname, i.argval) for i in dis.get_instructions(code)]
    table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]
    # a call, or the bottom of a loop: where signals are looked at
    stops = [o for o, name, _ in ins if name.startswith(('CALL', 'JUMP_BACKWARD', 'BINARY', 'FOR_ITER', 'LOAD_ATTR', 'COMPARE', 'BUILD', 'STORE_SUBSCR'))]
    starts = sorted({o for o, line in dis.findlinestarts(code)})
    ends = {a: b for a, b in zip(starts, starts[1:] + [1 << 30])}
    exits = {ins[k][0] for k in range(len(ins) - 2) if all(q[1:] == ('LOAD_CONST', None) for q in ins[k:k + 3])}
    exits |= {ins[k][0] for k in range(len(ins) - 1) if ins[k][1] in ('SWAP', 'NOP') and ins[k + 1][0] in exits}
    return table, stops, ends, exits


def _handler(table, offset):
    found = None
    for a, b, target in table:
        if a <= offset < b:
            found = target      # entries are sorted, the innermost applies
    return found


def deliverable(code, prev, cur):
    """
    Can an exception from outside arrive when going from one line to the next?
    It arrives during calls. It does not between the end of a protected block
    and the start of its clean up, e.g., before leaving a `with` block.
    """
    table, stops, ends, exits = _layout(code)
    if cur in exits:
        return False
    if prev is not None:
        h = _handler(table, prev)
        if h is not None and h != _handler(table, cur):
            return False
    if any(cur <= o < ends.get(cur, cur) for o in stops):
        return True
    return prev is None or prev >= cur or any(prev <= o < cur for o in stops)


class LineHook:
    """
    with LineHook(f): f(filename, qualname, line) is called before every line
    of the library; LOCAL.can_raise tells if an exception may arrive there
    """

    def __init__(self, func):
        self.func = func
        self.inside = threading.local()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'bartz-sim')

        def on_line(code, line):
            if not code.co_filename.startswith(core.SRC):
                return mon.DISABLE
            if getattr(self.inside, 'on', False):
                return
            frame = sys._getframe(1)
            prev, last = getattr(self.inside, 'prev', None), None
            if prev is None:
                prev = self.inside.prev = {}
            q = prev.get(id(frame))
            if q is not None and q[0] is code:
                last = q[1]
            cur = frame.f_lasti
            prev[id(frame)] = code, cur
            LOCAL.can_raise = deliverable(code, last, cur)
            self.inside.on = True
            try:
                self.func(code.co_filename, code.co_qualname, line)
            finally:
                self.inside.on = False

        def on_start(code, offset):
            if not code.co_filename.startswith(core.SRC):
                return mon.DISABLE
            prev = getattr(self.inside, 'prev', None)
            if prev is not None:
                prev.pop(id(sys._getframe(1)), None)

        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE | mon.events.PY_START)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.free_tool_id(TOOL)


HOST = {'pure_callback_impl', 'debug_callback_impl', 'io_callback_impl'}


def in_host_callback():
    """Is the calling thread executing a host callback of a compiled function? (which thread does is up to XLA)"""
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_name in HOST:
            return True
        f = f.f_back
    return False


class Injector:
    """
    Records the places passed by an operation, or raises at a given one. Host
    callbacks are counted apart, since XLA decides which thread executes them.
    """

    def __init__(self, at=None, exc=None, main=None):
        self.at = at          # ['main' or 'host', number of the event]
        self.exc = exc
        self.fired = None
        self.events = dict(main=[], host=[])
        self.main = main or threading.get_ident()

    def hook(self, filename, qualname, line):
        if in_host_callback():
            kind = 'host'
        elif threading.get_ident() == self.main:
            kind = 'main'
        else:
            return
        if not LOCAL.can_raise:
            return
        ev = self.events[kind]
        ev.append((filename.rsplit('/', 1)[-1], qualname, line))
        if self.fired is None and self.at is not None and self.at[0] == kind and self.at[1] == len(ev) - 1:
            self.fired = ev[-1]
            raise self.exc


SCHEDULER = None     # the one in charge, if any
_THREADING = threading.__file__
_real = dict(Lock=threading.Lock, RLock=threading.RLock)


class SimLock:
    """
    A lock of the library under the control of the scheduler: a thread which
    would have to wait for it passes the control to another one.
    """

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        sched = SCHEDULER
        while sched is not None and sched.block():
            if self._real.acquire(False):
                return True
        # not a thread under control, or nobody left to pass the control to
        if timeout is not None and timeout >= 0:
            return self._real.acquire(True, timeout)
        if sched is None or not sched.controls():
            return self._real.acquire()
        if not self._real.acquire(True, 20):
            raise core.Violation('deadlock', f'{sched.me()} waits for a lock which nobody can release; last switches {sched.history[-6:]}')
        return True

    def release(self):
        self._real.release()
        if SCHEDULER is not None:
            SCHEDULER.waiting.clear()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        if name == '_real':
            raise AttributeError(name)
        return getattr(self._real, name)


def control_locks():
    """locks created by the library from now on are under the control of the scheduler"""
    def make(name):
        real = _real[name]

        def factory(*args):
            f = sys._getframe(1)
            while f is not None and (f.f_code.co_filename == _THREADING or f.f_code.co_filename[:1] == '<'):
                f = f.f_back
            lock = real(*args)
            return SimLock(lock) if f is not None and f.f_code.co_filename.startswith(core.SRC) else lock
        factory.__name__ = name
        setattr(threading, name, factory)
    for name in _real:
        make(name)


WAITING_MODULES = ('threading.py', 'queue.py', 'concurrent/futures/_base.py', 'concurrent/futures/thread.py')


class Killed(KeyboardInterrupt):
    """interrupt injected in a thread"""


class Scheduler:
    """
    Runs functions in threads of which exactly one is running at any time; a
    seeded generator decides at each line of the library whether to pass the
    control and to whom. A thread is never suspended while jax traces, because
    it could hold locks of jax.
    """

    def __init__(self, rng, policy, kills=None):
        self.rng = rng
        self.policy = policy              # ['random', p] or ['pct', [change points]]
        self.kills = kills or {}          # thread -> number of the event at which it is interrupted
        self.events = 0
        self.switches = 0
        self.history = []                 # (from, to, place)
        self.killed = set()
        self.blocked_handovers = 0
        self.waiting = set()              # threads known to wait for a lock nobody has released since

    def run(self, funcs):
        from jax import core as jcore
        n = len(funcs)
        self.n = n
        gates = [threading.Semaphore(0) for _ in range(n)]
        done = [False] * n
        out = [None] * n
        ident = {}
        self.current = None
        count = [0] * n
        prio = list(range(n))
        self.rng.shuffle(prio)
        main = threading.Event()
        tick = [0]

        def choose(exclude=None):
            cands = [i for i in range(n) if not done[i] and i != exclude]
            cands = [i for i in cands if i not in self.waiting] or cands
            if not cands:
                return exclude
            if self.policy[0] == 'pct':
                return max(cands, key=lambda i: prio[i])
            return self.rng.choice(cands)

        def handover(me, to, place):
            if to is None or to == me:
                return
            self.switches += 1
            self.history.append((me, to, place))
            self.current = to
            gates[to].release()
            gates[me].acquire()
            # running again
            self.current = me

        def hook(filename, qualname, line):
            me = ident.get(threading.get_ident())
            if me is None or self.current != me:
                return
            if not jcore.trace_state_clean() or in_host_callback():
                return
            tick[0] += 1
            self.events += 1
            count[me] += 1
            place = f'{filename.rsplit("/", 1)[-1]}:{qualname}:{line}'
            if me in self.kills and count[me] >= self.kills[me] and me not in self.killed and LOCAL.can_raise:
                self.killed.add(me)
                raise Killed(f'injected in thread {me} at {place}')
            if self.policy[0] == 'pct':
                if self.events in self.policy[1]:
                    prio[me] = min(prio) - 1
                to = choose()
                if prio[to] > prio[me]:
                    handover(me, to, place)
            elif self.rng.random() < self.policy[1]:
                handover(me, choose(me), place)

        def block():
            me = ident.get(threading.get_ident())
            if me is None or self.current != me or in_host_callback():
                return False
            self.waiting.add(me)
            cands = [i for i in range(n) if not done[i] and i not in self.waiting]
            if not cands:
                return False
            self.blocked_handovers += 1
            handover(me, max(cands, key=lambda i: prio[i]) if self.policy[0] == 'pct' else self.rng.choice(cands), 'lock')
            return True

        self.block = block
        self.me = lambda: ident.get(threading.get_ident())
        self.controls = lambda: self.me() is not None and self.current == self.me()

        def body(i):
            ident[threading.get_ident()] = i
            gates[i].acquire()
            self.current = i
            try:
                out[i] = ('ok', funcs[i]())
            except BaseException as e:
                out[i] = ('exc', e)
            done[i] = True
            nxt = choose(i) if not all(done) else None
            if nxt is None or done[nxt]:
                main.set()
            else:
                self.history.append((i, nxt, 'end'))
                self.current = nxt
                gates[nxt].release()

        global SCHEDULER
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        SCHEDULER = self
        with LineHook(hook):
            for t in threads:
                t.start()
            first = choose()
            gates[first].release()
            stuck = None
            while not main.wait(1.0):
                # a thread waiting for a lock held by a suspended one must let the others go on
                cur = self.current
                tid = next((t for t, i in ident.items() if i == cur), None)
                frame = sys._current_frames().get(tid)
                while frame is not None and frame.f_code.co_filename.endswith(WAITING_MODULES):
                    frame = frame.f_back
                here = None
                if frame is not None and frame.f_code.co_filename.startswith(core.SRC):
                    here = (cur, tick[0], id(frame), frame.f_lineno)
                if here is not None and here == stuck:
                    cands = [i for i in range(n) if not done[i] and i != cur]
                    if cands:
                        self.blocked_handovers += 1
                        to = self.rng.choice(cands)
                        self.current = to
                        gates[to].release()
                    here = None
                stuck = here
            while any(t.is_alive() for t in threads):
                # only after handovers because of locks: let everybody finish
                for g, t in zip(gates, threads):
                    t.join(0.05)
                    if t.is_alive():
                        g.release()
        SCHEDULER = None
        return out
