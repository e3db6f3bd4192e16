"""C17 an interrupted or failed call leaves no damage behind."""

import random as pyrandom

from .. import config, history
from ..core import Violation
from . import c16

RUNS = dict(quick=20, thorough=400)
TIMEOUT = 400
LEVEL = 'fault_enumeration'
RULE = ('a run takes some operations on shared models, states and data, lists the lines of the library each passes (with warm and with cold compilation '
        'caches), and executes the operation once per distinct line with an interrupt or failure injected there, plus failures of jax primitives, and of the '
        'output stream at each write; after each the objects are compared with before, and the operation and another one repeated and compared with the '
        'undisturbed results. distinct_nontrivial counts distinct (operation, cache state, injected exception, place) that did fire')
STUB = 'mcmcstep.step is replaced by a stub in fits and runs with stub=true'
ASSUMPTIONS = ['with warm caches every distinct line is a fault point (one of its executions each) in the thorough tier, at most 30 per operation in the quick one; with cold caches a sample of them']

OPS = ('fit', 'fit', 'fit', 'predict', 'yhat_train', 'yhat_train_mean', 'diagnostics', 'run_mcmc', 'step', 'evaluate', 'cutpoints', 'autobatch', 'init', 'predict_other')


def generate(r, tier, i):
    stub = r.random() < 0.9
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 3, 8, 20]), p=r.choice([1, 2, 3]), d=r.choice([1, 2, 3]), ntree=r.choice([1, 2, 5]), save_ratios=r.random() < 0.3)
    ops = [[r.choice(OPS), r.randrange(3)] for _ in range(2)]
    return dict(stub=stub, problem=c, ops=ops, saves=r.choice(c16.SAVES), cold=r.choice([1, 2]) if stub else 1, warm=None, most=30 if tier == 'quick' else 10 ** 6, binds=r.choice([2, 4]), seed=r.randrange(2 ** 31), frame=r.random() < 0.2,
                numcut=r.choice([3, 50]), usequants=r.random() < 0.5, only=None, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    if len(sc['ops']) > 1:
        for o in sc['ops']:
            yield dict(sc, ops=[o])
    if sc['only'] is None:
        for kind in ('stdout', 'bind', 'line', 'cold'):
            yield dict(sc, only=kind)
    if sc['warm'] is None:
        for w in range(12):
            yield dict(sc, warm=[w, 12])
    elif sc['warm'][1] < 200:
        a, b = sc['warm']
        for q in range(4):
            yield dict(sc, warm=[a + q * b, 4 * b])
    if sc['cold'] > 1:
        yield dict(sc, cold=1)
    if sc['frame']:
        yield dict(sc, frame=False)
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


class FailingOut:
    def __init__(self, fail):
        self.left, self.fired, self.writes = fail, False, 0

    def write(self, s):
        if self.left is not None and self.writes >= self.left:
            self.fired = True
            raise OSError(28, 'injected: no space left on device')
        self.writes += 1
        return len(s)

    def flush(self):
        pass


def make_exc(name):
    if name == 'XlaRuntimeError':
        import jaxlib.xla_extension as x
        return x.XlaRuntimeError('RESOURCE_EXHAUSTED: injected: out of memory')
    import builtins
    return getattr(builtins, name)('injected')


EXCS = ('KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'XlaRuntimeError')


class failing_bind:
    """k-th application of a jax primitive fails"""

    def __init__(self, k, exc):
        self.k, self.exc, self.count, self.fired = k, exc, 0, None

    def __enter__(self):
        from jax._src import core as jcore
        self.cls = jcore.Primitive
        self.orig = orig = jcore.Primitive.bind

        def bind(prim, *args, **kw):
            self.count += 1
            if self.k is not None and self.count == self.k + 1:
                self.fired = str(prim)
                raise self.exc
            return orig(prim, *args, **kw)

        jcore.Primitive.bind = bind
        return self

    def __exit__(self, *exc):
        self.cls.bind = self.orig


class jax_own_state:
    """
    JAX 0.4.30 leaves its own stack of traces dirty when a pytree node is
    interrupted while JAX flattens the outputs of a transformation, until the
    exception is dropped (`linear_util.WrappedFun.call_wrapped` does not close
    the generators left). It would disturb any later call of JAX, and the
    library has no part in it: drop the frames of the exception as a caller
    would, and put back what is left.
    """

    def __init__(self):
        from jax._src import core as jcore
        self.jcore = jcore
        state = jcore.thread_local_state.trace_state
        self.saved = list(state.trace_stack.stack), state.trace_stack.dynamic, list(state.substack), list(state.axis_env)

    def restore(self, error):
        """-> whether jax had left it dirty"""
        import gc
        import traceback
        jcore = self.jcore
        if jcore.trace_state_clean():
            return False
        seen = set()
        while error is not None and id(error) not in seen:
            seen.add(id(error))
            tb, error.__traceback__ = error.__traceback__, None
            if tb is not None:
                traceback.clear_frames(tb)
            tb, error = None, error.__cause__ or error.__context__
        gc.collect()
        state = jcore.thread_local_state.trace_state
        stack, dynamic, sub, env = self.saved
        state.trace_stack.stack[:] = stack
        state.trace_stack.dynamic = dynamic
        state.substack[:] = sub
        state.axis_env[:] = env
        jcore._update_thread_local_jit_state(dynamic)
        return True


def run(sc, rec):
    import contextlib
    import io
    import numpy as np
    from .. import instrument, sut
    jax = sut.jax
    rng = pyrandom.Random(sc['seed'])
    rec.count('stub' if sc['stub'] else 'real')
    W = c16.World(sc, sut)
    tasks = sorted({tuple(t) for t in sc['ops']} | {('predict', 0), ('step', 0), ('fit', 0)})
    shared = lambda: dict(X=W.X, y=W.y, x1=W.xs[1], x2=W.xs[2], **{f'state{k}': v for k, v in sut.leaves_with_path(W.state)})
    before = sut.snapshot(shared())

    def model_snapshot():
        out = {}
        for i, m in enumerate(W.models):
            out.update({f'{i}.{k}': v for k, v in sut.model_contents(m).items()})
        return out

    def call(t):
        with sut.stub_step(sc['stub'], forest=True):
            return W.digest(*t)

    want = {t: call(t) for t in tasks}
    rec.step(len(tasks))

    def verify(t, where):
        got = call(t)
        if got != want[t]:
            raise Violation('later-call-affected', f'{where}: then {t} gives another result')

    def attempt(t, kind, exc, cold, ctx, fired):
        """executes t under the injection `ctx`"""
        if cold:
            jax.clear_caches()
        W.fresh()
        snap = model_snapshot()
        name = f'{t} with {"cold" if cold else "warm"} caches, {kind}'
        result, error = None, None
        own = jax_own_state()
        with ctx:
            try:
                result = call(t)
            except BaseException as e:
                error = e
        if error is not None:
            try:
                jax.effects_barrier()
            except BaseException:
                pass
        place = fired()
        if place is not None and own.restore(error):
            rec.count('jax trace stack restored')
        if place is None:
            if error is not None:
                raise error
            rec.count('not_reached')
            if result != want[t]:
                raise Violation('later-call-affected', f'{name}: no fault fired, result differs')
            return
        where = f'{name} {exc} at {place}'
        rec.fault(f'{kind}: {exc}')
        rec.seen(t[0], cold, exc, place)
        rec.log(where)
        if error is None:
            # not reported: tolerable only if the result is right nevertheless
            if result != want[t]:
                raise Violation('failure-replaced-by-wrong-result', where)
            rec.count('absorbed')
        else:
            rec.count('reported')
        if sut.snapshot(shared()) != before:
            raise Violation('input-damaged', f'{where}: {sut.diff_snap(before, sut.snapshot(shared()))[:5]}')
        if W.initkw != dict(resid_batch_size=None):
            raise Violation('input-damaged', f'{where}: initkw is now {W.initkw}')
        now = model_snapshot()
        lost = sorted(k for k in snap if now.get(k) != snap[k])
        if lost:
            raise Violation('model-damaged', f'{where}: {lost[:5]}')
        verify(t, where)
        if rng.random() < 0.4:
            verify(rng.choice(tasks), where)
        rec.step(2)

    # the places passed, with warm and then with cold caches
    for cold in (False, True):
        for t in map(tuple, sc['ops']):
            if sc['only'] not in (None, 'line', 'cold') or (sc['only'] == 'cold') != cold and sc['only'] is not None:
                continue
            W.fresh()
            if cold:
                jax.clear_caches()
            else:
                call(t)
                W.fresh()
            inj = instrument.Injector()
            with instrument.LineHook(inj.hook):
                call(t)
            points = []
            for kind in ('main', 'host'):
                occ = {}
                for k, p in enumerate(inj.events[kind]):
                    occ.setdefault(p, []).append(k)
                for p in sorted(occ):
                    points.append((kind, rng.choice(occ[p]), p))
            rec.count(f'places {"cold" if cold else "warm"}', len(points))
            excs = [rng.choice(EXCS) for _ in points]
            if cold:
                sel = sorted(rng.sample(range(len(points)), min(sc['cold'], 1 if t[0] == 'diagnostics' else 99, len(points))))
            else:
                sel = sorted(rng.sample(range(len(points)), min(sc['most'], 8 if t[0] == 'diagnostics' and sc['most'] < 10 ** 6 else 10 ** 6, len(points))))
                if sc['warm']:
                    sel = [q for q in sel if q % sc['warm'][1] == sc['warm'][0]]
            for q in sel:
                kind, k, p = points[q]
                i = instrument.Injector([kind, k], make_exc(excs[q]))
                attempt(t, f'line ({kind})', excs[q], cold, instrument.LineHook(i.hook), lambda: i.fired)
    for t in map(tuple, sc['ops']):
        rec.count(f'op:{t[0]}')
        if sc['only'] in (None, 'bind'):
            call(t)
            W.fresh()
            with failing_bind(None, None) as fb:
                call(t)
            for _ in range(min(sc['binds'], fb.count)):
                k = rng.randrange(fb.count)
                name = rng.choice(EXCS)
                b = failing_bind(k, make_exc(name))
                attempt(t, 'primitive', name, False, b, lambda: b.fired)
        if sc['only'] in (None, 'stdout') and t[0] == 'fit':
            for j in range(3):
                out = FailingOut(j)
                attempt(t, 'stdout', 'OSError', False, contextlib.redirect_stdout(out), lambda: f'write {j}' if out.fired else None)
    # a last look at everything, from scratch
    jax.clear_caches()
    W.fresh()
    for t in tasks:
        verify(t, 'at the end')
