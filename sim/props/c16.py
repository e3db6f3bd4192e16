"""C16 concurrent use from several threads equals serial use."""

import pickle
import random as pyrandom

from .. import config, history
from ..core import Violation

RUNS = dict(quick=48, thorough=700)
TIMEOUT = 300
RULE = ('a run executes 2-4 threads with fits, predictions, lazily computed attributes, runs and steps on shared or separate models, states and data under '
        'many seeded interleavings (random or priority based switches at any line of the library), some with a thread interrupted, and compares each '
        'result bit for bit with the one of the call executed alone; distinct_nontrivial counts distinct interleavings (sequence of thread switches with '
        'their places) with at least 2 switches')
STUB = 'thread scheduling is decided by the simulator; mcmcstep.step is replaced by a stub in fits and runs with stub=true'
ASSUMPTIONS = ['a thread is not suspended while jax traces or compiles a function, nor within lines or inside jax']

TASKS = ('fit', 'fit', 'fit_shared_key', 'predict', 'predict', 'predict_other', 'yhat_train', 'yhat_train', 'yhat_train_mean', 'diagnostics', 'run_mcmc', 'step', 'eager_step',
         'evaluate', 'cutpoints', 'autobatch', 'bad_predict', 'init')

SAVES = [3, 2, 3], [6, 5, 3], [8, 2, 1], [4, 9, 3]


def generate(r, tier, i):
    stub = r.random() < 0.85
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([3, 8, 20]), p=r.choice([1, 2, 3]), d=r.choice([2, 3, 4]), ntree=r.choice([1, 2, 5]), save_ratios=False)
    nt = r.choice([2, 2, 3, 4])
    pool = [r.choice(TASKS) for _ in range(r.choice([1, 2, 4]))] if r.random() < 0.5 else TASKS
    threads = [[[r.choice(pool), r.randrange(3)] for _ in range(r.choice([1, 2, 3]))] for _ in range(nt)]
    if not stub or r.random() < 0.8:
        # op by op execution is slow
        threads = [[t for t in th if t[0] != 'eager_step'] or [['step', 0]] for th in threads]
    rounds = []
    for _ in range(25 if tier == 'quick' else 80):
        pol = ['random', r.choice([0.005, 0.02, 0.1, 0.4, 0.9])] if r.random() < 0.6 else ['pct', sorted(r.randrange(1, 700) for _ in range(r.choice([1, 2, 4, 10])))]
        kill = {str(r.randrange(nt)): r.randint(1, 300)} if r.random() < 0.25 else {}
        rounds.append([r.randrange(2 ** 31), pol, kill])
    return dict(stub=stub, problem=c, threads=threads, rounds=rounds, saves=r.choice(SAVES), first=r.choice(['serial', 'concurrent']), frame=r.random() < 0.2,
                numcut=r.choice([3, 50]), usequants=r.random() < 0.5, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    R = sc['rounds']
    if len(R) > 1:
        for i in sorted({0, 1, len(R) - 1}):
            yield dict(sc, rounds=[R[i]])
        yield dict(sc, rounds=R[:len(R) // 2])
        yield dict(sc, rounds=R[len(R) // 2:])
        for i in range(len(R)):
            yield dict(sc, rounds=[R[i]])
    T = sc['threads']
    if len(T) > 2:
        for i in range(len(T)):
            yield dict(sc, threads=T[:i] + T[i + 1:])
    for i, th in enumerate(T):
        if len(th) > 1:
            for j in range(len(th)):
                yield dict(sc, threads=T[:i] + [th[:j] + th[j + 1:]] + T[i + 1:])
    if len(R) == 1:
        seed, pol, kill = R[0]
        if kill:
            yield dict(sc, rounds=[[seed, pol, {}]])
        if pol[0] == 'pct' and len(pol[1]) > 1:
            for j in range(len(pol[1])):
                yield dict(sc, rounds=[[seed, ['pct', pol[1][:j] + pol[1][j + 1:]], kill]])
        elif pol[0] == 'random' and pol[1] > 0.01:
            yield dict(sc, rounds=[[seed, ['random', pol[1] / 4], kill]])
    if sc['frame']:
        yield dict(sc, frame=False)


class World:
    """shared objects, and the calls on them"""

    def __init__(self, sc, sut):
        import numpy as np
        self.sc, self.sut, self.np = sc, sut, np
        c = sc['problem']
        self.X, self.y = history.gbart_data(c)
        g = np.random.Generator(np.random.PCG64(c['data_seed'] + 3))
        self.xs = [self.X, g.normal(size=(self.X.shape[0], 4)).astype(np.float32), self.X[:, :1]]
        self.key = sut.make_key(sc['entropy'])
        self.initkw = dict(resid_batch_size=None)
        self.state = sut.make_state(c)
        self.step = sut.jax.jit(sut.mcmcstep.step)
        self.auto = sut.jaxext.autobatch(lambda x: x * 2, 16)
        self.frames = {}
        with sut.stub_step(sc['stub'], forest=True):
            models = [self.fit(j) for j in range(2)]
        self.blobs = [pickle.dumps(m) for m in models]
        self.fresh()

    def fresh(self):
        """shared models without anything computed lazily"""
        self.models = [pickle.loads(b) for b in self.blobs]

    def mk(self, x):
        if not self.sc['frame']:
            return x
        import pandas as pd
        return pd.DataFrame(x.T, columns=[f'c{j}' for j in range(len(x))])

    def fit(self, j):
        sc = self.sc
        c = sc['problem']
        return self.sut.BART.gbart(self.mk(self.X), self.y, x_test=self.mk(self.xs[1]) if j == 1 else None,
                                   seed=self.key if j == 2 else j, ndpost=sc['saves'][j], nskip=[2, 0, 2][j], keepevery=1 + (j == 1), ntree=c['ntree'], maxdepth=c['d'],
                                   numcut=sc['numcut'], usequants=sc['usequants'], printevery=[2, 3, 10 ** 6][j], initkw=self.initkw)

    def call(self, task, j):
        sut, np = self.sut, self.np
        m = self.models[j % 2]
        if task == 'fit':
            m = self.fit(j)
            return [m.sigma, m.first_sigma, m.yhat_train, m.offset, m.scale, m.predict(self.mk(self.xs[2]))]
        if task == 'fit_shared_key':
            m = self.fit(2)
            return [m.sigma, m.yhat_train]
        if task == 'predict':
            return [m.predict(self.mk(self.xs[j]))]
        if task == 'predict_other':
            return [m.predict(self.mk(self.xs[(j + 1) % 3])), m.predict(self.mk(self.xs[j]))]
        if task == 'yhat_train':
            return [m.yhat_train]
        if task == 'yhat_train_mean':
            return [m.yhat_train_mean]
        if task == 'diagnostics':
            tr, st = sut.find_trace(m), sut.find_state(m)
            return [sut.debug.check_trace(tr, st), sut.debug.trace_depth_distr(tr['split_trees'])]
        if task == 'run_mcmc':
            out = sut.run_loop(self.state, [0, 1, 2][j], 2, 1, self.sut.random.key(j))
            return [v for _, v in sut.leaves_with_path(out)]
        if task in ('step', 'eager_step'):
            f = self.step if task == 'step' else sut.mcmcstep.step
            return [v for _, v in sut.leaves_with_path(f(self.state, sut.random.key(j)))]
        if task == 'evaluate':
            return [sut.mcmcloop.evaluate_trace(sut.find_trace(m), sut.find_state(m)['X'])]
        if task == 'cutpoints':
            x = sut.jnp.asarray(self.xs[j])
            s, ms = sut.prepcovars.quantilized_splits_from_matrix(x, 4 + j)
            u, mu = sut.prepcovars.uniform_splits_from_matrix(x, 4)
            return [s, ms, u, mu, sut.prepcovars.bin_predictors(x, s)]
        if task == 'autobatch':
            return [self.auto(sut.jnp.arange(12 + j))]
        if task == 'bad_predict':
            try:
                m.predict(self.X[:-1])
            except Exception:
                return ['refused']
            return ['accepted']
        if task == 'init':
            st = sut.make_state(self.sc['problem'])
            return [v for _, v in sut.leaves_with_path(st)]
        raise ValueError(task)

    def digest(self, task, j):
        out = []
        for v in self.call(task, j):
            a = self.np.asarray(v) if not isinstance(v, str) else v
            out.append(a if isinstance(a, str) else (a.dtype.name, a.shape, a.tobytes()))
        return out


def run(sc, rec):
    import warnings
    from .. import instrument, sut
    rec.count('stub' if sc['stub'] else 'real')
    W = World(sc, sut)
    tasks = sorted({tuple(t) for th in sc['threads'] for t in th})
    shared = dict(X=W.X, y=W.y, x1=W.xs[1], **{f'state{k}': v for k, v in sut.leaves_with_path(W.state)})
    before = sut.snapshot(shared)

    def serial():
        with sut.stub_step(sc['stub'], forest=True):
            return {t: W.digest(*t) for t in tasks}

    def body(th, results, me):
        def f():
            for t in th:
                results.append(W.digest(*t))
        return f

    def check(results, out, sched, label):
        for i, th in enumerate(sc['threads']):
            kind, val = out[i]
            if kind == 'exc':
                if i in sched.killed:
                    continue
                import traceback
                tb = ''.join(traceback.format_exception(val))[-1800:]
                raise Violation('raises-with-others', f'{label}: thread {i} ({th}) raised {val!r}; last switches {sched.history[-4:]}\n{tb}')
            for t, got in zip(th, results[i]):
                if got != want[tuple(t)]:
                    d = [q for q, (a, b) in enumerate(zip(got, want[tuple(t)])) if a != b]
                    raise Violation('differs-from-serial', f'{label}: thread {i}, call {t}: outputs {d} differ from those of the call alone; switches {len(sched.history)}, last {sched.history[-6:]}')

    pending = []
    want = None
    if sc['first'] == 'serial':
        want = serial()
    else:
        sut.jax.clear_caches()
    for k, (seed, policy, kill) in enumerate(sc['rounds']):
        W.fresh()
        results = [[] for _ in sc['threads']]
        held = [sut.model_contents(m) for m in W.models]
        sched = instrument.Scheduler(pyrandom.Random(seed), policy, {int(i): v for i, v in kill.items()})
        with sut.stub_step(sc['stub'], forest=True):
            out = sched.run([body(th, results[i], i) for i, th in enumerate(sc['threads'])])
        rec.step(sched.events)
        rec.count('switches', sched.switches)
        rec.count('interleavings')
        rec.count('handovers because of a lock', sched.blocked_handovers)
        rec.fault('preemption', sched.switches)
        rec.fault('thread interrupted', len(sched.killed))
        if sched.switches >= 2:
            rec.seen(sched.history)
        rec.log(sched.history)
        label = f'round {k} (seed {seed}, policy {policy[0]})'
        for q, m in enumerate(W.models):
            now = sut.model_contents(m)
            lost = sorted(x for x in held[q] if now.get(x) != held[q][x])
            if lost:
                raise Violation('model-damaged', f'{label}: model {q} has lost or changed {lost[:5]}; switches {len(sched.history)}, last {sched.history[-6:]}')
        if want is None:
            pending.append((results, out, sched, label))
            want = serial()
            check(*pending.pop())
        else:
            check(results, out, sched, label)
    d = sut.diff_snap(before, sut.snapshot(shared))
    if d:
        raise Violation('shared-input-modified', str(d[:5]))
    if W.initkw != dict(resid_batch_size=None):
        raise Violation('shared-input-modified', f'initkw is now {W.initkw}')
    W.fresh()
    again = serial()
    bad = [t for t in tasks if again[t] != want[t]]
    if bad:
        raise Violation('later-call-affected', f'{bad} after the concurrent rounds')
    rec.sample = dict(threads=sc['threads'], last_switches=[list(h) for h in sched.history[-5:]])


