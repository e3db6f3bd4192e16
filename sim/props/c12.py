"""C12 callback protocol."""

from .. import config
from ..core import Violation

RUNS = dict(quick=110, thorough=1500)
RULE = ('a run executes run_mcmc with a recording callback on a random schedule, then with a callback failing at chosen iterations, '
        'then again; distinct_nontrivial counts distinct (burn-in, save, thin, fail point) combinations with at least one iteration')
STUB = 'mcmcstep.step is replaced by a cheap keyed hash in the runs with stub=true (counted in probes)'
MAIN = ('sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count', 'leaf_trees', 'var_trees', 'split_trees')


def generate(r, tier, i):
    stub = r.random() < 0.8
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 5, 12, 20]), d=r.choice([1, 2, 3, 4]), ntree=r.choice([1, 2, 5]), p=r.choice([1, 2, 5]))
    runs = []
    for _ in range(3 if stub else 1):
        b, s, k = r.choice([0, 0, 1, 2, 3, 6, 11]), r.choice([0, 1, 2, 3, 5, 8]), r.choice([1, 1, 2, 3, 5])
        n = b + s * k
        fails = sorted({r.randrange(n) for _ in range(r.choice([0, 1, 2]))}) if n else []
        if n and r.random() < 0.3:
            fails = sorted(set(fails) | {r.choice([0, n - 1, max(0, b - 1), min(n - 1, b)])})
        runs.append([b, s, k, fails, r.choice(['ValueError', 'KeyboardInterrupt', 'MemoryError', 'OSError'])])
    if stub and i % 11 == 5:
        # long runs: counters, progress of the host side
        c = dict(c, n=min(c['n'], 5), ntree=min(c['ntree'], 2), d=min(c['d'], 2), pnt=c['pnt'][:max(0, min(c['d'], 2) - 1)])
        b, k = r.choice([0, 3, 100, 260, 1000]), r.choice([1, 2, 10, 64, 127, 128, 129, 257])
        s = r.choice([1, 2, 130, 260]) if b + 260 * k < 4000 else r.choice([1, 3])
        runs = [[b, s, k, [], 'ValueError']]
    if i == 60 or (tier == 'thorough' and i % 300 == 60):
        # beyond 16 bit counters
        stub, runs = True, [r.choice([[2, 66000, 1, [], 'ValueError'], [66000, 2, 1, [], 'ValueError'], [5, 1, 66000, [], 'ValueError']])]
        c = dict(c, n=1, p=1, ntree=1, d=1, pnt=[])
    return dict(stub=stub, problem=c, runs=runs, ordered=r.random() < 0.3,
                entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    for i in range(len(sc['runs'])):
        if len(sc['runs']) > 1:
            yield dict(sc, runs=[sc['runs'][i]])
    if len(sc['runs']) == 1:
        b, s, k, f, e = sc['runs'][0]
        if f:
            yield dict(sc, runs=[[b, s, k, [], e]])
            yield dict(sc, runs=[[b, s, k, f[:1], e]])
        for b2, s2, k2 in ((0, s, k), (b, 1, k), (b, 0, k), (b, s, 1), (b - 1, s, k), (b, s - 1, k), (b, s, k - 1)):
            if min(b2, s2) >= 0 and k2 >= 1 and (b2, s2, k2) != (b, s, k):
                yield dict(sc, runs=[[b2, s2, k2, [x for x in f if x < b2 + s2 * k2], e]])
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)


class Fail:
    pass


def run(sc, rec):
    import builtins
    import numpy as np
    from .. import sut
    from .c09 import compare
    jax = sut.jax
    c = sc['problem']
    state = sut.make_state(c)
    keys0 = set(state)
    key = sut.make_key(sc['entropy'])
    before = sut.snapshot(state)
    with sut.stub_step(sc['stub']) as st:
        for b, s, k, fails, exc in sc['runs']:
            n = b + s * k
            log, kinds = [], []
            failing = [None]

            def host(i_total, burnin, i_skip, nb, ns, nk, arrays):
                i = int(i_total)
                if failing[0] is not None and i == failing[0]:
                    rec.fault(f'callback raises {exc}')
                    raise getattr(builtins, exc)(f'injected at iteration {i}')
                log.append((i, bool(burnin), int(i_skip), int(nb), int(ns), int(nk), {k: np.array(v) for k, v in arrays.items()}))

            def callback(**kw):
                if set(kw) != {'bart', 'burnin', 'i_total', 'i_skip', 'n_burn', 'n_save', 'n_skip'}:
                    raise Violation('callback-arguments', str(sorted(kw)))
                if set(kw['bart']) != keys0:
                    raise Violation('callback-state', f'state fields {sorted(set(kw["bart"]) ^ keys0)}')
                arrays = dict(sut.leaves_with_path(kw['bart']))
                jax.debug.callback(host, kw['i_total'], kw['burnin'], kw['i_skip'], kw['n_burn'], kw['n_save'], kw['n_skip'], arrays, ordered=sc['ordered'])

            def good(label):
                log.clear()
                out = sut.run_loop(state, b, s, k, key, callback)
                check_log(label, out)
                return out

            def check_log(label, out):
                got = sorted(log, key=lambda e: e[0])
                ids = [e[0] for e in got]
                if ids != list(range(n)):
                    raise Violation('callback-iterations', f'{label} schedule {b, s, k}: called for iterations {ids}, expected 0..{n - 1}')
                if [e[0] for e in log] != ids:
                    raise Violation('callback-order', f'{label} schedule {b, s, k}: {[e[0] for e in log]}')
                for i, burnin, i_skip, nb, ns, nk, arr in got:
                    eb = i < b
                    es = i if eb else (i - b) % k
                    if burnin != eb or i_skip != es or (nb, ns, nk) != (b, s, k):
                        raise Violation('callback-values', f'{label} schedule {b, s, k} iteration {i}: burnin={burnin} i_skip={i_skip} n={nb, ns, nk}; expected {eb} {es}')
                final, burn, main = out
                for j in range(b):
                    for f, v in burn.items():
                        if f == 'ratios':
                            continue
                        if compare(np.array(v[j]), got[j][6][f"['{f}']"]):
                            raise Violation('callback-vs-trace', f'{label} schedule {b, s, k}: burn-in sample {j}, {f}')
                for j in range(s):
                    for f in MAIN:
                        if compare(np.array(main[f][j]), got[b + (j + 1) * k - 1][6][f"['{f}']"]):
                            raise Violation('callback-vs-trace', f'{label} schedule {b, s, k}: sample {j}, {f}')
                if n:
                    for kk, v in sut.leaves_with_path(final):
                        if compare(np.array(v), got[-1][6][kk]):
                            raise Violation('callback-vs-final', f'{label} schedule {b, s, k}: {kk}')
                rec.step(n)

            first = sut.snapshot(good('first run'))
            if n:
                rec.seen(b, s, k, tuple(fails), sc['stub'])
            for f in fails:
                failing[0] = f
                log.clear()
                try:
                    out = sut.run_loop(state, b, s, k, key, callback)
                except BaseException as e:
                    if isinstance(e, Violation):
                        raise
                    rec.count('failures_reported')
                    try:
                        jax.effects_barrier()
                    except BaseException:
                        pass
                else:
                    raise Violation('failure-swallowed', f'schedule {b, s, k}: callback failed at iteration {f}, run_mcmc returned normally')
                failing[0] = None
                again = sut.snapshot(good(f'after failure at {f}'))
                d = sut.diff_snap(first, again)
                if d:
                    raise Violation('later-run-affected', f'schedule {b, s, k} after failure at {f}: {d[:5]}')
            rec.log(repr(sorted(first.items())).encode())
        rec.count('stub_effective', bool(st.traced))
    rec.count('stub' if sc['stub'] else 'real')
    d = sut.diff_snap(before, sut.snapshot(state))
    if d:
        raise Violation('input-modified', str(d[:5]))
