"""C09 burn-in, saving and thinning select from one chain."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=80, thorough=1500)
RULE = ('a run executes several (burn-in, save, thin) schedules of the same chain and compares traces and final states with the '
        'unthinned one; distinct_nontrivial counts distinct (burn-in, save, thin, stepped system) combinations with at least one recorded iteration')
STUB = 'mcmcstep.step is replaced by a cheap keyed hash in the runs with stub=true (counted in probes); real in the others'
BURN = ('sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')
MAIN = BURN + ('leaf_trees', 'var_trees', 'split_trees')


def schedules(r, N, count):
    out = []
    for _ in range(count):
        mode = r.random()
        b = 0 if mode < 0.2 else N if mode > 0.9 else r.randint(1, N)
        if mode > 0.95 or (0.15 < mode < 0.2):
            b = r.randint(0, N)
        k = r.choice([1, 1, 2, 3, 4, 5, 7])
        s = (N - b) // k
        if r.random() < 0.1:
            s = 0
        out.append([b, s, k])
    return out


def generate(r, tier, i):
    stub = r.random() < 0.8
    via = config.pick(r, (3, 'run_mcmc'), (1, 'gbart'))
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 5, 12, 20]), d=r.choice([1, 2, 3, 4]), ntree=r.choice([1, 2, 5]),
                           p=r.choice([1, 2, 5]))
    N = r.choice([1, 2, 3, 5, 8, 13, 24]) if stub else r.choice([4, 9, 14])
    sch = schedules(r, N, 6 if stub else 2)
    if stub and i % 6 == 2:
        # long chains, long thinning periods and burn-ins
        c = dict(c, n=min(c['n'], 5), ntree=min(c['ntree'], 2), d=min(c['d'], 3), pnt=c['pnt'][:max(0, min(c['d'], 3) - 1)])
        N = r.choice([100, 130, 260, 300, 520, 1030])
        sch = []
        for _ in range(5):
            k = r.choice([1, 2, 9, 10, 16, 17, 31, 32, 33, 50, 64, 65, 99, 100, 128, 129, 255, 256, 257, N // 3, N // 2, N])
            k = max(1, min(k, N))
            b = r.choice([0, 0, 1, N - k, r.randint(0, N - k), min(N, 100), min(N, 256)])
            sch.append([b, (N - b) // k, k])
    if via == 'gbart':
        sch = sch[:3 if stub else 1]
    if not stub and r.random() < 0.5:
        sch[0] = [0, 0, 1]
    return dict(via=via, stub=stub, problem=c, N=N, schedules=sch,
                entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    for i in range(len(sc['schedules'])):
        if len(sc['schedules']) > 1:
            yield dict(sc, schedules=[sc['schedules'][i]])
    if len(sc['schedules']) == 1:
        b, s, k = sc['schedules'][0]
        for b2, s2, k2 in ((0, s, k), (b, 1, k), (b, s, 1), (b, s, 2), (b - 1, s, k), (b, s - 1, k), (b, s, k - 1), (1, s, k), (b, 0, k)):
            if min(b2, s2) >= 0 and k2 >= 1 and (b2 + s2 * k2) < b + s * k:
                yield dict(sc, schedules=[[b2, s2, k2]], N=max(1, b2 + s2 * k2))
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)


def run(sc, rec):
    import numpy as np
    from .. import sut
    rec.count(f'via:{sc["via"]}')
    rec.count('stub' if sc['stub'] else 'real')
    with sut.stub_step(sc['stub']) as st:
        if sc['via'] == 'gbart':
            run_gbart(sc, rec, np, sut)
        else:
            run_direct(sc, rec, np, sut)
        rec.count('stub_effective', bool(st.traced))


def flat(tree, sut):
    return {k: v for k, v in ((k, sut.np.array(v)) for k, v in sut.leaves_with_path(tree))}


def compare(a, b):
    """None, 'roundoff' or 'different'"""
    import numpy as np
    if a.dtype != b.dtype or a.shape != b.shape:
        return 'different'
    if a.tobytes() == b.tobytes():
        return None
    if a.dtype.kind == 'f' and np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True):
        return None
    return 'different'


def check_schedule(ref, final_ref, init, b, s, k, out, fields_ok=True):
    """list of differences of one schedule from the reference chain"""
    import numpy as np
    from .. import sut
    final, burn, main = out
    errs = []
    for name, tr, docs, length in (('burn-in', burn, BURN, b), ('main', main, MAIN, s)):
        keys = set(tr) - {'ratios'}
        if keys != set(docs):
            raise Violation('trace-fields', f'{name} trace of schedule {b, s, k}: {sorted(keys ^ set(docs))} unexpected or missing')
        ids = list(range(b)) if name == 'burn-in' else [b + (j + 1) * k - 1 for j in range(s)]
        for f in docs:
            a = np.array(tr[f])
            if a.shape != (length,) + init[f].shape or a.dtype != init[f].dtype:
                raise Violation('trace-shape', f'{name} trace of schedule {b, s, k}: {f} {a.dtype}{a.shape}, expected {(length,) + init[f].shape}')
            for j, i in enumerate(ids):
                if compare(a[j], ref[f][i]):
                    errs.append((i, f'{name} sample {j} field {f} is not that of iteration {i}'))
                    break
        if 'ratios' in tr:
            for f, v in tr['ratios'].items():
                if v.shape[0] != length:
                    raise Violation('trace-shape', f'{name} ratios {f} {v.shape}')
                for j, i in enumerate(ids):
                    if 'ratios' in ref and compare(np.array(v[j]), ref['ratios'][f][i]):
                        errs.append((i, f'{name} sample {j} ratios {f}'))
                        break
    n = b + s * k
    for key, v in sut.leaves_with_path(final):
        if n in final_ref and compare(np.array(v), final_ref[n][key]):
            errs.append((n, f'final state {key} is not that after iteration {n}'))
    return errs


def run_direct(sc, rec, np, sut):
    c, N = sc['problem'], sc['N']
    state = sut.make_state(c)
    init = sut.to_np(state)
    flat0 = flat(state, sut)

    def attempt(key):
        ref_final, _, ref_main = sut.run_loop(state, 0, N, 1, key)
        ref = {f: np.array(ref_main[f]) for f in MAIN}
        if 'ratios' in ref_main:
            ref['ratios'] = {f: np.array(v) for f, v in ref_main['ratios'].items()}
        finals = {0: flat0, N: flat(ref_final, sut)}
        for name, (docs, tr) in dict(main=(MAIN, ref_main)).items():
            if set(tr) - {'ratios'} != set(docs):
                raise Violation('trace-fields', f'{sorted(tr)}')
        errs = []
        # the reference itself: state after the last iteration is the last sample
        for f in MAIN:
            if compare(np.array(ref_final[f]), ref[f][-1]):
                errs.append((N, f'reference: final {f} differs from the last sample'))
        for b, s, k in sc['schedules']:
            out = sut.run_loop(state, b, s, k, key)
            rec.step(b + s * k)
            for e in check_schedule(ref, finals, init, b, s, k, out):
                errs.append(e + ([b, s, k],))
            if b + s * k:
                rec.seen(b, s, k, sc['stub'])
            rec.log(np.array(out[0]['sigma2']).tobytes())
        # iterations are steps of one chain, they do change things
        if N >= 2 and c['ntree'] and all(ref['leaf_trees'][i].tobytes() == ref['leaf_trees'][0].tobytes() for i in range(N)):
            errs.append((N, 'all iterations are identical'))
        return errs

    decide(sc, rec, attempt, sut)


def decide(sc, rec, attempt, sut):
    ent = sc['entropy']
    errs = attempt(sut.make_key(ent))
    if not errs:
        return
    if not sut.stub_step.effective():
        # two compilations of the same step may differ in roundoff, which is
        # amplified along a chain; a wrong selection shows with any key
        bad = 1 + sum(bool(attempt(sut.make_key(dict(ent, seed=ent['seed'] + j)))) for j in (1, 2, 3))
        rec.count('reseeded')
        if bad < 3:
            return
    raise Violation('selection', f'schedule (burn, save, skip): {errs[:4]}')


def run_gbart(sc, rec, np, sut):
    c, N = sc['problem'], sc['N']
    X, y = history.gbart_data(c)
    kw = dict(ntree=c['ntree'], maxdepth=c['d'], numcut=7, printevery=10 ** 6)

    def attempt(key):
        ref = sut.fit(X, y, seed=key, nskip=0, ndpost=N, keepevery=1, **kw)
        if np.shape(ref.yhat_train) != (N, X.shape[1]) or np.shape(ref.sigma) != (N,) or np.shape(ref.first_sigma) != (0,):
            raise Violation('fit-shapes', f'{np.shape(ref.yhat_train)} {np.shape(ref.sigma)} {np.shape(ref.first_sigma)}')
        rs, ry = np.array(ref.sigma), np.array(ref.yhat_train)
        errs = []
        for b, s, k in sc['schedules']:
            m = sut.fit(X, y, seed=key, nskip=b, ndpost=s, keepevery=k, **kw)
            rec.step(b + s * k)
            if np.shape(m.sigma) != (s,) or np.shape(m.first_sigma) != (b,) or np.shape(m.yhat_train) != (s, X.shape[1]):
                raise Violation('fit-shapes', f'schedule {b, s, k}: sigma {np.shape(m.sigma)} first_sigma {np.shape(m.first_sigma)} yhat_train {np.shape(m.yhat_train)}')
            ids = [b + (j + 1) * k - 1 for j in range(s)]
            if compare(np.array(m.sigma), rs[ids]):
                errs.append((N, f'sigma of schedule {b, s, k}'))
            if compare(np.array(m.first_sigma), rs[:b]):
                errs.append((N, f'first_sigma of schedule {b, s, k}'))
            ym = np.array(m.yhat_train)
            tol = 1e-5 * (np.abs(ry).max(initial=0) + 1e-30)
            if not np.allclose(ym, ry[ids], rtol=1e-4, atol=tol):
                errs.append((N, f'yhat_train of schedule {b, s, k}'))
            if b + s * k:
                rec.seen(b, s, k, sc['stub'], 'gbart')
            rec.log(np.array(m.sigma).tobytes())
        return errs

    decide(sc, rec, attempt, sut)
