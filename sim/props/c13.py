"""C13 progress report."""

import re

from .. import config, history
from ..core import Violation

RUNS = dict(quick=50, thorough=1200)
RULE = ('a run performs a sequence of fits (and direct runs) with various periods and schedules, some with an output stream failing at '
        'the j-th write, and parses everything printed; distinct_nontrivial counts distinct (period, burn-in, save, thin, failing write) with at least one iteration')
STUB = 'mcmcstep.step is replaced by a cheap keyed hash in the runs with stub=true (counted in probes)'
LINE = re.compile(r'Iteration\s+(\d+)/(\d+)\s+P_grow=(\S+)\s+P_prune=(\S+)\s+A_grow=(\S+)\s+A_prune=(\S+)(\s+\(burnin\))?\s*$')


def generate(r, tier, i):
    stub = r.random() < 0.85
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 5, 12, 20]), d=r.choice([1, 2, 3, 4]),
                           ntree=r.choice([1, 2, 5, 50, 200]) if stub else r.choice([1, 3, 8]), p=r.choice([1, 2, 5]))
    fits = []
    for _ in range(r.choice([2, 3]) if stub else 1):
        b, s, k = r.choice([0, 1, 2, 5, 9, 20]), r.choice([0, 1, 2, 4, 9]), r.choice([1, 1, 2, 3, 5])
        n = b + s * k
        pe = r.choice([1, 1, 2, 3, 4, 5, 7, 10, max(1, n), n + 1, max(1, b), 10 ** 6])
        fail = r.choice([None, None, 0, 1, 2, 5])
        fits.append([b, s, k, pe, fail, r.choice(['gbart', 'gbart', 'run_mcmc'])])
        if r.random() < 0.4:
            # same schedule, other period: must not reuse the compiled report
            fits.append([b, s, k, r.choice([1, 2, 3, 5, pe + 1]), None, fits[-1][5]])
    if stub and i % 7 == 4:
        # long runs
        c = dict(c, n=min(c['n'], 5), ntree=min(c['ntree'], 5), d=min(c['d'], 2), pnt=c['pnt'][:max(0, min(c['d'], 2) - 1)])
        b, k = r.choice([0, 100, 260, 1000]), r.choice([1, 10, 129, 257, 300])
        s = r.choice([1, 2, 260]) if b + 260 * k < 4000 else r.choice([1, 3])
        n = b + s * k
        fits = [[b, s, k, r.choice([1, 3, 100, 127, 128, 129, 255, 256, 257, 300, max(1, n), n + 1, max(1, b)]), None, r.choice(['gbart', 'run_mcmc'])]]
    return dict(stub=stub, problem=c, fits=fits, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    F = sc['fits']
    if len(F) > 1:
        for i in range(len(F)):
            yield dict(sc, fits=[F[i]])
        for i in range(len(F)):
            yield dict(sc, fits=F[:i] + F[i + 1:])
    for i, (b, s, k, pe, fail, via) in enumerate(F):
        for alt in ([b, s, k, pe, None, via], [b, s, k, 1, fail, via], [0, s, k, pe, fail, via], [b, s, 1, pe, fail, via], [b, 1, k, pe, fail, via],
                    [b, 0, k, pe, fail, via], [b // 2, s, k, pe, fail, via], [b, s, k, pe, fail, 'run_mcmc']):
            if alt != F[i]:
                yield dict(sc, fits=F[:i] + [alt] + F[i + 1:])
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)


class Out:
    """A text stream failing at its j-th write."""

    def __init__(self, fail):
        self.parts, self.fail, self.calls, self.fired = [], fail, 0, False

    def write(self, s):
        if self.fail is not None and self.calls >= self.fail:
            self.fired = True
            raise OSError(28, 'injected: no space left on device')
        self.calls += 1
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


def run(sc, rec):
    import contextlib
    import numpy as np
    from .. import sut
    jax = sut.jax
    c = sc['problem']
    X, y = history.gbart_data(c)
    key = sut.make_key(sc['entropy'])
    direct = sut.make_state(c)
    ntree = c['ntree']

    def execute(f, out):
        b, s, k, pe, _, via = f
        with contextlib.redirect_stdout(out):
            if via == 'gbart':
                with sut.capture_run() as cap:
                    try:
                        m = sut.BART.gbart(X, y, seed=key, nskip=b, ndpost=s, keepevery=k, printevery=pe, ntree=ntree, maxdepth=c['d'], numcut=7)
                        jax.block_until_ready([m.sigma, m.first_sigma])
                        jax.effects_barrier()
                        res = [np.array(m.sigma), np.array(m.first_sigma), np.array(m.yhat_train)]
                    finally:
                        execute.cap = cap
                if cap.init is None:
                    rec.count('capture_missed')
                    return res, None
                return res, (cap.init, cap.args[-1])
            cb = sut.mcmcloop.make_simple_print_callback(pe)
            o = sut.run_loop(direct, b, s, k, key, cb)
            return [np.array(v) for _, v in sut.leaves_with_path(o)], (direct, key)

    def expected(f, start):
        """counters of every iteration, from an independent recording run"""
        b, s, k = f[:3]
        got = {}
        def host(i, *v):
            got[int(i)] = [int(x) for x in v]
        def cb(*, bart, i_total, **kw):
            jax.debug.callback(host, i_total, bart['grow_prop_count'], bart['prune_prop_count'], bart['grow_acc_count'], bart['prune_acc_count'])
        sut.run_loop(start[0], b, s, k, start[1], cb)
        return got

    def check_text(f, text, start):
        b, s, k, pe, fail, via = f
        n = b + s * k
        tag = f'burn-in {b}, save {s}, thin {k}, period {pe}, {via}'
        lines = [l for l in text.split('\n') if l.strip()]
        parsed = []
        for l in lines:
            m = LINE.match(l.strip())
            if not m:
                raise Violation('unexpected-output', f'{tag}: {l!r}')
            parsed.append(m.groups())
        exp = [i for i in range(1, n + 1) if i % pe == 0]
        if [int(g[0]) for g in parsed] != exp:
            raise Violation('report-iterations', f'{tag}: lines for {[int(g[0]) for g in parsed]}, expected {exp}')
        cnt = expected(f, start) if start and exp else None
        mism = []
        for g in parsed:
            i = int(g[0]) - 1
            if int(g[1]) != n:
                raise Violation('report-total', f'{tag}: iteration {i + 1}: total {g[1]}, expected {n}')
            if bool(g[6]) != (i < b):
                raise Violation('report-burnin', f'{tag}: iteration {i + 1}: burn-in flag {bool(g[6])}')
            vals = [float(x) for x in g[2:6]]
            if cnt is None:
                continue
            gp, pp, ga, pa = cnt[i]
            ref = [gp / ntree, pp / ntree, ga / gp if gp else np.nan, pa / pp if pp else np.nan]
            for name, v, e in zip(('P_grow', 'P_prune', 'A_grow', 'A_prune'), vals, ref):
                if np.isnan(v) != np.isnan(e) or (not np.isnan(e) and abs(v - e) > 0.00501):
                    mism.append(f'{tag}: iteration {i + 1}: {name}={v}, expected {e:.4f}')
                    break
        # in the real system two compilations may part because of roundoff late in the chain
        if mism and (st.traced or len(mism) > 0.5 * len(parsed)):
            raise Violation('report-values', mism[0])
        rec.count('lines', len(parsed))

    with sut.stub_step(sc['stub']) as st:
        for f in sc['fits']:
            n = f[0] + f[1] * f[2]
            ref = None
            for fail in dict.fromkeys([f[4], None]):
                out = Out(fail)
                try:
                    res, start = execute(f, out)
                except BaseException as e:
                    if not out.fired:
                        raise
                    rec.fault('stdout write fails')
                    rec.count('failure_reported')
                    try:
                        jax.effects_barrier()
                    except BaseException:
                        pass
                    continue
                if out.fired:
                    # swallowing an error of the stream is fine as long as the fit is right: compared below
                    rec.fault('stdout write fails')
                    ref = res
                    continue
                rec.step(n)
                check_text(f, out.text(), start)
                if n:
                    rec.seen(f[0], f[1], f[2], f[3], f[4], f[5])
                if ref is not None:
                    for a, b in zip(ref, res):
                        if not sut.same_bits(a, b):
                            raise Violation('wrong-after-output-failure', f'{f}')
                # printing does not influence the results
                quiet = Out(None)
                res2, _ = execute(f[:3] + [10 ** 6] + f[4:], quiet)
                if quiet.text():
                    raise Violation('unexpected-output', quiet.text()[:200])
                diff = [i for i, (a, b) in enumerate(zip(res, res2)) if not (a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-6, equal_nan=True))]
                if diff and st.traced:
                    raise Violation('report-influences-results', f'{f}: outputs {diff[:5]}')
                rec.log(out.text(), *[np.ascontiguousarray(a).tobytes() for a in res])
        rec.count('stub_effective', bool(st.traced))
    rec.count('stub' if sc['stub'] else 'real')
