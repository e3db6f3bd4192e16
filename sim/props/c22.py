"""C22 diagnostics flag corrupted trees and only those."""

import random as pyrandom

from .. import config, history
from ..core import Violation

RUNS = dict(quick=64, thorough=1200)
RULE = ('sampler: histories with faulty entropy and shocks, every visited forest diagnosed; corrupt: recorded forests (of the sampler or of a random forest stub) with corruptions injected in chosen trees of '
        'the stored arrays, diagnosed and compared with the list of corruptions; count: depth and occupancy distributions against a direct count. distinct_nontrivial counts distinct '
        '(diagnostic, forest, corruption) combinations with at least one decision node')
STUB = 'in the runs of kind corrupt or count with stub=true the forests come from a random forest stub of mcmcstep.step'

CORRUPTIONS = ('nan', 'inf', '-inf', 'unused_var', 'unused_split', 'stray', 'stray_deep', 'lost_root')
WHOLE = ('var_type', 'split_type', 'leaf_size', 'tree_size')


def generate(r, tier, i):
    kind = config.pick(r, (1.2, 'sampler'), (3, 'corrupt'), (2, 'count'))
    if kind == 'sampler':
        return dict(kind=kind, **history.generate(r, steps=(30, 80), problem=dict(small=r.random() < 0.7)))
    c = config.gen_problem(r, small=kind == 'corrupt', tame=True, n=r.choice([0, 1, 2, 10, 40, 254, 255, 256, 257, 300]), d=r.choice([1, 2, 3, 4, 5, 6, 8]), p=r.choice([1, 2, 3, 255, 256, 257]),
                           ntree=r.choice([1, 2, 5, 20]), save_ratios=r.random() < 0.3)
    stub = r.random() < 0.7
    sc = dict(kind=kind, problem=c, stub=stub, save=r.choice([1, 2, 4, 6]), entropy=config.gen_entropy(r, 0.3), jit=r.random() < 0.4)
    if kind == 'corrupt':
        trials = []
        for _ in range(8):
            ev = [[r.choice(CORRUPTIONS), r.randrange(10 ** 6), r.randrange(10 ** 6), r.randrange(10 ** 6)] for _ in range(r.choice([1, 1, 2, 3, 6]))]
            if r.random() < 0.25:
                ev.append([r.choice(WHOLE), 0, 0, r.randrange(10 ** 6)])
            trials.append(ev)
        sc['trials'] = trials
    else:
        sc['points'] = [r.choice([0, 1, 2, 254, 255, 256, 257, 300]) for _ in range(2)]
    return sc


def shrink(sc):
    if sc['kind'] == 'sampler':
        for q in history.shrink(sc):
            yield q
        return
    if sc.get('trials'):
        t = sc['trials']
        if len(t) > 1:
            for x in t:
                yield dict(sc, trials=[x])
        elif len(t[0]) > 1:
            for i in range(len(t[0])):
                yield dict(sc, trials=[t[0][:i] + t[0][i + 1:]])
    if len(sc.get('points', ())) > 1:
        for x in sc['points']:
            yield dict(sc, points=[x])
    if sc['save'] > 1:
        yield dict(sc, save=1)
    if not sc['stub']:
        yield dict(sc, stub=True)
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


def names(sut, code):
    return sorted(sut.debug.describe_error(int(code)))


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    dict(sampler=run_sampler, corrupt=run_corrupt, count=run_count)[sc['kind']](sc, rec)


def run_sampler(sc, rec):
    import numpy as np
    from .. import sut
    F = ('leaf_trees', 'var_trees', 'split_trees')
    seen = []
    on_step = lambda prev, new, where: seen.append({k: new[k] for k in F})
    last = {}
    def on_start(s0):
        last['max_split'] = s0['max_split']
        seen.append({k: s0[k] for k in F})
    extra = []
    def on_trace(trace, static):
        last['max_split'] = static['max_split']
        if len(trace['leaf_trees']):
            extra.append(trace)
    out = history.drive(sc, rec, on_start, on_step, on_trace)
    stacked = {k: np.stack([s[k] for s in seen]) for k in F}
    state = dict(max_split=sut.jnp.asarray(last['max_split']))
    for tr in [stacked] + extra:
        code = np.array(sut.debug.check_trace({k: sut.jnp.asarray(tr[k]) for k in F}, state))
        rec.count('forests diagnosed', len(code))
        if code.shape != tr['leaf_trees'].shape[:2]:
            raise Violation('diagnosis-shape', f'{code.shape} instead of {tr["leaf_trees"].shape[:2]}')
        if code.any():
            i = tuple(np.argwhere(code)[0])
            raise Violation('flags-sampler-forest', f'sample {i[0]} tree {i[1]} flagged {names(sut, code[i])}')
        for s in tr['split_trees']:
            if s.any():
                rec.seen('sampler', s.tobytes())
    if sc['mode'] == 'gbart' and hasattr(out, '_check_trees') and len(extra):
        if np.array(out._check_trees()).any() or (hasattr(out, '_tree_goes_bad') and np.array(out._tree_goes_bad()).any()):
            raise Violation('flags-sampler-forest', 'gbart diagnostics flag its own trees')
    rec.log(stacked['split_trees'].tobytes())


def forests(sc, rec):
    """trace with saved forests (numpy), max_split, X"""
    import numpy as np
    from .. import sut
    state = sut.make_state(sc['problem'])
    rec.count('stub' if sc['stub'] else 'real')
    with sut.stub_step(sc['stub'], forest=True):
        final, _, trace = sut.run_loop(state, 0 if sc['stub'] else 10, sc['save'], 1, sut.make_key(sc['entropy'], rec))
    rec.step(sc['save'])
    return {k: np.array(trace[k]) for k in ('leaf_trees', 'var_trees', 'split_trees')}, {k: v for k, v in trace.items()}, final


def run_corrupt(sc, rec):
    import numpy as np
    from .. import sut
    clean, trace, state = forests(sc, rec)
    jnp = sut.jnp
    S, T, size = clean['leaf_trees'].shape
    H = size // 2
    check = sut.jax.jit(sut.debug.check_trace) if sc['jit'] else sut.debug.check_trace

    def diagnose(tr):
        full = dict(trace, **{k: jnp.asarray(v) for k, v in tr.items()})
        code = np.array(check(full, state))
        if code.shape != (S, T):
            raise Violation('diagnosis-shape', f'{code.shape} instead of {(S, T)}')
        return code

    code = diagnose(clean)
    if code.any():
        raise Violation('flags-valid-forest', f'{names(sut, code.max())}')
    for trial in sc['trials']:
        tr = {k: v.copy() for k, v in clean.items()}
        whole = set()
        injected = []
        for what, a, b, seed in trial:
            r = pyrandom.Random(seed)
            s, t = a % S, b % T
            leaf, var, spl = tr['leaf_trees'], tr['var_trees'], tr['split_trees']
            if what in ('nan', 'inf', '-inf'):
                j = r.randrange(1, size)
                leaf[s, t, j] = float(what)
            elif what == 'unused_var':
                var[s, t, 0] = 1 + r.randrange(min(255, np.iinfo(var.dtype).max))
                j = 0
            elif what == 'unused_split':
                spl[s, t, 0] = 1 + r.randrange(min(255, np.iinfo(spl.dtype).max))
                j = 0
            elif what in ('stray', 'stray_deep'):
                if H < 4:
                    continue
                cand = [k for k in range(2, H) if spl[s, t, k] == 0 and spl[s, t, k >> 1] == 0]
                if what == 'stray_deep':
                    # among the last positions, or an only child
                    cand = cand[-2:]
                if not cand:
                    continue
                j = r.choice(cand)
                spl[s, t, j] = 1 + r.randrange(min(255, np.iinfo(spl.dtype).max))
            elif what == 'lost_root':
                if H < 4 or not spl[s, t, 2:4].any():
                    continue
                spl[s, t, 1] = 0
                j = 1
            elif what == 'var_type':
                new = r.choice([d for d in ('uint8', 'uint16', 'uint32', 'int8', 'int32') if d != var.dtype.name])
                tr['var_trees'], j = var.astype(new), new
                whole.add('check_types')
            elif what == 'split_type':
                new = r.choice([d for d in ('uint8', 'uint16', 'uint32', 'int8', 'int32') if d != spl.dtype.name])
                if np.any(spl.astype(new) != spl):
                    continue
                tr['split_trees'], j = spl.astype(new), new
                whole.add('check_types')
            elif what == 'leaf_size':
                tr['leaf_trees'] = np.concatenate([leaf, leaf], axis=-1) if size < 4 or r.random() < 0.5 else leaf[..., :size // 2]
                whole.add('check_sizes')
                j = tr['leaf_trees'].shape
            else:
                if H < 4:
                    continue
                tr['var_trees'] = np.concatenate([var, 0 * var], axis=-1)
                whole.add('check_sizes')
                j = tr['var_trees'].shape
            injected.append((what, s, t, j))
            rec.fault(f'corruption:{what}')
        if not injected:
            continue
        leaf, var, spl = tr['leaf_trees'], tr['var_trees'], tr['split_trees']
        k = np.arange(2, spl.shape[-1])
        expect = {
            'check_leaf_values': ~np.isfinite(leaf).all(-1),
            'check_unused_node': (var[..., 0] != 0) | (spl[..., 0] != 0),
            'check_stray_nodes': ((spl[..., 2:] != 0) & (spl[..., k >> 1] == 0)).any(-1),
        }
        for w in whole:
            expect[w] = np.ones((S, T), bool)
        code = diagnose(tr)
        for s in range(S):
            for t in range(T):
                want = sorted(q for q, e in expect.items() if e[s, t])
                got = names(sut, code[s, t])
                if want != got:
                    raise Violation('wrong-diagnosis', f'sample {s} of {S}, tree {t} of {T} (depth {sc["problem"]["d"]}): flagged {got} instead of {want} after {injected}')
        rec.seen('corrupt', repr(injected), clean['split_trees'].tobytes())
        rec.count('corrupted trees', int((code != 0).sum()))
        rec.log(code.tobytes())
        # when did each tree go bad, as the high level interface tells
        G = sut.BART.gbart
        if hasattr(G, '_tree_goes_bad') and hasattr(G, '_check_trees'):
            m = object.__new__(G)
            bad = code != 0
            want = bad & ~np.concatenate([np.zeros((1, T), bool), bad[:-1]])
            try:
                m._main_trace, m._mcmc_state = dict(trace, **{k: jnp.asarray(v) for k, v in tr.items()}), state
                got = np.array(m._tree_goes_bad())
                same = np.array(m._check_trees())
            except AttributeError:
                rec.count('high level diagnostics not reached')
                continue
            if not np.array_equal(got, want) or not np.array_equal(same, code):
                raise Violation('wrong-diagnosis', f'high level: trees reported to go bad {np.argwhere(got).tolist()} instead of {np.argwhere(want).tolist()}')


def run_count(sc, rec):
    import contextlib
    import io
    import re
    import numpy as np
    from .. import model, sut
    clean, trace, state = forests(sc, rec)
    jnp = sut.jnp
    S, T, size = clean['leaf_trees'].shape
    leaves = model.leaf_mask(clean['split_trees'])
    depths = np.array([model.depth_of(max(1, k)) for k in range(size)])
    deepest = np.where(leaves, depths, 0).max(-1)
    f = sut.debug.trace_depth_distr
    got = np.array((sut.jax.jit(f) if sc['jit'] else f)(trace['split_trees']))
    want = np.stack([np.bincount(d, minlength=got.shape[-1]) for d in deepest])
    if got.shape != want.shape or not np.array_equal(got, want):
        raise Violation('depth-distribution', f'{got.tolist()[:2]} instead of {want.tolist()[:2]}')
    rec.count('depth distributions', S)
    g = np.random.Generator(np.random.PCG64(sc['problem']['data_seed'] + 5))
    Xtrain = np.array(state['X'])
    ms = np.array(state['max_split']).astype(np.int64)
    sets = [Xtrain]
    for n in sc['points']:
        X = np.stack([g.integers(0, m + 1, n) for m in ms]).astype(Xtrain.dtype).reshape(len(ms), n)
        if g.random() < 0.5 and n:
            X[:] = X[:, :1]   # all in the same leaf
        sets.append(X)
    f = sut.debug.trace_points_per_leaf_distr
    for X in sets:
        n = X.shape[1]
        idx = model.route(X, clean['var_trees'], clean['split_trees'])
        want = np.zeros((S, n + 1), np.int64)
        for s in range(S):
            cnt = model.counts(idx[s], size)
            want[s] = np.bincount(cnt[leaves[s]], minlength=n + 1)
        got = np.array((sut.jax.jit(f) if sc['jit'] else f)(trace, jnp.asarray(X)))
        if got.shape != want.shape or not np.array_equal(got, want):
            bad = np.argwhere(got != want)[:3].tolist() if got.shape == want.shape else (got.shape, want.shape)
            raise Violation('occupancy-distribution', f'n={n} d={sc["problem"]["d"]} ntree={T}: differs at {bad}')
        rec.count('occupancy distributions', S)
        rec.seen('count', n, clean['split_trees'].tobytes())
        rec.log(got.tobytes())
    # the printed form of a tree
    if size <= 64:
        s, t = S - 1, T - 1
        tree = [jnp.asarray(clean[k][s, t]) for k in ('leaf_trees', 'var_trees', 'split_trees')]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sut.debug.print_tree(*tree)
        dec = model.decision_mask(clean['split_trees'])[s, t]
        rows = {}
        for line in buf.getvalue().splitlines():
            q = re.match(r'\s*(\d+)\s', line)
            if not q or int(q.group(1)) in rows:
                raise Violation('print', f'line {line!r}')
            rows[int(q.group(1))] = line
        nodes = set(np.flatnonzero(leaves[s, t])) | set(np.flatnonzero(dec))
        if set(rows) != nodes:
            raise Violation('print', f'printed nodes {sorted(rows)} instead of {sorted(map(int, nodes))}')
        for k, line in rows.items():
            if k < size // 2 and dec[k]:
                want = f'({clean["var_trees"][s, t, k]}: {clean["split_trees"][s, t, k]})'
            else:
                want = f'{clean["leaf_trees"][s, t, k]:#.2g}'
            if not line.endswith(want):
                raise Violation('print', f'node {k} printed as {line!r} instead of {want!r}')
        # with the unused slots
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sut.debug.print_tree(*tree, True)
        lines = buf.getvalue().splitlines()
        shown = [int(q.group(1)) for q in (re.match(r'\s*(\d+)\s', line) for line in lines) if q]
        if sorted(shown) != list(range(1, size)):
            raise Violation('print', f'all nodes: printed {shown} of 1..{size - 1}')
        for k, line in zip(shown, lines):
            var, spl = (int(clean[x][s, t, k]) if k < size // 2 else 0 for x in ('var_trees', 'split_trees'))
            what = 'decision' if k < size // 2 and dec[k] else 'leaf' if leaves[s, t, k] else 'unused'
            q = re.search(r'(\w+)\((\d+), (\d+), ([^()]+)\)$', line)
            if not q or (q.group(1), int(q.group(2)), int(q.group(3))) != (what, var, spl) or abs(float(q.group(4)) - clean['leaf_trees'][s, t, k]) > 1e-3 * abs(clean['leaf_trees'][s, t, k]):
                raise Violation('print', f'all nodes: node {k} printed as {line!r}, it is {what} {var} {spl} {clean["leaf_trees"][s, t, k]}')
        rec.count('trees printed')
