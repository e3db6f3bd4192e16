"""Random problem configurations (pure python, JSON-able)."""


def pick(r, *weighted):
    """pick(r, (weight, value), ...)"""
    total = sum(w for w, _ in weighted)
    u = r.random() * total
    for w, v in weighted:
        u -= w
        if u < 0:
            return v
    return weighted[-1][1]


def gen_problem(r, *, small=False, minpts=None, n=None, p=None, ntree=None, d=None,
                deep=None, cuts=None, save_ratios=None, tame=False):
    """
    A configuration for mcmcstep.init. Boundary values of the integer types
    (255/256/257), of the tree depth and of the batch sizes are favoured.
    """
    if n is None:
        n = pick(r,
            (1, r.choice([0, 1, 2, 3])), (3, r.randint(4, 12)), (8, r.randint(13, 70)),
            (0 if small else 1.5, r.choice([127, 128, 200, 255, 256, 257, 300, 513])),
            (0 if small else 0.5, 1000))
    if d is None:
        d = pick(r, (0.5, 1), (1, 2), (2, 3), (3, 4), (3, 5), (3, 6), (0 if small else 1, 7),
                 (0 if small else 1.5, 8), (0 if small else 1.5, 9), (0 if small else 0.5, 10))
    if p is None:
        p = pick(r, (2, 1), (3, 2), (3, 3), (2, r.randint(4, 10)), (0.3 if small else 1, r.choice([255, 256, 257, 300])))
    if ntree is None:
        ntree = pick(r, (2, 1), (2, 2), (3, 3), (3, r.randint(4, 12)), (0 if small else 1.5, r.randint(20, 60)),
                     (0 if small or d > 6 else 0.7, r.choice([255, 256, 257])))
    # keep the size of a run bounded
    while ntree > 1 and (ntree * 2 ** d > 40000 or ntree * n > 40000):
        ntree //= 2
    if cuts is None:
        cuts = pick(r, (2, 'few'), (3, 'mid'), (1, 'u8max'), (1, 'u16'), (0.4, 'u32'), (0.7, 'zeros'), (1.5, 'mixed'))
    if minpts is None:
        minpts = pick(r, (4, None), (0.7, 0), (1.5, 1), (1, 2), (1, 3), (2, 5), (0.7, 10))
    elif minpts == 'set':
        minpts = pick(r, (1, 0), (2, 1), (2, 2), (2, 3), (3, 5), (1, 10), (0.5, 40))
        if n >= 200 and r.random() < 0.5:
            # type boundaries of counts of datapoints
            minpts = r.choice([64, 100, 127, 128, 129, n // 2, n // 2 + 1, n, n + 1])
    elif minpts == 'none':
        minpts = None
    elif isinstance(minpts, list):
        minpts = r.choice(minpts)
    if deep is None:
        deep = pick(r, (2, 'default'), (3, 'flat'), (1, 'shallow'), (1, 'sure'), (1, 'random'))
    m = max(0, d - 1)
    if deep == 'default':
        pnt = [0.95 / (1 + i) ** 2 for i in range(m)]
    elif deep == 'flat':
        a = r.choice([0.5, 0.8, 0.95, 0.99])
        pnt = [a] * m
    elif deep == 'shallow':
        pnt = [0.3 / (1 + i) ** 3 for i in range(m)]
    elif deep == 'sure':
        pnt = [(0.999999 if i < 2 else 0.9) for i in range(m)]
        if m and r.random() < 0.3 and not tame:
            pnt[0] = 1.0
    else:
        pnt = [round(r.uniform(0.02, 0.98), 3) for i in range(m)]
        if m and r.random() < 0.2 and not tame:
            pnt[r.randrange(m)] = 0.0
    def bs():
        return pick(r, (3, 'auto'), (2, None), (1, 1), (1, 7), (1, 16), (0.7, max(1, n)), (0.7, n + 3), (0.7, max(1, n - 1)))
    cfg = dict(
        n=n, p=p, ntree=ntree, d=d, cuts=cuts, minpts=minpts, pnt=pnt,
        rbs=bs(), cbs=bs(),
        ratios=(r.random() < 0.3) if save_ratios is None else save_ratios,
        alpha=pick(r, (2, 1.5), (1, 0.5), (1, 5.0), (0.5, 50.0)),
        beta=pick(r, (2, 0.5), (1, 1e-3), (1, 5.0), (0.5, 50.0)),
        ykind=pick(r, (3, 'signal'), (2, 'normal'), (0.5, 'constant'), (0.5, 'outlier')),
        yscale=pick(r, (4, 1.0), (1, 1e-3), (1, 30.0)),
        xkind=pick(r, (3, 'uniform'), (1, 'extremes'), (1, 'lumpy'), (0.5, 'constant'), (1, 'mixed')),
        small_float='float16' if (not tame and r.random() < 0.07) else 'float32',
        data_seed=r.randrange(2 ** 31),
    )
    return cfg


def gen_plant(r, deep=False):
    """initial forest of random trees instead of bare roots, see sut.plant_forest"""
    a = r.choice([0.95, 1.0] if deep else [0.3, 0.6, 0.9, 1.0])
    b = r.choice([1.0, 0.95, 0.85] if deep else [1.0, 0.8, 0.6])
    return dict(seed=r.randrange(2 ** 31), grow=[round(a * b ** i, 4) for i in range(12)])


def shrink_problem(c):
    """Simpler problems, most aggressive first."""
    if c.get('plant'):
        yield dict(c, plant=None)
        g = c['plant']['grow']
        for i in range(1, min(4, len(g))):
            if g[i]:
                yield dict(c, plant=dict(c['plant'], grow=g[:i] + [0.0]))
    def sub(**kw):
        q = dict(c)
        q.update(kw)
        if 'd' in kw:
            m = max(0, kw['d'] - 1)
            q['pnt'] = c['pnt'][:m]
        return q
    for n in sorted({2, 3, 5, 10, c['n'] // 2, c['n'] - 1}):
        if 0 <= n < c['n']:
            yield sub(n=n)
    for t in sorted({1, 2, c['ntree'] // 2, c['ntree'] - 1}):
        if 1 <= t < c['ntree']:
            yield sub(ntree=t)
    for p in sorted({1, 2, c['p'] // 2}):
        if 1 <= p < c['p']:
            yield sub(p=p)
    for d in range(1, c['d']):
        yield sub(d=d)
    for k, v in dict(rbs=None, cbs=None, ratios=False, cuts='mid', xkind='uniform', ykind='normal',
                     yscale=1.0, small_float='float32', alpha=1.5, beta=0.5, minpts=None).items():
        if c[k] != v:
            yield sub(**{k: v})


def gen_entropy(r, adversarial=0.5):
    """The stream of random bits the chain consumes."""
    if r.random() >= adversarial:
        return dict(kind=pick(r, (1, 'threefry'), (1, 'hash')), seed=r.randrange(2 ** 31))
    return dict(
        kind='faulty', seed=r.randrange(2 ** 31),
        ones=r.choice([0, 0.02, 0.1, 0.3]), zeros=r.choice([0, 0.02, 0.1, 0.3]),
        sticky=r.choice([0, 0, 0.1, 0.4]),
    )
