"""Writes /verif/MANIFEST.json from the checks present in sim/props."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.runner import load

PURE = ('pure function of its arguments: no schedule, clock, I/O, entropy, fault or history it could depend on, '
        'hence nothing for a simulator to decide; searching its inputs would be property-based testing, another technique')

NA = dict(
    C23=f'Binning of given values with given cutpoints is a {PURE}. (Its use under memory budgets, faults and concurrency is covered by C14-C17.)',
    C24=f'The determination of cutpoints is a {PURE}. (Its use under memory budgets is covered by C15, degenerate inputs by C21.)',
    C25=f'The calibration of the priors is a {PURE}. (How it follows the units is covered by C19, the fallbacks by C21.)',
    C26=f'The auxiliary array functions are a {PURE}.'.replace('are a pure function of its', 'are pure functions of their'),
)

STAT = 'Statistical verdicts are at 1e-10 significance per test, so that a false alarm is practically impossible, at the price of missing very small biases. '
EXPL = 'Seeded search, not a proof: holds on the histories explored. Each failing seed is exactly repeatable. '
TRUST = 'Trusts jax/XLA (op level 0 on CPU) and the reference model in /verif/sim. '
H = 'Real code throughout; the simulator owns the entropy stream (including saturated/null/repeated words) and injects noise variance shocks, response changes, crash+restore and branching. '

INFO = dict(
    C01=('random chain histories with injected shocks, crashes and faulty entropy; residual vs forest invariant after every step', EXPL + H + TRUST + 'Comparison within a derived roundoff bound.'),
    C02=('random chain histories with faulty entropy at integer-type and depth boundaries; heap/rule validity invariant on every state and trace', EXPL + H + TRUST),
    C03=('random chain histories with faults; bookkeeping vs independent routing of every datapoint after every step', EXPL + H + TRUST),
    C04=('random chain histories with faults; minimum leaf occupancy invariant, and bare-root invariant for small datasets', EXPL + H + TRUST),
    C05=('random chain histories with faults; refinement of each step against the set of legal moves, and counters against moves', EXPL + H + TRUST),
    C06=('thousands of simulated entropy streams from reached states against the exact Metropolis-Hastings kernel; recorded ratios against recomputed ones; prior-only chains against the exact stationary law', EXPL + STAT + TRUST),
    C07=('histories under shocks; every redrawn leaf standardised by the exact conditional posterior, tests of law and independence over the recorded history', EXPL + STAT + TRUST),
    C08=('histories and entropy fans; every noise variance mapped through its exact conditional law, tests of law and independence; reported sigma vs replayed chain', EXPL + STAT + TRUST),
    C09=('random (burn-in, save, thin) schedules of one chain against the unthinned chain', EXPL + 'The step is a keyed hash stub in most runs (the property concerns the loop), the real step in the others. ' + TRUST),
    C12=('random schedules with a recording callback, faults injected in the callback at chosen iterations, then rerun', EXPL + 'The step is a keyed hash stub in most runs, the real step in the others. ' + TRUST),
    C13=('random fits with a simulated output stream (whole, failing at the j-th write); everything printed is parsed and compared with an independent recording of the chain', EXPL + 'The step is a keyed hash stub in most runs. ' + TRUST),
    C10=('random crash points, checkpoints (torn, lost or stale) and restart places (same process, cold caches, thread, second device, fresh process) against the uninterrupted chain; restored models', EXPL + 'Real step in all chain histories; the serialized bytes are the only state that survives a crash. ' + TRUST),
    C11=('seeded interleavings of several chains with interference in between, against each chain alone; each operation on a kept state, compiled or op by op, twice', EXPL + 'Real code throughout. ' + TRUST),
    C14=('random sessions of prediction requests (repeated, reordered, refused, after cache loss or restore) on fitted models, against a float64 evaluation of the recorded trees', EXPL + 'The forests come from a stub of the step in most runs (the property concerns recorded forests), from the real sampler in the others. ' + TRUST),
    C15=('memory budgets from one byte to unlimited injected at the autobatch seam and batch sizes injected in the state, with observation of the batches executed; against the unbatched execution', EXPL + TRUST + 'Budget estimates are judged by what is executed, not by how they are computed.'),
    C16=('deterministic thread scheduler (random and priority based, switches at any line of the library) over 2-4 threads, with injected interrupts, each result against the call alone', EXPL + 'Threads switch at lines of bartz; code inside jax runs between switches. ' + TRUST),
    C17=('for each operation, an interrupt or failure injected at every distinct line of the library it passes, at calls of primitives and at each write of the output, then damage inspection and repetition', 'Fault points are enumerated per operation (one occurrence of each line, later occurrences by seed); operations and data are sampled. ' + TRUST),
    C18=('same fit or run in many simulated environments (clock, urandom, global generators, hash seed, timezone, process, thread, caches), bit for bit; reuse of randomness looked for across seeds, iterations and trees', EXPL + TRUST),
    C19=('twin executions under one entropy stream in different units; exact unit changes must leave the chain bit for bit', EXPL + 'Inexact unit changes are compared within a tolerance and need agreement of most of five entropy streams to count. ' + TRUST),
    C20=('twin executions of the same histories op by op, compiled, vectorised, sharded, on a second simulated device, inside user programs', EXPL + 'Teacher forced: each step starts from the same state in all modes. ' + TRUST),
    C21=('random combinations of degenerate data and settings with plain and faulty entropy; shape, type, finiteness and fallbacks', EXPL + 'The step is a stub in a third of the runs. ' + TRUST),
    C27=('thousands of simulated chains started from exact draws of the joint model driven through random schedules of updates, data redraws, reorderings and returns to checkpoints; expected values of bounded functions must not change; fits without data against the exact law of the prior chain', EXPL + STAT + 'Prior draws come from an independent sampler. ' + TRUST),
    C28=('twin executions under one entropy stream with the datapoints in other orders, containers, types, layouts and increasing transformations', EXPL + 'Steps are teacher forced; roundoff differences count only if they repeat or appear in most of five entropy streams. ' + TRUST),
    C22=('corruptions injected in stored forests vs the list of corruptions; every forest of simulated histories must be clean; distributions vs direct counts', EXPL + 'Forests from a random forest stub or the real sampler. ' + TRUST),
)

checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA or not os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py')):
        continue
    mod = load(p)
    technique, note = INFO[p]
    checks.append(dict(
        property=p,
        quick_cmd=f'./check {p}',
        thorough_cmd=f'VERIF_TIER=thorough ./check {p} --thorough',
        evidence_file=f'evidence/{p}.json',
        technique='deterministic simulation with fault injection: ' + technique,
        level=getattr(mod, 'LEVEL', 'exploration'),
        level_note=note,
    ))
ids = {c['property'] for c in checks}
missing = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
missing = [p for p in missing if p not in ids and p not in NA]
na = [dict(property=p, reason=r) for p, r in NA.items()]
na += [dict(property=p, reason='no check built yet') for p in missing]
json.dump(dict(
    version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='No hooks in /repo are needed: every seam used by the simulator exists already. '
          'bartz is pure Python imported from /repo/src, hence each check runs the current working tree without a build.',
), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks; missing', missing)
