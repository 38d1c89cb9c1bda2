"""Recovery of the true network from ample data with strong dependences."""
import itertools
import os

import numpy as np

from .. import gen, ref
from . import c17

ID = "C18"
RULE = ("Networks in which every parent clearly changes the intensities of its child whatever the other parents do: all of them, only the "
        "exit rate of one state, or only the probabilities of the next states "
        "(trees, chains, hubs, cycles, dense and empty graphs, unequal cardinalities, all families of names), simulated by the harness "
        "for thousands of transitions in one or several trajectories and presented as frames or JSON, with right, wrong or no prior "
        "structure; then constraint-based (small significance levels) and score-based estimation (hill climbing and tabu, many "
        "iterations), sequential or parallel. The oracle is the generating network. Finite samples can mislead a perfect estimator: a "
        "data set is only judged if the reference CTPC, respectively the reference score (the truth is the only parent set that no "
        "single change improves), recovers the truth from it. Distinct by network and estimator.")
FLOORS = {"ctpc_recovered": 15, "score_recovered": 30, "edges_recovered": 100, "empty_networks": 2, "cyclic_networks": 6, "several_trajectories": 8,
          "multi_parent_nodes": 12, "large_cardinalities": 10, "tabu": 10, "hill": 10, "effect_jumps": 3, "effect_state": 8}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [{"i": i} for i in range(56 * k)]


def network(rng, i):
    n = 9 if i % 28 == 27 else int(rng.integers(6, 9)) if i % 14 == 13 else int(rng.integers(2, 6))
    cards = gen.cardinalities(rng, n, 2, 2 if n > 5 or rng.random() < 0.4 else (4 if n <= 3 else 3))
    kind = ["chain", "hub", "cycle", "random", "collider", "empty", "pair", "random"][i % 8]
    order = [int(x) for x in rng.permutation(n)]
    parents = [set() for _ in range(n)]
    if kind in ("chain", "cycle"):
        for a, b in zip(order, order[1:]):
            parents[b].add(a)
        if kind == "cycle":
            parents[order[0]].add(order[-1])
    elif kind == "hub":
        for b in order[1:]:
            parents[b].add(order[0])
    elif kind == "collider":
        parents[order[-1]] = set(order[:-1][:3])
    elif kind == "pair":
        parents[order[0]].add(order[1])
        parents[order[1]].add(order[0])
    elif kind == "random":
        for a in range(n):
            for b in range(n):
                if a != b and len(parents[b]) < 3 and rng.random() < (0.35 if n < 6 else 0.15):
                    parents[b].add(a)
    parents = [sorted(p) for p in parents]
    cims, effects = [], set()
    for b in range(n):
        k = cards[b]
        base = float(rng.uniform(0.7, 1.5))
        speed, effect = {}, {}
        for p in parents[b]:
            f = 1.0 / 1.6 * (rng.uniform(3.0, 4.5) if cards[p] == 2 else rng.uniform(2.2, 2.8)) ** np.arange(cards[p])
            speed[p] = [float(f[j]) for j in rng.permutation(cards[p])]
            # what the parent acts on: every intensity, the exit rate of one state, or only where the child goes
            how = "all" if rng.random() < 0.5 else ("jumps" if k > 2 and rng.random() < 0.6 else "state")
            effect[p] = (how, int(rng.integers(k)))
            effects.add(how)
        shape = rng.uniform(0.6, 1.6, (k, k))
        d = {}
        for u in itertools.product(*[range(cards[p]) for p in parents[b]]):
            q = base * shape
            for p, v in zip(parents[b], u):
                how, target = effect[p]
                f = speed[p][v]
                if how == "all":
                    q = q * f
                elif how == "state":
                    q[target] = q[target] * f
                else:
                    for x in range(k):
                        others = [y for y in range(k) if y != x]
                        before = q[x, others].sum()
                        q[x, others[target % len(others)]] *= f
                        q[x, others] *= before / q[x, others].sum()
            np.fill_diagonal(q, 0.0)
            np.fill_diagonal(q, -q.sum(axis=1))
            d[u] = q
        cims.append(d)
    return n, cards, parents, cims, kind, effects


def cyclic(parents):
    left = set(range(len(parents)))
    while True:
        free = {x for x in left if not set(parents[x]) & left}
        if not free:
            return bool(left)
        left -= free


def path(rng, trajs, names, cards, prior):
    from PyCTBN import JsonImporter
    if rng.random() < 0.3:
        f = c17.json_file(names, cards, [c17.json_traj(t, names) for t in trajs], prior, rng, True)
        imp = JsonImporter(f, "samples", "dyn.str", "variables", "Time", "Name")
        os.unlink(f)
        imp.import_data(0)
        return c17.build(imp)
    return gen.sample_path(trajs, names, cards, prior)


def ctpc_recovers(trans, cards, parents, a, b, th):
    for node in range(len(cards)):
        for order in (1, -1):
            try:
                if ref.CTPC(trans, cards, a, b, th).parents_of(node, order)[0] != parents[node]:
                    return False
            except ref.Near:
                return False
    return True


def score_recovers(trans, cards, parents, tau, alpha):
    n = len(cards)
    for node in range(n):
        others = [x for x in range(n) if x != node]
        sc = {}
        for r in range(n):
            for c in itertools.combinations(others, r):
                sc[frozenset(c)] = ref.fam_score(ref.stats(trans, node, sorted(c), cards), tau, alpha)
        local = [s for s in sc if all(sc[s ^ {x}] <= sc[s] + 1e-6 * abs(sc[s]) for x in others)]
        if local != [frozenset(parents[node])]:
            return False
    return True


def run(case, rng, mon):
    from PyCTBN import StructureConstraintBasedEstimator, StructureScoreBasedEstimator
    n, cards, parents, cims, kind, effects = network(rng, case["i"])
    names = gen.labels(rng, n)
    pieces = int(rng.choice([1, 1, 2, 5]))
    total = int(rng.choice([5000, 9000]))
    trajs = [gen.simulate(rng, cards, parents, cims, transitions=total // pieces, end=bool(rng.random() < 0.5), t0=float(rng.choice([0.0, 10.0]))) for _ in range(pieces)]
    truth = {(names[p], names[c]) for c in range(n) for p in parents[c]}
    every = [(a, b) for a in names for b in names if a != b]
    prior = [[], sorted(truth), [e for e in every if rng.random() < 0.3]][int(rng.integers(3))]
    trans = ref.transitions(trajs)
    a, b = float(rng.choice([1e-6, 1e-8])), float(rng.choice([1e-6, 1e-8]))
    th = int(rng.choice([25, 5, 1]))
    tau, alpha = float(rng.choice([0.5, 1.0, 2.0])), float(rng.choice([0.5, 1.0, 2.0]))
    info = dict(kind=kind, names=names, cards=cards, truth=sorted(truth), transitions=total, trajectories=pieces, alfas=(a, b), threshold=th, tau=tau, alpha=alpha)

    def note(counter, got, how):
        mon.eq(got, truth, "the true structure is not recovered (%s)" % counter, key=counter, missing=sorted(truth - got), extra=sorted(got - truth), how=how, info=info)
        mon.count(counter)
        mon.count("edges_recovered", len(truth))
        mon.count("empty_networks", not truth)
        mon.count("wide_networks", n > 5)
        mon.top("max_candidates", n - 1)
        mon.count("cyclic_networks", cyclic(parents))
        mon.count("several_trajectories", pieces > 1)
        mon.count("multi_parent_nodes", sum(len(p) > 1 for p in parents))
        mon.count("large_cardinalities", max(cards) > 2)
        for e in effects:
            mon.count("effect_" + e)
        mon.seen(case["i"], counter, how)

    def parallel():
        return {"disable_multiprocessing": True} if rng.random() < 0.7 else {"processes_number": int(rng.integers(1, 5))}

    with gen.quiet():
        sp = path(rng, trajs, names, cards, prior)
    if ctpc_recovers(trans, cards, parents, a, b, th):
        kw = parallel()
        with gen.quiet():
            est = StructureConstraintBasedEstimator(sp, a, b, thumb_threshold=th)
            res = est.estimate_structure(**kw)
        note("ctpc_recovered", {(str(x), str(y)) for x, y in res}, kw)
    else:
        mon.count("ctpc_skipped")
    if score_recovers(trans, cards, parents, tau, alpha):
        for opt in ("hill", "tabu"):
            kw = dict(parallel(), optimizer=opt, iterations_number=60 * n)
            if opt == "tabu" and rng.random() < 0.5:
                kw.update(tabu_length=int(rng.integers(1, n)), tabu_rules_duration=int(rng.integers(1, n)))
            with gen.quiet():
                est = StructureScoreBasedEstimator(sp, tau_xu=tau, alpha_xu=alpha)
                res = est.estimate_structure(**kw)
            note("score_recovered", {(str(x), str(y)) for x, y in res}, kw)
            mon.count(opt)
    else:
        mon.count("score_skipped")
    mon.sample(info)
