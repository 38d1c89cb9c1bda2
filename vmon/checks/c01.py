"""Sufficient statistics against brute-force counting over the raw rows."""
import math

import numpy as np

from .. import gen, ref

ID = "C01"
RULE = ("Random trajectory sets (1-12 trajectories of 1-300 rows, or a few with up to 200000 rows; cardinalities 2-4 mixed, some "
        "up to 13; simultaneous changes, zero durations, unchanged rows, with and without a final row of -1) and, for every node, "
        "several parent sets from none to all others, also after other nodes were removed from the structure. A case is "
        "non-trivial when the node makes transitions and at least one residence time is positive; distinct by node "
        "cardinality, parent cardinalities, position and a digest of the statistics.")
FLOORS = {"parameter_sets_checked": 300, "cells_checked": 5000, "end_rows": 50, "transitions_counted": 5000, "mixed_cardinality_sets": 100,
          "removed_node_sets": 20}


def cases(tier, seed):
    n = 160 if tier == "quick" else 1600
    out = [{"kind": "raw", "i": i} for i in range(n)]
    out += [{"kind": "removed", "i": i} for i in range(n // 4)]
    out += [{"kind": "wide", "i": i} for i in range(n // 8)]
    out += [{"kind": "many", "i": i} for i in range(n // 16)]
    out += [{"kind": "big", "i": i} for i in range(4 if tier == "quick" else 24)]
    out += [{"kind": "simulated", "i": i} for i in range(n // 8)]
    return out[::-1]


def same_time(got, want, total):
    return abs(float(got) - want) <= 1e-9 * abs(want) + 1e-12 * total


def judge(mon, sofc, trans, node, parents, cards, total_time, info):
    """Every cell of every CIM of ``sofc`` against the brute-force statistics."""
    want = ref.stats(trans, node, parents, cards)
    combs, mats = list(sofc.p_combs), list(sofc.actual_cims)
    mon.eq(len(mats), len(want), "wrong number of CIMs", key="shape", info=info)
    mon.eq(len(combs), len(want), "wrong number of parent assignments", key="shape", info=info)
    k = cards[node]
    sumT, sumM, seen = 0.0, 0, set()
    for u, c in zip(combs, mats):
        u = tuple(int(v) for v in u)
        mon.check(u in want and u not in seen, "parent assignment unknown or repeated", assignment=u, info=info)
        seen.add(u)
        T, M = want[u]
        gT, gM = np.asarray(c.state_residence_times), np.asarray(c.state_transition_matrix)
        mon.check(gT.shape == (k,) and gM.shape == (k, k), "wrong shape of the statistics", shape=(gT.shape, gM.shape), info=info)
        for x in range(k):
            mon.check(same_time(gT[x], T[x], total_time), "residence time differs from the time in the data",
                      key="time", assignment=u, state=x, got=float(gT[x]), want=T[x], info=info)
            for y in range(k):
                mon.check(int(gM[x, y]) == M[x][y] and gM[x, y] == M[x][y], "transition count differs from the data",
                          key="count", assignment=u, transition=(x, y), got=gM[x, y], want=M[x][y], info=info)
        mon.count("cells_checked", k * (k + 1))
        sumT += float(gT.sum())
        sumM += int(sum(gM[x, x] for x in range(k)))
    mon.check(same_time(sumT, total_time, total_time), "the residence times do not add up to the observed time", got=sumT, want=total_time, info=info)
    moves = sum(1 for _, a, b in trans if b[node] >= 0 and b[node] != a[node])
    mon.eq(sumM, moves, "the transitions do not add up to those of the data", info=info)
    mon.count("parameter_sets_checked")
    mon.count("transitions_counted", moves)
    if len({cards[p] for p in parents} | {k}) > 1 and parents:
        mon.count("mixed_cardinality_sets")
    if moves and total_time > 0:
        mon.seen(k, [cards[p] for p in parents], node, parents, moves, round(total_time, 6))
    mon.top("max_parents", len(parents))
    mon.top("max_assignments", len(want))


def parent_sets(rng, n, node, cards, howmany, limit=4000):
    others = [i for i in range(n) if i != node]
    sets = [[]]
    if others:
        sets.append([others[int(rng.integers(len(others)))]])
        sets.append(list(others))
    for _ in range(howmany):
        m = int(rng.integers(0, len(others) + 1))
        sets.append(sorted(int(x) for x in rng.permutation(others)[:m]))
    out = []
    for s in sets:
        if s not in out and math.prod([cards[p] for p in s]) * cards[node] ** 2 <= limit * 10:
            out.append(s)
    return out


def make(case, rng, mon):
    kind = case["kind"]
    if kind == "many":
        n = int(rng.integers(9, 16))
        cards = gen.cardinalities(rng, n, 2, 3)
    elif kind == "wide":
        n = int(rng.integers(2, 5))
        cards = [int(rng.integers(2, 14)) for _ in range(n)]
    else:
        n = int(rng.integers(1 if kind == "raw" else 3, 8))
        cards = gen.constant(rng, gen.cardinalities(rng, n))
    names = gen.labels(rng, n)
    if kind == "simulated":
        parents = gen.random_parents(rng, n, 0.4, 3)
        cims = gen.random_cims(rng, cards, parents)
        trajs = [gen.simulate(rng, cards, parents, cims, transitions=int(rng.integers(5, 400)), end=bool(rng.random() < 0.7))
                 for _ in range(int(rng.integers(1, 6)))]
    elif kind == "big":
        rows = int(rng.integers(40000, 200001))
        n = 3
        cards, names = cards[:3], names[:3]
        t = np.cumsum(rng.exponential(1.0, rows))
        states = np.stack([rng.integers(0, c, rows) for c in cards], axis=1)
        trajs = [[[float(a)] + [int(v) for v in b] for a, b in zip(t, states)]]
        trajs[0].append([float(t[-1]) + 1.0] + [-1] * n)
    else:
        scale = float(10.0 ** rng.integers(-6, 7))
        # unobserved ends and short trajectories on purpose; at least one with two rows
        trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([1, 2, 3, 10, 60, 300])), end=bool(rng.random() < 0.6), scale=scale,
                                    start=0.0 if rng.random() < 0.7 else float(rng.exponential(scale * 5)))
                 for _ in range(int(rng.integers(1, 13)))]
        if all(len(t) < 2 for t in trajs):
            trajs.append(gen.raw_trajectory(rng, cards, 10))
    mon.count("end_rows", sum(1 for t in trajs if t[-1][1] == -1))
    mon.count("trajectories", len(trajs))
    return n, names, cards, trajs


def run(case, rng, mon):
    n, names, cards, trajs = make(case, rng, mon)
    sp = gen.sample_path(trajs, names, cards)
    trans = ref.transitions(trajs)
    total = math.fsum(t[0] for t in trans)
    mon.count("rows", len(trans))
    nodes = list(range(n)) if case["kind"] != "big" else [int(rng.integers(n))]
    if case["kind"] == "removed":
        from PyCTBN import NetworkGraph, ParametersEstimator, Structure
        for node in nodes:
            keep = sorted({node} | {int(x) for x in rng.permutation(n)[:int(rng.integers(1, n))]})
            gone = [i for i in rng.permutation(n) if i not in keep]
            parents = [p for p in keep if p != node and rng.random() < 0.7]
            edges = [(names[p], names[node]) for p in parents] + [(names[g], names[node]) for g in gone]
            s = Structure(list(names), np.arange(n), np.array(cards), edges, n)
            g = NetworkGraph(s)
            g.fast_init(names[node])
            for x in gone:
                g.remove_node(names[x])
            g.fast_init(names[node])
            pe = ParametersEstimator(sp.trajectories, g)
            pe.fast_init(names[node])
            sofc = pe.compute_parameters_for_node(names[node])
            judge(mon, sofc, trans, node, parents, cards, total, dict(node=node, parents=parents, cards=cards, removed=gone))
            mon.count("removed_node_sets")
        return
    for node in nodes:
        for parents in parent_sets(rng, n, node, cards, 2 if case["kind"] != "big" else 0):
            sofc = gen.node_sofc(sp, names, cards, node, parents, rng)
            judge(mon, sofc, trans, node, parents, cards, total, dict(node=node, parents=parents, cards=cards))
    mon.sample({"names": names, "cards": cards, "rows": len(trans), "total_time": total})
