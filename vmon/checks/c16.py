"""The pairwise independence test against the closed rule, at and around its boundaries."""
import math

import numpy as np

from .. import gen, ref
from . import c11

ID = "C16"
RULE = ("independence_test on pairs of matrices with random statistics (2-16 states, 0 to 10^8 departures per state, empty cells, empty states), "
        "and with statistics built so that exactly one F ratio or one chi-square value lies 0.1% to 20% on either side of its quantile, or the "
        "rule of thumb is met or missed by one transition; compute_thumb_value on random cardinalities; complete_test on random data. "
        "Decisions within 1e-7 of a quantile are skipped. Non-trivial: distinct statistics and levels.")
FLOORS = {"decisions": 2500, "accepted": 600, "rejected": 600, "near_F": 400, "near_chi": 250, "near_chi_many_states": 60, "thumb_boundary": 200, "thumb_rejected": 150, "thumb_values": 200,
          "empty_states": 100, "empty_cells": 200, "data_tests": 400, "large_counts": 200, "near_chi_large_counts": 60}


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": kind, "i": i} for i in range(60 * k) for kind in ("random", "F", "chi", "thumb", "data")]


class Fake(object):
    pass


def matrix(T, M):
    from PyCTBN import ConditionalIntensityMatrix
    c = ConditionalIntensityMatrix(state_residence_times=np.array(T, dtype=float), state_transition_matrix=np.array(M, dtype=int))
    c.compute_cim_coefficients()
    return c


def estimator(sp, a, b, th):
    from PyCTBN import StructureConstraintBasedEstimator
    return StructureConstraintBasedEstimator(sp, a, b, [], th)


def small_path(rng):
    with gen.quiet():
        return gen.sample_path([gen.raw_trajectory(rng, [2, 3, 2], 6)], ["A", "B", "C"], [2, 3, 2])


def decide(mon, est, T1, M1, T2, M2, a, b, thumb, th, kind):
    k = len(T1)
    if any(M1[x][x] == 1 for x in range(k)):          # an estimated rate of exactly 0 to divide by
        return None
    try:
        want, thumb_failed = ref.pair_test(T1, M1, T2, M2, a, b, thumb, th)
    except ref.Near:
        mon.count("too_near")
        return None
    c1, c2 = matrix(T1, M1), matrix(T2, M2)
    with np.errstate(all="ignore"), gen.quiet():
        got = est.independence_test(k, c1, c2, thumb, 0, 1)
    mon.eq(bool(got), want, "the test does not follow the documented rule", key=kind, states=k, T1=T1, M1=M1, T2=T2, M2=M2, alfas=(a, b), thumb_value=thumb, threshold=th)
    mon.check(np.array_equal(c1.state_transition_matrix, M1) and np.array_equal(c2.state_transition_matrix, M2), "the test modified the statistics", key="modified")
    mon.count("decisions")
    mon.count("accepted" if want else "rejected")
    mon.count("thumb_rejected", thumb_failed)
    mon.count("empty_states", sum(1 for x in range(k) if M1[x][x] == 0 or M2[x][x] == 0))
    mon.count("empty_cells", sum(1 for x in range(k) for y in range(k) if M1[x][y] + M2[x][y] == 0))
    mon.seen(kind, T1, M1, T2, M2, a, b, thumb, th)
    return want


def counts(rng, k, mean, zero=0.15):
    M = rng.poisson(mean, (k, k))
    M[rng.random((k, k)) < zero] = 0
    np.fill_diagonal(M, 0)
    np.fill_diagonal(M, M.sum(axis=1))
    return M.tolist()


def levels(rng):
    c = [0.2, 0.1, 0.05, 0.01, 1e-3, 1e-6]
    return float(rng.choice(c)), float(rng.choice(c))


def run(case, rng, mon):
    {"random": random_pairs, "F": near_f, "chi": near_chi, "thumb": thumb_rule, "data": data}[case["kind"]](case, rng, mon)


def random_pairs(case, rng, mon):
    sp = small_path(rng)
    for _ in range(20):
        a, b = levels(rng)
        th = float(rng.choice([25, 0, 5, 1]))
        k = int(rng.choice([2, 3, 4, 5])) if rng.random() < 0.9 else int(rng.integers(8, 17))
        mean = float(rng.choice([1, 4, 30, 1000, 40000, 10 ** 7]))
        M2 = np.array(counts(rng, k, mean))
        T2 = rng.random(k) * mean * k + 0.01
        if rng.random() < 0.6:                        # as in use: the first one pools the second and others
            ratio = rng.random() * 4 + 0.2
            X = rng.poisson(np.maximum(M2 * ratio, 0.0) + (0.2 if rng.random() < 0.3 else 0.0))
            np.fill_diagonal(X, 0)
            np.fill_diagonal(X, X.sum(axis=1))
            M1 = M2 + X
            T1 = T2 * (1 + ratio) * np.exp(rng.normal(0, float(rng.choice([0.01, 0.2])) if mean < 10 ** 4 else 1e-5, k))
        else:
            M1 = np.array(counts(rng, k, mean))
            T1 = T2 * np.exp(rng.normal(0, 0.3, k)) if mean < 10 ** 4 else T2 * np.maximum(np.diagonal(M1), 1) / np.maximum(np.diagonal(M2), 1)
        mon.count("large_counts", mean >= 10 ** 4)
        if rng.random() < 0.2:
            x = int(rng.integers(k))
            for M in ((M1, M2) if rng.random() < 0.5 else (M2,)):
                M[x] = 0
        thumb = int((k - 1) ** 2 * rng.integers(2, 5) * rng.integers(1, 5))
        decide(mon, estimator(sp, a, b, th), T1.tolist(), M1.tolist(), T2.tolist(), M2.tolist(), a, b, thumb, th, "random")
    mon.sample(dict(states=k, alfas=(a, b), M1=M1.tolist(), M2=M2.tolist()))


def near_f(case, rng, mon):
    """All but one state agree exactly; the ratio of that one is just inside or outside a quantile."""
    sp = small_path(rng)
    for _ in range(20):
        a, b = levels(rng)
        k = int(rng.choice([2, 2, 3, 4])) if rng.random() < 0.9 else int(rng.integers(8, 17))
        base = rng.integers(3, 60, (k, k))
        np.fill_diagonal(base, 0)
        m1, m2 = int(rng.integers(1, 9)), int(rng.integers(1, 5))
        if rng.random() < 0.25:
            m1, m2 = m1 * int(rng.choice([3000, 10 ** 6])), m2 * int(rng.choice([3000, 10 ** 6]))
        M1, M2 = base * m1, base * m2                  # same proportions: chi-square 0
        for M in (M1, M2):
            np.fill_diagonal(M, M.sum(axis=1))
        x = int(rng.integers(k))
        T1, T2 = rng.random(k) * 50 + 5, np.zeros(k)
        side, eps = int(rng.integers(2)), float(rng.choice([1e-3, 0.02, 0.2])) * (1 if rng.random() < 0.5 else -1)
        for y in range(k):
            r1, r2 = int(M1[y][y]), int(M2[y][y])
            f = 1.0
            if y == x:
                f = (ref.Q.F(a / 2, r1, r2) if side == 0 else ref.Q.F(1 - a / 2, r1, r2)) * (1 + eps)
            c1 = (1 - r1) / (T1[y] + 1.0)
            T2[y] = (1 - r2) / (f * c1) - 1.0
        if (T2 <= 0).any():
            continue
        want = decide(mon, estimator(sp, a, b, 0), T1.tolist(), M1.tolist(), T2.tolist(), M2.tolist(), a, b, (k - 1) ** 2 * 2, 0, "F")
        if want is not None:
            mon.count("near_F")


def near_chi(case, rng, mon):
    """All the rates agree exactly; the destinations of one state are just inside or outside the quantile."""
    sp = small_path(rng)
    for _ in range(12):
        a, b = levels(rng)
        k = int(rng.choice([3, 3, 4, 5])) if rng.random() < 0.7 else int(rng.integers(7, 17))
        limit = ref.Q.chi2(1 - b, k - 1)
        base = rng.integers(2, 40, (k, k))
        if rng.random() < 0.3 and k > 3:
            base[rng.random((k, k)) < 0.15] = 0
        np.fill_diagonal(base, 0)
        if (base.sum(axis=1) < 2).any():
            continue
        m1, m2 = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        big = int(rng.choice([1, 1, 1, 3000, 10 ** 6]))
        M1, M2 = base * m1 * big, base * m2 * int(rng.choice([1, big]))
        x = int(rng.integers(k))
        best = None
        for _ in range(60):
            row = rng.multinomial(int(M2[x].sum() * rng.uniform(0.7, 1.5)) + 1, rng.dirichlet(np.maximum(base[x][np.arange(k) != x], 0.5) * float(rng.choice([0.3, 1, 3]))))
            if big > 1:
                row = np.maximum(np.rint(M2[x][np.arange(k) != x] + rng.normal(0, rng.uniform(1.0, 3.5), k - 1) * np.sqrt(np.maximum(M2[x][np.arange(k) != x], 1.0))), 0).astype(int)
            if row.sum() < 1:
                continue
            r1, r2 = int(M1[x].sum()), int(row.sum())
            K, L = math.sqrt(r1 / r2), math.sqrt(r2 / r1)
            o = M1[x][np.arange(k) != x]
            v = sum((K * p - L * q) ** 2 / (p + q) for p, q in zip(row, o) if p + q)
            if best is None or abs(v - limit) < abs(best[0] - limit):
                best = (v, row)
            if abs(v - limit) < 0.05 * limit:
                break
        if best is None:
            continue
        M2[x][np.arange(k) != x] = best[1]
        for M in (M1, M2):
            np.fill_diagonal(M, M.sum(axis=1))
        T1 = rng.random(k) * 50 + 5
        T2 = np.array([(1 - M2[y][y]) / ((1 - M1[y][y]) / (T1[y] + 1.0)) - 1.0 for y in range(k)])
        if (T2 <= 0).any():
            continue
        want = decide(mon, estimator(sp, a, b, 0), T1.tolist(), M1.tolist(), T2.tolist(), M2.tolist(), a, b, (k - 1) ** 2 * 2, 0, "chi")
        if want is not None and abs(best[0] - limit) < 0.3 * limit:
            mon.count("near_chi")
            mon.count("near_chi_large_counts", big > 1)
            mon.count("near_chi_many_states", k > 6)


def thumb_rule(case, rng, mon):
    sp = small_path(rng)
    for _ in range(8):
        child, parent = int(rng.integers(2, 7)), int(rng.integers(2, 7))
        sep = [int(x) for x in rng.integers(2, 6, int(rng.integers(0, 5)))]
        want = (child - 1) ** 2 * parent * int(np.prod(sep)) if sep else (child - 1) ** 2 * parent
        est = estimator(sp, 0.1, 0.1, 25)
        for given in (sep, np.array(sep, dtype=int), sep[::-1]):
            mon.eq(int(est.compute_thumb_value(parent, child, given)), want, "wrong thumb value", key="thumb_value", parent=parent, child=child, conditioning=given)
        mon.count("thumb_values")
        # identical matrices: only the rule of thumb can reject
        k = int(rng.choice([2, 3, 4]))
        per = int(rng.choice([25, 10, 3, 1]))
        thumb = (k - 1) ** 2 * int(rng.integers(2, 4)) * int(rng.integers(1, 4))
        for off in (-1, 0, 1):
            total = per * thumb + off
            M = np.zeros((k, k), dtype=int)
            for j in range(total):
                x = j % k
                M[x][(x + 1 + (j // k) % (k - 1)) % k] += 1
            np.fill_diagonal(M, M.sum(axis=1))
            T = rng.random(k) * 20 + 1
            if total > 2 * k:
                decide(mon, estimator(sp, 0.1, 0.1, per), T.tolist(), M.tolist(), T.tolist(), M.tolist(), 0.1, 0.1, thumb, per, "thumb")
                mon.count("thumb_boundary")


def data(case, rng, mon):
    n = int(rng.integers(2, 6)) if rng.random() < 0.9 else int(rng.integers(7, 11))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 4 if n < 4 else (3 if n < 7 else 2)))
    names = gen.labels(rng, n)
    trajs = c11.make_data(rng, n, cards) if n < 7 else [gen.raw_trajectory(rng, cards, 1500)]
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, ignore=rng if rng.random() < 0.2 else None)
    mon.count("ignored_variables", sp.total_variables_count > n)
    trans = ref.transitions(trajs)
    for _ in range(3):
        a, b, th = c11.settings(rng)
        c = ref.CTPC(trans, cards, a, b, th)
        for _ in range(8):
            child, parent = (int(v) for v in rng.permutation(n)[:2])
            sep = [x for x in range(n) if x not in (child, parent) and rng.random() < 0.4]
            sep = [sep[int(i)] for i in rng.permutation(len(sep))]
            try:
                want = {c.complete(parent, child, list(sep), o)[0] for o in (1, -1)}
            except ref.Near:
                continue
            with gen.quiet(), np.errstate(all="ignore"):
                got = bool(estimator(sp, a, b, th).complete_test(names[parent], names[child], [names[s] for s in sep], cards[child], sp.total_variables_count,
                                                                       sp.structure.get_node_indx(names[parent]), sp.structure.get_node_indx(names[child])))
            mon.check(got in want, "a test on data does not follow the documented rule", key="data", child=child, parent=parent, conditioning=sep, cards=cards,
                      alfas=(a, b), threshold=th)
            mon.count("data_tests")
            mon.seen("data", case["i"], child, parent, tuple(sorted(sep)), a, b, th)
