"""The family score against the closed form, part by part and end to end."""
import math

import numpy as np

from .. import gen, ref

ID = "C09"
RULE = ("FamScoreCalculator on CIMs with random statistics (cardinalities 2-8, 1-64 assignments, counts from 0 to 10^6, times from 0 to "
        "10^6, also impossible-looking ones) and random hyperparameters over eight orders of magnitude; and "
        "StructureScoreBasedEstimator.get_score_from_graph on random data for random parent sets against the score of the raw "
        "rows. Non-trivial: at least one transition; distinct by statistics and hyperparameters.")
FLOORS = {"scores": 400, "parts": 2000, "estimator_scores": 300, "estimators": 30, "more_assignments_than_rows": 20}
TOL = 1e-9


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": "calculator", "i": i} for i in range(120 * k)] + [{"kind": "estimator", "i": i} for i in range(80 * k)]


def hyper(rng):
    r = rng.random()
    if r < 0.2:
        return 0.1, 1
    if r < 0.4:
        return float(rng.integers(1, 9)), int(rng.integers(1, 9))
    return float(10 ** rng.uniform(-5, 3)), float(10 ** rng.uniform(-3, 3))


def run(case, rng, mon):
    (calculator if case["kind"] == "calculator" else estimator)(case, rng, mon)


def terms(st, tau, alpha):
    """Sums of the q and theta parts and the sum of the magnitudes of the terms (for the tolerance)."""
    lg = math.lgamma
    q, th, mag = [], [], 0.0
    for T, M in st:
        k = len(T)
        axx = alpha / max(k - 1, 1)
        for x in range(k):
            m = M[x][x]
            a = [lg(alpha + m + 1), -lg(alpha + 1), (alpha + 1) * math.log(tau), -(alpha + m + 1) * math.log(tau + T[x])]
            b = [lg(alpha), -lg(alpha + m)]
            for y in range(k):
                if y != x:
                    b += [lg(axx + M[x][y]), -lg(axx)]
            q.append(math.fsum(a))
            th.append(math.fsum(b))
            mag += math.fsum(abs(v) for v in a + b)
    return q, th, mag


def near(got, want, mag):
    return abs(float(np.real(got)) - want) <= TOL * max(1.0, mag) and abs(float(np.imag(got))) <= 1e-12


def calculator(case, rng, mon):
    from PyCTBN import ConditionalIntensityMatrix, FamScoreCalculator
    k = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 8]))
    combs = int(rng.choice([1, 2, 3, 4, 6, 12, 64]))
    st, cims = [], []
    tmax, mmax = float(10.0 ** rng.integers(-2, 7)), int(10 ** rng.integers(0, 7))
    for _ in range(combs):
        T = rng.random(k) * tmax
        T[rng.random(k) < 0.15] = 0.0
        M = rng.integers(0, mmax + 1, (k, k))
        M[rng.random((k, k)) < 0.2] = 0
        np.fill_diagonal(M, 0)
        np.fill_diagonal(M, M.sum(axis=1))
        if rng.random() < 0.1:
            M[:], T[:] = 0, 0.0
        st.append((T.tolist(), M.tolist()))
        cims.append(ConditionalIntensityMatrix(state_residence_times=T.copy(), state_transition_matrix=M.copy()))
    arr = np.empty(combs, dtype=object)
    arr[:] = cims
    calc = FamScoreCalculator()
    for _ in range(4):
        tau, alpha = hyper(rng)
        q, th, mag = terms(st, tau, alpha)
        info = dict(k=k, combs=combs, tau=tau, alpha=alpha)
        got = calc.get_fam_score(arr, tau_xu=tau, alpha_xu=alpha)
        mon.check(near(got, math.fsum(q) + math.fsum(th), mag), "the family score is not the marginal likelihood", key="score", got=got,
                  want=math.fsum(q) + math.fsum(th), info=info)
        if tau == 0.1 and alpha == 1:
            mon.check(near(calc.get_fam_score(arr), math.fsum(q) + math.fsum(th), mag), "wrong default hyperparameters", key="score", info=info)
        axx = alpha / max(k - 1, 1)
        mon.check(near(calc.marginal_likelihood_q(arr, tau, alpha), math.fsum(q), mag), "wrong q part", key="q", info=info)
        mon.check(near(calc.marginal_likelihood_theta(arr, alpha, axx), math.fsum(th), mag), "wrong theta part", key="theta", info=info)
        c = int(rng.integers(combs))
        mon.check(near(calc.variable_cim_xu_marginal_likelihood_q(cims[c], tau, alpha), math.fsum(q[c * k:(c + 1) * k]), mag), "wrong q part of a matrix", key="q", info=info)
        mon.check(near(calc.variable_cim_xu_marginal_likelihood_theta(cims[c], alpha, axx), math.fsum(th[c * k:(c + 1) * k]), mag), "wrong theta part of a matrix", key="theta", info=info)
        x = int(rng.integers(k))
        mon.check(near(calc.single_cim_xu_marginal_likelihood_q(st[c][1][x][x], st[c][0][x], tau, alpha), q[c * k + x], mag), "wrong q term", key="q", info=info)
        mon.check(near(calc.single_cim_xu_marginal_likelihood_theta(x, cims[c], alpha, axx), th[c * k + x], mag), "wrong theta term", key="theta", info=info)
        mon.count("scores")
        mon.count("parts", 6)
        if any(M[y][y] for _, M in st for y in range(k)):
            mon.seen(case["i"], tau, alpha)
    for (T, M), c in zip(st, cims):
        mon.check(np.array_equal(c.state_transition_matrix, M) and np.array_equal(c.state_residence_times, T), "scoring changed the statistics")
    mon.sample(dict(info, score=float(np.real(got))))


def estimator(case, rng, mon):
    from PyCTBN import NetworkGraph, StructureScoreBasedEstimator
    large = case["i"] % 8 == 7                         # more assignments than rows
    n = int(rng.integers(5, 8)) if large else int(rng.integers(2, 7))
    cards = [int(rng.integers(4, 7)) for _ in range(n)] if large else gen.constant(rng, gen.cardinalities(rng, n, 2, 4 if n > 4 else 5))
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([3, 20, 120])), scale=float(10.0 ** rng.integers(-2, 3))) for _ in range(int(rng.integers(1, 5)))]
    trans = ref.transitions(trajs)
    edges = [(a, b) for a in names for b in names if a != b and rng.random() < 0.2]
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, edges)
        sp.structure.clean_structure_edges()           # as the searches do: a graph includes the edges of its structure
        ests = [(0.1, 1, StructureScoreBasedEstimator(sp))]
        for _ in range(2):
            tau, alpha = hyper(rng)
            ests.append((tau, alpha, StructureScoreBasedEstimator(sp, tau_xu=tau, alpha_xu=alpha)))
            mon.count("estimators")
        for _ in range(12):
            node = int(rng.integers(n))
            parents = [p for p in range(n) if p != node and rng.random() < (0.8 if large else 0.45)][:4]
            parents = [parents[i] for i in rng.permutation(len(parents))]
            tau, alpha, est = ests[int(rng.integers(len(ests)))]
            g = NetworkGraph(sp.structure)
            if rng.random() < 0.3:                                 # edges into other nodes do not matter
                other = [i for i in range(n) if i != node][0]
                g.add_edges([(names[node], names[other])])
            g.add_edges([(names[p], names[node]) for p in parents])
            mon.count("more_assignments_than_rows", math.prod([cards[p] for p in parents]) > max(256, len(trans)))
            st = ref.stats(trans, node, sorted(parents), cards)
            q, th, mag = terms(list(st.values()), tau, alpha)
            want = math.fsum(q) + math.fsum(th)
            mon.check(abs(want - ref.fam_score(st, tau, alpha)) <= 1e-9 * max(1, mag), "the two references disagree")
            got = est.get_score_from_graph(g, names[node])
            info = dict(names=names, cards=cards, node=node, parents=parents, tau=tau, alpha=alpha)
            mon.check(near(got, want, mag), "the estimator does not score a graph with the marginal likelihood", key="estimator", got=got, want=want, info=info)
            # after an edit the same graph object scores the new parent set
            if parents and rng.random() < 0.5:
                p = parents[0]
                g.remove_edges([(names[p], names[node])])
                st = ref.stats(trans, node, sorted(parents[1:]), cards)
                mon.check(near(est.get_score_from_graph(g, names[node]), ref.fam_score(st, tau, alpha), mag), "wrong score after an edge was removed", key="estimator", info=info)
                mon.count("estimator_scores")
            mon.count("estimator_scores")
            mon.seen("e", case["i"], node, tuple(sorted(parents)), tau, alpha)
    mon.sample(dict(info, score=float(np.real(got)), rows=len(trans)))
