"""Parent assignments, their CIMs, selection by mask, and coefficients."""
import itertools
import math

import numpy as np

from .. import gen, ref
from . import c01

ID = "C02"
RULE = ("(a) Every multiset of up to 4 parent cardinalities from 2-4 and random ones up to 12 in every order: the enumeration of "
        "assignments is compared with the Cartesian product. (b) Random data: the CIM listed at each assignment is compared with the "
        "statistics counted under that assignment, coefficients included. (c) Random masks and partial assignments on sets of CIMs "
        "with recognisable content. (d) Random hand-made statistics through the coefficient formula. Non-trivial: at least two "
        "assignments (a-c), some transitions (d); distinct by cardinalities, mask, assignment, statistics.")
FLOORS = {"enumerations": 150, "assignments_matched": 1000, "mask_queries": 500, "coefficient_cells": 2000, "many_states": 5, "real_counts": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "enum", "cards": list(c)} for m in range(0, 5) for c in itertools.product((2, 3, 4), repeat=m)]
    out += [{"kind": "enum", "cards": None, "i": i} for i in range(60 * k)]
    out += [{"kind": "enum", "cards": c} for c in ([130], [200, 2], [2, 140], [300], [260, 3], [3, 2, 129], [190, 180], [2] * 12)]
    out += [{"kind": "data", "i": i} for i in range(100 * k)]
    out += [{"kind": "mask", "i": i} for i in range(100 * k)]
    out += [{"kind": "coef", "i": i} for i in range(100 * k)]
    return out


def graph_with_parents(rng, cards):
    """A node with parents of the given cardinalities; edges listed in random order, other edges present."""
    n = len(cards) + 1
    names = gen.labels(rng, n)
    pos = int(rng.integers(n))
    child_card = int(rng.integers(2, 5))
    allc = list(cards)
    allc.insert(pos, child_card)
    edges = [(names[i], names[pos]) for i in range(n) if i != pos]
    edges += [(names[a], names[b]) for a in range(n) for b in range(n) if a != b and b != pos and rng.random() < 0.3]
    edges = [edges[i] for i in rng.permutation(len(edges))]
    return gen.node_graph(names, allc, edges), names, allc, pos


def run(case, rng, mon):
    getattr(__import__(__name__, fromlist=["x"]), "run_" + case["kind"])(case, rng, mon)


def run_enum(case, rng, mon):
    from PyCTBN import NetworkGraph
    cards = case["cards"]
    if cards is None:
        cards = [int(rng.integers(2, 13)) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < 0.4:
            cards = [int(rng.integers(2, 4)) for _ in range(int(rng.integers(4, 9)))]
        cards = gen.constant(rng, cards, 0.3)
    want = set(itertools.product(*[range(c) for c in cards]))
    direct = np.asarray(NetworkGraph.build_p_comb_structure_for_a_node(list(cards)))
    g, names, allc, pos = graph_with_parents(rng, cards)
    g.fast_init(names[pos])
    for how, combs in (("static", direct), ("graph", np.asarray(g.p_combs))):
        mon.eq(combs.shape, (len(want), len(cards)), "wrong shape of the assignments", cards=cards, how=how)
        rows = [tuple(int(v) for v in r) for r in combs]
        mon.check(all(float(v) == int(v) for r in combs for v in r), "assignments are not integers", cards=cards)
        mon.check(set(rows) == want, "assignments do not enumerate the parent states", cards=cards, how=how, rows=rows[:40])
        mon.check(len(rows) == len(set(rows)), "an assignment is repeated", cards=cards, how=how)
        mon.count("enumerations")
    labels, idx, vals = g.get_ordered_by_indx_set_of_parents(names[pos])
    mon.eq(list(labels), [x for i, x in enumerate(names) if i != pos], "parents not in the order of the variables")
    mon.eq([int(v) for v in vals], list(cards), "parent cardinalities not in the order of the variables")
    mon.eq([int(v) for v in idx], [i for i in range(len(names)) if i != pos], "parent indexes not in the order of the variables")
    if len(want) > 1:
        mon.seen("enum", cards)
    mon.sample({"cards": cards, "assignments": len(want)})


def check_coefficients(mon, c, k, info):
    T = [float(v) for v in np.asarray(c.state_residence_times)]
    M = [[float(v) for v in r] for r in np.asarray(c.state_transition_matrix)]
    want = ref.cim(T, M)
    got = np.asarray(c.cim)
    mon.eq(got.shape, (k, k), "CIM of the wrong shape", info=info)
    for x in range(k):
        for y in range(k):
            mon.check(math.isclose(float(got[x, y]), want[x][y], rel_tol=1e-12, abs_tol=1e-300), "CIM coefficient is not the documented one",
                      key="coefficient", cell=(x, y), got=float(got[x, y]), want=want[x][y], T=T, M=M, info=info)
    mon.count("coefficient_cells", k * k)


def run_data(case, rng, mon):
    n = int(rng.integers(2, 7))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 5))
    if case["i"] % 12 == 0:                                # one variable of very many states
        cards = [2] * n
        cards[int(rng.integers(n))] = int(rng.integers(129, 301))
        mon.count("many_states")
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.integers(20, 200))) for _ in range(int(rng.integers(1, 4)))]
    sp = gen.sample_path(trajs, names, cards)
    trans = ref.transitions(trajs)
    total = math.fsum(t[0] for t in trans)
    for node in range(n):
        for parents in c01.parent_sets(rng, n, node, cards, 2, 600):
            sofc = gen.node_sofc(sp, names, cards, node, parents, rng)
            want = ref.stats(trans, node, parents, cards)
            mon.eq(len(sofc.actual_cims), len(want), "wrong number of CIMs", cards=cards)
            mon.eq(sofc.get_cims_number(), len(want), "wrong number of CIMs reported", cards=cards)
            for i, u in enumerate(np.asarray(sofc.p_combs)):
                u = tuple(int(v) for v in u)
                c = sofc.actual_cims[i]
                T, M = want[u]
                info = dict(node=node, parents=parents, cards=cards, assignment=u)
                mon.check(all(c01.same_time(a, b, total) for a, b in zip(c.state_residence_times, T)) and
                          np.array_equal(np.asarray(c.state_transition_matrix), np.array(M)),
                          "the CIM listed at an assignment was not estimated under it", key="association", got=(c.state_residence_times, c.state_transition_matrix), want=(T, M), info=info)
                mon.count("assignments_matched")
                check_coefficients(mon, c, cards[node], info)
            if len(want) > 1:
                mon.seen("data", node, parents, cards, case["i"])
            # selection on estimated sets: the matrices compatible with a partial assignment
            if len(parents) >= 2:
                for _ in range(3):
                    query(mon, rng, sofc, [cards[p] for p in parents], dict(cards=cards, node=node, parents=parents))


def query(mon, rng, sofc, pc, info):
    m = len(pc)
    mask = rng.random(m) < 0.6
    if rng.random() < 0.3:                 # the complement of one parent, as the independence tests ask
        mask = np.ones(m, dtype=bool)
        mask[int(rng.integers(m))] = False
    comb = [int(rng.integers(c)) for c, keep in zip(pc, mask) if keep]
    arg = np.array(comb, dtype=int) if rng.random() < 0.5 else list(comb)
    got = list(sofc.filter_cims_with_mask(np.array(mask), arg))
    want = [i for i, u in enumerate(np.asarray(sofc.p_combs)) if [int(v) for v, keep in zip(u, mask) if keep] == comb]
    cims = list(sofc.actual_cims)
    mon.check(len(got) == len(want) and all(a is cims[i] for a, i in zip(got, want)), "selection by mask returns other matrices",
              key="mask", mask=mask, comb=comb, want=want, got=[next((i for i, c in enumerate(cims) if c is x), None) for x in got], info=info)
    mon.count("mask_queries")
    mon.seen("mask", pc, list(mask), comb)


def run_mask(case, rng, mon):
    from PyCTBN import ConditionalIntensityMatrix, NetworkGraph, SetOfCims
    m = int(rng.integers(2, 6))
    pc = [int(rng.integers(2, 5 if m < 4 else 4)) for _ in range(m)]
    if m == 2 and rng.random() < 0.3:
        pc = [int(rng.integers(9, 14)), int(rng.integers(2, 13))]
    combs = NetworkGraph.build_p_comb_structure_for_a_node(pc)
    k = int(rng.integers(2, 4))
    mats = [ConditionalIntensityMatrix(cim=np.full((k, k), float(i))) for i in range(len(combs))]
    arr = np.empty(len(mats), dtype=object)
    arr[:] = mats
    sofc = SetOfCims(node_id="n", parents_states_number=pc, node_states_number=k, p_combs=combs, cims=arr if rng.random() < 0.5 else mats)
    for _ in range(10):
        query(mon, rng, sofc, pc, dict(parents=pc))
    mon.sample({"parents": pc, "assignments": len(combs)})


def run_coef(case, rng, mon):
    from PyCTBN import ConditionalIntensityMatrix, SetOfCims
    k = int(rng.integers(1, 9))
    m = int(rng.integers(1, 6))
    scale = 10.0 ** rng.integers(-4, 7)
    T = rng.exponential(scale, (m, k)) * (rng.random((m, k)) < 0.85)
    top = int(rng.choice([2, 30, 10 ** 6]))
    M = rng.integers(0, top, (m, k, k)) * (rng.random((m, k, k)) < 0.8)
    if rng.random() < 0.3:                                 # counts given as real numbers
        M = M.astype(float)
        mon.count("real_counts")
    for j in range(m):
        np.fill_diagonal(M[j], 0)
        np.fill_diagonal(M[j], M[j].sum(axis=1))
    if rng.random() < 0.5:
        sofc = SetOfCims("n", [m] if m > 1 else [], k, np.arange(m).reshape(-1, 1) if m > 1 else np.array([[]], dtype=int))
        sofc.build_cims(T.copy(), M.copy())
        objs = list(sofc.actual_cims)
        mon.eq(len(objs), m, "wrong number of CIMs built")
    else:
        objs = []
        for j in range(m):
            c = ConditionalIntensityMatrix(state_residence_times=T[j].copy(), state_transition_matrix=M[j].copy())
            c.compute_cim_coefficients()
            objs.append(c)
    for j, c in enumerate(objs):
        mon.check(np.array_equal(np.asarray(c.state_residence_times), T[j]) and np.array_equal(np.asarray(c.state_transition_matrix), M[j]),
                  "building the coefficients changed the statistics", T=T[j], M=M[j], got=(c.state_residence_times, c.state_transition_matrix))
        check_coefficients(mon, c, k, dict(kind="hand-made"))
        if M[j].any():
            mon.seen("coef", T[j].tolist(), M[j].tolist())
