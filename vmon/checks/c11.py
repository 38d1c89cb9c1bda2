"""Constraint-based estimation against a reference CTPC over the raw trajectories."""
import itertools

import numpy as np

from .. import gen, ref

ID = "C11"
RULE = ("one_iteration_of_CTPC_algorithm for every node and estimate_structure on random data (simulated networks with weak to strong "
        "dependences, arbitrary rows, few and many samples, binary and larger cardinalities so that the rule of thumb bites or does not), "
        "random significance levels (1e-12 to 0.9), thresholds (0 to 1000), known edges and prior structures, against a reference "
        "CTPC working on the raw rows. Searches in which rounding, or which of several failing tests comes first, could decide are "
        "skipped and counted. Some networks have dependences that only sets of two or three other variables explain, and tests that lack data "
        "given one of them but not given others. Non-trivial: at least one edge removed by a conditioning set of one or more variables, or kept by the rule "
        "of thumb, or known; distinct by data and settings.")
FLOORS = {"node_searches": 500, "edges_removed": 400, "edges_kept": 400, "removed_conditionally": 40, "kept_by_thumb": 30, "known_kept": 20, "networks": 60, "justified": 40, "mediated": 16, "scarce": 3, "ignored_variables": 15, "thumb_decides": 5, "large_separating_sets": 1}


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"kind": "mediated", "i": i} for i in range(20 * k)] + [{"kind": "wide", "i": i} for i in range(12 * k)] + [{"kind": "random", "i": i} for i in range(200 * k)]


def make_data(rng, n, cards):
    style = int(rng.integers(5))
    if style >= 3:                                      # chains and hubs with strong effects: conditional independences
        order = [int(i) for i in rng.permutation(n)]
        parents = [[] for _ in range(n)]
        for k in range(1, n):
            parents[order[k]] = sorted({order[k - 1]} if style == 3 else {order[int(rng.integers(k))]} | ({order[0]} if rng.random() < 0.3 else set()))
        cims = []
        for i in range(n):
            d = {}
            for u in itertools.product(*[range(cards[p]) for p in parents[i]]):
                q = np.zeros((cards[i], cards[i]))
                for x in range(cards[i]):
                    fav = sum(u) % cards[i]                 # the child follows its parents
                    for y in range(cards[i]):
                        q[x, y] = 0.0 if x == y else ((4.0 if y == fav else 0.3) if u else 0.5) * (0.9 + 0.2 * rng.random())
                    q[x, x] = -q[x].sum()
                d[u] = q
            cims.append(d)
        return [gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([400, 1500, 3000])))]
    if style == 2:
        return [gen.raw_trajectory(rng, cards, int(rng.choice([10, 60, 300]))) for _ in range(int(rng.integers(1, 4)))]
    parents = gen.random_parents(rng, n, float(rng.choice([0.0, 0.3, 0.6])), 3)
    spread = 20.0 if style else 3.0
    cims = gen.random_cims(rng, cards, parents, 0.3, 0.3 * spread)
    return [gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([60, 400, 1500]))) for _ in range(int(rng.integers(1, 3)))]


def relabelled(rng, cards, parents, cims):
    """The same network with its nodes in another order, and the new position of each node."""
    order = [int(i) for i in rng.permutation(len(cards))]
    inv = {o: i for i, o in enumerate(order)}
    cims2 = []
    for o in order:
        d = {}
        for u, q in cims[o].items():
            back = dict(zip([inv[p] for p in parents[o]], u))
            d[tuple(back[p] for p in sorted(back))] = q
        cims2.append(d)
    return [cards[o] for o in order], [sorted(inv[p] for p in parents[o]) for o in order], cims2, inv


def network(cards, parents, rate):
    """CIMs with the rates rate(node, parents' values, from, to)."""
    cims = []
    for i in range(len(cards)):
        d = {}
        for u in itertools.product(*[range(cards[p]) for p in parents[i]]):
            q = np.array([[0.0 if x == z else rate(i, u, x, z) for z in range(cards[i])] for x in range(cards[i])])
            q[np.arange(cards[i]), np.arange(cards[i])] = -q.sum(axis=1)
            d[u] = q
        cims.append(d)
    return cims


def mediated(rng, m):
    """(cards, trajs): node 0 acts on the last node only through m noisy copies, so that only all of them separate the two."""
    n = m + 2
    cards = [2] * n
    parents = [[]] + [[0]] * m + [list(range(1, m + 1))]
    noise = rng.uniform(3.5, 5.5)

    def rate(i, u, x, z):
        if i == 0:
            return 0.1
        if i <= m:
            return 0.5 * (noise if z == u[0] else 1.0)
        return 2.0 * 2.5 ** sum(u)

    cards, parents, cims, _ = relabelled(rng, cards, parents, network(cards, parents, rate))
    return cards, [gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([12000, 20000])))]


def many_states(rng):
    """(cards, trajs): two variables of many states act on the last two nodes, which only both of them together separate."""
    c = 9
    cards, parents = [c, c, 2, 2], [[], [], [0, 1], [0, 1]]

    def rate(i, u, x, z):
        if i < 2:
            return 1.0 / (c - 1)
        high = min(u) >= c // 2
        if i == 2:
            return 20.0 if high else 2.0
        return 6.0 if (z == 1) == high else 1.5

    cards, parents, cims, _ = relabelled(rng, cards, parents, network(cards, parents, rate))
    return cards, [gen.simulate(rng, cards, parents, cims, transitions=40000)]


def undersampled(rng):
    """(cards, trajs, threshold): node 0 acts on the last one only through two noisy copies; another parent of the last one has many
    states, and the threshold lies between the data given any of these and the data given both copies."""
    c = int(rng.integers(12, 19))
    cards = [2, 2, 2, c, 3]
    parents = [[], [0], [0], [], [1, 2, 3]]
    noise = rng.uniform(3.5, 5.5)
    weights = rng.uniform(0.8, 1.2, c)

    def rate(i, u, x, z):
        if i == 0:
            return 0.1
        if i <= 2:
            return 0.5 * (noise if z == u[0] else 1.0)
        if i == 3:
            return 4.0 / c * weights[z]
        return 1.5 * 2.5 ** (u[0] + u[1]) * (1.0, 1.7)[u[2] % 2]

    cards, parents, cims, pos = relabelled(rng, cards, parents, network(cards, parents, rate))
    tr = gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([15000, 25000])))
    trans = ref.transitions([tr])
    y = pos[4]

    def data(sep, pick):
        return pick(sum(M[x][x] for x in range(3)) for T, M in ref.stats(trans, y, sorted(sep), cards).values()) / (4.0 * 2 * float(np.prod([cards[p] for p in sep])))

    return cards, [tr], float((max(data([pos[3]], max), 0.01) * max(data([pos[1], pos[2]], min), 0.01)) ** 0.5)


def marked(rng):
    """(cards, trajs, threshold, edge): the edge lacks the data the rule of thumb requires given a parent with many states, is marked for it, and
    then removed by another set of the same size."""
    while True:
        c = int(rng.integers(10, 16))
        cards, parents = [2, 2, c, 3], [[], [0], [], [1, 2]]
        noise = rng.uniform(3.5, 5.5)
        weights = rng.uniform(0.8, 1.2, c)

        def rate(i, u, x, z):
            if i == 0:
                return 0.1
            if i == 1:
                return 0.5 * (noise if z == u[0] else 1.0)
            if i == 2:
                return 4.0 / c * weights[z]
            return 1.5 * 5.0 ** u[0] * (1.0, 2.5)[u[1] % 2]

        cards, parents, cims, pos = relabelled(rng, cards, parents, network(cards, parents, rate))
        if pos[2] < pos[1]:
            break
    tr = gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([8000, 15000])))
    trans = ref.transitions([tr])

    def data(sep, pick):
        return pick(sum(M[x][x] for x in range(3)) for T, M in ref.stats(trans, pos[3], sep, cards).values()) / (4.0 * 2 * float(np.prod([cards[p] for p in sep])))

    return cards, [tr], float((max(data([pos[2]], max), 0.01) * max(data([pos[1]], min), 0.01)) ** 0.5), (pos[0], pos[3])


def scarce(rng):
    """(cards, trajs, threshold): node 0 acts on the last one only through two or three noisy copies of the same cardinality, and there is not
    quite the data that the test given all of them requires."""
    m = int(rng.choice([2, 2, 3]))
    n = m + 2
    cards, parents = [2] * (m + 1) + [3], [[]] + [[0]] * m + [list(range(1, m + 1))]
    noise = rng.uniform(2.5, 4.0)

    def rate(i, u, x, z):
        if i == 0:
            return 0.1
        if i <= m:
            return 0.5 * (noise if z == u[0] else 1.0)
        return 1.5 * 2.5 ** sum(u)

    cards, parents, cims, pos = relabelled(rng, cards, parents, network(cards, parents, rate))
    tr = gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([15000, 25000])))
    sep = sorted(pos[i] for i in range(1, m + 1))
    data = min(sum(M[x][x] for x in range(3)) for T, M in ref.stats(ref.transitions([tr]), pos[n - 1], sep, cards).values()) / (4.0 * 2 * 2 ** m)
    return cards, [tr], float(data * rng.uniform(1.2, 1.7))


def settings(rng):
    small = [0.1, 0.05, 0.01, 1e-4, 1e-8]
    a = float(rng.choice(small)) if rng.random() < 0.8 else float(rng.choice([1e-12, 0.5, 0.9]))
    b = float(rng.choice(small)) if rng.random() < 0.8 else float(rng.choice([1e-12, 0.5, 0.9]))
    th = int(rng.choice([25, 25, 0, 1, 5, 1000])) if rng.random() < 0.9 else float(rng.random() * 20)
    return a, b, th


def expected(trans, cards, a, b, th, known, node):
    """(parents, removed: {parent: separating set}, kept by the rule of thumb) or None when undecided."""
    out = []
    for order in (1, -1):
        r = ref.CTPC(trans, cards, a, b, th, known)
        try:
            u, removed = r.parents_of(node, order)
        except ref.Near:
            return None
        out.append((u, removed, sorted(r.last_kept), r))
    if out[0][0] != out[1][0]:
        return None
    return out[0]


def run(case, rng, mon):
    from PyCTBN import StructureConstraintBasedEstimator
    n = int(rng.integers(1, 6)) if rng.random() < 0.9 else 6
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 2 if n == 6 or rng.random() < 0.4 else (4 if n < 5 else 3)))
    special = None
    if case["kind"] == "mediated":
        if case["i"] % 2:
            cards, trajs, special = undersampled(rng) if case["i"] % 4 == 1 else scarce(rng)
            mon.count("scarce", case["i"] % 4 == 3)
        elif case["i"] % 4 == 2:
            cards, trajs = many_states(rng)
        else:
            cards, trajs = mediated(rng, 2 + case["i"] // 2 % 3)
        n = len(cards)
    elif case["kind"] == "wide":
        n = int(rng.integers(7, 11))
        cards = gen.cardinalities(rng, n, 2, 2)
        parents = gen.random_parents(rng, n, 1.5 / n, 2)
        trajs = [gen.simulate(rng, cards, parents, gen.random_cims(rng, cards, parents, 0.3, 4.0), transitions=int(rng.choice([400, 1200, 2500])))]
    else:
        trajs = make_data(rng, n, cards)
    names = gen.labels(rng, n)
    trans = ref.transitions(trajs)
    known = [(a, b) for a in range(n) for b in range(n) if a != b and rng.random() < rng.choice([0.0, 0.15])]
    prior = [(x, y) for x in names for y in names if x != y and rng.random() < 0.3] if rng.random() < 0.4 else []
    memo_ref = {}
    ignore = rng if rng.random() < 0.15 else None
    mon.count("ignored_variables", ignore is not None)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, prior, ignore=ignore)
    for rep in range(2):
        a, b, th = settings(rng)
        if case["kind"] == "mediated":
            a, b = float(rng.choice([1e-2, 1e-3])), float(rng.choice([1e-3, 1e-4]))
            if case["i"] % 4 == 2:
                a, b = 1e-6, 1e-6
            th = special if special is not None else 25
            mon.count("mediated")
        if case["kind"] == "wide":
            a, b = float(rng.choice([0.05, 1e-2, 1e-3])), float(rng.choice([0.05, 1e-2, 1e-3]))
            mon.count("wide")
        kw = {"known_edges": [(names[p], names[c]) for p, c in known]} if known or rng.random() < 0.5 else {}
        if th != 25 or rng.random() < 0.5:
            kw["thumb_threshold"] = th
        with gen.quiet():
            est = StructureConstraintBasedEstimator(sp, a, b, **kw)
            edges = est.estimate_structure(disable_multiprocessing=True)
        edges = [(str(x), str(y)) for x, y in edges]
        info = dict(names=names, cards=cards, alfas=(a, b), threshold=th, known=known, rows=len(trans))
        mon.check(len(set(edges)) == len(edges) and all(x in names and y in names and x != y for x, y in edges), "invalid edges", edges=edges, info=info)
        mon.count("networks")
        got_of = {i: sorted(names.index(x) for x, y in edges if y == names[i]) for i in range(n)}
        for p, c in known:
            mon.check(p in got_of[c], "a known edge is missing", key="known", edge=(p, c), got=got_of[c], info=info)
            mon.count("known_kept")
        for node in range(n):
            want = expected(trans, cards, a, b, th, known, node)
            if want is None:
                mon.count("undecided")
                justify(mon, trans, cards, a, b, th, known, node, got_of[node], info)
                continue
            mon.eq(got_of[node], sorted(want[0]), "not the parents CTPC prescribes", key="ctpc", node=node, separating=want[1], kept=want[2], info=info)
            mon.count("node_searches")
            mon.count("edges_removed", len(want[1]))
            mon.count("edges_kept", len(want[0]))
            cond = sum(1 for s in want[1].values() if s)
            mon.count("removed_conditionally", cond)
            mon.count("kept_by_thumb", len(want[2]))
            if want[2] and case["kind"] == "mediated":
                # would the search remove something if it forgot which tests lacked data?
                forget = ref.CTPC(trans, cards, a, b, th, known)
                forget.memo, forget.forgets = want[3].memo, True
                try:
                    mon.count("thumb_decides", forget.parents_of(node)[0] != want[0])
                except ref.Near:
                    pass
            mon.count("large_separating_sets", sum(1 for s in want[1].values() if np.prod([cards[p] for p in s]) > 60))
            mon.top("max_separating_set", max([len(s) for s in want[1].values()] or [0]))
            if cond or want[2] or any(c == node for _, c in known):
                mon.seen(case["i"], rep, node)
            justify(mon, trans, cards, a, b, th, known, node, got_of[node], info, want[3])
            if rng.random() < 0.3:
                with gen.quiet():
                    sp.structure.clean_structure_edges()
                    one = est.one_iteration_of_CTPC_algorithm(names[node], sp.total_variables_count)
                    for e in prior:
                        sp.structure.add_edge(e)
                one = [(str(x), str(y)) for x, y in one]
                mon.check(all(y == names[node] for _, y in one), "edges into another node", edges=one, info=info)
                mon.eq(sorted(names.index(x) for x, _ in one), sorted(want[0]), "one iteration does not give the parents CTPC prescribes", key="ctpc", node=node, info=info)
                mon.count("node_searches")
    mon.sample(dict(info, edges=edges))


def justify(mon, trans, cards, a, b, th, known, node, got, info, r=None):
    """Every missing edge has a set of other nodes for which the tests accept independence."""
    r = r or ref.CTPC(trans, cards, a, b, th, known)
    for p in range(len(cards)):
        if p == node or p in got:
            continue
        others = [x for x in range(len(cards)) if x not in (p, node)]
        found = False
        for size in range(len(others) + 1):
            for sep in itertools.combinations(others, size):
                try:
                    found = r.complete(p, node, list(sep))[0]
                except ref.Near:
                    found = True
                if found:
                    break
            if found:
                break
        mon.check(found, "an edge is missing although no set separates its ends", key="unjustified", edge=(p, node), info=info)
        mon.count("justified")
