"""Generated networks: exact invariants of every one, pooled distribution of edges and draws."""
import itertools
import math

import numpy as np

from .. import gen, law

ID = "C05"
RULE = ("Networks generated for random label lists, 1-30 nodes, cardinalities 2-8 and some up to 30, densities (0, 1, random, exact fractions, impossible fractions) and "
        "bounds, with graphs regenerated on the same generator. Invariants on every network; edges pooled per ordered pair position, "
        "exit rates and rows pooled for freshness. Non-trivial: at least two nodes; distinct by labels, cardinalities and edges.")
FLOORS = {"graphs": 300, "cims": 1000, "fixed_graphs": 100, "refused_densities": 30, "free_graphs": 100, "rows_checked": 3000, "subsets_compared": 150, "wide": 18, "odd_bounds": 40, "fine_densities": 8}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "edges", "i": i} for i in range(16 * k)]
    out += [{"kind": "edges", "i": i, "wide": True, "fine": True} for i in range(8 * k)]
    out += [{"kind": "fixed", "i": i} for i in range(60 * k)]
    out += [{"kind": "network", "i": i} for i in range(150 * k)]
    out += [{"kind": "subsets", "i": i} for i in range(8 * k)]
    out += [{"kind": "bounds", "i": i} for i in range(24 * k)]
    out += [{"kind": kind, "i": i, "wide": True} for i in range(6 * k) for kind in ("edges", "fixed", "network", "network")]
    return out


def generator(rng, n=None, hi=5):
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = n or int(rng.integers(1, 10))
    names = gen.labels(rng, n)
    cards = gen.cardinalities(rng, n, 2, hi if n < 6 else 3)
    return NetworkGenerator(list(names), list(cards)), names, cards


def graph_edges(mon, ng, names, cards):
    """Invariants of the graph; returns its edges as indexes."""
    g = ng.graph
    mon.eq([str(x) for x in g.nodes], list(names), "the graph does not have the given nodes")
    mon.eq([int(v) for v in g.nodes_values], list(cards), "the graph does not have the given cardinalities")
    edges = [(str(a), str(b)) for a, b in g.edges]
    pos = {x: i for i, x in enumerate(names)}
    mon.check(all(a in pos and b in pos for a, b in edges), "edge between unknown nodes", edges=edges)
    mon.check(all(a != b for a, b in edges), "self-loop", edges=edges)
    mon.eq(len(set(edges)), len(edges), "repeated edge")
    table = ng.dyn_str
    mon.eq([str(c) for c in table.columns], ["From", "To"], "wrong columns of the table of edges")
    rows = [(str(a), str(b)) for a, b in table.values.tolist()]
    mon.eq(sorted(rows), sorted(edges), "the table of edges does not describe the graph", key="tables")
    var = ng.variables
    mon.eq([[str(a), int(b)] for a, b in var.values.tolist()], [[a, b] for a, b in zip(names, cards)], "the table of variables does not describe the network", key="tables")
    for x in names:
        mon.eq(sorted(str(p) for p in g.get_parents_by_id(x)), sorted(a for a, b in edges if b == x), "parents do not match the edges")
        mon.eq(int(g.get_states_number(x)), cards[pos[x]], "cardinality of a node")
    mon.count("graphs")
    return [(pos[a], pos[b]) for a, b in edges]


def check_cims(mon, ng, names, cards, edges, lo, hi):
    cims = ng.cims
    mon.eq(sorted(str(k) for k in cims), sorted(names), "CIMs are not those of the nodes")
    draws, rows_seen = [], {}
    for i, x in enumerate(names):
        ps = sorted(a for a, b in edges if b == i)
        want = math.prod([cards[p] for p in ps])
        combs = [tuple(int(v) for v in u) for u in np.asarray(cims[x].p_combs)]
        mats = list(cims[x].actual_cims)
        mon.eq((len(combs), len(mats), cims[x].get_cims_number()), (want, want, want), "not one CIM per assignment of the parents", key="assignments", cards=cards, parents=ps)
        mon.eq(len(set(combs)), want, "repeated assignment")
        mon.check(all(len(u) == len(ps) and all(0 <= v < cards[p] for v, p in zip(u, ps)) for u in combs), "assignments do not match the parents", combs=combs, parents=ps, cards=cards)
        for u, c in zip(combs, mats):
            q = np.asarray(c.cim, dtype=float)
            k = cards[i]
            mon.eq(q.shape, (k, k), "CIM is not square of the node's cardinality")
            mon.check(bool(np.isfinite(q).all()), "CIM with undefined entries", cim=q)
            for s in range(k):
                rate = -q[s, s]
                off = [q[s, y] for y in range(k) if y != s]
                mon.check(lo - 5.1e-5 <= rate <= hi + 5.1e-5, "exit rate outside the requested bounds", key="bounds", rate=rate, bounds=(lo, hi))
                mon.check(all(v >= 0 for v in off), "negative intensity", row=q[s])
                mon.check(abs(sum(off) - rate) <= 5.1e-5 * k, "row does not sum to zero", row=q[s])
                mon.count("rows_checked")
                if hi > lo:
                    draws.append((rate - lo) / (hi - lo))
                rows_seen.setdefault(tuple(q[s]), 0)
                rows_seen[tuple(q[s])] += 1
            mon.count("cims")
        check_fresh(mon, mats, lo, hi)
    return draws, rows_seen


def close_rows(a, i, b, j, lo):
    """Of rows i of a and j of b: (are the exit rates the same, are the jump probabilities to common states the same);
    None where that cannot be told."""
    ra, rb = -a[i, i], -b[j, j]
    same = abs(ra - rb) <= 1.1e-4
    common = [y for y in range(len(a)) if y not in (i, j)]
    if len(common) < 2 or min(ra, rb) < 0.4:
        return same, None
    pa, pb = a[i, common], b[j, common]
    if min(pa.sum(), pb.sum()) < 0.2:
        return same, None
    return same, bool(np.abs(pa / pa.sum() - pb / pb.sum()).max() <= 1e-3)


def check_fresh(mon, mats, lo, hi):
    """Coincidences between neighbouring rows of a matrix and between neighbouring matrices, pooled in finish."""
    mats = [np.asarray(c.cim, dtype=float) for c in mats[:40]]
    for kind, pairs in (("rows of one matrix", [(m, s, m, s + 1) for m in mats for s in range(len(m) - 1)]),
                        ("first and last rows", [(m, 0, m, len(m) - 1) for m in mats if len(m) > 2]),
                        ("matrices of one node", [(a, s, b, s) for a, b in zip(mats, mats[1:]) for s in range(len(a))])):
        for a, i, b, j in pairs:
            rate, jumps = close_rows(a, i, b, j, lo)
            mon.pool.append(("same", kind, hi - lo, rate, jumps))
            mon.count("row_pairs")
    # no state and no assignment is favoured: of two numbers drawn alike the first is the larger one in half the cases
    for m in mats:
        k = len(m)
        for s in range(k if k > 2 else 0):
            others = [y for y in range(k) if y != s]
            for what, y, z in (("first and last state", others[0], others[-1]), ("next and previous state", (s + 1) % k, (s - 1) % k)):
                if m[s, y] != m[s, z]:
                    mon.pool.append(("larger", what, bool(m[s, y] > m[s, z])))
    rates = [("rates of the first and the last state", m[0, 0], m[-1, -1]) for m in mats]
    if len(mats) > 1:
        rates.append(("rates of the first and the last assignment", mats[0][0, 0], mats[-1][0, 0]))
    for what, x, y in rates:
        if x != y:
            mon.pool.append(("larger", what, bool(x < y)))


def run(case, rng, mon):
    {"edges": run_edges, "fixed": run_fixed, "network": run_network, "subsets": run_subsets, "bounds": run_bounds}[case["kind"]](case, rng, mon)


def run_edges(case, rng, mon):
    """Many graphs of one size and density: every ordered pair is an independent coin of that bias."""
    n = int(rng.integers(12, 21)) if case.get("wide") else int(rng.integers(2, 6))
    p = float(rng.choice([0.1, 0.3, 0.5, 0.8]))
    if case.get("fine"):                          # densities with several digits; few edges in many pairs, or few missing
        n = int(rng.integers(25, 46))
        p = [0.004, 0.0155, float(10.0 ** rng.uniform(-3.0, -1.5)), 1 - 0.0045, 0.0625, 1 / 3.0, float(rng.random()), 0.145][case["i"] % 8]
        mon.count("fine_densities")
    ng, names, cards = generator(rng, n)
    reps = 60 if case.get("wide") else 400
    mon.count("wide", bool(case.get("wide")))
    per = {}
    counts = []
    both = 0
    for _ in range(reps):
        ng.generate_graph(p)
        e = graph_edges(mon, ng, names, cards)
        counts.append(len(e))
        for x in e:
            per[x] = per.get(x, 0) + 1
        s = set(e)
        both += sum(1 for a in range(n) for b in range(a) if (a, b) in s and (b, a) in s)
        mon.count("free_graphs")
    m = n * (n - 1)
    for a in range(n):
        for b in range(n):
            if a != b:
                mon.check(not law.unlikely_count(per.get((a, b), 0), reps, p), "an ordered pair is not connected with the requested probability",
                          key="density", pair=(a, b), count=per.get((a, b), 0), of=reps, density=p, n=n)
    mon.check(not law.unlikely_count(sum(counts), reps * m, p), "the density is not met on average", key="density", edges=sum(counts), of=reps * m, density=p)
    mon.check(not law.unlikely_count(both, reps * m // 2, p * p), "edges in opposite directions are not independent", key="density", both=both, of=reps * m // 2, density=p)
    mon.pool.append(("free", p, sum(counts), reps * m))
    mon.seen("edges", names, p, sum(counts))


def run_subsets(case, rng, mon):
    """Small graphs: every set of edges of one size is as likely as any other, and with a free density all are as independent coins give them."""
    from scipy.stats import chi2
    n, fixed = (3, case["i"] % 2 == 0) if case["i"] % 4 != 2 else (4, True)
    ng, names, cards = generator(rng, n)
    m = n * (n - 1)
    k = int(rng.integers(2, 5)) if n == 3 else int(rng.choice([2, 10]))
    p = float(rng.choice([0.3, 0.5, 0.6]))
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    likely = {frozenset(c): 1.0 / math.comb(m, k) for c in itertools.combinations(pairs, k)} if fixed else \
        {frozenset(c): p ** r * (1 - p) ** (m - r) for r in range(m + 1) for c in itertools.combinations(pairs, r)}
    reps = 1200
    seen = {}
    for _ in range(reps):
        ng.generate_graph(k / float(m) if fixed else p, fixed=fixed)
        e = frozenset(graph_edges(mon, ng, names, cards))
        seen[e] = seen.get(e, 0) + 1
        mon.count("fixed_graphs" if fixed else "free_graphs")
    mon.check(set(seen) <= set(likely), "a graph that cannot be", key="subsets", n=n, fixed=fixed)
    # sets of edges that are rare are taken together
    cells, rest = [], [0, 0.0]
    for e, q in likely.items():
        if reps * q >= 8:
            cells.append((seen.get(e, 0), reps * q))
        else:
            rest[0] += seen.get(e, 0)
            rest[1] += reps * q
    if rest[1] >= 8:
        cells.append(tuple(rest))
    stat = sum((o - x) ** 2 / x for o, x in cells)
    mon.check(stat <= chi2.isf(1e-13, len(cells) - 1), "some sets of edges are generated more often than others", key="subsets", n=n, fixed=fixed, edges=k if fixed else None, density=p,
              statistic=stat, cells=len(cells), distinct=len(seen), possible=len(likely))
    mon.count("subsets_compared", len(cells))
    mon.seen("subsets", names, len(seen))


def run_fixed(case, rng, mon):
    n = int(rng.integers(14, 31)) if case.get("wide") else int(rng.integers(2, 13))
    mon.count("wide", bool(case.get("wide")))
    ng, names, cards = generator(rng, n)
    m = n * (n - 1)
    first = {}
    for _ in range(12):
        k = int(rng.integers(0, m + 1))
        if rng.random() < 0.25:
            # half an edge cannot be had
            bad = (min(k, m - 1) + float(rng.choice([0.5, 0.1, 0.93]))) / m
            try:
                ng.generate_graph(bad, fixed=True)
            except RuntimeError:
                mon.count("refused_densities")
                mon.count("oracle_evaluations")
            else:
                mon.fail("a density that gives no whole number of edges is accepted", key="fixed", density=bad, nodes=n, edges=len(ng.graph.edges))
            continue
        density = k / float(m)
        if k == m and rng.random() < 0.5:
            density = 1
        elif k == 0 and rng.random() < 0.5:
            density = 0
        elif rng.random() < 0.3 and round(density, 12) * m - k == 0:
            density = round(density, 12)
        ng.generate_graph(density, fixed=True)
        e = graph_edges(mon, ng, names, cards)
        mon.eq(len(e), k, "a fixed density does not give exactly the requested edges", key="fixed", density=density, nodes=n)
        mon.count("fixed_graphs")
        for x in e:
            first[x] = first.get(x, 0) + 1
        mon.pool.append(("fixed", [((a < b), k / float(m)) for a, b in e], k, m, n))
        mon.seen("fixed", names, sorted(e))
    mon.sample({"nodes": n, "labels": names})


def run_bounds(case, rng, mon):
    """Narrow, large, tiny and odd bounds of the exit rates."""
    ng, names, cards = generator(rng, int(rng.integers(1, 4)), hi=12 if case["i"] % 2 else 5)
    ng.generate_graph(0.4)
    e = graph_edges(mon, ng, names, cards)
    for _ in range(3):
        lo = float(np.round(10.0 ** rng.uniform(-2.5, 3.5), int(rng.integers(0, 6)))) or 1.0
        width = float(np.round(lo * 10.0 ** rng.uniform(-4.0, 0.5), 5))
        hi = lo + width
        ng.generate_cims(lo, hi)
        draws, _ = check_cims(mon, ng, names, cards, e, lo, hi)
        mon.count("odd_bounds")
        if draws and width >= 0.02:
            # four decimals leave at least 200 values; under a uniform draw no tenth of many rates is left out
            mon.pool.append(("narrow", draws))
    mon.seen("bounds", names, cards, sorted(e), lo, hi)
    mon.sample({"names": names, "cards": cards, "edges": len(e), "bounds": (lo, hi)})


def run_network(case, rng, mon):
    wide = bool(case.get("wide"))
    if wide and rng.random() < 0.4:
        ng, names, cards = generator(rng, int(rng.integers(1, 3)), hi=30)
    elif wide:
        ng, names, cards = generator(rng, int(rng.integers(12, 31)))
    else:
        ng, names, cards = generator(rng, hi=8 if rng.random() < 0.2 else 4)
    mon.count("wide", wide)
    n = len(names)
    mon.check(ng.generate_cims(1, 2) is None and not ng.cims, "CIMs without a graph", got=ng.cims)
    for rep in range(2):
        how = int(rng.integers(5))
        density = [0, 1, float(rng.random()), 0.3, 0.0][how]
        if wide and n > 2:
            density = float(rng.choice([1.5, 3.0])) / n
        elif n > 6 and density > 0.4:
            density = 0.3
        ng.generate_graph(density)
        e = graph_edges(mon, ng, names, cards)
        if density == 0:
            mon.eq(e, [], "edges at density 0", key="density")
        if density == 1:
            mon.eq(len(e), n * (n - 1), "edges missing at density 1", key="density")
        mon.count("free_graphs")
        lo = float(rng.choice([0, 0.5, 3, 10])) if rng.random() < 0.7 else int(rng.integers(1, 5))
        width = float(rng.choice([0.5, 2, 20]))
        hi = lo + width
        if rng.random() < 0.1:
            lo, hi = 2, 2
        if max(math.prod([1] + [cards[a] for a, b in e if b == i]) for i in range(n)) > 5000:
            continue
        drawn = []
        for _ in range(2):
            ng.generate_cims(lo, hi)
            draws, rows = check_cims(mon, ng, names, cards, e, lo, hi)
            mon.eq(graph_edges(mon, ng, names, cards), e, "generating CIMs changed the graph")
            if hi > lo:
                # rows rounded to four decimals over a range of at least 0.5: equal ones must be rare
                total = sum(rows.values())
                repeats = total - len(rows)
                mon.check(not law.poisson_unlikely(repeats, total * total / 2.0 / (width * 1e4) + 1e-9) or repeats <= total * total / 2.0 / (width * 1e4) + 3,
                          "rows of the CIMs are not drawn afresh", key="fresh", rows=total, repeats=repeats, bounds=(lo, hi))
                wide = {r: c for r, c in rows.items() if len(r) > 2}
                # two intensities leave few enough possibilities for an accident (some 1e-4 in large networks), four do not happen; nor does one with more
                mon.check(sum(c - 1 for c in wide.values()) <= 3 and all(c == 1 or len(r) == 3 for r, c in wide.items()) or lo == 0,
                          "several rows of several intensities are the same", key="fresh", rows=[r for r, c in wide.items() if c > 1][:3])
                drawn.append(rows)
                mon.pool.append(("draws", draws))
        if len(drawn) == 2:
            total = sum(drawn[0].values())
            common = len(set(drawn[0]) & set(drawn[1]))
            mean = total * total / (width * 1e4)
            mon.check(common <= mean + 3 or not law.poisson_unlikely(common, mean), "generating again returns the same CIMs", key="fresh", common=common, rows=total)
        if n > 1:
            mon.seen("network", names, cards, sorted(e))
    mon.sample({"names": names, "cards": cards, "edges": len(e), "bounds": (lo, hi)})


def finish(pool, mon):
    # fixed density: an edge is as likely upwards as downwards in the order of the labels
    up = sum(1 for p in pool if p[0] == "fixed" for u, d in p[1] if u and d < 0.5)
    tot = sum(1 for p in pool if p[0] == "fixed" for u, d in p[1] if d < 0.5)
    mon.check(not law.unlikely_count(up, tot, 0.5), "fixed-density edges favour one direction", key="density", up=up, of=tot)
    # two independent rates agree to 1.1e-4 with probability 2.2e-4 / width at most for a uniform draw (a factor 10 for others)
    for kind in ("rows of one matrix", "first and last rows", "matrices of one node"):
        part = [p for p in pool if p[0] == "same" and p[1] == kind]
        rates = [p for p in part if p[2] > 0]
        got, mean = sum(p[3] for p in rates), sum(min(1.0, 2.2e-3 / p[2]) for p in rates)
        mon.check(got <= mean or not law.poisson_unlikely(got, mean), "exit rates are not drawn afresh", key="fresh", between=kind, equal=got, of=len(rates))
        jumps = [p for p in part if p[4] is not None]
        got, mean = sum(p[4] for p in jumps), 2e-2 * len(jumps)
        mon.check(got <= mean or not law.poisson_unlikely(got, mean), "intensities are not drawn afresh", key="fresh", between=kind, equal=got, of=len(jumps))
        mon.count("fresh_tests", 2)
    for kind in sorted({p[1] for p in pool if p[0] == "larger"}):
        part = [p[2] for p in pool if p[0] == "larger" and p[1] == kind]
        mon.check(not law.unlikely_count(sum(part), len(part), 0.5), "some states or assignments get larger intensities than others", key="fresh", between=kind,
                  first_larger=sum(part), of=len(part))
        mon.count("max_comparisons_of_one_kind", len(part))
    draws = sorted(x for p in pool if p[0] == "draws" for x in p[1])
    mon.count("exit_rates", len(draws))
    if len(draws) >= 1000:
        # only that they use the whole interval: no tenth of it is left out
        hist, _ = np.histogram(draws, bins=10, range=(0, 1))
        mon.check(int(hist.min()) > 0, "exit rates do not spread over the requested interval", key="bounds", histogram=hist.tolist())
    narrow = [x for p in pool if p[0] == "narrow" for x in p[1]]
    mon.count("exit_rates_in_narrow_bounds", len(narrow))
    if len(narrow) >= 1000:
        hist, _ = np.histogram(narrow, bins=10, range=(0, 1))
        mon.check(int(hist.min()) > 0, "exit rates do not spread over narrow intervals", key="bounds", histogram=hist.tolist())
    free = {}
    for p in pool:
        if p[0] == "free":
            a = free.setdefault(p[1], [0, 0])
            a[0] += p[2]
            a[1] += p[3]
    for p, (k, n) in free.items():
        mon.check(not law.unlikely_count(k, n, p), "the density is not met on average over all graphs", key="density", density=p, edges=k, of=n)
