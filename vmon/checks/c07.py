"""The law of sampled trajectories: martingale, exponential-gap and destination monitors, and deterministic jumps."""
import itertools
import math

import numpy as np

from .. import gen, law
from . import c06

ID = "C07"
RULE = ("Pooled samples of families of networks (one variable; chains; many parents; cycles; complete graphs; mixed cardinalities; "
        "rates differing by two orders of magnitude between parent states; all rates, or those of one variable, down to a thousandth; skewed destinations; integer CIMs; four to six parents that all switch the rate), networks left at a constant total rate near the start and the end of the sampled span, against concentration "
        "bounds of the CTBN law, and networks whose jumps are deterministic functions of (state, parents' states), where a single row "
        "reveals the use of a wrong matrix. Non-trivial: a class of contexts with departures; distinct by network and class.")
FLOORS = {"transitions": 20000, "rate_classes": 300, "gap_tests": 30, "deterministic_jumps": 5000, "destination_cells": 200, "absorbed": 100, "assignments_alike": 8, "parent_change_groups": 8, "end_windows": 15, "fast_transitions": 3000}
ASSUMPTIONS = ["the statistical monitors miss deviations too small for the pooled sample (a few percent in the largest classes)"]

FAMILIES = ["single", "pair", "contrast", "many_parents", "cycle", "complete", "mixed", "integer", "skewed", "isolated", "binary_hub", "chain", "frozen", "absorbing", "stopper", "slow", "stiff", "switch"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = [{"kind": "law", "family": f, "i": i} for i in range(5 * k) for f in FAMILIES]
    out += [{"kind": "law", "family": "rare", "i": i} for i in range(16 * k)]
    out += [{"kind": "jumps", "i": i} for i in range(60 * k)]
    out += [{"kind": "ends", "i": i} for i in range(12 * k)]
    out += [{"kind": "fast", "i": i} for i in range(12 * k)]
    return out


def family(name, rng):
    """(cards, parents, cims, integer)"""
    integer = False
    lo, hi = 0.5, 4.0
    if name == "single":
        cards, parents = [int(rng.integers(2, 6))], [[]]
    elif name == "pair":
        cards, parents = gen.cardinalities(rng, 2), [[], [0]] if rng.random() < 0.5 else [[1], []]
    elif name == "contrast":
        n = int(rng.integers(2, 4))
        cards = gen.cardinalities(rng, n, 2, 3)
        parents = [[p for p in range(n) if p != i] for i in range(n)]
        lo, hi = 0.05, 5.0
    elif name == "many_parents":
        m = int(rng.integers(3, 6))
        cards = [2] * m + [3]
        parents = [[] for _ in range(m)] + [list(range(m))]
    elif name == "switch":                           # which parent changes matters much, whichever of many it is
        m = int(rng.integers(4, 7))
        cards = [2] * m + [int(rng.integers(2, 4))]
        parents = [[] for _ in range(m)] + [list(range(m))]
    elif name == "cycle":
        n = int(rng.integers(3, 6))
        cards = gen.cardinalities(rng, n, 2, 3)
        parents = [[(i - 1) % n] for i in range(n)]
        lo, hi = 0.2, 6.0
    elif name == "complete":
        cards = [2, 3, 2]
        parents = [[1, 2], [0, 2], [0, 1]]
    elif name == "mixed":
        cards = [5, 2, 3]
        cards = [cards[i] for i in rng.permutation(3)]
        parents = [[1, 2], [], [1]]
    elif name == "integer":
        cards, parents, integer = [3, 2], [[1], []], True
    elif name == "skewed":
        cards, parents = [4, 3], [[1], [0]]
    elif name == "rare":
        cards, parents = ([int(rng.integers(3, 7))], [[]]) if rng.random() < 0.5 else ([int(rng.integers(3, 6)), int(rng.integers(3, 6))], [[], [0]])
    elif name == "isolated":
        cards, parents = gen.cardinalities(rng, 4), [[], [], [], []]
    elif name == "chain":
        cards = gen.cardinalities(rng, 5, 2, 3)
        parents = [[]] + [[i] for i in range(4)]
    elif name == "absorbing":                        # one state of a variable alone cannot be left
        cards, parents = [int(rng.integers(3, 6))], [[]]
    elif name == "stopper":                          # everything depends on a variable that stops in one of its states
        cards, parents = [int(rng.integers(3, 5)), 2, 3], [[], [0], [0, 1]]
    elif name == "frozen":                           # one variable always moves; the others are not always able to
        cards, parents = [3, 3, 2, 3, 1], [[], [0, 4], [0, 1], [1], [0]]
    elif name == "slow":                             # nothing happens for long: times in the thousands
        cards = gen.cardinalities(rng, 3, 2, 4)
        parents = [[], [0], [0, 1]]
        lo, hi = 0.1, 5.0
    elif name == "stiff":                            # one variable is slower than the others
        cards, parents = [3, 2, 2], [[], [0], []]
    else:                                            # binary_hub: one parent, many children
        cards, parents = [2, 2, 2, 2, 2], [[], [0], [0], [0], [0]]
        lo, hi = 0.1, 5.0
    n = len(cards)
    order = [int(i) for i in rng.permutation(n)]     # position of the variables must not matter
    inv = {o: i for i, o in enumerate(order)}
    cards = [cards[o] for o in order]
    parents = [sorted(inv[p] for p in parents[o]) for o in order]
    cims = gen.random_cims(rng, cards, parents, lo, hi)
    if name == "skewed":
        for d in cims:
            for u, q in d.items():
                k = len(q)
                for x in range(k):
                    rate = -q[x, x]
                    w = np.array([20.0 ** -((y - x) % k) if y != x else 0.0 for y in range(k)])
                    q[x] = w / w.sum() * rate
                    q[x, x] = -rate
    if name in ("slow", "stiff"):
        scale = float(10.0 ** rng.uniform(-3.0, -1.0)) if name == "slow" else float(10.0 ** rng.uniform(-2.5, -1.0))
        for j in range(n):
            if name == "slow" or j == order.index(0):
                for u in cims[j]:
                    cims[j][u] = cims[j][u] * scale
    if name == "switch":
        for d in cims:
            for u in d:
                d[u] = d[u] / -d[u][0, 0] * (1.0 if not u else 20.0 if rng.random() < 0.5 else 0.05)
    if name == "rare":                               # one destination of every state is nearly never reached
        for d in cims:
            for u, q in d.items():
                k = len(q)
                for x in range(k):
                    rate = -q[x, x]
                    w = 0.2 + rng.random(k)
                    w[x] = 0.0
                    z = (x + 1 + int(rng.integers(k - 1))) % k
                    w[z] = 0.0
                    w *= 1.0 / w.sum()
                    w[z] = float(10.0 ** rng.uniform(-3.0, -1.5))
                    q[x] = w / w.sum() * rate
                    q[x, x] = -rate
    if name in ("absorbing", "stopper"):
        i = order.index(0)
        z = int(rng.integers(1, cards[i]))
        cims[i][()][z, :] = 0.0
        for j in range(n):
            for u, q in cims[j].items():
                if j != i and u[parents[j].index(i)] == z:
                    q[:, :] = 0.0
    if name == "frozen":
        for j in range(n):
            if j != order.index(0):
                for u, q in cims[j].items():
                    q[rng.random(len(q)) < 0.4] = 0.0
    if integer:
        for d in cims:
            for u in d:
                k = len(d[u])
                q = rng.integers(1, 6, (k, k)).astype(float)
                np.fill_diagonal(q, 0)
                np.fill_diagonal(q, -q.sum(axis=1))
                d[u] = q
    return cards, parents, cims, integer


def run(case, rng, mon):
    if case["kind"] == "law":
        run_law(case, rng, mon)
    elif case["kind"] == "ends":
        run_ends(case, rng, mon)
    elif case["kind"] == "fast":
        run_fast(case, rng, mon)
    else:
        run_jumps(case, rng, mon)


def run_law(case, rng, mon):
    cards, parents, cims, integer = family(case["family"], rng)
    names = gen.labels(rng, len(cards))
    L = law.Law(cards, parents, cims, case["family"])
    total = 1200
    rest = total
    while rest > 0:
        n = min(rest, int(rng.choice([40, 150, 400])))
        tg = c06.generator(rng, names, cards, parents, cims, integer)      # new edge order every time
        rows = c06.judge(mon, tg.CTBN_Sample(max_tr=n), names, cards, parents, cims, -1, n, dict(family=case["family"]))
        if case["family"] in ("absorbing", "stopper"):
            # the last transition is known when the trajectory ends before its limit: it led to where nothing can change
            ends = [s for s in c06.successors(tuple(rows[-2][1:]), cards, parents, cims) if c06.exit_rate(s, parents, cims) == 0] if len(rows) > 1 else []
            if len(rows) < n + 1:
                mon.check(len(ends) == 1, "a trajectory ends where something can change", rows=rows[-2:])
                rows[-1] = [rows[-1][0]] + list(ends[0])
                mon.count("absorbed")
        L.add(rows)
        rest -= n if case["family"] not in ("absorbing", "stopper") else 20
    mon.count("transitions", L.transitions)
    L.judge(mon)
    for key, d in L.D.items():
        mon.seen(case["family"], case["i"], key)
    mon.pool.append((case["family"], L.groups().get(("all",)), L.gaps, relative(L)))
    mon.pool.append(("stale", {k: tuple(v) for k, v in L.stale.items()}))
    mon.sample({"family": case["family"], "cards": cards, "parents": parents, "transitions": L.transitions})


def run_ends(case, rng, mon):
    """Every state of the network is left at the same total rate, so that the transitions are a Poisson process: as many of
    them right before the end and right after the start as anywhere else."""
    n = int(rng.integers(1, 4))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.5, 2)
    rates = [float(r) for r in 10.0 ** rng.uniform(0.0, 2.0) * (0.2 + rng.random(n))]
    cims = [{u: q * (-r / q.diagonal())[:, None] for u, q in d.items()} for r, d in zip(rates, gen.random_cims(rng, cards, parents, 0.5, 4.0))]
    total = sum(rates)
    names = gen.labels(rng, n)
    out = {}
    for k in range(8):
        t_end = float(rng.uniform(30, 90)) / total
        if case["i"] % 2:
            t_end = max(1.0, round(t_end)) if total < 60 else round(t_end, 1) or 0.5
        tg = c06.generator(rng, names, cards, parents, cims)
        rows = c06.judge(mon, tg.CTBN_Sample(t_end=t_end), names, cards, parents, cims, t_end, -1, dict(family="ends"))
        times = [r[0] for r in rows[1:]]
        mon.count("transitions", len(times))
        for d in (0.002, 0.005, 0.02, 0.05, 0.1, 0.3, 0.5):
            if d < t_end:
                for name, inside in (("before_end", sum(t > t_end - d + 6e-5 for t in times)), ("after_start", sum(t < d - 6e-5 for t in times))):
                    a = out.setdefault((name, d), [0.0, 0.0])
                    a[0] += inside
                    a[1] += total * (d - 6e-5)
        for f in (0.005, 0.02, 0.1, 0.3):
            d = f * t_end
            if d > 0.001:
                for name, inside in (("before_end_share", sum(t > t_end - d + 6e-5 for t in times)), ("after_start_share", sum(t < d - 6e-5 for t in times))):
                    a = out.setdefault((name, f), [0.0, 0.0])
                    a[0] += inside
                    a[1] += total * (d - 6e-5)
    mon.seen("ends", case["i"])
    mon.pool.append(("ends", {k: tuple(v) for k, v in out.items()}))


def run_fast(case, rng, mon):
    """Many transitions within the last of the four decimals of the times; all states are left at the same total rate."""
    n = int(rng.integers(1, 4))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.5, 2)
    rates = [float(r) for r in 10.0 ** rng.uniform(3.5, 6.0) * (0.2 + rng.random(n))]
    cims = [{u: q * (-r / q.diagonal())[:, None] for u, q in d.items()} for r, d in zip(rates, gen.random_cims(rng, cards, parents, 0.5, 4.0))]
    total = sum(rates)
    names = gen.labels(rng, n)
    for k in range(4):
        tg = c06.generator(rng, names, cards, parents, cims)
        if k % 2:
            t_end = float(rng.uniform(100, 500)) / total
            rows = c06.judge(mon, tg.CTBN_Sample(t_end=t_end), names, cards, parents, cims, t_end, -1, dict(family="fast", rate=total))
            mean, near = total * t_end, 0.0
        else:
            m = int(rng.integers(100, 500))
            rows = c06.judge(mon, tg.CTBN_Sample(max_tr=m), names, cards, parents, cims, -1, m, dict(family="fast", rate=total))
            mean, near = total * rows[-1][0], total * 6e-5                  # the last time is rounded
        got = len(rows) - 1
        mon.check(not law.poisson_unlikely(got, min(max(got, mean - near), mean + near)), "the times do not fit the number of transitions", key="rate",
                  transitions=got, expected=mean, rounding=near, total_rate=total, limit="time" if k % 2 else "transitions")
        mon.count("transitions", got)
        mon.count("fast_transitions", sum(b[0] - a[0] < 1.5e-4 for a, b in zip(rows, rows[1:])))
    mon.seen("fast", case["i"])


def relative(L):
    """Counts by relative position, poolable over networks: departures and expectation by number of parents, by state
    rank and by the age of the clock, and jumps to the destinations below and above the current state against their expectation."""
    out = {}
    for (i, x, u), e in L.E.items():
        n = L.N.get((i, x, u), 0.0)
        keys = [("parents", len(u)), ("state", x), ("last_state", x == L.cards[i] - 1), ("card", L.cards[i]), ("node", i),
                ("last_parent_state", bool(u) and u[-1] == L.cards[L.parents[i][-1]] - 1), ("first_parent_state", bool(u) and u[0] == 0)]
        for k in keys:
            a = out.setdefault(k, [0.0, 0.0])
            a[0] += n
            a[1] += e
    for g, v in L.ages.items():
        out[("age", g)] = list(v)
    for (i, x, u), dest in L.D.items():
        row = L.cims[i][u][x]
        tot = sum(float(v) for y, v in enumerate(row) if y != x)
        m = sum(dest.values())
        for y in range(len(row)):
            if y != x:
                a = out.setdefault(("dest", (y - x) % len(row)), [0.0, 0.0])
                a[0] += dest.get(y, 0)
                a[1] += m * float(row[y]) / tot
                if row[y] < 0.05 * tot:
                    a = out.setdefault(("rare", float(row[y]) < 0.01 * tot), [0.0, 0.0])
                    a[0] += dest.get(y, 0)
                    a[1] += m * float(row[y]) / tot
    return out


def finish(pool, mon):
    groups = {}
    gaps = []
    stale, ends = {}, {}
    for x in pool:
        for into, name in ((stale, "stale"), (ends, "ends")):
            for k, v in x[1].items() if x[0] == name else ():
                a = into.setdefault(tuple(k), [0.0, 0.0])
                a[0] += v[0]
                a[1] += v[1]
    for k, (m, v) in stale.items():
        # a martingale with jumps of at most 1 and this predictable variation
        mon.check(abs(m) <= law.bernstein(v) + 1e-4 * v + 1, "rates do not follow the changes of the parents", key="rate", group=k, deviation=m, variation=v)
        mon.count("parent_change_groups")
    for k, (n, e) in ends.items():
        mon.check(abs(n - e) <= law.bernstein(e) + 1, "transitions are missing or in excess near a limit of the trajectories", key="rate", window=k, observed=n, expected=e)
        mon.count("end_windows")
    for fam, total, g, rel in [x for x in pool if x[0] not in ("stale", "ends")]:
        for key, (n, e) in [(("all",), total), (("family", fam), total)] + [(k, tuple(v)) for k, v in rel.items()]:
            a = groups.setdefault(key, [0.0, 0.0])
            a[0] += n
            a[1] += e
        gaps += g
    for key, (n, e) in groups.items():
        mon.check(abs(n - e) <= law.bernstein(e) + 1e-4 * e + 1, "pooled counts do not match the law", key="rate", group=key, observed=n, expected=e)
        for theta in (0.5, 1.0, 2.0, 4.0):
            # exp((1 - exp(-theta)) e - theta n) is a supermartingale: sharper than the above where little is expected
            mon.check((1 - math.exp(-theta)) * e * (1 - 1e-4) - theta * n < 24, "pooled counts fall short of the law", key="rate", group=key, observed=n, expected=e)
        if key[0] == "rare":
            mon.top("max_rare_jumps_expected", e)
        mon.count("pooled_groups")
    if len(gaps) >= 50:
        d, bound = law.ks_uniform([1 - math.exp(-g) for g in gaps])
        mon.check(d <= bound + 3e-3, "pooled times between transitions are not exponential", key="gap", ks=d, bound=bound, n=len(gaps))


def deterministic_network(rng, n=None, hi=5):
    """Every state has one possible next state, a random function of the state and the parents' states."""
    n = n or int(rng.integers(2, 6))
    cards = [int(rng.integers(3, hi + 1)) if rng.random() < 0.8 else 2 for _ in range(n)]
    if rng.random() < 0.3:
        cards[int(rng.integers(n))] = int(rng.integers(10, 13))
    parents = gen.random_parents(rng, n, 0.6, 3)
    if max(cards) > 9:
        parents = [p[:2] for p in parents]
    cims = []
    for i, k in enumerate(cards):
        d = {}
        for u in itertools.product(*[range(cards[p]) for p in parents[i]]):
            q = np.zeros((k, k))
            for x in range(k):
                rate = round(float(0.3 + 4 * rng.random()), 4)
                y = int((x + 1 + rng.integers(k - 1)) % k)
                q[x, y] = rate
                q[x, x] = -rate
            d[u] = q
        cims.append(d)
    return cards, parents, cims


def alike(rng):
    """A deterministic child of two parents that are mostly in states 0, 1, 10, 11: assignments that look alike when written
    without separators or as decimal numbers."""
    cards = [int(rng.integers(12, 15)), int(rng.integers(12, 15)), int(rng.integers(3, 7))]
    cims = []
    for k in cards[:2]:
        q = np.zeros((k, k))
        for x in range(k):
            w = np.array([12.0 if y in (0, 1, 10, 11) else 0.1 for y in range(k)]) * (0.5 + rng.random(k))
            w[x] = 0.0
            q[x] = w / w.sum() * 0.3
            q[x, x] = -0.3
        cims.append({(): q})
    d = {}
    for u in itertools.product(range(cards[0]), range(cards[1])):
        q = np.zeros((cards[2], cards[2]))
        rate = 25.0 if rng.random() < 0.5 else 0.5
        for x in range(cards[2]):
            q[x, int((x + 1 + rng.integers(cards[2] - 1)) % cards[2])] = rate
            q[x, x] = -rate
        d[u] = q
    cims.append(d)
    if rng.random() < 0.5:                             # the child first
        turned = {u: q for u, q in d.items()}
        return [cards[2], cards[0], cards[1]], [[1, 2], [], []], [turned, cims[0], cims[1]]
    return cards, [[], [], [0, 1]], cims


def run_jumps(case, rng, mon):
    large = case["i"] % 6 == 5
    cards, parents, cims = alike(rng) if large else deterministic_network(rng)
    mon.count("assignments_alike", large)
    limit = 1000 if large else 150
    names = gen.labels(rng, len(cards))
    L = law.Law(cards, parents, cims, "deterministic")
    for _ in range(2):
        tg = c06.generator(rng, names, cards, parents, cims)
        rows = c06.judge(mon, tg.CTBN_Sample(max_tr=limit), names, cards, parents, cims, -1, limit, dict(family="deterministic", cards=cards, parents=parents))
        L.add(rows)
    mon.count("deterministic_jumps", L.transitions)
    mon.count("transitions", L.transitions)
    for key in L.D:
        mon.seen("jumps", case["i"], key)
    L.judge(mon)
    mon.pool.append(("deterministic", L.groups().get(("all",)), L.gaps, relative(L)))
