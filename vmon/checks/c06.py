"""Trace specification of sampled trajectories, checked on every row."""
import numpy as np
import pandas as pd

from .. import gen, law

ID = "C06"
RULE = ("Random networks (1-8 and some 12-32 variables, cardinalities 2-6 and some up to 24, 0-5 parents, cycles, zero intensities, integer CIMs, "
        "shuffled edge tables, networks from NetworkGenerator) sampled with transition limits 0-1500 and end times from 0 to hundreds of "
        "mean sojourns, several times per generator. Every row is judged. Non-trivial: at least one transition; distinct by "
        "network shape, limit and length. Networks with a constant total rate give the exact Poisson law of the number of rows "
        "before an end time.")
FLOORS = {"rows_checked": 5000, "trajectories": 150, "transition_limited": 50, "time_limited": 50, "poisson_counts": 20, "short_trajectories": 1500, "silence_tests": 60, "wide": 24, "absorbing_networks_sampled": 200,
          "absorbed": 100, "lines": 300, "long_trajectories": 2, "late_transitions": 800}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "poisson", "i": i} for i in range(16 * k)]
    out += [{"kind": "short", "i": i} for i in range(24 * k)]
    out += [{"kind": "random", "i": i} for i in range(64 * k)]
    out += [{"kind": "generated", "i": i} for i in range(32 * k)]
    out += [{"kind": kind, "i": i} for i in range(40 * k) for kind in ("absorbing", "line")]
    out += [{"kind": kind, "i": i, "wide": True} for i in range(4 * k) for kind in ("poisson", "random", "random")]
    out += [{"kind": "long", "i": i} for i in range(2 * k)]
    out += [{"kind": "bursts", "i": i} for i in range(12 * k)]
    return out


def network(rng, n=None, hi_card=6, lo=0.5, hi=5.0, integer=False, density=None):
    n = n or int(rng.integers(1, 9))
    if n > 9 and density is None:
        density = float(rng.choice([1.0, 2.5])) / n
    cards = gen.cardinalities(rng, n, 2, hi_card if n < 5 else 4)
    if n <= 3 and rng.random() < 0.15:
        cards[int(rng.integers(n))] = int(rng.integers(7, 13))
    parents = gen.random_parents(rng, n, float(rng.random() * 0.7) if density is None else density, 5 if max(cards) < 4 else 3)
    cims = gen.random_cims(rng, cards, parents, lo, hi, zero_prob=0.3 if rng.random() < 0.5 else 0.0)
    if integer:
        for d in cims:
            for u in d:
                q = np.ceil(np.where(np.eye(len(d[u])) > 0, 0, d[u]))
                np.fill_diagonal(q, 0)
                np.fill_diagonal(q, -q.sum(axis=1))
                d[u] = q
    names = gen.labels(rng, n)
    return names, cards, parents, cims


def edge_table(rng, names, parents):
    edges = [(names[p], names[i]) for i in range(len(names)) for p in parents[i]]
    edges = [edges[j] for j in rng.permutation(len(edges))]
    return gen.edges_frame(edges)


def generator(rng, names, cards, parents, cims, integer=False):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    table = edge_table(rng, names, parents)
    if len(table) and rng.random() < 0.3:
        table.index = [9] * len(table) if rng.random() < 0.5 else list(range(len(table)))[::-1]
    return TrajectoryGenerator(variables=gen.variables_frame(names, cards), dyn_str=table,
                               dyn_cims=gen.to_library_cims(names, cards, parents, cims, integer, rng))


def judge(mon, frame, names, cards, parents, cims, t_end=-1, max_tr=-1, info=None):
    """The trace specification. Returns the rows."""
    info = info or {}
    mon.check(isinstance(frame, pd.DataFrame), "the trajectory is not a data frame", got=type(frame))
    mon.eq([str(c) for c in frame.columns], ["Time"] + list(names), "wrong columns", info=info)
    mon.check(all(np.issubdtype(frame[c].dtype, np.number) or frame[c].map(lambda v: isinstance(v, (int, np.integer))).all() for c in names),
              "states are not numbers", dtypes=frame.dtypes)
    mon.check(bool(np.isfinite(np.asarray(frame["Time"], dtype=float)).all()), "a time is not finite", info=info)
    rows = law.rows_of(frame, names)
    n = len(names)
    mon.check(len(rows) >= 1, "empty trajectory", info=info)
    mon.check(rows[0][0] == 0.0, "the trajectory does not start at time 0", time=rows[0][0], info=info)
    mon.check(all(v == -1 for v in rows[-1][1:]), "the last row is not a row of -1", row=rows[-1], info=info)
    if len(rows) > 1:
        mon.check(all(v == 0 for v in rows[0][1:]), "the variables do not start in state 0", row=rows[0], info=info)
    for k in range(1, len(rows)):
        a, b = rows[k - 1], rows[k]
        mon.check(b[0] >= a[0], "time goes backwards", row=k, before=a, after=b, info=info)
        if k == len(rows) - 1:
            break
        mon.check(all(0 <= v < c for v, c in zip(b[1:], cards)), "invalid state", row=k, after=b, cards=cards, info=info)
        changed = [i for i in range(n) if a[1 + i] != b[1 + i]]
        mon.check(len(changed) == 1, "a row does not change exactly one variable", row=k, before=a, after=b, info=info)
        i = changed[0]
        u = tuple(a[1 + p] for p in parents[i])
        mon.check(float(cims[i][u][a[1 + i]][b[1 + i]]) > 0, "transition of zero intensity under the current parents", key="reachable",
                  row=k, before=a, after=b, variable=i, parents=parents[i], info=info)
        mon.count("rows_checked")
    mon.count("trajectories")
    slow = slowest_next(rows, cards, parents, cims)
    if max_tr != -1:
        mon.check(len(rows) <= max_tr + 1, "more transitions than allowed", rows=len(rows), max_tr=max_tr, info=info)
        mon.count("transition_limited")
        if t_end == -1 and len(rows) < max_tr + 1:
            # only an absorbing state ends a trajectory before its number of transitions
            mon.check(slow == 0, "wrong number of rows for the number of transitions", key="length", rows=len(rows), max_tr=max_tr, last=rows[-2:], info=info)
            mon.count("absorbed")
    if t_end != -1:
        mon.check(rows[-1][0] <= t_end + 5.1e-5, "the trajectory goes beyond its end time", last=rows[-1][0], t_end=t_end, info=info)
        mon.count("time_limited")
        if max_tr == -1 and t_end > rows[-1][0]:
            # silence until t_end, in one of the states the last transition may have led to
            mon.check(slow * (t_end - rows[-1][0] - 5.1e-5) < 60, "the trajectory stops long before its end time", last=rows[-1][0], t_end=t_end, slowest_total_rate=slow, info=info)
    # times keep four decimals: two transitions at the same time are as rare as stays of less than 1e-4
    same = sum(1 for a, b in zip(rows, rows[1:]) if a[0] == b[0])
    if same > 3:
        rates = [exit_rate(tuple(a[1:]), parents, cims) for a in rows[:-1]]
        rates.append(max(exit_rate(s, parents, cims) for s in successors(tuple(rows[-2][1:]), cards, parents, cims)))
        mean = sum(-np.expm1(-1.01e-4 * r) for r in rates)
        mon.check(same <= mean + 1 or not law.poisson_unlikely(same, mean + 1), "too many transitions at the same time", key="resolution", same=same, expected=mean, rows=len(rows), info=info)
        mon.count("close_times_judged")
    if len(rows) > 1:
        mon.seen(cards, parents, len(rows), round(rows[-1][0], 4))
    return rows


def exit_rate(s, parents, cims):
    return sum(-float(c[tuple(s[p] for p in ps)][s[i]][s[i]]) for i, (c, ps) in enumerate(zip(cims, parents)))


def successors(s, cards, parents, cims):
    for i, c in enumerate(cims):
        row = c[tuple(s[p] for p in parents[i])][s[i]]
        for y in range(cards[i]):
            if y != s[i] and float(row[y]) > 0:
                yield s[:i] + (y,) + s[i + 1:]


def slowest_next(rows, cards, parents, cims):
    """The least total exit rate of the states in which the trajectory may have ended (the last row hides it)."""
    n = len(cards)
    if len(rows) == 1:
        return exit_rate((0,) * n, parents, cims)
    return min(exit_rate(s, parents, cims) for s in successors(tuple(rows[-2][1:]), cards, parents, cims))


def run(case, rng, mon):
    if case["kind"] == "absorbing":
        return run_absorbing(case, rng, mon)
    if case["kind"] == "line":
        return run_line(case, rng, mon)
    if case["kind"] == "long":
        return run_long(case, rng, mon)
    if case["kind"] == "bursts":
        return run_bursts(case, rng, mon)
    if case["kind"] == "poisson":
        return run_poisson(case, rng, mon)
    if case["kind"] == "short":
        return run_short(case, rng, mon)
    integer = case["kind"] == "random" and rng.random() < 0.25
    if case["kind"] == "generated":
        from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
        from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
        n = int(rng.integers(1, 7))
        names, cards = gen.labels(rng, n), gen.cardinalities(rng, n)
        ng = NetworkGenerator(list(names), list(cards))
        ng.generate_graph(float(rng.random() * 0.6))
        ng.generate_cims(0.5, 5)
        table = ng.dyn_str
        parents = [[p for p in range(n) if ((table["From"] == names[p]) & (table["To"] == names[i])).any()] for i in range(n)]
        cims = [{tuple(int(v) for v in u): np.asarray(c.cim) for u, c in zip(ng.cims[names[i]].p_combs, ng.cims[names[i]].actual_cims)} for i in range(n)]
        tg = TrajectoryGenerator(variables=ng.variables, dyn_str=table, dyn_cims=ng.cims)
    else:
        if case.get("wide") and rng.random() < 0.4:
            names, cards, parents, cims = network(rng, int(rng.integers(1, 4)), hi_card=24, integer=integer)
        else:
            names, cards, parents, cims = network(rng, int(rng.integers(12, 33)) if case.get("wide") else None, integer=integer)
        tg = generator(rng, names, cards, parents, cims, integer)
    mean_rate = sum(-float(np.mean([q[x][x] for q in c.values() for x in range(len(q))])) for c in cims)
    previous = []
    for j in range(4):
        how = int(rng.integers(5))
        t_end, max_tr = -1, -1
        if how <= 1:
            max_tr = int(rng.choice([0, 1, 2, 3, 10, 60, 150])) if not case.get("wide") else int(rng.choice([100, 600, 1500]))
        elif how <= 3:
            t_end = float(rng.choice([0.5, 60.0, 300.0] if case.get("wide") else [0.0, 1e-5, 0.01, 0.5, 3.0, 20.0])) * (1 + rng.random()) / mean_rate * n_scale(rng)
            if rng.random() < 0.2:
                t_end = int(t_end) if int(t_end) > 0 else 1
        else:
            max_tr, t_end = int(rng.integers(1, 60)), float(rng.random() * 40 / mean_rate)
        kw = {}
        if max_tr != -1:
            kw["max_tr"] = max_tr
        if t_end != -1:
            kw["t_end"] = t_end
        frame = tg.CTBN_Sample(**kw)
        rows = judge(mon, frame, names, cards, parents, cims, t_end, max_tr, dict(cards=cards, parents=parents, limits=kw))
        mon.count("wide", bool(case.get("wide")))
        mon.top("max_rows", len(rows))
        for f, text in previous:
            mon.eq(f.to_csv(), text, "sampling again changed a trajectory returned before")
        previous.append((frame, frame.to_csv()))
        if len(rows) > 20:
            mon.check(all(f is frame or f.to_csv() != frame.to_csv() for f, _ in previous), "two samplings gave the same trajectory")
    mon.sample({"names": names, "cards": cards, "parents": parents, "limits": kw, "rows": len(rows)})


def freeze(rng, cards, parents, cims, p):
    """Some states cannot be left under some parents."""
    for i, d in enumerate(cims):
        for u in d:
            for x in range(cards[i]):
                if rng.random() < p:
                    d[u][x, :] = 0.0


def run_absorbing(case, rng, mon):
    """States that cannot be left, variables with a single state."""
    n = int(rng.integers(1, 7))
    names, cards, parents, cims = network(rng, n)
    cards = gen.constant(rng, cards, 0.5)
    cims = gen.random_cims(rng, cards, parents)
    freeze(rng, cards, parents, cims, float(rng.choice([0.0, 0.05, 0.15, 0.3, 0.6, 1.0])))
    integer = rng.random() < 0.3
    if integer:
        for d in cims:
            for u in d:
                q = np.ceil(np.where(np.eye(len(d[u])) > 0, 0, d[u]))
                np.fill_diagonal(q, -q.sum(axis=1))
                d[u] = q
    tg = generator(rng, names, cards, parents, cims, integer)
    for j in range(8):
        kw = [{"max_tr": int(rng.choice([0, 1, 2, 5, 40, 120]))}, {"t_end": float(rng.choice([0.0, 0.3, 2.0, 20.0, 9.0]))},
              {"max_tr": int(rng.integers(1, 40)), "t_end": float(rng.random() * 20)}][int(rng.integers(3))]
        rows = judge(mon, tg.CTBN_Sample(**kw), names, cards, parents, cims, kw.get("t_end", -1), kw.get("max_tr", -1), dict(cards=cards, parents=parents, limits=kw))
        mon.count("absorbing_networks_sampled")
        if exit_rate((0,) * n, parents, cims) == 0:
            mon.eq(rows, [[0.0] + [-1] * n], "a network that cannot change was sampled with a transition")
    mon.sample({"cards": cards, "parents": parents, "limits": kw, "rows": len(rows)})


def run_line(case, rng, mon):
    """States passed one after the other up to one that cannot be left: every trajectory has the same number of rows, and
    its end time is a sum of exponential times."""
    k = int(rng.integers(2, 6))
    m = int(rng.integers(1, 4))                          # the first one walks, the next ones follow the one before
    cards = [k] * m
    parents = [[]] + [[i] for i in range(m - 1)]
    rates = [[float(0.5 + 3 * rng.random()) for _ in range(k)] for _ in range(m)]
    cims = []
    for i in range(m):
        d = {}
        for u in ([()] if i == 0 else [(v,) for v in range(k)]):
            q = np.zeros((k, k))
            for x in range(k - 1):
                if i == 0 or u[0] > x:
                    q[x, x + 1], q[x, x] = rates[i][x], -rates[i][x]
            d[u] = q
        cims.append(d)
    order = [int(v) for v in rng.permutation(m)]
    inv = {o: j for j, o in enumerate(order)}
    parents = [[inv[p] for p in parents[o]] for o in order]
    cims = [cims[o] for o in order]
    names = gen.labels(rng, m)
    tg = generator(rng, names, cards, parents, cims)
    steps = (k - 1) * m
    for _ in range(12):
        how = int(rng.integers(3))
        kw = [{"max_tr": steps + int(rng.integers(0, 9))}, {"t_end": 1e5}, {"max_tr": int(rng.integers(0, steps + 1))}][how]
        rows = judge(mon, tg.CTBN_Sample(**kw), names, cards, parents, cims, kw.get("t_end", -1), kw.get("max_tr", -1), dict(line=k, variables=m, limits=kw))
        mon.eq(len(rows), (kw["max_tr"] if how == 2 else steps) + 1, "wrong number of rows of a trajectory into a state that cannot be left", key="length",
               states=k, variables=m, limits=kw)
        mon.count("lines")


def n_scale(rng):
    return 3.0 if rng.random() < 0.3 else 1.0


def run_long(case, rng, mon):
    """Thousands of transitions in one trajectory."""
    cards = gen.cardinalities(rng, 2, 2, 4)
    parents = [[1], [0]] if rng.random() < 0.5 else [[], [0]]
    r = 4.0
    cims = gen.random_cims(rng, cards, parents, r, r)
    names = gen.labels(rng, 2)
    tg = generator(rng, names, cards, parents, cims)
    count = int(rng.integers(4500, 6500))
    if case["i"] % 2:
        rows = judge(mon, tg.CTBN_Sample(max_tr=count), names, cards, parents, cims, -1, count, dict(cards=cards, max_tr=count))
        mon.check(not law.poisson_unlikely(count, 2 * r * rows[-1][0]), "the times of a long trajectory do not fit its transitions", key="poisson", got=count, mean=2 * r * rows[-1][0])
    else:
        t_end = count / (2 * r)
        rows = judge(mon, tg.CTBN_Sample(t_end=t_end), names, cards, parents, cims, t_end, -1, dict(cards=cards, t_end=t_end))
        mon.check(not law.poisson_unlikely(len(rows) - 1, count), "the number of transitions before the end time is not the expected one", key="poisson",
                  got=len(rows) - 1, mean=count, t_end=t_end)
        mon.check((t_end - rows[-1][0]) * 2 * r < 60, "a trajectory stops long before its end time", key="poisson", last=rows[-1][0], t_end=t_end)
    mon.count("long_trajectories")
    mon.top("max_rows", len(rows))
    mon.seen("long", names, cards, len(rows))


def run_poisson(case, rng, mon):
    """All exit rates equal r: the number of transitions before t_end is Poisson(n r t_end)."""
    n = int(rng.integers(10, 25)) if case.get("wide") else int(rng.integers(1, 5))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.1 if case.get("wide") else 0.4, 2)
    r = float(rng.choice([0.3, 1.0, 4.0]))
    cims = gen.random_cims(rng, cards, parents, r, r)
    names = gen.labels(rng, n)
    tg = generator(rng, names, cards, parents, cims)
    t_end = float(np.round(rng.choice([60.0, 200.0] if case.get("wide") else [2.0, 10.0, 30.0]) * (0.5 + rng.random()) / (n * r), 3))
    total, reps = 0, 8
    for _ in range(reps):
        frame = tg.CTBN_Sample(t_end=t_end)
        rows = judge(mon, frame, names, cards, parents, cims, t_end, -1, dict(cards=cards, t_end=t_end))
        total += len(rows) - 1
        mon.count("poisson_counts")
    mon.check(not law.poisson_unlikely(total, reps * n * r * t_end), "the number of transitions before the end time is not the expected one",
              key="poisson", got=total, mean=reps * n * r * t_end, t_end=t_end, rate=n * r)
    mon.pool.append(("poisson", total, reps * n * r * t_end))


SILENCE = (0.1, 0.3, 0.5, 0.7, 0.9)


def run_bursts(case, rng, mon):
    """Long silences, then transitions in quick succession: late times that lie close together."""
    n = int(rng.integers(2, 5))
    cards = gen.cardinalities(rng, n, 2, 4)
    fast = int(rng.integers(n))
    parents = [[p for p in range(n) if p not in (i, fast) and rng.random() < 0.3] for i in range(n)]
    cims = gen.random_cims(rng, cards, parents, 1.0, 3.0)
    slow = float(10.0 ** rng.uniform(-5.0, -3.0))
    for i in range(n):
        for u in cims[i]:
            for x in range(cards[i]):
                cims[i][u][x] = cims[i][u][x] * (float(rng.uniform(50, 300)) if i == fast and x else slow)
    names = gen.labels(rng, n)
    tg = generator(rng, names, cards, parents, cims)
    for _ in range(2):
        m = int(rng.choice([150, 400]))
        rows = judge(mon, tg.CTBN_Sample(max_tr=m), names, cards, parents, cims, -1, m, dict(cards=cards, slow=slow, kind="bursts"))
        mon.count("late_transitions", sum(1 for a, b in zip(rows, rows[1:]) if b[0] > 1e4 and b[0] - a[0] < 0.05))
        mon.top("max_time", rows[-1][0])


def run_short(case, rng, mon):
    """End times of about one mean sojourn, many times over: what happens around the end decides the counts."""
    n = int(rng.integers(1, 5))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.4, 2)
    r = float(rng.choice([0.3, 1.0, 4.0]))
    cims = gen.random_cims(rng, cards, parents, r, r)
    names = gen.labels(rng, n)
    tg = generator(rng, names, cards, parents, cims)
    mean = float(rng.choice([0.5, 1.0, 2.0]))
    t_end = float(np.round(mean / (n * r), 3))
    mean = t_end * n * r
    counts, silence = [], []
    reps = 160
    for _ in range(reps):
        rows = judge(mon, tg.CTBN_Sample(t_end=t_end), names, cards, parents, cims, t_end, -1, dict(cards=cards, t_end=t_end))
        counts.append(len(rows) - 1)
        silence.append((t_end - rows[-1][0]) * n * r)
        mon.count("short_trajectories")
    mon.pool.append(("short", mean, counts, silence))
    judge_short(mon, [(mean, counts, silence)], "short")


def judge_short(mon, group, label):
    """Counts before the end are Poisson(mean); the process is silent for the last s time units with probability exp(-rate s)."""
    mon.check(not law.poisson_unlikely(sum(sum(c) for _, c, _ in group), sum(m * len(c) for m, c, _ in group)),
              "the number of transitions before the end time is not the expected one", key="poisson", got=sum(sum(c) for _, c, _ in group),
              mean=sum(m * len(c) for m, c, _ in group), of=sum(len(c) for _, c, _ in group))
    for m in sorted(set(round(m, 1) for m, _, _ in group)):
        part = [g for g in group if round(g[0], 1) == m]
        for f in SILENCE:
            # one threshold per group, below every end time in it; 1e-3: the times are rounded to four decimals
            s = f * min(g[0] for g in part)
            k = sum(1 for g in part for v in g[2] if v > s)
            total = sum(len(g[2]) for g in part)
            p = np.exp(-s)
            mon.check(not (law.unlikely_count(k, total, p) and law.unlikely_count(k, total, min(1.0, p + 2e-3)) and law.unlikely_count(k, total, p - 2e-3)),
                      "the process is not silent before the end time as often as expected", key="poisson", silence=s, count=k, of=total, probability=p)
            mon.count("silence_tests")


def finish(pool, mon):
    short = [tuple(p[1:]) for p in pool if p[0] == "short"]
    if short:
        judge_short(mon, short, "pooled")
    pool = [p[1:] for p in pool if p[0] == "poisson"]
    got, mean = sum(a for a, _ in pool), sum(b for _, b in pool)
    mon.count("pooled_transitions", got)
    mon.check(not law.poisson_unlikely(got, mean), "pooled number of transitions before the end times", key="poisson", got=got, mean=mean)
