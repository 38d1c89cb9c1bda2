"""Parallel sampling: count, limits, completeness, independence and law of what comes back, under injected delays."""
import gc
import time

import numpy as np

from .. import gen, law
from . import c06

ID = "C08"
RULE = ("Calls of multi_trajectory with 0-140 requests (transition counts, end times, both, or none) on random networks, with workers "
        "delayed so that they finish in request order, in reverse order, at random, or all at once, and several calls per generator; processes are started by fork, spawn or a fork server. "
        "Non-trivial: at least two trajectories with transitions; distinct by limits, delay pattern and lengths.")
FLOORS = {"calls": 60, "trajectories": 400, "pairs_compared": 1000, "delayed_calls": 20, "stragglers": 6, "other_start_methods": 4, "transitions": 4000, "time_limited": 50, "mass_requests": 2, "alike": 6}


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = [{"kind": "straggler", "i": i} for i in range(6 * k)]
    out += [{"kind": "start", "i": i} for i in range(4 * k)]
    out += [{"kind": "crowd", "i": i} for i in range(4 * k)]
    out += [{"kind": "mass", "i": i} for i in range(2 * k)]
    out += [{"kind": "calls", "i": i} for i in range(36 * k)]
    return out


from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator  # noqa: E402


class Delayed(TrajectoryGenerator):
    delays = None                                    # {limit: (seconds before, seconds after)}

    def CTBN_Sample(self, t_end=-1, max_tr=-1):
        before, after = (self.delays or {}).get(max_tr if max_tr != -1 else t_end, (0, 0))
        time.sleep(before)
        out = super().CTBN_Sample(t_end=t_end, max_tr=max_tr)
        time.sleep(after)
        return out


def run(case, rng, mon):
    with gen.start_method(["spawn", "forkserver"][case["i"] % 2] if case["kind"] == "start" else "fork"):
        sampling(case, rng, mon)


def sampling(case, rng, mon):
    n = int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(8, 16))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.4 if n < 6 else 1.0 / n, 2)
    cims = gen.random_cims(rng, cards, parents, 0.8, 4.0)
    absorbing = case["kind"] == "calls" and rng.random() < 0.1
    if absorbing:                                      # the trajectories end before their limits
        c06.freeze(rng, cards, parents, cims, 0.3)
        mon.count("absorbing")
    names = gen.labels(rng, n)
    L = law.Law(cards, parents, cims, "parallel")
    seen = []
    tg = Delayed(variables=gen.variables_frame(names, cards), dyn_str=c06.edge_table(rng, names, parents),
                         dyn_cims=gen.to_library_cims(names, cards, parents, cims, rng=rng))
    calls = {"calls": 5, "crowd": 2, "straggler": 1, "start": 2, "mass": 1}[case["kind"]]
    for c in range(calls):
        size = {"calls": int(rng.choice([1, 2, 3, 6, 10])), "crowd": 40, "mass": [65, 129, 100, 140][case["i"] % 4], "straggler": [4, 14, 30, 20, 7, 40][case["i"] % 6], "start": 3}[case["kind"]]
        how = ["max", "max", "time", "both", "none", "empty"][int(rng.integers(6))] if case["kind"] == "calls" else "max"
        if case["kind"] == "straggler":
            how = ["max", "time"][case["i"] % 2]
        limits_tr = [int(rng.integers(6, 60 if size <= 40 else 12)) for _ in range(size)]
        if rng.random() < 0.3:
            limits_tr = [30] * size
        if rng.random() < 0.1:
            limits_tr[0] = 0
        alike = size > 1 and case["kind"] == "calls" and bool(rng.random() < 0.3)     # trajectories that hold the same rows by right
        if alike:
            limits_tr[:2] = [0, 0]
        scale = 25.0 / (n * 2)
        limits_t = [float(scale * (0.3 + rng.random() * 2)) for _ in range(size)]
        if rng.random() < 0.4:
            # so soon that nothing has happened
            limits_t[int(rng.integers(size))] = float(rng.choice([1e-6, 1e-3]))
        if alike:
            limits_t[:2] = [1e-9, 1e-9]
        pattern = ["none", "ordered", "reversed", "random", "together"][int(rng.integers(5))]
        tg.delays = None
        if case["kind"] == "straggler":
            # one trajectory takes many times as long as the others
            pattern = "straggler"
            limits_tr = [20 + i for i in range(size)]
            slow = int(rng.integers(size)) if rng.random() < 0.3 else int(rng.integers(4))
            d = [13.0, 5.0, 8.0][case["i"] % 3]
            tg.delays = {(limits_tr[slow] if how == "max" else limits_t[slow]): (d, 0.0) if rng.random() < 0.5 else (0.0, d)}
            mon.count("stragglers")
        elif pattern != "none" and size <= 40:
            offset = {}
            for pos in range(size):
                d = {"ordered": 0.02 * pos, "reversed": 0.02 * (size - pos), "random": float(rng.random()) * 0.2, "together": 0.1}[pattern]
                offset.setdefault(limits_tr[pos] if how == "max" else limits_t[pos], (d, 0.0) if rng.random() < 0.5 else (0.0, d))
            tg.delays = offset
            mon.count("delayed_calls")
        if how == "none":
            res = tg.multi_trajectory()
            mon.check(res is None or len(list(res)) == 0, "trajectories without a request", got=res)
            mon.count("calls")
            continue
        if how == "empty":
            res = tg.multi_trajectory(max_trs=[]) if rng.random() < 0.5 else tg.multi_trajectory(t_ends=[])
            mon.eq(len(list(res)) if res is not None else 0, 0, "trajectories for an empty request")
            mon.count("calls")
            continue
        kw = {"max": dict(max_trs=list(limits_tr)), "time": dict(t_ends=list(limits_t)),
              "both": dict(t_ends=list(limits_t), max_trs=[int(rng.integers(0, 5))] * max(0, size + int(rng.integers(-1, 2))))}[how]
        if how == "max" and rng.random() < 0.3:
            kw["t_ends"] = None
        res = tg.multi_trajectory(**kw)
        if rng.random() < 0.3:
            gc.collect()
        frames = list(res)
        info = dict(cards=cards, how=how, delays=pattern, size=size)
        mon.eq(len(frames), size, "wrong number of trajectories", key="number", info=info)
        all_rows = [c06.judge(mon, f, names, cards, parents, cims, info=info) for f in frames]
        if how == "max" and absorbing:
            for got, m in zip(sorted(len(r) for r in all_rows), sorted(limits_tr)):
                mon.check(got <= m + 1, "a trajectory is longer than requested", key="limits", rows=got, limit=m, info=info)
            for r in all_rows:
                # one that ends before every limit ended where nothing can change
                mon.check(len(r) > min(limits_tr) or c06.slowest_next(r, cards, parents, cims) == 0, "a trajectory is shorter than requested", key="limits", rows=len(r), info=info)
        elif how == "max":
            mon.eq(sorted(len(r) for r in all_rows), sorted(m + 1 for m in limits_tr), "the trajectories do not have the requested numbers of transitions", key="limits", info=info)
            for r in all_rows:
                L.add(r)
        else:
            slow = sum(min(-float(q[x][x]) for q in d.values() for x in range(len(q))) for d in cims)
            for last, t in zip(sorted(r[-1][0] for r in all_rows), sorted(limits_t)):
                mon.check(last <= t + 5.1e-5, "a trajectory goes beyond the requested end time", key="limits", last=last, t_end=t, info=info)
                mon.check(slow * (t - last) < 60, "a trajectory stops long before the requested end time", key="limits", last=last, t_end=t, info=info)
                mon.count("time_limited")
        for r in all_rows:
            if len(r) > 6:
                prefix = tuple(tuple(x) for x in r[1:5])
                mon.check(prefix not in seen, "two trajectories are the same", key="copies", prefix=prefix, info=info)
                # the same random numbers with another outcome: equal times are enough
                mon.check(all(tuple(x[0] for x in prefix) != tuple(x[0] for x in p) for p in seen), "two trajectories share their times", key="copies", info=info)
                mon.count("pairs_compared", len(seen))
                seen.append(prefix)
        mon.count("calls")
        mon.count("alike", alike)
        mon.count("mass_requests", size > 64)
        mon.count("other_start_methods", case["kind"] == "start")
        mon.seen(how, pattern, sorted(limits_tr) if how == "max" else limits_t, sorted(len(r) for r in all_rows))
    mon.count("transitions", L.transitions)
    if L.transitions:
        L.judge(mon)
        mon.pool.append((L.gaps, L.first_gaps, list(L.groups().get(("all",)))))
    mon.sample({"cards": cards, "parents": parents, "compared": len(seen), "transitions": L.transitions})


def finish(pool, mon):
    for which in (0, 1):
        values = [1 - np.exp(-g) for p in pool for g in p[which]]
        if len(values) >= 50:
            d, bound = law.ks_uniform(values)
            mon.check(d <= bound + 3e-3, "pooled times of parallel trajectories are not exponential", key="gap", ks=d, bound=bound, n=len(values))
    n, e = sum(p[2][0] for p in pool), sum(p[2][1] for p in pool)
    mon.check(abs(n - e) <= law.bernstein(e) + 1e-4 * e + 1, "pooled departures of parallel trajectories do not match the rates", key="rate", got=n, want=e)
    mon.count("pooled_transitions", n)
