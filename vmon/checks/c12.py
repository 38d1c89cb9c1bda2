"""Schedules and histories: the same estimate in every mode, with workers delayed at will."""
import multiprocessing
import random
import time
import zlib

import numpy as np

from .. import gen, ref
from . import c11

ID = "C12"
RULE = ("The same data estimated sequentially, in parallel with 1-9 and the default number of processes, with injected delays before and "
        "after every node's search (in order, reversed, random, one straggler), repeatedly on one estimator, on new estimators, and "
        "interleaved with searches of single nodes, with processes started by fork, spawn and fork server; constraint-based results are compared as sets with a fresh sequential run, "
        "score-based ones against the search constraints with that optimum where scores have a single one, and, their random choices fixed node by node, with a sequential run on a new estimator. Many data sets make the rule of "
        "thumb bite. Non-trivial: at least one edge and one non-edge; distinct by data and sequence of modes.")
FLOORS = {"estimates": 250, "parallel_estimates": 120, "delayed_estimates": 60, "repeated_estimates": 80, "score_parallel": 30, "score_unique_optima": 20, "same_choices": 40,
          "graphs_with_edges": 40, "limits_reached": 40, "single_searches": 20, "marked_and_removed": 4, "other_start_methods": 8, "wide": 10}

from PyCTBN import StructureConstraintBasedEstimator, StructureScoreBasedEstimator  # noqa: E402


class SlowCTPC(StructureConstraintBasedEstimator):
    delays = None

    def one_iteration_of_CTPC_algorithm(self, var_id, tot_vars_count):
        before, after = (self.delays or {}).get(str(var_id), (0, 0))
        time.sleep(before)
        out = super().one_iteration_of_CTPC_algorithm(var_id, tot_vars_count)
        time.sleep(after)
        return out


class SlowScore(StructureScoreBasedEstimator):
    delays = None
    salt = None                        # the random choices of each node's search start from (salt, node), in whatever process
    weights = None                     # {(parent, child): weight}: the best parents are those of positive weight

    def estimate_parents(self, node_id, *args, **kw):
        before, after = (self.delays or {}).get(str(node_id), (0, 0))
        time.sleep(before)
        if self.salt is not None:
            at = zlib.crc32(("%d %s" % (self.salt, node_id)).encode())
            random.seed(at)
            np.random.seed(at)
        out = super().estimate_parents(node_id, *args, **kw)
        time.sleep(after)
        return out

    def get_score_from_graph(self, graph, node_id):
        if self.weights is None:
            return super().get_score_from_graph(graph, node_id)
        graph.fast_init(node_id)
        return sum(self.weights[(str(a), str(b))] for a, b in graph.edges)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": kind, "i": i, "start": how} for i in range(2 if tier == "quick" else 8) for kind in ("ctpc", "score") for how in ("spawn", "forkserver")]
    out += [{"kind": "ctpc", "i": i, "start": "fork", "marks": True} for i in range(8 * k)]
    out += [{"kind": kind, "i": i, "start": "fork", "wide": True} for i in range(6 * k) for kind in ("ctpc", "ctpc", "score")]
    return out + [{"kind": "ctpc", "i": i, "start": "fork"} for i in range(48 * k)] + [{"kind": "score", "i": i, "start": "fork"} for i in range(24 * k)]


def make_delays(rng, names):
    n = len(names)
    how = ["none", "ordered", "reversed", "random", "straggler", "together"][int(rng.integers(6))]
    if how == "none":
        return how, None
    d = {"ordered": [0.02 * i for i in range(n)], "reversed": [0.02 * (n - i) for i in range(n)], "random": [float(x) * 0.1 for x in rng.random(n)],
         "straggler": [0.0] * n, "together": [0.05] * n}[how]
    if how == "straggler":
        d[int(rng.integers(n))] = 0.15
    return how, {x: ((v, 0.0) if rng.random() < 0.5 else (0.0, v)) for x, v in zip(names, d)}


def as_set(mon, edges, names, info):
    out = [(str(a), str(b)) for a, b in edges]
    mon.check(len(set(out)) == len(out), "an edge is returned twice", edges=out, info=info)
    mon.check(all(a in names and b in names and a != b for a, b in out), "invalid edge", edges=out, info=info)
    return set(out)


def call(rng, est, names, parallel, delays, procs="any", **kw):
    est.delays = delays
    with gen.quiet():
        if not parallel:
            return est.estimate_structure(disable_multiprocessing=True, **kw)
        if procs == "any":
            procs = [None, 1, 2, 3, 5, 8, 9][int(rng.integers(7))]
        if multiprocessing.get_start_method() != "fork":
            procs = int(rng.integers(1, 4))                    # every process imports everything again
        if procs is not None:
            kw["processes_number"] = procs
        return est.estimate_structure(**kw)


def run(case, rng, mon):
    with gen.start_method(case["start"]):
        (ctpc if case["kind"] == "ctpc" else score)(case, rng, mon)


def ctpc(case, rng, mon):
    wide = bool(case.get("wide"))
    n = int(rng.integers(9, 13)) if wide else int(rng.integers(2, 6))
    cards = gen.cardinalities(rng, n, 2, 2 if wide else 4)
    if rng.random() < 0.3 and not wide:
        cards[int(rng.integers(n))] = 5
    names = gen.labels(rng, n)
    if wide:
        parents = gen.random_parents(rng, n, 1.5 / n, 2)
        trajs = [gen.simulate(rng, cards, parents, gen.random_cims(rng, cards, parents, 0.3, 4.0), transitions=int(rng.choice([300, 1000])))]
        mon.count("wide")
    else:
        trajs = c11.make_data(rng, n, cards)
    known = [(a, b) for a in names for b in names if a != b and rng.random() < rng.choice([0.0, 0.1])]
    prior = [(a, b) for a in names for b in names if a != b and rng.random() < 0.3] if rng.random() < 0.5 else []
    a, b, _ = c11.settings(rng)
    th = int(rng.choice([25, 25, 5, 10, 100]))
    if wide:
        a, b = float(rng.choice([1e-2, 1e-3])), float(rng.choice([1e-2, 1e-3]))
    if case.get("marks"):
        cards, trajs, th, edge = c11.marked(rng)
        n = len(cards)
        names = gen.labels(rng, n)
        known, prior = [], []
        a, b = float(rng.choice([1e-4, 1e-6])), float(rng.choice([1e-4, 1e-6]))

    ignore = int(rng.integers(1 << 30)) if rng.random() < 0.2 else None
    mon.count("ignored_variables", ignore is not None)

    def path():
        with gen.quiet():
            return gen.sample_path(trajs, names, cards, prior, ignore=None if ignore is None else np.random.default_rng(ignore))

    def new(sp):
        return SlowCTPC(sp, a, b, known_edges=list(known), thumb_threshold=th)

    base = as_set(mon, call(rng, new(path()), names, False, None), names, {})
    info = dict(names=names, cards=cards, alfas=(a, b), threshold=th, known=known, rows=sum(map(len, trajs)))
    sp = path()
    est = new(sp)
    if case.get("marks"):
        mon.count("marked_and_removed", (names[edge[0]], names[edge[1]]) not in base)
    history = []
    for step in range(5):
        parallel = wide and step < 2 or bool(rng.random() < (0.3 if case.get("marks") else 0.6))
        how, delays = make_delays(rng, names) if parallel and not (wide and step == 0) else ("none", None)
        procs = step + 1 if wide and step < 2 else "any"
        r = rng.random()
        if r < 0.25:
            est = new(sp)
            history.append("new estimator")
        elif r < 0.35:
            sp = path()
            est = new(sp)
            history.append("new sample path")
        elif step:
            mon.count("repeated_estimates")
        if rng.random() < 0.35:
            node = names[int(rng.integers(n))]
            with gen.quiet():
                sp.structure.clean_structure_edges()
                one = as_set(mon, est.one_iteration_of_CTPC_algorithm(node, sp.total_variables_count), names, info)
                for e in prior:
                    sp.structure.add_edge(e)
            history.append(("single", node))
            mon.eq(one, {e for e in base if e[1] == node}, "a single search gives other parents", key="single", history=history, info=info)
            mon.count("single_searches")
        history.append(("parallel " + how) if parallel else "sequential")
        got = as_set(mon, call(rng, est, names, parallel, delays, procs), names, info)
        mon.eq(got, base, "the estimate depends on the mode or on the history", key="ctpc", history=history, info=info)
        view = {(names[i], names[j]) for i, j in zip(*np.nonzero(est.adjacency_matrix()))}
        mon.eq(view, base, "the adjacency matrix depends on the mode or on the history", key="view", history=history, info=info)
        mon.eq([tuple(map(str, e)) for e in sp.structure.edges], prior, "the prior structure changed", key="prior", history=history, info=info)
        mon.count("estimates")
        mon.count("parallel_estimates", parallel)
        mon.count("delayed_estimates", how != "none")
        mon.count("other_start_methods", parallel and case["start"] != "fork")
    mon.count("graphs_with_edges", bool(base))
    if 0 < len(base) < n * (n - 1):
        mon.seen(case["i"], sorted(base), history)
    mon.sample(dict(info, history=history, edges=sorted(base)))


def score(case, rng, mon):
    wide = bool(case.get("wide"))
    mon.count("wide", wide)
    n = int(rng.integers(8, 13)) if wide else int(rng.integers(2, 7))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 3))
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, 60)]
    known = [(a, b) for a in names for b in names if a != b and rng.random() < 0.15]
    prior = [(a, b) for a in names for b in names if a != b and rng.random() < 0.3] if rng.random() < 0.5 else []
    ignore = rng if rng.random() < 0.2 else None
    mon.count("ignored_variables", ignore is not None)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, prior, ignore=ignore)
        est = SlowScore(sp, known_edges=list(known))
    unique = rng.random() < (0.9 if wide else 0.6)
    # otherwise half of the searches would take every parent they may: only the constraints keep them from it
    greedy = not unique and rng.random() < 0.6
    if unique or greedy:
        est.weights = {(a, b): float(rng.integers(1, 9)) * (1 if greedy or rng.random() < 0.5 else -1) for a in names for b in names if a != b}
    history = []
    for step in range(4):
        parallel = wide and step < 2 or bool(rng.random() < 0.7)
        how, delays = make_delays(rng, names) if parallel and not (wide and step == 0) else ("none", None)
        procs = step + 1 if wide and step < 2 else "any"
        kw = dict(optimizer="tabu" if rng.random() < 0.5 else "hill", iterations_number=60 * n if unique else int(rng.choice([0, 3, 15])))
        if greedy:
            kw["iterations_number"] = 60 * n
        if greedy or not unique and rng.random() < 0.5:
            kw["max_parents"] = int(rng.integers(0, n))
        if not unique and not greedy and rng.random() < 0.5:
            kw["patience"] = int(rng.integers(0, 6))
        if kw["optimizer"] == "tabu" and rng.random() < 0.5:
            kw["tabu_length"], kw["tabu_rules_duration"] = int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1))
        history.append((parallel, how, kw))
        info = dict(names=names, known=known, history=history)
        if parallel or rng.random() < 0.3:
            est.salt = int(rng.integers(1 << 30))
        got = as_set(mon, call(rng, est, names, parallel, delays, procs, **kw), names, info)
        if est.salt is not None:
            # with its random choices fixed per node the search must take the same way in every mode, and on a new estimator
            with gen.quiet():
                again = SlowScore(gen.sample_path(trajs, names, cards, []), known_edges=list(known))
            again.weights, again.salt = est.weights, est.salt
            mon.eq(as_set(mon, call(rng, again, names, False, None, **kw), names, info), got, "with the same random choices the mode or the history changes the result", key="mode", info=info)
            mon.count("same_choices")
            est.salt = None
        mon.check(set(known) <= got, "a known edge was lost", key="known", got=got, info=info)
        limit = kw.get("max_parents")
        for x in names:
            ps = [a for a, b in got if b == x]
            ks = [a for a, b in known if b == x]
            mon.check(limit is None or len(ps) <= max(limit, len(ks)), "more parents than allowed", key="limit", node=x, parents=ps, info=info)
            if greedy:
                mon.check(len(ps) >= min(limit, n - 1), "an addition improves the result although the limit allows it", key="limit", node=x, parents=ps, info=info)
                mon.count("limits_reached")
        if unique:
            want = {e for e, w in est.weights.items() if w > 0} | set(known)
            mon.eq(got, want, "not the best graph of a search with a single optimum", key="score", info=info)
            mon.count("score_unique_optima")
        view = {(names[i], names[j]) for i, j in zip(*np.nonzero(est.adjacency_matrix()))}
        mon.eq(view, got, "the adjacency matrix differs from the result", key="view", info=info)
        mon.eq([tuple(map(str, e)) for e in sp.structure.edges], prior, "the prior structure changed", key="prior", info=info)
        mon.count("estimates")
        mon.count("score_parallel", parallel)
        mon.count("parallel_estimates", parallel)
        mon.count("delayed_estimates", how != "none")
        mon.count("other_start_methods", parallel and case["start"] != "fork")
        if 0 < len(got) < n * (n - 1):
            mon.seen(case["i"], sorted(got), str(history))
    mon.count("graphs_with_edges", bool(got))
    mon.sample(dict(info, edges=sorted(got)))
