"""Settings: an omitted one takes its documented default, and a given one means the same by position and by name."""
import os
import random

import numpy as np

from .. import gen, ref
from . import c06, c09, c10, c11, c12, c17, c21

ID = "C23"
RULE = ("Random data and networks. Every public operation with optional settings (score-based and constraint-based estimation, scores, sampling alone and "
        "in parallel, generating graphs, importing, exporting, the optimizers) is called with a random subset of its settings omitted and a random "
        "prefix of the others by position, and again with all of them by name and the documented defaults written out, under equal seeds: results, and for "
        "searches every evaluated parent set, must be the same. Defaults with a meaning of their own are also judged against references: tau 0.1 and alpha 1 "
        "against the closed form, the threshold 25 against a reference CTPC on data where it decides, 40 iterations by counting, the number of processes by "
        "the identities of the processes that did the work. Zeros given for a threshold, iterations, parents, patience, limits and densities are not mistaken for omitted settings. Non-trivial: the omitted setting matters (another value gives another result); distinct by operation, settings and data.")
FLOORS = {"searches": 150, "one_node_searches": 150, "parallel_searches": 150, "search_default_matters": 60, "default_scores": 200, "default_parts": 400, "default_score_matters": 120, "thumb_decides": 8, "judged_by_reference": 60, "alfas_decide": 2, "iteration_counts": 60, "samples": 100, "long_samples": 4,
          "generated": 60, "imports": 60, "exports": 20, "processes_counted": 50, "known_edges_of_others": 40, "threshold_zero_matters": 15, "zeros": 150}

from PyCTBN import StructureConstraintBasedEstimator, StructureScoreBasedEstimator  # noqa: E402


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return ([{"kind": "sample", "i": i} for i in range(40 * k)] + [{"kind": "search", "i": i} for i in range(60 * k)] + [{"kind": "count", "i": i} for i in range(24 * k)]
            + [{"kind": "scores", "i": i} for i in range(60 * k)] + [{"kind": "thumb", "i": i} for i in range(40 * k)]
            + [{"kind": "generate", "i": i} for i in range(24 * k)]
            + [{"kind": "files", "i": i} for i in range(30 * k)] + [{"kind": "processes", "i": i} for i in range(16 * k)]
            + [{"kind": "others", "i": i} for i in range(24 * k)] + [{"kind": "zero", "i": i} for i in range(24 * k)])


def run(case, rng, mon):
    globals()["run_" + case["kind"]](case, rng, mon)


def as_given(rng, order, values, defaults):
    """(args, kwargs, omitted): ``values`` given in one of the possible ways; those equal to their default may be omitted."""
    args, n = [], int(rng.integers(len(order) + 1))
    for name in order[:n]:
        args.append(values[name])
    kw, omitted = {}, []
    for name in order[n:]:
        if name in defaults and values[name] is defaults[name] or (name in defaults and type(values[name]) is type(defaults[name]) and values[name] == defaults[name]):
            omitted.append(name)
        else:
            kw[name] = values[name]
    names = [list(kw)[i] for i in rng.permutation(len(kw))]
    return args, {k: kw[k] for k in names}, omitted


# ---------------------------------------------------------------- searches

SEARCH = ["max_parents", "iterations_number", "patience", "tabu_length", "tabu_rules_duration", "optimizer", "disable_multiprocessing"]
SEARCH_DEFAULTS = {"max_parents": None, "iterations_number": 40, "patience": None, "tabu_length": None, "tabu_rules_duration": None, "optimizer": "tabu"}


def run_search(case, rng, mon):
    n = int(rng.integers(2, 7))
    cards = gen.cardinalities(rng, n, 2, 3)
    names = gen.labels(rng, n)
    with gen.quiet():
        sp = gen.sample_path(c10.data(rng, n, cards), names, cards, [])
    table = c10.random_table(rng, names)

    def log(s, call):
        est = c10.Logged(sp)
        est.table, est.log = table, []
        c21.seeded(s)
        with gen.quiet():
            out = call(est)
        return sorted((str(a), str(b)) for a, b in out), [(node, sorted(p)) for node, p, _, _ in est.log]

    for step in range(4):
        values = dict(SEARCH_DEFAULTS)
        for name, other in (("max_parents", int(rng.integers(0, n))), ("iterations_number", int(rng.choice([3, 10, 39, 41, 80]))), ("patience", int(rng.integers(0, 8))),
                            ("tabu_length", int(rng.integers(0, n + 1))), ("tabu_rules_duration", int(rng.integers(0, n + 1))), ("optimizer", "hill")):
            if rng.random() < 0.35:
                values[name] = other
        full = dict(values)
        values["disable_multiprocessing"] = True
        args, kw, omitted = as_given(rng, SEARCH, values, SEARCH_DEFAULTS)
        s = int(rng.integers(2 ** 31))
        got = log(s, lambda e: e.estimate_structure(*args, **kw))
        want = log(s, lambda e: e.estimate_structure(disable_multiprocessing=True, **full))
        info = dict(names=names, args=args, keywords=kw, written_out=full)
        mon.eq(got[0], want[0], "another result with settings omitted or given by position", key="search", info=info)
        mon.eq(got[1], want[1], "other parent sets are evaluated with settings omitted or given by position", key="search", info=info)
        mon.count("searches")
        # would another value of an omitted setting be noticed?
        for name in omitted:
            alt = dict(full, **{name: {"max_parents": 1, "iterations_number": 30, "patience": 3, "tabu_length": 1, "tabu_rules_duration": 2, "optimizer": "hill"}[name]})
            if log(s, lambda e: e.estimate_structure(disable_multiprocessing=True, **alt)) != want:
                mon.count("search_default_matters")
                mon.count("matters_" + name)
                mon.seen("search", case["i"], step, name)
        # the same in parallel, the random choices fixed node by node
        if step == 0:
            outcomes = []
            given = as_given(rng, SEARCH[:6], full, SEARCH_DEFAULTS)[:2]
            for args, kw in (given, ((), dict(full)), given, ((), dict(full, disable_multiprocessing=True))):
                est = c12.SlowScore(sp)
                est.weights, est.salt = {(x, y): float(rng.integers(-8, 9)) for x in names for y in names}, s
                est.weights = outcomes[0][1] if outcomes else est.weights
                with gen.quiet():
                    outcomes.append((sorted((str(x), str(y)) for x, y in est.estimate_structure(*args, **kw)), est.weights))
                mon.eq(outcomes[-1][0], outcomes[0][0], "another result in parallel with settings omitted or given by position", key="parallel-search", args=args, keywords=kw, given=given, info=info)
                mon.count("parallel_searches")
        # the optimizers themselves, on one node
        node = names[int(rng.integers(n))]
        opt = {k: full[k] for k in (SEARCH[:5] if full["optimizer"] == "tabu" else SEARCH[:3])}
        a2, k2, _ = as_given(rng, list(opt), opt, SEARCH_DEFAULTS)

        a3, k3, omitted3 = as_given(rng, SEARCH[:6], full, SEARCH_DEFAULTS)
        mon.eq(log(s, lambda e: e.estimate_parents(node, *a3, **k3)), log(s, lambda e: e.estimate_parents(node, **dict(full))),
               "the search of one node with settings omitted or given by position differs", key="one-node", args=a3, keywords=k3, omitted=omitted3, info=info)
        mon.count("one_node_searches")

        def single(est, *args, **kw):
            from PyCTBN.PyCTBN.optimizers.hill_climbing_search import HillClimbing
            from PyCTBN.PyCTBN.optimizers.tabu_search import TabuSearch
            return (TabuSearch if full["optimizer"] == "tabu" else HillClimbing)(node, est, *args, **kw).optimize_structure()

        mon.eq(log(s, lambda e: single(e, *a2, **k2)), log(s, lambda e: e.estimate_parents(node, **dict(full))), "an optimizer with settings omitted or by position differs from the estimator's",
               key="optimizer", args=a2, keywords=k2, info=info)
    mon.sample(dict(info, evaluated=len(want[1])))


def run_count(case, rng, mon):
    """At most 40 iterations by default, one evaluation each."""
    n = int(rng.integers(3, 8))
    names = gen.labels(rng, n)
    with gen.quiet():
        sp = gen.sample_path([gen.raw_trajectory(rng, [2] * n, 30)], names, [2] * n, [])
    for how in ("default", "hill"):
        def evaluations(**more):
            est = c10.Logged(sp)
            est.table, est.log = c10.random_table(rng, names), []
            kw = {} if how == "default" else {"optimizer": "hill"}
            with gen.quiet():
                est.estimate_structure(disable_multiprocessing=True, **kw, **more)
            return {x: sum(1 for e in est.log if e[0] == x) for x in names}
        # the evaluations before the first iteration: those of no iteration at all
        before, by_default, one_more = evaluations(iterations_number=0), evaluations(), evaluations(iterations_number=41)
        info = dict(names=names, optimizer=how)
        for x in names:
            mon.check(by_default[x] - before[x] <= 40, "more than 40 iterations by default", key="iterations", node=x, evaluations=by_default[x], before=before[x], info=info)
            mon.check(one_more[x] - before[x] <= 41, "more iterations than asked for", key="iterations", node=x, evaluations=one_more[x], before=before[x], info=info)
            mon.count("iterations_used_up", by_default[x] - before[x] == 40)
            mon.count("iteration_counts")
        mon.seen("count", case["i"], how)
    mon.sample(dict(info, evaluations=by_default))


# ---------------------------------------------------------------- scores

def run_scores(case, rng, mon):
    from PyCTBN import ConditionalIntensityMatrix, FamScoreCalculator
    n = int(rng.integers(1, 5))
    cards = gen.cardinalities(rng, n, 2, 4)
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([3, 30, 200]))) for _ in range(2)]
    trans = ref.transitions(trajs)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, [])
    for step in range(5):
        values = {"sample_path": sp, "tau_xu": 0.1, "alpha_xu": 1, "known_edges": []}
        if rng.random() < 0.5:
            values["tau_xu"] = float(rng.uniform(0.05, 4))
        if rng.random() < 0.5:
            values["alpha_xu"] = float(rng.uniform(0.05, 4))
        args, kw, omitted = as_given(rng, list(values), values, {"tau_xu": 0.1, "alpha_xu": 1, "known_edges": []})
        est = StructureScoreBasedEstimator(*args, **kw)
        node = int(rng.integers(n))
        parents = [p for p in range(n) if p != node and rng.random() < 0.5]
        g = gen.node_graph(names, cards, [(names[p], names[node]) for p in parents])
        got = est.get_score_from_graph(g, names[node])
        st = list(ref.stats(trans, node, parents, cards).values())
        info = dict(names=names, cards=cards, node=names[node], parents=parents, positional=len(args), keywords={k: v for k, v in kw.items() if k != "sample_path"}, omitted=omitted)
        judge_score(mon, got, st, values["tau_xu"], values["alpha_xu"], omitted, "the score of an estimator", info)
        arr = np.empty(len(st), dtype=object)
        arr[:] = [ConditionalIntensityMatrix(state_residence_times=np.array(T, dtype=float), state_transition_matrix=np.array(M)) for T, M in st]
        values = {"cims": arr, "tau_xu": values["tau_xu"], "alpha_xu": values["alpha_xu"]}
        args, kw, omitted = as_given(rng, list(values), values, {"tau_xu": 0.1, "alpha_xu": 1})
        got = FamScoreCalculator().get_fam_score(*args, **kw)
        judge_score(mon, got, st, values["tau_xu"], values["alpha_xu"], omitted, "a score", dict(info, omitted=omitted))
        calc = FamScoreCalculator()
        q, _, mag = c09.terms(st, 0.1, 1)
        k, c = cards[node], int(rng.integers(len(st)))
        x = int(rng.integers(k))
        for what, got, want in (("q part", calc.marginal_likelihood_q(arr), q), ("q part of a matrix", calc.variable_cim_xu_marginal_likelihood_q(arr[c]), q[c * k:(c + 1) * k]),
                                ("q term", calc.single_cim_xu_marginal_likelihood_q(st[c][1][x][x], st[c][0][x]), q[c * k + x:c * k + x + 1])):
            mon.check(c09.near(got, sum(want), mag), "the %s without hyperparameters is not the one of the documented defaults" % what, key="parts", got=got, want=sum(want), info=info)
            mon.count("default_parts")
        mon.seen("score", case["i"], step)
    mon.sample(info)


def judge_score(mon, got, st, tau, alpha, omitted, what, info):
    q, th, mag = c09.terms(st, tau, alpha)
    want = sum(q) + sum(th)
    mon.check(c09.near(got, want, mag), what + " is not the one of its settings and the documented defaults", key="score", got=got, want=want, tau=tau, alpha=alpha, info=info)
    mon.count("default_scores")
    for name, alt in (("tau_xu", (1.0, alpha)), ("alpha_xu", (tau, 0.1))):
        if name in omitted:
            q2, th2, _ = c09.terms(st, *alt)
            mon.count("default_score_matters", not c09.near(sum(q2) + sum(th2), want, mag))


# ---------------------------------------------------------------- the rule of thumb

def run_thumb(case, rng, mon):
    """Data with 10 to 60 transitions per pair of assignments: with other thresholds than 25 other edges remain."""
    n = int(rng.integers(3, 5))
    cards = gen.cardinalities(rng, n, 3, 4)
    parents = gen.random_parents(rng, n, 0.3, 1)
    style = case["i"] % 3
    names = gen.labels(rng, n)
    rows = int(rng.choice([400, 800, 1600]))
    a, b = float(10 ** rng.uniform(-4, -1)), float(10 ** rng.uniform(-4, -1))
    if style == 0:                                          # independent variables: the rule of thumb decides about their edges
        parents = [[] for _ in range(n)]
        a, b = 1e-9, 1e-9
    cims = gen.random_cims(rng, cards, parents, 0.8, 1.6)
    if style == 2:                                          # the parents change the rates and nothing else: the exponential test decides
        parents = [[(i + 1) % n] for i in range(n)]
        cims = c11.network(cards, parents, lambda i, u, x, z: (0.6, 1.0, 1.9, 2.4)[u[0]] / (cards[i] - 1))
        a, b = [(1e-14, 1e-3), (1e-3, 1e-14)][int(rng.integers(2))]
        rows = int(rng.choice([1000, 1500]))
    traj = gen.simulate(rng, cards, parents, cims, transitions=rows if style else 6000)
    if style == 0:                                          # about 25 departures of a variable for each degree of freedom
        child, other = [int(x) for x in rng.permutation(n)[:2]]
        want, seen = rng.uniform(20.5, 29.5) * (cards[child] - 1) ** 2 * cards[other], 0
        for j in range(1, len(traj) - 1):
            seen += traj[j][1 + child] != traj[j - 1][1 + child]
            if seen >= want:
                traj = traj[:j + 1] + [[traj[j + 1][0]] + [-1] * n]
                break
        rows = len(traj)
    with gen.quiet():
        sp = gen.sample_path([traj], names, cards, [])

    def edges(*args, **kw):
        with gen.quiet():
            est = StructureConstraintBasedEstimator(*args, **kw)
            return sorted((str(x), str(y)) for x, y in est.estimate_structure(disable_multiprocessing=True))

    def full(th):
        return edges(sample_path=sp, exp_test_alfa=a, chi_test_alfa=b, known_edges=[], thumb_threshold=th)

    want = full(25)
    values = {"sample_path": sp, "exp_test_alfa": a, "chi_test_alfa": b, "known_edges": [], "thumb_threshold": 25}
    info = dict(names=names, cards=cards, rows=rows, alfas=(a, b))
    omitted = ["thumb_threshold"]
    for _ in range(3):
        args, kw, omitted = as_given(rng, list(values), values, {"known_edges": [], "thumb_threshold": 25})
        got = edges(*args, **kw)
        mon.eq(got, want, "another structure with settings omitted or given by position", key="ctpc", positional=len(args), omitted=omitted, info=info)
        mon.count("ctpc_estimates")
    mon.eq(edges(sp, a, b), want, "another structure with the settings omitted", key="ctpc", info=info)
    trans = ref.transitions([traj])
    for node in range(n):
        prescribed = c11.expected(trans, cards, a, b, 25, [], node)
        if prescribed is not None:
            mon.eq(sorted(names.index(x) for x, y in want if y == names[node]), sorted(prescribed[0]), "not the parents CTPC prescribes with a threshold of 25", key="ctpc", node=node, info=info)
            mon.count("judged_by_reference")
    others = [th for th in (20, 30) if full(th) != want]
    mon.count("thumb_decides", bool(others))
    # significance levels by position: swapped they would usually decide otherwise
    mon.count("alfas_decide", edges(sp, b, a) != want)
    th = int(rng.choice([5, 60]))
    known = [(x, y) for x in names for y in names if x != y and rng.random() < 0.2]
    mon.eq(edges(sp, a, b, known, th), edges(sample_path=sp, exp_test_alfa=a, chi_test_alfa=b, known_edges=known, thumb_threshold=th), "by position and by name differ", key="ctpc", info=info)
    if others:
        mon.seen("thumb", case["i"])
    mon.sample(dict(info, edges=want, others=others))


# ---------------------------------------------------------------- sampling and generating

def run_sample(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    names, cards, parents, cims = c06.network(rng, n=int(rng.integers(1, 6)))
    table = c06.edge_table(rng, names, parents)
    frame, lib = gen.variables_frame(names, cards), gen.to_library_cims(names, cards, parents, cims)
    tg = TrajectoryGenerator(variables=frame, dyn_str=table, dyn_cims=lib)
    info = dict(names=names, cards=cards, parents=parents)
    by_position = TrajectoryGenerator(None, frame, table, lib)
    for step in range(3):
        t_end, max_tr = float(rng.choice([0.4, 2.0, 5.0])), int(rng.integers(1, 30))
        for full, calls in (({"t_end": t_end, "max_tr": -1}, [((t_end,), {}), ((), {"t_end": t_end}), ((t_end, -1), {})]),
                            ({"t_end": -1, "max_tr": max_tr}, [((), {"max_tr": max_tr}), ((-1, max_tr), {}), ((-1,), {"max_tr": max_tr})]),
                            ({"t_end": t_end, "max_tr": max_tr}, [((t_end, max_tr), {}), ((t_end,), {"max_tr": max_tr})])):
            s = int(rng.integers(2 ** 31))
            c21.seeded(s)
            want = c21.rows(tg.CTBN_Sample(**full))
            args, kw = calls[int(rng.integers(len(calls)))]
            c21.seeded(s)
            other = by_position if rng.random() < 0.5 else tg
            mon.eq(c21.rows(other.CTBN_Sample(*args, **kw)), want, "another trajectory with limits omitted or given by position", key="sample", args=args, keywords=kw, info=info)
            mon.count("samples")
            mon.seen("sample", case["i"], step, len(want))
    if case["i"] % 6 == 1:
        # no limit on the number of transitions by default: a fast network until a late end
        fast = [{u: np.array(q) * 100.0 for u, q in d.items()} for d in cims]
        quick = TrajectoryGenerator(variables=frame, dyn_str=table, dyn_cims=gen.to_library_cims(names, cards, parents, fast))
        slow = sum(min(-float(q[x][x]) for q in d.values() for x in range(len(q))) for d in fast)
        mean = sum(float(np.mean([-q[x][x] for q in d.values() for x in range(len(q))])) for d in fast)
        t_end = max((12000 if case["i"] % 12 == 1 else 2500) / mean, 200.0 / slow)
        rows = c21.rows(quick.CTBN_Sample(t_end) if rng.random() < 0.5 else quick.CTBN_Sample(t_end=t_end))
        # the process is silent for so long at the end with probability below exp(-60)
        mon.check(slow * (t_end - rows[-1][0]) < 60, "the trajectory stops long before its end time", key="limit", rows=len(rows), last=rows[-1][0], t_end=t_end, info=info)
        mon.top("max_rows", len(rows))
        mon.count("long_samples")
        # nor on the time
        many = int(rng.choice([300, 1000, 2500]))
        rows = c21.rows(tg.CTBN_Sample(max_tr=many))
        mon.eq(len(rows), many + 1, "the trajectory stops before its last transition", key="limit", max_tr=many, last=rows[-1][0], info=info)
    if case["i"] % 2 == 0:
        ends, trs = [float(x) for x in rng.uniform(0.3, 3.0, 3)], [int(x) for x in rng.integers(1, 20, 3)]
        for full, calls in (({"t_ends": ends, "max_trs": None}, [((ends,), {}), ((), {"t_ends": ends})]),
                            ({"t_ends": None, "max_trs": trs}, [((), {"max_trs": trs}), ((None, trs), {})]),
                            ({"t_ends": ends, "max_trs": trs}, [((ends, trs), {}), ((ends,), {"max_trs": trs})])):
            s = int(rng.integers(2 ** 31))
            c21.seeded(s)
            want = sorted(c21.rows(f) for f in tg.multi_trajectory(**full))
            args, kw = calls[int(rng.integers(len(calls)))]
            c21.seeded(s)
            mon.eq(sorted(c21.rows(f) for f in by_position.multi_trajectory(*args, **kw)), want, "other parallel trajectories with limits omitted or given by position",
                   key="parallel", args=args, keywords=kw, info=info)
            mon.count("parallel_samples")
    mon.sample(info)


def run_generate(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = int(rng.integers(2, 7))
    names, cards = gen.labels(rng, n), gen.cardinalities(rng, n, 2, 3)

    def make(density, lo, hi, s, how):
        ng = NetworkGenerator(list(names), list(cards)) if how else NetworkGenerator(labels=list(names), vals=list(cards))
        c21.seeded(s)
        if how == 1:
            ng.generate_graph(density)
            ng.generate_cims(lo, hi)
        elif how == 2:
            ng.generate_graph(density, False)
            ng.generate_cims(lo, max_val=hi)
        else:
            ng.generate_graph(density=density, fixed=False)
            ng.generate_cims(max_val=hi, min_val=lo)
        return sorted(map(tuple, ng.dyn_str.to_numpy().tolist())), [[np.asarray(c.cim).tolist() for c in ng.cims[x].actual_cims] for x in names]

    for step in range(2):
        density, s = float(rng.uniform(0.1, 0.5)), int(rng.integers(2 ** 31))
        lo = float(rng.uniform(0.2, 1))
        want = make(density, lo, lo + 2, s, 0)
        for how in (1, 2):
            mon.eq(make(density, lo, lo + 2, s, how), want, "another network with settings omitted or given by position", key="network", density=density, names=names)
            mon.count("generated")
        # by default the density is a probability: one that no number of edges has is accepted, and the numbers of edges differ
        mon.seen("network", case["i"], step)
    ng = NetworkGenerator(list(names), list(cards))
    m = n * (n - 1)
    sizes = []
    for _ in range(60):
        ng.generate_graph(float(m // 2) / m)
        sizes.append(len(ng.dyn_str))
    # a fixed density would give m // 2 edges each time; free ones do so 60 times with probability below 1e-18 (0.5 ** 60 for two nodes)
    mon.check(len(set(sizes)) > 1, "by default every graph has the same number of edges", key="free", names=names, density=float(m // 2) / m, sizes=sizes)
    mon.sample(dict(names=names, density=density, edges=want[0]))


# ---------------------------------------------------------------- importing and exporting

def content(imp):
    sp = c17.build(imp)
    tr = sp.trajectories
    return ([float(t) for t in tr.times], np.asarray(tr.trajectory).tolist(), [str(x) for x in sp.structure.nodes_labels],
            [int(x) for x in sp.structure.nodes_values], [tuple(map(str, e)) for e in sp.structure.edges])


def run_files(case, rng, mon):
    import json
    from PyCTBN import JsonImporter, SampleImporter
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    n = int(rng.integers(1, 5))
    names, cards = gen.labels(rng, n), gen.cardinalities(rng, n, 2, 4)
    sets = []
    for _ in range(int(rng.integers(2, 4))):
        edges = [(a, b) for a in names for b in names if a != b and rng.random() < 0.3]
        sets.append((edges, [gen.raw_trajectory(rng, cards, int(rng.integers(2, 12))) for _ in range(2)]))
    info = dict(names=names, cards=cards, sets=len(sets))

    def frames(trajs):
        return [gen.frame(t, names) for t in trajs]

    # frames: the presentation by position is the reference for the others
    edges, trajs = sets[0]
    values = {"trajectory_list": frames(trajs), "variables": gen.variables_frame(names, cards), "prior_net_structure": gen.edges_frame(edges) if edges else None}

    def imported(args, kw, *header):
        imp = SampleImporter(*args, **kw)
        imp.import_data(*header)
        return content(imp)

    want = imported((), {k: v for k, v in values.items()}, None)
    mon.eq(want[4], edges, "not the prior edges given", key="import", info=info)
    for k in range(4):
        vals = dict(values, trajectory_list=frames(trajs))
        got = imported([list(vals.values())[j] for j in range(k)], dict(list(vals.items())[k:]), *([] if rng.random() < 0.5 else [list(names)]))
        mon.eq(got, want, "another content with settings omitted or given by position", key="import", positional=k, info=info)
        mon.count("imports")
    if not edges:
        mon.eq(imported([frames(trajs), gen.variables_frame(names, cards)], {}), want, "another content without prior edges", key="import", info=info)
        mon.count("imports")

    # files: the first data set by default
    path = os.path.abspath("d%d.json" % int(rng.integers(10 ** 9)))
    with open(path, "w") as f:
        json.dump([{"dyn.str": [{"From": a, "To": b} for a, b in es], "variables": [{"Name": a, "Value": int(c)} for a, c in zip(names, cards)],
                    "samples": [c17.json_traj(t, names) for t in ts]} for es, ts in sets], f)
    order = ["file_path", "samples_label", "structure_label", "variables_label", "time_key", "variables_key", "cims_label"]
    values = dict(zip(order, [path, "samples", "dyn.str", "variables", "Time", "Name", None]))
    for _ in range(3):
        args, kw, omitted = as_given(rng, order, values, {"cims_label": None})
        imp = JsonImporter(*args, **kw)
        if rng.random() < 0.7:
            imp.import_data()
        else:
            imp.import_data(0) if rng.random() < 0.5 else imp.import_data(indx=0)
        mon.eq(content(imp), want, "another content with settings omitted or given by position", key="file", positional=len(args), omitted=omitted, info=info)
        mon.count("imports")
    j = int(rng.integers(1, len(sets)))
    imp = JsonImporter(*[values[k] for k in order[:6]])
    imp.import_data(j)
    mon.eq(content(imp)[4], sets[j][0], "not the edges of the data set asked for", key="file", index=j, info=info)
    os.unlink(path)

    # exports
    net = c06.network(rng, n=int(rng.integers(1, 4)))
    table = c06.edge_table(rng, net[0], net[2])
    variables, cims = gen.variables_frame(net[0], net[1]), gen.to_library_cims(*net)
    texts = []
    for k in range(4):
        vals = {"variables": variables, "dyn_str": table, "dyn_cims": cims}
        exp = JsonExporter(*list(vals.values())[:k], **dict(list(vals.items())[k:]))
        exp.add_trajectory(gen.frame(gen.raw_trajectory(np.random.default_rng(5), net[1], 6), net[0]))
        exp.out_file("e.json")
        with open("e.json") as f:
            texts.append(f.read())
        os.unlink("e.json")
    mon.check(len(set(texts)) == 1, "another file with settings given by position", key="export", texts=texts[:2], info=info)
    mon.count("exports")
    mon.seen("files", case["i"])
    mon.sample(dict(info, edges=edges))


# ---------------------------------------------------------------- processes

def noted(folder):
    with open(os.path.join(folder, "%d.%d" % (os.getpid(), random.SystemRandom().getrandbits(60))), "w"):
        pass


class NotedCTPC(StructureConstraintBasedEstimator):
    folder = None

    def one_iteration_of_CTPC_algorithm(self, *args, **kw):
        noted(self.folder)
        return super().one_iteration_of_CTPC_algorithm(*args, **kw)


class NotedScore(StructureScoreBasedEstimator):
    folder = None

    def estimate_parents(self, *args, **kw):
        noted(self.folder)
        return super().estimate_parents(*args, **kw)


def run_processes(case, rng, mon):
    """Without multiprocessing the calling process does everything; otherwise others do, no more of them than allowed."""
    n = int(rng.integers(3, 9))
    names = gen.labels(rng, n)
    with gen.quiet():
        sp = gen.sample_path([gen.raw_trajectory(rng, [2] * n, 40)], names, [2] * n, [])
    for cls in (NotedCTPC, NotedScore):
        for step in range(3):
            folder = os.path.abspath("p%d" % int(rng.integers(10 ** 9)))
            os.mkdir(folder)
            limit = int(rng.integers(1, 5))
            values, defaults = {"disable_multiprocessing": step == 0, "processes_number": limit if rng.random() < 0.7 else None}, {"disable_multiprocessing": False, "processes_number": None}
            if cls is NotedScore:
                values = dict({"max_parents": None, "iterations_number": 4, "patience": None, "tabu_length": None, "tabu_rules_duration": None, "optimizer": "tabu"}, **values)
                defaults = dict(SEARCH_DEFAULTS, **defaults)
            args, kw, omitted = as_given(rng, list(values), values, defaults)
            est = cls(sp) if cls is NotedScore else cls(sp, 0.1, 0.1)
            est.folder = folder
            with gen.quiet():
                est.estimate_structure(*args, **kw)
            names_seen = os.listdir(folder)
            pids = {int(x.split(".")[0]) for x in names_seen}
            for x in names_seen:
                os.unlink(os.path.join(folder, x))
            os.rmdir(folder)
            info = dict(args=args, keywords=kw, nodes=n, estimator=cls.__name__, processes=sorted(pids), me=os.getpid())
            mon.eq(len(names_seen), n, "not one search per node", key="processes", info=info)
            if step == 0:
                mon.eq(pids, {os.getpid()}, "work is given to other processes although multiprocessing is disabled", key="processes", info=info)
            else:
                mon.check(os.getpid() not in pids, "no process is used although multiprocessing is not disabled", key="processes", info=info)
                if values["processes_number"] is not None:
                    mon.check(len(pids) <= values["processes_number"], "more processes than allowed", key="processes", info=info)
            mon.count("processes_counted")
            mon.seen("processes", case["i"], cls.__name__, step)
    mon.sample(info)


# ---------------------------------------------------------------- what others were given

def run_others(case, rng, mon):
    """Omitted settings never come from other objects of the same class."""
    n = int(rng.integers(2, 6))
    names = gen.labels(rng, n)
    with gen.quiet():
        sp = gen.sample_path([gen.raw_trajectory(rng, [2] * n, 80)], names, [2] * n, [])
        other_path = gen.sample_path([gen.raw_trajectory(rng, [2] * n, 80)], names, [2] * n, [])
    pairs = [(a, b) for a in names for b in names if a != b]
    table = c10.random_table(rng, names)

    def edges(est, **kw):
        with gen.quiet():
            return sorted((str(a), str(b)) for a, b in est.estimate_structure(disable_multiprocessing=True, **kw))

    def ctpc():
        return edges(StructureConstraintBasedEstimator(sp, 1e-3, 1e-3))

    def score():
        est = c10.Logged(sp)
        est.table, est.log = table, []
        c21.seeded(7)
        return edges(est), [(node, sorted(p)) for node, p, _, _ in est.log]

    def likelihood():
        return [float(np.real(StructureScoreBasedEstimator(sp).get_score_from_graph(gen.node_graph(names, [2] * n, [e for e in pairs[:2] if e[1] == x]), x))) for x in names]

    first = ctpc(), score(), likelihood()
    for step in range(3):
        known = [pairs[i] for i in rng.permutation(len(pairs))[:int(rng.integers(1, len(pairs) + 1))]]
        with gen.quiet():
            busy = [StructureConstraintBasedEstimator(other_path, 0.5, 0.5, known, int(rng.integers(100))), StructureScoreBasedEstimator(other_path, 3.0, 2, known)]
            for est in busy:
                edges(est, **({"iterations_number": 5, "max_parents": 1, "patience": 1} if isinstance(est, StructureScoreBasedEstimator) else {}))
        mon.eq(ctpc(), first[0], "an estimator without settings depends on those of another one", key="others", known=known, names=names)
        mon.eq(likelihood(), first[2], "a score without settings depends on those of another one", key="others", known=known, names=names)
        mon.eq(score(), first[1], "an estimator without settings depends on those of another one", key="others", known=known, names=names)
        mon.count("known_edges_of_others", 2)
        mon.seen("others", case["i"], step)
    mon.sample(dict(names=names, edges=first[0]))


# ---------------------------------------------------------------- zeros

def run_zero(case, rng, mon):
    """A zero is a setting like any other."""
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = int(rng.integers(2, 5))
    cards = gen.cardinalities(rng, n, 3, 4)
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([20, 60, 150])))]
    trans = ref.transitions(trajs)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, [])
    a, b = [float(10 ** rng.uniform(-6, -1)) for _ in range(2)]
    info = dict(names=names, cards=cards, alfas=(a, b))
    with gen.quiet():
        args, kw = [((sp, a, b, [], 0), {}), ((sp, a, b), {"thumb_threshold": 0}), ((sp, a, b), {"thumb_threshold": 0.0})][int(rng.integers(3))]
        got = StructureConstraintBasedEstimator(*args, **kw).estimate_structure(disable_multiprocessing=True)
    for node in range(n):
        with_zero, by_default = c11.expected(trans, cards, a, b, 0, [], node), c11.expected(trans, cards, a, b, 25, [], node)
        if with_zero is not None:
            mon.eq(sorted(names.index(str(x)) for x, y in got if str(y) == names[node]), sorted(with_zero[0]), "not the parents CTPC prescribes with a threshold of zero", key="threshold", node=node, info=info)
            mon.count("zeros")
            if by_default is not None and set(by_default[0]) != set(with_zero[0]):
                mon.count("threshold_zero_matters")
                mon.seen("zero", case["i"], node)
    table = c10.random_table(rng, names)
    for optimizer in ("hill", "tabu"):
        for what in ("iterations_number", "max_parents", "patience"):
            est = c10.Logged(sp)
            est.table, est.log = table, []
            kw = dict(SEARCH_DEFAULTS, optimizer=optimizer, **{what: 0}) if rng.random() < 0.5 else {"optimizer": optimizer, what: 0}
            if rng.random() < 0.5:
                kw.update(tabu_length=0, tabu_rules_duration=0)
            with gen.quiet():
                res = est.estimate_structure(disable_multiprocessing=True, **kw)
            for x in names:
                log = [(p, v) for y, p, v, _ in est.log if y == x]
                best, failures = log[0][1], 0
                for _, v in log[1:]:
                    failures = failures + 1 if v <= best else 0
                    best = max(best, v)
                    # a search without patience ends with its first failure
                    mon.check(what != "patience" or failures <= 1, "a search goes on without patience", key="zero", settings=kw, node=x, info=info)
                into = [str(p) for p, y in res if str(y) == x]
                if what == "iterations_number":
                    mon.check(len(log) <= 1 and not into, "something is searched in no iterations", key="zero", settings=kw, node=x, evaluated=[sorted(p) for p, _ in log], info=info)
                if what == "max_parents":
                    mon.check(not into and not any(p for p, _ in log), "a parent is found although none is allowed", key="zero", settings=kw, node=x, parents=into, info=info)
                mon.count("zeros")
    names, cards, parents, cims = c06.network(rng, n=int(rng.integers(1, 5)))
    tg = c06.generator(rng, names, cards, parents, cims)
    for args, kw in (((0,), {}), ((0.0, 5), {}), ((), {"max_tr": 0}), ((), {"t_end": 0}), ((4.0, 0), {}), ((), {"t_end": 0.0, "max_tr": 0})):
        mon.eq(len(c21.rows(tg.CTBN_Sample(*args, **kw))), 1, "a trajectory does not end at its limit of zero", key="zero", args=args, keywords=kw)
        mon.count("zeros")
    out = tg.multi_trajectory(max_trs=[0, 0]) if rng.random() < 0.5 else tg.multi_trajectory(t_ends=[0.0, 0])
    mon.eq([len(c21.rows(f)) for f in out], [1, 1], "a parallel trajectory does not end at its limit of zero", key="zero")
    ng = NetworkGenerator(list(names), list(cards))
    for args in ((0,), (0.0, False), (0, True)):
        ng.generate_graph(*args)
        mon.eq(len(ng.dyn_str), 0, "edges are generated with a density of zero", key="zero", args=args, names=names)
        mon.count("zeros")
    mon.sample(dict(info, edges=sorted((str(x), str(y)) for x, y in got)))
