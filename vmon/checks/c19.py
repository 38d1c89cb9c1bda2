"""Snapshots of everything the caller owns, compared bit by bit after every operation."""
import copy
import os

import numpy as np
import pandas as pd

from .. import gen, ref
from . import c04, c06, c11, c12, c17

ID = "C19"
RULE = ("Everything handed to the library (trajectory frames with any index and dtype, lists, arrays, headers, variable and edge tables, "
        "raw JSON data, lists of known edges, CIM objects, label and cardinality lists) and everything several objects share (trajectory "
        "arrays and prior structure of a sample path) is copied into a snapshot (values, types, indexes, order, identity of the elements) that is "
        "compared again after every single operation of a random sequence: import, building, parameters, tests, scores, searches and estimates of several estimators "
        "sharing the path, all views, sampling (also parallel), exporting. Results of estimators that share a path are compared with those of the same estimator "
        "alone on a fresh path. Distinct by kind, operation and data.")
FLOORS = {"snapshots": 3000, "import_ops": 300, "other_headers": 12, "estimate_ops": 300, "sample_ops": 120, "shared_results": 90, "generate_ops": 40, "inexact_rows": 6, "direct_uses": 30, "removed_nodes": 40, "structure_edits": 150}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return ([{"kind": "import", "i": i} for i in range(80 * k)] + [{"kind": "estimate", "i": i} for i in range(48 * k)]
            + [{"kind": "sample", "i": i} for i in range(40 * k)] + [{"kind": "generate", "i": i} for i in range(24 * k)] + [{"kind": "direct", "i": i} for i in range(40 * k)])


def shot(x, ids=True):
    """A value equal to another one if and only if nothing about ``x`` changed."""
    if isinstance(x, pd.DataFrame):
        return ("frame", [repr(c) for c in x.columns], repr(x.columns.name), [repr(i) for i in x.index], repr(x.index.name), [str(t) for t in x.dtypes],
                [[repr(v) for v in row] for row in x.itertuples(index=False, name=None)])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, bool(x.flags.writeable), [shot(v, ids) for v in x.ravel()] if x.dtype == object else x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [id(v) for v in x] if ids and isinstance(x, list) else None, [shot(v, ids) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), shot(v, ids)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(v) for v in x))
    if type(x).__name__ == "SetOfCims":
        return ("socims", shot(x.p_combs, ids), [shot(c, ids) for c in x.actual_cims])
    if type(x).__name__ == "ConditionalIntensityMatrix":
        return ("cim", id(x) if ids else 0, shot(x.cim, ids), shot(x.state_residence_times, ids), shot(x.state_transition_matrix, ids))
    if type(x).__name__ == "Structure":
        return ("structure", shot(list(x.nodes_labels), False), shot(np.array(x.nodes_indexes)), shot(np.array(x.nodes_values)),
                [(str(a), str(b)) for a, b in x.edges], int(x.total_variables_number))
    if type(x).__name__ == "Trajectory":
        return ("trajectory", shot(np.array(x.times)), shot(np.array(x.trajectory)), shot(np.array(x.complete_trajectory)), int(x.size()))
    return (type(x).__name__, repr(x))


class Watch(object):
    def __init__(self, mon, info):
        self.mon, self.info, self.items = mon, info, {}

    def add(self, name, obj):
        self.items[name] = (obj, shot(obj))

    def look(self, operation):
        for name, (obj, before) in self.items.items():
            now = shot(obj)
            self.mon.count("snapshots")
            if now != before:
                self.mon.fail("%s modified %s" % (operation, name), key="%s/%s" % (operation, name), before=before, after=now, info=self.info)


def run(case, rng, mon):
    {"import": run_import, "estimate": run_estimate, "sample": run_sample, "generate": run_generate, "direct": run_direct}[case["kind"]](case, rng, mon)


# ---------------------------------------------------------------- importing

def user_frames(rng, trajs, names):
    frames = []
    for t in trajs:
        f = gen.frame(t, names, time_key="Time", index=[None, rng.integers(0, 3, len(t)), np.arange(len(t))[::-1]][int(rng.integers(3))])
        r = rng.random()
        if r < 0.2:
            f = f.astype(float)
        elif r < 0.4:
            f[names] = f[names].astype("int16")
        if rng.random() < 0.2:
            f["Time"] = f["Time"].round(0).astype(int)
        frames.append(f)
    return frames


def run_import(case, rng, mon):
    from PyCTBN import JsonImporter, SampleImporter, SamplePath
    n = int(rng.integers(1, 6))
    cards = gen.constant(rng, gen.cardinalities(rng, n))
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([2, 5, 30])), end=bool(rng.random() < 0.5)) for _ in range(int(rng.integers(1, 5)))]
    edges = [(a, b) for a in names for b in names if a != b and rng.random() < 0.3]
    how = ["frames", "own", "json"][case["i"] % 3]
    info = dict(how=how, names=names)
    w = Watch(mon, info)
    ops = []

    def op(name, f):
        with gen.quiet():
            out = f()
        ops.append(name)
        w.look(name)
        mon.count("import_ops")
        return out

    header = None
    if how == "json":
        path = c17.json_file(names, cards, [c17.json_traj(t, names) for t in trajs], edges, rng, True)
        before = open(path).read()
        imp = op("constructing an importer", lambda: JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name"))
        raw = imp.read_json_file()
        w.add("the raw data", raw)
        op("import_data", lambda: imp.import_data(0))
        op("import_trajectories", lambda: imp.import_trajectories(raw))
        op("import_variables", lambda: imp.import_variables(raw))
        op("import_structure", lambda: imp.import_structure(raw))
        mon.eq(open(path).read(), before, "the imported file changed", info=info)
        os.unlink(path)
    else:
        frames = user_frames(rng, trajs, names)
        variables = c17.variables_as(rng, names, cards) if how == "frames" else gen.variables_frame(names, cards)
        prior = [gen.edges_frame(edges), [list(e) for e in edges], np.array([list(e) for e in edges], dtype=object).reshape(-1, 2), None][int(rng.integers(4))]
        if how == "own" and not isinstance(prior, pd.DataFrame):
            prior = gen.edges_frame(edges)
        if isinstance(prior, np.ndarray) and not len(prior):
            prior = None
        if isinstance(prior, pd.DataFrame) and rng.random() < 0.6:
            prior.columns = [["From_Node", "To_Node"], ["from", "to"], [0, 1], ["Parent", "Child"]][int(rng.integers(4))]
            mon.count("other_headers")
        if isinstance(prior, pd.DataFrame) and len(prior) and rng.random() < 0.4:
            prior.index = rng.integers(0, 3, len(prior))
        if isinstance(variables, pd.DataFrame) and rng.random() < 0.4:
            variables.columns = [["Variable_Label", "Variable_Cardinality"], ["Name", "States"], [0, 1]][int(rng.integers(3))]
            mon.count("other_headers")
        w.add("the list of trajectories", frames)
        w.add("the variables", variables)
        w.add("the prior edges", prior)
        if how == "own":
            imp = op("constructing an importer", lambda: c17.own_importer()(trajectory_list=frames, variables=variables, prior_net_structure=prior))
        else:
            imp = op("constructing an importer", lambda: SampleImporter(frames, variables, prior))
            if rng.random() < 0.5:
                header = list(names)
                w.add("the header", header)
        op("import_data", lambda: imp.import_data(header) if header else imp.import_data())
    repeat = bool(rng.random() < 0.4)
    sp = op("constructing a sample path", lambda: SamplePath(imp))
    op("build_trajectories", sp.build_trajectories)
    op("build_structure", sp.build_structure)
    w.add("the trajectories", sp.trajectories)
    w.add("the structure", sp.structure)
    first = shot(sp.trajectories, False)
    if repeat:                                            # the same objects can be imported again
        op("import_data again", lambda: imp.import_data(header) if header else imp.import_data())
        sp2 = op("constructing a sample path again", lambda: SamplePath(imp))
        op("build_trajectories again", sp2.build_trajectories)
        op("build_structure again", sp2.build_structure)
        mon.check(shot(sp2.trajectories, False) == first, "importing the same objects again gives other trajectories", key="again", info=info)
        mon.count("imported_again")
    node = names[int(rng.integers(n))]
    others = [x for x in names if x != node]
    ps = [p for p in others if rng.random() < 0.5][:3]
    g = gen.node_graph(names, cards, [(p, node) for p in ps])
    from PyCTBN import ParametersEstimator

    def params():
        g.fast_init(node)
        pe = ParametersEstimator(sp.trajectories, g)
        pe.fast_init(node)
        return pe.compute_parameters_for_node(node)
    out = op("estimating parameters", params)
    w.add("estimated parameters", out)
    op("estimating parameters again", params)
    # editing the structure is not seen in what it was made from
    del w.items["the structure"]
    if len(sp.structure.edges) and rng.random() < 0.5:
        op("remove_edge", lambda: sp.structure.remove_edge(tuple(sp.structure.edges[0])))
    if n > 1:
        gone = names[int(rng.integers(n))]
        op("remove_node", lambda: sp.structure.remove_node(gone))
        mon.count("removed_nodes")
    op("clean_structure_edges", sp.structure.clean_structure_edges)
    op("clear_memory", sp.clear_memory) if how != "json" else None
    mon.seen("import", case["i"], ops)
    mon.sample(dict(info, operations=ops))


# ---------------------------------------------------------------- estimating

def unique_score_optimum(trans, cards, node, tau, alpha, known):
    """The only parent set containing ``known`` that no single change improves, or None."""
    import itertools
    others = [x for x in range(len(cards)) if x != node]
    sc = {}
    for r in range(len(others) + 1):
        for c in itertools.combinations(others, r):
            if known <= set(c):
                sc[frozenset(c)] = ref.fam_score(ref.stats(trans, node, sorted(c), cards), tau, alpha)
    local = [s for s in sc if all(sc[s ^ {x}] <= sc[s] + 1e-6 * abs(sc[s]) for x in others if x not in known)]
    return local[0] if len(local) == 1 else None


def run_estimate(case, rng, mon):
    from PyCTBN import NetworkGraph, StructureConstraintBasedEstimator, StructureScoreBasedEstimator
    n = int(rng.integers(2, 5))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 3))
    names = gen.labels(rng, n)
    trajs = c11.make_data(rng, n, cards)
    trans = ref.transitions(trajs)
    every = [(a, b) for a in names for b in names if a != b]
    prior = [e for e in every if rng.random() < 0.4] if rng.random() < 0.8 else []
    info = dict(names=names, cards=cards, prior=prior, rows=len(trans))

    def path():
        with gen.quiet():
            return gen.sample_path(trajs, names, cards, prior)

    sp = path()
    w = Watch(mon, info)
    w.add("the trajectories", sp.trajectories)
    w.add("the prior structure", sp.structure)
    index = {x: i for i, x in enumerate(names)}
    ops, made = [], []

    def op(name, f):
        with gen.quiet():
            out = f()
        ops.append(name)
        w.look(name)
        mon.count("estimate_ops")
        return out

    def new():
        known = [e for e in every if rng.random() < float(rng.choice([0.0, 0.1]))]
        if rng.random() < 0.5:
            a, b, th = c11.settings(rng)
            make = lambda s, k: StructureConstraintBasedEstimator(s, a, b, k, th)
            rec = {"kind": "ctpc"}
        else:
            tau, alpha = float(rng.choice([0.1, 1.0, 3.0])), float(rng.choice([0.5, 1.0, 3.0]))
            make = lambda s, k: StructureScoreBasedEstimator(s, tau, alpha, k)
            opt = {y: unique_score_optimum(trans, cards, index[y], tau, alpha, {index[a] for a, b in known if b == y}) for y in names}
            rec = {"kind": "score", "optimum": None if any(v is None for v in opt.values()) else {(names[p], y) for y in names for p in opt[y]}}
        rec["known"] = known
        w.add("known edges %d" % len(made), known)
        rec["make"] = make
        rec["est"] = op("constructing an estimator", lambda: make(sp, known))
        rec["alone"] = None
        rec["last"] = None
        made.append(rec)
        return rec

    def result(rec, est, **kw):
        if rec["kind"] == "score":
            kw = dict(kw, iterations_number=50 * n, optimizer="hill" if rng.random() < 0.5 else "tabu")
        return c12.as_set(mon, est.estimate_structure(**kw), names, info)

    for step in range(12):
        rec = new() if not made or rng.random() < 0.3 and len(made) < 4 else made[int(rng.integers(len(made)))]
        est, kind = rec["est"], rec["kind"]
        what = ["estimate", "estimate", "node", "test", "score", "views"][int(rng.integers(6))]
        node = names[int(rng.integers(n))]
        if what == "estimate":
            kw = {"disable_multiprocessing": True} if rng.random() < 0.85 else {"processes_number": int(rng.integers(1, 4))}
            got = op("estimate_structure (%s)" % kind, lambda: result(rec, est, **kw))
            rec["last"] = got
            if kind == "ctpc":
                if rec["alone"] is None:
                    with gen.quiet():
                        rec["alone"] = result(rec, rec["make"](path(), list(rec["known"])), disable_multiprocessing=True)
                want = rec["alone"]
            else:
                want = rec["optimum"]
            if want is not None:
                mon.eq(got, want, "an estimator sharing its sample path gives another result than alone", key="shared", kind=kind, ops=ops, known=rec["known"], info=info)
                mon.count("shared_results")
                mon.seen("estimate", case["i"], kind, sorted(got))
        elif what == "node" and kind == "ctpc":
            op("one_iteration_of_CTPC_algorithm", lambda: est.one_iteration_of_CTPC_algorithm(node, n))
        elif what == "node":
            op("estimate_parents", lambda: est.estimate_parents(node, iterations_number=20, optimizer="hill" if rng.random() < 0.5 else "tabu"))
        elif what == "test" and kind == "ctpc":
            o = [x for x in names if x != node]
            p = o[int(rng.integers(len(o)))]
            sep = [x for x in o if x != p and rng.random() < 0.5]
            w.add("the conditioning set", sep)
            # the tests are the inner step of a search (they mark edges and fill the cache for it): another estimator on the same path
            other = rec["make"](sp, list(rec["known"]))
            op("complete_test", lambda: other.complete_test(p, node, sep, cards[index[node]], n, index[p], index[node]))
            del w.items["the conditioning set"]
        elif what == "score" and kind == "score":
            g = NetworkGraph(sp.structure)
            g.add_edges([(p, node) for p in names if p != node and rng.random() < 0.5])
            before = sorted(g.edges)
            op("get_score_from_graph", lambda: est.get_score_from_graph(g, node))
            mon.check(set(before) <= set(g.edges) and set(g.edges) <= set(before) | set(prior), "scoring changed the edges of the graph", info=info)
        elif what == "views" and rec["last"] is not None:
            m = op("adjacency_matrix", est.adjacency_matrix)
            view = {(names[i], names[j]) for i, j in zip(*np.nonzero(np.asarray(m)))}
            mon.eq(view, rec["last"], "the result of an estimator was changed by others sharing its sample path", key="view", ops=ops, info=info)
            op("spurious_edges", est.spurious_edges)
            f = os.path.abspath("r.json")
            op("save_results", lambda: est.save_results(f))
            os.unlink(f)
            if rng.random() < 0.15:
                f = os.path.abspath("r.png")
                op("save_plot_estimated_structure_graph", lambda: est.save_plot_estimated_structure_graph(f))
                os.unlink(f)
            mon.count("shared_views")
    mon.sample(dict(info, operations=ops))


# ---------------------------------------------------------------- sampling and exporting

def run_sample(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    from PyCTBN import JsonImporter
    while True:
        names, cards, parents, cims = c06.network(rng, n=int(rng.integers(1, 6)), integer=case["i"] % 3 == 0)
        if not any(c in x for x in names for c in "=,"):
            break
    if case["i"] % 3 == 1:
        # as estimated from data, or rounded: the rows do not sum to zero
        for d in cims:
            for u, q in d.items():
                d[u] = np.round(q, 2) + 10.0 ** -3 * np.array(rng.integers(0, 9, q.shape)) if len(q) > 1 else q
        mon.count("inexact_rows")
    variables = gen.variables_frame(names, cards)
    table = c06.edge_table(rng, names, parents)
    if len(table) and rng.random() < 0.3:
        table.index = [7] * len(table)
    lib = gen.to_library_cims(names, cards, parents, cims, integer=case["i"] % 3 == 0)
    info = dict(names=names, cards=cards, parents=parents)
    w = Watch(mon, info)
    w.add("the variables", variables)
    w.add("the edges", table)
    w.add("the CIMs", lib)
    ops = []

    def op(name, f):
        with gen.quiet():
            out = f()
        ops.append(name)
        w.look(name)
        mon.count("sample_ops")
        return out

    tg = op("constructing a generator", lambda: TrajectoryGenerator(variables=variables, dyn_str=table, dyn_cims=lib))
    got = []
    for _ in range(3):
        tr = op("CTBN_Sample", lambda: tg.CTBN_Sample(max_tr=int(rng.integers(0, 40))) if rng.random() < 0.5 else tg.CTBN_Sample(t_end=float(rng.random() * 5)))
        got.append(tr)
        w.add("trajectory %d" % len(got), tr)
    if rng.random() < 0.3:
        limits = [int(x) for x in rng.integers(0, 10, 3)]
        w.add("the limits", limits)
        got += list(op("multi_trajectory", lambda: tg.multi_trajectory(max_trs=limits)))
        mon.count("parallel_sampling")
    if rng.random() < 0.6:
        # a trajectory of the caller's own, with any index
        own = got[0].copy()
        own.index = {0: range(100, 100 + len(own)), 1: [5] * len(own), 2: list(range(len(own)))[::-1]}[int(rng.integers(3))]
        w.add("the caller's trajectory", own)
        got.append(own)
        mon.count("own_trajectories")
    ex = op("constructing an exporter", lambda: JsonExporter(variables, table, lib))
    for tr in got:
        op("add_trajectory", lambda: ex.add_trajectory(tr)) if hasattr(ex, "add_trajectory") else ex._trajectories.append(tr)
    for k in range(2):
        op("out_file", lambda: ex.out_file("e%d.json" % k))
    mon.eq(open("e0.json").read(), open("e1.json").read(), "exporting twice gives two different files", info=info)
    # sampling from an importer leaves the importer's tables and file alone
    imp = JsonImporter("e0.json", "samples", "dyn.str", "variables", "Time", "Name", "dyn.cims")
    imp.import_data(0)
    w.add("the importer's variables", imp.variables)
    w.add("the importer's structure", imp.structure)
    tg2 = op("constructing a generator from an importer", lambda: TrajectoryGenerator(importer=imp))
    op("CTBN_Sample from an importer", lambda: tg2.CTBN_Sample(max_tr=10))
    mon.eq(open("e0.json").read(), open("e1.json").read(), "importing and sampling changed the file", info=info)
    os.unlink("e0.json")
    os.unlink("e1.json")
    mon.seen("sample", case["i"], names, cards, parents)
    mon.sample(dict(info, operations=ops))


def run_direct(case, rng, mon):
    """Statistics and matrices made by the caller, of any type, given to the parts directly."""
    from PyCTBN import ConditionalIntensityMatrix, FamScoreCalculator, NetworkGraph, SetOfCims, Structure, StructureConstraintBasedEstimator
    k, pc = int(rng.integers(2, 5)), [int(x) for x in rng.integers(2, 4, int(rng.integers(0, 3)))]
    m = int(np.prod(pc)) if pc else 1
    kind = [np.int64, np.float64, np.int32, np.float32][int(rng.integers(4))]
    T = (rng.exponential(20.0, (m, k)) + 0.1).astype(np.float64 if rng.random() < 0.7 else np.float32)
    M = rng.integers(2, 60, (m, k, k)).astype(kind)
    for j in range(m):
        np.fill_diagonal(M[j], 0)
        np.fill_diagonal(M[j], M[j].sum(axis=1))
    info = dict(counts=str(M.dtype), times=str(T.dtype), cards=pc)
    w = Watch(mon, info)
    w.add("the residence times", T)
    w.add("the transition counts", M)
    combs = NetworkGraph.build_p_comb_structure_for_a_node(pc)
    w.add("the assignments", combs)
    sofc = SetOfCims("x", list(pc), k, combs)
    sofc.build_cims(T, M)
    w.look("build_cims")
    single = ConditionalIntensityMatrix(state_residence_times=T[0], state_transition_matrix=M[0])
    single.compute_cim_coefficients()
    w.look("compute_cim_coefficients")
    q = rng.random((k, k))
    w.add("the matrix", q)
    own = ConditionalIntensityMatrix(cim=q)
    w.add("the CIM", own)
    w.add("the set of CIMs", sofc)
    mask = rng.random(len(pc)) < 0.5
    w.add("the mask", mask)
    comb = np.array([0] * int(mask.sum()), dtype=int)
    w.add("the assignment", comb)
    sofc.filter_cims_with_mask(mask, comb)
    w.look("filter_cims_with_mask")
    score = [FamScoreCalculator().get_fam_score(sofc.actual_cims, 0.3, 2.0)]
    w.look("get_fam_score")
    with gen.quiet(), np.errstate(all="ignore"):
        est = StructureConstraintBasedEstimator(gen.sample_path([gen.raw_trajectory(rng, [2, 3], 6)], ["A", "B"], [2, 3]), 0.1, 0.1)
        answer = [est.independence_test(k, single, c, 4.0, 0, 1) for c in sofc.actual_cims]
        w.look("independence_test")
        mon.eq([est.independence_test(k, single, c, 4.0, 0, 1) for c in sofc.actual_cims], answer, "the same test gives another answer the second time", info=info)
    mon.eq([FamScoreCalculator().get_fam_score(sofc.actual_cims, 0.3, 2.0)], score, "the same score is different the second time", info=info)
    n = int(rng.integers(2, 6))
    names, cards = gen.labels(rng, n), gen.cardinalities(rng, n)
    given = {"labels": list(names), "indexes": np.arange(n), "cardinalities": np.array(cards), "edges": [(a, b) for a in names for b in names if a != b and rng.random() < 0.4]}
    w = Watch(mon, dict(names=names, cards=cards))
    for what, x in given.items():
        w.add("the given %s" % what, x)
    s = Structure(given["labels"], given["indexes"], given["cardinalities"], given["edges"], n)
    w.look("constructing a structure")
    g = NetworkGraph(s)
    g.fast_init(names[0])
    w.look("fast_init")
    for name, f in (("remove_edge", lambda: given["edges"] and s.remove_edge(given["edges"][0])), ("add_edge", lambda: s.contains_edge((names[0], names[1])) or s.add_edge((names[0], names[1]))),
                    ("removing a node of the graph", lambda: n > 2 and g.remove_node(names[1])), ("removing a node of the structure", lambda: s.remove_node(names[0])),
                    ("clean_structure_edges", s.clean_structure_edges)):
        f()
        w.look(name)
        mon.count("structure_edits")
    mon.count("direct_uses")
    mon.seen("direct", case["i"], info["counts"], tuple(pc))


def run_generate(case, rng, mon):
    """The generator's lists, its graph and its tables are not changed by generating, sampling and exporting."""
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    n = int(rng.integers(1, 6))
    cards = gen.cardinalities(rng, n)
    names = c04.labels(rng, n)
    vals = list(cards) if rng.random() < 0.5 else np.array(cards)
    info = dict(names=names, cards=cards)
    w = Watch(mon, info)
    labels = list(names)
    w.add("the labels", labels)
    w.add("the cardinalities", vals)
    ng = NetworkGenerator(labels, vals)
    for _ in range(2):
        ng.generate_graph(float(rng.random()))
        w.look("generate_graph")
        edges = list(ng.graph.edges)
        ng.generate_cims(1, 3)
        w.look("generate_cims")
        mon.eq(list(ng.graph.edges), edges, "generating CIMs changed the graph", info=info)
        old, old_shot = ng.cims, shot(ng.cims)
        ng.generate_cims(1, 3)
        mon.check(shot(old) == old_shot, "generating CIMs again changed the earlier ones", key="old-cims", info=info)
        w2 = Watch(mon, info)
        w2.add("the generated CIMs", ng.cims)
        v, d = ng.variables, ng.dyn_str
        w2.add("the exported variables", v)
        w2.add("the exported edges", d)
        tg = TrajectoryGenerator(variables=v, dyn_str=d, dyn_cims=ng.cims)
        tr = tg.CTBN_Sample(max_tr=15)
        w2.add("the trajectory", tr)
        w2.look("CTBN_Sample")
        ex = JsonExporter(v, d, ng.cims)
        ex.add_trajectory(tr) if hasattr(ex, "add_trajectory") else ex._trajectories.append(tr)
        ex.out_file("g.json")
        os.unlink("g.json")
        w2.look("out_file")
        tg.CTBN_Sample(max_tr=15)
        w2.look("CTBN_Sample again")
        mon.eq(list(ng.graph.edges), edges, "sampling or exporting changed the graph", info=info)
        w.look("sampling and exporting")
        mon.count("generate_ops")
        mon.seen("generate", case["i"], names, sorted(edges))
    mon.sample(dict(info, edges=edges))
