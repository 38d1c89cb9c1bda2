"""All the views of an estimated structure."""
import contextlib
import io
import json
import os
import re

import matplotlib.figure
import matplotlib.patches
import numpy as np

from .. import gen
from . import c10, c11, c12

ID = "C13"
RULE = ("Estimations (constraint- and score-based, sequential and parallel, on data or with a stand-in search that returns any given graph) "
        "on random networks with and without prior structures, followed by every view in random order, several times, and by further "
        "estimations with other settings on the same or on another estimator of the same sample path. Non-trivial: a graph with at "
        "least one edge; distinct by graph, prior structure and sequence of views.")
FLOORS = {"estimations": 250, "adjacency": 250, "json_files": 150, "saved_over": 40, "spurious": 150, "spurious_edges": 80, "plots": 40, "re_estimations": 120, "isolated_nodes": 60,
          "no_prior": 30, "edges_seen": 400}

from PyCTBN import StructureConstraintBasedEstimator, StructureScoreBasedEstimator  # noqa: E402


class AnyCTPC(StructureConstraintBasedEstimator):
    """Returns the edges of ``graph`` into each node instead of searching."""
    graph = None

    def one_iteration_of_CTPC_algorithm(self, var_id, tot_vars_count):
        if self.graph is None:
            return super().one_iteration_of_CTPC_algorithm(var_id, tot_vars_count)
        return [e for e in self.graph if e[1] == var_id]


class AnyScore(StructureScoreBasedEstimator):
    graph = None

    def estimate_parents(self, node_id, *args, **kw):
        if self.graph is None:
            return super().estimate_parents(node_id, *args, **kw)
        return [e for e in self.graph if e[1] == node_id]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [{"i": i} for i in range(200 * k)]


@contextlib.contextmanager
def drawn():
    """What each figure shows when it is saved: (labels, edges) read from the texts and the arrows."""
    out, orig = [], matplotlib.figure.Figure.savefig

    def savefig(fig, *args, **kw):
        labels, arrows = [], []
        for ax in fig.axes:
            texts = [(t.get_text(), np.array(t.get_position(), dtype=float)) for t in ax.texts]
            labels += [t for t, _ in texts]
            for p in ax.patches:
                ends = getattr(p, "_posA_posB", None) if isinstance(p, matplotlib.patches.FancyArrowPatch) else None
                if ends and all(e is not None for e in ends) and texts:
                    edge = tuple(min(texts, key=lambda t: float(np.abs(t[1] - np.array(e, dtype=float)).sum()))[0] for e in ends)
                    style = type(p.get_arrowstyle()).__name__
                    arrows.append(edge[::-1] if style in ("CurveA", "CurveFilledA") else edge)
        out.append((labels, arrows))
        return orig(fig, *args, **kw)

    matplotlib.figure.Figure.savefig = savefig
    try:
        yield out
    finally:
        matplotlib.figure.Figure.savefig = orig


def reported(mon, text, got, prior, info):
    """The precision and the recall that a score-based estimation prints."""
    hits = len(got & set(prior))
    for name, of in (("precision", got), ("recall", prior)):
        for value in re.findall(name + r"\s*[:=]\s*([-+0-9.eE]+)", text):
            mon.check(len(of) and abs(float(value) - hits / len(of)) < 1e-3, "the %s printed is not that of the estimated graph" % name, key="reported",
                      printed=value, prior=prior, estimated=sorted(got), info=info)
            mon.count("reported")
            mon.count("reported_partial", 0 < hits < len(of))


def png(path):
    with open(path, "rb") as f:
        data = f.read()
    return data[:8] == b"\x89PNG\r\n\x1a\n" and data[-12:-4].endswith(b"IEND") and len(data) > 1000


def views(rng, mon, est, sp, got, names, prior, info, plots):
    n = len(names)
    todo = ["adjacency", "json", "spurious", "adjacency", "spurious"] + (["plot"] if plots else [])
    for what in [todo[i] for i in rng.permutation(len(todo))]:
        info["views"].append(what)
        if what == "adjacency":
            m = np.asarray(est.adjacency_matrix())
            mon.eq(m.shape, (n, n), "wrong shape of the adjacency matrix", info=info)
            mon.check(m.dtype == bool, "the adjacency matrix is not boolean", dtype=m.dtype, info=info)
            mon.eq({(names[i], names[j]) for i, j in zip(*np.nonzero(m))}, got, "the adjacency matrix is not that of the estimated graph", key="adjacency", info=info)
            m[:] = ~m.astype(bool)                       # what the caller does with it does not matter
            mon.count("adjacency")
        elif what == "json":
            os.makedirs("results.d", exist_ok=True)
            path = os.path.abspath(["res%d.json", "res.v1.%d.json", "res %d.json", "résultat%d.json", "results.d/r%d.json", "%d"][int(rng.integers(6))] % int(rng.integers(3)))
            if rng.random() < 0.3:
                with open(path, "w") as f:
                    f.write("[" * 100000)
            est.save_results(path)
            if rng.random() < 0.3:                       # over a file of the same length, and of the same size of graph
                with open(path) as f:
                    text = f.read()
                d = json.loads(text)
                for x in d["links"]:
                    x["source"], x["target"] = x["target"], x["source"]
                other = json.dumps(d)
                stamp = os.stat(path)
                with open(path, "w") as f:
                    f.write(other if len(other) == len(text) and rng.random() < 0.7 else " " * len(text))
                os.utime(path, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
                est.save_results(path)
                mon.count("saved_over")
            with open(path) as f:
                d = json.load(f)
            mon.eq(sorted(x["id"] for x in d["nodes"]), sorted(names), "the saved file does not list the nodes", key="json", info=info)
            links = [(x["source"], x["target"]) for x in d["links"]]
            mon.check(len(links) == len(set(links)), "an edge is saved twice", info=info)
            mon.eq(set(links), got, "the saved file does not hold the estimated edges", key="json", info=info)
            mon.check(d.get("directed") is True, "the saved graph is not directed", info=info)
            os.unlink(path)
            mon.count("json_files")
        elif what == "spurious":
            sp_edges = [(str(a), str(b)) for a, b in est.spurious_edges()]
            want = {e for e in got if e not in set(prior)} if prior else set()
            mon.check(len(sp_edges) == len(set(sp_edges)), "a spurious edge is listed twice", info=info)
            mon.eq(set(sp_edges), want, "wrong spurious edges", key="spurious", prior=prior, estimated=sorted(got), info=info)
            mon.count("spurious")
            mon.count("spurious_edges", len(want))
        else:
            path = os.path.abspath(["plot.png", "plot.v1.png", "a plot.png"][int(rng.integers(3))])
            with gen.quiet(), drawn() as figures:
                est.save_plot_estimated_structure_graph(path)
            mon.check(os.path.exists(path) and png(path), "no plot image was saved", key="plot", info=info)
            os.unlink(path)
            mon.count("plots")
            if len(figures) == 1:
                labels, arrows = figures[0]
                mon.eq(sorted(labels), sorted(names), "the plot does not show the nodes", key="plot", info=info)
                mon.eq(sorted(arrows), sorted(got), "the plot does not show the estimated edges", key="plot", info=info)
                mon.count("plots_read")
                mon.count("arrows", len(arrows))
    s = sp.structure
    mon.eq([tuple(map(str, e)) for e in s.edges], prior, "the prior structure changed", key="prior", info=info)
    mon.eq(bool(sp.has_prior_net_structure), bool(prior), "the presence of a prior structure changed", key="prior", info=info)
    mon.eq([str(x) for x in s.nodes_labels], names, "the variables changed", info=info)


def run(case, rng, mon):
    wide = case["i"] % 12 == 11
    n = int(rng.integers(12, 31)) if wide else int(rng.integers(1, 7))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 3))
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, 30)] if wide else c11.make_data(rng, n, cards)
    mon.count("wide", wide)
    prior = [(a, b) for a in names for b in names if a != b and rng.random() < 0.4] if rng.random() < 0.7 else []
    ignore = rng if rng.random() < 0.15 else None
    mon.count("ignored_variables", ignore is not None)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, prior, ignore=ignore)
    done = []
    for step in range(4):
        info = dict(names=names, prior=prior, step=step, views=[])
        known = [(a, b) for a in names for b in names if a != b and rng.random() < 0.1]
        if done and rng.random() < 0.6:
            est = done[int(rng.integers(len(done)))][0]
            mon.count("re_estimations")
        elif rng.random() < 0.5:
            a, b, th = c11.settings(rng)
            est = AnyCTPC(sp, a, b, known, th)
        else:
            est = AnyScore(sp, known_edges=known)
        stand_in = wide or rng.random() < 0.5
        est.graph = [(a, b) for a in names for b in names if a != b and rng.random() < float(rng.choice([0.0, 0.3, 1.0]))] if stand_in else None
        if est.graph:
            est.graph = [est.graph[i] for i in rng.permutation(len(est.graph))]
        kw = {"disable_multiprocessing": True} if rng.random() < 0.8 else {"processes_number": int(rng.integers(1, 4))}
        if isinstance(est, AnyScore):
            kw.update(c10.options(rng, n))
            kw["iterations_number"] = min(kw["iterations_number"], 10)
        elif not stand_in:
            est._exp_test_sign, est._chi_test_alfa = c11.settings(rng)[:2]          # other settings, same estimator
        info["estimator"], info["stand_in"] = type(est).__name__, stand_in
        printed = io.StringIO()
        with contextlib.redirect_stdout(printed):
            res = est.estimate_structure(**kw)
        got = c12.as_set(mon, res, names, info)
        if stand_in:
            mon.eq(got, set(est.graph), "the edges found for the nodes are not those returned", key="returned", info=info)
        reported(mon, printed.getvalue(), got, prior, info)
        mon.count("estimations")
        mon.count("edges_seen", len(got))
        mon.count("isolated_nodes", sum(1 for x in names if not any(x in e for e in got)))
        mon.count("no_prior", not prior)
        views(rng, mon, est, sp, got, names, prior, info, plots=rng.random() < (0.4 if step == 0 else 0.15))
        mon.eq({(str(a), str(b)) for a, b in res}, got, "the returned edges changed afterwards", key="returned", info=info)
        if got:
            mon.seen(case["i"], step, sorted(got), prior)
        for old, old_got in done:
            if old is not est and rng.random() < 0.5:
                mon.count("other_estimators")
                views(rng, mon, old, sp, old_got, names, prior, dict(info, which="another estimator"), plots=False)
        done = [(e, g) for e, g in done if e is not est] + [(est, got)]
    mon.sample(dict(info, edges=sorted(got)))
