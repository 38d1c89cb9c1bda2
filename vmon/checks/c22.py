"""Fault injection: errors, interrupts and killed processes at chosen points of searches, estimations and parallel sampling."""
import gc
import os
import random
import signal
import time

import numpy as np

from .. import gen
from . import c06, c10, c11, c12, c13, c19

ID = "C22"
RULE = ("Faults (an exception of the caller's own kind and of fifteen built-in ones, also MemoryError, KeyboardInterrupt and SystemExit, and in worker processes also SIGKILL and exit codes) are injected "
        "at a random call of complete_test, independence_test, get_score_from_graph or a step inside them (statistics, CIMs, scores, edits of the graph), in the search of a chosen node, before or after it, or "
        "in one of the trajectories sampled in parallel, with and without delays. Judged: the call raises (in one process: that very exception) instead of "
        "returning; trajectories, prior structure and known edges equal their snapshots; the views of an earlier estimate are unchanged; the same and other "
        "searches and estimates afterwards, on the same estimator and sample path, give what fresh objects give; no process outlives its call. Calls whose fault was "
        "not reached must succeed. Non-trivial: the fault was reached; distinct by kind, site, exception and data.")
FLOORS = {"faults": 150, "reported": 150, "recovered": 150, "sequential_faults": 80, "worker_faults": 30, "sampling_faults": 30, "killed": 30, "unreached": 10,
          "earlier_views": 60, "other_searches": 60, "process_counts": 80, "file_faults": 60, "direct_faults": 40}

from PyCTBN import (ConditionalIntensityMatrix, FamScoreCalculator, NetworkGraph, ParametersEstimator, SetOfCims,  # noqa: E402
                    StructureConstraintBasedEstimator, StructureScoreBasedEstimator)
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator  # noqa: E402

DEEP = [(ParametersEstimator, "compute_parameters_for_node"), (ParametersEstimator, "fast_init"), (FamScoreCalculator, "get_fam_score"),
        (FamScoreCalculator, "marginal_likelihood_q"), (NetworkGraph, "fast_init"), (NetworkGraph, "add_edges"), (NetworkGraph, "remove_edges"),
        (SetOfCims, "build_cims"), (ConditionalIntensityMatrix, "compute_cim_coefficients")]


class Injected(Exception):
    pass


class Plan(object):
    """Raises at the n-th call of one site, or when the search of one node begins or ends."""
    site = None
    left = 0
    what = None
    node = None
    delays = None
    reached = False

    def hit(self, site):
        if site == self.site:
            self.left -= 1
            if self.left == 0:
                self.reached = True
                raise self.what

    def at(self, node, moment):
        if self.node == str(node) and self.site == moment:
            self.reached = True
            break_process(self.what)
        if moment == "before" and self.delays:
            time.sleep(self.delays.get(str(node), 0))


def break_process(what):
    if what == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(60)
    if isinstance(what, int):
        os._exit(what)
    raise what


class FaultyCTPC(StructureConstraintBasedEstimator):
    plan = Plan()

    def complete_test(self, *args, **kw):
        self.plan.hit("test")
        return super().complete_test(*args, **kw)

    def independence_test(self, *args, **kw):
        self.plan.hit("independence")
        return super().independence_test(*args, **kw)

    def one_iteration_of_CTPC_algorithm(self, var_id, *args, **kw):
        self.plan.at(var_id, "before")
        out = super().one_iteration_of_CTPC_algorithm(var_id, *args, **kw)
        self.plan.at(var_id, "after")
        return out


class FaultyScore(StructureScoreBasedEstimator):
    plan = Plan()

    def get_score_from_graph(self, *args, **kw):
        self.plan.hit("score")
        return super().get_score_from_graph(*args, **kw)

    def estimate_parents(self, node_id, *args, **kw):
        self.plan.at(node_id, "before")
        out = super().estimate_parents(node_id, *args, **kw)
        self.plan.at(node_id, "after")
        return out


class FaultyGenerator(TrajectoryGenerator):
    faults = {}                                 # {limit: (what, before or after)}
    delays = {}

    def CTBN_Sample(self, t_end=-1, max_tr=-1):
        limit = max_tr if max_tr != -1 else t_end
        time.sleep(self.delays.get(limit, 0))
        what, moment = self.faults.get(limit, (None, None))
        if moment == "before":
            break_process(what)
        out = super().CTBN_Sample(t_end=t_end, max_tr=max_tr)
        if moment == "after":
            break_process(what)
        return out


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return ([{"kind": "sequential", "i": i} for i in range(60 * k)] + [{"kind": "workers", "i": i} for i in range(28 * k)]
            + [{"kind": "sampling", "i": i} for i in range(20 * k)] + [{"kind": "direct", "i": i} for i in range(50 * k)] + [{"kind": "files", "i": i} for i in range(12 * k)])


def children():
    """Processes whose parent is this one."""
    me, out = os.getpid(), []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as f:
                    text = f.read()
            except OSError:
                continue
            if int(text[text.rindex(")") + 2:].split()[1]) == me:
                out.append(int(name))
    return sorted(out)


def gone(mon, before, info):
    """No process of the call is left, soon after it."""
    end = time.time() + 20
    while True:
        gc.collect()
        left = [p for p in children() if p not in before]
        if not left or time.time() > end:
            break
        time.sleep(0.02)
    mon.check(not left, "processes outlive the call that started them", key="processes", left=left, info=info)
    mon.count("process_counts")


def error(rng):
    kinds = [Injected, MemoryError, KeyboardInterrupt, ValueError, RuntimeError, OverflowError, ZeroDivisionError, FloatingPointError, ArithmeticError,
             OSError, KeyError, IndexError, TypeError, AssertionError, EOFError, SystemExit]
    kind = kinds[int(rng.integers(len(kinds)))]
    return kind() if kind is SystemExit and rng.random() < 0.5 else kind("injected")      # the first ends a process as if nothing were wrong


def attempt(f):
    """("returned", value) or ("raised", exception)"""
    try:
        with gen.quiet():
            return "returned", f()
    except BaseException as exc:
        return "raised", exc


def run(case, rng, mon):
    {"sequential": sequential, "workers": workers, "sampling": sampling, "files": files, "direct": direct}[case["kind"]](case, rng, mon)


class Data(object):
    def __init__(self, rng):
        self.n = n = int(rng.integers(2, 5))
        self.cards = gen.cardinalities(rng, n, 2, 3)
        self.names = gen.labels(rng, n)
        self.trajs = c11.make_data(rng, n, self.cards)
        pairs = [(a, b) for a in self.names for b in self.names if a != b]
        self.prior = [e for e in pairs if rng.random() < 0.5] if rng.random() < 0.8 else []
        self.known = [e for e in pairs if rng.random() < 0.15]
        self.ctpc = bool(rng.random() < 0.6)
        a, b, th = c11.settings(rng)
        self.settings = (a, b, int(rng.choice([25, 5, 100])))
        self.opt = {} if self.ctpc else dict(c10.options(rng, n), iterations_number=int(rng.integers(2, 15)))
        self.seed = int(rng.integers(2 ** 31))
        self.info = dict(names=self.names, cards=self.cards, known=self.known, prior=self.prior, constraint_based=self.ctpc, options=self.opt, rows=sum(map(len, self.trajs)))

    def path(self):
        with gen.quiet():
            return gen.sample_path(self.trajs, self.names, self.cards, self.prior)

    def new(self, sp):
        known = list(self.known)
        if self.ctpc:
            est = FaultyCTPC(sp, self.settings[0], self.settings[1], known_edges=known, thumb_threshold=self.settings[2])
        else:
            est = FaultyScore(sp, known_edges=known)
        est.plan = Plan()
        return est

    def estimate(self, est, **kw):
        np.random.seed(self.seed)
        random.seed(self.seed)
        return est.estimate_structure(**dict(self.opt, **kw)) if kw else est.estimate_structure(disable_multiprocessing=True, **self.opt)

    def search(self, est, sp, node):
        np.random.seed(self.seed)
        random.seed(self.seed)
        edges = list(sp.structure.edges)
        sp.structure.clean_structure_edges()
        try:
            return est.one_iteration_of_CTPC_algorithm(node, self.n) if self.ctpc else est.estimate_parents(node, **self.opt)
        finally:
            for e in edges:
                sp.structure.add_edge(e)


def pairs(edges):
    return sorted((str(a), str(b)) for a, b in edges)


def sequential(case, rng, mon):
    d = Data(rng)
    with gen.quiet():
        want = pairs(d.estimate(d.new(d.path())))
        per_node = {x: pairs(d.search(d.new(s), s, x)) for x in d.names for s in [d.path()]}
    sp = d.path()
    est = d.new(sp)
    w = c19.Watch(mon, d.info)
    w.add("the trajectories", sp.trajectories)
    w.add("the prior structure", sp.structure)
    estimated = False
    for step in range(5):
        if not estimated and rng.random() < 0.4:
            with gen.quiet():
                mon.eq(pairs(d.estimate(est)), want, "an estimate differs from that of fresh objects", key="recovery", info=d.info)
            estimated = True
        view = np.array(est.adjacency_matrix())
        spurious = pairs(est.spurious_edges()) if d.prior else None
        whole = rng.random() < 0.6
        node = d.names[int(rng.integers(d.n))]
        plan = est.plan = Plan()
        plan.what = error(rng)
        patched = deep = None
        if whole and rng.random() < 0.2:
            plan.site, plan.node = ["before", "after"][int(rng.integers(2))], node
        elif rng.random() < 0.45:
            # a step inside the others
            deep = DEEP[int(rng.integers(len(DEEP)))]
            plan.site, plan.left = deep[1], int(rng.integers(1, 12))
            original = getattr(*deep)

            def patched(self, *args, **kw):
                plan.hit(deep[1])
                return original(self, *args, **kw)
            mon.count("deep_sites")
        else:
            plan.site = (["test", "independence"] if d.ctpc else ["score"] * 2)[int(rng.integers(2))]
            plan.left = int(rng.choice([1, 2, 3, 5, 8, 13, 30]))
        try:
            if patched:
                setattr(deep[0], deep[1], patched)
            kind, value = attempt(lambda: d.estimate(est) if whole else d.search(est, sp, node))
        finally:
            if patched:
                setattr(deep[0], deep[1], original)
        est.plan = Plan()
        info = dict(d.info, site=plan.site, fault=repr(plan.what), whole=whole, node=node, step=step)
        if plan.reached:
            mon.check(kind == "raised", "an error is swallowed", key="swallowed", got=value, info=info)
            mon.check(value is plan.what or isinstance(value.__cause__ or value.__context__, type(plan.what)), "another error than the one that happened is reported", key="error", got=repr(value), info=info)
            mon.count("faults")
            mon.count("sequential_faults")
            mon.count("reported")
            mon.seen("s", plan.site, type(plan.what).__name__, case["i"], step)
        else:
            mon.check(kind == "returned", "a call without faults failed", key="unreached", got=repr(value), info=info)
            mon.eq(pairs(value), want if whole else per_node[node], "a call gives another result than on fresh objects", key="recovery", info=info)
            mon.count("unreached")
            estimated = estimated or whole
        w.look("a call interrupted by an error")
        mon.eq([(str(a), str(b)) for a, b in sp.structure.edges], d.prior, "the prior structure changed", key="prior", info=info)
        if plan.reached:
            mon.check(np.array_equal(np.asarray(est.adjacency_matrix()), view), "a failed call changed the result of an earlier one", key="views", info=info)
            if spurious is not None:
                mon.eq(pairs(est.spurious_edges()), spurious, "a failed call changed the spurious edges of an earlier one", key="views", info=info)
            mon.count("earlier_views", estimated)
        r = rng.random()                                                 # what comes after
        if r < 0.5:
            other = d.names[int(rng.integers(d.n))]
            with gen.quiet():
                mon.eq(pairs(d.search(est, sp, other)), per_node[other], "after a failed call a search gives another result than on fresh objects", key="recovery", node=other, info=info)
            mon.count("other_searches")
            mon.count("recovered", plan.reached)
        if r > 0.3:
            user = est if rng.random() < 0.6 else d.new(sp)
            with gen.quiet():
                mon.eq(pairs(d.estimate(user)), want, "after a failed call an estimate gives another result than on fresh objects", key="recovery", same=user is est, info=info)
            estimated = estimated or user is est
            mon.count("recovered", plan.reached)
    mon.sample(dict(info, edges=want))


def direct(case, rng, mon):
    """A test or a score asked for by the caller, which fails inside: the lists and graphs handed in stay as they were, and asking
    again gives the answer."""
    d = Data(rng)
    sp = d.path()
    sp.structure.clean_structure_edges()
    node = d.names[int(rng.integers(d.n))]
    est = d.new(sp)
    others = [x for x in d.names if x != node]
    for step in range(6):
        j = d.names.index(node)
        if d.ctpc:
            parent = others[int(rng.integers(len(others)))]
            given = [x for x in others if x != parent and rng.random() < 0.6]
            given = [given[i] for i in rng.permutation(len(given))]
            handed = list(given)

            def ask(e):
                return bool(e.complete_test(parent, node, handed, d.cards[j], d.n, d.names.index(parent), j))
        else:
            handed = gen.node_graph(d.names, d.cards, [(x, node) for x in others if rng.random() < 0.5])
            given = sorted(handed.edges)

            def ask(e):
                return float(e.get_score_from_graph(handed, node))
        deep = DEEP[int(rng.integers(len(DEEP)))]
        plan = Plan()
        plan.site, plan.left, plan.what = deep[1], int(rng.choice([1, 1, 2, 3])), error(rng)
        original = getattr(*deep)

        def patched(self, *args, **kw):
            plan.hit(deep[1])
            return original(self, *args, **kw)
        setattr(deep[0], deep[1], patched)
        try:
            kind, value = attempt(lambda: ask(est))
        finally:
            setattr(deep[0], deep[1], original)
        info = dict(d.info, site=plan.site, fault=repr(plan.what), node=node, given=given, step=step)
        if plan.reached:
            mon.check(kind == "raised", "an error is swallowed", key="swallowed", got=value, info=info)
            mon.count("faults")
            mon.count("direct_faults")
            mon.count("reported")
            mon.seen("d", plan.site, type(plan.what).__name__, case["i"], step)
        else:
            mon.check(kind == "returned", "a call without faults failed", key="unreached", got=repr(value), info=info)
        mon.eq(handed if d.ctpc else sorted(handed.edges), given, "a failed call changed what it was given", key="given", info=info)
        with gen.quiet():
            again = ask(est)
            fresh = d.path()
            fresh.structure.clean_structure_edges()
            want = ask(d.new(fresh))
        mon.eq(again, want, "after a failed call the same call gives another result than on fresh objects", key="recovery", info=info)
        mon.eq(handed if d.ctpc else sorted(handed.edges), given, "a call changed what it was given", key="given", info=info)
        mon.count("recovered", plan.reached)


def workers(case, rng, mon):
    d = Data(rng)
    with gen.quiet():
        want = pairs(d.estimate(d.new(d.path())))
    sp = d.path()
    est = d.new(sp)
    w = c19.Watch(mon, d.info)
    w.add("the trajectories", sp.trajectories)
    w.add("the prior structure", sp.structure)
    before = children()
    for step in range(4):
        node = d.names[int(rng.integers(d.n))]
        plan = est.plan = Plan()
        r = rng.random()
        if r < 0.4:
            plan.what = "kill" if rng.random() < 0.7 else int(rng.integers(0, 3))
        else:
            plan.what = error(rng)
        plan.site, plan.node = ["before", "after"][int(rng.integers(2))], node
        if rng.random() < 0.15:
            plan.node = "nobody"
        elif rng.random() < 0.3 and not isinstance(plan.what, (str, int)) and len(d.known) < d.n * (d.n - 1):
            plan.site, plan.left, plan.node = ("test" if d.ctpc else "score"), 1, None       # the first call in any process
        plan.delays = {x: float(rng.random() * 0.1) for x in d.names} if rng.random() < 0.5 else None
        procs = [None, 1, 2, 3, 8][int(rng.integers(5))]
        kind, value = attempt(lambda: d.estimate(est, **({} if procs is None else {"processes_number": procs}), disable_multiprocessing=False))
        est.plan = Plan()
        info = dict(d.info, site=plan.site, fault=repr(plan.what), node=plan.node, processes=procs, step=step)
        if plan.node == "nobody":
            mon.check(kind == "returned", "a call without faults failed", key="unreached", got=repr(value), info=info)
            mon.count("unreached")
        else:
            mon.check(kind == "raised", "the failure of a worker process is swallowed", key="swallowed", got=value, info=info)
            mon.count("faults")
            mon.count("worker_faults")
            mon.count("killed", plan.what == "kill")
            mon.count("reported")
            mon.seen("w", plan.site, repr(plan.what), case["i"], step)
        gone(mon, before, info)
        w.look("a parallel call of which a worker failed")
        mon.eq([(str(a), str(b)) for a, b in sp.structure.edges], d.prior, "the prior structure changed", key="prior", info=info)
        with gen.quiet():
            mon.eq(pairs(d.estimate(est)), want, "after a failed parallel call an estimate gives another result than on fresh objects", key="recovery", info=info)
            mon.count("recovered", plan.node != "nobody")
            if d.ctpc:
                mon.eq(pairs(d.estimate(est, disable_multiprocessing=False)), want, "after a failed parallel call a parallel estimate gives another result than on fresh objects", key="recovery", info=info)
        gone(mon, before, info)
    mon.sample(dict(info, edges=want))


def files(case, rng, mon):
    """Results that cannot be written: the caller is told, and they can be written elsewhere."""
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    d = Data(rng)
    sp = d.path()
    est = d.new(sp)
    with gen.quiet():
        want = pairs(d.estimate(est))
    names, cards, parents, cims = c06.network(rng, n=int(rng.integers(1, 4)))
    ex = JsonExporter(gen.variables_frame(names, cards), c06.edge_table(rng, names, parents), gen.to_library_cims(names, cards, parents, cims))
    os.mkdir("taken")
    calls = [("save_results", est.save_results, os.path.abspath("ok.json"))] * 3 + [("out_file", ex.out_file, "ok.json")] * 3
    calls += [("save_plot_estimated_structure_graph", est.save_plot_estimated_structure_graph, os.path.abspath("ok.png"))] * (case["i"] % 3 == 0)
    view = np.array(est.adjacency_matrix())
    for name, f, ok in calls:
        bad = [os.path.join("no", "such", "dir", "x.json"), "taken", "n" * 300 + ".json", os.path.join("ok.json", "x.json")][int(rng.integers(4))]
        if name.startswith("save_plot"):
            bad = os.path.join("no", "such", "dir", "x.png")
        kind, value = attempt(lambda: f(bad if name == "out_file" else os.path.abspath(bad)))
        mon.check(kind == "raised" and isinstance(value, OSError), "a result that could not be written is not reported", key="file", call=name, path=bad, got=repr(value))
        mon.check(not os.listdir("taken") and not os.path.exists("no"), "a failed call wrote something elsewhere", key="file", call=name)
        mon.eq(pairs(est._complete_graph.edges) if hasattr(est, "_complete_graph") else want, want, "a failed call changed the result", key="file", call=name)
        mon.check(np.array_equal(np.asarray(est.adjacency_matrix()), view), "a failed call changed the result", key="file", call=name)
        with c13.drawn() as figures:
            kind, value = attempt(lambda: f(ok))
        for labels, arrows in figures:
            mon.eq((sorted(labels), sorted(arrows)), (sorted(d.names), want), "the plot after a failed one shows something else than the graph", key="plot", call=name)
            mon.count("plots_after_failures")
        mon.check(kind == "returned" and os.path.getsize(ok) > 0, "after a failed call a result cannot be written", key="file", call=name, got=repr(value))
        os.unlink(ok)
        mon.count("file_faults")
        mon.count("faults")
        mon.count("reported")
    os.rmdir("taken")
    mon.seen("files", case["i"])


def sampling(case, rng, mon):
    n = int(rng.integers(1, 5))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, 0.4, 2)
    cims = gen.random_cims(rng, cards, parents, 0.8, 4.0)
    names = gen.labels(rng, n)
    tg = FaultyGenerator(variables=gen.variables_frame(names, cards), dyn_str=c06.edge_table(rng, names, parents),
                         dyn_cims=gen.to_library_cims(names, cards, parents, cims, rng=rng))
    before = children()
    for step in range(5):
        size = int(rng.choice([1, 2, 3, 8]))
        limits = [int(x) for x in rng.permutation(60)[:size]]
        timed = rng.random() < 0.3
        if timed:
            limits = [0.01 + x / 20.0 for x in limits]
        tg.faults, tg.delays = {}, {x: float(rng.random() * 0.1) for x in limits} if rng.random() < 0.4 else {}
        for x in limits:
            if rng.random() < 1.2 / size and not rng.random() < 0.1:
                r = rng.random()
                what = error(rng) if r < 0.5 else "kill" if r < 0.75 else int(rng.integers(0, 3))
                tg.faults[x] = (what, ["before", "after"][int(rng.integers(2))])
        kind, value = attempt(lambda: tg.multi_trajectory(**{"t_ends" if timed else "max_trs": list(limits)}))
        info = dict(limits=limits, faults={k: repr(v) for k, v in tg.faults.items()}, delays=tg.delays)
        if tg.faults:
            mon.check(kind == "raised", "trajectories are missing and nothing says so", key="swallowed", returned=len(list(value)) if kind == "returned" else None, info=info)
            mon.count("faults")
            mon.count("sampling_faults")
            mon.count("killed", any(w == "kill" for w, _ in tg.faults.values()))
            mon.count("reported")
            mon.seen("t", case["i"], step)
        else:
            mon.check(kind == "returned", "a call without faults failed", key="unreached", got=repr(value), info=info)
            frames = list(value)
            mon.eq(len(frames), size, "wrong number of trajectories", info=info)
            mon.count("unreached")
        value = None
        gone(mon, before, info)
        tg.faults, tg.delays = {}, {}
        res = tg.multi_trajectory(max_trs=[3, 4])
        frames = list(res)
        mon.eq(sorted(len(f) for f in frames), [4, 5], "after a failed call the trajectories are not those requested", key="recovery", info=info)
        for f in frames:
            c06.judge(mon, f, names, cards, parents, cims, info=info)
        mon.count("recovered", bool(tg.faults) or kind == "raised")
        res = None
        gone(mon, before, info)
    mon.sample(dict(names=names, last=info))
