"""Seeded computations: the global random generators put into the same state give the same results again."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import gen
from . import c05, c06, c10, c11, c17

ID = "C21"
RULE = ("The global random generators (numpy's and Python's) are seeded and a computation is made, then, possibly after other uses of the "
        "library and on the same objects or on new ones, seeded alike and the computation made again: sampling (limits by number, by time or both), parallel "
        "sampling, generation of graphs (free and fixed density) and CIMs, sequential score-based searches (hill climbing and tabu, with every evaluated "
        "parent set recorded). Computations without randomness (statistics, scores, tests, constraint-based search) are made under different seeds. Different seeds "
        "must give different trajectories. A whole list of seeded computations is also made in other interpreters, with other hash seeds. Non-trivial: a repetition of something random; distinct by kind, network and seed.")
FLOORS = {"trajectories": 200, "parallel": 40, "networks": 60, "searches": 200, "changed_by_seed": 100, "seedless": 50, "moves": 1000, "processes": 8, "repeated_elsewhere": 60}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return ([{"kind": "sample", "i": i} for i in range(40 * k)] + [{"kind": "generate", "i": i} for i in range(40 * k)]
            + [{"kind": "search", "i": i} for i in range(60 * k)] + [{"kind": "seedless", "i": i} for i in range(30 * k)]
            + [{"kind": "process", "i": i} for i in range(6 * k)])


def seeded(s):
    np.random.seed(s)
    random.seed(s)


def run(case, rng, mon):
    {"sample": sample, "generate": generate, "search": search, "seedless": seedless, "process": process}[case["kind"]](case, rng, mon)


def rows(frame):
    return [[float(t)] + [int(v) for v in s] for t, s in zip(frame["Time"], frame.drop(columns=["Time"]).to_numpy())]


def sample(case, rng, mon):
    names, cards, parents, cims = c06.network(rng)
    n = len(cards)
    tg = c06.generator(rng, names, cards, parents, cims)
    table = c06.edge_table(rng, names, parents)
    info = dict(names=names, cards=cards, parents=parents)

    def fresh():
        from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
        return TrajectoryGenerator(variables=gen.variables_frame(names, cards), dyn_str=table, dyn_cims=gen.to_library_cims(names, cards, parents, cims))

    tg = fresh()
    seen = {}
    for step in range(4):
        s = int(rng.integers(2 ** 31))
        kw = [dict(max_tr=int(rng.choice([0, 1, 5, 30]))), dict(t_end=float(rng.choice([0.0, 0.3, 3.0]))), dict(t_end=3.0, max_tr=20)][int(rng.integers(3))]
        seeded(s)
        first = rows(tg.CTBN_Sample(**kw))
        for again in range(2):
            if rng.random() < 0.5:
                tg.CTBN_Sample(max_tr=int(rng.integers(5)))
            if rng.random() < 0.3:
                tg.multi_trajectory(max_trs=[2])
            other = tg if rng.random() < 0.5 else fresh()
            seeded(s)
            mon.eq(rows(other.CTBN_Sample(**kw)), first, "another trajectory for the same seed", key="sample", limits=kw, same=other is tg, info=info)
            mon.count("trajectories")
        if len(first) > 4:
            seeded(s + 1)
            times = [r[0] for r in first[:5]]
            got = [r[0] for r in rows(tg.CTBN_Sample(**kw))[:5]]
            mon.check(got != times, "the same trajectory for another seed", key="seed-ignored", limits=kw, info=info)
            mon.count("changed_by_seed")
            mon.seen("sample", case["i"], step)
    for step in range(2):
        s = int(rng.integers(2 ** 31))
        limits = [int(rng.integers(1, 25)) for _ in range(int(rng.integers(1, 6)))]
        kw = dict(max_trs=limits) if rng.random() < 0.6 else dict(t_ends=[float(x) / 5 for x in limits])
        seeded(s)
        first = sorted(rows(f) for f in tg.multi_trajectory(**kw))
        other = tg if rng.random() < 0.5 else fresh()
        seeded(s)
        second = sorted(rows(f) for f in other.multi_trajectory(**kw))
        mon.eq(second, first, "other parallel trajectories for the same seed", key="parallel", limits=kw, info=info)
        mon.count("parallel")
        longest = max(first, key=len)
        if len(longest) > 4:
            seeded(s + 1)
            third = [[r[0] for r in rows(f)[:5]] for f in tg.multi_trajectory(**kw)]
            mon.check([r[0] for r in longest[:5]] not in third, "the same parallel trajectory for another seed", key="seed-ignored", limits=kw, info=info)
            mon.count("changed_by_seed")
            mon.seen("parallel", case["i"], step)
    mon.sample(dict(names=names, cards=cards, last=first[:3]))


def generate(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = int(rng.integers(2, 7))
    names, cards = gen.labels(rng, n), gen.cardinalities(rng, n)
    ng = NetworkGenerator(list(names), list(cards))
    for step in range(3):
        s = int(rng.integers(2 ** 31))
        fixed = rng.random() < 0.5
        m = int(rng.integers(0, n * (n - 1) + 1))
        if n > 4:
            m = min(m, 2 * n)
        density = m / float(n * (n - 1)) if fixed else float(rng.choice([0.2, 0.4]))
        lo = float(0.5 + rng.random())
        hi = lo + float(rng.random() * 5) + 0.1

        def make(g):
            seeded(s)
            g.generate_graph(density, fixed=fixed)
            edges = [tuple(e) for e in g.dyn_str.to_numpy().tolist()] if len(g.dyn_str) else []
            g.generate_cims(lo, hi)
            return edges, [[np.asarray(c.cim).tolist() for c in g.cims[x].actual_cims] for x in names]

        first = make(ng)
        if rng.random() < 0.5:
            ng.generate_graph(0.5)
        again = ng if rng.random() < 0.5 else NetworkGenerator(list(names), list(cards))
        mon.eq(make(again), first, "another network for the same seed", key="network", density=density, fixed=fixed, names=names, same=again is ng)
        mon.count("networks")
        s += 1
        other = make(ng)
        mon.check(other[1] != first[1], "the same CIMs for another seed", key="seed-ignored", names=names)
        mon.seen("network", case["i"], step)
    mon.sample(dict(names=names, cards=cards, edges=first[0]))


def search(case, rng, mon):
    n = int(rng.integers(2, 7))
    cards = gen.cardinalities(rng, n, 2, 3)
    names = gen.labels(rng, n)
    trajs = c10.data(rng, n, cards)
    known = [(a, b) for a in names for b in names if a != b and rng.random() < rng.choice([0.0, 0.15])]
    prior = [(a, b) for a in names for b in names if a != b and rng.random() < 0.3] if rng.random() < 0.4 else []
    table = c10.random_table(rng, names) if rng.random() < 0.7 else None

    def new(sp=None):
        with gen.quiet():
            est = c10.Logged(sp or gen.sample_path(trajs, names, cards, prior), known_edges=list(known))
        est.table, est.log = table, []
        return est

    est = new()
    for step in range(3):
        s = int(rng.integers(2 ** 31))
        opt = c10.options(rng, n)
        opt["iterations_number"] = min(opt["iterations_number"], 40)

        def make(e):
            e.log = []
            seeded(s)
            with gen.quiet():
                res = e.estimate_structure(disable_multiprocessing=True, **opt)
            return sorted((str(a), str(b)) for a, b in res), [(node, sorted(p)) for node, p, _, _ in e.log]

        first = make(est)
        for _ in range(2):
            if rng.random() < 0.4:
                with gen.quiet():
                    est.estimate_structure(disable_multiprocessing=True, iterations_number=3)
            other = est if rng.random() < 0.5 else new()
            got = make(other)
            info = dict(names=names, options=opt, known=known, same=other is est)
            mon.eq(got[0], first[0], "another structure for the same seed", key="search", info=info)
            mon.eq(got[1], first[1], "other parent sets are evaluated for the same seed", key="search", info=info)
            mon.count("searches")
        mon.count("moves", len(first[1]))
        mon.seen("search", case["i"], step)
    mon.sample(dict(names=names, options=opt, edges=first[0], evaluated=len(first[1])))


def seedless(case, rng, mon):
    from PyCTBN import StructureConstraintBasedEstimator, StructureScoreBasedEstimator
    n = int(rng.integers(2, 6))
    cards = gen.cardinalities(rng, n, 2, 3)
    names = gen.labels(rng, n)
    trajs = c11.make_data(rng, n, cards)
    a, b, th = c11.settings(rng)
    node = names[int(rng.integers(n))]
    parents = [x for x in names if x != node and rng.random() < 0.6]
    alpha, tau = float(rng.uniform(0.1, 3)), float(rng.uniform(0.1, 3))

    def everything(s):
        from PyCTBN import NetworkGraph, ParametersEstimator
        seeded(s)
        with gen.quiet():
            sp = gen.sample_path(trajs, names, cards, [])
            est = StructureConstraintBasedEstimator(sp, a, b, thumb_threshold=th)
            edges = sorted((str(x), str(y)) for x, y in est.estimate_structure(disable_multiprocessing=True))
            g = NetworkGraph(sp.structure)
            g.add_edges([(p, node) for p in parents])
            score = StructureScoreBasedEstimator(sp, tau, alpha).get_score_from_graph(g, node)
            g.fast_init(node)
            pe = ParametersEstimator(sp.trajectories, g)
            pe.fast_init(node)
            sofc = pe.compute_parameters_for_node(node)
        return edges, float(np.real(score)), [np.asarray(c.cim).tolist() for c in sofc.actual_cims]

    first = everything(int(rng.integers(2 ** 31)))
    for _ in range(2):
        if rng.random() < 0.5:
            np.random.rand(int(rng.integers(5)))
        mon.eq(everything(int(rng.integers(2 ** 31))), first, "a result without randomness depends on the seed", key="seedless", names=names, parents=parents)
        mon.count("seedless")

    # none of that sets the generators: what is random afterwards still depends on the seed
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    law_names, law_cards, law_parents, law_cims = c06.network(rng, 3)
    tg = c06.generator(rng, law_names, law_cards, law_parents, law_cims)
    with gen.quiet():
        shared = gen.sample_path(trajs, names, cards, [])
    done = []
    for _ in range(2):
        s = int(rng.integers(2 ** 31))
        everything(s)
        if rng.random() < 0.5:
            with gen.quiet():
                StructureScoreBasedEstimator(shared).estimate_structure(iterations_number=3, disable_multiprocessing=True)
        ng = NetworkGenerator(["n%d" % i for i in range(9)], [3] * 9)
        ng.generate_graph(0.5, fixed=True)
        ng.generate_cims(0.5, 5.0)
        done.append((rows(tg.CTBN_Sample(max_tr=6))[:5], [np.asarray(ng.cims[v].actual_cims[0].cim).tolist() for v in ng.cims], sorted(map(tuple, ng.dyn_str.to_numpy().tolist()))))
    for what, x, y in zip(("trajectory", "CIMs", "edges"), *done):
        mon.check(x != y or (what == "trajectory" and len(x) < 5), "after estimating, the same %s for another seed" % what, key="seed-ignored", got=x)
        mon.count("changed_after_estimates")
    mon.sample(dict(names=names, edges=first[0], score=first[1]))


def remote(s):
    """A list of seeded computations, all chosen by ``s``: (what, result) as they come out, in order where there is one."""
    from PyCTBN import StructureConstraintBasedEstimator
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    rng = np.random.default_rng(s)
    out = []
    for step in range(2):
        n = int(rng.integers(3, 7))
        names, cards = gen.labels(rng, n), gen.cardinalities(rng, n, 2, 3)
        ng = NetworkGenerator(list(names), list(cards))
        for fixed in (True, False):
            seeded(s + step)
            m = int(rng.integers(1, 2 * n))
            ng.generate_graph(min(m, n * (n - 1)) / float(n * (n - 1)) if fixed else 0.3, fixed=fixed)
            ng.generate_cims(1, 3)
            out.append(("network", sorted(str(e) for e in ng.dyn_str.to_numpy().tolist()) if len(ng.dyn_str) else [],
                        [[np.asarray(c.cim).tolist() for c in ng.cims[x].actual_cims] for x in names]))
        names, cards, parents, cims = c06.network(rng)
        tg = c06.generator(rng, names, cards, parents, cims)
        seeded(s + step)
        out.append(("trajectory", rows(tg.CTBN_Sample(max_tr=30))))
        seeded(s + step)
        out.append(("parallel", sorted(rows(f) for f in tg.multi_trajectory(max_trs=[5, 9, 13]))))
        n = int(rng.integers(3, 7))
        cards = gen.cardinalities(rng, n, 2, 3)
        names = gen.labels(rng, n)
        trajs = c10.data(rng, n, cards)
        table = c10.random_table(rng, names)
        for optimizer in ("hill", "tabu"):
            opt = dict(c10.options(rng, n), optimizer=optimizer, iterations_number=25)
            with gen.quiet():
                est = c10.Logged(gen.sample_path(trajs, names, cards, []))
                est.table, est.log = table, []
                seeded(s + step)
                res = est.estimate_structure(disable_multiprocessing=True, **opt)
            out.append((optimizer, sorted((str(a), str(b)) for a, b in res), [(node, sorted(p)) for node, p, _, _ in est.log]))
        trajs = c11.make_data(rng, 4, [2, 3, 2, 2])
        with gen.quiet():
            est = StructureConstraintBasedEstimator(gen.sample_path(trajs, ["x", "y", "z", "w"], [2, 3, 2, 2], []), 0.1, 0.1)
            out.append(("ctpc", sorted((str(a), str(b)) for a, b in est.estimate_structure(disable_multiprocessing=True))))
    return out


def process(case, rng, mon):
    s = int(rng.integers(2 ** 30))
    code = "import json, sys; from vmon.checks import c21; sys.stdout.flush(); json.dump(c21.remote(%d), open(sys.argv[1], 'w'))" % s
    got = []
    for k in range(2):
        path = os.path.abspath("remote%d.json" % k)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 31))))
        p = subprocess.run([sys.executable, "-c", code, path], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        mon.check(p.returncode == 0, "seeded computations fail in another process", key="process-fails", output=p.stderr[-1500:])
        with open(path) as f:
            got.append(json.load(f))
        os.unlink(path)
        mon.count("processes")
    own = json.loads(json.dumps(remote(s)))
    for k, other in enumerate(got):
        for a, b in zip(own, other):
            mon.eq(b, a, "another result for the same seed in another process", key="process/%s" % a[0], what=a[0], seed=s)
            mon.count("repeated_elsewhere")
            mon.seen("process", case["i"], k, a[0])
    mon.sample(dict(what=[a[0] for a in own]))
