"""From a network to trajectories, to a file, to estimates and back to a network: the parameters that come out are the ones that went in."""
import os

import numpy as np

from .. import gen, law, ref

ID = "C24"
RULE = ("Networks made by the library's generator or by hand (2-5 variables, 2-4 states, up to 3 parents, cycles, any names), sampled by "
        "the library (one long trajectory or several, one after another or in parallel, limited by transitions or by time, from objects or "
        "from an exported file), handed to the estimator as frames or through a JSON file with the true edges as prior structure, and "
        "estimated on the graph of that structure as the documentation shows. The oracles are the sampled rows (every coefficient gives back the number of transitions in them) and the network: every coefficient times the time "
        "spent in its state, recounted by the harness, may deviate from the true intensity times that time only as far as a martingale "
        "with unit jumps can. The estimates are then compared on graphs with superfluous parents, and used as the network of a new "
        "generator, whose trajectories must follow the estimated intensities. Distinct by network, way and node.")
FLOORS = {"coefficients": 1500, "nodes_estimated": 80, "pools": 80, "through_json": 8, "through_frames": 8, "generated_networks": 8, "hand_networks": 8,
          "parallel": 4, "from_file": 6, "superfluous": 20, "resampled": 6, "multi_parent_nodes": 8, "averages": 60}


def cases(tier, seed):
    k = 1 if tier == "quick" else 9
    return [{"i": i} for i in range(48 * k)]


def own_network(rng):
    n = int(rng.integers(2, 6))
    cards = gen.cardinalities(rng, n, 2, 4)
    parents = gen.random_parents(rng, n, float(rng.choice([0.3, 0.6, 1.0])), 2 if max(cards) > 3 else 3)
    odd = rng.random()
    if odd < 0.15:                       # ten or more states, also of a parent
        j = int(rng.integers(n))
        cards[j] = int(rng.integers(10, 13))
        cards = [min(c, 3) if c < 10 else c for c in cards]
        parents = [ps[:2] for ps in parents]
    elif odd < 0.25:                     # one variable alone
        cards, parents = cards[:1], [[]]
    elif odd < 0.4:                      # many variables, many parents of one
        n = int(rng.integers(7, 10))
        cards, parents = gen.cardinalities(rng, n, 2, 3), gen.random_parents(rng, n, 0.15, 2)
        j = int(rng.integers(n))
        cards[j] = 2
        parents[j] = sorted(int(x) for x in rng.permutation([p for p in range(n) if p != j])[:5])
    return cards, parents, gen.random_cims(rng, cards, parents, 0.5, 6.0, zero_prob=0.15)


def make(rng, names):
    """(cards, parents, {assignment: matrix} per node, variables, edges, the library's CIMs) of a new network"""
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = len(names)
    cards = gen.cardinalities(rng, n, 2, 4)
    for _ in range(200):
        g = NetworkGenerator(list(names), list(cards))
        g.generate_graph(float(rng.choice([0.2, 0.4, 0.7])))
        edges = [(str(a), str(b)) for a, b in zip(g.dyn_str["From"], g.dyn_str["To"])]
        parents = [sorted(names.index(a) for a, b in edges if b == c) for c in names]
        if all(np.prod([cards[p] for p in ps]) <= 16 for ps in parents):
            break
    else:
        return None
    lo = float(rng.uniform(0.5, 2.0))
    g.generate_cims(lo, lo * float(rng.uniform(1.0, 4.0)))
    cims = []
    for i, c in enumerate(names):
        s = g.cims[c]
        cims.append({tuple(int(v) for v in comb): np.array(m.cim, dtype=float) for comb, m in zip(s.p_combs, s.actual_cims)})
    return cards, parents, cims, g.variables, g.dyn_str, g.cims


def estimate(sp, names, node, graph):
    """{assignment of the parents in the order of the variables: matrix}, those parents"""
    from PyCTBN import ParametersEstimator
    graph.fast_init(names[node])
    order = [names.index(str(p)) for p in graph.get_ordered_by_indx_set_of_parents(names[node])[0]]
    pe = ParametersEstimator(sp.trajectories, graph)
    pe.fast_init(names[node])
    s = pe.compute_parameters_for_node(names[node])
    return {tuple(int(v) for v in comb): np.array(m.cim, dtype=float) for comb, m in zip(s.p_combs, s.actual_cims)}, order, s


def judge(mon, est, times, truth, trans, cards, node, parents, true_parents, slack, lost, what, info, pool):
    """``times``: {assignment: (residence times, transitions)} by the harness; ``pool``: what is compared over all the networks together"""
    k = cards[node]
    keep = [parents.index(p) for p in true_parents]
    mon.eq(sorted(est), sorted(times), "the estimates do not cover the assignments of the parents (%s)" % what, key="assignments", info=info)
    pooled_n = pooled_e = 0.0
    for u, q in est.items():
        t, m = times[u]
        true = truth[tuple(u[j] for j in keep)]
        for x in range(k):
            for y in range(k):
                e = abs(true[x][y]) * t[x]
                got = abs(q[x][y] * (t[x] + 1.0) - 1.0)                    # (M + 1) / (T + 1), and (1 - M) / (T + 1) on the diagonal
                mon.check(abs(got - m[x][y]) <= 1e-6 * (1 + m[x][y]), "an estimated intensity is not the one of the sampled rows (%s)" % what, key="rows",
                          node=node, assignment=u, states=(x, y), estimated=float(q[x][y]), seen=got, rows=m[x][y], info=info)
                mon.check(m[x][y] == 0 or true[x][y] != 0, "a transition of intensity 0 was sampled", key="zero", node=node, assignment=u, states=(x, y), info=info)
                if x == y:
                    pooled_n, pooled_e = pooled_n + got, pooled_e + e
                mon.check(abs(got - e) <= law.bernstein(e + slack) + slack + lost, "an estimated intensity is not the one of the network (%s)" % what, key="coefficient",
                          node=node, assignment=u, states=(x, y), estimated=float(q[x][y]), true=float(true[x][y]), time=t[x], expected=e, seen=got, info=info)
                mon.count("coefficients")
                side = "exit" if x == y else ("below" if y < x else "above")
                for key in ((side,), (side, "parents", len(parents)), (side, "state", x), (side, "node", node), (side, "card", k), (side, what), (side, "last", x == k - 1),
                            (side, "first parent", u[:1]), (side, "last parent", u[-1:]), (side,) + tuple(info[c] for c in ("how", "by_time", "pieces")),
                            (side, "json", info["through_json"]), (side, "file", info["from_file"]), (side, "generated", info["generated"])):
                    a = pool.setdefault(key, [0.0, 0.0, 0.0, set()])
                    a[0] += got
                    a[1] += e
                    a[3].add((node, what))
    mon.check(abs(pooled_n - pooled_e) <= law.bernstein(pooled_e + slack) + slack + lost, "the estimated exit rates are not those of the network (%s)" % what,
              key="pool", node=node, expected=pooled_e, seen=pooled_n, info=info)
    mon.count("pools")


def run(case, rng, mon):
    from PyCTBN import JsonImporter, NetworkGraph, SampleImporter, SamplePath
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    i = case["i"]
    generated = bool(i % 2)
    net = None
    if generated:
        names = gen.labels(rng, int(rng.integers(2, 6)))
        net = make(rng, names)
    if net is None:
        generated = False
        cards, parents, cims = own_network(rng)
        names = gen.labels(rng, len(cards))
        variables = gen.variables_frame(names, cards)
        pairs = [(names[p], names[c]) for c in range(len(cards)) for p in parents[c]]
        dyn_str = gen.edges_frame([pairs[j] for j in rng.permutation(len(pairs))])
        lib = gen.to_library_cims(names, cards, parents, cims, rng=rng)
    else:
        cards, parents, cims, variables, dyn_str, lib = net
    n = len(cards)
    mon.count("generated_networks" if generated else "hand_networks")
    rates = [max(-float(q[x][x]) for q in cims[j].values() for x in range(cards[j])) for j in range(n)]
    info = dict(names=names, cards=cards, parents=parents, generated=generated)

    # the generator, from the objects or from a file that describes them
    f = "net_%d.json" % i
    from_file = bool(rng.random() < 0.4) and len(dyn_str) > 0
    if from_file:
        e = JsonExporter(variables, dyn_str, lib)
        start = gen.frame([[0.0] + [0] * n, [1.0] + [-1] * n], names)
        e.add_trajectory(start)
        e.out_file(f)
        imp = JsonImporter(f, "samples", "dyn.str", "variables", "Time", "Name", cims_label="dyn.cims")
        os.unlink(f)
        imp.import_data(0)
        tg = TrajectoryGenerator(imp)
        mon.count("from_file")
    else:
        tg = TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=lib)

    pieces = int(rng.choice([1, 1, 2, 4]))
    total = 1600
    by_time = bool(rng.random() < 0.5)
    speed = sum(rates) * 0.7
    how = "parallel" if rng.random() < 0.3 else "sequential"
    each = max(50, total // pieces)
    with gen.quiet():
        if how == "parallel":
            kw = {"t_ends": [each / speed] * pieces} if by_time else {"max_trs": [each] * pieces}
            frames = list(tg.multi_trajectory(**kw))
        else:
            frames = [tg.CTBN_Sample(t_end=each / speed) if by_time else tg.CTBN_Sample(max_tr=each) for _ in range(pieces)]
    mon.count("parallel", how == "parallel")
    mon.eq(len(frames), pieces, "trajectories are missing", key="count", info=info)
    rows = [law.rows_of(t, names) for t in frames]
    trans = ref.transitions(rows)
    info.update(pieces=pieces, by_time=by_time, how=how, from_file=from_file, transitions=len(trans))

    # to the estimator, as frames or through a file
    through_json = bool(rng.random() < 0.5)
    with gen.quiet():
        if through_json:
            e = JsonExporter(variables, dyn_str, lib)
            for t in frames:
                e.add_trajectory(t)
            e.out_file(f)
            imp = JsonImporter(file_path=f, samples_label="samples", structure_label="dyn.str", variables_label="variables", time_key="Time", variables_key="Name",
                               **({"cims_label": "dyn.cims"} if rng.random() < 0.5 else {}))
            os.unlink(f)
            imp.import_data(0)
        else:
            imp = SampleImporter(list(frames), variables, dyn_str)
            imp.import_data()
        sp = SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
    mon.count("through_json" if through_json else "through_frames")
    info["through_json"] = through_json
    slack = 5.1e-5 * sum(rates) * np.sqrt(len(trans)) * 6 + 1e-3          # times are rounded to four decimals
    lost = pieces                                                        # the last transition of a trajectory is not shown

    fitted, enough, pool = {}, True, {}
    for node in range(n):
        est, order, s = estimate(sp, names, node, NetworkGraph(sp.structure))
        mon.eq(order, parents[node], "the graph of the prior structure has other parents", key="parents", node=node, info=info)
        st = ref.stats(trans, node, order, cards)
        times = st
        judge(mon, est, times, cims[node], trans, cards, node, order, parents[node], slack, lost, "true parents", info, pool)
        mon.count("nodes_estimated")
        mon.count("multi_parent_nodes", len(order) > 1)
        mon.seen(i, node, how, through_json)
        fitted[names[node]] = s
        enough = enough and all(m[x][x] >= 2 for _, m in st.values() for x in range(cards[node]))
        others = [p for p in range(n) if p != node and p not in order]
        if others and rng.random() < 0.5:
            extra = sorted(order + [others[int(rng.integers(len(others)))]])
            g = gen.node_graph(names, cards, [(names[p], names[node]) for p in rng.permutation(extra)])
            est, got, _ = estimate(sp, names, node, g)
            mon.eq(got, extra, "the graph has other parents", key="parents", node=node, info=info)
            times = ref.stats(trans, node, extra, cards)
            judge(mon, est, times, cims[node], trans, cards, node, extra, parents[node], slack, lost, "superfluous parent", info, pool)
            mon.count("superfluous")

    mon.pool.append({key: (a[0], a[1], slack + lost, len(a[3])) for key, a in pool.items()})

    # the estimates are a network in their own right
    if enough:
        theirs = [{tuple(int(v) for v in comb): np.array(m.cim, dtype=float) for comb, m in zip(fitted[c].p_combs, fitted[c].actual_cims)} for c in names]
        tg = TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=fitted)
        with gen.quiet():
            again = [tg.CTBN_Sample(max_tr=300) for _ in range(2)]
        lw = law.Law(cards, parents, theirs, "resampled")
        for t in again:
            r = law.rows_of(t, names)
            mon.eq(len(r), 301, "a trajectory sampled from estimates is not complete", key="resampled", info=info)
            lw.add(r)
        lw.judge(mon)
        mon.count("resampled")
    mon.sample(info)


def finish(pool, mon):
    """A node on which two graphs were tried counts twice: the variation of the sum is at most doubled."""
    groups = {}
    for part in pool:
        for key, (n, e, s, k) in part.items():
            a = groups.setdefault(key, [0.0, 0.0, 0.0])
            a[0], a[1], a[2] = a[0] + n, a[1] + e, a[2] + s * k
    for key, (n, e, s) in groups.items():
        mon.check(abs(n - e) <= 2 * law.bernstein(e + s) + s, "estimated intensities are off on the average over many networks", key="average",
                  group=key, seen=n, expected=e, slack=s)
        mon.count("averages")
        mon.top("max_pooled_transitions", n)
