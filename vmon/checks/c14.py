"""Random edit sequences on structures and graphs against a model made of plain dictionaries."""
import itertools

import numpy as np

from .. import gen, ref

ID = "C14"
RULE = ("Random sequences of 5-60 operations (add/remove edges, remove nodes, clear edges, add nodes, derive indexing for a node) on "
        "structures built by hand (also over a subset of the data columns, several from the same lists) or by a sample path, and on "
        "graphs over them; after every operation every public getter is compared with a model. Structures built again from the same lists, and "
        "with one label, index, cardinality or edge changed, are compared with ==. Non-trivial: sequences with at least one node and one "
        "edge removed; distinct by sequence.")
FLOORS = {"operations": 4000, "getter_comparisons": 30000, "nodes_removed": 200, "edges_removed": 300, "derived_indexings": 800, "parents_exchanged": 40, "shared_lists": 30, "statistics_compared": 60, "equal_pairs": 150, "part_lookups": 200, "unequal_pairs": 400}


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"kind": kind, "i": i} for i in range(140 * k) for kind in ("structure", "graph", "shared")]


class Model(object):
    def __init__(self, names, columns, cards, edges, total):
        self.names, self.total = list(names), total
        self.col, self.card = dict(zip(names, columns)), dict(zip(names, cards))
        self.edges = list(edges)

    def remove_node(self, x):
        self.names.remove(x)
        self.edges = [e for e in self.edges if x not in e]


def judge_structure(mon, s, m, ops):
    info = dict(operations=ops[-12:])
    mon.eq([str(x) for x in s.nodes_labels], m.names, "wrong nodes", key="nodes", info=info)
    mon.eq([int(x) for x in s.nodes_indexes], [m.col[x] for x in m.names], "wrong data indexes", key="indexes", info=info)
    mon.eq([int(x) for x in s.nodes_values], [m.card[x] for x in m.names], "wrong cardinalities", key="cardinalities", info=info)
    mon.eq(sorted((str(a), str(b)) for a, b in s.edges), sorted(m.edges), "wrong edges", key="edges", info=info)
    mon.eq(int(s.total_variables_number), m.total, "the number of variables of the data changed", info=info)
    for pos, x in enumerate(m.names):
        mon.eq((str(s.get_node_id(m.col[x])), int(s.get_node_indx(x)), int(s.get_positional_node_indx(x)), int(s.get_states_number(x))),
               (x, m.col[x], pos, m.card[x]), "a node lookup is wrong", key="lookup", node=x, info=info)
    for a in m.names:
        for b in m.names:
            if a != b:
                mon.eq(bool(s.contains_edge((a, b))), (a, b) in m.edges, "edge membership is wrong", key="contains", edge=(a, b), info=info)
    mon.count("getter_comparisons", 5 + len(m.names) * (len(m.names) + 3))


def judge_equality(rng, mon, s, m, ops):
    """== against structures described by the model: the same, and with one thing changed."""
    from PyCTBN import Structure
    info = dict(operations=ops[-12:])

    def build(names, cols, cards, edges):
        return Structure(list(names), np.array(cols), np.array(cards), list(edges), m.total)
    cols, cards = [m.col[x] for x in m.names], [m.card[x] for x in m.names]
    edges = [(str(a), str(b)) for a, b in s.edges]
    same = build(m.names, cols, cards, edges)
    mon.check(bool(s == same) and bool(same == s) and bool(s == s) and not bool(s != same), "structures with the same description are not equal", key="equal", info=info)
    mon.count("equal_pairs")
    others = []
    n = len(m.names)
    i = int(rng.integers(n))
    others.append(("label", ([x + "'" if k == i else x for k, x in enumerate(m.names)], cols, cards, edges)))
    others.append(("cardinality", (m.names, cols, [c + (k == i) for k, c in enumerate(cards)], edges)))
    others.append(("index", (m.names, cols[:-1] + [cols[-1] + 1], cards, edges)))
    free = [(a, b) for a in m.names for b in m.names if a != b and (a, b) not in edges]
    if free:
        others.append(("edge", (m.names, cols, cards, edges + [free[int(rng.integers(len(free)))]])))
    if edges:
        j = int(rng.integers(len(edges)))
        others.append(("edge", (m.names, cols, cards, edges[:j] + edges[j + 1:])))
        if edges[j][::-1] not in edges:
            others.append(("edge", (m.names, cols, cards, edges[:j] + [edges[j][::-1]] + edges[j + 1:])))
    if n > 1:
        k = int(rng.integers(n - 1))
        swapped = list(m.names)
        swapped[k], swapped[k + 1] = swapped[k + 1], swapped[k]
        others.append(("label", (swapped, cols, cards, edges)))
        others.append(("node", (m.names[:-1], cols[:-1], cards[:-1], [e for e in edges if m.names[-1] not in e])))
    for what, args in others:
        o = build(*args)
        mon.check(not bool(s == o) and not bool(o == s) and bool(s != o), "structures that differ are equal", key="unequal", differ=what, other=args, info=info)
        mon.count("unequal_pairs")
    mon.check(not bool(s == "x") and not bool(s == None) and bool(s != 3), "a structure equals something else", key="unequal", info=info)   # noqa: E711


def initial(rng):
    r = rng.random()
    total = int(rng.integers(1, 9)) if r < 0.9 else int(rng.integers(12, 21)) if r < 0.95 else int(rng.integers(130, 301))
    n = int(rng.integers(2, 7)) if total > 20 else total if rng.random() < 0.6 else int(rng.integers(1, total + 1))
    columns = sorted(int(x) for x in rng.permutation(total)[:n])
    cards = gen.cardinalities(rng, n, 2, 5)
    names = gen.labels(rng, n)
    edges = [(a, b) for a in names for b in names if a != b and rng.random() < float(rng.choice([0.0, 0.3, 0.7]))]
    edges = [edges[i] for i in rng.permutation(len(edges))]
    if n > 8:                                   # the assignments of all parents are listed: keep them few
        cards = [min(c, 3) for c in cards]
        edges = [e for k, e in enumerate(edges) if sum(1 for d in edges[:k] if d[1] == e[1]) < 5]
    return names, columns, cards, edges, total


def edit_structure(rng, mon, s, m, ops):
    r = rng.random()
    free = [(a, b) for a in m.names for b in m.names if a != b and (a, b) not in m.edges]
    if r < 0.35 and free:
        e = free[int(rng.integers(len(free)))]
        s.add_edge(e)
        m.edges.append(e)
        ops.append(("add", e))
    elif r < 0.7 and m.edges:
        e = m.edges[int(rng.integers(len(m.edges)))]
        s.remove_edge(e)
        m.edges.remove(e)
        ops.append(("remove", e))
        mon.count("edges_removed")
    elif r < 0.82 and len(m.names) > 1:
        x = m.names[int(rng.integers(len(m.names)))]
        s.remove_node(x)
        m.remove_node(x)
        ops.append(("remove node", x))
        mon.count("nodes_removed")
    elif r < 0.85:
        s.clean_structure_edges()
        m.edges = []
        ops.append("clear")
    mon.count("operations")


def run(case, rng, mon):
    {"structure": structure, "graph": graph, "shared": shared}[case["kind"]](case, rng, mon)


def structure(case, rng, mon):
    from PyCTBN import Structure
    names, columns, cards, edges, total = initial(rng)
    if rng.random() < 0.3:
        total, columns = len(names), list(range(len(names)))
        with gen.quiet():
            sp = gen.sample_path([gen.raw_trajectory(rng, cards, 5)], names, cards, edges)
        s = sp.structure
    else:
        s = Structure(list(names), np.array(columns), np.array(cards), list(edges), total)
    m = Model(names, columns, cards, edges, total)
    ops = []
    judge_structure(mon, s, m, ops)
    judge_equality(rng, mon, s, m, ops)
    for _ in range(int(rng.integers(5, 40))):
        edit_structure(rng, mon, s, m, ops)
        judge_structure(mon, s, m, ops)
    judge_equality(rng, mon, s, m, ops)
    if any(o[0] == "remove node" for o in ops) and any(o[0] == "remove" for o in ops):
        mon.seen("s", str(ops))
    mon.sample(dict(names=names, columns=columns, cards=cards, operations=ops[:8]))


def shared(case, rng, mon):
    """Several structures from the same lists and arrays: editing one is not seen in another."""
    from PyCTBN import Structure
    names, columns, cards, edges, total = initial(rng)
    given = (list(names), np.array(columns), np.array(cards), list(edges))
    ss = [Structure(*given, total) for _ in range(2)]
    ms = [Model(names, columns, cards, edges, total) for _ in range(2)]
    ops = []
    for _ in range(int(rng.integers(4, 14))):
        i = int(rng.integers(2))
        ops.append(("structure", i))
        edit_structure(rng, mon, ss[i], ms[i], ops)
        for s, m in zip(ss, ms):
            judge_structure(mon, s, m, ops)
    third = Structure(*given, total)
    judge_structure(mon, third, Model(names, columns, cards, edges, total), ops)
    mon.count("shared_lists")


def judge_graph(mon, g, m, gedges, ops):
    info = dict(operations=ops[-12:])
    mon.eq([str(x) for x in g.nodes], m.names, "wrong nodes of the graph", key="nodes", info=info)
    mon.eq(sorted((str(a), str(b)) for a, b in g.edges), sorted(gedges), "wrong edges of the graph", key="edges", info=info)
    mon.eq([int(x) for x in g.nodes_indexes], [m.col[x] for x in m.names], "wrong data indexes of the graph", key="indexes", info=info)
    mon.eq([int(x) for x in g.nodes_values], [m.card[x] for x in m.names], "wrong cardinalities of the graph", key="cardinalities", info=info)
    for pos, x in enumerate(m.names):
        mon.eq((int(g.get_node_indx(x)), int(g.get_states_number(x)), int(g.get_positional_node_indx(x))), (m.col[x], m.card[x], pos),
               "a node lookup of the graph is wrong", key="lookup", node=x, info=info)
        want = [p for p in m.names if (p, x) in gedges]
        mon.eq(sorted(str(p) for p in g.get_parents_by_id(x)), sorted(want), "wrong parents", key="parents", node=x, info=info)
        ls, ix, vs = g.get_ordered_by_indx_set_of_parents(x)
        mon.eq(([str(p) for p in ls], [int(v) for v in ix], [int(v) for v in vs]), (want, [m.col[p] for p in want], [m.card[p] for p in want]),
               "parents are not described in the order of the variables", key="parents", node=x, info=info)
        for b in m.names:
            if b != x:
                mon.eq(bool(g.has_edge((x, b))), (x, b) in gedges, "edge membership of the graph is wrong", key="contains", edge=(x, b), info=info)
    mon.count("getter_comparisons", 4 + len(m.names) * (len(m.names) + 4))


def judge_part(rng, mon, s, m):
    """A graph over some of the nodes of a structure, added in any order and in several steps."""
    from PyCTBN import NetworkGraph
    part = [m.names[i] for i in rng.permutation(len(m.names))[:int(rng.integers(1, len(m.names) + 1))]]
    cut = int(rng.integers(len(part) + 1))
    h = NetworkGraph(s)
    h.add_nodes(part[:cut])
    h.add_nodes(part[cut:] if rng.random() < 0.5 else part)
    edges = [(a, b) for a in part for b in part if a != b and rng.random() < min(0.4, 3.0 / len(part))]
    h.add_edges(edges)
    info = dict(added=part, edges=edges, structure=m.names)
    for x in part:
        mon.eq((int(h.get_node_indx(x)), int(h.get_states_number(x)), int(h.get_positional_node_indx(x))), (m.col[x], m.card[x], m.names.index(x)),
               "a node lookup of a part is wrong", key="part", node=x, info=info)
        want = [p for p in m.names if (p, x) in edges]
        ls, ix, vs = h.get_ordered_by_indx_set_of_parents(x)
        mon.eq(([str(p) for p in ls], [int(v) for v in ix], [int(v) for v in vs]), (want, [m.col[p] for p in want], [m.card[p] for p in want]),
               "parents in a part are not described in the order of the variables", key="part", node=x, info=info)
        mon.count("part_lookups")
    x = part[int(rng.integers(len(part)))]
    h.fast_init(x)
    judge_indexing(mon, h, m, set(edges) | set(m.edges), x, ["part", part, edges])


def judge_indexing(mon, g, m, gedges, x, ops):
    info = dict(operations=ops[-12:], node=x)
    want = [p for p in m.names if (p, x) in gedges]
    cols = [m.col[p] for p in want]
    pc = [m.card[p] for p in want]
    mon.eq([int(v) for v in g.time_filtering], [m.col[x]] + cols, "the columns of the residence times are wrong", key="indexing", info=info)
    mon.eq([int(v) for v in g.transition_filtering], [m.col[x] + m.total, m.col[x]] + cols, "the columns of the transitions are wrong", key="indexing", info=info)
    mon.eq([int(v) for v in g.time_scalar_indexing_strucure], [int(v) for v in np.cumprod([m.card[x]] + pc)], "wrong sizes for the residence times", key="indexing", info=info)
    mon.eq([int(v) for v in g.transition_scalar_indexing_structure], [int(v) for v in np.cumprod([m.card[x], m.card[x]] + pc)], "wrong sizes for the transitions", key="indexing", info=info)
    combs = np.asarray(g.p_combs)
    mon.eq([tuple(int(v) for v in u) for u in combs], ref.assignments(pc), "wrong parent assignments", key="p_combs", info=info)
    mon.count("derived_indexings")


def graph(case, rng, mon):
    from PyCTBN import NetworkGraph, ParametersEstimator, Structure
    names, columns, cards, edges, total = initial(rng)
    s = Structure(list(names), np.array(columns), np.array(cards), list(edges), total)
    m = Model(names, columns, cards, edges, total)
    g = NetworkGraph(s)
    ops, gedges, init = [], set(), False
    first = int(rng.integers(2))
    if first == 0:
        g.add_nodes(s.nodes_labels)
        g.add_edges(s.edges)
        gedges = set(m.edges)
    else:
        x = names[int(rng.integers(len(names)))]
        g.fast_init(x)
        gedges = set(m.edges)
        judge_indexing(mon, g, m, gedges, x, ["init " + x])
    judge_graph(mon, g, m, gedges, ops)
    judge_part(rng, mon, s, m)
    removed_nodes = removed_edges = 0
    for _ in range(int(rng.integers(5, 40))):
        r = rng.random()
        if r < 0.3 and len(m.names) > 1:
            k = int(rng.integers(1, 4))
            free = [(a, b) for a in m.names for b in m.names if a != b]
            es = [free[int(i)] for i in rng.permutation(len(free))[:k]]
            g.add_edges(es)
            gedges |= set(es)
            ops.append(("add", es))
        elif r < 0.55 and gedges:
            pool = sorted(gedges)
            es = [pool[int(i)] for i in rng.permutation(len(pool))[:int(rng.integers(1, 3))]]
            for e in es:                            # an edge of the structure comes back with the next indexing: remove it there too
                if e in m.edges:
                    s.remove_edge(e)
                    m.edges.remove(e)
            if rng.random() < 0.3:
                es = es + es[:1]                    # removing an edge that is no longer there is harmless
            absent = [(a, b) for a in m.names for b in m.names if a != b and (a, b) not in gedges]
            if absent and rng.random() < 0.3:       # nor does one that never was keep the others
                es = list(es)
                es.insert(int(rng.integers(len(es) + 1)), absent[int(rng.integers(len(absent)))])
                mon.count("absent_edges")
            g.remove_edges(es)
            gedges -= set(es)
            ops.append(("remove", es))
            removed_edges += 1
            mon.count("edges_removed")
        elif r < 0.65 and len(m.names) > 1:
            x = m.names[int(rng.integers(len(m.names)))]
            g.remove_node(x)
            m.remove_node(x)
            gedges = {e for e in gedges if x not in e}
            ops.append(("remove node", x))
            removed_nodes += 1
            mon.count("nodes_removed")
        elif r < 0.9:
            x = m.names[int(rng.integers(len(m.names)))]
            g.fast_init(x)
            gedges |= set(m.edges)
            ops.append(("index", x))
            judge_indexing(mon, g, m, gedges, x, ops)
            into, out = [p for p in m.names if (p, x) in gedges], [p for p in m.names if p != x and (p, x) not in gedges]
            if into and out and rng.random() < 0.4:             # as many parents, but others
                p, q = into[int(rng.integers(len(into)))], out[int(rng.integers(len(out)))]
                if (p, x) in m.edges:
                    s.remove_edge((p, x))
                    m.edges.remove((p, x))
                for what in rng.permutation(2):
                    if what:
                        g.remove_edges([(p, x)])
                    else:
                        g.add_edges([(q, x)])
                gedges = (gedges - {(p, x)}) | {(q, x)}
                g.fast_init(x)
                gedges |= set(m.edges)
                ops.append(("exchange", p, q, x))
                judge_indexing(mon, g, m, gedges, x, ops)
                mon.count("parents_exchanged")
        judge_graph(mon, g, m, gedges, ops)
        judge_structure(mon, s, m, ops)
        mon.count("operations")
    # what the whole leads to: statistics of the right columns
    x = m.names[int(rng.integers(len(m.names)))]
    want = [p for p in m.names if (p, x) in gedges][:4]
    for p in [p for p in m.names if (p, x) in gedges][4:]:
        if (p, x) in m.edges:
            s.remove_edge((p, x))
            m.edges.remove((p, x))
        g.remove_edges([(p, x)])
        gedges.discard((p, x))
    all_cards = [int(rng.integers(2, 6)) for _ in range(total)]
    for y in names:
        all_cards[m.col[y]] = m.card[y]
    trajs = [gen.raw_trajectory(rng, all_cards, 40)]
    data = gen.sample_path(trajs, ["v%d" % i for i in range(total)], all_cards)
    g.fast_init(x)
    pe = ParametersEstimator(data.trajectories, g)
    pe.fast_init(x)
    sofc = pe.compute_parameters_for_node(x)
    st = ref.stats(ref.transitions(trajs), m.col[x], [m.col[p] for p in want], all_cards)
    for u, c in zip(ref.assignments([m.card[p] for p in want]), sofc.actual_cims):
        T, M = st[u]
        mon.check(np.array_equal(np.asarray(c.state_transition_matrix), M) and np.allclose(c.state_residence_times, T, rtol=1e-9, atol=1e-9),
                  "statistics of the wrong columns after the edits", key="statistics", node=x, parents=want, assignment=u, operations=ops[-12:])
        mon.count("statistics_compared")
    if removed_nodes and removed_edges:
        mon.seen("g", str(ops))
    mon.sample(dict(names=names, columns=columns, cards=cards, operations=ops[:8]))
