"""Helpers of the demonstrations: data sets, and the objects of the library built from them."""
import contextlib
import io
import itertools
import sys

import numpy as np
import pandas as pd


def fail(why):
    print("BROKEN:", why, file=sys.__stdout__)
    sys.exit(1)


def check(ok, why):
    if not ok:
        fail(why)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def frame(rows, names):
    df = pd.DataFrame([r[1:] for r in rows], columns=names, dtype="int64")
    df.insert(0, "Time", np.array([r[0] for r in rows], dtype=float))
    return df


def variables(names, cards):
    return pd.DataFrame({"Name": list(names), "Value": [int(c) for c in cards]})


def edges_frame(edges):
    return pd.DataFrame([list(e) for e in edges], columns=["From", "To"])


def path(trajs, names, cards, edges=()):
    from PyCTBN import SampleImporter, SamplePath
    imp = SampleImporter([frame(t, names) for t in trajs], variables(names, cards), edges_frame(edges))
    imp.import_data()
    sp = SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def graph(names, cards, edges):
    from PyCTBN import NetworkGraph, Structure
    s = Structure(list(names), np.arange(len(names)), np.array(cards), list(edges), len(names))
    g = NetworkGraph(s)
    g.add_nodes(s.nodes_labels)
    g.add_edges(s.edges)
    return g


def parameters(sp, names, cards, node, parents):
    from PyCTBN import ParametersEstimator
    g = graph(names, cards, [(p, node) for p in parents])
    g.fast_init(node)
    pe = ParametersEstimator(sp.trajectories, g)
    pe.fast_init(node)
    return pe.compute_parameters_for_node(node)


def walk(rng, cards, rows, jumps=0.0):
    """Random rows; usually one variable changes."""
    s, t, out = [0] * len(cards), 0.0, []
    for _ in range(rows):
        out.append([t] + list(s))
        t += float(rng.exponential(1.0))
        i = int(rng.integers(len(cards)))
        s[i] = int((s[i] + 1 + rng.integers(cards[i] - 1)) % cards[i])
    return out


def statistics(trajs, node, parents, cards):
    """{assignment: (T, M)} by brute force over column numbers."""
    k = cards[node]
    out = {u: (np.zeros(k), np.zeros((k, k), dtype=int)) for u in itertools.product(*[range(cards[p]) for p in parents])}
    for tr in trajs:
        for a, b in zip(tr, tr[1:]):
            T, M = out[tuple(a[1 + p] for p in parents)]
            x, y = a[1 + node], b[1 + node]
            T[x] += b[0] - a[0]
            if y >= 0 and y != x:
                M[x, y] += 1
                M[x, x] += 1
    return out


def network(names, cards, parents, cims):
    """{name: SetOfCims} from {assignment: matrix} per node; assignments with the first parent fastest."""
    from PyCTBN import ConditionalIntensityMatrix, SetOfCims
    out = {}
    for i, name in enumerate(names):
        combs = [tuple(reversed(c)) for c in itertools.product(*[range(cards[p]) for p in reversed(parents[i])])]
        objs = np.empty(len(combs), dtype=object)
        objs[:] = [ConditionalIntensityMatrix(cim=np.array(cims[i][c], dtype=float)) for c in combs]
        out[name] = SetOfCims(node_id=name, parents_states_number=[cards[p] for p in parents[i]], node_states_number=cards[i],
                              p_combs=np.array([list(c) for c in combs], dtype=int) if parents[i] else np.array([[]], dtype=int), cims=objs)
    return out


def uniform(k, rate):
    q = np.full((k, k), rate / (k - 1.0))
    np.fill_diagonal(q, -rate)
    return q


def generator(names, cards, parents, cims, order=None):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    edges = [(names[p], names[i]) for i in range(len(names)) for p in parents[i]]
    lib = network(names, cards, parents, cims)
    if order:
        lib = {x: lib[x] for x in order}
    return TrajectoryGenerator(variables=variables(names, cards), dyn_str=edges_frame(edges), dyn_cims=lib)


def simulate(rng, cards, parents, cims, transitions):
    n = len(cards)
    s, t = [0] * n, 0.0
    out = [[t] + list(s)]
    for _ in range(transitions):
        rates = [-cims[i][tuple(s[p] for p in parents[i])][s[i]][s[i]] for i in range(n)]
        t += float(rng.exponential(1.0 / sum(rates)))
        i = int(rng.choice(n, p=np.array(rates) / sum(rates)))
        row = np.array(cims[i][tuple(s[p] for p in parents[i])][s[i]], dtype=float)
        row[s[i]] = 0
        s[i] = int(rng.choice(cards[i], p=row / row.sum()))
        out.append([t] + list(s))
    return out
