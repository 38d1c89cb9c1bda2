"""Workload generators: networks, trajectories, labels, and the library objects built from them."""
import contextlib
import io
import itertools
import os

import numpy as np
import pandas as pd

FAMILIES = ["plain", "collide", "long", "digits", "unicode", "spaces", "reversed", "case"]


def labels(rng, n, family=None):
    family = family or FAMILIES[int(rng.integers(len(FAMILIES)))]
    if family == "plain":
        return [chr(65 + i) if n <= 26 else "V%d" % i for i in range(n)]
    if family == "collide":            # appending a suffix to one gives another one
        base = ["X", "XS", "XSS", "Y", "YS", "S", "SS", "XSSS", "YSS", "ZS", "Z", "SSS", "YSSS"]
        out = base[:n] if n <= len(base) else base + ["W%d" % i for i in range(n - len(base))]
        return [out[i] for i in rng.permutation(len(out))]
    if family == "long":
        return ["variable_with_a_very_long_common_prefix_%s_%d" % ("x" * 20, i) for i in range(n)]
    if family == "digits":
        return [str(x) for x in rng.permutation(np.arange(0, 3 * n))[:n]]
    if family == "unicode":
        base = ["α", "β", "température", "数", "é", "Ω", "ж", "ß", "ñ", "中文", "ø", "λ", "π"]
        return base[:n] if n <= len(base) else base + ["u%d" % i for i in range(n - len(base))]
    if family == "spaces":
        return ["node %d" % i for i in range(n)]
    if family == "reversed":
        return [chr(90 - i) if n <= 26 else "V%03d" % (999 - i) for i in range(n)]
    if family == "case":
        base = ["a", "A", "aA", "Aa", "b", "B", "time", "TIME", "Times", "Name", "Value", "From", "To"]
        return base[:n] if n <= len(base) else base + ["c%d" % i for i in range(n - len(base))]
    raise ValueError(family)


def cardinalities(rng, n, lo=2, hi=4):
    return [int(rng.integers(lo, hi + 1)) for _ in range(n)]


def constant(rng, cards, p=0.12):
    """Now and then a variable of a single state among the others."""
    if rng.random() < p:
        cards = list(cards)
        cards[int(rng.integers(len(cards)))] = 1
    return cards


def raw_trajectory(rng, cards, rows, end=True, simultaneous=0.1, zero=0.1, still=0.05, scale=1.0, start=0.0):
    """Arbitrary rows [t, s0, ...]: several variables may change at once, durations may be 0, nothing may change."""
    n = len(cards)
    s = [int(rng.integers(c)) for c in cards]
    t = float(start)
    out = [[t] + s]
    for _ in range(max(0, rows - 1)):
        t = t + (0.0 if rng.random() < zero else float(rng.exponential(scale)))
        s = list(s)
        if rng.random() < simultaneous:
            s = [int(rng.integers(c)) for c in cards]
        elif rng.random() >= still:
            i = int(rng.integers(n))
            s[i] = int((s[i] + 1 + rng.integers(cards[i] - 1)) % cards[i]) if cards[i] > 1 else s[i]
        out.append([t] + s)
    if end:
        out.append([t + float(rng.exponential(scale))] + [-1] * n)
    return out


def random_parents(rng, n, density, max_parents=None):
    out = []
    for i in range(n):
        ps = [j for j in range(n) if j != i and rng.random() < density]
        if max_parents is not None and len(ps) > max_parents:
            ps = sorted(int(x) for x in rng.permutation(ps)[:max_parents])
        out.append(ps)
    return out


def random_cims(rng, cards, parents, lo=0.5, hi=5.0, spread=1.0, zero_prob=0.0):
    """List of {assignment: matrix} per node."""
    out = []
    for i, k in enumerate(cards):
        d = {}
        for u in itertools.product(*[range(cards[p]) for p in parents[i]]):
            q = np.zeros((k, k))
            for x in range(k if k > 1 else 0):          # a single state is never left
                w = rng.random(k) + 0.02
                if zero_prob and k > 2:
                    z = rng.random(k) < zero_prob
                    if not all(z[y] for y in range(k) if y != x):
                        w[z] = 0.0
                w[x] = 0.0
                rate = lo * (hi / lo) ** rng.random()
                q[x] = w / w.sum() * rate
                q[x, x] = -rate
            d[u] = q
        out.append(d)
    return out


def simulate(rng, cards, parents, cims, transitions=None, t_end=None, end=True, t0=0.0, start=None, precision=None):
    """The harness's own (race of total rates) CTBN simulator."""
    n = len(cards)
    s = list(start) if start is not None else [int(rng.integers(c)) for c in cards]
    t = float(t0)
    out = [[t] + list(s)]
    rates = [-cims[i][tuple(s[p] for p in parents[i])][s[i]][s[i]] for i in range(n)]
    children = [[c for c in range(n) if i in parents[c]] for i in range(n)]
    k = 0
    while True:
        total = sum(rates)
        if total <= 0:                                   # nothing can change any more
            t = t + 1.0 if t_end is None else t0 + t_end
            break
        t += float(rng.exponential(1.0 / total))
        if t_end is not None and t - t0 >= t_end:
            t = t0 + t_end
            break
        x = rng.random() * total
        i = 0
        while i < n - 1 and x >= rates[i]:
            x -= rates[i]
            i += 1
        row = cims[i][tuple(s[p] for p in parents[i])][s[i]]
        x = rng.random() * rates[i]
        y = 0
        last = None
        for y in range(cards[i]):
            if y == s[i] or row[y] <= 0:
                continue
            last = y
            if x < row[y]:
                break
            x -= row[y]
        s[i] = last if (y == s[i] or row[y] <= 0) else y
        for j in [i] + children[i]:
            rates[j] = -cims[j][tuple(s[p] for p in parents[j])][s[j]][s[j]]
        k += 1
        if transitions is not None and k > transitions:
            break
        out.append([t if precision is None else round(t, precision)] + list(s))
    if end:
        out.append([t] + [-1] * n)
    return out


def frame(tr, names, time_key="Time", index=None):
    df = pd.DataFrame([r[1:] for r in tr], columns=names, dtype="int64")
    df.insert(0, time_key, np.array([r[0] for r in tr], dtype=float))
    if index is not None:
        df.index = index
    return df


def variables_frame(names, cards):
    return pd.DataFrame({"Name": list(names), "Value": [int(c) for c in cards]})


def edges_frame(edges):
    return pd.DataFrame([list(e) for e in edges], columns=["From", "To"])


def ignored(rng, trajs, names, cards, edges=()):
    """The data with one or two more variables in between, which nothing depends on: ``(trajs, names, cards, edges, extra names)``."""
    n, k = len(names), int(rng.integers(1, 3))
    extra = ["%s~%d" % (names[int(rng.integers(n))], j) if rng.random() < 0.5 else "ignored%d" % j for j in range(k)]
    order = [int(i) for i in rng.permutation(n + k)]
    order = [i for i in order if i >= n]
    at = sorted(int(x) for x in rng.choice(n + k, size=k, replace=False))
    cols, rest = [], iter(range(n))
    for j in range(n + k):
        cols.append(order[at.index(j)] if j in at else next(rest))
    more = [int(c) for c in rng.integers(1, 5, size=k)]
    out = []
    for t in trajs:
        rows = []
        for r in t:
            full = list(r[1:]) + [-1 if r[1] == -1 else int(rng.integers(c)) for c in more]
            rows.append([r[0]] + [full[j] for j in cols])
        out.append(rows)
    names2, cards2 = list(names) + extra, list(cards) + more
    edges2 = list(edges)
    if edges:
        for e in [(a, b) for a in extra for b in names2 if a != b] + [(b, a) for a in extra for b in names]:
            if rng.random() < 0.3:
                edges2.insert(int(rng.integers(len(edges2) + 1)), e)
    return out, [names2[j] for j in cols], [cards2[j] for j in cols], edges2, extra


def sample_path(trajs, names, cards, edges=(), prior="frame", ignore=None):
    """``ignore`` (a generator): the data has other variables too, which are removed from the structure."""
    from PyCTBN import SampleImporter, SamplePath
    if ignore is not None:
        trajs, names, cards, edges, extra = ignored(ignore, trajs, names, cards, edges)
        sp = sample_path(trajs, names, cards, edges, prior)
        for x in extra:
            sp.structure.remove_node(x)
        return sp
    prior_frame = None if prior is None else edges_frame(edges)
    imp = SampleImporter([frame(t, names) for t in trajs], variables_frame(names, cards), prior_frame)
    imp.import_data()
    sp = SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def node_sofc(sp, names, cards, node, parents, rng=None):
    """The library's SetOfCims of ``names[node]`` given parent indexes.

    With ``rng`` the edges are listed in random order among random edges into the other nodes."""
    from PyCTBN import ParametersEstimator
    edges = [(names[p], names[node]) for p in parents]
    if rng is not None:
        edges += [(names[a], names[b]) for a in range(len(names)) for b in range(len(names))
                  if a != b and b != node and rng.random() < 0.2]
        edges = [edges[i] for i in rng.permutation(len(edges))]
    if sp.total_variables_count > len(names):              # variables of the data removed from the structure
        g = node_graph(names, cards, edges, sp.total_variables_count, sp.structure.nodes_indexes)
    else:
        g = node_graph(names, cards, edges)
    g.fast_init(names[node])
    pe = ParametersEstimator(sp.trajectories, g)
    pe.fast_init(names[node])
    return pe.compute_parameters_for_node(names[node])


def node_graph(names, cards, edges, total=None, indexes=None):
    from PyCTBN import NetworkGraph, Structure
    s = Structure(list(names), np.arange(len(names)) if indexes is None else indexes, np.array(cards), list(edges), len(names) if total is None else total)
    g = NetworkGraph(s)
    g.add_nodes(s.nodes_labels)
    g.add_edges(s.edges)
    return g


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def to_library_cims(names, cards, parents, cims, integer=False, rng=None):
    """{label: SetOfCims} from {assignment: matrix}; p_combs in the library's order (built by hand). With ``rng`` the
    dictionary lists the variables in any order."""
    from PyCTBN import ConditionalIntensityMatrix, SetOfCims
    from .ref import assignments
    out = {}
    for i in (range(len(names)) if rng is None or rng.random() < 0.5 else [int(j) for j in rng.permutation(len(names))]):
        name = names[i]
        combs = assignments([cards[p] for p in parents[i]])
        arr = np.array([list(c) for c in combs], dtype=int) if parents[i] else np.array([[]], dtype=int)
        mats = []
        for c in combs:
            m = np.array(cims[i][c])
            mats.append(ConditionalIntensityMatrix(cim=m.astype(int) if integer else m.astype(float)))
        objs = np.empty(len(mats), dtype=object)
        objs[:] = mats
        out[name] = SetOfCims(node_id=name, parents_states_number=[cards[p] for p in parents[i]],
                              node_states_number=cards[i], p_combs=arr, cims=objs)
    return out


@contextlib.contextmanager
def start_method(how):
    """Processes are started in another way: nothing but what is sent reaches them."""
    import multiprocessing
    if how == "fork":
        yield
        return
    multiprocessing.set_start_method(how, force=True)
    try:
        yield
    finally:
        multiprocessing.set_start_method("fork", force=True)
