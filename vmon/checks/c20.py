"""Metamorphic relations between presentations of the same data."""
import numpy as np

from .. import gen, ref
from . import c11, c12

ID = "C20"
RULE = ("Random data (1-5 variables, cardinalities 2-5, arbitrary and simulated trajectories) and a chain of one to three random transformations that present "
        "the same data differently: trajectories reordered, cut at samples (down to single intervals), times shifted, variables renamed "
        "or permuted with their columns, states of some variables relabelled, times scaled, other variables in the data that are removed from the structure. For random nodes and parent sets, "
        "statistics, CIMs and scores obtained from both presentations through the library are compared (states, assignments and variables mapped accordingly), "
        "and the decisions of independence tests and whole constraint-based estimates unless a reference says rounding could decide them. No reference value is used for the "
        "statistics: the library is compared with itself. Distinct by transformation, data and parent set.")
FLOORS = {"statistics": 1500, "scores": 600, "tests": 600, "estimates": 35, "reordered": 30, "cut": 30, "shifted": 30, "renamed": 30, "permuted": 30, "relabelled": 30, "scaled": 30, "ignored": 30}


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"i": i} for i in range(240 * k)]


class Data(object):
    """Trajectories and how their variables and states correspond to those of the first presentation."""

    def __init__(self, trajs, names, cards):
        n = len(names)
        self.trajs, self.names, self.cards = trajs, list(names), list(cards)
        self.var = list(range(n))                          # original variable -> column here
        self.state = [list(range(c)) for c in cards]       # per original variable: original state -> state here
        self.scale = 1.0
        self.ignored = False                               # the data has more variables, removed from the structure
        self.done = []


def transform(rng, d, kind, family):
    n = len(d.names)
    new = Data([[list(r) for r in t] for t in d.trajs], d.names, d.cards)
    new.var, new.state, new.scale, new.done, new.ignored = list(d.var), [list(s) for s in d.state], d.scale, d.done + [kind], d.ignored
    if kind == "reordered":
        new.trajs = [new.trajs[i] for i in rng.permutation(len(new.trajs))]
    elif kind == "cut":
        out = []
        p = float(rng.choice([0.05, 0.5, 1.0]))
        for t in new.trajs:
            piece = [t[0]]
            for r in t[1:-1]:
                piece.append(r)
                if rng.random() < p:
                    out.append(piece)
                    piece = [list(r)]
            out.append(piece + t[-1:] if len(t) > 1 else piece)
        new.trajs = out
    elif kind == "shifted":
        for t in new.trajs:
            by = float(rng.choice([1.0, -3.5, 1000.0, float(rng.normal() * 100)]))
            for r in t:
                r[0] += by
    elif kind == "renamed":
        while True:
            names = gen.labels(rng, n)
            names = [names[i] for i in rng.permutation(n)]
            if rng.random() < 0.3:                         # the same names, exchanged
                names = [d.names[i] for i in rng.permutation(n)]
            if names != d.names or n == 1:
                break
        new.names = names
    elif kind == "permuted":
        perm = [int(i) for i in rng.permutation(n)]       # column j here is column perm[j] of d
        back = {p: j for j, p in enumerate(perm)}
        new.names = [d.names[p] for p in perm]
        new.cards = [d.cards[p] for p in perm]
        new.trajs = [[[r[0]] + [r[1 + p] for p in perm] for r in t] for t in new.trajs]
        new.var = [back[v] for v in d.var]
    elif kind == "relabelled":
        for o in range(n):
            if rng.random() < 0.6:
                v = d.var[o]
                perm = [int(x) for x in rng.permutation(d.cards[v])]
                for t in new.trajs:
                    for r in t:
                        if r[1 + v] >= 0:
                            r[1 + v] = perm[r[1 + v]]
                new.state[o] = [perm[s] for s in d.state[o]]
    elif kind == "ignored":
        new.ignored = True
        if rng.random() < 0.5:                             # some of the samples are there only because of the other variables
            for t in new.trajs:
                for _ in range(int(rng.integers(1, 4))):
                    if len(t) > 1:
                        k = int(rng.integers(len(t) - 1))
                        t.insert(k + 1, [t[k][0] + (t[k + 1][0] - t[k][0]) * float(rng.random())] + list(t[k][1:]))
    elif kind == "scaled":
        c = float(rng.choice([2.0, 0.5, 1024.0, 3.7, 0.01]))
        for t in new.trajs:
            for r in t:
                r[0] *= c
        new.scale *= c
    return new


def library(d, rng):
    with gen.quiet():
        sp = gen.sample_path(d.trajs, d.names, d.cards, ignore=rng if d.ignored else None)
    return sp


def node_stats(rng, sp, d, node, parents):
    """{assignment of the original parents: (T, M, cim)} with states mapped back to the original ones."""
    cols = [d.var[p] for p in parents]
    sofc = gen.node_sofc(sp, d.names, d.cards, d.var[node], cols, rng)
    order = sorted(cols)
    out = {}
    for u, c in zip(sofc.p_combs if parents else [()], sofc.actual_cims):
        at = dict(zip(order, [int(x) for x in u]))
        key = tuple(d.state[p].index(at[d.var[p]]) for p in parents)
        s = d.state[node]
        T = np.asarray(c.state_residence_times, dtype=float)[s]
        M = np.asarray(c.state_transition_matrix)[np.ix_(s, s)]
        Q = np.asarray(c.cim, dtype=float)[np.ix_(s, s)]
        out[key] = (T, M, Q)
    return out


def run(case, rng, mon):
    from PyCTBN import NetworkGraph, StructureConstraintBasedEstimator, StructureScoreBasedEstimator
    n = int(rng.integers(8, 15)) if case["i"] % 16 == 15 else int(rng.integers(1, 6))
    mon.count("wide", n > 6)
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 5 if n < 4 else 3))
    names = gen.labels(rng, n)
    if rng.random() < 0.5 and 1 < n < 7:
        trajs = c11.make_data(rng, n, cards)
        k = max(1, len(trajs[0]) // int(rng.integers(1, 6)))
        if len(trajs) == 1 and k < len(trajs[0]) - 1:     # several trajectories (the states between them are not linked)
            t = trajs[0]
            trajs = [t[i:i + k] for i in range(0, len(t), k)]
            trajs = [x for x in trajs if len(x) > 1] or [t]
    else:
        trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([2, 10, 60, 200])), end=bool(rng.random() < 0.6)) for _ in range(int(rng.integers(1, 6)))]
    base = Data(trajs, names, cards)
    kinds = ["reordered", "cut", "shifted", "renamed", "permuted", "relabelled", "scaled", "ignored"]
    other = base
    for kind in [kinds[i] for i in rng.permutation(8)[:int(rng.integers(1, 4))]]:
        other = transform(rng, other, kind, None)
        mon.count(kind)
    info = dict(transformations=other.done, names=names, cards=cards, renamed=other.names, trajectories=len(trajs), rows=sum(map(len, trajs)))
    sp1, sp2 = library(base, rng), library(other, rng)
    big = max(abs(r[0]) for d in (base, other) for t in d.trajs for r in t)
    eps = 1e-9 * (1.0 + big * max(1.0, other.scale))
    wanted = []
    for _ in range(8):
        node = int(rng.integers(n))
        parents = [p for p in range(n) if p != node and rng.random() < 0.5][:3]
        wanted.append((node, parents))
    tau, alpha = float(rng.choice([0.1, 1.0, 5.0])), float(rng.choice([0.5, 1.0, 5.0]))
    with gen.quiet():
        e1, e2 = StructureScoreBasedEstimator(sp1, tau, alpha), StructureScoreBasedEstimator(sp2, tau, alpha)
    for node, parents in wanted:
        a, b = node_stats(rng, sp1, base, node, parents), node_stats(rng, sp2, other, node, parents)
        w = dict(info, node=names[node], parents=[names[p] for p in parents])
        mon.eq(sorted(a), sorted(b), "the assignments differ between two presentations", key="assignments", info=w)
        for u in a:
            (T1, M1, Q1), (T2, M2, Q2) = a[u], b[u]
            mon.check(np.array_equal(M1, M2), "the counts differ between two presentations of the same data", key="counts", assignment=u, first=M1, second=M2, info=w)
            mon.check(bool(np.all(np.abs(T1 * other.scale - T2) <= eps + 1e-9 * np.abs(T2))), "the times differ between two presentations of the same data", key="times",
                      assignment=u, first=T1, second=T2, scale=other.scale, info=w)
            if other.scale == 1.0:
                mon.check(bool(np.all(np.abs(Q1 - Q2) <= eps * (1 + np.abs(Q1)))), "the CIMs differ between two presentations of the same data", key="cims",
                          assignment=u, first=Q1, second=Q2, info=w)
            mon.count("statistics")
        if M1.sum() or len(a) > 1:
            mon.seen(case["i"], node, tuple(parents), other.done)
        if other.scale != 1.0:
            continue
        s = []
        for est, sp, d in ((e1, sp1, base), (e2, sp2, other)):
            g = NetworkGraph(sp.structure)
            ps = [(d.names[d.var[p]], d.names[d.var[node]]) for p in parents]
            g.add_edges([ps[i] for i in rng.permutation(len(ps))])
            s.append(float(np.real(est.get_score_from_graph(g, d.names[d.var[node]]))))
        mon.check(abs(s[0] - s[1]) <= 1e-6 * (1 + abs(s[0])) + eps * (1 + sum(len(t) for t in trajs)) / min(tau, 1.0), "the scores differ between two presentations of the same data",
                  key="scores", first=s[0], second=s[1], info=w)
        mon.count("scores")
    if other.scale != 1.0 or n < 2:
        mon.sample(info)
        return

    # decisions of the independence tests
    al, be, th = c11.settings(rng)
    tr1, tr2 = ref.transitions(base.trajs), ref.transitions(other.trajs)
    r1, r2 = ref.CTPC(tr1, base.cards, al, be, th), ref.CTPC(tr2, other.cards, al, be, th)
    for _ in range(8):
        child = int(rng.integers(n))
        rest = [x for x in range(n) if x != child]
        p = rest[int(rng.integers(len(rest)))]
        sep = [x for x in rest if x != p and rng.random() < 0.4]
        try:
            for order in (1, -1):
                r1.complete(p, child, sep, order)
                r2.complete(other.var[p], other.var[child], [other.var[x] for x in sep], order)
        except ref.Near:
            mon.count("tests_near")
            continue
        out = []
        for sp, d in ((sp1, base), (sp2, other)):
            with gen.quiet():
                est = StructureConstraintBasedEstimator(sp, al, be, [], th)
                given = [d.names[d.var[x]] for x in sep]
                given = [given[i] for i in rng.permutation(len(given))]
                out.append(bool(est.complete_test(d.names[d.var[p]], d.names[d.var[child]], given, d.cards[d.var[child]], sp.total_variables_count,
                                                  sp.structure.get_node_indx(d.names[d.var[p]]), sp.structure.get_node_indx(d.names[d.var[child]]))))
        mon.eq(out[0], out[1], "a test decides differently on two presentations of the same data", key="tests", child=names[child], parent=names[p], given=sep, alfas=(al, be), threshold=th, info=info)
        mon.count("tests")
        mon.count("independent", out[0])

    # whole estimates: the algorithm follows the order of the variables, so not for permuted ones
    if "permuted" in other.done or n > 4:
        mon.sample(info)
        return
    for node in range(n):
        if c11.expected(tr1, base.cards, al, be, th, (), node) is None or c11.expected(tr2, other.cards, al, be, th, (), other.var[node]) is None:
            mon.count("estimates_near")
            mon.sample(info)
            return
    got = []
    for sp, d in ((sp1, base), (sp2, other)):
        with gen.quiet():
            res = c12.as_set(mon, StructureConstraintBasedEstimator(sp, al, be, [], th).estimate_structure(disable_multiprocessing=True), d.names, info)
        back = {d.names[d.var[v]]: v for v in range(n)}
        got.append({(back[x], back[y]) for x, y in res})
    mon.eq(got[0], got[1], "the estimates differ between two presentations of the same data", key="estimates", alfas=(al, be), threshold=th, info=info)
    mon.count("estimates")
    mon.sample(dict(info, edges=sorted(got[0])))
