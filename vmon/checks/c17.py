"""Incomplete or inconsistent inputs are refused; complete ones never are."""
import json
import os
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import gen, ref

ID = "C17"
RULE = ("Random valid data sets in every presentation (JSON, frames with any index, a user-written importer, explicit headers, subsets of the "
        "columns, single-row trajectories among others, with and without prior edges), each of which must be accepted, and then exactly one "
        "defect injected into it: no variables (None, empty list, frame or array), data not imported, used up or without a single "
        "interval, variables in any other order, missing, added, renamed or repeated, no list of columns, a missing file, a key or position that the file does not have, a file cut short; and graph "
        "generation for every number of nodes up to 12 with every whole number of edges and with fractions in between. The outcome "
        "of every call (accepted, or the exception) is recorded and compared with the one prescribed. Distinct by defect, presentation and data.")
FLOORS = {"accepted": 300, "refused_variables": 100, "refused_samples": 100, "refused_order": 150, "refused_sorter": 60, "refused_file": 40, "refused_key": 200, "refused_position": 80, "refused_text": 80,
          "density_accepted": 400, "density_refused": 400, "still_refused": 40, "accepted_after": 40, "built_twice": 100}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [{"kind": "data", "i": i} for i in range(150 * k)] + [{"kind": "density", "i": i} for i in range(40 * k)]


def outcome(f):
    """('ok', value) or (exception class name, exception)."""
    try:
        with gen.quiet():
            return "ok", f()
    except Exception as exc:
        return type(exc).__name__, exc


def refused(mon, f, what, counter, error="RuntimeError", **info):
    kind, value = outcome(f)
    want = {"any": Exception, "RuntimeError": RuntimeError, "FileNotFoundError": FileNotFoundError}[error]
    mon.check(kind != "ok", "%s: not refused" % what, key=counter, got=value, **info)
    mon.check(isinstance(value, want), "%s: refused with the wrong exception" % what, key=counter + "-type", got=repr(value), **info)
    mon.count(counter)
    mon.seen(what, info)


def variables_as(rng, names, cards):
    how = int(rng.integers(5))
    if how == 0:
        return gen.variables_frame(names, cards)
    if how == 1:
        f = gen.variables_frame(names, cards)
        f.index = rng.permutation(len(names)) if rng.random() < 0.5 else [0] * len(names)
        return f
    if how == 2:
        return [[a, int(c)] for a, c in zip(names, cards)]
    if how == 3:
        return [{"Name": a, "Value": int(c)} for a, c in zip(names, cards)]
    return np.array([[a, int(c)] for a, c in zip(names, cards)], dtype=object)


def no_variables(rng):
    return [None, [], pd.DataFrame(), pd.DataFrame(columns=["Name", "Value"]), np.array([]), np.empty((0, 2)), gen.variables_frame(["x"], [2]).iloc[:0]][int(rng.integers(7))]


def mismatch(rng, names, cards):
    """Variables that do not match the columns ``names``."""
    n = len(names)
    kinds = ["extra", "renamed", "spaces"] + (["permuted", "permuted", "swapped", "missing", "repeated", "reversed", "rotated"] if n > 1 else [])
    kind = kinds[int(rng.integers(len(kinds)))]
    pairs = list(zip(names, cards))
    k = int(rng.integers(n))
    if kind == "permuted":
        while [p[0] for p in pairs] == list(names):
            pairs = [pairs[i] for i in rng.permutation(n)]
    elif kind == "swapped":
        j = int(rng.integers(n - 1))
        pairs[j], pairs[j + 1] = pairs[j + 1], pairs[j]
    elif kind == "reversed":
        pairs = pairs[::-1]
    elif kind == "rotated":
        pairs = pairs[1:] + pairs[:1]
    elif kind == "missing":
        del pairs[k]
    elif kind == "repeated":
        pairs[k] = pairs[k - 1]
    elif kind == "extra":
        pairs.insert(k + int(rng.integers(2)), ("another one", 2))
    elif kind == "renamed":
        pairs[k] = ("another one", pairs[k][1])
    else:
        pairs[k] = (pairs[k][0] + " ", pairs[k][1])
    return kind, [p[0] for p in pairs], [p[1] for p in pairs]


def json_file(names, cards, trajs, edges, rng, wrap):
    data = {"dyn.str": [{"From": a, "To": b} for a, b in edges],
            "variables": [{"Name": a, "Value": int(c)} for a, c in zip(names, cards)],
            "samples": trajs}
    path = os.path.abspath("d%d.json" % int(rng.integers(10 ** 9)))
    with open(path, "w", encoding="utf-8") as f:
        json.dump([data] if wrap else data, f, ensure_ascii=bool(rng.random() < 0.5))
    return path


def json_traj(tr, columns):
    return dict([("Time", [r[0] for r in tr])] + [(c, [r[1 + i] for r in tr]) for i, c in enumerate(columns)])


def build(imp, order=0):
    from PyCTBN import SamplePath
    sp = SamplePath(imp)
    for step in [("t", "s"), ("s", "t")][order]:
        sp.build_trajectories() if step == "t" else sp.build_structure()
    return sp


def own_importer():
    from PyCTBN.PyCTBN.utility.abstract_importer import AbstractImporter

    class Own(AbstractImporter):
        def build_sorter(self, frame):
            return list(frame.columns)[1:]

        def import_data(self):
            self._sorter = self.build_sorter(self._df_samples_list[0])
            self.compute_row_delta_in_all_samples_frames(self._df_samples_list)

        def dataset_id(self):
            return "own"
    return Own


class Source(object):
    """Makes importers of the same data set, any number of times, in one presentation."""

    def __init__(self, rng, names, cards, trajs, edges):
        self.rng, self.names, self.cards, self.trajs, self.edges = rng, names, cards, trajs, edges
        self.how = ["frames", "own", "json", "header"][int(rng.integers(4))]
        self.wrap = bool(rng.random() < 0.5)
        self.prior = int(rng.integers(3))

    def make(self, names=None, cards=None, trajs=None, variables=0, imported=True):
        """``variables``: 0 means the right ones in a random form."""
        from PyCTBN import JsonImporter, SampleImporter
        rng = self.rng
        names = self.names if names is None else names
        cards = self.cards if cards is None else cards
        trajs = self.trajs if trajs is None else trajs
        if self.how == "json":
            if not isinstance(variables, int):
                names, cards = [], []
            path = json_file(names, cards, [json_traj(t, self.names) for t in trajs], self.edges, rng, self.wrap)
            imp = JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name")
            os.unlink(path)
            if imported:
                imp.import_data(0) if rng.random() < 0.5 else imp.import_data()
            return imp
        frames = [gen.frame(t, self.names, index=None if rng.random() < 0.5 else rng.integers(0, 3, len(t))) for t in trajs]
        if isinstance(variables, int):
            variables = variables_as(rng, names, cards) if self.how != "own" else gen.variables_frame(names, cards)
        prior = [gen.edges_frame(self.edges), [list(e) for e in self.edges], None][self.prior if not self.edges else self.prior % 2]
        if self.how == "own":
            if prior is not None:
                prior = gen.edges_frame(self.edges)
            if isinstance(variables, (list, np.ndarray)):
                variables = pd.DataFrame(variables)
            imp = own_importer()(trajectory_list=frames, variables=variables, prior_net_structure=prior)
        else:
            imp = SampleImporter(frames, variables, prior)
        if imported:
            if self.how == "header":
                imp.import_data(list(self.names))
            else:
                imp.import_data()
        return imp


def accepted(mon, src, info, order, **kw):
    kind, sp = outcome(lambda: build(src.make(**kw), order))
    mon.check(kind == "ok", "a complete and consistent data set is refused", key="refused-valid", got=repr(sp), **info)
    trans = ref.transitions(src.trajs)
    mon.eq(int(sp.trajectories.size()), len(trans), "an accepted data set lacks rows", **info)
    mon.eq([str(x) for x in sp.structure.nodes_labels], src.names, "an accepted data set has other variables", **info)
    mon.eq([int(x) for x in sp.structure.nodes_values], src.cards, "an accepted data set has other cardinalities", **info)
    mon.count("accepted")
    return sp


def run(case, rng, mon):
    if case["kind"] == "density":
        return run_density(case, rng, mon)
    from PyCTBN import JsonImporter, SamplePath, SampleImporter
    n = int(rng.integers(1, 7))
    cards = gen.cardinalities(rng, n)
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, int(rng.choice([1, 2, 3, 20])), end=bool(rng.random() < 0.5)) for _ in range(int(rng.integers(1, 5)))]
    if not any(len(t) > 1 for t in trajs):
        trajs[0] = gen.raw_trajectory(rng, cards, 2, end=False)
    edges = [(a, b) for a in names for b in names if a != b and rng.random() < 0.2]
    src = Source(rng, names, cards, trajs, edges)
    info = dict(how=src.how, names=names, cards=cards, lengths=[len(t) for t in trajs], edges=edges)

    for order in (0, 1):
        accepted(mon, src, info, order)
    mon.sample(info)

    # 1. no variables
    for _ in range(2):
        nothing = no_variables(rng)
        src2 = Source(rng, names, cards, trajs, edges)
        imp = src2.make(variables=nothing)
        refused(mon, lambda: SamplePath(imp), "an importer without variables", "refused_variables", variables=repr(nothing), how=src2.how, names=names)
        refused(mon, lambda: SamplePath(imp), "an importer without variables, asked again", "still_refused", how=src2.how, names=names)

    # 2. no processed samples
    imp = src.make(imported=False)
    refused(mon, lambda: SamplePath(imp), "an importer that has not imported its data", "refused_samples", **info)
    single = [[t[0]] for t in trajs]
    imp2 = src.make(trajs=single)
    refused(mon, lambda: SamplePath(imp2), "trajectories without any interval", "refused_samples", **info)
    imp3 = src.make()
    sp = SamplePath(imp3)
    sp.build_trajectories()
    refused(mon, lambda: SamplePath(imp3), "an importer whose samples were used up", "refused_samples", **info)
    # two sample paths over one importer, or one built twice: all the trajectories or a refusal, never fewer
    rows = len(ref.transitions(trajs))
    imp5 = src.make()
    a, b = SamplePath(imp5), SamplePath(imp5)
    a.build_trajectories()
    for x, what in ((b, "a second sample path over one importer"), (a, "a sample path built again")):
        kind, value = outcome(x.build_trajectories)
        mon.check(isinstance(value, RuntimeError) if kind != "ok" else x.trajectories.size() == rows, what + " lacks trajectories", key="built-twice", got=repr(value), **info)
        mon.eq(a.trajectories.size(), rows, "the trajectories built before were lost", key="built-twice", **info)
        mon.count("built_twice")
    imp4 = src.make()
    imp4._concatenated_samples = None
    if imp4.concatenated_samples is None:
        refused(mon, lambda: SamplePath(imp4), "an importer without samples", "refused_samples", **info)
    if src.how != "json":                                 # and once its data are imported it is accepted
        imp.import_data()
        kind, sp = outcome(lambda: build(imp))
        mon.check(kind == "ok", "an importer is refused although it has imported its data", key="refused-valid", got=repr(sp), **info)
        mon.count("accepted_after")

    # 3. variables and columns that do not match
    for _ in range(2):
        kind, vn, vc = mismatch(rng, names, cards)
        imp = src.make(names=vn, cards=vc)
        sp = SamplePath(imp)
        if rng.random() < 0.5:
            sp.build_trajectories()
        refused(mon, sp.build_structure, "variables that do not match the columns (%s)" % kind, "refused_order", variables=vn, **info)
        mon.check(sp.structure is None, "a structure was built although it was refused", **info)
        mon.count("mismatch_" + kind)
        refused(mon, sp.build_structure, "mismatching variables, asked again", "still_refused", variables=vn, **info)
    if n > 1:                                              # columns in another order than the variables, by header
        perm = [int(i) for i in rng.permutation(n)]
        header = [names[i] for i in perm]
        imp = SampleImporter([gen.frame(t, names) for t in trajs], gen.variables_frame(names, cards), None)
        imp.import_data(list(header))
        sp = SamplePath(imp)
        if header != names:
            refused(mon, sp.build_structure, "a header in another order than the variables", "refused_order", header=header, **info)
        else:
            sp.build_structure()
        # the same header with the variables in its order, or a subset of both: consistent
        keep = header[:int(rng.integers(1, n + 1))]
        imp = SampleImporter([gen.frame(t, names) for t in trajs], gen.variables_frame(keep, [cards[names.index(x)] for x in keep]), None)
        imp.import_data(list(keep))
        kind, sp = outcome(lambda: build(imp))
        mon.check(kind == "ok", "matching header and variables are refused", key="refused-valid", got=repr(sp), header=keep, **info)
        mon.count("accepted")

    # 4. no list of columns
    frames = [gen.frame(t, names) for t in trajs]
    for empty in (None, []):
        imp = own_importer()(trajectory_list=frames, variables=gen.variables_frame(names, cards))
        imp._sorter = empty
        if imp.sorter:
            continue
        refused(mon, lambda: imp.compute_row_delta_in_all_samples_frames(frames), "preprocessing without the list of columns", "refused_sorter", sorter=empty, **info)
    imp = SampleImporter(frames, gen.variables_frame(names, cards), None)
    refused(mon, lambda: imp.import_data([]), "preprocessing with an empty header", "refused_sorter", **info)
    refused(mon, lambda: SamplePath(imp), "an importer whose preprocessing was refused", "still_refused", **info)
    imp.import_data()
    kind, sp = outcome(lambda: build(imp))
    mon.check(kind == "ok", "an importer is refused although its columns are now given", key="refused-valid", got=repr(sp), **info)
    mon.count("accepted_after")

    # 5. a file that is not there
    paths = ["missing.json", os.path.abspath("no/such/dir/data.json"), "数据.json", "missing", "./x/../missing.json", "missing.json.zip", " "]
    path = paths[int(rng.integers(len(paths)))]
    refused(mon, lambda: JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name"), "a missing file", "refused_file", "FileNotFoundError", path=path)
    path = json_file(names, cards, [json_traj(t, names) for t in trajs], edges, rng, True)
    JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name")
    os.unlink(path)
    refused(mon, lambda: JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name"), "a deleted file", "refused_file", "FileNotFoundError", n=case["i"])


    # 6. keys, positions and texts that the file does not have
    sets = int(rng.integers(1, 4))
    data = [{"dyn.str": [{"From": a, "To": b} for a, b in edges], "variables": [{"Name": a, "Value": int(c)} for a, c in zip(names, cards)],
             "samples": [[dict(zip(["Time"] + names, r)) for r in t] for t in trajs], "dyn.cims": {x: {} for x in names}} for _ in range(sets)]
    path = os.path.abspath("k%d.json" % case["i"])
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f)
    keys = dict(samples_label="samples", structure_label="dyn.str", variables_label="variables", time_key="Time", variables_key="Name")

    def importing(indx=0, **kw):
        imp = JsonImporter(path, **dict(keys, **kw))
        imp.import_data(indx)
        return build(imp)

    kind, value = outcome(lambda: importing(sets - 1))
    mon.check(kind == "ok", "the last data set of a file is refused", key="refused-valid", got=repr(value), **info)
    for k in [list(keys)[int(i)] for i in rng.permutation(4)[:2]]:
        wrong = ["another key", keys[k] + " ", keys[k].upper() + "x", ""][int(rng.integers(4))]
        refused(mon, lambda: importing(**{k: wrong}), "a key that is not in the file (%s)" % k, "refused_key", "any", wrong=wrong, **info)
    refused(mon, lambda: importing(cims_label="no cims"), "a key that is not in the file (cims_label)", "refused_key", "any", **info)
    refused(mon, lambda: importing(sets + int(rng.integers(0, 3))), "a data set that is not in the file", "refused_position", "any", sets=sets, **info)
    text = open(path, encoding="utf-8").read()
    with open(path, "w", encoding="utf-8") as f:
        f.write(text[:int(rng.integers(0, len(text)))])
    refused(mon, lambda: importing(0), "a file cut short", "refused_text", "any", **info)
    os.unlink(path)


def run_density(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    n = int(case["i"] % 12) + 1
    names = gen.labels(rng, n)
    g = NetworkGenerator(names, [2] * n)
    possible = n * (n - 1)
    ks = list(range(possible + 1))
    for k in [ks[i] for i in rng.permutation(len(ks))[:30]]:
        d = Fraction(k, possible) if possible else Fraction(int(rng.integers(0, 2)))
        forms = [float(d), np.float64(float(d)), k * (1.0 / max(1, possible)), 1.0 - float(1 - d)]
        if d.denominator == 1:
            forms.append(int(d))
        x = forms[int(rng.integers(len(forms)))]
        kind, value = outcome(lambda: g.generate_graph(x, fixed=True))
        mon.check(kind == "ok", "a fixed density that gives a whole number of edges is refused", key="density-valid", n=n, k=k, density=repr(x), got=repr(value))
        mon.eq(len(set(g.graph.edges)), k if possible else 0, "a fixed density gives another number of edges", n=n, k=k, density=repr(x))
        mon.count("density_accepted")
        mon.seen("density", n, k)
        if not possible:
            continue
        off = float(rng.choice([0.5, 0.25, 0.75, 0.1, 0.9, 0.02, 0.98, 1.0 / 3, 0.001]))
        if k == possible:
            continue
        y = float((k + off) / possible)
        before = sorted(g.graph.edges)
        kind, value = outcome(lambda: g.generate_graph(y, fixed=True))
        mon.check(kind != "ok", "a fixed density that gives no whole number of edges is accepted", key="density", n=n, density=y, edges=k + off)
        mon.check(isinstance(value, RuntimeError), "a fixed density is refused with the wrong exception", key="density-type", got=repr(value), n=n, density=y)
        mon.eq(sorted(g.graph.edges), before, "a refused density changed the graph", n=n, density=y)
        mon.count("density_refused")
        kind, value = outcome(lambda: g.generate_graph(y, fixed=False))
        mon.check(kind == "ok", "a density that is not fixed is refused", key="density-free", got=repr(value), n=n, density=y)
        mon.count("density_free")
    mon.sample({"n": n})
