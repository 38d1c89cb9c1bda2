"""Importing: every consecutive pair of samples becomes one row, whatever the presentation."""
import json
import math
import os

import numpy as np
import pandas as pd

from .. import gen, ref

ID = "C03"
RULE = ("Random trajectory sets imported (a) from JSON files with a random time key and column order (per trajectory), at a random "
        "position of a file with several data sets, (b) as in-memory frames with range, repeated, shuffled, text and time indexes and "
        "several dtypes, with variables/prior edges as frames, lists or arrays and with or without an explicit header, (c) by a "
        "user-written CSV importer as in the README. The rows handed to estimation are compared one by one with consecutive pairs of "
        "raw samples. Non-trivial: at least two rows; distinct by presentation, labels and data.")
FLOORS = {"rows_checked": 5000, "keys_in_another_order": 25, "json_imports": 30, "frame_imports": 60, "custom_imports": 15, "trajectory_boundaries": 200, "wide": 20, "max_rows": 200000, "frames_resampled": 15}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "json", "i": i} for i in range(120 * k)]
    out += [{"kind": "frames", "i": i} for i in range(240 * k)]
    out += [{"kind": "custom", "i": i} for i in range(60 * k)]
    out += [{"kind": kind, "i": i, "wide": True} for i in range(6 * k) for kind in ("json", "frames", "frames", "custom")]
    out += [{"kind": "long", "i": i} for i in range(2 if tier == "quick" else 6)]
    return out


def trajectories(rng, cards, howmany=None, integer_time=False):
    out = []
    for _ in range(howmany or int(rng.integers(1, 13))):
        tr = gen.raw_trajectory(rng, cards, int(rng.choice([1, 2, 3, 8, 40])), end=bool(rng.random() < 0.6),
                                scale=float(10.0 ** rng.integers(-4, 5)), start=0.0 if rng.random() < 0.6 else float(rng.normal() * 50))
        if integer_time:
            t = 0 if rng.random() < 0.5 else int(rng.choice([-10 ** 6, 10 ** 9, 10 ** 13, 17 * 10 ** 17])) + int(rng.integers(100))      # ticks since some epoch
            for r in tr:
                r[0] = t
                t += int(rng.integers(0, 5))
        out.append(tr)
    if not any(len(t) > 1 for t in out):
        out.append(gen.raw_trajectory(rng, cards, 5))
        if integer_time:
            for i, r in enumerate(out[-1]):
                r[0] = i
    return out


def judge(mon, sp, imp, trajs, names, cards, edges, info, rows_frame=None):
    trans = ref.transitions(trajs)
    n = len(names)
    if rows_frame is not None:
        mon.eq(tuple(rows_frame.shape), (len(trans), 1 + 2 * n), "imported frame has the wrong shape", info=info)
        vals = rows_frame.to_numpy()
        for i in (0, len(trans) - 1):
            got = (tuple(int(v) for v in vals[i, 1:1 + n]), tuple(int(v) for v in vals[i, 1 + n:]))
            mon.eq(got, trans[i][1:], "imported frame has a wrong row", info=info)
    tr = sp.trajectories
    mon.eq(tr.size(), len(trans), "wrong number of rows", info=info)
    times, cur, full = np.asarray(tr.times), np.asarray(tr.trajectory), np.asarray(tr.complete_trajectory)
    mon.eq((times.shape, cur.shape, full.shape), ((len(trans),), (len(trans), n), (len(trans), 2 * n)), "wrong shapes", info=info)
    mon.check(np.issubdtype(full.dtype, np.integer), "states are not integers", dtype=full.dtype, info=info)
    want_t = np.array([t[0] for t in trans])
    want_c = np.array([t[1] for t in trans]).reshape(len(trans), n)
    want_n = np.array([t[2] for t in trans]).reshape(len(trans), n)
    # a duration is the difference of two floats: exact up to one rounding of the larger time
    big = max([abs(r[0]) for t in trajs for r in t if not isinstance(r[0], int)], default=0.0) + 1e-300        # of integers: exact
    mon.count("integer_times", all(isinstance(r[0], int) for t in trajs for r in t))
    bad = np.nonzero(~(np.abs(times.astype(float) - want_t) <= 1e-12 * np.abs(want_t) + 4e-16 * big))[0]
    mon.check(bad.size == 0, "duration of a row is not the time between its two samples", key="duration",
              row=bad[:1], got=times[bad[:1]], want=want_t[bad[:1]], info=info)
    bad = np.nonzero((cur != want_c).any(axis=1))[0]
    mon.check(bad.size == 0, "states before the transition are wrong", key="before", row=bad[:1], got=cur[bad[:1]], want=want_c[bad[:1]], info=info)
    mon.check(np.array_equal(full[:, :n], cur), "the two views of the current states differ", info=info)
    bad = np.nonzero((full[:, n:] != want_n).any(axis=1))[0]
    mon.check(bad.size == 0, "states after the transition are wrong", key="after", row=bad[:1], got=full[bad[:1], n:], want=want_n[bad[:1]], info=info)
    s = sp.structure
    mon.eq([str(x) for x in s.nodes_labels], list(names), "wrong variables", info=info)
    mon.eq([int(v) for v in s.nodes_values], list(cards), "wrong cardinalities", info=info)
    mon.eq([int(v) for v in s.nodes_indexes], list(range(n)), "variables do not point to their columns", key="indexes", info=info)
    mon.eq([(str(a), str(b)) for a, b in s.edges], [tuple(e) for e in edges], "wrong prior edges", key="edges", info=info)
    mon.eq(bool(sp.has_prior_net_structure), bool(edges), "prior structure wrongly reported", info=info)
    mon.eq(int(sp.total_variables_count), n, "wrong number of variables", info=info)
    for e in edges:
        mon.check(s.contains_edge(tuple(e)), "a prior edge is not found", edge=e, info=info)
    mon.eq(list(imp.sorter), list(names), "wrong order of the variables", info=info)
    mon.count("rows_checked", len(trans))
    mon.count("trajectory_boundaries", len(trajs) - 1)
    if len(trans) > 1:
        mon.seen(info["how"], names, cards, len(trans), round(float(want_t.sum()), 9))
    mon.sample({"how": info["how"], "names": names, "cards": cards, "rows": len(trans), "trajectories": len(trajs)})


def finish_path(rng, imp):
    from PyCTBN import SamplePath
    sp = SamplePath(imp)
    if rng.random() < 0.5:
        sp.build_trajectories()
        sp.build_structure()
    else:
        sp.build_structure()
        sp.build_trajectories()
    return sp


def random_edges(rng, names, p=0.3):
    e = [(a, b) for a in names for b in names if a != b and rng.random() < p]
    return [e[i] for i in rng.permutation(len(e))]


def run(case, rng, mon):
    {"json": run_json, "frames": run_frames, "custom": run_custom, "long": run_long}[case["kind"]](case, rng, mon)


def size(rng, case, hi, mon):
    """How many variables: in the wide cases sometimes many, otherwise many trajectories."""
    mon.count("wide", bool(case.get("wide")))
    return int(rng.integers(12, 41)) if case.get("wide") and case["i"] % 2 else int(rng.integers(1, hi + 1))


def many(rng, case):
    return int(rng.choice([40, 150, 300])) if case.get("wide") and case["i"] % 2 == 0 else None


def reorder(rng, d, how):
    return {k: d[k] for k in reversed(list(d))} if how and rng.random() < 0.8 else d


def run_json(case, rng, mon):
    from PyCTBN import JsonImporter
    time_key = ["Time", "t", "TIMESTAMP", "zeit", "0time", "TimeS"][int(rng.integers(6))]
    sk, ek, vk = [("samples", "dyn.str", "variables"), ("trajectories", "edges", "nodes")][int(rng.integers(2))]
    datasets, truth = [], []
    var_keys = [("Name", "Value"), ("Label", "Card"), ("id", "Name")][int(rng.choice([0, 0, 1, 2]))]
    for _ in range(int(rng.integers(1, 5))):
        n = size(rng, case, 6, mon)
        cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 12 if case.get("wide") else 4))
        names = gen.labels(rng, n)
        names = [x + "_" if x == time_key else x for x in names]
        if rng.random() < 0.3:                    # names made from that of the times
            alike = [time_key + ".1", time_key + "S", time_key + "_", time_key.upper(), time_key.lower(), "x" + time_key, time_key * 2, " " + time_key, time_key[:-1]]
            for x in [alike[i] for i in rng.permutation(len(alike))[:int(rng.integers(1, 3))]]:
                if x and x != time_key and x not in names:
                    names[int(rng.integers(n))] = x
                    mon.count("named_like_the_times")
        trajs = trajectories(rng, cards, many(rng, case), integer_time=bool(rng.random() < 0.2))
        edges = random_edges(rng, names)
        where = int(rng.integers(n + 1)) if rng.random() < 0.5 else 0
        samples = []
        for j, tr in enumerate(trajs):
            rows = []
            order = list(names)
            if j and rng.random() < 0.3:          # the order of the keys may differ from one trajectory to the next
                order = [names[i] for i in rng.permutation(n)]
            keys = order[:where] + [time_key] + order[where:]
            for r in tr:
                d = dict(zip([time_key] + names, r))
                rows.append({k: d[k] for k in keys})
            samples.append(rows)
        turn = rng.random(2) < 0.3                # the order of the keys of an object means nothing
        ds = {ek: [reorder(rng, {"From": a, "To": b}, turn[0]) for a, b in edges], vk: [reorder(rng, dict(zip(var_keys, x)), turn[1]) for x in zip(names, cards)],
              sk: samples}
        mon.count("keys_in_another_order", bool(turn[0]) and bool(edges) or bool(turn[1]))
        if rng.random() < 0.3:
            ds["extra"] = {"ignored": 1}
        keys = list(ds)
        datasets.append({k: ds[k] for k in [keys[i] for i in rng.permutation(len(keys))]})
        truth.append((names, cards, trajs, edges))
    single = len(datasets) == 1 and rng.random() < 0.5
    path = os.path.abspath("in.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(datasets[0] if single else datasets, f, ensure_ascii=bool(rng.random() < 0.5), indent=[None, 1][int(rng.random() < 0.3)])
    before = open(path, encoding="utf-8").read()
    order = [int(i) for i in rng.permutation(len(truth))][:2]
    for k, indx in enumerate(order):
        if k == 0 or rng.random() < 0.5:
            imp = JsonImporter(file_path=path, samples_label=sk, structure_label=ek, variables_label=vk, time_key=time_key, variables_key=var_keys[0])
        if indx == 0 and rng.random() < 0.5:
            imp.import_data()
        else:
            imp.import_data(indx)
        names, cards, trajs, edges = truth[indx]
        mon.eq(imp.dataset_id(), indx, "wrong data set id")
        info = dict(how="json", time_key=time_key, names=names, dataset=indx)
        frame = imp.concatenated_samples.copy()
        sp = finish_path(rng, imp)
        judge(mon, sp, imp, trajs, names, cards, edges, info, frame)
        mon.count("json_imports")
    mon.eq(open(path, encoding="utf-8").read(), before, "the imported file was modified")
    os.unlink(path)


def random_index(rng, rows, how):
    if how == "range":
        return None
    if how == "constant":
        return [7] * rows
    if how == "pairs":
        return [i // 2 for i in range(rows)]
    if how == "shuffled":
        return list(rng.permutation(rows))
    if how == "text":
        return ["r%d" % (rows - i) for i in range(rows)]
    if how == "time":
        return pd.date_range("2020-01-01", periods=rows, freq="S")
    return [i + 100 for i in range(rows)]


def run_frames(case, rng, mon):
    from PyCTBN import SampleImporter
    n = size(rng, case, 7, mon)
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 12 if case.get("wide") else 4))
    names = gen.labels(rng, n)
    time_key = ["Time", "t", "T0"][int(rng.integers(3))]
    integer_time = bool(rng.random() < 0.15)
    trajs = trajectories(rng, cards, many(rng, case), integer_time=integer_time)
    how_index = ["range", "constant", "pairs", "shuffled", "text", "time", "offset"][int(rng.integers(7))]
    dtype = ["int64", "int32", "int8", "float64", "object"][int(rng.integers(5))]
    explicit = rng.random() < 0.3
    columns = list(range(n)) if not explicit else [int(i) for i in rng.permutation(n)]     # order of the columns in the frames
    frames = []
    for tr in trajs:
        f = pd.DataFrame({names[j]: np.array([r[1 + j] for r in tr]) for j in columns}).astype(dtype if dtype != "object" else "object")
        times = [r[0] for r in tr]
        f.insert(0, time_key, np.array(times, dtype="int64" if integer_time else float))
        index = random_index(rng, len(tr), how_index)
        if index is not None:
            f.index = index
        frames.append(f)
    if rng.random() < 0.3:                    # a resampled list: the same frame at several places
        again = [int(x) for x in rng.integers(0, len(frames), int(rng.integers(1, len(frames) + 3)))]
        if rng.random() < 0.3:
            again = again[:1] + again
        if not any(len(trajs[k]) > 1 for k in again):
            again.append(next(k for k in range(len(trajs)) if len(trajs[k]) > 1))
        frames, trajs = [frames[k] for k in again], [trajs[k] for k in again]
        mon.count("frames_resampled", len(set(again)) < len(again))
    edges = random_edges(rng, names)
    vf = pd.DataFrame({"Name": names, "Value": cards})
    how_vars = ["frame", "frame_index", "frame_names", "list", "array"][int(rng.integers(5))]
    if how_vars == "frame_index":
        vf.index = [5 + 3 * i for i in range(n)][::-1]
    elif how_vars == "frame_names":
        vf.columns = ["Variable_Label", "Variable_Cardinality"]
        vf.index = list(names)
    elif how_vars == "list":
        vf = [[a, b] for a, b in zip(names, cards)]
    elif how_vars == "array":
        vf = np.array([[a, b] for a, b in zip(names, cards)], dtype=object)
    how_prior = ["frame", "list", "array", "none", "frame_names"][int(rng.integers(5))]
    if how_prior == "none":
        prior, edges = None, []
    elif how_prior == "list":
        prior = [list(e) for e in edges]
    elif how_prior == "array":
        prior = np.array(edges, dtype=object).reshape(len(edges), 2)
    else:
        prior = gen.edges_frame(edges)
        if how_prior == "frame_names":
            prior.columns = ["From_Node", "To_Node"]
            if edges:
                prior.index = [3] * len(edges)
        elif rng.random() < 0.4:
            prior = prior[["To", "From"]]
    imp = SampleImporter(trajectory_list=frames, variables=vf, prior_net_structure=prior)
    if explicit:
        imp.import_data(header_column=list(names))
    else:
        imp.import_data()
    info = dict(how="frames/%s/%s/%s/%s" % (how_index, dtype, how_vars, how_prior), names=names, cards=cards, explicit_header=explicit)
    frame = imp.concatenated_samples.copy()
    sp = finish_path(rng, imp)
    judge(mon, sp, imp, trajs, names, cards, edges, info, frame)
    mon.count("frame_imports")


def run_long(case, rng, mon):
    """Hundreds of thousands of samples."""
    from PyCTBN import SampleImporter
    n = int(rng.integers(2, 4))
    cards = gen.cardinalities(rng, n, 2, 6)
    names = gen.labels(rng, n)
    want_t, want_c, want_n, frames = [], [], [], []
    for rows in [int(x) for x in rng.permutation([int(rng.integers(150000, 400000)), int(rng.integers(66000, 140000)), int(rng.integers(2, 70000))])]:
        s = rng.integers(0, cards, (rows, n))
        gaps = rng.exponential(float(10.0 ** rng.integers(-3, 4)), rows - 1)
        t = np.concatenate([[0.0], np.cumsum(gaps)])
        f = pd.DataFrame(s, columns=names)
        f.insert(0, "Time", t)
        frames.append(f)
        want_t.append(np.diff(t))
        want_c.append(s[:-1])
        want_n.append(s[1:])
    want_t, want = np.concatenate(want_t), np.hstack([np.concatenate(want_c), np.concatenate(want_n)])
    imp = SampleImporter(frames, gen.variables_frame(names, cards), gen.edges_frame([]))
    imp.import_data()
    sp = finish_path(rng, imp)
    info = dict(how="long", rows=len(want_t), cards=cards)
    mon.eq(sp.trajectories.size(), len(want_t), "wrong number of rows", info=info)
    mon.check(np.array_equal(np.asarray(sp.trajectories.complete_trajectory), want), "states of a long data set are wrong", info=info)
    mon.check(np.allclose(np.asarray(sp.trajectories.times), want_t, rtol=1e-9, atol=1e-9 * max(1.0, float(max(f["Time"].max() for f in frames)) * 1e-6)),
              "durations of a long data set are wrong", info=info)
    mon.count("rows_checked", len(want_t))
    mon.top("max_rows", len(want_t))
    # and they are all counted
    node = int(rng.integers(n))
    parents = [p for p in range(n) if p != node]
    sofc = gen.node_sofc(sp, names, cards, node, parents, rng)
    combs = np.asarray(sofc.p_combs)
    for i in [int(x) for x in rng.permutation(len(combs))[:6]]:
        here = (want[:, parents] == combs[i]).all(axis=1)
        M = np.zeros((cards[node], cards[node]), dtype=int)
        np.add.at(M, (want[here, node], want[here, n + node]), 1)
        np.fill_diagonal(M, 0)
        np.fill_diagonal(M, M.sum(axis=1))
        mon.check(np.array_equal(np.asarray(sofc.actual_cims[i].state_transition_matrix), M), "transitions of a long data set are not counted", key="counts", info=info)
        T = [float(want_t[here & (want[:, node] == x)].sum()) for x in range(cards[node])]
        mon.check(np.allclose(np.asarray(sofc.actual_cims[i].state_residence_times), T, rtol=1e-7), "times of a long data set are not counted", key="counts", info=info)
    mon.seen("long", names, cards, len(want_t))


def csv_importer():
    from PyCTBN import AbstractImporter

    class CSVImporter(AbstractImporter):
        def __init__(self, paths, values):
            self._df_samples_list = None
            super(CSVImporter, self).__init__(paths[0])
            self.paths, self.values = paths, values

        def import_data(self):
            self.read_csv_file()
            self._sorter = self.build_sorter(self._df_samples_list[0])
            self.import_variables()
            self.compute_row_delta_in_all_samples_frames(self._df_samples_list)

        def read_csv_file(self):
            self._df_samples_list = []
            for p in self.paths:
                df = pd.read_csv(p, float_precision="round_trip")
                df.drop(df.columns[[0]], axis=1, inplace=True)
                self._df_samples_list.append(df)

        def import_variables(self):
            self._df_variables = pd.DataFrame({"Name": self._sorter, "Value": self.values})

        def build_sorter(self, sample_frame):
            return list(sample_frame.columns)[1:]

        def dataset_id(self):
            return "csv"

    return CSVImporter


def run_custom(case, rng, mon):
    n = size(rng, case, 5, mon)
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 12 if case.get("wide") else 4))
    names = gen.labels(rng, n)
    trajs = [t for t in trajectories(rng, cards, many(rng, case)) if len(t) > 0]
    paths = []
    for i, tr in enumerate(trajs):
        paths.append(os.path.abspath("t%d.csv" % i))
        gen.frame(tr, names).to_csv(paths[-1])
    imp = csv_importer()(paths, cards)
    imp.import_data()
    mon.eq(imp.file_path, paths[0], "file path not kept")
    info = dict(how="csv", names=names, cards=cards)
    sp = finish_path(rng, imp)
    judge(mon, sp, imp, trajs, names, cards, [], info)
    mon.count("custom_imports")
    for p in paths:
        os.unlink(p)

