"""Export and import: files, round trips, and the network a generator reads from a file."""
import itertools
import json
import os

import numpy as np
import pandas as pd

from .. import gen, law
from . import c06, c07

ID = "C04"
RULE = ("Random networks (1-7 variables, cardinalities 2-12, 0-4 parents, none at all in some networks, integer and real CIMs, shuffled "
        "edge tables) with sampled or arbitrary trajectories, exported; the file is read by independent code (every named assignment "
        "against the matrix of that assignment), imported again, re-exported, and sampled from: networks whose jumps are deterministic "
        "functions of the parents' states reveal any mismatched matrix. Files rewritten with shuffled edges, assignments, parents "
        "inside assignments, variables of dyn.cims and matrix columns, with several data sets and other names of the keys, are sampled too. Non-trivial: at least one parent; distinct by network and order.")
FLOORS = {"matrices_compared": 1500, "exports": 60, "jumps_judged": 8000, "shuffled_files": 60, "trajectory_rows": 1500, "edgeless": 5, "ten_states": 5,
          "several_sets": 40, "other_keys": 40, "sampled_cims": 1500, "frozen_imported": 5, "small_times": 15, "equal_rows": 15, "equal_trajectories": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "roundtrip", "i": i} for i in range(80 * k)]
    out += [{"kind": "generated", "i": i} for i in range(24 * k)]
    out += [{"kind": "file", "i": i} for i in range(80 * k)]
    return out


def labels(rng, n):
    while True:
        names = gen.labels(rng, n)
        if not any("=" in x or "," in x for x in names) and "Time" not in names:
            break
    if rng.random() < 0.15:                        # names that are parts of each other
        names = (["A", "AA", "BA", "A1", "1A", "B", "AB", "A "][:n - 1] + ["x"])[:n] if n > 1 else names
    if rng.random() < 0.1 and 1 < n < 8:               # characters special in patterns
        names = ["a.b", "a+b", "axb", "(c)", "[d]", "e*", "f?"][:n]
    return names


def any_network(rng):
    style = int(rng.integers(3))
    if style == 0:
        cards, parents, cims = c07.deterministic_network(rng, n=int(rng.integers(1, 6)))
    else:
        _, cards, parents, cims = c06.network(rng, integer=style == 1)
    if rng.random() < 0.15:
        parents = [[] for _ in cards]
        return cards, parents, gen.random_cims(rng, cards, parents), False
    if rng.random() < 0.15:                        # variables with a single state, states that cannot be left
        cards = gen.constant(rng, cards, 0.7)
        cims = gen.random_cims(rng, cards, parents)
        c06.freeze(rng, cards, parents, cims, 0.15)
        return cards, parents, cims, False
    return cards, parents, cims, style == 1


def read_key(key, names, label, parents):
    """{parent: state} of the key of one assignment, read independently of the library."""
    if not parents:
        return {} if key == label else None
    out = {}
    for part in key.split(","):
        p, _, v = part.rpartition("=")
        if p not in names or not v.isdigit() or p in out:
            return None
        out[p] = int(v)
    return out


def judge_file(mon, data, names, cards, parents, cims, trajs, info):
    mon.check(isinstance(data, list) and len(data) == 1, "the file is not an array of one network", info=info)
    d = data[0]
    mon.eq(sorted(d), ["dyn.cims", "dyn.str", "samples", "variables"], "wrong keys in the file", info=info)
    mon.eq([(v["Name"], v["Value"]) for v in d["variables"]], list(zip(names, cards)), "wrong variables in the file", info=info)
    mon.eq(sorted((e["From"], e["To"]) for e in d["dyn.str"]), sorted((names[p], names[i]) for i in range(len(names)) for p in parents[i]),
           "wrong edges in the file", key="edges", info=info)
    mon.eq(sorted(d["dyn.cims"]), sorted(names), "wrong variables in dyn.cims", info=info)
    for i, name in enumerate(names):
        got = {}
        for key, rows in d["dyn.cims"][name].items():
            a = read_key(key, names, name, parents[i])
            mon.check(a is not None and sorted(a) == sorted(names[p] for p in parents[i]), "unreadable assignment", key="key", assignment=key, node=name, parents=parents[i], info=info)
            u = tuple(a[names[p]] for p in parents[i])
            mon.check(u not in got, "assignment written twice", assignment=key, info=info)
            got[u] = rows
        mon.eq(sorted(got), sorted(cims[i]), "wrong assignments in the file", key="assignments", node=name, info=info)
        for u, rows in got.items():
            k = cards[i]
            mon.check(len(rows) == k and all(sorted(r) == sorted(str(y) for y in range(k)) for r in rows), "wrong matrix shape", node=name, assignment=u, info=info)
            mat = [[r[str(y)] for y in range(k)] for r in rows]
            mon.check(np.array_equal(np.array(mat, dtype=float), np.asarray(cims[i][u], dtype=float)), "an assignment is written with another matrix", key="matrix",
                      node=name, assignment=u, got=mat, want=cims[i][u], parents=parents[i], info=info)
            mon.count("matrices_compared")
    mon.eq(len(d["samples"]), len(trajs), "wrong number of trajectories in the file", info=info)
    for rows, tr in zip(d["samples"], trajs):
        mon.eq(len(rows), len(tr), "wrong number of rows in the file", info=info)
        for r, want in zip(rows, tr):
            mon.check(sorted(r) == sorted(["Time"] + list(names)), "wrong columns in the file", row=r, info=info)
            mon.check([r[x] for x in names] == list(want[1:]) and abs(r["Time"] - want[0]) <= 1e-12 * abs(want[0]), "wrong row in the file",
                      key="rows", got=r, want=want, info=info)
            mon.count("trajectory_rows")


def import_file(path, trajs, names, cards, parents, mon, info, K=None, index=None, imp=None):
    """Imports the file and judges everything but the matrices. Returns the importer."""
    from PyCTBN import JsonImporter, SamplePath
    K = K or KEYS
    if imp is None:
        imp = JsonImporter(file_path=path, samples_label=K["samples"], structure_label=K["structure"], variables_label=K["variables"], time_key=K["time"],
                           variables_key=K["name"], cims_label=K["cims"])
    imp.import_data(*([] if index is None else [index]))
    mon.eq([(str(a), int(b)) for a, b in zip(imp.variables.iloc[:, 0], imp.variables.iloc[:, 1])], list(zip(names, cards)), "variables changed in a round trip", info=info)
    if any(len(t) > 1 for t in trajs):
        sp = SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        mon.eq(sorted((str(a), str(b)) for a, b in sp.structure.edges), sorted((names[p], names[i]) for i in range(len(names)) for p in parents[i]),
               "edges changed in a round trip", key="edges", info=info)
        mon.eq([str(x) for x in sp.structure.nodes_labels], list(names), "variables changed in a round trip", info=info)
        mon.eq([int(x) for x in sp.structure.nodes_values], list(cards), "cardinalities changed in a round trip", info=info)
        want = [(b[0] - a[0], list(a[1:]), list(b[1:])) for t in trajs for a, b in zip(t, t[1:])]
        last = [abs(b[0]) for t in trajs for b in t[1:]]
        times, full = np.asarray(sp.trajectories.times, dtype=float), np.asarray(sp.trajectories.complete_trajectory)
        n = len(names)
        mon.eq(len(times), len(want), "number of transitions changed in a round trip", info=info)
        for k, (dt, x, y) in enumerate(want):
            mon.check(abs(times[k] - dt) <= 1e-12 * last[k] and full[k, :n].tolist() == x and full[k, n:].tolist() == y,
                      "a transition changed in a round trip", key="rows", got=(times[k], full[k]), want=want[k], info=info)
            mon.count("trajectory_rows")
    return imp


def sample_from(mon, imp, names, cards, parents, cims, rows, info):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    tg = TrajectoryGenerator(importer=imp)
    L = law.Law(cards, parents, cims, "imported")
    out = c06.judge(mon, tg.CTBN_Sample(max_tr=rows), names, cards, parents, cims, -1, rows, info)
    L.add(out)
    L.judge(mon)
    mon.count("jumps_judged", L.transitions)
    mon.count("frozen_imported", any(not np.asarray(q)[x].any() for c in cims for q in c.values() for x in range(len(q))))
    return L


def trajectories(rng, tg, cards):
    frames = []
    for _ in range(int(rng.integers(1, 4))):
        frames.append(tg.CTBN_Sample(max_tr=int(rng.choice([1, 5, 20]))))
    return frames


def rows_of(frame, names):
    return [[float(t)] + [int(v) for v in s] for t, s in zip(frame["Time"], frame[list(names)].to_numpy())]


def run(case, rng, mon):
    {"roundtrip": roundtrip, "generated": generated, "file": from_file}[case["kind"]](case, rng, mon)


def roundtrip(case, rng, mon):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    cards, parents, cims, integer = any_network(rng)
    n = len(cards)
    names = labels(rng, n)
    variables, table = gen.variables_frame(names, cards), c06.edge_table(rng, names, parents)
    if len(table) and rng.random() < 0.3:
        table.index = [4] * len(table)
    lib = gen.to_library_cims(names, cards, parents, cims, integer, rng)
    if rng.random() < 0.5:                                           # order of the dictionary
        lib = {names[int(i)]: lib[names[int(i)]] for i in rng.permutation(n)}
    tg = TrajectoryGenerator(variables=variables, dyn_str=table, dyn_cims=lib)
    exp = JsonExporter(variables, table, lib)
    frames = trajectories(rng, tg, cards)
    for _ in range(int(rng.integers(0, 3))):
        scale = float(rng.choice([1.0, 1e-13, 1e-5, 1e9]))          # any unit of time, all the digits
        tr = gen.raw_trajectory(rng, cards, int(rng.choice([2, 6, 60])), scale=scale)
        if rng.random() < 0.5:                                        # a sample taken twice, or more often
            k = int(rng.integers(len(tr)))
            tr = tr[:k] + [list(tr[k])] * int(rng.integers(1, 3)) + tr[k:]
            mon.count("equal_rows")
        frames.append(gen.frame(tr, names))
        mon.count("small_times", scale < 1e-4)
    if rng.random() < 0.4 and len(frames):
        f = frames[-1]
        f.index = [3] * len(f) if rng.random() < 0.5 else f.index[::-1]
    if rng.random() < 0.3 and len(frames):                            # a trajectory twice: the same frame or a copy of it
        k = int(rng.integers(len(frames)))
        frames.insert(int(rng.integers(k + 1, len(frames) + 1)), frames[k] if rng.random() < 0.6 else frames[k].copy())
        mon.count("equal_trajectories")
    for f in frames:
        exp.add_trajectory(f)
    trajs = [rows_of(f, names) for f in frames]
    file = ["out%d.json", "out.v1.%d.json", "out %d.json", "réseau-%d.json", "%d", ".out%d.json"][int(rng.integers(6))] % int(rng.integers(3))
    if rng.random() < 0.3:
        open(file, "w").write("x" * 200000)                           # an older, longer file is there
    exp.out_file(file)
    info = dict(names=names, cards=cards, parents=parents, order=table.values.tolist())
    data = json.load(open(file))
    judge_file(mon, data, names, cards, parents, cims, trajs, info)
    mon.count("exports")
    mon.count("edgeless", not any(parents))
    mon.count("ten_states", max(cards) >= 10)
    if any(parents):
        mon.seen(names, cards, parents, info["order"])
    imp = import_file(os.path.abspath(file), trajs, names, cards, parents, mon, info)
    sample_from(mon, imp, names, cards, parents, cims, 60, dict(info, how="imported"))
    if rng.random() < 0.4:                                            # export again, with one more trajectory
        frames.append(tg.CTBN_Sample(max_tr=4) if rng.random() < 0.7 or not frames else frames[int(rng.integers(len(frames)))])
        exp.add_trajectory(frames[-1])
        exp.out_file(file)
        judge_file(mon, json.load(open(file)), names, cards, parents, cims, [rows_of(f, names) for f in frames], info)
        mon.count("exports")
    os.unlink(file)
    mon.sample(dict(names=names, cards=cards, parents=parents, matrices=sum(len(c) for c in cims), trajectories=len(trajs)))


def generated(case, rng, mon):
    """The workflow of the documentation: generate, sample, export, import, sample."""
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    n = int(rng.integers(1, 7))
    names, cards = labels(rng, n), gen.cardinalities(rng, n)
    ng = NetworkGenerator(list(names), list(cards))
    ng.generate_graph(float(rng.choice([0.0, 0.3, 0.6])))
    lo = float(0.5 + rng.random())
    ng.generate_cims(lo, lo + float(rng.random() * 6))
    table = ng.dyn_str
    edges = set(zip(table["From"], table["To"])) if len(table) else set()
    parents = [[p for p in range(n) if (names[p], names[i]) in edges] for i in range(n)]
    cims = [{tuple(int(v) for v in u): np.array(c.cim) for u, c in zip(ng.cims[names[i]].p_combs, ng.cims[names[i]].actual_cims)} for i in range(n)]
    info = dict(names=names, cards=cards, parents=parents, how="generated")
    tg = TrajectoryGenerator(variables=ng.variables, dyn_str=table, dyn_cims=ng.cims)
    exp = JsonExporter(ng.variables, table, ng.cims)
    frames = trajectories(rng, tg, cards)
    if rng.random() < 0.4:
        frames += list(tg.multi_trajectory(max_trs=[3, 7]))
    for f in frames:
        exp.add_trajectory(f)
    trajs = [rows_of(f, names) for f in frames]
    exp.out_file("gen.json")
    judge_file(mon, json.load(open("gen.json")), names, cards, parents, cims, trajs, info)
    imp = import_file(os.path.abspath("gen.json"), trajs, names, cards, parents, mon, info)
    sample_from(mon, imp, names, cards, parents, cims, 60, info)
    mon.count("exports")
    mon.count("edgeless", not any(parents))
    if any(parents):
        mon.seen("generated", names, cards, parents)
    os.unlink("gen.json")


def shuffled(rng, x):
    x = list(x)
    return [x[i] for i in rng.permutation(len(x))]


KEYS = {"samples": "samples", "structure": "dyn.str", "variables": "variables", "cims": "dyn.cims", "time": "Time", "name": "Name"}
OTHER_KEYS = {"samples": ["trajectories", "0", "dyn.str"], "structure": ["edges", "samples", "net"], "variables": ["nodes", "Variables"],
              "cims": ["intensities", "Q", "cims"], "time": ["t", "Timestamp", "time"], "name": ["Id", "label"]}


def keys(rng):
    if rng.random() < 0.5:
        return dict(KEYS)
    while True:
        k = {x: (KEYS[x] if rng.random() < 0.4 else str(rng.choice(OTHER_KEYS[x]))) for x in KEYS}
        if len({k[x] for x in ("samples", "structure", "variables", "cims")}) == 4:
            return k


def data_set(rng, K):
    """One network as it stands in a file, in any order: (what it is, the object)."""
    cards, parents, cims = c07.deterministic_network(rng, n=int(rng.integers(2, 6)))
    n = len(cards)
    names = labels(rng, n)
    while K["time"] in names:
        names = labels(rng, n)
    trajs = [[[0.0] + [0] * n, [1.0] + [0] * n]]
    if rng.random() < 0.5:
        trajs = [gen.raw_trajectory(rng, cards, int(rng.integers(2, 6))) for _ in range(int(rng.integers(1, 4)))]
        trajs = [[[round(r[0], 6)] + [int(v) for v in r[1:]] for r in t] for t in trajs]
        trajs = [t if rng.random() < 0.7 else t[:1] + t for t in trajs]
    dyn_cims = {}
    for i in shuffled(rng, range(n)):
        d = {}
        for u in shuffled(rng, cims[i]):
            order = shuffled(rng, range(len(u)))
            key = ",".join("%s=%d" % (names[parents[i][j]], u[j]) for j in order) if u else names[i]
            cols = list(range(cards[i]))
            d[key] = [{str(y): float(cims[i][u][x][y]) for y in cols} for x in range(cards[i])]
        dyn_cims[names[i]] = d
    ds = {K["cims"]: dyn_cims, K["samples"]: [[dict(zip([K["time"]] + names, r)) for r in t] for t in trajs],
          K["variables"]: [disordered(rng, {K["name"]: a, "Value": b}) for a, b in zip(names, cards)],
          K["structure"]: shuffled(rng, [disordered(rng, {"From": names[p], "To": names[i]}) for i in range(n) for p in parents[i]])}
    ds = disordered(rng, ds)
    return (names, cards, parents, cims, trajs), ds


def disordered(rng, d):
    return {k: d[k] for k in shuffled(rng, d)}


def from_file(case, rng, mon):
    """Files written by hand: any order, one or several data sets, any names of the keys."""
    K = keys(rng)
    sets = [data_set(rng, K) for _ in range(int(rng.choice([1, 1, 2, 3])))]
    objects = [o for _, o in sets]
    with open("hand.json", "w", encoding="utf-8") as f:
        json.dump(objects if len(objects) > 1 or rng.random() < 0.5 else objects[0], f, ensure_ascii=bool(rng.random() < 0.5))
    shared = None
    order = [int(i) for i in rng.integers(0, len(sets), 1 + len(sets))] if len(sets) > 1 else [0]
    for which in order:
        (names, cards, parents, cims, trajs), ds = sets[which]
        info = dict(names=names, cards=cards, parents=parents, edges=ds[K["structure"]], keys=K, index=which, of=len(sets), how="file")
        again = shared if rng.random() < 0.5 else None                 # another data set with the importer of the last one
        imp = import_file(os.path.abspath("hand.json"), trajs, names, cards, parents, mon, info, K, which if which or again or rng.random() < 0.5 else None, again)
        shared = imp
        L = sample_from(mon, imp, names, cards, parents, cims, 120, info)
        got = imp.import_sampled_cims(imp.read_json_file(), which, K["cims"])
        mon.eq(sorted(got), sorted(names), "wrong variables with sampled CIMs", key="sampled_cims", info=info)
        for x in names:
            want = [[[row[str(y)] for y in range(len(rows))] for row in rows] for rows in ds[K["cims"]][x].values()]
            mon.check(len(got[x]) == len(want) and all(np.array_equal(np.asarray(a, dtype=float), np.array(b)) for a, b in zip(got[x], want)),
                      "the CIMs read from the file are not the ones in it", key="sampled_cims", node=x, info=info)
            mon.count("sampled_cims", len(want))
        mon.count("shuffled_files")
        mon.count("several_sets", len(sets) > 1)
        mon.count("other_keys", K != KEYS)
        mon.count("edgeless", not any(parents))
        mon.count("ten_states", max(cards) >= 10)
        for key in L.D:
            mon.seen("file", case["i"], which, key)
    os.unlink("hand.json")
