"""Score-based search: every score evaluation is recorded and judged with the result."""
import itertools

import numpy as np

from .. import gen, ref

ID = "C10"
RULE = ("estimate_parents and estimate_structure (sequential) of hill climbing and tabu search on random data under random parent "
        "limits (0 to more than there are candidates), iterations (0-400), patience (0-50), tabu lengths and durations, and known edges "
        "(also more than the limit), with every call of get_score_from_graph recorded. The list of a tabu search is followed move by move. Some data favour many parents, some "
        "none, some adversarial score functions (arbitrary values per parent set, ties, plateaus) replace the data; up to 14 variables and 1500 iterations. "
        "Non-trivial: at least two parent sets evaluated; distinct by configuration and the sequence of parent sets evaluated.")
FLOORS = {"searches": 1000, "evaluations": 30000, "improvements": 400, "patience_stops": 40, "known_edges_kept": 60, "limit_reached": 40,
          "local_optima": 30, "neighbours_judged": 80, "swaps": 20, "tabu": 100, "hill": 100, "ignored_variables": 25, "wide": 60, "tabu_moves": 3000, "all_tabu": 200}

from PyCTBN import StructureScoreBasedEstimator  # noqa: E402


class Logged(StructureScoreBasedEstimator):
    log = None
    table = None                          # {frozenset of parents: score} instead of the data

    def get_score_from_graph(self, graph, node_id):
        parents = frozenset(str(a) for a, b in graph.edges if b == node_id)
        if self.table is not None:
            graph.fast_init(node_id)
            score = self.table(node_id, parents)
        else:
            score = super().get_score_from_graph(graph, node_id)
        self.log.append((str(node_id), parents, float(np.real(score)), sorted((str(a), str(b)) for a, b in graph.edges if b != node_id)))
        return score


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([{"kind": kind, "i": i} for i in range(100 * k) for kind in ("data", "table", "optimum", "optimum")]
            + [{"kind": kind, "i": i, "wide": True} for i in range(6 * k) for kind in ("data", "table", "table", "optimum")])


def random_table(rng, names):
    """Arbitrary scores: pseudo-random per parent set, possibly with ties."""
    style = int(rng.integers(6))
    salt = int(rng.integers(1 << 30))
    memo = {}

    def table(node, parents):
        key = (node, parents)
        if key not in memo:
            h = np.random.default_rng([salt] + [ord(c) for c in node] + [0] + sorted(sum(ord(c) * 31 ** j for j, c in enumerate(p)) % (1 << 31) for p in parents))
            x = float(h.random())
            memo[key] = [x, float(int(x * 3)), -float(len(parents)) - 1000.0, 10.0 * len(parents) + x, x * 10 - 3e7, x * 1e-8][style] if style != 0 else x * 100 - 50
        return memo[key]
    return table


def data(rng, n, cards):
    if rng.random() < 0.6:
        parents = gen.random_parents(rng, n, 0.6, 3)
        cims = gen.random_cims(rng, cards, parents, 0.1, 8.0)
        return [gen.simulate(rng, cards, parents, cims, transitions=int(rng.choice([50, 300, 1000])))]
    return [gen.raw_trajectory(rng, cards, int(rng.choice([10, 100, 300]))) for _ in range(2)]


def setup(rng, lo=2, hi=6, known_p=(0.0, 0.15, 0.4), wide=False):
    n = int(rng.integers(8, 15)) if wide else int(rng.integers(lo, hi + 1))
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 3))
    names = gen.labels(rng, n)
    trajs = [gen.raw_trajectory(rng, cards, 60)] if wide else data(rng, n, cards)
    p = float(rng.choice(known_p))
    known = [(names[a], names[b]) for a in range(n) for b in range(n) if a != b and rng.random() < p]
    prior = [(a, b) for a in names for b in names if a != b and rng.random() < 0.2] if rng.random() < 0.4 else []
    return n, cards, names, trajs, known, prior


def options(rng, n):
    opt = {"max_parents": None if rng.random() < 0.4 else int(rng.integers(0, n + 1)),
           "iterations_number": int(rng.choice([0, 1, 2, 5, 20, 40, 100])),
           "patience": None if rng.random() < 0.4 else int(rng.choice([0, 1, 2, 5, 20, 50])),
           "optimizer": "tabu" if rng.random() < 0.5 else "hill"}
    if opt["optimizer"] == "tabu":
        opt["tabu_length"] = None if rng.random() < 0.4 else int(rng.integers(0, n + 3))
        opt["tabu_rules_duration"] = None if rng.random() < 0.4 else int(rng.integers(0, n + 3))
    return opt


def judge(mon, log, edges, node, names, known, opt, info):
    """``log``: evaluations of one search; ``edges``: what it returned."""
    mine = frozenset(a for a, b in known if b == node)
    mon.count("searches")
    mon.count(opt["optimizer"])
    edges = [(str(a), str(b)) for a, b in edges]
    mon.check(all(b == node for _, b in edges), "edges into another node", edges=edges, node=node, info=info)
    mon.check(all(a != b for a, b in edges), "self-loop", edges=edges, info=info)
    mon.check(all(a in names for a, _ in edges) and len(set(edges)) == len(edges), "unknown or repeated parents", edges=edges, info=info)
    parents = frozenset(a for a, _ in edges)
    mon.check(mine <= parents, "a known edge was dropped", key="known", known=mine, got=parents, info=info)
    mon.count("known_edges_kept", len(mine))
    limit = opt["max_parents"]
    if limit is not None:
        mon.check(len(parents) <= max(limit, len(mine)), "more parents than allowed", key="limit", parents=parents, known=mine, info=info)
        mon.count("limit_reached", len(parents) == limit and limit > 0)
    mon.check(len(log) >= 1, "nothing was evaluated", info=info)
    mon.check(len(log) <= opt["iterations_number"] + 1, "more score evaluations than iterations allow", key="evaluations", evaluations=len(log), info=info)
    for who, p, s, others in log:
        mon.check(who == node and not others, "the search scored a graph with edges into other nodes", key="graph", others=others, info=info)
    mon.eq(log[0][1], mine, "the search does not start from the known parents", key="start", info=info)
    best, stale, worst_stale = log[0][2], 0, 0
    current = log[0][1]
    for k, (_, p, s, _) in enumerate(log[1:]):
        mon.count("swaps", limit is not None and len(p) == len(current) == limit and p != current)
        if s > best:
            best, stale, current = s, 0, p
            mon.count("improvements")
        else:
            stale += 1
        worst_stale = max(worst_stale, stale)
    scores = {}
    for _, p, s, _ in log:
        scores.setdefault(p, s)
    mon.check(parents in scores, "the returned parents were never evaluated", key="best", parents=parents, info=info)
    mon.check(scores[parents] >= best - 1e-9 * max(1.0, abs(best)), "the returned parents are not the best ones evaluated", key="best",
              parents=parents, score=scores[parents], best=best, of=max(scores, key=scores.get), info=info)
    mon.check(scores[parents] >= log[0][2], "the result is worse than the known parents alone", key="best", info=info)
    candidates = [x for x in names if x != node and x not in mine]
    if opt["patience"] is not None:
        p = opt["patience"]
        mon.check(worst_stale <= p + 1, "the search goes on beyond its patience", key="patience", consecutive=worst_stale, info=info)
        if len(log) < opt["iterations_number"] + 1 and candidates:
            mon.check(stale == p + 1, "the search stopped before its patience or its iterations ran out", key="patience", consecutive=stale, evaluations=len(log), info=info)
            mon.count("patience_stops")
    elif candidates:
        mon.eq(len(log), opt["iterations_number"] + 1, "the search stopped before its iterations ran out", key="evaluations", info=info)
    if opt["optimizer"] == "tabu" and candidates:
        judge_tabu(mon, log, candidates, opt, info)
    mon.count("evaluations", len(log))
    sets = [p for _, p, _, _ in log]
    if len(set(sets)) > 1:
        mon.seen(sorted(opt.items(), key=str), sorted(mine), [sorted(s) for s in sets[:30]])
    return parents, stale, candidates, mine


def judge_tabu(mon, log, candidates, opt, info):
    """A candidate on the tabu list is not tried again: the last ones tried, up to the length of the list, without those that
    were released, the oldest after every so many iterations, or because there is no candidate that is not on the list."""
    m = len(candidates)
    length = m if opt["tabu_length"] is None else opt["tabu_length"]
    duration = m if opt["tabu_rules_duration"] is None else opt["tabu_rules_duration"]
    tabu, age = [], 0
    best, current = log[0][2], log[0][1]
    for k, (_, p, s, _) in enumerate(log[1:]):
        moved = p - current or current - p
        if len(moved) != 1:                                   # blocked by the limit: the candidate is not known
            return
        c, = moved
        if s > best:
            best, current = s, p
        if len(set(tabu)) >= m:
            mon.eq(c, tabu[0], "with all candidates on the tabu list another one than the oldest is tried", key="tabu", tabu=tabu, evaluation=k, info=info)
            tabu = tabu[1:]
            mon.count("all_tabu")
        else:
            mon.check(c not in tabu, "a candidate on the tabu list is tried again", key="tabu", candidate=c, tabu=tabu, evaluation=k, length=length, duration=duration, info=info)
        mon.count("tabu_moves", bool(tabu))
        if length > 0:
            tabu = (tabu[1:] if len(tabu) >= length else tabu) + [c]
        age += 1
        if age >= duration:
            tabu, age = tabu[1:], 0


def run(case, rng, mon):
    if case["kind"] == "optimum":
        return optimum(case, rng, mon)
    wide = bool(case.get("wide"))
    n, cards, names, trajs, known, prior = setup(rng, lo=1 if rng.random() < 0.1 else 2, wide=wide, known_p=(0.0, 0.1) if wide else (0.0, 0.15, 0.4))
    ignore = rng if rng.random() < 0.15 else None
    mon.count("ignored_variables", ignore is not None)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, prior, ignore=ignore)
        est = Logged(sp, known_edges=[tuple(e) if rng.random() < 0.7 else list(e) for e in known]) if known or rng.random() < 0.7 else Logged(sp)
    if case["kind"] == "table":
        est.table = random_table(rng, names)
    for _ in range(4):
        opt = options(rng, n)
        if wide:
            if case["kind"] == "table":
                opt["iterations_number"] = int(rng.choice([100, 150, 300]))
            elif opt["max_parents"] is None or opt["max_parents"] > 5:
                opt["max_parents"] = int(rng.integers(1, 6))         # a score has a term for every assignment of the parents
            mon.count("wide")
        info = dict(names=names, cards=cards, known=known, options=opt, kind=case["kind"])
        whole = rng.random() < (0.2 if wide else 0.5)
        with gen.quiet():
            if whole:
                est.log = []
                edges = est.estimate_structure(disable_multiprocessing=True, **opt)
            else:
                node = names[int(rng.integers(n))]
                sp.structure.clean_structure_edges()
                est.log = []
                edges = est.estimate_parents(node, **opt)
                for e in prior:
                    sp.structure.add_edge(e)
        edges = [(str(a), str(b)) for a, b in edges]
        for node in (names if whole else [node]):
            log = [r for r in est.log if r[0] == node]
            judge(mon, log, [e for e in edges if e[1] == node] if whole else edges, node, names, known, opt, dict(info, node=node))
        if whole:
            mon.check(all(a in names and b in names for a, b in edges), "unknown nodes", edges=edges)
    mon.sample(dict(info, evaluations=len(est.log), edges=edges))


def optimum(case, rng, mon):
    """Enough iterations: no permitted addition or removal improves the result, judged on the raw data."""
    n, cards, names, trajs, known, prior = setup(rng, 3, 6 if case["i"] % 3 == 0 else 5, (0.0, 0.0, 0.15) if case["i"] % 3 or case.get("wide") else (0.3, 0.5), bool(case.get("wide")))
    tau, alpha = (0.1, 1) if rng.random() < 0.5 else (float(10 ** rng.uniform(-2, 1)), float(10 ** rng.uniform(-1, 1)))
    ignore = rng if rng.random() < 0.15 else None
    mon.count("ignored_variables", ignore is not None)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, ignore=ignore)
        est = Logged(sp, tau_xu=tau, alpha_xu=alpha, known_edges=known)
    use_table = bool(case.get("wide")) or rng.random() < 0.4
    if use_table:
        est.table = random_table(rng, names)
    opt = options(rng, n)
    opt.update(iterations_number=400, patience=None)
    if opt["max_parents"] == 0 or rng.random() < 0.4:
        opt["max_parents"] = None
    if not use_table and sum(len(t) for t in trajs) > 400:
        opt["iterations_number"] = 300
    if case.get("wide"):
        opt["iterations_number"] = 1500
        mon.count("wide")
    node = int(rng.integers(n))
    fixed = sum(b == names[node] for _, b in known)
    if fixed and fixed < n - 1 and rng.random() < 0.6:
        opt["max_parents"] = int(rng.integers(fixed, n))            # some room beside the known edges
        mon.count("room_beside_known_edges", opt["max_parents"] > fixed > 1)
    with gen.quiet():
        est.log = []
        edges = est.estimate_parents(names[node], **opt)
    info = dict(names=names, cards=cards, known=known, options=opt, node=names[node], table=use_table)
    parents, stale, candidates, mine = judge(mon, est.log, edges, names[node], names, known, opt, info)
    if not candidates or stale < 50 * len(candidates):
        mon.count("optimum_not_judged")
        return
    trans = ref.transitions(trajs)

    def score(ps):
        if use_table:
            return est.table(names[node], frozenset(ps))
        return ref.fam_score(ref.stats(trans, node, sorted(names.index(p) for p in ps), cards), tau, alpha)

    here = score(parents)
    limit = opt["max_parents"]
    for c in candidates:
        if c in parents:
            other = parents - {c}
        elif limit is None or len(parents) < limit:
            other = parents | {c}
        else:
            continue
        there = score(other)
        mon.check(there <= here + 1e-6 * max(1.0, abs(here)) if not use_table else there <= here, "an addition or removal improves the final parent set", key="optimum",
                  parents=parents, better=other, score=here, better_score=there, info=info)
        mon.count("neighbours_judged")
    mon.count("local_optima")
