"""The cache as a map, and answers that do not depend on what was asked before."""
import itertools
import unicodedata

import numpy as np

from .. import gen, ref
from . import c11

ID = "C15"
RULE = ("(a) Random sequences of put/find/clear on a Cache with sets of labels of any size (also empty, also nested: subsets and supersets of "
        "one another), with real and stand-in values, against a dictionary keyed by frozen sets; (b) all the tests of one node asked on one estimator "
        "in random orders, with repetitions and after other searches, against the answers of fresh estimators and of the reference rule; "
        "(c) searches of several nodes in random orders on one estimator against fresh estimators. Non-trivial: a test or search whose "
        "statistics were cached by another one; distinct by data and history.")
FLOORS = {"cache_operations": 5000, "cache_hits": 1000, "cache_misses": 1000, "clears": 100, "max_entries": 140, "names_alike": 20, "tests": 600, "repeated_tests": 250, "reference_tests": 400,
          "dependent": 100, "independent": 100, "searches": 120}


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"kind": "cache", "i": i} for i in range(60 * k)] + [{"kind": "tests", "i": i} for i in range(70 * k)] + \
           [{"kind": "searches", "i": i} for i in range(40 * k)]


def run(case, rng, mon):
    {"cache": cache, "tests": tests, "searches": searches}[case["kind"]](case, rng, mon)


def cache(case, rng, mon):
    from PyCTBN import Cache, SetOfCims
    c, model, ops = Cache(), {}, []
    long = case["i"] % 5 == 0
    names = gen.labels(rng, 10 if long else int(rng.integers(2, 9)))
    if rng.random() < 0.6:                                        # names that are nearly the same
        x = names[0]
        near = [x + " ", " " + x, x.swapcase(), x + x, x[::-1], unicodedata.normalize("NFD", x + "é"), unicodedata.normalize("NFC", x + "é"), x + "\t", x + ",", x + "0", "0" + x,
                x.casefold(), x.upper(), "'" + x + "'", ""]
        names = sorted(set(names[:6]) | {near[int(i)] for i in rng.permutation(len(near))[:4]})
        mon.count("names_alike")
    pool = [frozenset(names[int(i)] for i in rng.permutation(len(names))[:int(rng.integers(0, len(names) + 1))]) for _ in range(700 if long else int(rng.integers(3, 25)))]
    pool += [frozenset(), frozenset(names), frozenset(names[:1])]
    if rng.random() < 0.5:                                        # names made of several characters against the set of their characters
        pool.append(frozenset("".join(names)))
    pool = sorted(set(pool), key=sorted)
    keep = []
    for step in range(1500 if long else 150):
        key = pool[int(rng.integers(len(pool)))]
        as_list = sorted(key)
        given = {as_list[int(i)] for i in rng.permutation(len(as_list))}
        r = rng.random()
        if r < 0.35 and key not in model:
            value = SetOfCims("x", [len(key)], 2, np.array([[]])) if rng.random() < 0.5 else ("value", step)
            c.put(given, value)
            model[key] = value
            keep.append(value)
            ops.append(("put", as_list))
            if rng.random() < 0.3:
                mon.check(c.find(set(as_list)) is value, "a value just stored is not found", key="find", operations=ops[-8:])
        elif r < (0.9995 if long else 0.97):
            got = c.find(given)
            if key in model:
                mon.check(got is model[key], "the cache does not return what was stored", key="find", asked=as_list, got=got, want=model[key], operations=ops[-8:])
                mon.count("cache_hits")
            else:
                mon.check(got is None, "the cache returns something that was not stored", key="find", asked=as_list, got=got, operations=ops[-8:])
                mon.count("cache_misses")
            mon.eq(given, set(key), "the set asked for was modified")
        else:
            c.clear()
            model.clear()
            ops.append("clear")
            mon.count("clears")
        mon.count("cache_operations")
        mon.top("max_entries", len(model))
    mon.seen("cache", str(ops))


def setup(rng):
    n = int(rng.integers(3, 6)) if rng.random() < 0.9 else 7
    cards = gen.constant(rng, gen.cardinalities(rng, n, 2, 2 if rng.random() < 0.4 else 3))
    names = gen.labels(rng, n)
    trajs = c11.make_data(rng, n, cards) if n < 6 else [gen.raw_trajectory(rng, cards, 800)]
    a, b, th = c11.settings(rng)
    with gen.quiet():
        sp = gen.sample_path(trajs, names, cards, ignore=rng if rng.random() < 0.15 else None)
    return n, cards, names, trajs, sp, a, b, th


def tests(case, rng, mon):
    from PyCTBN import StructureConstraintBasedEstimator as SCE
    n, cards, names, trajs, sp, a, b, th = setup(rng)
    mon.count("ignored_variables", sp.total_variables_count > n)
    ctpc = ref.CTPC(ref.transitions(trajs), cards, a, b, th)
    child = int(rng.integers(n))
    others = [i for i in range(n) if i != child]
    asks = [(p, list(s)) for p in others for k in range(len(others)) for s in itertools.combinations([o for o in others if o != p], k)]
    asks = [asks[int(i)] for i in rng.permutation(len(asks))][:14]
    asks += [asks[int(rng.integers(len(asks)))] for _ in range(6)]

    def ask(est, p, sep):
        with gen.quiet():
            given = [names[s] for s in sep]
            out = est.complete_test(names[p], names[child], given, cards[child], sp.total_variables_count, sp.structure.get_node_indx(names[p]), sp.structure.get_node_indx(names[child]))
            mon.eq(given, [names[s] for s in sep], "a test modified the conditioning set it was given")
            return bool(out)

    shared = SCE(sp, a, b, [], th)
    if rng.random() < 0.4:                                        # after whole searches
        with gen.quiet():
            for i in rng.permutation(n)[:2]:
                shared.one_iteration_of_CTPC_algorithm(names[int(i)], sp.total_variables_count)
    history, first = [], {}
    for p, sep in asks:
        sep = [sep[int(i)] for i in rng.permutation(len(sep))]
        key = (p, tuple(sorted(sep)))
        got = ask(shared, p, sep)
        alone = ask(SCE(sp, a, b, [], th), p, sorted(sep))
        history.append((names[p], [names[s] for s in sep]))
        info = dict(child=names[child], history=history[-10:], cards=cards, alfas=(a, b), threshold=th)
        mon.eq(got, alone, "the answer of a test depends on the tests made before", key="history", info=info)
        if key in first:
            mon.eq(got, first[key], "asking again gives another answer", key="history", info=info)
            mon.count("repeated_tests")
        first[key] = got
        mon.count("tests")
        mon.count("independent" if got else "dependent")
        try:
            want = [ctpc.complete(p, child, list(sep), order)[0] for order in (1, -1)]
        except ref.Near:
            want = []
        if len(set(want)) == 1:
            mon.eq(got, want[0], "the answer is not the one of the documented rule", key="rule", info=info)
            mon.count("reference_tests")
        mon.seen("t", case["i"], str(history))
    mon.sample(dict(info, answers=len(first)))


def searches(case, rng, mon):
    from PyCTBN import StructureConstraintBasedEstimator as SCE
    n, cards, names, trajs, sp, a, b, th = setup(rng)
    mon.count("ignored_variables", sp.total_variables_count > n)
    known = [(x, y) for x in names for y in names if x != y and rng.random() < 0.1]
    shared = SCE(sp, a, b, known, th)
    alone = {}
    for x in names:
        with gen.quiet():
            alone[x] = sorted(SCE(sp, a, b, known, th).one_iteration_of_CTPC_algorithm(x, sp.total_variables_count))
    order = [names[int(i)] for i in rng.permutation(n)] + [names[int(rng.integers(n))] for _ in range(2)]
    for k, x in enumerate(order):
        with gen.quiet():
            got = sorted(shared.one_iteration_of_CTPC_algorithm(x, sp.total_variables_count))
        mon.eq(got, alone[x], "a search depends on earlier searches for other nodes", key="search", order=order[:k + 1], cards=cards, alfas=(a, b), threshold=th)
        mon.count("searches")
        mon.seen("s", case["i"], tuple(order[:k + 1]))
