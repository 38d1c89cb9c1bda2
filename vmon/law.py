"""Monitors of the law of sampled trajectories.

Under the CTBN law, for every class of contexts (node, state, parent assignment) the number of departures minus the
integrated exit rate is a martingale with unit jumps, the gap to the next transition times the total exit rate is
Exp(1), and the next state is a draw from the normalised row. Each statistic is compared with a concentration bound
that a correct sampler exceeds with probability below ``P`` whatever its random numbers, so no verdict depends on how
random numbers are consumed.
"""
import math

P = 1e-14
L = math.log(2 / P)


def bernstein(v):
    """Deviation of a unit-jump martingale with predictable variation at most v, exceeded with probability < P."""
    return L / 3 + math.sqrt(L * L / 9 + 2 * L * v)


def kl(p, q):
    out = 0.0
    if p > 0:
        out += p * math.log(p / q)
    if p < 1:
        out += (1 - p) * math.log((1 - p) / (1 - q))
    return out


def unlikely_count(k, n, p):
    """True if k successes in n draws of probability p has a tail below P (Chernoff)."""
    if n == 0:
        return False
    if p <= 0:
        return k > 0
    if p >= 1:
        return k < n
    return n * kl(k / float(n), p) > L


def poisson_unlikely(k, mean):
    if mean <= 0:
        return k > 0
    if k == 0:
        return mean > L
    return k * math.log(k / float(mean)) - k + mean > L


def ks_uniform(values):
    """Kolmogorov-Smirnov distance of values in [0, 1] from the uniform distribution, and its bound (DKW)."""
    v = sorted(values)
    n = len(v)
    d = max(max((i + 1) / float(n) - x, x - i / float(n)) for i, x in enumerate(v))
    return d, math.sqrt(L / (2 * n))


AGES = [(0.0, 0.1), (0.1, 0.3), (0.3, 0.7), (0.7, 1.2), (1.2, 2.0), (2.0, 3.0), (3.0, 4.0), (4.0, 5.0), (5.0, 6.5), (6.5, math.inf)]


def bucket(age):
    return next(g for g, (lo, hi) in enumerate(AGES) if age < hi)


class Law(object):
    """Accumulates statistics of one network's trajectories."""

    def __init__(self, cards, parents, cims, label=""):
        self.cards, self.parents, self.cims, self.label = cards, parents, cims, label
        self.N, self.E, self.D = {}, {}, {}
        self.gaps = []
        self.first_gaps = []
        self.stale = {}                          # by parent changed last: departures weighted by how much its change mattered
        self.ages = {}                           # departures and expectation by how long the clock has been running
        self.transitions = 0

    def add(self, rows):
        """rows: [t, s0, s1, ...], the last one being the -1 row of the time of the last transition."""
        n = len(self.cards)
        age = [0.0] * n                          # expected departures since the variable's clock was last set
        turn = [None] * n                        # (group, weight) since a parent changed after the variable's own last change
        for k in range(len(rows) - 1):
            a, b = rows[k], rows[k + 1]
            s = [int(v) for v in a[1:]]
            dt = float(b[0]) - float(a[0])
            total = 0.0
            ctx = []
            for i in range(n):
                u = tuple(s[p] for p in self.parents[i])
                r = -float(self.cims[i][u][s[i]][s[i]])
                total += r
                key = (i, s[i], u)
                ctx.append(key)
                self.E[key] = self.E.get(key, 0.0) + r * dt
                before, age[i] = age[i], age[i] + r * dt
                if turn[i]:
                    for g in turn[i][0]:
                        a = self.stale.setdefault(g, [0.0, 0.0])
                        a[0] -= turn[i][1] * r * dt
                        a[1] += turn[i][1] ** 2 * r * dt
                for g, (lo, hi) in enumerate(AGES):
                    if age[i] > lo and before < hi:
                        self.ages.setdefault(g, [0.0, 0.0])[1] += min(age[i], hi) - max(before, lo)
            self.gaps.append(total * dt)
            if k == 0:
                self.first_gaps.append(total * dt)
            if int(b[1]) == -1:
                # the last transition: we know when, not of which variable; each has probability rate/total, so the
                # compensated count stays a martingale difference when the expected share is credited
                for key in ctx:
                    i, x, u = key
                    self.N[key] = self.N.get(key, 0.0) + (-float(self.cims[i][u][x][x])) / total
                    self.ages.setdefault(bucket(age[i]), [0.0, 0.0])[0] += (-float(self.cims[i][u][x][x])) / total
                    if turn[i]:
                        for g in turn[i][0]:
                            self.stale[g][0] += turn[i][1] * (-float(self.cims[i][u][x][x])) / total
                continue
            changed = [i for i in range(n) if int(b[1 + i]) != s[i]]
            if len(changed) != 1:
                continue                     # judged by C06
            i = changed[0]
            key = ctx[i]
            self.N[key] = self.N.get(key, 0.0) + 1
            self.ages.setdefault(bucket(age[i]), [0.0, 0.0])[0] += 1
            if turn[i]:
                for g in turn[i][0]:
                    self.stale[g][0] += turn[i][1]
            turn[i] = None
            for j in range(n):
                if j == i or i in self.parents[j]:
                    age[j] = 0.0
                if j != i and i in self.parents[j]:
                    # a clock that kept its former rate would show less departures where the rate rose, more where it fell
                    old = -float(self.cims[j][ctx[j][2]][s[j]][s[j]])
                    new = -float(self.cims[j][tuple(int(b[1 + p]) for p in self.parents[j])][s[j]][s[j]])
                    place = self.parents[j].index(i)
                    turn[j] = ([("turned",), ("turned", place), ("turned_of", len(self.parents[j]))], (new - old) / (new + old)) if new + old > 0 else None
            dest = self.D.setdefault(key, {})
            y = int(b[1 + i])
            dest[y] = dest.get(y, 0) + 1
            self.transitions += 1

    def merge(self, other):
        for mine, theirs in ((self.N, other.N), (self.E, other.E)):
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        for k, d in other.D.items():
            mine = self.D.setdefault(k, {})
            for y, c in d.items():
                mine[y] = mine.get(y, 0) + c
        for mine, theirs in ((self.ages, other.ages), (self.stale, other.stale)):
            for g, (x, y) in theirs.items():
                a = mine.setdefault(g, [0.0, 0.0])
                a[0] += x
                a[1] += y
        self.gaps += other.gaps
        self.first_gaps += other.first_gaps
        self.transitions += other.transitions

    def groups(self):
        """Aggregations of classes: each class, node, (node, state), number of parents, everything."""
        out = {}
        for key, e in self.E.items():
            i, x, u = key
            for g in (("class",) + key, ("node", i), ("state", i, x), ("parents", len(u)), ("all",)):
                n0, e0 = out.get(g, (0.0, 0.0))
                out[g] = (n0 + self.N.get(key, 0.0), e0 + e)
        return out

    def judge(self, mon, ks=True):
        n_rows = max(1, len(self.gaps))
        rmax = max((sum(max(-float(q[x][x]) for q in c.values() for x in range(len(q))) for c in self.cims)), 1e-9)
        for g, (N, E) in self.groups().items():
            # times are rounded to four decimals: at most 1e-4 of exposure error per row would be systematic-free;
            # allow the worst case over all the rows of the group
            slack = 5.1e-5 * rmax * math.sqrt(n_rows) * 6 + 1e-3
            mon.check(abs(N - E) <= bernstein(max(E, 1e-9) + slack) + slack,
                      "departures do not match the exit rates", key="rate", group=g, departures=N, expected=E, network=self.label)
            mon.count("rate_classes")
        for (i, x, u), dest in self.D.items():
            row = self.cims[i][u][x]
            n = sum(dest.values())
            rate = -float(row[x])
            tot = sum(float(row[y]) for y in range(len(row)) if y != x)
            for y in range(len(row)):
                if y == x:
                    continue
                p = float(row[y]) / tot
                mon.check(not unlikely_count(dest.get(y, 0), n, p), "next states do not follow the intensities", key="destination",
                          context=(i, x, u), next_state=y, count=dest.get(y, 0), of=n, probability=p, network=self.label)
                mon.count("destination_cells")
        if ks and len(self.gaps) >= 50:
            d, bound = ks_uniform([1 - math.exp(-g) for g in self.gaps])
            mon.check(d <= bound + 2e-4 * rmax, "times between transitions are not exponential", key="gap", ks=d, bound=bound, n=len(self.gaps), network=self.label)
            mon.count("gap_tests")
        if ks and len(self.first_gaps) >= 50:
            d, bound = ks_uniform([1 - math.exp(-g) for g in self.first_gaps])
            mon.check(d <= bound + 2e-4 * rmax, "first transition times are not exponential", key="gap", ks=d, bound=bound, n=len(self.first_gaps), network=self.label)


def rows_of(frame, names):
    """[[t, s0, ...]] of a sampled frame, checked to be interpretable."""
    t = [float(v) for v in frame["Time"].tolist()]
    cols = [[int(v) for v in frame[n].tolist()] for n in names]
    return [[t[k]] + [c[k] for c in cols] for k in range(len(t))]
