"""Independent reference models. Pure Python over raw trajectories; nothing here calls the library."""
import itertools
import math


def transitions(trajs, last_is_end=None):
    """Raw trajectories (lists of rows [t, s0, s1, ...]) -> list of (duration, before, after)."""
    out = []
    for tr in trajs:
        for a, b in zip(tr, tr[1:]):
            out.append((b[0] - a[0], tuple(int(x) for x in a[1:]), tuple(int(x) for x in b[1:])))
    return out


def assignments(cards):
    """All combinations of parent states, in the library's order (first parent fastest)."""
    if not cards:
        return [()]
    return [tuple(reversed(c)) for c in itertools.product(*[range(k) for k in reversed(cards)])]


def stats(trans, node, parents, cards):
    """{assignment: (T, M)} by brute force; M has the departures of each state on the diagonal."""
    k = cards[node]
    out = {}
    for u in itertools.product(*[range(cards[p]) for p in parents]):
        out[u] = ([[] for _ in range(k)], [[0] * k for _ in range(k)])
    for dt, a, b in trans:
        u = tuple(a[p] for p in parents)
        T, M = out[u]
        x = a[node]
        T[x].append(dt)
        y = b[node]
        if y >= 0 and y != x:
            M[x][y] += 1
            M[x][x] += 1
    return {u: ([math.fsum(ts) for ts in T], M) for u, (T, M) in out.items()}


def cim(T, M):
    k = len(T)
    return [[(1 - M[x][x]) / (T[x] + 1.0) if x == y else (M[x][y] + 1) / (T[x] + 1.0) for y in range(k)] for x in range(k)]


def fam_score(st, tau, alpha):
    """log marginal likelihood of one node given {assignment: (T, M)}."""
    lg = math.lgamma
    terms = []
    for T, M in st.values():
        k = len(T)
        axx = alpha / max(k - 1, 1)
        for x in range(k):
            m = M[x][x]
            terms.append(lg(alpha + m + 1) - lg(alpha + 1) + (alpha + 1) * math.log(tau) - (alpha + m + 1) * math.log(tau + T[x]))
            terms.append(lg(alpha) - lg(alpha + m))
            for y in range(k):
                if y != x:
                    terms.append(lg(axx + M[x][y]) - lg(axx))
    return math.fsum(terms)


class Near(Exception):
    """A statistic so close to its quantile that rounding may decide."""


class Quantiles(object):
    """F and chi-square quantiles, memoised."""

    def __init__(self):
        self.f, self.c = {}, {}

    def F(self, p, a, b):
        key = (p, a, b)
        if key not in self.f:
            from scipy.special import fdtri
            self.f[key] = float(fdtri(a, b, p))
        return self.f[key]

    def chi2(self, p, df):
        key = (p, df)
        if key not in self.c:
            from scipy.special import chdtri
            self.c[key] = float(chdtri(df, 1.0 - p))
        return self.c[key]


Q = Quantiles()


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def pair_test(T1, M1, T2, M2, alfa_exp, alfa_chi, thumb_value, threshold):
    """(accepts independence, failed the rule of thumb) for two sets of statistics of one node.

    Raises Near when rounding could decide."""
    k = len(T1)
    if k > 2:
        ratio = sum(M1[x][x] for x in range(k)) / float(thumb_value)
        if close(ratio, threshold, 1e-12) and ratio != threshold:
            raise Near()
        if ratio < threshold:
            return False, True
    C1 = [(1 - M1[x][x]) / (T1[x] + 1.0) for x in range(k)]
    C2 = [(1 - M2[x][x]) / (T2[x] + 1.0) for x in range(k)]
    near = False
    for x in range(k):
        r1, r2 = M1[x][x], M2[x][x]
        if r1 == 0 or r2 == 0:
            continue
        if C1[x] == 0:
            if C2[x] == 0:
                continue
            f = math.copysign(math.inf, C2[x])
        else:
            f = C2[x] / C1[x]
        lo, hi = Q.F(alfa_exp / 2, r1, r2), Q.F(1 - alfa_exp / 2, r1, r2)
        if close(f, lo) or close(f, hi):
            near = True
        elif f < lo or f > hi:
            if near:
                raise Near()
            return False, False
    limit = Q.chi2(1 - alfa_chi, k - 1)
    for x in range(k):
        r1, r2 = M1[x][x], M2[x][x]
        if r1 == 0 or r2 == 0:
            continue
        K, L = math.sqrt(r1 / float(r2)), math.sqrt(r2 / float(r1))
        chi = math.fsum((K * M2[x][y] - L * M1[x][y]) ** 2 / float(M1[x][y] + M2[x][y])
                        for y in range(k) if y != x and M1[x][y] + M2[x][y] > 0)
        if close(chi, limit):
            near = True
        elif chi > limit:
            if near:
                raise Near()
            return False, False
    if near:
        raise Near()
    return True, False


class CTPC(object):
    """Reference CTPC over raw transitions."""

    def __init__(self, trans, cards, alfa_exp, alfa_chi, threshold, known=()):
        self.trans, self.cards = trans, list(cards)
        self.alfa_exp, self.alfa_chi, self.threshold = alfa_exp, alfa_chi, threshold
        self.known = set(known)           # pairs (parent index, child index)
        self.memo = {}
        self.tests = 0
        self.forgets = False

    def st(self, node, parents):
        key = (node, tuple(parents))
        if key not in self.memo:
            self.memo[key] = stats(self.trans, node, parents, self.cards)
        return self.memo[key]

    def complete(self, parent, child, sep, order=1):
        """(independent, rule of thumb failed) given the conditioning set ``sep``."""
        sep = sorted(sep)
        full = sorted(sep + [parent])
        pos = full.index(parent)
        thumb = (self.cards[child] - 1) ** 2 * self.cards[parent]
        for p in sep:
            thumb *= self.cards[p]
        st1, st2 = self.st(child, sep), self.st(child, full)
        for u in assignments([self.cards[p] for p in sep])[::order]:
            for v in range(self.cards[parent])[::order]:
                w = u[:pos] + (v,) + u[pos:]
                self.tests += 1
                ok, thumb_failed = pair_test(*st1[u], *st2[w], self.alfa_exp, self.alfa_chi, thumb, self.threshold)
                if not ok:
                    return False, thumb_failed
        return True, False

    def parents_of(self, child, order=1):
        n = len(self.cards)
        keep = {p for p, c in self.known if c == child}
        u = [p for p in range(n) if p != child]
        removed = {}
        b = 0
        while b < len(u):
            i = 0
            while i < len(u):
                p = u[i]
                gone = False
                if p not in keep:
                    for sep in itertools.combinations([x for x in u if x != p], b):
                        ok, thumb_failed = self.complete(p, child, list(sep), order)
                        if ok:
                            u.remove(p)
                            removed[p] = sep
                            gone = True
                            break
                        if thumb_failed and not self.forgets:
                            keep.add(p)
                if not gone:
                    i += 1
            b += 1
        self.last_kept = keep - {p for p, c in self.known if c == child}
        return u, removed
