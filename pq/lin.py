"""Linear integer facts over symbolic atoms: expressions `c + sum(k_i * x_i)` and an exact
feasibility test (phase-1 simplex over the rationals with integer tightening of the goal).

A linear expression is a tuple (const, ((atom_id, coef), ...)) sorted by atom id; a fact is an
expression known to be >= 0."""
from math import gcd


def lconst(c):
    return (c, ())


def ladd(a, b, k=1):
    if k == 0:
        return a
    d = dict(a[1])
    for i, c in b[1]:
        n = d.get(i, 0) + k * c
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def lscale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((i, c * k) for i, c in a[1]))


def lneg(a):
    return lscale(a, -1)


def latoms(a):
    return [i for i, _ in a[1]]


def lsubst(a, m):
    """substitute atom id -> expr"""
    if not any(i in m for i, _ in a[1]):
        return a
    r = (a[0], tuple((i, c) for i, c in a[1] if i not in m))
    for i, c in a[1]:
        if i in m:
            r = ladd(r, m[i], c)
    return r


def feasible(cons, lows):
    """cons: list of expr >= 0; lows: atom -> lower bound (int) or None.
    True unless the system is infeasible over the rationals."""
    # quick rejects
    vs = set()
    for c in cons:
        if not c[1]:
            if c[0] < 0:
                return False
        for i, _ in c[1]:
            vs.add(i)
    cons = [c for c in cons if c[1]]
    if not cons:
        return True
    vs = sorted(vs)
    # columns: x_i = lb + y_i (y>=0), or y_i - z_i when unbounded below
    cols = []
    colidx = {}
    for v in vs:
        colidx[v] = len(cols)
        cols.append((v, 1))
        if lows.get(v) is None:
            cols.append((v, -1))
    n = len(cols)
    rows = []
    for c0, ts in cons:
        # sum k x + c0 >= 0   ->   -sum k x <= c0
        row = [0] * n
        b = c0
        for v, k in ts:
            lb = lows.get(v)
            j = colidx[v]
            row[j] -= k
            if lb is None:
                row[j + 1] += k
            else:
                b += k * lb
        rows.append((row, b))
    return _phase1(rows, n)


def _phase1(rows, n):
    """exists y >= 0 with row.y <= b for all rows?  Rows of the dictionary are [den, const, {var: coef}]
    meaning den * basic = const + sum(coef * var), all integers."""
    m = len(rows)
    if all(b >= 0 for _, b in rows):
        return True
    # single artificial variable t (index n): row.y - t <= b ; minimise t.  Slack i is n + 1 + i
    D = {}
    worst = None
    for i, (row, b) in enumerate(rows):
        d = {j: -x for j, x in enumerate(row) if x}
        d[n] = 1
        D[n + 1 + i] = [1, b, d]
        if worst is None or b < D[worst][1]:
            worst = n + 1 + i
    # pivot: t enters, most negative b leaves
    _pivot(D, worst, n)
    it = 0
    while True:
        it += 1
        if it > 400:
            return True  # give up: not refuted
        tr = D.get(n)
        if tr is None or tr[1] == 0:
            return True  # t can be 0
        # minimise t: choose entering var with negative coefficient (Bland)
        e = min((j for j, k in tr[2].items() if k < 0), default=None)
        if e is None:
            return tr[1] <= 0
        # ratio test: rows with negative coef for e
        best = None
        for v, r in D.items():
            k = r[2].get(e)
            if k is not None and k < 0:
                # ratio r[1] / -k
                if best is None:
                    best = (r[1], -k, v)
                    continue
                x = r[1] * best[1] - best[0] * -k
                if x < 0 or x == 0 and (v == n or best[2] != n and v < best[2]):
                    best = (r[1], -k, v)
        if best is None:
            return True
        _pivot(D, best[2], e)


def _pivot(D, v, e):
    """basic v leaves, e enters"""
    den, c, row = D.pop(v)
    a = row.pop(e)
    # a*x_e = den*x_v - c - sum(row)
    s = 1 if a > 0 else -1
    q = a * s
    new = {j: -k * s for j, k in row.items()}
    new[v] = den * s
    nc = -c * s
    for w, r in D.items():
        k = r[2].pop(e, None)
        if not k:
            continue
        d = r[2]
        if q != 1:
            for j in d:
                d[j] *= q
        cc = r[1] * q + k * nc
        for j, x in new.items():
            y = d.get(j, 0) + k * x
            if y:
                d[j] = y
            else:
                d.pop(j, None)
        dn = r[0] * q
        if dn != 1:
            g = gcd(dn, cc, *d.values())
            if g != 1:
                dn //= g
                cc //= g
                for j in d:
                    d[j] //= g
        r[0] = dn
        r[1] = cc
    D[e] = [q, nc, new]
