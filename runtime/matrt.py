"""C12..C15: factorisation of symmetric matrices, witnesses, LMI oracles (reference in exact rational arithmetic)."""
from fractions import Fraction as Fr

from common import *
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle

FILES = ["src/ellalgo/oracles/ldlt_mgr.py", "src/ellalgo/oracles/lmi_oracle.py", "src/ellalgo/oracles/lmi_old_oracle.py", "src/ellalgo/oracles/lmi0_oracle.py"]


def gen(rng, prop, hints, lits):
    ints = near_ints(lits, 1, 40 if prop == "C12" else 14)
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12] * 2 + ints)
    if hints.get("n") and rng.random() < 0.3 and 1 <= hints["n"] <= 20:
        n = int(hints["n"])
    return {"seed": rng.randrange(1 << 40), "n": n, "first": False, "lits": some(rng, lits, 3)}


def pivots(A):
    """exact pivots up to and including the first nonpositive one"""
    n = len(A)
    M = [[Fr(float(A[i][j])) for j in range(n)] for i in range(n)]
    out = []
    for k in range(n):
        out.append(M[k][k])
        if M[k][k] <= 0:
            return out
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            for j in range(k + 1, n):
                M[i][j] -= f * M[k][j]
    return out


def is_psd(A):
    """exact, by symmetric elimination with zero-row test"""
    n = len(A)
    M = [[Fr(float(A[i][j])) for j in range(n)] for i in range(n)]
    for k in range(n):
        if M[k][k] < 0:
            return False
        if M[k][k] == 0:
            if any(M[i][k] != 0 for i in range(k, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            for j in range(k + 1, n):
                M[i][j] -= f * M[k][j]
    return True


def semi_reference(A):
    """the documented restart at zero pivots, exactly: (answer, saw a zero pivot)"""
    n = len(A)
    a = lambda i, j: Fr(float(A[i][j]))
    start, L, D, zero = 0, {}, {}, False
    for i in range(n):
        for j in range(start, i + 1):
            v = a(i, j) - sum(L[i, k] * D[k] * L[j, k] for k in range(start, j))
            if j < i:
                L[i, j] = v / D[j]
        D[i] = v
        if v < 0:
            return False, zero
        if v == 0:
            start, zero = i + 1, True
        L[i, i] = Fr(1)
    return True, zero


def dy(x):
    """a power of two of the magnitude of x"""
    return 2.0 ** round(math.log2(abs(x))) if x else 1.0


def sym(rng, n, lits=()):
    """symmetric test matrices: dyadic (exact in floating point) and general ones"""
    k = rng.randrange(10)
    if k >= 8:  # pivots of very different size, still exact; sometimes the scale of a literal of the source
        t = dy(rng.choice(around(rng.choice(lits)))) if lits and rng.random() < 0.5 else 2.0 ** -rng.randrange(0, 45)
        if not 2.0 ** -120 < t < 2.0 ** 120:
            t = 2.0 ** -20
        L = np.eye(n)
        for i in range(n):
            for j in range(i):
                L[i, j] = rng.choice([0, 0, 1, -1, 2, 0.5])
        pool = [t] if k == 8 and rng.random() < 0.5 else [1.0, 2.0, t, t]
        if rng.random() < 0.6:
            pool = pool + [-t, -1.0]
        d = [float(rng.choice(pool)) for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            c = rng.randrange(n - 1)  # a tiny pivot with a coupling that makes the next one negative
            d[c], d[c + 1] = t, -1.0
            L[c + 1, c] = rng.choice([1.0, 2.0 ** rng.randrange(0, 12)])
        return L @ np.diag(d) @ L.T
    if k <= 2:  # L D L^T with small integers: exact pivots
        L = np.eye(n)
        for i in range(n):
            for j in range(i):
                L[i, j] = rng.choice([0, 0, 1, -1, 2, -2, 0.5])
        pool = rng.choice([[1, 2, 4, 0.5], [1, 2, 4, 0], [1, 2, 0, -1], [1, 2, 4, -1, -2], [1, 1, 1, 1, 1, 0.25, -0.5]])
        return L @ np.diag([float(rng.choice(pool)) for _ in range(n)]) @ L.T
    if k == 3:
        d = np.array([float(rng.choice([1, 2, 3, 0.5, rng.choice([0, -1, 1, 5])])) for _ in range(n)])
        return np.diag(d)
    nr = np.random.default_rng(rng.randrange(1 << 32))
    if k == 4:
        B = nr.integers(-3, 4, (n, max(1, n + rng.choice([-2, -1, 0, 1, 3]))))
        return (B @ B.T).astype(float)
    if k == 5:
        A = nr.integers(-4, 5, (n, n)).astype(float)
        return A + A.T + rng.choice([0, 2, 5, 10, 20]) * np.eye(n)
    if k == 6:
        A = nr.standard_normal((n, n))
        return A @ A.T + rng.choice([0.1, 1.0]) * np.eye(n)
    A = nr.standard_normal((n, n))
    return A + A.T + rng.choice([0, 1, 3, 6]) * np.eye(n)


def good_float(A):
    """all quantities of the elimination are dyadic, so floating point is exact"""
    n = len(A)
    M = [[Fr(float(A[i][j])) for j in range(n)] for i in range(n)]
    den, mag = 1, Fr(0)  # all summands are multiples of 1/den and at most mag

    def see(*vs):
        nonlocal den, mag
        for v in vs:
            if v.denominator & (v.denominator - 1):
                return False
            den = max(den, v.denominator)
            mag = max(mag, abs(v))
        return mag * den * 4 * n < 1 << 53
    for k in range(n):
        if M[k][k] == 0:
            return True
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f.denominator & (f.denominator - 1) or f.numerator.bit_length() > 26:
                return False
            for j in range(k + 1, n):
                p = f * M[k][j]
                if not see(M[i][j], p, M[i][j] - p):
                    return False
                M[i][j] -= p
    return True


def decided(A):
    piv = pivots(A)
    sc = max(1e-300, float(np.max(np.abs(A))))
    if all(float(abs(p)) > 1e-9 * sc for p in piv) or good_float(A):
        return piv
    return None


class Asker:
    def __init__(self, A):
        self.A, self.log = A, []

    def __call__(self, i, j):
        self.log.append((i, j))
        need(0 <= j <= i < len(self.A), f"entry ({i}, {j}) above the diagonal or outside was asked for")
        return self.A[i, j]


def vec(m, n):
    s, p = m.pos
    v = np.zeros(n)
    v[s:p] = m.wit[s:p]
    return v


def c12(case):
    rng = random.Random(case["seed"])
    n = case["n"]
    m = LDLTMgr(n)
    feed, ms = Feed(rng), []
    for t in range(rng.choice([1, 1, 2, 3])):
        A = feed(sym(rng, n, case["lits"]))
        piv = decided(A)
        if piv is None:
            continue
        pd = len(piv) == n and all(p > 0 for p in piv)
        if rng.random() < 0.5:
            a = Asker(A)
            r = m.factor(a)
            need(len(set(a.log)) == len(a.log), "an entry was asked for more than once")
        else:
            r = m.factorize(A)
        need(bool(r) == pd, f"answer {r} for\n{A.tolist()} (positive definite: {pd})")
        need(bool(m.is_spd()) == pd, "is_spd")
        disturb(rng, n, ms)
        if not pd:
            if rng.random() < 0.5:
                m.witness()
            continue
        R = np.array(m.sqrt())
        need(np.allclose(np.tril(R, -1), 0.0, atol=0), f"square root not upper triangular for {A.tolist()}")
        need(close(R.T @ R, A, 1e-7), f"R^T R differs from A for {A.tolist()}")
        if hasattr(m, "_storage"):
            S = np.array(m._storage)
            L, D = np.tril(S, -1) + np.eye(n), np.diag(np.diag(S))
            need(np.all(np.diag(S) > 0), "diagonal factor not positive")
            need(close(L @ D @ L.T, A, 1e-7), f"L D L^T differs from A for {A.tolist()}")


def disturb(rng, n, ms):
    """use other managers of the same size in between"""
    if rng.random() < 0.4:
        k = LDLTMgr(n) if rng.random() < 0.3 or not ms else rng.choice(ms)
        ms.append(k)
        if not k.factorize(sym(rng, n)):
            k.witness()
        else:
            k.sqrt()


def raises(f):
    try:
        f()
    except AssertionError:
        return True
    return False


def c13(case):
    rng = random.Random(case["seed"])
    n = case["n"]
    m = LDLTMgr(n)
    feed, ms = Feed(rng), []
    for t in range(rng.choice([1, 1, 2, 3])):
        A = feed(sym(rng, n, case["lits"]))
        semi = rng.random() < 0.4
        if semi and not (good_float(A) or min(abs(float(p)) for p in pivots(A)) > 1e-6):
            continue
        if semi:
            r = m.factor_with_allow_semidefinite(lambda i, j: A[i, j])
        else:
            if decided(A) is None:
                continue
            r = m.factor(lambda i, j: A[i, j]) if rng.random() < 0.5 else m.factorize(A)
        disturb(rng, n, ms)
        if r:
            need(raises(m.witness), "witness() on a definite matrix does not raise AssertionError")
            continue
        need(raises(m.sqrt), "sqrt() on a failed factorisation does not raise AssertionError")
        ep = m.witness()
        disturb(rng, n, ms)
        s, p = m.pos
        need(0 <= s < p <= n, f"block {m.pos}")
        v = vec(m, n)
        need(np.any(v != 0), "zero witness")
        q = v @ A @ v
        sc = float(np.abs(v) @ np.abs(A) @ np.abs(v)) + 1e-300
        need(abs(q + ep) <= 1e-7 * sc, f"v^T A v = {q}, ep = {ep} for {A.tolist()}, v = {v.tolist()}")
        need(ep > 0 if semi else ep >= 0, f"ep = {ep}")
        for F in (sym(rng, n), A):
            q = m.sym_quad(F)
            need(abs(q - v @ F @ v) <= 1e-7 * (float(np.abs(v) @ np.abs(F) @ np.abs(v)) + 1e-300), f"sym_quad = {q}, v^T F v = {v @ F @ v}")


def c14(case):
    rng = random.Random(case["seed"])
    n = case["n"]
    if rng.random() < 0.02:
        A = np.array([[0.0, 1.0], [1.0, 0.0]])
        n = 2
        if LDLTMgr(2).factor_with_allow_semidefinite(lambda i, j: A[i, j]):
            raise Bad("KNOWN:indefinite matrix with a zero pivot accepted")
        return
    m = LDLTMgr(n)
    known = False
    for t in range(rng.choice([1, 1, 2, 3])):
        A = sym(rng, n, case["lits"])
        if rng.random() < 0.3:  # positive semidefinite with zero pivots
            L = np.eye(n)
            for i in range(n):
                for j in range(i):
                    L[i, j] = rng.choice([0, 1, -1, 2, 0.5, -0.5])
            A = L @ np.diag([float(rng.choice([0, 1, 2, 4])) for _ in range(n)]) @ L.T
        fl = good_all(A)
        want, zero = semi_reference(A)
        if not fl:
            piv = pivots(A)
            if min(abs(float(p)) for p in piv) <= 1e-6:
                continue
        r = bool(m.factor_with_allow_semidefinite(Asker(A)))
        psd = is_psd(A)
        if psd:
            need(r, f"positive semidefinite matrix refused: {A.tolist()}")
        if not r:
            ep = m.witness()
            v = vec(m, n)
            q = float(v @ A @ v)
            need(ep > 0 and q < 0 and abs(q + ep) <= 1e-7 * (float(np.abs(v) @ np.abs(A) @ np.abs(v)) + 1e-300), f"refused without a vector of negative curvature: {A.tolist()}, v = {v.tolist()}")
        elif not zero:
            need(psd, f"matrix without a zero pivot accepted although not semidefinite: {A.tolist()}")
            if hasattr(m, "_storage"):
                S = np.array(m._storage)
                L, D = np.tril(S, -1) + np.eye(n), np.diag(np.diag(S))
                need(close(L @ D @ L.T, A, 1e-7), f"L D L^T differs from A for {A.tolist()}")
        elif not psd:
            need(want, f"indefinite matrix accepted: {A.tolist()}")
            known = True
    if known:
        raise Bad("KNOWN:indefinite matrix with a zero pivot accepted")


def good_all(A):
    """floating point is exact in every trailing block the semidefinite variant may start from"""
    n = len(A)
    return all(good_float(A[s:, s:]) for s in range(n))


def c15(case):
    rng = random.Random(case["seed"])
    n, m = min(case["n"], 6), rng.choice([1, 1, 2, 2, 3, 5, 7])
    diag = rng.random() < 0.4
    nr = np.random.default_rng(rng.randrange(1 << 32))

    def S():
        if diag:
            return np.diag(nr.integers(-3, 4, n).astype(float))
        A = nr.integers(-2, 3, (n, n))
        return (A + A.T).astype(float)
    F = [S() for _ in range(m)]
    xs = nr.integers(-3, 4, m).astype(float)  # feasible
    P = np.diag(nr.integers(0, 3, n).astype(float)) if diag else None
    if P is None:
        G = nr.integers(-2, 3, (n, rng.choice([1, n, n + 1])))
        P = (G @ G.T).astype(float)
    # a change of units: variable k is measured in c[k], the matrix in s (powers of two, so nothing is rounded)
    def unit():
        if rng.random() < 0.6:
            return 1.0
        lits = case.get("lits") or []
        t = dy(rng.choice(around(rng.choice(lits)))) if lits and rng.random() < 0.6 else 2.0 ** rng.randrange(-60, 61)
        return t if 2.0 ** -150 < t < 2.0 ** 150 else 1.0
    c, s = (np.array([unit() for _ in range(m)]), unit()) if rng.random() < 0.5 else (np.ones(m), 1.0)
    cls = rng.randrange(3)
    if cls == 2:
        if rng.random() < 0.8:  # make xs feasible: F[0] xs0 + .. = P
            k = rng.randrange(m)
            if xs[k] == 0:
                xs[k] = 1.0
            F[k] = (P - sum(xs[i] * F[i] for i in range(m) if i != k)) / xs[k]
        mat = lambda x: sum(x[k] * F[k] for k in range(m))
        F1 = [s * c[k] * F[k] for k in range(m)]
        mk = lambda: LMI0Oracle(list(F1))
    else:
        B = P + sum(xs[k] * F[k] for k in range(m))
        mat = lambda x: B - sum(x[k] * F[k] for k in range(m))
        F1, B1 = [s * c[k] * F[k] for k in range(m)], s * B
        mk = (lambda: LMIOracle(list(F1), B1)) if cls == 0 else (lambda: LMIOldOracle(list(F1), B1))
    o, feed = mk(), Feed(rng)
    feas = [xs] if is_psd(mat(xs)) else []
    for _ in range(rng.choice([1, 2, 4])):
        x = xs + nr.integers(-3, 4, m) * rng.choice([1.0, 0.5, 0.25]) if rng.random() < 0.8 else nr.standard_normal(m) * 3
        M = mat(x)
        M = (M + M.T) / 2
        piv = decided(M)
        if piv is None:
            continue
        pd = len(piv) == n and all(p > 0 for p in piv)
        xu = x / c
        xx = feed(xu)
        a = o.assess_feas(xx)
        need(np.array_equal(xx, xu), "query point changed")
        need((a is None) == pd, f"cut {a} at {xu.tolist()}, matrix {(s * M).tolist()} positive definite: {pd}")
        c2 = mk().assess_feas(xu)
        need((c2 is None) == (a is None) and (a is None or close(a[0] / (c * s), c2[0] / (c * s)) and close(a[1] / s, c2[1] / s)), "answer depends on earlier queries")
        if a is None:
            continue
        g, ep = np.asarray(a[0], float) / (c * s), float(a[1]) / s
        need(g.shape == (m,), "one gradient entry per variable")
        need(ep >= 0, f"ep = {ep}")
        pts = list(feas)
        for y in feas:
            lo, hi = 0.0, 1.0  # boundary point on the way from x to y
            for _ in range(40):
                t = (lo + hi) / 2
                if np.linalg.eigvalsh(mat(x + t * (y - x)))[0] >= 0:
                    hi = t
                else:
                    lo = t
            pts.append(x + hi * (y - x))
        for _ in range(6):
            y = xs + nr.integers(-2, 3, m)
            if np.linalg.eigvalsh(mat(y))[0] >= 1e-9:
                pts.append(y)
        sc = float(np.abs(g).sum() * (1 + np.abs(x).max()) + abs(ep))
        for y in pts:
            need(g @ (y - x) + ep <= 1e-6 * sc + 1e-12, f"feasible point {y.tolist()} is cut off at {x.tolist()} by ({g.tolist()}, {ep}), F = {[f.tolist() for f in F]}")


RUN = {"C12": c12, "C13": c13, "C14": c14, "C15": c15}


def run(prop, case):
    RUN[prop](case)
