"""C01..C06: histories of cuts on Ell / EllStable, scalar formulas."""
from common import *
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_calc import EllCalc
from ellalgo.ell_calc_core import EllCalcCore
from ellalgo.ell_config import CutStatus

FILES = ["src/ellalgo/ell.py", "src/ellalgo/ell_stable.py", "src/ellalgo/ell_calc.py", "src/ellalgo/ell_calc_core.py"]


def ellipsoid(s):
    """(centre, P) of a search space; from its representation when known, observed through tsq() otherwise"""
    xc = np.array(s.xc(), float)
    n = len(xc)
    if isinstance(s, Ell) and all(hasattr(s, a) for a in ("_mq", "_kappa")):
        return xc, float(s._kappa) * np.array(s._mq, float)
    if isinstance(s, EllStable) and all(hasattr(s, a) for a in ("_mq", "_kappa")):
        m = np.array(s._mq, float)
        L = np.tril(m, -1) + np.eye(n)
        Li = np.linalg.inv(L)
        return xc, float(s._kappa) * (Li.T @ np.diag(np.diag(m)) @ Li)
    return xc, observed(s, n)


def observed(s, n):
    def w(g):
        t = copy.deepcopy(s)
        t.update_central_cut((g, 0.0))
        return t.tsq()
    P = np.zeros((n, n))
    I = np.eye(n)
    for i in range(n):
        P[i, i] = w(I[i])
    for i in range(n):
        for j in range(i):
            P[i, j] = P[j, i] = (w(I[i] + I[j]) - P[i, i] - P[j, j]) / 2
    return xc_ok(P)


def xc_ok(P):
    return P


def gen(rng, prop, hints, lits):
    ints = near_ints(lits, 2, 40)
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16] * 2 + [24, 33] + ints)
    if hints.get("n") and rng.random() < 0.3:
        h = int(hints["n"])
        n = h if 2 <= h <= 24 else n
    return {"seed": rng.randrange(1 << 40), "n": n, "scale": rng.choice([1.0, 1.0, 1.0, 10.0, 100.0, 0.01, 1e-6, 1e6, 1e-3]),
            "diag": rng.random() < 0.5, "nodefer": rng.random() < 0.5, "par": rng.random() < 0.8,
            "steps": rng.choice([1, 1, 2, 3, 5, 8, 12]), "hint": {k: hints[k] for k in ("beta0", "beta1") if isinstance(hints.get(k), float)},
            "lits": some(rng, lits)}


def cuts(rng, n, T, kind, case):
    """offsets (b0, b1 or None) around all decision boundaries"""
    tau = math.sqrt(T)
    fr = [0.0, 0.01, 0.1, 0.3, 0.5, 0.77, 0.9, 0.98]
    a = rng.choice(fr) if rng.random() < 0.6 else rng.random() * 0.97
    if case["lits"] and rng.random() < 0.15:
        v = abs(rng.choice(around(rng.choice(case["lits"]))))
        a = v if v < 0.97 else 1 - v if v < 1 else a
    r = rng.random()
    if r < 0.08:
        a = 1.0 + rng.random()
    if kind == "central":
        a = 0.0
    two = rng.random() < 0.55
    if kind == "q" and rng.random() < 0.5:
        a = -rng.random() * rng.choice([0.5 / n, 1.2 / n, 0.9, 0.3])
    b0 = a * tau
    if not two:
        if kind == "bias" and rng.random() < 0.05:
            b0 = -abs(b0) - 0.1 * tau
        return b0, None
    k = rng.randrange(7)
    if k == 0:
        b1 = b0 - rng.random() * 0.3 * tau
        if kind == "q" and b1 <= -tau:
            b1 = b0
    elif k == 1:
        b1 = tau * (1 + rng.random())
    elif k == 2:
        b1 = tau * (0.99 + 0.0099 * rng.random())
    elif k == 3:
        b1 = b0 + (tau - b0) * 0.02 * (1 + rng.random())
    elif k == 4 and kind == "q":
        b1 = abs(b0) * rng.random()
    else:
        b1 = b0 + (tau - b0) * rng.random()
    if b1 == b0:
        b1 = b0 + 0.05 * tau
    return b0, b1


def form(rng, b0, b1):
    if b1 is None:
        return rng.choice([b0, b0, np.float64(b0), (b0,), [b0], np.array([b0])])
    return rng.choice([(b0, b1), [b0, b1], np.array([b0, b1])])


def expected_status(kind, n, T, b0, b1):
    tau = math.sqrt(T)
    m = 1e-7 * tau

    def near(x):
        return abs(x) < m
    if kind == "central":
        if b1 is None:
            return "Success"
        if near(b1):
            return None
        return "NoSoln" if b1 < 0 else "Success"
    if b1 is None:
        if kind == "bias" and b0 < 0:
            return "AssertionError"
        if near(b0 - tau) or near(b0):
            if near(b0 - tau) or kind == "bias" and b0 < 0:
                return None
        if b0 > tau:
            return "NoSoln"
        if kind == "q":
            if near(tau + n * b0):
                return None
            if tau + n * b0 < 0:
                return "NoEffect"
        return "Success"
    if near(b1 - b0) or near(b0 - tau):
        return None
    if b1 < b0 or b0 > tau:
        return "NoSoln"
    if kind == "q":
        if near(b1 - tau) or b1 <= -tau:
            return None
        if b1 > tau:
            return expected_status("q", n, T, b0, None)
        v = T + n * b0 * b1
        if abs(v) < 1e-7 * T:
            return None
        if v < 0:
            return "NoEffect"
    elif b0 < 0:
        return None
    return "Success"


def params(n, T, b0, b1):
    """closed forms (one-sided / two-sided)"""
    tau = math.sqrt(T)
    if b1 is None or (b1 > 0 and b1 * b1 >= T):
        eta = tau + n * b0
        return eta / (n + 1), 2 * eta / ((n + 1) * (tau + b0)), n * n / (n * n - 1.0) * (1 - b0 * b0 / T)
    z0, z1 = T - b0 * b0, T - b1 * b1
    xi = math.sqrt(z0 * z1 + (n * (b1 * b1 - b0 * b0) / 2) ** 2)
    sg = 2 * (T + n * b0 * b1) / (T + b0 * b1 + n * (b0 + b1) ** 2 / 2 + xi)
    rho = sg * (b0 + b1) / 2
    de = n * n / (n * n - 1.0) / T * ((z0 + z1) / 2 + xi / n)
    return rho, sg, de


def run(prop, case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    n = case["n"]
    x0 = nr.normal(size=n) * case["scale"]
    val = (nr.uniform(0.2, 5.0, size=n) if case["diag"] else float(rng.uniform(0.5, 4))) 
    val = val * case["scale"] ** 2
    classes = {"C01": [Ell], "C02": [Ell], "C03": [Ell], "C04": [Ell, EllStable], "C05": [Ell, EllStable]}[prop]
    sp = []
    for c in classes:
        s = c(val, x0)
        s.no_defer_trick = case["nodefer"]
        s.helper.use_parallel_cut = case["par"]
        sp.append(s)
    if prop in ("C03", "C05"):
        P0 = np.diag(val if case["diag"] else np.full(n, val))
        for s in sp:
            xc, P = ellipsoid(s)
            need(close(P, P0) and close(xc, x0), f"{type(s).__name__}: the initial ellipsoid is not the requested one")
    twin = None
    if prop == "C03":
        twin = Ell(val, x0)
        twin.no_defer_trick = not case["nodefer"]
        twin.helper.use_parallel_cut = case["par"]
    feeds = [Feed(rng) for _ in range(len(sp) + 1)]
    other = None
    big = 0.0  # the largest entry so far: what rounding errors are relative to
    for step in range(case["steps"]):
        pre = [ellipsoid(s) for s in sp]
        P, xc = pre[0][1], pre[0][0]
        big = max(big, float(np.max(np.abs(P))))
        if not np.max(np.abs(P)) > 1e-6 * big:
            return
        if np.linalg.cond(P) > 1e6 or np.linalg.eigvalsh(P)[0] <= 0:
            return
        g = nr.normal(size=n)
        k = rng.randrange(6)
        if k == 0:
            g = np.zeros(n)
            g[rng.randrange(n)] = rng.choice([1.0, -2.0])
        elif k == 1:
            g[nr.random(n) < 0.5] = 0.0
            if not g.any():
                g[rng.randrange(n)] = 1.0
        elif k == 2:
            g = np.round(g * 2)
            if not g.any():
                g[0] = 1.0
        g = g * rng.choice([1.0, 1.0, 1e-3, 1e3, 1e-8])
        zero = prop in ("C04", "C05") and rng.random() < 0.05
        if zero:
            g = np.zeros(n)
        T = float(g @ P @ g)
        kind = rng.choice(["bias", "central", "q"])
        if zero:
            b0, b1 = (1.0, None)
        else:
            b0, b1 = cuts(rng, n, T, kind, case)
        beta = form(rng, b0, b1)
        if not case["par"]:
            b1 = None
        what = f"n={n} kind={kind} g={g.tolist()} beta={b0!r},{b1!r} tau={math.sqrt(T)!r} step={step}"
        res = []
        if rng.random() < 0.2:  # another search space in between
            if other is None:
                other = rng.choice(classes)(2.0, np.ones(rng.choice([n, n + 1, 2])))
            k = len(other.xc())
            rng.choice([other.update_bias_cut, other.update_central_cut, other.update_q])((nr.normal(size=k), rng.choice([0.0, 0.01, (0.0, 0.05)])))
        for s, feed in zip(sp + ([twin] if twin is not None else []), feeds):
            f = {"bias": s.update_bias_cut, "central": s.update_central_cut, "q": s.update_q}[kind]
            g1, be1 = feed(g), copy.deepcopy(beta)
            try:
                r = f((g1, be1))
                r = r.name if isinstance(r, CutStatus) else repr(r)
            except (ValueError, AssertionError) as ex:
                r = type(ex).__name__
            res.append(r)
        post = [ellipsoid(s) for s in sp]
        exp = "ValueError" if zero else expected_status(kind, n, T, b0, b1)
        if exp is None:
            return
        if prop == "C04":
            for s, r, p0, p1 in zip(sp, res, pre, post):
                nm = type(s).__name__
                need(r == exp, f"{nm}: status {r}, expected {exp}: {what}")
                if r != "Success":
                    need(np.array_equal(p0[0], p1[0]) and np.array_equal(p0[1], p1[1]), f"{nm}: a rejected cut ({r}) changed the search space: {what}")
        if exp != "Success":
            if prop == "C05":
                need(res[0] == res[1], f"statuses differ: {res}: {what}")
            if prop == "C03" and not zero and exp in ("NoSoln", "NoEffect") and res[0] in ("NoSoln", "NoEffect"):
                need(close(sp[0].tsq(), T, 1e-7), f"tsq() = {sp[0].tsq()!r} but g^T P g = {T!r}: {what}")
            if res[0] == "Success":
                if prop == "C01" and exp == "NoEffect":
                    contain(nr, rng, P, xc, post[0][1], post[0][0], g, T, b0, b1, what)
                if prop == "C02" and exp in ("NoEffect", "NoSoln"):
                    shrunk(P, post[0][1], what)
                return
            continue
        if res[0] != "Success":
            if prop == "C05":
                need(res[0] == res[1], f"statuses differ: {res}: {what}")
            return
        xn, Pn = post[0]
        top, bot = -(0.0 if kind == "central" else b0), -math.sqrt(T) if b1 is None else max(-math.sqrt(T), -b1)
        if prop != "C04" and top - bot < 1e-3 * math.sqrt(T):
            return  # rounding errors are relative to the square of the width left
        if prop == "C03":
            need(close(sp[0].tsq(), T, 1e-7), f"tsq() = {sp[0].tsq()!r} but g^T P g = {T!r}: {what}")
            need(np.max(np.abs(Pn - Pn.T)) <= 1e-9 * max(big, np.max(np.abs(Pn))), f"shape not symmetric: {what}")
            need(np.linalg.eigvalsh((Pn + Pn.T) / 2)[0] > 0, f"shape not positive definite: {what}")
            if hasattr(sp[0], "_kappa"):
                need(sp[0]._kappa > 0, f"scale not positive: {what}")
                for s in (sp[0], twin):
                    if s.no_defer_trick:
                        need(s._kappa == 1.0, f"scale {s._kappa!r} with deferral switched off: {what}")
            xt, Pt = ellipsoid(twin)
            need(close(xt, xn, 1e-6, 1e-9) and close(Pt, Pn), f"deferred and undeferred scaling differ: {what}")
            need(res[1] == res[0], f"deferred and undeferred scaling report different statuses: {what}")
        if prop == "C05":
            need(res[1] == "Success", f"statuses differ: {res}: {what}")
            need(close(sp[0].tsq(), sp[1].tsq()), f"tsq differs: {sp[0].tsq()!r} {sp[1].tsq()!r}: {what}")
            sc = math.sqrt(np.max(np.diag(P)))
            need(np.max(np.abs(post[0][0] - post[1][0])) <= 1e-6 * (sc + np.max(np.abs(xn))), f"centres differ: {what}")
            need(close(post[0][1], post[1][1]), f"ellipsoids differ: {what}")
        if prop == "C01":
            contain(nr, rng, P, xc, Pn, xn, g, T, b0, b1, what)
        if prop == "C02":
            rsd = params(n, T, 0.0 if kind == "central" else b0, b1)
            if rsd is not None and rsd[1] > 1e-9:
                rho, sg, de = rsd
                pg = P @ g
                need(close(Pn, de * (P - sg * np.outer(pg, pg) / T), 1e-5), f"shape is not delta (P - sigma Pg Pg^T / T) with the documented parameters: {what}")
                need(np.max(np.abs(xn - (xc - rho * pg / T))) <= 1e-6 * math.sqrt(np.max(np.diag(P))) + 1e-9 * np.max(np.abs(xc)), f"centre is not the documented one: {what}")
            shrunk(P, Pn, what)


def shrunk(P, Pn, what):
    s0, l0 = np.linalg.slogdet(P)
    s1, l1 = np.linalg.slogdet(Pn)
    need(s1 > 0 and l1 < l0 + 1e-9, f"volume did not shrink: log det {l0!r} -> {l1!r}: {what}")


def contain(nr, rng, P, xc, Pn, xn, g, T, b0, b1, what):
    n = len(g)
    tau = math.sqrt(T)
    hi = -b0
    lo = -tau if b1 is None else max(-tau, -b1)
    hi = min(hi, tau)
    if lo > hi:
        return
    if hi - lo < 1e-3 * tau:
        return
    C = np.linalg.cholesky((P + P.T) / 2)
    try:
        Pi = np.linalg.inv(Pn)
    except np.linalg.LinAlgError:
        raise Bad(f"singular shape: {what}")
    need(np.all(np.isfinite(Pi)) and np.linalg.eigvalsh((Pn + Pn.T) / 2)[0] > 0, f"not an ellipsoid: {what}")
    w = C.T @ g / tau
    tol = 1e-6 + 1e-12 * float(np.max(np.abs(xc))) / math.sqrt(float(np.linalg.eigvalsh((Pn + Pn.T) / 2)[0]))
    for k in range(24):
        t = [0.0, 1.0, 0.5][k % 3] if k < 12 else nr.random()
        s = (lo + (hi - lo) * t) / tau
        s = max(-1.0, min(1.0, s))
        u = nr.normal(size=n)
        u -= (u @ w) * w
        nu = np.linalg.norm(u)
        u = u / nu * math.sqrt(max(0.0, 1 - s * s)) if nu > 0 else u
        if k % 4 == 3:
            u *= nr.random()
        x = xc + C @ (s * w + u)
        d = x - xn
        v = float(d @ Pi @ d)
        need(v <= 1 + tol, f"discarded point {x.tolist()} (value {v!r}) that satisfies the cut: {what}")


# ------------------------------------------------------------------ C06

def gen6(rng, prop, hints, lits):
    c = gen(rng, prop, hints, lits)
    c["b0"], c["b1"] = rng.random() * 0.95, rng.random()
    c["tau"] = rng.choice([1.0, 0.1, 3.0, 1e-3, 1e3, rng.random() + 0.1])
    for k, t in (("beta0", "b0"), ("beta", "b0"), ("beta1", "b1")):
        if isinstance(hints.get(k), float) and rng.random() < 0.3:
            ht = hints.get("tau") if isinstance(hints.get("tau"), float) else c["tau"]
            if ht and 0 <= hints[k] < ht:
                c[t] = hints[k] / ht
    return c


def run6(prop, case):
    n, tau = case["n"], case["tau"]
    b0, b1 = sorted((case["b0"] * tau, case["b1"] * tau))
    if b1 - b0 < 1e-3 * tau:
        b1 = b0 + 1e-3 * tau
    T = tau * tau
    c = EllCalcCore(n)

    def get(nm, *a):
        f = getattr(c, nm, None)
        if f is None:
            return None
        r = f(*a)
        need(isinstance(r, tuple) and len(r) == 3, f"{nm} does not return a triple")
        return tuple(float(x) for x in r)

    def agree(what, *rs):
        rs = [(nm, r) for nm, r in rs if r is not None]
        for nm, r in rs[1:]:
            for x, y in zip(rs[0][1], r):
                need(abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-6), f"{what}: {rs[0][0]} = {rs[0][1]} but {nm} = {r} (n={n}, tau={tau!r}, b0={b0!r}, b1={b1!r})")

    b0b1, eta = b0 * b1, T + n * b0 * b1
    spec = params(n, T, b0, b1)
    if b1 < tau * (1 - 1e-6):
        agree("two-sided cut", ("closed form", spec), ("calc_parallel_bias_cut", get("calc_parallel_bias_cut", b0, b1, T)),
              ("calc_parallel_bias_cut_old", get("calc_parallel_bias_cut_old", b0, b1, T)),
              ("calc_parallel_bias_cut_fast", get("calc_parallel_bias_cut_fast", b0, b1, T, b0b1, eta)),
              ("calc_parallel_bias_cut_fast_old", get("calc_parallel_bias_cut_fast_old", b0, b1, T, b0b1, eta)),
              ("calc_parallel_bias_cut_fast2", get("calc_parallel_bias_cut_fast2", b0, b1, T, b0b1, eta)))
        agree("two-sided central cut", ("calc_parallel_bias_cut", get("calc_parallel_bias_cut", 0.0, b1, T)),
              ("calc_parallel_central_cut", get("calc_parallel_central_cut", b1, T)),
              ("calc_parallel_central_cut_old", get("calc_parallel_central_cut_old", b1, T)))
    agree("one-sided cut", ("closed form", params(n, T, b0, None)), ("calc_bias_cut", get("calc_bias_cut", b0, tau)),
          ("calc_bias_cut_fast", get("calc_bias_cut_fast", b0, tau, tau + n * b0)), ("two-sided with b1=tau", get("calc_parallel_bias_cut", b0, tau, T)))
    agree("central cut", ("calc_bias_cut", get("calc_bias_cut", 0.0, tau)), ("calc_central_cut", get("calc_central_cut", tau)))
