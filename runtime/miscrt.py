"""C20, C21, C23, C24."""
from common import *
from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

FILES = ["src/ellalgo/conjugate_gradient.py", "src/ellalgo/skeleton.py", "src/ellalgo/oracles/spectral_fact.py"]


def gen(rng, prop, hints, lits):
    ints = near_ints(lits, 1, 600)
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 16, 20] * 3 + [33, 40, 65, 100, 130] + ints)
    if prop == "C20":
        n = min(n, 60)
    return {"seed": rng.randrange(1 << 40), "n": n, "lits": [y for x in some(rng, lits) for y in rng.sample(around(x), 2)],
            "k": rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 20, 50, 92, 93, 100, 300, rng.randrange(1, 400)] + ints)}


def magnitude(A, b, x0, steps):
    """largest quantity met in exact conjugate gradient steps (rounding errors are relative to it)"""
    x = np.zeros(len(b)) if x0 is None else x0.copy()
    r = b - A @ x
    d = r.copy()
    an = float(np.abs(A).sum())
    m = float(np.abs(b).max(initial=0)) + an * float(np.abs(x).max(initial=0))
    for _ in range(steps):
        q = A @ d
        den = d @ q
        if abs(den) <= 1e-6 * float(np.abs(d) @ np.abs(q)):
            return math.inf
        a = (r @ r) / den
        x, rn = x + a * d, r - a * q
        m = max(m, an * float(np.abs(x).max(initial=0)), float(np.abs(rn).max(initial=0)), abs(a) * an * float(np.abs(d).max(initial=0)))
        if r @ r == 0:
            return m
        d, r = rn + (rn @ rn) / (r @ r) * d, rn
    return m


def c20(case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"] % (1 << 32))
    n = case["n"]
    k = rng.randrange(7)
    A = nr.standard_normal((n, n))
    if k <= 2:
        A = A @ A.T + n * np.eye(n)
    elif k == 3:
        A = A + A.T  # indefinite
    elif k == 4:
        A = np.diag(nr.integers(-2, 3, n).astype(float))
    elif k == 5:
        A = A[:, :1] @ A[:, :1].T  # singular
    if rng.random() < 0.2:
        A = np.round(A)
    b = nr.standard_normal(n) * rng.choice([1.0, 1.0, 1e3, 1e-3, 1e6, 1e-6])
    if rng.random() < 0.1:
        b = np.zeros(n)
    x0 = None
    r = rng.random()
    solved = False
    tol = rng.choice([1e-5, 1e-3, 1e-1, 1.0, 10.0, 1e-8] + [abs(x) for x in case["lits"] if x])
    if r < 0.3:
        x0 = nr.standard_normal(n)
    elif r < 0.5:
        x0 = nr.standard_normal(n)
        b = A @ x0 + rng.choice([0.0, 0.5 * tol / math.sqrt(n)]) * np.ones(n)
    mi = rng.choice([0, 1, 2, n - 1, n, 2 * n, 1000, 1000])
    kw = {"tol": tol, "max_iter": mi}
    if k > 2:  # no convergence theory: few steps, so that rounding cannot build up
        kw["max_iter"] = min(mi, rng.choice([0, 1, 2, 3]))
    elif rng.random() < 0.3:
        kw = {}
        tol = 1e-5
    r0 = float(np.linalg.norm(b - A @ (x0 if x0 is not None else np.zeros(n))))
    try:
        x = conjugate_gradient(A.copy(), b.copy(), None if x0 is None else x0.copy(), **kw)
    except ValueError:
        need(not r0 < tol * (1 - 1e-9), f"a starting point with residual {r0} < tol = {tol} was refused")
        return
    x = np.asarray(x, float)
    need(x.shape == (n,), "shape of the result")
    res = float(np.linalg.norm(b - A @ x))
    # rounding of the recursively updated residual is not counted
    an = float(np.abs(A).sum(1).max())
    slack = 0.0
    if k > 2:
        slack = 1e-9 * magnitude(A, b, x0, kw["max_iter"])
        if not math.isfinite(slack):
            return
    else:  # well conditioned: the recursive residual drifts by a few ulps only
        slack = 1e-13 * n * (an * (float(np.abs(x).max(initial=0)) + (0.0 if x0 is None else float(np.abs(x0).max(initial=0)))) + float(np.abs(b).max(initial=0)))
    need(res <= tol * (1 + 1e-6) + slack, f"residual {res} for tol = {tol} (A = {A.tolist()}, b = {b.tolist()}, x0 = {None if x0 is None else x0.tolist()}, {kw})")


def c21(case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"] % (1 << 32))
    n = case["n"]
    h = nr.standard_normal(n) if rng.random() < 0.6 else nr.integers(-3, 4, n).astype(float)
    if rng.random() < 0.1:
        h *= 0
    r = np.asarray(inverse_spectral_fact(h.copy()), float)
    need(r.shape == (n,), f"length {r.shape} for n = {n}")
    want = np.array([sum(h[k] * h[k + t] for k in range(n - t)) for t in range(n)])
    need(bool(np.all(np.abs(r - want) <= 1e-9 * (1e-300 + float(h @ h)))), f"h = {h.tolist()}: {r.tolist()} instead of {want.tolist()}")


def c22(case):
    rng = random.Random(case["seed"])
    n = min(max(1, case["n"]), 120)
    rho = rng.choice([0.3, 0.6, 0.8, 0.9, 0.95, 0.97, 0.98, 0.99, 0.995])
    roots = []
    while len(roots) < n - 1:
        a = rho * (1 - 0.2 * rng.random()) if len(roots) < 3 else 0.4 * rng.random()
        if n - 1 - len(roots) >= 2 and rng.random() < 0.8:
            t = rng.uniform(0, math.pi)
            roots += [a * complex(math.cos(t), math.sin(t)), a * complex(math.cos(t), -math.sin(t))]
        else:
            roots.append(rng.choice([-a, a]))
    h = np.real(np.poly(roots)) if roots else np.ones(1)
    h = h * rng.choice([1.0, 1.0, 0.01, 30.0, 1e-3, 1e-4, 1e-6, 1e4])
    top = max([abs(z) for z in roots], default=0.0)
    r = np.array([float(h[: n - t] @ h[t:]) for t in range(n)])
    resp = lambda w: r[0] + 2 * np.cos(np.outer(w, np.arange(1, n))) @ r[1:]
    R = resp(2 * np.pi * np.arange(256 * n) / (256 * n))
    if R.min() < 1e-6 * R.max():
        return  # cancellation: outside what floats can tell
    big = math.sqrt(R.max())
    alias = 40 * (n - 1) * top ** (50 * n) / (50 * n * (1 - top)) if top else 0.0
    if alias > 1e-2:
        return
    arg = r.copy()
    g = np.asarray(spectral_fact(arg), float)
    what = f"r = {r.tolist()}: {g.tolist()}"
    need(np.array_equal(arg, r), f"the argument was altered ({what})")
    need(g.shape == (n,), f"shape {g.shape} for {n} coefficients")
    D = np.abs(np.fft.fft(g)) ** 2
    Rn = resp(2 * np.pi * np.arange(n) / n)
    need(bool(np.all(np.abs(D - Rn) <= 1e-6 * Rn + 1e-11 * big ** 2)), f"the transform of the result does not have the squared magnitude of the response at the n frequencies ({what})")
    need(bool(np.all(np.abs(g - h) <= (1e-6 + alias) * big)), f"not the minimum-phase factor {h.tolist()} ({what})")


def c23(case):
    from ellalgo.skeleton import fib
    for n in {max(1, case["k"]), max(1, case["k"] + 1)}:
        a, b = 0, 1
        for _ in range(n):
            a, b = b, a + b
        need(fib(n) == a, f"fib({n}) = {fib(n)}, expected {a}")
    for n in (0, -1, -abs(case["k"])):
        try:
            v = fib(n)
        except AssertionError:
            continue
        need(False, f"fib({n}) = {v} instead of AssertionError")


class Watch:
    """remembers every array handed in and its content"""

    def __init__(self):
        self.l = []

    def __call__(self, a, what):
        self.l.append((a, copy.deepcopy(a), what))
        return a

    def check(self, op):
        for a, b, w in self.l:
            ok = np.array_equal(a, b) if not isinstance(a, list) else len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))
            need(ok, f"{w} changed by {op}")


def _space(rng, nr, W):
    n = rng.choice([2, 2, 3, 5])
    cls = rng.choice([Ell, EllStable])
    x0 = W(nr.standard_normal(n), "initial centre")
    val = rng.choice([10.0, 10]) if rng.random() < 0.5 else W(nr.uniform(1, 9, n), "initial diagonal")

    def mk():
        s = cls(val, x0)
        if nd:
            s.no_defer_trick = True
        return s
    nd = rng.random() < 0.4
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        g = W(nr.standard_normal(n), "gradient of the cut")
        b = rng.choice([0.0, 0.3, (0.1, 0.5), (0.0, 5.0)])
        if rng.random() < 0.3:
            b = W(np.array([0.1, 0.4]), "offsets of the cut")
        elif rng.random() < 0.2:
            b = W([0.1, 0.4], "offsets of the cut")
        k = rng.choice(["update_bias_cut", "update_central_cut", "update_q", "set_xc"])
        if k == "set_xc":
            c = W(nr.standard_normal(n), "centre given to set_xc")
            ops.append((k, lambda s, c=c: s.set_xc(c)))
        else:
            ops.append((k, lambda s, k=k, g=g, b=b: getattr(s, k)((g, b))))

    def out(s):
        return [np.array(s.xc()), s.tsq()]
    return mk, ops, out


def _profit(rng, nr, W):
    p, A, k = 20.0, 40.0, 30.5
    a, v = W(np.array([0.1, 0.4]), "elasticities"), W(np.array([10.0, 35.0]), "output prices")
    c = rng.randrange(3)
    mk = [lambda: ProfitOracle((p, A, k), a, v), lambda: ProfitRbOracle((p, A, k), a, v, (0.003, 0.007, 1.0, 1.0, 1.0)), lambda: ProfitQOracle((p, A, k), a, v)][c]
    ops = []
    for i in range(rng.choice([1, 2, 3, 4])):
        x = W(nr.uniform(-2, 5, 2), "query point")
        g = rng.choice([0.0, 10.0])
        if c < 2:
            ops.append(("assess_optim", lambda o, x=x, g=g: o.assess_optim(x, g)))
        else:
            r = i > 0 and rng.random() < 0.4
            ops.append(("assess_optim_q", lambda o, x=x, g=g, r=r: o.assess_optim_q(x, g, r)))
    return mk, ops, lambda o: []


def _lmi(rng, nr, W):
    n, m = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    F = []
    for _ in range(m):
        B = nr.standard_normal((n, n))
        F.append(W(B + B.T, "matrix F of the oracle"))
    F = W(F, "list of matrices") if rng.random() < 0.5 else F
    B = W(np.eye(n) * rng.choice([1.0, 5.0]), "matrix B of the oracle")
    c = rng.randrange(3)
    mk = [lambda: LMIOracle(F, B), lambda: LMIOldOracle(F, B), lambda: LMI0Oracle(F)][c]
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        x = W(nr.standard_normal(m), "query point")
        ops.append(("assess_feas", lambda o, x=x: o.assess_feas(x)))
    return mk, ops, lambda o: []


def _ldlt(rng, nr, W):
    n = rng.choice([1, 2, 3, 4])
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        B = nr.standard_normal((n, n))
        M = W(B + B.T + rng.choice([0, 3, 8]) * np.eye(n), "matrix given to factorize")
        C = W(np.eye(n) + B + B.T, "matrix given to sym_quad")

        fac = rng.choice(["factorize", "factor", "factor_with_allow_semidefinite"])
        if fac == "factorize":
            ops.append((fac, lambda o, M=M: o.factorize(M)))
        else:
            ops.append((fac, lambda o, M=M, f=fac: getattr(o, f)(lambda i, j: M[i, j])))
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(["sqrt", "witness", "witness", "sym_quad", "is_spd"])
            if k == "sym_quad":
                ops.append((k, lambda o, C=C: (o.is_spd() or o.witness()) and o.sym_quad(C)))
            else:
                ops.append((k, lambda o, k=k: getattr(o, k)()))
            if k == "witness":
                ops.append(("reading wit", lambda o: None if o.is_spd() else o.wit[o.pos[0]:o.pos[1]]))
    return lambda: LDLTMgr(n), ops, lambda o: []


def _low(rng, nr, W):
    n = rng.choice([2, 3, 4])
    mk = lambda: LowpassOracle(n, 0.12, 0.2, 0.9, 1.1, 0.2)
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        x = W(nr.standard_normal(n) * 0.1 + np.eye(n)[0] * rng.choice([0.0, 1.0, -1.0]), "query point")
        if rng.random() < 0.5:
            ops.append(("assess_feas", lambda o, x=x: o.assess_feas(x)))
        else:
            ops.append(("assess_optim", lambda o, x=x: o.assess_optim(x, 0.2)))
    return mk, ops, lambda o: []


def _plain(rng, nr, W):
    n = rng.choice([1, 2, 3, 5])
    B = nr.standard_normal((n, n))
    A, b = W(B @ B.T + n * np.eye(n), "system matrix"), W(nr.standard_normal(n), "right-hand side")
    x0 = W(nr.standard_normal(n), "starting point") if rng.random() < 0.6 else None
    h = W(nr.standard_normal(n), "impulse response")
    r = W(np.concatenate(([3.0 * n], nr.uniform(-1, 1, n - 1))), "autocorrelation")
    ops = [("conjugate_gradient", lambda o: conjugate_gradient(A, b, x0)), ("inverse_spectral_fact", lambda o: inverse_spectral_fact(h)),
           ("spectral_fact", lambda o: spectral_fact(r))]
    if x0 is not None and rng.random() < 0.3:
        b2 = W(A @ x0, "right-hand side")
        ops.append(("conjugate_gradient", lambda o: conjugate_gradient(A, b2, x0)))
    return lambda: None, ops, lambda o: []


def same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    return a == b or (a != a and b != b)


def attempt(f, o):
    try:
        return copy.deepcopy(f(o))
    except (ValueError, AssertionError) as ex:
        return type(ex).__name__


def c24(case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"] % (1 << 32))
    W = Watch()
    mk, ops, out = rng.choice([_space, _space, _profit, _lmi, _ldlt, _low, _plain])(rng, nr, W)
    alone = mk()
    W.check("the constructor")
    res = []
    for nm, f in ops:
        res.append((attempt(f, alone), out(alone) if alone is not None else None))
        W.check(nm)
    # the same history on another instance, with foreign activity on a third one in between, gives the same answers
    one, two = mk(), mk()
    for i, (nm, f) in enumerate(ops):
        for _ in range(rng.choice([0, 1, 2])):
            attempt(rng.choice(ops)[1], two)
        r = (attempt(f, one), out(one) if one is not None else None)
        need(same(r, res[i]), f"call {i} ({nm}) of one instance is influenced by another instance: {r} instead of {res[i]}")
        W.check(nm)


RUN = {"C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}


def run(prop, case):
    RUN[prop](case)
