"""C16..C19: profit oracles and the low-pass oracle against their definitions."""
import itertools

from common import *
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle

FILES = ["src/ellalgo/oracles/profit_oracle.py", "src/ellalgo/oracles/lowpass_oracle.py"]


def gen(rng, prop, hints, lits):
    return {"seed": rng.randrange(1 << 40), "lits": [y for x in some(rng, lits) for y in rng.sample(around(x), 2)],
            "hint": {k: v for k, v in hints.items() if isinstance(v, float) and abs(v) < 1e6}}


class Prob:
    def __init__(self, p, A, k, a, v):
        self.lpA, self.lk, self.a, self.v = math.log(p * A), math.log(k), np.array(a, float), np.array(v, float)

    def cobb(self, x):
        return self.lpA + float(self.a @ x)

    def cost(self, x):
        return float(self.v @ np.exp(x))

    def profit(self, x):
        return math.exp(self.cobb(x)) - self.cost(x)

    def scale(self, x):
        return math.exp(self.cobb(x)) + self.cost(x)

    def F(self, x, g):
        return math.log(g + self.cost(x)) - self.cobb(x)

    def viol(self, x, g):
        """> 0: not (within the limit with profit at least g)"""
        return max(float(x[0]) - self.lk, self.F(x, g))

    def good(self, x, g, slack=0.0):
        return self.viol(x, g) <= -slack


def params(rng):
    if rng.random() < 0.3:
        p, A, k, a, v = 20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0]
    else:
        p, A, k = rng.uniform(1, 50), rng.uniform(1, 50), rng.uniform(0.5, 60)
        a = [rng.uniform(0.05, 0.6), rng.uniform(0.05, 0.4)]
        v = [rng.uniform(0.5, 40), rng.uniform(0.5, 40)]
    return p, A, k, a, v


def points(rng, P, g, centre):
    """good points close to the boundary and around centre"""
    out = []
    best = None
    for _ in range(30):
        y = np.array([rng.uniform(-4, P.lk), rng.uniform(-4, 5)]) if rng.random() < 0.5 else centre + np.array([rng.gauss(0, 1), rng.gauss(0, 1)]) * rng.choice([0.01, 0.1, 1.0])
        if P.good(y, g):
            out.append(y)
            if best is None:
                best = y
    res = list(out)
    for y in out[:6]:
        lo, hi = 0.0, 1.0  # boundary between centre (possibly bad) and y
        if P.good(centre, g):
            continue
        for _ in range(50):
            t = (lo + hi) / 2
            if P.good(centre + t * (y - centre), g):
                hi = t
            else:
                lo = t
        res.append(centre + hi * (y - centre))
    return res


def start(rng, P, g):
    """a query point: anywhere, near the boundary on either side"""
    for _ in range(20):
        y = np.array([rng.uniform(-3, P.lk), rng.uniform(-3, 5)])
        if P.good(y, g):
            break
    else:
        return np.array([rng.uniform(-3, 5), rng.uniform(-3, 5)])
    k = rng.randrange(6)
    if k == 0:
        return y
    if k == 1:
        return np.array([rng.uniform(-3, 6), rng.uniform(-3, 6)])
    z = y + np.array([rng.gauss(0, 1), rng.gauss(0, 1)]) * 8
    lo, hi = 0.0, 1.0
    for _ in range(40):
        t = (lo + hi) / 2
        if P.good(y + t * (z - y), g):
            lo = t
        else:
            hi = t
    d = (z - y) / np.linalg.norm(z - y)
    b = y + hi * (z - y)
    x = b + d * rng.choice([1e-3, 1e-2, 0.1, 0.5, 1.0, -1e-3, -0.05])
    if k == 5:
        x = np.round(x)
        if rng.random() < 0.5:
            x[rng.randrange(2)] = 0.0
    return x


def gammas(rng, P, x, case):
    v = P.profit(x)
    c = [0.0, 0.0, 1.0, rng.uniform(0, 200), max(0.0, v), max(0.0, v * 0.99), max(0.0, v * 1.01), max(0.0, v - 1e-3)] + [abs(t) for t in case["lits"]]
    return rng.choice(c)


def check_cut(rng, P, x, bar, g, b, ref, what):
    """every good point satisfies g.(y - ref) + b <= 0"""
    for y in points(rng, P, bar, x):
        if P.viol(y, bar) > -1e-12:
            continue
        s = float(g @ (y - ref)) + b
        tol = 1e-9 * (1 + abs(b) + float(np.abs(g) @ np.abs(y - ref)))
        need(s <= tol, f"{what}: point {y.tolist()} with profit {P.profit(y)} >= {bar} is cut off at {x.tolist()} by ({g.tolist()}, {b}): {s}")


def answer(rng, P, x, gm, cut, new, what="cut"):
    g, b = np.asarray(cut[0], float), float(cut[1])
    vi = P.viol(x, gm)
    if abs(vi) > 1e-9 * (1 + abs(gm) / P.scale(x)):
        need((new is not None) == (vi <= 0), f"improving answer {new} at {x.tolist()}, gamma = {gm}, log_k = {P.lk}, profit = {P.profit(x)}")
    if new is not None:
        need(abs(float(new) - P.profit(x)) <= 1e-8 * P.scale(x), f"value {new}, profit {P.profit(x)} at {x.tolist()}")
        need(float(new) >= gm - 1e-8 * P.scale(x), f"value {new} below gamma {gm}")
        check_cut(rng, P, x, float(new), g, b, x, what)
    else:
        check_cut(rng, P, x, gm, g, b, x, what)


def same_cut(a, b):
    return (a is None) == (b is None) and (a is None or close(a[0], b[0]) and close(a[1], b[1]))


def c16(case):
    rng = random.Random(case["seed"])
    p, A, k, a, v = params(rng)
    P = Prob(p, A, k, a, v)
    mk = lambda: ProfitOracle((p, A, k), np.array(a), np.array(v))
    o, other, feed, x = mk(), mk(), Feed(rng), None
    for _ in range(rng.choice([1, 2, 3, 5])):
        if x is None or rng.random() < 0.8:
            x = start(rng, P, rng.choice([0.0, 50.0, 200.0]))
        gm = gammas(rng, P, x, case)
        if rng.random() < 0.2:
            other.assess_optim(start(rng, P, 0.0), gm)
        if rng.random() < 0.3:
            c = o.assess_feas(feed(x), gm)
            vi = P.viol(x, gm)
            if abs(vi) > 1e-9:
                need((c is None) == (vi <= 0), f"assess_feas gives {c} at {x.tolist()}, gamma = {gm}, violation {vi}")
            if c is not None:
                check_cut(rng, P, x, gm, np.asarray(c[0]), float(c[1]), x, "feasibility cut")
            continue
        xx = feed(x)
        cut, new = o.assess_optim(xx, gm)
        need(np.array_equal(xx, x), "query point changed")
        answer(rng, P, x, gm, cut, new)
        if abs(P.viol(x, gm)) > 1e-9:
            alts = []
            for h in range(2):
                f = mk()
                if h:
                    f.assess_feas(np.array([P.lk + 1.0, 0.0]), 0.0)
                alts.append(f.assess_optim(x.copy(), gm))
            need(any(same_cut(cut, t[0]) and (new is None) == (t[1] is None) for t in alts), f"answer depends on earlier queries: {cut}, fresh oracles: {alts}")


def c17(case):
    rng = random.Random(case["seed"])
    p, A, k, a, v = params(rng)
    e = [rng.choice([0.0, rng.uniform(0, 0.05)]), rng.choice([0.0, rng.uniform(0, 0.05)]), rng.choice([0.0, rng.uniform(0, 0.3) * p]),
         rng.choice([0.0, rng.uniform(0, 0.3) * k]), rng.choice([0.0, rng.uniform(0, 3.0)])]
    aa, vv = np.array(a), np.array(v)
    o = ProfitRbOracle((p, A, k), aa, vv, tuple(e))
    corners = [Prob(p + s3 * e[2], A, k - e[3], [a[0] + s1 * e[0], a[1] + s2 * e[1]], [v[0] + s4 * e[4], v[1] + s5 * e[4]])
               for s1, s2, s3, s4, s5 in itertools.product((-1, 1), repeat=5) if min(v[0] + s4 * e[4], v[1] + s5 * e[4]) > 0]

    class Worst(Prob):
        def cobb(self, x):
            return self.lpA + float(self.a @ x) - e[0] * abs(float(x[0])) - e[1] * abs(float(x[1]))
    W = Worst(p - e[2], A, k - e[3], a, [v[0] + e[4], v[1] + e[4]])
    feed = Feed(rng)
    for _ in range(rng.choice([1, 2, 3])):
        x = start(rng, W, rng.choice([0.0, 50.0]))
        if rng.random() < 0.3:
            x[rng.randrange(2)] *= -1
        if rng.random() < 0.1:
            x[rng.randrange(2)] = 0.0
        if rng.random() < 0.2:  # next to the change of sign
            x[rng.randrange(2)] = rng.choice([-1, 1]) * rng.random() * abs(rng.choice(case["lits"] + [1e-3, 1e-6]))
        gm = gammas(rng, W, x, case)
        xx = feed(x)
        cut, new = o.assess_optim(xx, gm)
        need(np.array_equal(xx, x), "query point changed")
        answer(rng, W, x, gm, cut, new, "robust cut")
        if new is not None:
            low = min(c.profit(x) for c in corners)
            need(abs(float(new) - low) <= 1e-8 * W.scale(x) + 1e-8 * abs(low), f"value {new}, minimum over the corners of the box {low}")
        need(np.array_equal(aa, a) and np.array_equal(vv, v), "nominal parameters altered")


def c18(case):
    rng = random.Random(case["seed"])
    p, A, k, a, v = params(rng)
    P = Prob(p, A, k, a, v)
    o = ProfitQOracle((p, A, k), np.array(a), np.array(v))
    xd, known, feed = None, False, Feed(rng)
    for t in range(rng.choice([1, 2, 3, 5])):
        x = start(rng, P, rng.choice([0.0, 20.0]))
        if rng.random() < 0.15:  # near rounding and zero
            x = np.log(np.array([rng.choice([0.2, 0.49, 0.51, 1.49, 2.5, rng.uniform(0.1, 20)]), rng.choice([0.3, 1.51, 3.5, rng.uniform(0.1, 20)])]))
        gm = gammas(rng, P, x, case)
        retry = xd is not None and rng.random() < 0.4
        xx = feed(x)
        cut, xq, new, alt = o.assess_optim_q(xx, gm, retry)
        need(np.array_equal(xx, x), "query point changed")
        xq = np.array(xq, float)
        need(bool(alt) == (not retry), f"alternatives {alt} on retry = {retry}")
        g, b = np.asarray(cut[0], float), float(cut[1])
        vi = P.viol(x, gm)
        if not retry and abs(vi) <= 1e-9:
            return
        if not retry and vi > 0:
            need(np.array_equal(xq, x), "relaxed-infeasible centre not returned")
            need(new is None, "value for a relaxed-infeasible centre")
            check_cut(rng, P, x, gm, g, b, x, "relaxed cut")
            continue
        if not retry:
            y = np.round(np.exp(x))
            if np.any(np.abs(np.exp(x) - np.floor(np.exp(x)) - 0.5) < 1e-9):
                return
            y[y == 0] = 1.0
            xd = np.log(y)
        need(close(xq, xd, 1e-9, 1e-9), f"evaluated {xq.tolist()}, expected {xd.tolist()} at {x.tolist()}, retry = {retry}")
        vd = P.viol(xd, gm)
        if abs(vd) > 1e-9:
            need((new is not None) == (vd <= 0), f"value {new} at {xd.tolist()} with violation {vd}")
        bar = gm
        if new is not None:
            need(abs(float(new) - P.profit(xd)) <= 1e-8 * P.scale(xd), f"value {new}, profit {P.profit(xd)} at {xd.tolist()}")
            bar = float(new)
        try:
            check_cut(rng, P, xd, bar, g, b, x, "discrete cut")
        except Bad as ex:
            sh = float(g @ (xd - x))
            try:  # the recorded defect: the offset is shifted by g.(xd - xc) instead of g.(xc - xd)
                for _ in range(3):
                    check_cut(rng, P, xd, bar, g, b - sh, xd, "discrete cut")
                raw = b - sh
                need(new is None or abs(raw) <= 1e-9 * (1 + abs(sh)), "offset of an improving answer")
                if new is None:
                    need(min(abs(raw - (xd[0] - P.lk)), abs(raw - P.F(xd, gm))) <= 1e-8 * (1 + abs(raw)), "offset")
            except Bad:
                raise ex
            known = True
    if known:
        raise Bad("KNOWN:offset shifted the wrong way")


def c19(case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"] % (1 << 32))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
    m = 15 * n
    wp = rng.choice([0.0, 0.12, rng.uniform(0, 0.5)])
    ws = rng.choice([wp, 0.2, rng.uniform(wp, 0.98), 0.95])
    ws = max(ws, wp)
    odd = n > 1 and rng.random() < 0.08  # a passband open below: only then is r[0] >= 0 not implied by the samples
    if odd:
        wp = rng.uniform(0.55, 0.9)
        ws = rng.choice([wp, rng.uniform(wp, 0.95)])
    w = np.linspace(0, math.pi, m)
    Sp = np.hstack([np.ones((m, 1))] + [2 * np.cos(w * k)[:, None] for k in range(1, n)])
    npass, nstop = math.floor(wp * (m - 1)) + 1, math.floor(ws * (m - 1)) + 1
    h = nr.standard_normal(n) * rng.choice([1.0, 0.3])
    r = np.array([sum(h[i] * h[i + t] for i in range(n - t)) for t in range(n)])  # nonnegative spectrum
    R = Sp @ r
    pad = rng.choice([0.0, 0.0, 1e-3, 0.1])
    sc = float(np.max(np.abs(R))) + 1e-12
    lp, up = float(R[:npass].min()) - pad * sc - 1e-9 * sc, float(R[:npass].max()) + pad * sc + 1e-9 * sc
    sp = float(R[nstop:].max()) + pad * sc + 1e-9 * sc
    if odd:
        lp, sp = lp - 10.0 * n, sp + 10.0 * n
    o = LowpassOracle(n, wp, ws, lp, up, sp)

    def bad(x, sp):
        """largest violation of any specification (relative)"""
        V = Sp @ x
        t = [(lp - V[:npass]).max(), (V[:npass] - up).max(), (-V[nstop:]).max(), (V[nstop:] - sp).max(), -x[0]]
        if nstop > npass:
            t.append((-V[npass:nstop]).max())
        return float(max(t)) / sc
    goods, feed = [r], Feed(rng)
    for _ in range(rng.choice([1, 2, 4, 7])):
        k = rng.randrange(6)
        if k == 0:
            x = r.copy()
        elif k == 1:  # violate few samples only
            x = r + 1e-4 * nr.standard_normal(n)
        elif k == 2:
            x = nr.standard_normal(n)
            if odd:
                x = 0.01 * x
                x[:2] = -rng.choice([0.05, 0.2]), -1.0
        elif k == 3:
            x = r * rng.choice([0.5, 0.9, 1.1, 0.99, -1.0])
        elif k == 4:  # push one sample over the edge
            i = rng.choice([0, npass - 1, npass, nstop - 1, nstop, m - 1, rng.randrange(m)])
            i = min(i, m - 1)
            x = r + rng.choice([1, -1]) * rng.choice([1e-6, 1e-3, 0.1, 0.5]) * sc * Sp[i] / float(Sp[i] @ Sp[i])
        else:
            x = r + 0.3 * nr.standard_normal(n)
        opt = rng.random() < 0.5
        s = rng.choice([sp, sp, sp * 0.9, sp * 1.5]) if opt else getattr(o, "sp_sq", sp)
        xx = feed(x)
        if opt:
            cut, new = o.assess_optim(xx, s)
            acc = new is not None
        else:
            cut = o.assess_feas(xx)
            new, acc = None, cut is None
        need(np.array_equal(xx, x), "query point changed")
        v = bad(x, s)
        if abs(v) > 1e-10:
            need(acc == (v <= 0), f"accepted = {acc}, largest violation {v} (n={n}, wpass={wp}, wstop={ws}, x={x.tolist()})")
        ref = s
        if opt and acc:
            V = Sp @ x
            need(abs(float(new) - float(V[nstop:].max())) <= 1e-9 * sc, f"value {new}, largest stopband response {V[nstop:].max()}")
            need(float(new) <= s + 1e-9 * sc, f"value {new} above gamma {s}")
            ref = float(new)
            i = int(np.argmax(V[nstop:])) + nstop
            need(cut is not None, "no cut with an improving answer")
        if cut is None:
            continue
        g, b = np.asarray(cut[0], float), cut[1]
        b = [float(t) for t in b] if isinstance(b, (tuple, list, np.ndarray)) else [float(b)]
        ys = [y for y in goods + [x * 0.999999 + 1e-6 * r, r * 0.99, r * 1.01, (x + r) / 2] if bad(y, ref) <= 0]
        # points with the same shape but a smaller stopband
        for _ in range(4):
            y = r + 0.01 * nr.standard_normal(n)
            if bad(y, ref) <= 0:
                ys.append(y)
        for y in ys:
            t = float(g @ (y - x))
            tol = 1e-8 * (sc + float(np.abs(g) @ np.abs(x)))
            need(t + b[0] <= tol, f"an r meeting every specification is cut off: {t + b[0]} (n={n}, x={x.tolist()})")
            if len(b) > 1:
                need(t + b[1] >= -tol, f"the second side of the cut excludes an r meeting every specification: {t + b[1]} (n={n})")


RUN = {"C16": c16, "C17": c17, "C18": c18, "C19": c19}


def run(prop, case):
    RUN[prop](case)
