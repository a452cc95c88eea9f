"""C07..C11: scripted oracles and search spaces around the cutting-plane drivers."""
from common import *
from ellalgo import cutting_plane as cp
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_config import CutStatus, Options

FILES = ["src/ellalgo/cutting_plane.py"]
S, N, E, U = CutStatus.Success, CutStatus.NoSoln, CutStatus.NoEffect, CutStatus.Unknown


def opts(m, t):
    o = Options()
    o.max_iters, o.tolerance = m, t
    return o


def gen(rng, prop, hints, lits):
    ints = near_ints(lits, 0, 5000)
    m = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 50, 100] * 2 + ints)
    if rng.random() < 0.03:
        m = rng.randrange(200, 2500)
    return {"seed": rng.randrange(1 << 40), "m": m, "tol": rng.choice([1e-20, 1e-8, 1e-3, 0.5, 1.0, 0.0] + [abs(x) for x in some(rng, lits, 3)]),
            "lits": [y for x in some(rng, lits) for y in rng.sample(around(x), 2)]}


class Space:
    """scripted search space that moves its centre in place and logs every use"""

    def __init__(self, rng, tol, log, stats, pstop, n=2, length=0):
        self.rng, self.tol, self.log, self.stats, self.pstop = rng, tol, log, stats, pstop
        self._xc = np.array([rng.uniform(-5, 5) for _ in range(n)])
        self._t = 1e3
        self.k = 0
        self.length = length

    def xc(self):
        return self._xc

    def set_xc(self, x):
        self._xc = x

    def tsq(self):
        return self._t

    def _upd(self, kind, cut):
        self.log.append((kind, cut))
        self.k += 1
        st = S
        r = self.rng.random()
        if r < self.pstop and self.k >= self.length:
            st = self.rng.choice(self.stats)
        if st is S:
            self._xc += np.array([self.rng.uniform(-1, 1) for _ in self._xc])
        t = self.rng.random()
        if t < self.pstop * 0.5 and self.k >= self.length:
            self._t = self.tol * self.rng.choice([0.0, 0.5, 0.999])
        elif t < 0.3:
            self._t = self.rng.choice([self.tol, self.tol * 1.0001, self.tol * 2])
        else:
            self._t = self.tol + self.rng.random() * 10 + 1e-9
        self.log.append(("st", st, self._t))
        return st

    def update_bias_cut(self, cut):
        return self._upd("bias", cut)

    def update_central_cut(self, cut):
        return self._upd("central", cut)

    def update_q(self, cut):
        return self._upd("q", cut)


def mkcut(rng):
    return (np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]), rng.choice([0.0, 0.5, (0.1, 0.3)]))


def same_cut(a, b):
    return a is b or len(a) == len(b) == 2 and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])


def untouched(o, case, m=None, tol=None):
    need(o.max_iters == (case["m"] if m is None else m) and o.tolerance == (case["tol"] if tol is None else tol), "the options were changed")


def pick(rng):
    """probability of a stop per step and a minimal length of the run"""
    return rng.choice([0.0, 0.02, 0.1, 0.3]), rng.choice([0, 0, 0, 1, 2, 3, 5, 10, 30])


def c07(case):
    rng = random.Random(case["seed"])
    log = []
    p, ln = pick(rng)
    sp = Space(rng, case["tol"], log, [N, E, U], p, length=ln)
    pf = rng.choice([0.0, 0.02, 0.2, 0.5])

    class O:
        def assess_feas(self, x):
            need(x is sp._xc or np.array_equal(x, sp._xc), "query not at the current centre")
            c = None if rng.random() < pf and sp.k >= ln else mkcut(rng)
            log.append(("ask", x.copy(), c))
            return c
    op = opts(case["m"], case["tol"])
    x, it = cp.cutting_plane_feas(O(), sp, op)
    untouched(op, case)
    done, last, i, stop = 0, None, 0, None
    while i < len(log):
        need(stop is None, f"activity after the stopping condition {stop}")
        e = log[i]
        need(e[0] == "ask", f"step {done}: expected a query, got {e[0]}")
        last = e
        if e[2] is None:
            stop = "accepted"
            i += 1
            continue
        need(i + 1 < len(log) and log[i + 1][0] == "bias", "a returned cut was not applied as a bias cut")
        need(same_cut(log[i + 1][1], e[2]), "the cut applied is not the cut returned")
        st, t = log[i + 2][1:]
        i += 3
        if st is not S or t < case["tol"]:
            stop = "rejected or narrow"
        else:
            done += 1
            if done == case["m"]:
                stop = "max_iters"
    if case["m"] == 0:
        need(not log, "activity with max_iters = 0")
        stop = stop or "max_iters"
    need(stop is not None, "stopped without a stopping condition")
    if stop == "accepted":
        need(x is not None, "accepted point not returned")
        need(np.array_equal(x, last[1]), "returned point is not the accepted one")
    else:
        need(x is None, f"a point was returned although the search ended with: {stop}")
    need(it == done, f"count {it}, but {done} cuts were completed")


def vals(rng, case):
    return rng.choice([0.0, -0.0, 0, 1.0, -1.0, -3.5, 1e-12, -1e-9, rng.uniform(-10, 10), rng.uniform(-10, 10)] + case["lits"])


def c08(case):
    rng = random.Random(case["seed"])
    log = []
    p, ln = pick(rng)
    sp = Space(rng, case["tol"], log, [N, E, U], p, length=ln)
    pi = rng.choice([0.0, 0.1, 0.5, 0.9])

    class O:
        def assess_optim(self, x, g):
            need(np.array_equal(x, sp._xc), "query not at the current centre")
            v = vals(rng, case) if rng.random() < pi else None
            c = mkcut(rng)
            log.append(("ask", x.copy(), g, c, v))
            return c, v
    g0 = vals(rng, case)
    op = opts(case["m"], case["tol"])
    x, g, it = cp.cutting_plane_optim(O(), sp, g0, op)
    untouched(op, case)
    done, i, stop, best, xb = 0, 0, None, g0, None
    while i < len(log):
        need(stop is None, f"activity after the stopping condition {stop}")
        e = log[i]
        need(e[0] == "ask", f"expected a query, got {e[0]}")
        need(e[2] == best and (e[2] is not None), f"asked with {e[2]}, the best value is {best}")
        if e[4] is not None:
            best, xb = e[4], e[1]
        want = "bias" if e[4] is None else "central"
        need(i + 1 < len(log) and log[i + 1][0] == want, f"expected a {want} cut after the answer {e[4]}")
        need(same_cut(log[i + 1][1], e[3]), "the cut applied is not the cut returned")
        st, t = log[i + 2][1:]
        i += 3
        if st is not S or t < case["tol"]:
            stop = "rejected or narrow"
        else:
            done += 1
            if done == case["m"]:
                stop = "max_iters"
    if case["m"] == 0:
        need(not log, "activity with max_iters = 0")
        stop = "max_iters"
    need(stop is not None, "stopped without a stopping condition")
    need(g == best, f"returned value {g}, last improved value {best}")
    if xb is None:
        need(x is None, "a point without an improvement")
    else:
        need(x is not None and np.array_equal(x, xb), "returned point is not the one of the returned value")
    need(it == done, f"count {it}, but {done} cuts were completed")


def c09(case):
    rng = random.Random(case["seed"])
    log = []
    p, ln = pick(rng)
    if rng.random() < 0.5:
        p = rng.choice([0.3, 0.6])
    sp = Space(rng, case["tol"], log, rng.choice([[N, E], [E], [E, E, E, N]]), p, length=ln)
    pi, pa = rng.choice([0.0, 0.1, 0.5, 0.9]), rng.choice([0.0, 0.5, 0.9, 1.0])
    style = rng.randrange(3)
    buf = np.zeros(2)

    class O:
        def assess_optim_q(self, x, g, retry):
            need(np.array_equal(x, sp._xc), "query not at the current centre")
            v = vals(rng, case) if rng.random() < pi else None
            c = mkcut(rng)
            xq = np.round(x)
            if style == 1:
                xq = x
            elif style == 2:
                buf[:] = xq
                xq = buf
            alt = rng.random() < pa
            log.append(("ask", x.copy(), g, c, v, xq.copy(), alt, bool(retry)))
            return c, xq, v, alt
    g0 = vals(rng, case)
    op = opts(case["m"], case["tol"])
    x, g, it = cp.cutting_plane_optim_q(O(), sp, g0, op)
    untouched(op, case)
    i, stop, best, xb, retry, nq = 0, None, g0, None, False, 0
    while i < len(log):
        need(stop is None, f"activity after the stopping condition {stop}")
        e = log[i]
        need(e[0] == "ask", f"expected a query, got {e[0]}")
        need(e[2] == best, f"asked with {e[2]}, the best value is {best}")
        need(e[7] == retry, f"query {nq}: retry flag {e[7]}, expected {retry}")
        if e[4] is not None:
            best, xb = e[4], e[5]
        need(i + 1 < len(log) and log[i + 1][0] == "q", "the cut was not applied as a q-cut")
        need(same_cut(log[i + 1][1], e[3]), "the cut applied is not the cut returned")
        st, t = log[i + 2][1:]
        i += 3
        if st is S:
            retry = False
        elif st is N:
            stop = "NoSoln"
        elif st is E:
            if e[6]:
                retry = True
            else:
                stop = "NoEffect without alternatives"
        if stop is None and t < case["tol"]:
            stop = "narrow"
        if stop is None:
            nq += 1
            if nq == case["m"]:
                stop = "max_iters"
    if case["m"] == 0:
        need(not log, "activity with max_iters = 0")
        stop = "max_iters"
    need(stop is not None, "stopped without a stopping condition")
    need(g == best, f"returned value {g}, last improved value {best}")
    if xb is None:
        need(x is None, "a point without an improvement")
    else:
        need(x is not None and np.array_equal(x, xb), "returned point is not the evaluation point of the returned value")
    need(it == nq, f"count {it}, but {nq} queries were completed")


def c10(case):
    rng = random.Random(case["seed"])
    isint = rng.random() < 0.4
    if isint:
        a = rng.choice([0, 0, 1, rng.randrange(0, 1000), rng.randrange(-1000, 1000)])
        b = a + rng.choice([0, 1, 2, 3, 10, rng.randrange(0, 100000)])
        tol = rng.choice([1, 1, 2, 0.75, 5, 0.4, 1e-20])
    else:
        a = rng.choice([0.0, -1.0, rng.uniform(-100, 100), 1e-3] + case["lits"])
        b = a + rng.choice([0.0, 1.0, 100.0, 1e-9, rng.uniform(0, 1000), 1e6])
        tol = rng.choice([1e-3, 1e-8, 0.5, 1.0, 1e-6, 10.0])
        if rng.random() < 0.2:  # an integer lower end with a float upper end
            a, b = int(a), float(int(a) + abs(b - a))
        elif rng.random() < 0.1:
            a, b = np.float64(a), np.float64(b)
    m = min(case["m"], 300)
    mono = rng.random() < 0.7
    w = b - a
    th = rng.choice([a - 1, b + 1, a, b, a + w * rng.random(), a + w * rng.random(), a + w * 2.0 ** -rng.randrange(1, 20)])
    log = []

    class O:
        def assess_bs(self, g):
            r = bool(g >= th) if mono else rng.random() < 0.5
            log.append((g, r))
            return r
    op = opts(m, tol)
    res, it = cp.bsearch(O(), (a, b), op)
    untouched(op, case, m, tol)
    lo, up = a, b
    for k, (g, r) in enumerate(log):
        need(lo <= g <= up, f"query {k} at {g} outside the bracket [{lo}, {up}]")
        if isint:
            need(abs(2 * g - (lo + up)) <= 1, f"query {k} at {g} is not in the middle of [{lo}, {up}]")
        if not isint:
            need(abs(g - (lo + up) / 2) <= 1e-12 * max(abs(lo), abs(up), 1e-300), f"query {k} at {g} does not halve [{lo}, {up}]")
        need((up - lo) / 2 >= tol, f"query {k} although half the bracket {(up - lo) / 2} is below the tolerance {tol}")
        if r:
            up = g
        else:
            lo = g
    need(res == up, f"result {res}, upper end of the bracket {up}")
    need(type(res) is type(b), "type of the result")
    need(it == len(log), f"count {it}, but {len(log)} queries")
    need(it <= m, "more queries than max_iters")
    need(it == m or (up - lo) / 2 < tol, f"stopped at the bracket [{lo}, {up}] after {it} of {m} queries with tolerance {tol}")
    if mono and not isint and a < th <= b:
        need(th <= res <= th + max(2 * tol, w * 2.0 ** -m) * (1 + 1e-9) + 1e-12 * max(abs(a), abs(b)), f"result {res} for the threshold {th}")


class Probe:
    """feasible iff |x - p| <= sqrt(gamma) (cuts by the linearised distance)"""

    def __init__(self, p, log, stub):
        self.p, self.g, self.log, self.stub = p, None, log, stub

    def update(self, gamma):
        self.log.append(("update", gamma))
        self.g = gamma

    def assess_feas(self, x):
        self.log.append(("ask", np.array(x, float).copy(), self.g))
        d = x - self.p
        f = float(d.dot(d)) - self.g
        if f <= 0:
            return None
        if self.stub:
            self.log[-1] += (1,)
        return 2 * d if np.any(d) else np.ones(len(d)), f


def state(s):
    return copy.deepcopy({k: v for k, v in s.__dict__.items() if k != "helper"})


def same_state(a, b, skip=()):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a if k not in skip)


def c11(case):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"] % (1 << 32))
    n = rng.choice([2, 2, 3, 4])
    cls = rng.choice([Ell, EllStable])
    sp = cls(rng.choice([10.0, 100.0, 1.0]) if rng.random() < 0.6 else nr.uniform(1, 50, n), nr.uniform(-1, 1, n))
    if rng.random() < 0.3:
        sp.no_defer_trick = True
    for _ in range(rng.choice([0, 0, 1, 3])):
        sp.update_central_cut((nr.standard_normal(n), 0.0))
    log = []
    om = Probe(nr.uniform(-3, 3, n), log, False)
    o = opts(rng.choice([0, 1, 2, 5, 20, 60]), rng.choice([1e-20, 1e-6, 1e-2]))
    ad = cp.BSearchAdaptor(om, sp, o)
    for k in range(rng.choice([1, 2, 4, 6])):
        g = rng.choice([0.01, 0.25, 1.0, 4.0, 25.0, -1.0, 0.0, rng.uniform(0, 9)])
        s0 = state(sp)
        ref = Probe(om.p, [], False)
        ref.g = g
        rx, _ = cp.cutting_plane_feas(ref, copy.deepcopy(sp), o)
        log.clear()
        om0, ot0 = o.max_iters, o.tolerance
        r = ad.assess_bs(g)
        need((o.max_iters, o.tolerance) == (om0, ot0), "the options were changed")
        need(log and log[0] == ("update", g), f"probe {k}: the oracle was not set to {g} first")
        need(all(e[0] == "ask" for e in log[1:]), f"probe {k}: updated again while solving")
        need(len(log) - 1 <= o.max_iters, f"probe {k}: more queries than max_iters")
        if len(log) > 1:
            need(np.array_equal(log[1][1], s0["_xc"]), f"probe {k}: the search did not start at the centre of the main space")
        s1 = state(sp)
        acc = bool(len(log) > 1 and float((log[-1][1] - om.p).dot(log[-1][1] - om.p)) - g <= 0)
        need(r is True or r is False, "answer is not a bool")
        need(r == acc, f"probe {k}: answer {r}, feasible point found: {acc}")
        need(r == (rx is not None), f"probe {k}: answer {r}, the feasibility solver on a copy: {rx is not None}")
        if not r:
            need(same_state(s0, s1), f"probe {k}: main space changed by a failed probe")
        else:
            need(same_state(s0, s1, ("_xc",)), f"probe {k}: the ellipsoid of the main space changed")
            need(np.array_equal(s1["_xc"], log[-1][1]), f"probe {k}: the new centre is not the point found")
            need(np.array_equal(ad.x_best, s1["_xc"]), "x_best")


RUN = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}


def run(prop, case):
    RUN[prop](case)
