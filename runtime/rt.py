"""rt.py PROP SECONDS SEED [HINTS.json]  -> one JSON line: {"cases": N, "violation": null | {"case":..., "message":...}}
rt.py --replay FILE  -> runs the stored case again (exit 1 if it fails)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *  # noqa: E402


def table(prop):
    """(module, gen, run)"""
    if prop in ("C01", "C02", "C03", "C04", "C05"):
        import ellrt as m
        return m, m.gen, m.run
    if prop == "C06":
        import ellrt as m
        return m, m.gen6, m.run6
    if prop in ("C07", "C08", "C09", "C10", "C11"):
        import cutrt as m
        return m, m.gen, m.run
    if prop in ("C12", "C13", "C14", "C15"):
        import matrt as m
        return m, m.gen, m.run
    if prop in ("C16", "C17", "C18", "C19"):
        import orart as m
        return m, m.gen, m.run
    if prop in ("C20", "C21", "C22", "C23", "C24"):
        import miscrt as m
        return m, m.gen, m.run
    raise SystemExit(f"no runtime contract for {prop}")


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        m, gen, run = table(d["property"])
        msg = run_limited(lambda c: run(d["property"], c), d["case"])
        print(msg or "the stored input satisfies the contract")
        return 1 if msg else 0
    prop, secs, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    hints = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    try:
        m, gen, run = table(prop)
    except (ImportError, SyntaxError, AttributeError) as ex:
        print(json.dumps({"cases": 0, "violation": None, "error": repr(ex)}))
        return 0
    lits = mined(m.FILES)
    rng = random.Random(seed)
    t0 = time.time()
    n, err, known = 0, {}, {}
    while time.time() - t0 < secs:
        case = gen(rng, prop, hints, lits)
        try:
            msg = run_limited(lambda c: run(prop, c), case)
        except Exception as ex:  # an unexpected exception of the real code is a failure of the contract, too
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            inrepo = any("/ellalgo/" in f.filename for f in tb)
            msg = f"unexpected {type(ex).__name__}: {ex}" if inrepo else None
            if not inrepo:
                k = f"{type(ex).__name__}: {ex} at {tb[-1].filename}:{tb[-1].lineno}"
                err[k] = err.get(k, 0) + 1
        n += 1
        if msg and msg.startswith("KNOWN:"):
            known[msg[6:]] = known.get(msg[6:], 0) + 1
            continue
        if msg:
            print(json.dumps({"cases": n, "violation": {"case": case, "message": msg}, "known": known}, default=float))
            return 0
    print(json.dumps({"cases": n, "violation": None, "errors": err, "known": known}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
