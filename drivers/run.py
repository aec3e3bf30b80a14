"""Conformance driver: exercises the real code for one property.

usage: run.py PROP WORKDIR   (run with the project's interpreter, in a scratch
directory).  Writes WORKDIR/<TraceModule>.ndjson for the specification to judge
and WORKDIR/driver.json (direct replays of specification behaviours + coverage).
"""
import importlib
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


class Ctx:
    def __init__(self, prop, work, tier, seed):
        self.prop, self.work, self.tier, self.seed = prop, work, tier, seed
        self.rng = random.Random(f"{prop}:{seed}")
        self.thorough = tier == "thorough"
        self.files = {}
        self.meta = {}
        self.n = 0
        self.direct_n = 0
        self.direct_by = {}
        self.direct_fail = []
        self.keys = set()
        self.samples = []
        self.notes = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- code -> spec
    def case(self, tmod, rec, key=None, kf=None):
        """Record one case (a dict with a non-empty list 'ev') for trace module tmod."""
        self.n += 1
        rec = dict(rec, id=self.n)
        f = self.files.get(tmod)
        if f is None:
            f = self.files[tmod] = open(os.path.join(self.work, tmod + ".ndjson"), "w")
        line = json.dumps(rec)
        f.write(line + "\n")
        self.meta[self.n] = {"tmod": tmod, "kf": kf}
        self.keys.add(key if key is not None else hash(json.dumps({k: v for k, v in rec.items() if k != "id"})))
        if len(self.samples) < 3 or (self.n % 97 == 0 and len(self.samples) < 6):
            self.samples.append(line[:600])
        return self.n

    # ---- spec -> code, and relational replays decided from specification terms
    def direct(self, ok, clause, detail, kf=None):
        self.direct_n += 1
        self.direct_by[clause] = self.direct_by.get(clause, 0) + 1
        if not ok and len(self.direct_fail) < 200:
            d = detail() if callable(detail) else detail
            self.direct_fail.append({"clause": clause, "detail": d, "kf": kf})

    def finish(self):
        for f in self.files.values():
            f.close()
        out = dict(
            cases=self.n, files=sorted(self.files), meta={str(k): v for k, v in self.meta.items()},
            distinct=len(self.keys), direct=self.direct_n, direct_by=self.direct_by,
            direct_fail=self.direct_fail, samples=self.samples, notes=self.notes,
        )
        with open(os.path.join(self.work, "driver.json"), "w") as fp:
            json.dump(out, fp, default=str)


def main():
    prop, work = sys.argv[1], sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import numpy as np

    import mud  # noqa

    where = os.path.realpath(mud.__path__[0])
    assert where == os.path.realpath(os.path.join(REPO, "src", "mud")), where
    ctx = Ctx(prop, work, tier, seed)
    np.random.seed(seed % 2**31)
    from registry import DRIVERS

    for modname, fn in DRIVERS[prop]:
        m = importlib.import_module(modname)
        try:
            getattr(m, fn)(ctx)
        except Exception:
            tb = traceback.format_exc()
            print(tb)
            ctx.direct(False, "unexpected-exception:" + fn, tb)
    ctx.finish()


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(3)
