"""Host side of every check: runs TLC, the conformance driver, and reports."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


class Machinery(Exception):
    """The check itself is broken (never a verdict about the code)."""


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def run_tlc(module, cfg, work, env=None, workers=4, timeout=800, heap="3g"):
    """Run TLC; returns dict(ok, out, states, distinct, lines)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = [
        "java", f"-Djava.io.tmpdir={work}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
        "-config", cfg, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
        "-fpmem", "0.1", module,
    ]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module} {cfg}")
    out = p.stdout
    gen = dist = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        gen, dist = int(m.group(1)), int(m.group(2))
    ok = "Model checking completed. No error has been found." in out
    return dict(ok=ok, out=out, generated=gen or 0, distinct=dist or 0,
                wall=time.time() - t0, module=module, cfg=os.path.basename(cfg), rc=p.returncode)


# Trace modules print one of these per finding
#   <<"FAIL", caseid, step, {"clause", ...}>>      <<"SKIP", caseid, step>>
FAIL_RE = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
SKIP_RE = re.compile(r'<<\s*"SKIP",\s*(\d+),\s*(\d+)\s*>>')


def run_trace(tmod, ndjson, work, workers=4, timeout=800):
    """Validate recorded cases against trace module `tmod`.

    Returns (fails, skips, stats); fails: list of (case id, step, [clauses])."""
    with open(ndjson) as fp:
        lines = [line for line in fp if line.strip()]
    fails, skips, st = [], 0, dict(generated=0, distinct=0, cases=0, steps=0, wall=0.0)
    todo = [lines] if lines else []
    end = time.time() + timeout
    while todo:
        part = todo.pop()
        f, k, s, err = _trace_part(tmod, part, ndjson, work, workers, max(30, end - time.time()))
        if err is None:
            fails += f
            skips += k
            st = {n: st[n] + s[n] for n in st}
        elif len(part) > 1:  # find the case it cannot evaluate
            todo += [part[len(part) // 2:], part[:len(part) // 2]]
        else:
            # the code returned something for which the specification has no meaning (entries missing, say)
            case = json.loads(part[0])
            fails.append((case["id"], 1, ["not-evaluable"]))
            st["distinct"] += 1
            st["cases"] += len(lines) - st["cases"]
            break
    return fails, skips, st


# an expression met a value it is not defined for (no parse error, no lack of memory or time)
EVAL_RE = re.compile(r"The error occurred when TLC was evaluating|Attempted to |In evaluation, the identifier|The first argument of")


def _trace_part(tmod, lines, ndjson, work, workers, timeout):
    cases = [json.loads(x) for x in lines]
    path = ndjson
    with open(ndjson) as fp:
        whole = sum(1 for x in fp if x.strip()) == len(lines)
    if not whole:
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work)
        with os.fdopen(fd, "w") as fp:
            fp.writelines(lines)
    r = run_tlc(tmod + ".tla", "Trace.cfg", work, env={"TRACE": path}, workers=workers, timeout=timeout)
    want = sum(1 + len(c["ev"]) for c in cases)
    if not r["ok"] or r["distinct"] != want:
        if EVAL_RE.search(r["out"]) and not re.search(r"OutOfMemory|StackOverflow|Parse Error|Could not parse|Semantic errors|Unknown operator", r["out"]):
            return None, None, None, r["out"]
        tail = "\n".join(r["out"].splitlines()[-60:])
        raise Machinery(f"trace validation of {tmod} did not complete "
                        f"(states {r['distinct']}, expected {want}):\n{tail}")
    fails = []
    for m in FAIL_RE.finditer(r["out"]):
        cl = re.findall(r'"([^"]*)"', m.group(3))
        fails.append((int(m.group(1)), int(m.group(2)), cl))
    nskip = len(set(SKIP_RE.findall(r["out"])))
    return fails, nskip, dict(generated=r["generated"], distinct=r["distinct"],
                              cases=len(cases), steps=want - len(cases), wall=r["wall"]), None


def run_driver(prop, work, args=(), timeout=800):
    scratch = tempfile.mkdtemp(prefix="cwd-", dir=work)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "MPL"))}
    e.update(
        PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
        MPLCONFIGDIR=scratch, HOME=scratch, VERIF_REPO=REPO,
        VERIF_TIER=tier(), VERIF_SEED=str(seed()), TMPDIR=scratch,
    )
    log = os.path.join(work, "driver.log")
    with open(log, "w") as lf:
        try:
            p = subprocess.run(
                [PY, os.path.join(VERIF, "drivers", "run.py"), prop, work, *args],
                cwd=scratch, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f"driver for {prop} timed out; see {log}")
    if p.returncode != 0:
        with open(log) as fp:
            tail = "".join(fp.readlines()[-30:])
        raise Machinery(f"driver for {prop} ended with {p.returncode}:\n{tail}")
    with open(os.path.join(work, "driver.json")) as fp:
        return json.load(fp)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        return json.load(fp)["findings"]


class Bg(threading.Thread):
    def __init__(self, fn, *a, **k):
        super().__init__(daemon=True)
        self.fn, self.a, self.k = fn, a, k
        self.res = self.err = None
        self.start()

    def run(self):
        try:
            self.res = self.fn(*self.a, **self.k)
        except BaseException as e:  # noqa
            self.err = e

    def get(self):
        self.join()
        if self.err:
            raise self.err
        return self.res


def report_dir(prop):
    d = os.path.join(VERIF, "out", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d
