#!/usr/bin/env python3
"""Development aid: mutation campaign over /repo/src/mud (examples aside).

mutate.py OUT.jsonl [--n 300] [--seed 1] [--jobs 4] [--files base.py,util.py]

Every mutant is one small syntactic change.  The checks of the properties anchored in the
function it touches run first, then the rest; survivors run the stable tests.  Scratch copies only.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--n", type=int, default=300)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--files", default="base.py,util.py,funs.py,norm.py,plot.py,preprocessing.py")
ap.add_argument("--list", action="store_true")
A = ap.parse_args()

WHERE = {"DensityProblem": "C01 C02 C03 C17 C04", "BayesProblem": "C05 C17 C04", "LinearGaussianProblem": "C06 C07 C08 C17 C04",
         "LinearWMEProblem": "C09", "IterativeLinearProblem": "C10 C17", "SpatioTemporalProblem": "C11 C12 C13 C14 C17 C04",
         "funs.py": "C06 C07 C09 C10 C15", "norm.py": "C08", "plot.py": "C17 C16 C02", "preprocessing.py": "C18 C13",
         "util.py": "C16 C19 C03 C11 C22"}
ALL = ["C%02d" % i for i in range(1, 23)]


class Finder(ast.NodeVisitor):
    def __init__(self, fname, src):
        self.f, self.src, self.out, self.stack = fname, src, [], []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.pos(n)
        self.out.append(dict(file=self.f, a=a, b=b, new=new, what=what, line=n.lineno, where=".".join(self.stack)))

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.stmt(s)
            self.visit(s)
        self.stack.pop()

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert)):
            self.add(s, "pass", "drop: " + self.text(s).split("\n")[0][:60])
        for body in ("body", "orelse"):
            for t in getattr(s, body, []) or []:
                if isinstance(t, ast.stmt) and not isinstance(s, ast.FunctionDef):
                    self.stmt(t)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            sw = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
                  ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for o in sw.get(type(n.ops[0]), []):
                self.add(n, f"({l} {o} {r})", f"{type(n.ops[0]).__name__} -> {o}")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*", ast.Mod: "*"}
        o = sw.get(type(n.op))
        if o and not isinstance(n.left, ast.JoinedStr):
            self.add(n, f"({self.text(n.left)} {o} {self.text(n.right)})", f"{type(n.op).__name__} -> {o}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join("(" + self.text(v) + ")" for v in n.values) + ")", "and/or")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, self.text(n.operand), "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, repr(not v), f"{v} flipped")
        elif isinstance(v, int):
            self.add(n, repr(v + 1), f"{v} -> {v + 1}")
            if v:
                self.add(n, repr(v - 1), f"{v} -> {v - 1}")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 + (v == 0)), f"{v} doubled")

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = self.text(n.func)
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 0:
                rest = [self.text(a) for a in n.args] + [(x.arg + "=" if x.arg else "**") + self.text(x.value) for x in n.keywords if x is not k]
                self.add(n, f"{f}({', '.join(rest)})", f"drop {k.arg}= of {f}")
        if len(n.args) == 2 and not n.keywords:
            self.add(n, f"{f}({self.text(n.args[1])}, {self.text(n.args[0])})", f"swap args of {f}")
        sw = {"min": "max", "max": "min", "argmax": "argmin", "argmin": "argmax", "vstack": "hstack", "hstack": "vstack", "sum": "mean", "mean": "sum",
              "ones": "zeros", "zeros": "ones", "pinv": "transpose", "prod": "sum"}
        if isinstance(n.func, ast.Attribute) and n.func.attr in sw:
            self.add(n.func, self.text(n.func.value) + "." + sw[n.func.attr], f"{n.func.attr} -> {sw[n.func.attr]}")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == "T":
            self.add(n, self.text(n.value), "drop .T")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, f"(not ({self.text(n.test)}))", "negate if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.text(n.orelse)} if {self.text(n.test)} else {self.text(n.body)})", "swap if-else")
        self.generic_visit(n)


def sh(cmd, cwd, env=None, t=600):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), shell=True, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


M = []
for f in A.files.split(","):
    s = open("/repo/src/mud/" + f).read()
    F = Finder(f, s)
    F.visit(ast.parse(s))
    for m in F.out:
        t = (F.b[: m["a"]] + m["new"].encode() + F.b[m["b"]:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(s)):
                continue
        except SyntaxError:
            continue
        m["old"] = F.b[m["a"]: m["b"]].decode()
        m["src"] = t
        M.append(m)
print(len(M), "mutants", flush=True)
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        r = json.loads(l)
        done.add((r["file"], r["a"], r["b"], r["new"]))
random.Random(A.seed).shuffle(M)
M = [m for m in M[: A.n] if (m["file"], m["a"], m["b"], m["new"]) not in done]
if A.list:
    sys.exit()
base = tempfile.mkdtemp(prefix="mutate-")
subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "out", V + "/", base + "/verif/"], check=True)
# the specification itself is not under test here
with open(base + "/verif/lib/props.py", "a") as fp:
    fp.write("\nfor _p in PROPS.values():\n    _p['mc'] = []\n")


def one(m):
    w = tempfile.mkdtemp(prefix="mut-", dir=base)
    r = w + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    try:
        open(r + "/src/mud/" + m["file"], "w").write(m["src"])
        res = {k: v for k, v in m.items() if k != "src"}
        first = WHERE.get(m["where"].split(".")[0], WHERE.get(m["file"], "")).split()
        res["caught"] = None
        res["broken"] = []
        subprocess.run(["cp", "-a", base + "/verif", w + "/verif"], check=True)
        for p in first + [x for x in ALL if x not in first]:
            c, o = sh(f"python3 check.py {p}", w + "/verif", {"VERIF_REPO": r})
            if c == 1 and "VIOLATION property=" + p in o:
                res["caught"] = p
                break
            if c != 0:
                res["broken"].append(p)
                res["why"] = o[-500:]
        if res["caught"] is None:
            te = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "HOME": "/root", "MPLBACKEND": "Agg",
                  "PYTHONPATH": r + "/src"}
            x = w + "/j.xml"
            sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --randomly-seed=0 "
               f"--randomly-dont-reorganize --continue-on-collection-errors -o junit_family=xunit2 --junitxml={x}", r, te)
            sh(f"python3 /opt/vp/results.py {x}.json junit:{x}", r)
            try:
                miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(x + ".json"))["passed"])
            except OSError:
                miss = {"no result"}
            res["tests"] = sorted(miss)[:3]
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


try:
    with ThreadPoolExecutor(A.jobs) as ex:
        n = k = 0
        for res in ex.map(one, M):
            with open(A.out, "a") as fp:
                fp.write(json.dumps(res) + "\n")
            n += 1
            k += bool(res["caught"])
            if not res["caught"]:
                print(f"[{n}] SURVIVED {res['file']}:{res['line']} {res['where']} {res['what']} tests={'ok' if not res['tests'] else 'BREAK'}"
                      f" broken={res['broken']}", flush=True)
        print(f"{k}/{n} caught", flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
