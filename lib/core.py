"""Driver shared by all checks.

A check builds gogll from /repo and the engine from /verif, generates code for
its grammars, writes harness packages into a scratch module, lets the engine
execute them symbolically, replays what it reports against the native build,
and writes the evidence file.
"""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import gram  # noqa: E402

GOENV = {
    "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOWORK": "off", "CGO_ENABLED": "0",
    "GOFLAGS": "-mod=mod -trimpath -buildvcs=false",
}


class Broken(Exception):
    pass


class Violation:
    def __init__(self, key, text, kind="other", data=None):
        self.key, self.text, self.kind, self.data = key, text, kind, data or {}


class Ctx:
    def __init__(self, pid, tier, seed=1, keep=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif.%s." % pid)
        if not keep:
            atexit.register(shutil.rmtree, self.dir, True)
        else:
            print("scratch", self.dir)
        self.env = dict(os.environ)
        self.env.update(GOENV)
        self.mod = os.path.join(self.dir, "vh")
        self.jobs = []
        self.violations = []   # Violation
        self.notes = []        # reduced bounds etc.
        self.bounds = []
        self.assumptions = []
        self.outside = []
        self.grams = {}
        self.need = {}         # job -> labels that must be reached
        self.results = []
        self.extra = {}
        self.engine_t = 0.0
        self.replayed = 0
        self.traced = 0
        self.mismatch = []
        self.unreproduced = []
        self.load_s = 0
        self.race_exe = None
        self.lock = threading.Lock()
        self.seconds = 420 if self.thorough else 200

    # ---- processes ----
    def sh(self, args, cwd=None, timeout=300, env=None, check=True, inp=None):
        e = dict(self.env)
        if env:
            e.update(env)
        try:
            r = subprocess.run(args, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
        except subprocess.TimeoutExpired:
            if check:
                raise Broken("timeout: " + " ".join(args))
            return -9, "", "timeout"
        out, err = r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        if check and r.returncode != 0:
            raise Broken("%s: exit %d\n%s\n%s" % (" ".join(args), r.returncode, out[-3000:], err[-3000:]))
        return r.returncode, out, err

    def prepare(self, gogll=True):
        os.makedirs(self.mod)
        shutil.copytree(os.path.join(VERIF, "harness", "sym"), os.path.join(self.mod, "sym"))
        shutil.copytree(os.path.join(VERIF, "harness", "ref"), os.path.join(self.mod, "ref"))
        with open(os.path.join(self.mod, "go.mod"), "w") as f:
            f.write("module vh\n\ngo 1.23\n\nrequire github.com/goccmack/gogll/v3 v3.0.0\n\nrequire (\n\tgithub.com/goccmack/goutil v1.2.3\n"
                    "\tgithub.com/iancoleman/strcase v0.1.3\n)\n\nreplace github.com/goccmack/gogll/v3 => %s\n" % REPO)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.mod, "go.sum"))
        ps = []
        self.engine = os.path.join(self.dir, "engine")
        self.gogll = os.path.join(self.dir, "gogll")
        with cf.ThreadPoolExecutor(2) as ex:
            ps.append(ex.submit(self.sh, ["go", "build", "-o", self.engine, "."], os.path.join(VERIF, "engine")))
            if gogll:
                ps.append(ex.submit(self.sh, ["go", "build", "-mod=readonly", "-o", self.gogll, "."], REPO))
            for p in ps:
                p.result()

    # ---- generation ----
    def gen(self, name, text, flags=(), parser=True, expect=0):
        """Generate code for a grammar body (without the package line)."""
        d = os.path.join(self.dir, "gram", name)
        os.makedirs(d, exist_ok=True)
        src = 'package "vh/g/%s"\n\n%s' % (name, text)
        p = os.path.join(d, name + ".gogll")
        with open(p, "w", encoding="utf-8") as f:
            f.write(src)
        out = os.path.join(self.mod, "g", name)
        os.makedirs(out, exist_ok=True)
        rc, so, se = self.sh([self.gogll, *flags, "-o", out, p], cwd=d, timeout=60, check=False)
        g = gram.parse(src)
        g.text, g.name, g.flags = src, name, list(flags)
        self.grams[name] = g
        if rc != expect:
            self.violations.append(Violation("generate " + name, "gogll %s exits %d on the well-formed grammar %s: %s" % (" ".join(flags), rc, name, (so + se).strip()[-400:]),
                                             "generate", {"grammar": src, "flags": list(flags)}))
            return None
        return g

    def write(self, pkg, fname, text):
        """pkg is an import path below vh/."""
        assert pkg.startswith("vh/")
        d = os.path.join(self.dir, pkg)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, fname), "w", encoding="utf-8") as f:
            f.write(text)

    def job(self, name, pkg, run="Run", setup="", steps=0, max_paths=0, map_mode=0, need=(), data=None):
        if not re.search(os.environ.get("VERIF_ONLY", ""), name):  # while a check is being written
            return
        self.jobs.append({"name": name, "pkg": pkg, "run": run, "setup": setup, "steps": steps, "max_paths": max_paths, "map_mode": map_mode})
        self.need[name] = list(need)
        if data:
            self.extra.setdefault("jobdata", {})[name] = data

    # ---- native driver ----
    def native(self, jobs=None):
        """One native program for all jobs, selected by name."""
        jobs = self.jobs if jobs is None else jobs
        pk = {}
        for j in jobs:
            pk.setdefault(j["pkg"], "p%d" % len(pk))
        o = ["package main", "", "import (", '\t"os"', '\t"vh/sym"', '\t"fmt"', '\t"runtime/debug"']
        o += ['\t%s "%s"' % (a, p) for p, a in pk.items()]
        o += [")", "", "func main() {", "\tdebug.SetMaxStack(32 << 20)", "\tswitch os.Args[1] {"]
        for j in jobs:
            o.append("\tcase %s:" % json.dumps(j["name"]))
            o.append("\t\tsym.MapOrder(0)")
            if j["setup"]:
                o.append("\t\t%s.%s()" % (pk[j["pkg"]], j["setup"]))
            o.append("\t\t%s.%s()" % (pk[j["pkg"]], j["run"]))
        o += ["\tdefault:", '\t\tfmt.Println("no such job")', "\t\tos.Exit(9)", "\t}", '\tfmt.Println("RUN-COMPLETE")', "}", ""]
        self.write("vh/h/native", "main.go", "\n".join(o))
        exe = os.path.join(self.dir, "native")
        rc, so, se = self.sh(["go", "build", "-o", exe, "./h/native"], cwd=self.mod, check=False)
        if rc != 0:
            return None, so + se
        return exe, ""

    def race_build(self):
        """The native program with the race detector, where the machine has a C compiler."""
        with self.lock:
            if self.race_exe is None:
                self.race_exe = os.path.join(self.dir, "native.race")
                rc, so, se = self.sh(["go", "build", "-race", "-o", self.race_exe, "./h/native"], cwd=self.mod, check=False, env={"CGO_ENABLED": "1"})
                if rc != 0:
                    self.notes.append("no race detector: " + (so + se)[-300:])
                    self.race_exe = ""
        return self.race_exe

    def run_native(self, exe, job, inputs, timeout=10, race=False):
        f = tempfile.NamedTemporaryFile("w", dir=self.dir, suffix=".json", delete=False)
        json.dump(inputs, f)
        f.close()
        d = tempfile.mkdtemp(dir=self.dir)
        env = {"VERIF_REPLAY": f.name, "GOMEMLIMIT": "2GiB"}
        if race:
            exe, timeout = self.race_build() or exe, 60
            env.update({"VERIF_RACE": "1", "GORACE": "halt_on_error=1"})
        rc, so, se = self.sh([exe, job], cwd=d, timeout=timeout, check=False, env=env)
        os.unlink(f.name)
        shutil.rmtree(d, True)
        return rc, so, se

    @staticmethod
    def outcome(rc, so, se):
        """What a native run showed, in the words the engine uses."""
        if "WARNING: DATA RACE" in se or "concurrent map" in se:
            return "race", ""
        m = re.search(r"^ASSERT-FAILED (.*)$", so, re.M)
        if m:
            return "assert", m.group(1)
        if "ASSUME-FAILED" in so:
            return "assume", ""
        if rc == -9:
            return "steps", ""
        if "RUN-COMPLETE" in so:
            return "ok", ""
        if "panic:" in se or "fatal error:" in se or "goroutine " in se:
            return "panic", (re.search(r"(panic:.*|fatal error:.*)", se) or [""])[0]
        return "exit", str(rc)

    # ---- run ----
    def run(self):
        gate, err = self.native()
        if gate is None:
            if not re.search(r"^# vh/g/", err, re.M):
                raise Broken("the harness does not compile: " + err.strip()[:600])
            self.violations.append(Violation("compile", "the generated code does not compile: " + err.strip()[:600], "compile"))
            return
        jf, rf = os.path.join(self.dir, "jobs.json"), os.path.join(self.dir, "res.json")
        json.dump(self.jobs, open(jf, "w"))
        t = time.time()
        rc, so, se = self.sh([self.engine, "-dir", self.mod, "-jobs", jf, "-out", rf, "-seconds", str(self.seconds)], timeout=self.seconds + 120, check=False)
        self.engine_t = time.time() - t
        if rc != 0 or not os.path.exists(rf):
            raise Broken("engine: exit %d\n%s" % (rc, (so + se)[-3000:]))
        res = json.load(open(rf))
        self.load_s = res["load_s"]
        self.results = res["jobs"]
        self.digest(gate)

    def digest(self, exe):
        todo = []
        for r in self.results:
            if r.get("setup_err"):
                self.setup_failed(exe, r)
                continue
            for k, n in (r["incomplete"] or {}).items():
                self.notes.append("%s: reduced: %s (%d)" % (r["name"], k, n))
            for l in self.need.get(r["name"], []):
                if not (r["reach"] or {}).get(l):
                    self.notes.append("%s: witness %s not reached" % (r["name"], l))
                    self.mismatch.append("%s: witness %s not reached" % (r["name"], l))
            seen = {}
            for v in r["violations"] or []:
                k = (v["kind"], v["msg"])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= self.per_key(v):
                    todo.append(("v", r["name"], v))
            for s in r["samples"] or []:
                todo.append(("s", r["name"], s))
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda t: self.run_native(exe, t[1], t[2]["inputs"], race=t[2].get("kind") == "race"), todo))
        repro = {}
        for (what, job, v), (rc, so, se) in zip(todo, outs):
            kind, msg = self.outcome(rc, so, se)
            if what == "s":
                tr = [json.loads(x[6:]) for x in so.splitlines() if x.startswith("TRACE ")]
                if kind == "ok" and tr == (v["traces"] or []):
                    self.traced += 1
                else:
                    self.mismatch.append("%s: executor and native run differ on %s: %s %s, %s / %s" % (job, v["inputs"], kind, msg, tr, v["traces"]))
                continue
            self.replayed += 1
            ok = kind == v["kind"] and (kind != "assert" or msg == v["msg"] or v["msg"] == "(symbolic message)")
            if v["kind"] in ("panic", "race") and kind == v["kind"]:
                ok = True
            if v["kind"] == "steps" and kind in ("steps", "panic"):
                ok = True
            if ok:
                self.violations.append(Violation("%s: %s: %s" % (job, v["kind"], v["msg"].splitlines()[0] if v["msg"] else msg), "%s [%s] inputs %s" % (v["msg"], v["kind"], json.dumps(v["inputs"], sort_keys=True)),
                                                 v["kind"], {"job": job, "inputs": v["inputs"], "native": msg}))
            else:
                self.unreproduced.append("%s: %s %s inputs %s; natively: %s %s" % (job, v["kind"], v["msg"], v["inputs"], kind, msg))

    def per_key(self, v):
        return 12

    def setup_failed(self, exe, r):
        rc, so, se = self.run_native(exe, r["name"], {})
        kind, msg = self.outcome(rc, so, se)
        if kind in ("panic", "exit", "steps", "assert"):
            self.violations.append(Violation("%s: setup" % r["name"], "set-up fails: %s %s" % (kind, msg), kind, {"job": r["name"], "inputs": {}}))
        else:
            self.notes.append("%s: not executed: %s" % (r["name"], r["setup_err"]))
            self.mismatch.append("%s: %s" % (r["name"], r["setup_err"]))

    # ---- report ----
    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p, encoding="utf-8"):
                l = l.rstrip("\n")
                m = re.match(r"KNOWN-FINDING: property=(\S+) match=/(.*)/ (.*)$", l)
                if m and m.group(1) == self.pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
        return out

    def finish(self):
        known = self.known()
        hit = {}
        bad = []
        for v in self.violations:
            for rx, text in known:
                if rx.search(v.key + " " + v.text):
                    hit[text] = hit.get(text, 0) + 1
                    break
            else:
                bad.append(v)
        for text in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        rs = self.results
        tot = lambda k: sum(r.get(k) or 0 for r in rs)
        funcs = {}
        for r in rs:
            for f, n in (r.get("funcs") or {}).items():
                funcs[f] = funcs.get(f, 0) + n
        cov = {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": self.traced + self.replayed - len(self.unreproduced),
            "samples": [dict(job=r["name"], **s) for r in rs for s in (r.get("samples") or [])[:1]][:20],
            "states_are": "complete symbolic paths; each stands for every input that satisfies its path condition",
            "transitions_are": "branches at which the solver found more than one outcome possible",
            "exhaustive": bool(rs) and all(r["complete"] for r in rs),
            "bounds": self.bounds,
            "outside": self.outside,
            "functions_encoded": sorted(funcs),
            "assertions": tot("asserts"),
            "assertion_queries": tot("assert_queries"),
            "solver_queries": tot("queries"),
            "solver_seconds": round(tot("solver_s"), 2),
            "queries_answered_from_cache": tot("cached"),
            "queries_redecided_by_cvc5": tot("cross_checked"),
            "queries_cvc5_left_open": tot("cross_no_answer"),
            "solver_errors": sum((r.get("solver_errors") or [] for r in rs), [])[:5],
            "merged_calls": tot("merges"),
            "instructions": tot("steps"),
            "reduced_bounds": self.notes,
            "translator_mismatches": self.mismatch[:20],
            "unreproduced_counterexamples": self.unreproduced[:20],
            "known_findings_seen": hit,
            "jobs": [{"name": r["name"], "paths": r["paths"], "cut": r["assume_cut"], "asserts": r["asserts"], "complete": r["complete"], "reach": r.get("reach"), "wall": None} for r in rs],
        }
        cov.update({k: v for k, v in self.extra.items() if k != "jobdata"})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for n in self.notes[:30]:
            print("note:", n[:600])
        for n in self.mismatch[:10]:
            print("mismatch:", n[:1200])
        for n in self.unreproduced[:10]:
            print("unreproduced:", n[:600])
        print("%s %s: %d jobs, %d paths, %d queries, solver %.1fs, engine %.1fs, wall %.1fs, %d traces agree" % (
            self.pid, self.tier, len(rs), tot("paths"), tot("queries"), tot("solver_s"), self.engine_t, time.time() - self.t0, self.traced))
        rd = os.path.join(VERIF, "evidence", "replay")
        done = set()
        n = 0
        for v in bad:
            if v.key in done:
                continue
            done.add(v.key)
            n += 1
            if n > 10:
                break
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "key": v.key, "text": v.text, "kind": v.kind, "data": v.data,
                           "how": "%s/check %s replay %s" % (VERIF, self.pid, path)}, f, indent=1, ensure_ascii=False)
            print("   " + v.key[:300] + "\n   " + v.text[:500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1 if bad else 0
