#!/usr/bin/env python3
"""Runs the check of one property.

usage: check.py ID quick|thorough
       check.py ID replay FILE    (drives the case of a replay file again)

A check generates cases from the specification (TLC evaluates a generator
module of /verif/spec), replays them on the code in /repo (harness/driver.py)
and lets TLC decide whether what was recorded is allowed by the specification
(spec/Trace.tla).  For some properties TLC also checks a bounded design model
exhaustively; see STAGES.
"""

import sys

sys.dont_write_bytecode = True
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 1)

from stages import STAGES, LEVEL, STEPPED  # noqa: E402


class Machinery(Exception):
    pass


def env_of(extra):
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        PYVISTA_OFF_SCREEN="true",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        VERIF_SEED=str(SEED),
    )
    e.update({k: str(v) for k, v in extra.items()})
    return e


def sh(cmd, env=None, cwd=None, timeout=None):
    p = subprocess.run(
        cmd, env=env, cwd=cwd, timeout=timeout,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
    )
    return p.returncode, p.stdout


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.cls = os.path.join(self.tmp, "cls")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.cases = 0
        self.events = 0
        self.samples = []
        self.stages = []
        self.fails = []  # (clause, case, step, event)
        self.known = []

    # ------------------------------------------------------------- tools
    def compile(self):
        os.makedirs(self.cls)
        rc, out = sh(["javac", "-d", self.cls, "-cp", TLA, os.path.join(ROOT, "java", "Num.java")])
        if rc:
            raise Machinery("javac: " + out[-2000:])

    def tlc(self, module, cfg, env, workers=NPROC, timeout=840):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = [
            "java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m",
            "-cp", os.pathsep.join([self.cls, TLA, COMMUNITY]),
            "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
            "-config", cfg, module,
        ]
        rc, out = sh(cmd, env=env, cwd=SPEC, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        n = tuple(int(x) for x in m.groups()) if m else (0, 0, -1)
        return rc, out, n

    def model(self, module, cfg, env=None):
        """Exhaustive check of a bounded design model."""
        t = time.time()
        rc, out, (gen, dist, left) = self.tlc(module, cfg, env_of(env or {}))
        if rc or "No error has been found" not in out or left:
            raise Machinery(f"{module} {cfg}: rc {rc}\n" + out[-3000:])
        self.states += dist
        self.transitions += gen
        self.stages.append({"model": module, "cfg": cfg, "states": dist, "transitions": gen,
                            "wall_s": round(time.time() - t, 1)})

    def generate(self, module, env):
        cfg = STEPPED.get(module, "Gen.cfg")
        out_file = os.path.join(self.tmp, f"cases{len(self.stages)}.jsonl")
        e = env_of(env)
        e["GEN_OUT"] = out_file
        rc, out, _ = self.tlc(module, cfg, e)
        if rc or "No error has been found" not in out:
            raise Machinery(f"{module}: rc {rc}\n" + out[-3000:])
        with open(out_file) as f:
            lines = sorted(set(f.read().splitlines()))
        with open(out_file, "w") as f:
            f.write("\n".join(lines) + "\n")
        return out_file, len(lines)

    def drive(self, cases):
        trace = cases.replace("cases", "trace")
        e = env_of({"MPLCONFIGDIR": os.path.join(self.tmp, "mpl"), "HOME": self.tmp,
                    "VERIF_REPO": REPO})
        cwd = os.path.join(self.tmp, "cwd")
        os.makedirs(cwd, exist_ok=True)
        cmd = [PYTHON, "-W", "ignore", os.path.join(ROOT, "harness", "driver.py"), cases, trace, str(NPROC)]
        rc, out = sh(cmd, env=e, cwd=cwd, timeout=840)
        if rc:
            raise Machinery("driver: " + out[-3000:])
        return trace

    def validate(self, trace, env=None, count=True):
        with open(trace) as f:
            runs = [json.loads(x) for x in f if x.strip()]
        byid = {r["id"]: r for r in runs}
        if len(byid) != len(runs):
            raise Machinery("case ids are not unique")
        want = sum(len(r["ev"]) + 1 for r in runs)
        e = env_of(env or {})
        e.update(PROP=self.prop, TRACE=trace)
        rc, out, (gen, dist, left) = self.tlc("Trace", "Trace.cfg", e)
        found = []
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith("FAIL|"):
                _, cid, n, clause = line.split("|")[:4]
                found.append((clause, cid, int(n)))
            elif line.startswith("TIMEOUT|"):
                found.append(("Terminates", line.split("|")[1], 0))
        complete = rc == 0 and "No error has been found" in out and left == 0 and dist == want
        if not complete:
            m = re.search(r"The exception was a (\S+)\s*:?\s*(.*(?:\n.*){0,6})", out)
            if "OutOfMemory" in out or "StackOverflow" in out or not (
                "Attempted to" in out or "TLC threw" in out or "Error:" in out
            ):
                raise Machinery(f"trace checking: rc {rc} states {dist}/{want}\n" + out[-3000:])
            # the observation cannot even be evaluated: not of the specified form
            cm = re.findall(r"/\\ c = (\d+)", out)
            lm = re.findall(r"/\\ l = (\d+)", out)
            cid = runs[int(cm[-1]) - 1]["id"] if cm else "?"
            found.append(("WellFormed", cid, int(lm[-1]) if lm else 0))
            self.note = out[-3000:]
        if count:
            self.states += dist
            self.transitions += gen
            self.cases += len(runs)
            self.events += want - len(runs)
            for r in runs[:2]:
                s = {"id": r["id"], "events": len(r["ev"]), "first": [
                    {k: x[k] for k in ("op", "on", "m", "a", "ok") if k in x} for x in r["ev"][:6]]}
                self.samples.append(json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else
                                    {"id": r["id"], "events": len(r["ev"])})
        return found, byid

    def conformance(self, module, env, trace_env=None):
        t = time.time()
        cases, n = self.generate(module, env)
        t1 = time.time()
        trace = self.drive(cases)
        t2 = time.time()
        s0, e0 = self.states, self.events
        found, byid = self.validate(trace, {**env, **(trace_env or {})})
        self.stages.append({
            "generator": module, **{k.lower(): v for k, v in env.items()}, "cases": n,
            "events": self.events - e0, "states": self.states - s0,
            "wall_s": [round(t1 - t, 1), round(t2 - t1, 1), round(time.time() - t2, 1)]})
        with open(cases) as f:
            src = {}
            for x in f:
                if x.strip():
                    c = json.loads(x)
                    src[c["id"]] = c
        for clause, cid, n in found:
            ev = byid[cid]["ev"][n - 1] if cid in byid and 0 < n <= len(byid[cid]["ev"]) else None
            self.fails.append((clause, cid, n, ev, src.get(cid)))

    def again(self, path):
        """Drives and validates the case of a replay file."""
        with open(path) as f:
            rec = json.load(f)
        cases = os.path.join(self.tmp, "cases0.jsonl")
        with open(cases, "w") as f:
            f.write(json.dumps(rec["input"]) + "\n")
        found, byid = self.validate(self.drive(cases))
        for clause, cid, n in found:
            ev = byid[cid]["ev"][n - 1] if 0 < n <= len(byid[cid]["ev"]) else None
            print(f"clause {clause} of {cid} at step {n}: {json.dumps(ev)[:600]}")
        return 1 if found else 0

    # ------------------------------------------------------------ verdict
    def replay(self, fail):
        clause, cid, n, ev, case = fail
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "clause": clause, "case": cid, "step": n,
                       "event": ev, "input": case, "seed": SEED,
                       "note": getattr(self, "note", None),
                       "how": "harness/driver.py replays input on the code; event is what was observed at step"}, f)
        return path

    def finish(self):
        known = load_known(self.prop)
        new = []
        for fl in self.fails:
            k = match_known(known, fl)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                new.append(fl)
        level = LEVEL.get(self.prop, "model_checking")
        wall = round(time.time() - self.t0, 1)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.cases, "events_checked": self.events,
                "samples": self.samples[:6], "stages": self.stages,
            },
            "assumptions": ["the harness reports results of the public interface faithfully",
                            "TLC and the operators of java/Num.java evaluate the specification correctly"],
            "wall_s": wall,
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        clauses = {}
        for clause, cid, n, e, _ in new:
            clauses.setdefault(clause, []).append((cid, n))
        for cl, where in sorted(clauses.items()):
            print(f"clause {cl}: {len(where)} failures, e.g. {where[:3]}")
        print(f"{self.prop} {self.tier}: {self.cases} executions, {self.events} events, "
              f"{self.states} states, {wall} s")
        if new:
            print(f"VIOLATION property={self.prop} replay={self.replay(new[0])}")
            return 1
        return 0


def load_known(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) clause=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append({"clause": m.group(2), "case": m.group(3), "what": m.group(4).strip()})
    return out


def match_known(known, fl):
    for k in known:
        if k["clause"] == fl[0] and re.fullmatch(k["case"], fl[1]):
            return k
    return None


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    r = Run(prop, tier)
    try:
        r.compile()
        if tier == "replay":
            return r.again(sys.argv[3])
        for stage in STAGES[prop][tier]:
            getattr(r, stage[0])(*stage[1:])
        return r.finish()
    except (Machinery, subprocess.TimeoutExpired) as e:
        print(f"error: {e}")
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(r.tmp, ignore_errors=True)
        else:
            print("kept", r.tmp)


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.exit(main())
