#!/usr/bin/env python3
"""Binding demonstration: records executions of the code, corrupts one recorded
value in each and counts how many corruptions the specification rejects.

usage: binding.py ID [corruptions] [clauses]     clauses: a property, or * for all
"""
import copy
import json
import os
import random
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402


def leaves(x, path=()):
    """Paths of the values of a JSON document."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path


def changed(v, rnd):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, float):
        return v * 1.01 + 0.001
    if v is None:
        return 1
    try:
        f = float(v)
        return repr(f * 1.01 + 0.001) if f == f and abs(f) != float("inf") else "1.0"
    except ValueError:
        return v + "x"


def corrupt(run, rnd):
    run = copy.deepcopy(run)
    if run["rows"] and rnd.random() < 0.4:
        k = rnd.randrange(len(run["rows"]))
        row = run["rows"][k]
        row = row["v"] if isinstance(row, dict) else row
        if not row:
            return None
        c = rnd.randrange(len(row))
        if row[c] is None or str(row[c]).lower() == "nan":
            return None
        what, before = "row", row[c]
        row[c] = changed(row[c], rnd)
        return run, what, f"row {k} cell {c}: {before} -> {row[c]}"
    n = rnd.randrange(len(run["ev"]))
    e = run["ev"][n]
    parts = [p for p in ("res", "obs", "ok") if p in e and not (p == "res" and e[p] is None)]
    part = rnd.choice(parts)
    ps = list(leaves(e[part], (part,)))
    if not ps:
        return None
    p = rnd.choice(ps)
    x = e
    for k in p[:-1]:
        x = x[k]
    before = x[p[-1]]
    if p[-1] in ("p", "q", "init") or (len(p) > 1 and p[-2] in ("p", "q", "init")):
        return None  # row numbers
    x[p[-1]] = changed(before, rnd)
    # what follows without a change of its own shows the corrupted state too
    if part == "ok" and x[p[-1]]:
        e["exc"] = ""
    what = part + "." + (e.get("m", e["op"]) if part in ("res", "ok") else ".".join(str(k) for k in p if isinstance(k, str) and k != part))
    return run, what, f"event {n} {e['op']} {e['on']} {e.get("m")} {json.dumps(e.get("a"))[:90]} {'/'.join(map(str, p))}: {before} -> {x[p[-1]]}"


def main():
    prop = sys.argv[1]
    want = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    clauses = sys.argv[3] if len(sys.argv) > 3 else prop
    rnd = random.Random(7)
    r = check.Run(prop, "quick")
    r.compile()
    for st in check.STAGES[prop]["quick"]:
        if st[0] != "conformance":
            continue
        env = dict(st[2])
        if "GEN_CASES" in env:
            env["GEN_CASES"] = min(env["GEN_CASES"], 40)
        cases, _ = r.generate(st[1], env)
        r.stages.append({})
        trace = r.drive(cases)
        runs = [json.loads(x) for x in open(trace) if x.strip()]
        small = sorted(runs, key=lambda x: len(json.dumps(x)))[: max(20, len(runs) * 2 // 3)]
        out, about = [], {}
        while len(out) < want:
            x = corrupt(rnd.choice(small), rnd)
            if x is None:
                continue
            run, what, text = x
            run["id"] = f"k{len(out)}"
            about[run["id"]] = (what, text)
            out.append(run)
        found = set()
        dst = trace + ".bad"
        r.prop = clauses
        todo = [out[k : k + 50] for k in range(0, len(out), 50)]
        while todo:
            part = todo.pop()
            with open(dst, "w") as f:
                for x in part:
                    f.write(json.dumps(x) + "\n")
            fs, _ = r.validate(dst, env, count=False)
            found |= {f[1] for f in fs}
            stuck = [f[1] for f in fs if f[0] == "WellFormed"]
            if stuck:  # TLC stopped there
                rest = [x for x in part if x["id"] not in stuck]
                if rest:
                    todo.append(rest)
        tot = {}
        for i, (what, text) in about.items():
            t = tot.setdefault(what, [0, 0])
            t[1] += 1
            t[0] += i in found
            if i not in found and os.environ.get("SHOW"):
                print("accepted:", text)
        print(f"{prop} {st[1]} clauses {clauses}: {len(found)} of {len(out)} corruptions rejected")
        for what, (a, b) in sorted(tot.items()):
            print(f"   {what:40s} {a}/{b}")
    import shutil
    shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
