"""Replays cases on the real code in /repo and records what can be observed.

usage: driver.py CASES.jsonl TRACE.jsonl [NPROC]

A case is a sequence of calls of the public interface (constructors, methods,
attributes) on numbered objects.  The driver makes the calls, in order, and
writes for each of them the normalised result or the error and, for cases
with "obs", a projection of the observable state of all models.  It decides
nothing.
"""

import contextlib
import io
import json
import math
import os
import signal
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "120"))


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


rf = None
np = None


def load():
    global rf, np
    with contextlib.redirect_stdout(io.StringIO()):
        import numpy as np_
        import reservoirflow as rf_
    np = np_
    rf = rf_
    np.seterr(all="ignore")
    path = os.path.realpath(rf.__file__)
    want = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not path.startswith(want + os.sep):
        raise SystemExit(f"reservoirflow is imported from {path}")


def fnum(x):
    """JSON number of a real number."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    x = float(x)
    return x


def norm(v, depth=0):
    import pandas as pd
    import scipy.sparse as ss

    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return fnum(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return {"k": "obj", "v": str(v)[:200]}
        return {
            "k": "arr",
            "sh": [int(n) for n in v.shape],
            "v": [fnum(x) for x in v.flatten().tolist()],
        }
    if ss.issparse(v):
        c = v.tocoo()
        e = {}
        for i, j, x in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
            e[(i, j)] = e.get((i, j), 0) + x
        return {
            "k": "mat",
            "sh": [int(n) for n in v.shape],
            "v": [[i, j, fnum(x)] for (i, j), x in sorted(e.items()) if x != 0],
        }
    if isinstance(v, pd.DataFrame):
        cols = []
        for j in range(v.shape[1]):
            s = v.iloc[:, j]
            cols.append([x if isinstance(x, str) else fnum(x) for x in s.tolist()])
        return {
            "k": "df",
            "cols": [str(c) for c in v.columns],
            "idx": [fnum(x) for x in v.index.tolist()],
            "iname": v.index.name,
            "v": cols,
        }
    if isinstance(v, dict):
        return {"k": "dict", "v": [[norm(a, 1), norm(b, 1)] for a, b in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {"k": "set", "v": sorted((norm(a, 1) for a in v), key=json.dumps)}
    if isinstance(v, (list, tuple)):
        k = "list" if isinstance(v, list) else "tuple"
        items = list(v)
        if depth > 0 and all(
            isinstance(a, (int, float, np.integer, np.floating)) for a in items
        ):
            return [fnum(a) for a in items]
        return {"k": k, "v": [norm(a, 1) for a in items]}
    return {"k": "obj", "v": type(v).__name__}


def dense(v):
    """Entries of a matrix, sparse or dense, as [i, j, value]."""
    import scipy.sparse as ss

    if ss.issparse(v):
        return norm(v)
    if isinstance(v, np.matrix):
        v = np.asarray(v)
    if isinstance(v, np.ndarray) and v.ndim == 2:
        r, c = np.nonzero(v)
        return {
            "k": "mat",
            "sh": [int(n) for n in v.shape],
            "v": [[int(i), int(j), fnum(v[i, j])] for i, j in zip(r, c)],
        }
    return norm(v)


def system(r, model, cell_id):
    """Equations of cells, as matrices or symbolic: [cell, [[cell, coefficient]..], right-hand side]."""
    if cell_id is not None:
        r = {cell_id: r}
    if isinstance(r, dict):
        return {
            "k": "sys",
            "v": [
                [int(c), [[int(str(x)[1:]), fnum(float(y))] for x, y in lhs.items()], fnum(float(rhs))]
                for c, (lhs, rhs) in r.items()
            ],
        }
    A, d = dense(r[0]), r[1]
    d = d.toarray() if hasattr(d, "toarray") else np.asarray(d)
    ids = [int(c) for c in model.grid.cells_id]
    rows = {c: [] for c in ids}
    for i, j, x in A["v"]:
        rows[ids[i]].append([ids[j], x])
    return {"k": "sys", "v": [[c, rows[c], fnum(float(d.flatten()[n]))] for n, c in enumerate(ids)]}


VALS = {}
OBJ = {}
SHARED = {}  # arguments of the case by their content
NUMPY = [False]  # numbers are given as numpy numbers


def shared(kind, v, make):
    """The same object for the same content, as callers reuse their arguments."""
    key = kind + json.dumps(v, sort_keys=True)
    if key not in SHARED:
        SHARED[key] = make()
    return SHARED[key]


def arg(v):
    """Argument value of its JSON form."""
    if isinstance(v, dict) and v.keys() & {"$list", "$well", "$bdict", "$dict"}:
        return shared("arg", v, lambda: arg1(v))
    return arg1(v)


def arg1(v):
    if NUMPY[0] and type(v) is int:
        return np.int64(v)
    if NUMPY[0] and type(v) is float:
        return np.float64(v)
    if isinstance(v, list):
        return tuple(arg(x) for x in v)
    if isinstance(v, dict):
        if "$list" in v:
            return [arg(x) for x in v["$list"]]
        if "$arr" in v:
            return np.array(v["$arr"], dtype=v.get("dtype")).reshape(v["sh"])
        if "$np" in v:
            x = v["$np"]
            return np.int64(x) if isinstance(x, int) else np.float64(x)
        if "$well" in v:
            return rf.wells.SingleCell(**{k: arg(x) for k, x in v["$well"].items()})
        if "$wobj" in v:
            return OBJ["well"][v["$wobj"]]
        if "$bdict" in v:
            return {arg(c): (cond, arg(x)) for c, cond, x in v["$bdict"]}
        if "$date" in v:
            import datetime

            return datetime.date(*v["$date"])
        if "$val" in v:
            return VALS[v["$val"]]
        if "$dict" in v:
            return {k: arg(x) for k, x in v["$dict"]}
        return {k: arg(x) for k, x in v.items()}
    return v


class Rows:
    def __init__(self):
        self.ids = {}
        self.keys = {}
        self.rows = []

    def same(self, row):
        """Number of this content."""
        row = np.asarray(row)
        return self.keys.setdefault((str(row.dtype), row.shape, row.tobytes()), len(self.keys) + 1)

    def add(self, row):
        row = np.asarray(row)
        key = (str(row.dtype), row.tobytes())
        if key not in self.ids:
            self.rows.append([fnum(x) for x in row.tolist()])
            self.ids[key] = len(self.rows)
        return self.ids[key]


class Session:
    def __init__(self, case):
        self.case = case
        self.rows = Rows()
        VALS.clear()
        SHARED.clear()
        NUMPY[0] = bool(case.get("np") or os.environ.get("VERIF_NP"))
        self.o = {"grid": {}, "fluid": {}, "model": {}, "scaler": {}, "sol": {}, "well": {}}
        OBJ.update(self.o)

    # ------------------------------------------------------------ calls
    def new(self, op):
        d = dict(op.get("def", {}))
        kind = op["on"]
        if kind == "grid":
            seq = {"list": list, "tuple": tuple}.get(op.get("as"), np.array)
            for k in ("dx", "dy", "dz", "kx", "ky", "kz", "phi", "z"):
                if isinstance(d.get(k), list):
                    d[k] = shared(seq.__name__, d[k], lambda: seq(d[k]))
            obj = rf.grids.RegularCartesian(**d)
        elif kind == "fluid":
            obj = rf.fluids.SinglePhase(**d)
        elif kind == "model":
            g = self.o["grid"][op["g"]]
            f = self.o["fluid"][op["f"]]
            d = {k: arg(x) for k, x in d.items()}
            obj = rf.models.BlackOil(g, f, **d)
        elif kind == "scaler":
            cls = d.pop("cls")
            obj = getattr(rf.scalers, cls)(**{k: arg(x) for k, x in d.items()})
        elif kind == "well":
            obj = rf.wells.SingleCell(**{k: arg(x) for k, x in d.items()})
        else:
            raise SystemExit(f"unknown object {kind}")
        self.o[kind][op["i"]] = obj
        return None

    def target(self, op):
        if op["on"] == "sol":  # a solution of a model: current or by name
            m = self.o["model"][op["i"]]
            return m.solutions[op["sol"]] if "sol" in op else m.solution
        if op["on"] == "tables":  # module tables of units and factors
            return rf
        return self.o[op["on"]][op["i"]]

    def call(self, op):
        if op["op"] == "new":
            return self.new(op)
        obj = self.target(op)
        name = op["m"]
        if op["op"] == "get":  # attribute, dotted path, with item access
            for part in name.split("."):
                obj = obj[part] if isinstance(obj, dict) else getattr(obj, part)
            return norm(obj)
        a = {k: arg(x) for k, x in op.get("a", {}).items() if k != "none"}
        if op["op"] == "pv":  # derived data of the visualisation grid
            g = obj.get_pyvista_grid(**a)
            if name == "volume":
                return norm(float(g.volume))
            if name == "n":
                return norm(int(g.n_cells))
            if name == "sizes":
                return norm(np.asarray(g.compute_cell_sizes()["Volume"]))
            if name == "centers":
                return norm(np.asarray(g.cell_centers().points))
        if op["op"] == "dictattr":
            return norm(getattr(obj, name))
        if op["op"] == "fun":  # module function
            pass
        mutated = None
        if "$in" in op:  # remember an array argument to see whether it is changed
            mutated = a[op["$in"]].copy()
        r = getattr(obj, name)(**a)
        if op.get("mat"):
            out = dense(r)
        elif op.get("sys"):
            out = system(r, obj.model, a.get("cell_id"))
        elif op.get("drop"):
            out = None
        elif "$out" in op:  # an array argument after the call
            out = norm(a[op["$out"]])
        elif op.get("csv"):  # the table as it was saved
            import pandas as pd

            out = norm(pd.read_csv("model_data.csv", index_col=0, float_precision="round_trip"))
            os.remove("model_data.csv")
        else:
            out = norm(r)
        if "save" in op:  # keep an array result under a name
            VALS[op["save"]] = r
        if mutated is not None:
            same = np.array_equal(mutated, a[op["$in"]], equal_nan=True)
            out = {"k": "kept", "same": bool(same), "v": out}
        return out

    # ------------------------------------------------------ observation
    def observe_model(self, m):
        sols = []
        cur = ""
        names = [str(x) for x in m.get_solutions()]
        for name in names:
            s = m.solutions[name]
            if s is m.solution:
                cur = name
            err = getattr(s, "error", None)
            sols.append(
                {
                    "name": name,
                    "tstep": fnum(s.tstep),
                    "nsteps": fnum(s.nsteps),
                    "p": [self.rows.add(r) for r in s.pressures],
                    "q": [self.rows.add(r) for r in s.rates],
                    "w": [
                        [fnum(c), [fnum(x) for x in v]]
                        for c, v in s.w_pressures.items()
                    ],
                    "err": None if err is None else fnum(err),
                    "as": [self.rows.same(r) for r in getattr(s, "As", [])],
                    "ds": [self.rows.same(r) for r in getattr(s, "ds", [])],
                    "sparse": bool(s.sparse),
                    "cls": type(s).__name__,
                }
            )
        wells = []
        for c, w in m.wells.items():
            wells.append(
                {
                    "c": fnum(c),
                    "q": fnum(w["q"]) if w.get("q") is not None else None,
                    "pwf": fnum(w["pwf"]) if w.get("pwf") is not None else None,
                    "r_eq": fnum(w["r_eq"]),
                    "G": fnum(w["G"]),
                }
            )
        init = m.get_init_arrays()
        return {
            "cur": cur,
            "names": names,
            "sols": sols,
            "wells": wells,
            "init": [self.rows.add(init[0][0]), self.rows.add(init[1][0])],
            "sc": [
                [q, None if m.scalers_dict[q][0] is None else
                 [str(m.scalers_dict[q][0]), *[fnum(x) for x in m.scalers_dict[q][1]]]]
                for q in ("time", "space", "pressure", "rate")
            ],
            "vb": bool(m.verbose),
            "wp": [
                [fnum(c), [fnum(x) for x in v]] for c, v in m.w_pressures.items()
            ],
        }

    def observe(self):
        out = []
        for i in sorted(self.o["model"]):
            try:
                out.append([i, self.observe_model(self.o["model"][i])])
            except Exception as e:
                out.append([i, {"exc": type(e).__name__, "msg": str(e)[:200]}])
        return out

    def solved(self, op):
        """The equations that a solution has recorded for its last step."""
        if op["op"] != "call" or op["m"] not in ("solve", "run") or op["on"] not in ("model", "sol"):
            return None
        try:
            m = self.o["model"][op["i"]]
            s = m.solution
            n = len(m.grid.cells_id)
            if type(s).__name__ != "FDM" or s.tstep == 0 or n > 60:
                return None
            A = np.asarray(s.As[s.tstep]).reshape(n, n)
            return system((A, np.asarray(s.ds[s.tstep])), m, None)
        except Exception as x:
            return {"k": "exc", "v": type(x).__name__}

    def run(self):
        ev = []
        case = self.case
        last = None
        for op in case["ops"]:
            e = dict(op)
            try:
                e["res"] = self.call(op)
                e["ok"] = True
                e["exc"] = ""
            except CaseTimeout:
                raise
            except (Exception, SystemExit) as x:
                e["res"] = None
                e["ok"] = False
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:300]
            if case.get("obs"):
                y = self.solved(op)
                if y:
                    e["sys"] = y
                o = self.observe()
                s = json.dumps(o)
                if s == last:
                    e["same"] = True
                else:
                    e["same"] = False
                    e["obs"] = o
                last = s
            ev.append(e)
        out = {k: v for k, v in case.items() if k != "ops"}
        out["ev"] = ev
        out["rows"] = self.rows.rows
        return out


def run_case(case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            return Session(case).run()
    except CaseTimeout:
        out = {k: v for k, v in case.items() if k != "ops"}
        out["ev"] = []
        out["rows"] = []
        out["timeout"] = True
        return out
    finally:
        signal.alarm(0)


def work(args):
    src, dst, k, n = args
    src, dst = os.path.abspath(src), os.path.abspath(dst)
    load()
    with tempfile.TemporaryDirectory() as cwd:  # files saved by the code go here
        os.chdir(cwd)
        with open(src) as f, open(dst, "w") as g:
            for i, line in enumerate(f):
                if i % n == k and line.strip():
                    g.write(json.dumps([i, run_case(json.loads(line))]) + "\n")
        os.chdir("/")
    return dst


def main():
    src, dst = sys.argv[1], sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    jobs = [(src, f"{dst}.{k}", k, n) for k in range(n)]
    if n == 1:
        work(jobs[0])
    else:
        import subprocess

        ps = [
            subprocess.Popen([sys.executable, "-W", "ignore", __file__, "--part", *map(str, j)])
            for j in jobs
        ]
        bad = [p.wait() for p in ps]
        if any(bad):
            raise SystemExit(f"driver failed: {bad}")
    res = {}
    for _, d, _, _ in jobs:
        with open(d) as f:
            for line in f:
                i, j = line.split(", ", 1)
                res[int(i[1:])] = j.rstrip("\n")[:-1]
        os.remove(d)
    with open(dst, "w") as f:
        for i in sorted(res):
            f.write(res[i] + "\n")


if __name__ == "__main__":
    if sys.argv[1:2] == ["--part"]:
        s, d, k, n = sys.argv[2:6]
        work((s, d, int(k), int(n)))
    else:
        main()
