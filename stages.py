"""Stages of the checks: what is generated and checked for each property."""

LEVEL = {}
# generators that are state machines (the others write one case per initial state)
STEPPED = {**{g: "GenS.cfg" for g in (
    "GenSession", "GenScaler", "GenProps", "GenNames", "GenAnalytic", "GenUnits")}, "GenTwin": "GenT.cfg"}


def grid(focus, quick, thorough):
    def st(env):
        return [("conformance", "GenGrid", {"GEN_FOCUS": focus, **env})]

    return {"quick": st(quick), "thorough": st(thorough)}


def session(profile, cases=100, depth=8, large=400):
    def st(n, d, big):
        return [("conformance", "GenSession",
                 {"GEN_PROFILE": profile, "GEN_CASES": n, "GEN_DEPTH": d, "GEN_LARGE": big})]

    return {"quick": st(cases, depth, 0), "thorough": st(large, depth + 6, 1)}


def both(*parts):
    return {t: [x for p in parts for x in p[t]] for t in ("quick", "thorough")}


STAGES = {
    "C01": both(session("flow", 200, 8, 1000), session("change", 50, 8, 200), session("props", 40, 6, 200)),
    "C02": both(session("flow", 200, 8, 1000), session("change", 50, 8, 200), session("props", 40, 6, 200)),
    "C03": both(session("modes", 140), session("props", 80, 6, 300)),
    "C04": both(session("wells", 140), session("change", 60, 8, 200)),
    "C05": both(session("bound", 140), session("change", 60, 8, 200)),
    "C06": grid("C06", {"GEN_MAXN": 3, "GEN_BIG": 10, "GEN_MAXCELL": 60},
                {"GEN_MAXN": 5, "GEN_BIG": 60, "GEN_MAXCELL": 200, "GEN_VARIANTS": 1}),
    "C07": grid("C07", {"GEN_MAXN": 3, "GEN_BIG": 8, "GEN_MAXCELL": 60},
                {"GEN_MAXN": 4, "GEN_BIG": 40, "GEN_MAXCELL": 150, "GEN_VARIANTS": 1}),
    "C08": grid("C08", {"GEN_MAXN": 3, "GEN_BIG": 8, "GEN_MAXCELL": 40},
                {"GEN_MAXN": 4, "GEN_BIG": 30, "GEN_MAXCELL": 80, "GEN_VARIANTS": 2}),
    "C09": grid("C09", {"GEN_MAXN": 3, "GEN_BIG": 6, "GEN_MAXCELL": 30, "GEN_VARIANTS": 2},
                {"GEN_MAXN": 4, "GEN_BIG": 30, "GEN_MAXCELL": 60, "GEN_VARIANTS": 4}),
    "C10": both({"quick": [("conformance", "GenProps", {"GEN_CASES": 240, "GEN_DEPTH": 30, "GEN_POOL": 14})],
                 "thorough": [("conformance", "GenProps", {"GEN_CASES": 3000, "GEN_DEPTH": 60, "GEN_POOL": 20})]},
                session("props", 60, 6, 400)),
    "C11": both(session("multi", 120, 10),
                {"quick": [("conformance", "GenProps", {"GEN_CASES": 60, "GEN_DEPTH": 25, "GEN_POOL": 10, "GEN_TWIN": 100}),
                           ("conformance", "GenScaler", {"GEN_CASES": 60, "GEN_DEPTH": 12})],
                 "thorough": [("conformance", "GenProps", {"GEN_CASES": 1000, "GEN_DEPTH": 50, "GEN_POOL": 14, "GEN_TWIN": 100}),
                              ("conformance", "GenScaler", {"GEN_CASES": 1000, "GEN_DEPTH": 30})]}),
    "C12": both(session("sols", 150, 10), session("change", 40, 8, 200)),
    "C13": both(session("step", 140), session("sols", 40, 8, 200)),
    "C14": session("df", 150, 8),
    "C15": both({"quick": [("conformance", "GenScaler", {"GEN_CASES": 400, "GEN_DEPTH": 16})],
                 "thorough": [("conformance", "GenScaler", {"GEN_CASES": 6000, "GEN_DEPTH": 40})]},
                session("df", 60, 6, 200)),
    "C16": {"quick": [("conformance", "GenNames", {"GEN_PART": 100})],
            "thorough": [("conformance", "GenNames", {"GEN_PART": 100, "GEN_RUNS": 3})]},
    "C17": both(session("bad", 120, 8, 600),
                {"quick": [("conformance", "GenScaler", {"GEN_CASES": 150, "GEN_DEPTH": 16}),
                           ("conformance", "GenProps", {"GEN_CASES": 100, "GEN_DEPTH": 25, "GEN_POOL": 10})],
                 "thorough": [("conformance", "GenScaler", {"GEN_CASES": 3000, "GEN_DEPTH": 40}),
                              ("conformance", "GenProps", {"GEN_CASES": 1500, "GEN_DEPTH": 50, "GEN_POOL": 14})]}),
    "C18": both(session("wells", 140), session("flow", 60, 8, 200)),
    "C19": {"quick": [("conformance", "GenUnits", {"GEN_CASES": 60, "GEN_DEPTH": 40}),
                      ("conformance", "GenTwin", {"GEN_KIND": "units", "GEN_CASES": 60, "GEN_DEPTH": 4})],
            "thorough": [("conformance", "GenUnits", {"GEN_CASES": 800, "GEN_DEPTH": 60}),
                         ("conformance", "GenTwin", {"GEN_KIND": "units", "GEN_CASES": 800, "GEN_DEPTH": 6, "GEN_LARGE": 1})]},
    "C20": {"quick": [("conformance", "GenAnalytic", {"GEN_CASES": 150, "GEN_DEPTH": 10})],
            "thorough": [("conformance", "GenAnalytic", {"GEN_CASES": 1200, "GEN_DEPTH": 12})]},
    "C21": {"quick": [("conformance", "GenTwin", {"GEN_KIND": "", "GEN_CASES": 150, "GEN_DEPTH": 5})],
            "thorough": [("conformance", "GenTwin", {"GEN_KIND": "", "GEN_CASES": 1500, "GEN_DEPTH": 8, "GEN_LARGE": 1})]},
    "C22": both(session("change", 140), session("props", 50, 6, 200), session("multi", 40, 8, 200)),
}

# bounded design models, checked exhaustively before the code is looked at
for _m, _ps in {"MCGrid": ("C06", "C07", "C08", "C09"), "MCFlow": ("C01", "C02", "C03", "C05"),
                "MCControl": ("C04",), "MCSession": ("C11", "C12", "C13", "C17", "C18", "C22")}.items():
    for _p in _ps:
        STAGES[_p]["quick"] = [("model", _m, _m + ".cfg")] + STAGES[_p]["quick"]
        STAGES[_p]["thorough"] = [("model", _m, _m + "2.cfg")] + STAGES[_p]["thorough"]

TECHNIQUE = {
    "*": "TLA+ specification checked with TLC; executions of the real code generated from and validated against it",
}
NOTES = {
    "*": "Every recorded result of the generated executions is compared by TLC with the answer the specification "
         "defines. Complete for the enumerated shapes and arguments, sampled by seed beyond; trusts TLC, "
         "java/Num.java (decimal arithmetic) and the recording harness.",
}
NOT_APPLICABLE = {}
