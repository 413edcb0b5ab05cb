"""C13: building models never touches what clients gave, and shares nothing with it."""
import copy

import numpy as np
import pandas as pd

from .. import pdworld

ID = "C13"
QUICK = 6000
THOROUGH = 200000
RULE = (
    "one run = 2-3 model-makers sharing schemas (with mutable defaults), submodels and subtrees (mappings, sequences, "
    "Series, DataFrames, arrays), with 3-12 interleaved builds (some failing or interrupted), scribbles of clients and "
    "curators on built models, and changes of the submodels; every input is compared with its snapshot after each step, "
    "and every built model with its own. Non-trivial: a scribble happened between two builds."
)
STATES = "hash of (operation, kinds of values in the stack, outcome)"
REAL = ["Pandel", "PandelVisitor", "jsonschema"]
STUB = ["curation functions"]
PROBES = ["scribbled", "input_changed", "failed", "shared_subtree", "pandas", "default_filled", "curated", "nested_default"]


def gen_schema(r):
    s = pdworld.gen_schema(r)
    s.pop("required", None)
    s.pop("additionalProperties", None)
    for k in ["m", "n"]:
        s["properties"][k] = {
            "type": r.pick(["array", "object"]),
        }
        s["properties"][k]["default"] = [1, [2]] if s["properties"][k]["type"] == "array" else {"x": {"y": [1]}}
    if r.chance(50):
        s["properties"]["sub"] = {
            "type": "object",
            "properties": {"p": {"default": {"deep": [0]}}, "q": {"type": "array", "default": []}},
        }
    for p in [s] + list(s["properties"].values()):
        if r.chance(15):
            p[r.pick(["autoDefault", "autoDefaultNull", "autoRemoveNull"])] = r.pick([True, True, False])
    s["properties"]["frame"] = {}
    s["properties"]["series"] = {}
    return s


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, pd.Series):
        return list(a.index) == list(b.index) and all(map(eq, list(a), list(b)))
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and all(eq(a[c], b[c]) for c in a.columns)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    return a == b or a != a and b != b


def dcopy(v):
    """A really deep copy (pandas' own one shares the objects held)."""
    if isinstance(v, dict):
        return {k: dcopy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dcopy(x) for x in v]
    if isinstance(v, pd.Series) and v.dtype == object:
        out = v.copy()
        for i, x in enumerate(list(v)):
            out.iat[i] = dcopy(x)
        return out
    return copy.deepcopy(v)


def scribble(v, tag):
    """Change every mutable thing reachable."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, tag)
        v["scribble"] = tag
    elif isinstance(v, list):
        for x in v:
            scribble(x, tag)
        v.append(tag)
    elif isinstance(v, pd.DataFrame):
        if v.size:
            v.iloc[0, 0] = -99
        v["scribble"] = 0
    elif isinstance(v, pd.Series):
        if v.size:
            v.iloc[0] = -99
        v["scribble"] = 0
    elif isinstance(v, np.ndarray) and v.size:
        v.flat[0] = -99


def has_pandas(v):
    if isinstance(v, dict):
        return any(has_pandas(x) for x in v.values())
    return isinstance(v, (pd.Series, pd.DataFrame, np.ndarray))


def run(r):
    from pandalone.pandata import Pandel

    schemas = [gen_schema(r) for _ in range(1 + r.draw(2))]
    shared = [
        {"x": [1, {"y": 2}]}, [1, [2, 3]], pd.Series({"u": 1.0, "v": 2.0}),
        pd.DataFrame({"u": [1.0, 2.0], "v": [3.0, 4.0]}), np.array([1, 2, 3]),
        {"s": pd.Series([1, 2, 3]), "l": []},
    ]
    subs = []

    def gen_sub():
        if r.chance(12):
            s = pd.Series({"a": 1.0, "b": 2.0})
            return s
        s = pdworld.gen_value(r, dict(schemas[0], type="object", properties={
            k: v for k, v in schemas[0]["properties"].items() if k in pdworld.KEYS}), r.pick([0, 0, 6]))
        if not isinstance(s, dict):
            s = {"e": s}
        if r.chance(60):
            k = r.pick(["frame", "series", "z", "sub", "m", "n"])
            s[k] = r.pick(
                {"frame": shared[3:4], "series": shared[2:3], "z": [shared[0], shared[5]], "sub": shared[0:1],
                 "m": shared[0:2], "n": shared[0:2]}[k])
            r.probe("shared_subtree")
        if r.chance(20):
            s["arr"] = shared[4]
        return s

    for _ in range(2 + r.draw(3)):
        subs.append(gen_sub())
    boom = []

    def cur_scribble(mm):
        scribble(mm.model, "curated")
        r.probe("curated")

    def cur_fail(mm):
        if boom:
            r.fault("curate")
            raise boom.pop()

    def maker(schema, loose, curs):
        class M(Pandel):
            def _get_json_schema(self, is_prevalidation):
                return loose if is_prevalidation else schema

        return M(curs)

    makers = []
    for i in range(2 + r.draw(2)):
        sc = r.pick(schemas)
        curs = r.pick([[], [cur_scribble], [cur_fail], [cur_scribble, cur_fail]])
        mm = maker(sc, r.pick([sc, pdworld.loosen(sc)]), curs)
        mm.stack = []
        for _ in range(1 + r.draw(3)):
            s = r.pick(subs)
            mm.stack.append(s)
            mm.add_submodel(s)
        makers.append(mm)
    snap = dcopy(subs)
    schema_snap = copy.deepcopy(schemas)
    models = {}  # maker-index -> (model, its snapshot)
    last_clean = {}  # maker-index -> snapshot of the built model since inputs changed
    scribbled = False

    def audit(what):
        for i, (a, b) in enumerate(zip(subs, snap)):
            r.check(eq(a, b), "input-modified", lambda: "%s changed submodel %i: %r became %r" % (what, i, b, a))
        r.check(schemas == schema_snap, "schema-modified", lambda: "%s changed the schema: %r" % (what, schemas))
        for i, (m, ms) in models.items():
            r.check(eq(m, ms), "model-modified", lambda: "%s changed the model of maker %i: %r became %r" % (what, i, ms, m))

    for _ in r.ops(3, 12):
        r.tick()
        op = r.weighted([(6, "build"), (4, "scribble"), (2, "input")])
        if op == "scribble" and models:
            i = r.pick(sorted(models))
            scribble(models[i][0], "client")
            models[i] = (models[i][0], dcopy(models[i][0]))
            r.log("scribble", i)
            r.probe("scribbled")
            scribbled = True
            audit("scribbling on a built model")
            continue
        if op == "input":
            i = r.draw(len(subs))
            scribble(subs[i], "input")
            # (subtrees may be shared among the submodels)
            snap = dcopy(subs)
            last_clean.clear()
            r.log("input", i)
            r.probe("input_changed")
            audit("changing a submodel")
            continue
        i = r.draw(len(makers))
        mm = makers[i]
        if r.chance(25):
            boom.append(r.pick([ValueError, KeyboardInterrupt])("injected"))
        models.pop(i, None)
        try:
            errs = list(mm.build_iter()) if r.chance(60) else []
            if not errs:
                mm.build()
            ok = not errs
        except KeyboardInterrupt:
            ok = False
        except Exception:
            ok = False
        del boom[:]
        r.log("build", i, ok)
        r.state(("build", ok, tuple(type(s).__name__ for s in mm.stack)))
        if not ok:
            r.probe("failed")
        audit("building (ok=%s)" % ok)
        if mm.model is not None:
            models[i] = (mm.model, dcopy(mm.model))
            if has_pandas(mm.model):
                r.probe("pandas")
        if ok:
            if isinstance(mm.model, dict) and "m" in mm.model and not any(isinstance(s, dict) and "m" in s for s in mm.stack):
                r.probe("default_filled")
            if isinstance(mm.model, dict) and isinstance(mm.model.get("sub"), dict) and "p" in mm.model["sub"]:
                r.probe("nested_default")
            if i in last_clean:
                r.check(
                    eq(mm.model, last_clean[i]), "rebuild-differs",
                    lambda: "maker %i rebuilt %r, had built %r from the same input" % (i, mm.model, last_clean[i]),
                )
            last_clean[i] = dcopy(mm.model)
            if scribbled:
                r.nontrivial = True
