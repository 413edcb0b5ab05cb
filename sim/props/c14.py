"""C14: what gets built depends on the stack of submodels and nothing else."""
import copy

import numpy as np
import pandas as pd

from .. import pdworld

ID = "C14"
QUICK = 6000
THOROUGH = 150000
HASHSEEDS = [1, 2, 3]
HASHSEED_RUNS = 250
RULE = (
    "one run = 1-3 model-makers over generated stacks of mappings, sequences, Series and DataFrames, built repeatedly "
    "in drawn orders with other (also failing) builds in-between; every model is compared with a reference merge, and "
    "all errors with those of the 1st build, texts and order included. The first runs are repeated in interpreters "
    "with other hash-seeds and their histories compared. Non-trivial: >=2 builds of one maker."
)
STATES = "hash of (types of the stack, number of errors, build ordinal)"
REAL = ["Pandel", "PandelVisitor", "jsonschema", "pandas"]
STUB = ["nothing but the schema provider"]
PROBES = ["ok", "errors", "series", "frame", "rebuilt", "override", "seq_overwrites", "nested", "extras_errors", "frame_extra_cols", "defaults", "flags"]


def gen_stack(r):
    """Submodels for keys s (series), f (frames), t (trees), l (lists)."""
    stack = []
    for _ in range(1 + r.draw(4)):
        d = {}
        if r.chance(40):
            x = {k: float(r.draw(9)) for k in "uvwxyz" if r.chance(45)}
            if x and r.chance(20):
                x[r.pick(sorted(x))] = float("nan")
            d["s"] = pd.Series(x, dtype=float) if r.chance(60) else x
        if r.chance(40):
            n = 1 + r.draw(3)
            cols = [k for k in "pqrstuvw" if r.chance(40)] or ["p"]
            if r.chance(30):
                cols.reverse()
            f = {c: [float(r.draw(9)) for _ in range(n)] for c in cols}
            if r.chance(15):
                f[cols[0]][0] = float("nan")
            d["f"] = pd.DataFrame(f)
        if r.chance(60):
            d["t"] = gen_tree(r, 0)
        if r.chance(40):
            d["l"] = r.pick([[1, 2], ["a"], [], {"k": 1}, [[1], {"z": 2}]])
        if r.chance(15):
            for k in "hgjkio":
                if r.chance(50):
                    d["x_" + k] = r.draw(3)
        stack.append(d)
    return stack


def gen_tree(r, depth):
    if depth < 3 and r.chance(65):
        return {k: gen_tree(r, depth + 1) for k in ["a", "b", "c", "d"] if r.chance(55)}
    if r.chance(8):
        return None
    if r.chance(6):
        return r.pick([float("nan"), np.nan, np.float64("nan")])
    return r.pick([1, 2.5, "s", [1], ["q", {"w": 1}], 0, "", False, [], 0.0, True])


def gen_props(r, depth=0):
    """Schema of a tree, with defaults."""
    out = {}
    for k in "abcd":
        if r.chance(50):
            p = out[k] = gen_props(r, depth + 1) if depth < 2 and r.chance(50) else {}
            if r.chance(45):
                p["default"] = r.pick([0, 7, "", "dflt", [1, [2]], {"a": {"b": 1}}, {}, False])
            if r.chance(25):
                p["autoDefault"] = r.chance(50)
            if r.chance(25):
                p["autoDefaultNull"] = r.chance(70)
            if r.chance(15):
                p["autoRemoveNull"] = r.chance(70)
            if "properties" not in p and r.chance(15):
                p["type"] = r.pick(["null", ["null", "number"], ["number", "string", "boolean", "object", "array", "null"]])
    return {"properties": out} if out else {}


def is_null(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return v.size == 1 and bool(v.isna().to_numpy().all())
    return v is None or isinstance(v, float) and v != v


def fill(schema, v, flags):
    """Defaults filled in by the validation, in place."""
    if not isinstance(v, (dict, pd.Series, pd.DataFrame)):
        return
    props = schema.get("properties", {})
    for k, p in props.items():
        nullable = "null" in p.get("type", ())
        null = k in v and not nullable and is_null(v[k])
        on = {f: p[f] if f in p else flags.get(a, a == "auto_default") for f, a in FLAGS.items()}
        if "default" in p and (on["autoDefault"] and k not in v or on["autoDefaultNull"] and null):
            v[k] = copy.deepcopy(p["default"])
        elif on["autoRemoveNull"] and null:
            del v[k]
    for k, p in props.items():
        if k in v:
            fill(p, v[k], flags)


FLAGS = {"autoDefault": "auto_default", "autoDefaultNull": "auto_default_nulls", "autoRemoveNull": "auto_remove_nulls"}


def ref_merge(a, b):
    """(dict-typed `s` and `f` hold for Series and frames)"""
    if b is None:
        return a
    if a is None:
        return b
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k in b:
            out[k] = ref_merge(a[k], b[k]) if k in a else b[k]
        return out
    if isinstance(a, (pd.Series, dict)) and isinstance(b, (pd.Series, dict)):
        a, b = dict(a), dict(b)
        out = dict(a)
        for k, v in b.items():
            if k not in a or v == v:
                out[k] = v
        return pd.Series(out, dtype=float)
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        cols = {}
        for c in a.columns:
            vals = list(a[c])
            if c in b.columns:
                for i in range(min(len(a), len(b))):
                    x = b[c].iloc[i]
                    if x == x:
                        vals[i] = x
            cols[c] = vals
        for c in b.columns:
            if c not in cols:
                bv = list(b[c])
                cols[c] = [bv[i] if i < len(bv) else float("nan") for i in range(len(a))]
        return pd.DataFrame(cols)
    return b


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, pd.Series) and isinstance(b, pd.Series):
        return same(a.to_dict(), b.to_dict())
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        return list(a.columns) == list(b.columns) and all(same(list(a[c]), list(b[c])) for c in a.columns)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b


def render(v):
    """A text with every order that a client may see."""
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (k, render(x)) for k, x in v.items())
    if isinstance(v, list):
        return "[%s]" % ",".join(map(render, v))
    if isinstance(v, pd.Series):
        return "S" + render(v.to_dict())
    if isinstance(v, pd.DataFrame):
        return "F" + render({c: list(v[c]) for c in v.columns})
    return repr(v)


def run(r):
    from pandalone.pandata import Pandel, PandelVisitor

    def maker(schema, flags):
        class M(Pandel):
            def _get_json_schema(self, is_prevalidation):
                return schema

            if flags:
                def _get_model_validator(self, schema):
                    return PandelVisitor(schema, **flags)

        return M()

    makers = []
    for _ in range(1 + r.draw(3)):
        schema = {"properties": {"t": {}, "l": {}, "s": {}, "f": {}}}
        if r.chance(50):
            schema["properties"]["t"] = gen_props(r)
            if r.chance(50):
                schema["properties"]["t"]["default"] = {"a": {"a": {}}}
            if r.chance(30):
                schema["properties"]["l"]["default"] = [{}, "l"]
        elif r.chance(30):
            schema["properties"]["t"] = {"type": "object", "properties": {k: {"type": r.pick(["number", "object"])} for k in "abcd"}}
        if r.chance(40):
            schema["properties"]["s"] = {"type": "object", "additionalProperties": r.pick([False, {"type": "string"}]),
                                         "properties": {"u": {}}}
        elif r.chance(40):
            schema["properties"]["s"] = {"properties": {"u": {"default": 5.0}, "zz": {"default": 6.5}}}
        if r.chance(30):
            schema["properties"]["f"] = {"type": "object", "additionalProperties": False, "properties": {"p": {}, "q": {}}}
        if r.chance(30):
            schema["additionalProperties"] = False
            if r.chance(50):
                schema["patternProperties"] = {"^x_[hg]": {}, "^x_j": {"type": "string"}}
        flags = {}
        if r.chance(50):
            for a in FLAGS.values():
                if r.chance(70):
                    flags[a] = r.pick([True, False, None])
        mm = maker(schema, flags)
        if flags:
            r.probe("flags")
        mm.flags = flags
        mm.schema = copy.deepcopy(schema)
        mm.stack = gen_stack(r)
        for s in mm.stack:
            mm.add_submodel(s)
        mm.first = None
        makers.append(mm)
    for _ in r.ops(2, 8):
        r.tick()
        mm = r.pick(makers)
        i = makers.index(mm)
        if r.chance(10):
            s = r.pick(mm.stack) if r.chance(50) else gen_stack(r)[0]
            mm.stack.append(s)
            mm.add_submodel(s)
            mm.first = None
            r.log("push", i)
            continue
        if r.chance(15):
            try:
                mm.build()
            except Exception:
                pass
            r.log("build")
            continue
        bad = any(conflict(ref_all(mm.stack[:k]), mm.stack[k]) for k in range(1, len(mm.stack)))
        errs = [e.message for e in mm.build_iter()]
        r.log("build", i, errs, "" if errs else render(mm.model))
        if mm.first is not None:
            r.probe("rebuilt")
            r.nontrivial = True
            r.check(errs == mm.first[0], "rebuild-differs", lambda: "errors %r, were %r" % (errs, mm.first[0]))
            r.check(
                errs or render(mm.model) == mm.first[1], "rebuild-differs",
                lambda: "model %s, was %s" % (render(mm.model), mm.first[1]),
            )
        mm.first = (errs, None if errs else render(mm.model))
        r.state(([sorted((k, type(v).__name__) for k, v in s.items()) for s in mm.stack], len(errs)))
        if errs:
            r.probe("errors")
            if any("unexpected" in e or "match any" in e for e in errs):
                r.probe("extras_errors")
            continue
        if bad:
            continue
        want = ref_all(mm.stack)
        plain = copy.deepcopy(want)
        fill(mm.schema, want, mm.flags)
        if not same(want, plain):
            r.probe("defaults")
        r.check(
            same(mm.model, want), "wrong-merge",
            lambda: "merged %s into %s, must be %s by %r" % ([render(s) for s in mm.stack], render(mm.model), render(want), (mm.schema, mm.flags)),
        )
        for k, v in want.items():
            r.check(
                mm.get("/" + k) is mm.model[k] and mm.get("/" + k + "/nothing/such", default=None) is None, "wrong-get",
                lambda: "get(%r): %r" % (k, mm.get("/" + k)))
        r.probe("ok")
        if "s" in want:
            r.probe("series")
        if "f" in want:
            r.probe("frame")
            if any(len(s["f"].columns) < len(want["f"].columns) for s in mm.stack if "f" in s):
                r.probe("frame_extra_cols")
        if len(mm.stack) > 1:
            r.probe("override")
        if isinstance(want.get("t"), dict) and any(isinstance(v, dict) for v in want["t"].values()):
            r.probe("nested")
        if sum("l" in s for s in mm.stack) > 1:
            r.probe("seq_overwrites")


def ref_all(stack):
    m = copy.deepcopy(stack[0])
    for s in stack[1:]:
        m = ref_merge(m, copy.deepcopy(s))
    return m


def conflict(a, b):
    if a is None or b is None:
        return a is b  # (refused)
    if isinstance(a, dict) and isinstance(b, dict):
        return any(conflict(a[k], b[k]) for k in a if k in b)
    if isinstance(a, dict) or isinstance(b, dict):
        return not any(isinstance(x, (list, pd.Series)) for x in (a, b))
    return False
