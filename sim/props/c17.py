"""C17: validating model-trees reports exactly their violations, however validations interleave or fail."""
import collections.abc as cabc
import copy
import numbers
import re

import numpy as np
import pandas as pd

ID = "C17"
QUICK = 40000
THOROUGH = 700000
RULE = (
    "one run = 1-3 schemas and 1-4 trees of mappings, sequences, Series, DataFrames and numpy values, and clients validating "
    "them by shared or own validators: their lazy iterations of errors are advanced one by one in drawn order, some "
    "abandoned, some hit by failures in reading the tree. Every finished iteration is compared with a reference "
    "validator, and with previous ones of the same. Non-trivial: two iterations overlapped, or a failure struck."
)
STATES = "hash of (draft, kinds of violations, type of tree, way of validating, where struck)"
REAL = ["PandelVisitor", "Pandel (validation steps)", "jsonschema", "pandas", "numpy"]
STUB = ["the mappings holding the trees (failing at will)"]
PROBES = [
    "valid", "invalid", "overlapped", "abandoned", "fault_surfaced", "retried", "series", "frame", "array", "nan", "draft4", "ref",
    "k_type", "k_required", "k_additionalProperties", "k_patternProperties", "k_propertyNames", "k_enum", "k_range", "k_combined", "k_aP_schema",
    "pandel", "is_valid", "validate",
]
DRAFTS = [None, "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-06/schema#", "http://json-schema.org/draft-04/schema#"]
KEYS = ["a", "b", "c", "x_d", "x_e", "longer"]


class Boom:
    n = None
    exc = None
    fired = False


def hit():
    if Boom.n is not None:
        if Boom.n == 0:
            Boom.n = None
            Boom.fired = True
            raise Boom.exc
        Boom.n -= 1


class Doc(cabc.MutableMapping):
    """A client's own mapping, that may fail to be read."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        hit()
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        hit()
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        hit()
        return k in self.d

    def __repr__(self):
        return "Doc(%r)" % (self.d,)

    def __deepcopy__(self, memo):
        return Doc(copy.deepcopy(self.d, memo))


# ---------------------------------------------------------------- generating
TYPES = ["string", "number", "integer", "boolean", "null", "array", "object"]


def gen_schema(r, depth=0):
    s = {}
    what = r.weighted([(4, "object"), (2, "any"), (3, "leaf"), (1, "array"), (1, "combined"), (1, "ref")]) if depth else "object"
    if depth > 2 and what in ("object", "combined", "array"):
        what = "leaf"
    if what == "any":
        return {}
    if what == "ref":
        return {"$ref": "#/definitions/node"}
    if what == "leaf":
        t = r.pick(TYPES[:5])
        s["type"] = t if r.chance(70) else [t, r.pick(TYPES)]
        if r.chance(30):
            s["enum"] = r.pick([["s", "tt", 5], [2.5, "s"], ["x", None, 7], [3, 4, 5]])
        if r.chance(25):
            s["minimum"] = r.pick([2, 0, 4.5])
        if r.chance(15):
            s["maximum"] = r.pick([5, 3])
        if r.chance(15):
            s["minLength"] = 2
        if r.chance(15):
            s["pattern"] = "^[st]"
        return s
    if what == "array":
        s["type"] = "array"
        if r.chance(70):
            s["items"] = gen_schema(r, depth + 1)
        if r.chance(30):
            s["minItems"] = 2
        return s
    if what == "combined":
        how = r.pick(["allOf", "anyOf", "not"])
        if how == "not":
            s["not"] = gen_schema(r, depth + 1)
        else:
            s[how] = [gen_schema(r, depth + 1) for _ in range(1 + r.draw(3))]
        return s
    if r.chance(70):
        s["type"] = r.pick(["object", ["object"], ["object", "null"], ["array", "object"]])
    props = {k: gen_schema(r, depth + 1) for k in KEYS if r.chance(45)}
    if props or r.chance(30):
        s["properties"] = props
    if r.chance(45):
        s["required"] = [k for k in KEYS if r.chance(35)] or ["a"]
    if r.chance(30):
        s["patternProperties"] = {p: r.pick([{}, {"type": "number"}, {"type": "string"}, {"minimum": 3}]) for p in ["^x_", "er$", "^[ab]$"] if r.chance(50)}
    if r.chance(60):
        s["additionalProperties"] = r.pick([False, False, True, {"type": "string"}, {"type": ["number", "array"]}])
    if r.chance(30):
        s["propertyNames"] = r.pick([{"maxLength": 3}, {"pattern": "^[a-e]"}, {"enum": ["a", "b", "x_d"]}, {"pattern": "x", "maxLength": 2}])
    if r.chance(12):
        s["minProperties"] = 2
    return s


def gen_leaf(r):
    return r.pick([
        5, 2.5, "s", "tt", "other", True, False, None, 1, 0, 3, np.int64(4), np.int64(1), np.float64(3.5), np.float64("nan"), float("nan"), np.bool_(True),
        np.int32(7), "", [1, 2], (1, "s"), [], np.array([1, 2, 5]), np.array([1.5, np.nan]), {}, np.array([np.nan]), -1,
    ])


def gen_tree(r, depth=0):
    k = r.weighted([(6, "dict"), (3, "series"), (2, "frame"), (2, "list"), (1, "leaf")]) if depth == 0 else r.weighted(
        [(5, "leaf"), (3, "dict"), (1, "series"), (1, "frame"), (1, "list")])
    if depth > 2:
        k = "leaf"
    if k == "leaf":
        return gen_leaf(r)
    if k == "list":
        return [gen_tree(r, depth + 1) for _ in range(r.draw(4))]
    if k == "series":
        keys = [x for x in KEYS if r.chance(50)]
        kind = r.draw(3)
        if kind == 0:
            return pd.Series({x: float(r.draw(7)) if r.chance(85) else float("nan") for x in keys}, dtype=float)
        if kind == 1:
            return pd.Series({x: r.draw(7) for x in keys}, dtype="int64")
        return pd.Series({x: r.pick(["s", "tt", 3, True, None, 2.5]) for x in keys}, dtype=object)
    if k == "frame":
        cols = [x for x in KEYS if r.chance(50)]
        n = r.draw(4)
        return pd.DataFrame(
            {c: r.pick([[float(r.draw(6)) for _ in range(n)], ["s"] * n, [True] * n, [float("nan")] * n]) for c in cols},
            index=["a", "b", "other"][:n], columns=cols or None)
    d = {x: gen_tree(r, depth + 1) for x in KEYS if r.chance(50)}
    return Doc(d) if r.chance(50) else d


# ---------------------------------------------------------------- reference
class Unspecified(Exception):
    pass


def is_type(v, t):
    pandas = isinstance(v, (pd.Series, pd.DataFrame))
    if t == "array":
        return isinstance(v, (list, tuple, np.ndarray, pd.Series))
    if t == "object":
        return isinstance(v, (dict, Doc)) or pandas
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, (bool, np.bool_))
    if t == "integer":
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, numbers.Number) and not isinstance(v, (bool, np.bool_))
    if v is None or isinstance(v, (float, np.floating)) and v != v:
        return True
    if isinstance(v, np.ndarray) or pandas:
        if v.size == 1:
            x = v.iloc[0] if isinstance(v, pd.Series) else v.iloc[0, 0] if pandas else v.flat[0]
            return isinstance(x, (float, np.floating)) and x != x
    return False


def items_of(v):
    if isinstance(v, Doc):
        return list(v.d.items())
    if isinstance(v, (dict, pd.Series)):
        return list(v.items())
    return [(c, v[c]) for c in v.columns]


def ref(s, v, path, root, d4, where=None):
    """[(path, keyword)] of the violations of schema `s` by `v`."""
    out = []
    if "$ref" in s:
        return ref(root["definitions"]["node"], v, path, root, d4)
    t = s.get("type")
    if t and not any(is_type(v, x) for x in ([t] if isinstance(t, str) else t)):
        out.append((path, "type"))
    if "enum" in s:
        if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)):
            raise Unspecified
        if not any(v == x for x in s["enum"]):
            out.append((path, "enum"))
    if is_type(v, "number"):
        if "minimum" in s and v < s["minimum"]:
            out.append((path, "minimum"))
        if "maximum" in s and v > s["maximum"]:
            out.append((path, "maximum"))
    if isinstance(v, str):
        if "minLength" in s and len(v) < s["minLength"]:
            out.append((path, "minLength"))
        if "maxLength" in s and len(v) > s["maxLength"]:
            out.append((path, "maxLength"))
        if "pattern" in s and not re.search(s["pattern"], v):
            out.append((path, "pattern"))
    if is_type(v, "array"):
        if "minItems" in s and len(v) < s["minItems"]:
            out.append((path, "minItems"))
        if "items" in s:
            for i, x in enumerate(list(v)):
                out += ref(s["items"], x, path + (i,), root, d4)
    if is_type(v, "object"):
        its = items_of(v)
        keys = [k for k, _ in its]
        if any(not isinstance(k, str) for k in keys):
            raise Unspecified
        props, pats = s.get("properties", {}), s.get("patternProperties", {})
        for k in s.get("required", ()):
            if k not in keys:
                out.append((path, "required"))
        if "minProperties" in s:
            if isinstance(v, pd.DataFrame):
                raise Unspecified
            if len(keys) < s["minProperties"]:
                out.append((path, "minProperties"))
        extras = []
        for k, x in its:
            if k in props:
                out += ref(props[k], x, path + (k,), root, d4)
            hits = [p for p in pats if re.search(p, k)]
            for p in hits:
                out += [(q, w) for q, w in ref(pats[p], x, path + (k,), root, d4)]
            if k not in props and not hits:
                extras.append((k, x))
        aP = s.get("additionalProperties", True)
        if aP is False:
            if extras:
                out.append((path, "additionalProperties"))
        elif aP is not True:
            for k, x in extras:
                out += ref(aP, x, path + (k,), root, d4)
        if "propertyNames" in s and not d4:
            for k in keys:
                out += ref(s["propertyNames"], k, path, root, d4)
    for sub in s.get("allOf", ()):
        out += ref(sub, v, path, root, d4)
    if "anyOf" in s and all([ref(sub, v, path, root, d4) for sub in s["anyOf"]]):
        out.append((path, "anyOf"))
    if "not" in s and not ref(s["not"], v, path, root, d4):
        out.append((path, "not"))
    return out


def render(v):
    if isinstance(v, Doc):
        return "D" + render(v.d)
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (k, render(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(map(render, v))
    if isinstance(v, pd.DataFrame):
        return "F%s%s" % (list(v.index), render({c: list(v[c]) for c in v.columns}))
    if isinstance(v, pd.Series):
        return "S%s%s" % (v.dtype, render(dict(v.items())))
    if isinstance(v, np.ndarray):
        return "A" + render(list(v))
    return "%s %r" % (type(v).__name__, v)


GROUPS = {"minimum": "range", "maximum": "range", "minLength": "range", "anyOf": "combined", "not": "combined"}


def run(r):
    from jsonschema import ValidationError
    from pandalone.pandata import Pandel, PandelVisitor

    Boom.n = Boom.exc = None
    Boom.fired = False

    def disarm():
        Boom.n = None

    r.cleanups.append(disarm)
    schemas = []
    for _ in range(1 + r.draw(3)):
        s = gen_schema(r)
        s["definitions"] = {"node": r.pick([
            {"type": "object", "properties": {"a": {"$ref": "#/definitions/node"}}, "required": ["b"]},
            {"type": ["number", "string"]},
            {"type": "object", "additionalProperties": {"$ref": "#/definitions/node"}},
        ])}
        draft = r.pick(DRAFTS)
        if draft:
            s["$schema"] = draft
        schemas.append(s)
    if any("draft-04" in s.get("$schema", "") for s in schemas):
        r.probe("draft4")
    shown = [copy.deepcopy(s) for s in schemas]
    trees = [gen_tree(r) for _ in range(1 + r.draw(4))]
    kept = [render(t) for t in trees]
    r.log("schemas", schemas)
    r.log("trees", kept)
    visitors = {}
    first = {}
    live = []
    broke = set()

    class M(Pandel):
        def __init__(self, s):
            self.s = s
            super().__init__()

        def _get_json_schema(self, is_prevalidation):
            return self.s

    def expected(i, j):
        if (i, j) not in wants:
            try:
                wants[i, j] = sorted(ref(shown[i], trees[j], (), shown[i], "draft-04" in shown[i].get("$schema", "")), key=repr)
            except Unspecified:
                wants[i, j] = None
        return wants[i, j]

    wants = {}

    def visitor(i):
        if i not in visitors or r.chance(30):
            visitors[i] = PandelVisitor(schemas[i])
        return visitors[i]

    def finish(i, j, errs):
        """`errs`: those reported by a whole iteration."""
        got = [(tuple(e.absolute_path), e.validator) for e in errs]
        want = expected(i, j)
        r.log("done", i, j, got)
        r.check(
            sorted(got, key=repr) == want, "wrong-violations",
            lambda: "validating %s reported %r, must be %r by %r" % (kept[j], sorted(got, key=repr), want, shown[i]),
        )
        texts = [e.message for e in errs]
        if (i, j) in first:
            r.check(first[i, j] == (got, texts), "not-repeatable", lambda: "validating %s again reported %r, was %r" % (kept[j], (got, texts), first[i, j]))
        first[i, j] = (got, texts)
        r.probe("invalid" if got else "valid")
        if (i, j) in broke:
            r.probe("retried")
        t = trees[j]
        if "ref" in repr(shown[i]):
            r.probe("ref")
        r.probe({"Series": "series", "DataFrame": "frame"}.get(type(t).__name__, "array" if "A[" in kept[j] else "nan" if "nan" in kept[j] else "valid"))
        for _, k in got:
            if "k_" + GROUPS.get(k, k) in PROBES:
                r.probe("k_" + GROUPS.get(k, k))
        if "patternProperties" in repr(shown[i]):
            r.probe("k_patternProperties")
        if "propertyNames" in repr(shown[i]):
            r.probe("k_propertyNames")
        if "additionalProperties': {" in repr(shown[i]):
            r.probe("k_aP_schema")
        r.state((shown[i].get("$schema"), sorted(set(k for _, k in got)), type(t).__name__))

    def unchanged():
        r.check([render(t) for t in trees] == kept, "tree-modified", lambda: "trees %r became %r" % (kept, [render(t) for t in trees]))
        r.check(schemas == shown, "schema-modified", lambda: "schemas %r became %r" % (shown, schemas))

    for _ in r.ops(4, 16):
        r.tick()
        op = r.weighted([(4, "whole"), (3, "start"), (6, "next"), (1, "abandon"), (2, "is_valid"), (2, "validate"), (2, "pandel")])
        if op in ("next", "abandon"):
            if not live:
                continue
            c = r.pick(live)
            if op == "abandon":
                live.remove(c)
                c[2].close()
                r.probe("abandoned")
                r.log("abandon", c[0], c[1])
                continue
            if len(live) > 1:
                r.probe("overlapped")
                r.nontrivial = True
            i, j = c[:2]
        else:
            i, j = r.draw(len(schemas)), r.draw(len(trees))
            if expected(i, j) is None:
                continue
        if op == "start":
            live.append((i, j, iter(visitor(i).iter_errors(trees[j])), []))
            r.log("start", i, j)
            continue
        want = expected(i, j)
        struck = "Doc" in kept[j] or "D{" in kept[j]
        armed = struck and op != "pandel" and r.chance(35)
        if armed:
            Boom.n, Boom.exc, Boom.fired = r.draw(12), r.pick([OSError, KeyError, ValueError, MemoryError, KeyboardInterrupt, RuntimeError])("injected"), False
            if isinstance(Boom.exc, (KeyError,)):
                # (a mapping is allowed to tell so when asked)
                Boom.exc = PermissionError("injected")
        err, res, done = None, None, False
        try:
            if op == "whole":
                res = list(visitor(i).iter_errors(trees[j]))
            elif op == "next":
                try:
                    res = next(c[2])
                except StopIteration:
                    done = True
            elif op == "is_valid":
                res = visitor(i).is_valid(trees[j])
            elif op == "validate":
                visitor(i).validate(trees[j])
            else:
                m = M(schemas[i])
                m.add_submodel(trees[j])
                res = list(m.build_iter())
        except ValidationError as ex:
            err = ex
            r.check(op == "validate", "unexpected-error", lambda: "%s raised %r" % (op, ex))
        except (Exception, KeyboardInterrupt) as ex:
            err = ex
            if not armed or not Boom.fired:
                raise
        Boom.n = None
        if armed and Boom.fired:
            Boom.fired = False
            r.fault("read-failure")
            r.probe("fault_surfaced")
            r.log("struck", op, i, j, type(err).__name__)
            r.check(err is Boom.exc, "fault-masked", lambda: "validating %s (%s) while reading fails with %r gave %r" % (kept[j], op, Boom.exc, err or res))
            if op == "next":
                live.remove(c)
            broke.add((i, j))
            r.state((op, "struck", type(trees[j]).__name__))
            unchanged()
            continue
        if op == "whole":
            finish(i, j, res)
        elif op == "next":
            if done:
                live.remove(c)
                finish(i, j, c[3])
            else:
                c[3].append(res)
                r.log("next", i, j, tuple(res.absolute_path), res.validator)
        elif op == "is_valid":
            r.probe("is_valid")
            r.log("is_valid", i, j, res)
            r.check(res is (not want), "wrong-verdict", lambda: "%s judged valid: %r, violations %r" % (kept[j], res, want))
        elif op == "validate":
            r.probe("validate")
            r.log("validate", i, j, err is None)
            r.check((err is None) == (not want), "wrong-verdict", lambda: "validate(%s) raised %r, violations %r" % (kept[j], err, want))
            if err is not None:
                r.check((tuple(err.absolute_path), err.validator) in want, "wrong-verdict", lambda: "validate(%s) raised %r, violations %r" % (kept[j], err, want))
        else:
            r.probe("pandel")
            got = sorted(((tuple(e.absolute_path), e.validator) for e in res[:-1]), key=repr)
            r.log("pandel", i, j, got)
            if want:
                r.check(got == want, "wrong-violations", lambda: "building %s reported %r, must be %r by %r" % (kept[j], [e.message for e in res], want, shown[i]))
        unchanged()
