"""Generators of schemas and submodels for Pandels, with a reference validator and merger."""
import copy

KEYS = ["a", "b", "c", "d"]
LEAFS = ["string", "number", "integer", "array"]


def gen_schema(r, depth=0, defaults=True):
    props = {}
    for k in KEYS[: 2 + r.draw(3)]:
        t = r.pick(LEAFS + (["object"] * 2 if depth < 2 else []))
        if t == "object":
            props[k] = gen_schema(r, depth + 1, defaults)
        else:
            props[k] = {"type": t}
            if t == "array":
                props[k]["items"] = {"type": r.pick(["number", "string"])}
            if defaults and r.chance(25):
                props[k]["default"] = good_value(r, props[k])
    s = {"type": "object", "properties": props}
    req = [k for k in props if "default" not in props[k] and r.chance(35)]
    if req:
        s["required"] = req
    if r.chance(30):
        s["additionalProperties"] = False
    return s


def loosen(schema):
    """The pre-validation variant: nothing is required."""
    s = {k: v for k, v in schema.items() if k != "required"}
    if "properties" in s:
        s["properties"] = {k: loosen(v) for k, v in s["properties"].items()}
    return s


def good_value(r, s):
    t = s.get("type")
    if t == "string":
        return r.pick(["x", "yy", ""])
    if t == "number":
        return r.pick([1, 2.5, -3])
    if t == "integer":
        return r.pick([1, 7, 0])
    if t == "array":
        return [good_value(r, s["items"]) for _ in range(r.draw(4))]
    return gen_value(r, s, 0)


def gen_value(r, s, bad_pct):
    """A submodel-tree for `s`; `bad_pct` of its nodes are of a wrong type."""
    if r.chance(bad_pct):
        return r.pick([5, "bad", ["bad", 1], {"zz": 1}])
    if s.get("type") == "object":
        out = {}
        for k in s["properties"]:
            if r.chance(60):
                out[k] = gen_value(r, s["properties"][k], bad_pct)
        if r.chance(8):
            out["extra%i" % r.draw(2)] = r.pick([1, "e", [1]])
        return out
    return good_value(r, s)


def is_type(v, t):
    if t == "string":
        return isinstance(v, str)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "array":
        return isinstance(v, list)
    return isinstance(v, dict)


def validate(v, s, path=()):
    """[(path, keyword)]; fills `default`s into `v`."""
    errs = []
    t = s.get("type")
    if t and not is_type(v, t):
        errs.append((path, "type"))
    if isinstance(v, dict):
        props = s.get("properties", {})
        for k, sub in props.items():
            if k not in v and "default" in sub:
                v[k] = copy.deepcopy(sub["default"])
        for k, sub in props.items():
            if k in v:
                errs += validate(v[k], sub, path + (k,))
        for k in s.get("required", ()):
            if k not in v:
                errs.append((path, "required"))
        if s.get("additionalProperties") is False and any(k not in props for k in v):
            errs.append((path, "additionalProperties"))
    if isinstance(v, list) and "items" in s:
        for i, x in enumerate(v):
            errs += validate(x, s["items"], path + (i,))
    return errs


def merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(a[k], v) if k in a else copy.deepcopy(v)
        return out
    return copy.deepcopy(b)


class Conflict(Exception):
    pass


def merge_all(subs):
    m = copy.deepcopy(subs[0])
    for s in subs[1:]:
        m = merge(m, s)
    return m


def conflicts(a, b):
    """Does merging meet a mapping against a scalar (which is not documented)?"""
    if isinstance(a, dict) and isinstance(b, dict):
        return any(conflicts(a[k], b[k]) for k in a if k in b)
    if isinstance(a, dict) or isinstance(b, dict):
        return not isinstance(a, list) and not isinstance(b, list)
    return False
