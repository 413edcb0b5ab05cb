"""C25: objects stored with the JSON codec come back equal, or not at all."""
import datetime
import io
import json

ID = "C25"
QUICK = 2500
THOROUGH = 80000
RULE = (
    "one run = 3-12 objects (scalars, texts and bytes with all kinds of line-endings, nested and cyclic containers, numpy, pandas, "
    "classes, unpicklable ones) encoded and appended as lines to a simulated log-file that translates line-endings, tears, "
    "loses or duplicates writes and crashes; then, after restarts, everything readable is decoded and compared. "
    "Non-trivial: a storage fault, or a document spanning many quoted-printable lines."
)
STATES = "hash of (kind of object, document-size class, storage mode, fault, outcome)"
REAL = ["pandata.JSONCodec", "json, pickle, binascii", "numpy, pandas"]
STUB = ["storage (a list of writes over a text file in memory)"]
PROBES = ["roundtrip", "long", "crlf_in", "bytes", "numpy", "pandas", "cyclic", "shared", "class", "unpicklable", "torn", "lost", "dup", "crlf_store", "latin_store", "plain", "mutated", "clipped", "indented"]


CLIPPED = object()


class Thing:
    """An ordinary user-class."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return type(o) is Thing and same(self.__dict__, o.__dict__)

    __hash__ = None


class Bad:
    def __init__(self, ex):
        self.ex = ex

    def __reduce__(self):
        raise self.ex


def same(a, b, seen=None):
    import numpy as np
    import pandas as pd

    if type(a) is not type(b):
        return False
    seen = seen or set()
    if (id(a), id(b)) in seen:
        return True
    if isinstance(a, (list, tuple, dict, Thing)):
        seen = seen | {(id(a), id(b))}
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], seen) for k in a)
    if isinstance(a, Thing):
        return same(a.__dict__, b.__dict__, seen)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and same(a.tolist(), b.tolist())
    if isinstance(a, (pd.DataFrame, pd.Series)):
        try:
            (pd.testing.assert_frame_equal if isinstance(a, pd.DataFrame) else pd.testing.assert_series_equal)(a, b)
            return True
        except AssertionError:
            return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


BITS = ["\n", "\r\n", "\r", " \n", "\t\r\n", "=", "=\n", "=0A", ".", "\n.\n", " ", "\x00", "a", "é", "\u2028", "中", "_", "x" * 74, "y" * 400, '"', "\\", "\x1a", "\xff"]


def gen(r, deep=0):
    import numpy as np
    import pandas as pd

    k = r.weighted(
        [(3, "int"), (4, "text"), (4, "bytes"), (2, "float"), (2, "list"), (2, "dict"), (1, "tuple"), (1, "np"), (1, "df"), (1, "series"),
         (1, "thing"), (1, "date"), (1, "none"), (1, "cyclic"), (1, "shared"), (1, "bad")]
    )
    if deep > 2 and k in ("list", "dict", "tuple", "thing", "cyclic", "shared"):
        k = "int"
    sub = lambda: gen(r, deep + 1)[1]
    if k == "int":
        return k, r.pick([0, 1, -1, 10, 13, 61, 256 * 13 + 10, 2 ** 40 + 0x0D0A, True, 0x0A0D0A0D])
    if k == "text":
        return k, "".join(r.pick(BITS) for _ in range(r.draw(12)))
    if k == "bytes":
        if r.chance(30):
            return k, bytes(r.draw(256) for _ in range(r.draw(120)))
        return k, "".join(r.pick(BITS) for _ in range(r.draw(12))).encode("utf-8")
    if k == "float":
        return k, r.pick([0.0, -0.0, 3.14, float("inf"), float("nan"), 1e-300])
    if k == "list":
        return k, [sub() for _ in range(r.draw(5))]
    if k == "dict":
        return k, {r.pick(["a", "$qpickle", "_ver", 1, None, ("t",), "\n", b"\r\n"]): sub() for _ in range(r.draw(5))}
    if k == "tuple":
        return k, tuple(sub() for _ in range(r.draw(4)))
    if k == "np":
        n = r.draw(9)
        return k, r.pick(
            [np.arange(n), np.array([0x0A0D] * n, dtype="i2"), np.array([]), np.ones((2, n), order=r.pick("CF")), np.array(["é\n"] * n), np.array([None, "x\r\n"], dtype=object)]
        )
    if k == "df":
        return k, r.pick([pd.DataFrame([]), pd.DataFrame({"a\n": [1, 2], "b": ["\r\n", None]}), pd.DataFrame([[1.5, 10, 13]] * r.draw(20), columns=list("xyz"))])
    if k == "series":
        return k, r.pick([pd.Series([1, 2, 10]), pd.Series({"k\r": 13, "": 2}), pd.Series([], dtype=float)])
    if k == "thing":
        return k, Thing(a=sub(), b=sub())
    if k == "date":
        return k, datetime.datetime(2000 + r.draw(30), 1 + r.draw(12), 10, 13, 10, 13)
    if k == "none":
        return k, None
    if k == "cyclic":
        a = [1, "\n"]
        a.append({"self": a})
        return k, a
    if k == "shared":
        a = ["s\r\n"]
        return k, [a, a]
    return k, r.pick([Bad(ValueError("bad")), Bad(KeyboardInterrupt()), [1, Bad(TypeError("nested"))], lambda: 0, [1, {"f": lambda: 0}]])


def has_bad(v):
    if isinstance(v, (list, tuple)):
        return not (len(v) == 3 and isinstance(v[2], dict) and v[2].get("self") is v) and any(has_bad(x) for x in v)
    if isinstance(v, dict):
        return any(has_bad(x) for x in v.values())
    if isinstance(v, Thing):
        return has_bad(v.__dict__)
    return isinstance(v, Bad) or (callable(v) and getattr(v, "__name__", "") == "<lambda>")


def run(r):
    import copy

    import numpy as np
    import pandas as pd
    from pandalone.pandata import JSONCodec

    newline = r.pick(["\n", "\r\n", "\n"])
    enc = r.pick(["utf-8", "latin-1", "ascii"])
    if newline == "\r\n":
        r.probe("crlf_store")
    if enc != "utf-8":
        r.probe("latin_store")
    store = []  # lines as stored (bytes)
    want = []  # (index in `store` or None, object, kind)
    plain_docs = []
    for _ in r.ops(3, 12):
        r.tick()
        if r.chance(10):
            doc = r.pick([{}, {"a": 1, "b": ["\n"]}, {"_ver": "0"}, {"x": {"$qpickle": "zz"}}])
            got = json.loads(json.dumps(doc), cls=JSONCodec.Decoder)
            r.check(got == doc, "plain", lambda: "plain JSON %r decoded as %r" % (doc, got))
            r.probe("plain")
            continue
        kind, o = gen(r)
        kw = {}
        if r.chance(20):
            kw = r.pick([{"indent": 2}, {"ensure_ascii": False}, {"sort_keys": True}, {"separators": (",", ":")}, {"indent": 0}])
        exc = None
        try:
            txt = json.dumps(o, cls=JSONCodec.Encoder, **kw)
        except (Exception, KeyboardInterrupt) as ex:
            exc = ex
        bad = has_bad(o)
        r.log("encode", kind, kw, type(exc).__name__, len(txt) if exc is None else "")
        if bad:
            r.check(exc is not None, "unpicklable-stored", lambda: "an unpicklable %s got encoded" % kind)
            r.probe("unpicklable")
            r.fault("unpicklable")
            continue
        r.check(exc is None, "not-encoded", lambda: "a %s could not be encoded: %r" % (kind, exc))
        if "indent" in kw:
            txt = " ".join(txt.split("\n"))
            r.probe("indented")
        r.check("\n" not in txt and "\r" not in txt, "not-a-line", lambda: "the document of a %s is not a single line" % kind)
        if len(txt) > 300:
            r.probe("long")
            r.nontrivial = True
        if kind in ("text", "bytes", "np", "df"):
            r.probe({"text": "crlf_in", "np": "numpy", "df": "pandas"}.get(kind, kind))
        if kind in ("series", "cyclic", "shared", "thing"):
            r.probe({"series": "pandas", "thing": "class"}.get(kind, kind))
        try:
            data = (txt + "\n").replace("\n", newline).encode(enc)
        except UnicodeEncodeError:
            r.fail("not-ascii", "a document cannot be stored as %s" % enc)
        later = None
        f = r.weighted([(6, None), (1, "lost"), (1, "torn"), (1, "dup"), (1, "mutate"), (1, "clip")])
        keep = copy.deepcopy(o)
        if f == "mutate":
            if isinstance(o, list):
                o.append("later")
            elif isinstance(o, dict):
                o["later"] = 1
            elif isinstance(o, np.ndarray) and o.size:
                o.flat[0] = o.flat[-1]
            elif isinstance(o, pd.DataFrame):
                o["later"] = 1
            r.probe("mutated")
            # the object as changed gets stored, too
            later = (json.dumps(o, cls=JSONCodec.Encoder) + "\n").replace("\n", newline).encode(enc)
            f = None
        r.state((kind, len(txt) // 100, newline, enc, f))
        if f == "lost":
            r.fault("lost-write")
            r.probe("lost")
            continue
        if f == "torn":
            cut = r.draw(len(data) - len(newline))
            r.fault("torn-write")
            r.probe("torn")
            store.append((data[:cut] + newline.encode(), None, kind))
            continue
        if f == "clip":
            # what was kept of the field ended earlier
            doc = json.loads(txt)
            k = max((k for k in doc if isinstance(doc[k], str)), key=lambda k: len(doc[k]), default=None)
            if k is not None and len(doc[k]) > 2:
                doc[k] = doc[k][: 1 + r.draw(len(doc[k]) - 2)]
                r.fault("clipped-field")
                r.probe("clipped")
                store.append(((json.dumps(doc) + "\n").replace("\n", newline).encode(enc), CLIPPED, kind))
            continue
        store.append((data, keep, kind))
        if later:
            store.append((later, copy.deepcopy(o), kind))
        if f == "dup":
            r.fault("duplicated-write")
            r.probe("dup")
            store.append((data, keep, kind))
    # The reader, later.
    text = io.TextIOWrapper(io.BytesIO(b"".join(s[0] for s in store)), encoding=enc)
    lines = list(text)
    r.check(len(lines) == len(store), "lines", lambda: "%i documents made %i lines" % (len(store), len(lines)))
    order = list(range(len(store)))
    if r.chance(50):
        order.reverse()
    for i in order:
        _, o, kind = store[i]
        try:
            got = json.loads(lines[i], cls=JSONCodec.Decoder)
        except Exception as ex:
            r.log("decode", i, kind, type(ex).__name__)
            r.check(is_torn(store[i]), "not-decoded", lambda: "a %s could not be decoded: %r" % (kind, ex))
            continue
        r.log("decode", i, kind, "ok")
        r.check(not is_torn(store[i]), "torn-accepted", lambda: "a torn document of a %s decoded as %r" % (kind, got))
        r.check(same(o, got), "not-equal", lambda: "a %s decoded as %r, was %r" % (kind, got, o))
        if kind == "shared":
            r.check(got[0] is got[1], "sharing-lost", "references to the same object got split")
        if kind == "cyclic":
            r.check(got[2]["self"] is got, "cycle-lost", "cycle was broken")
        r.probe("roundtrip")


def is_torn(s):
    return s[1] is CLIPPED or s[1] is None and s[2] != "none" or not s[0].rstrip().endswith(b"}")
