"""C26: documents are read and modified only where the pointer says."""
import collections.abc

ID = "C26"
QUICK = 9000
THOROUGH = 250000
RULE = (
    "one run = a document of nested objects, lists, attribute-holders and shared parts, addressed by the interleaved operations "
    "of 1-3 clients: resolving json-pointers and paths, and setting values, valid, missing, refused and malformed ones, with containers "
    "and object-factories that fail or get interrupted at some access; after each operation the whole document is compared with a reference model. "
    "Non-trivial: an operation failed midway, or a branch was created."
)
STATES = "hash of (operation, outcome, depth reached, kind of container, fault)"
REAL = ["pandata.resolve_jsonpointer, resolve_path, set_jsonpointer, iter_jsonpointer_parts*, (un)escape_jsonpointer_part"]
STUB = ["containers and object-factories that fail on demand"]
PROBES = ["resolved", "defaulted", "unresolved", "set_leaf", "set_branch", "appended", "scalar_replaced", "refused", "malformed", "fault_surfaced", "factory_failed",
          "attach_failed", "read_failed", "escaped", "shared", "attribute", "relative", "rooted", "falsy", "frame"]

KEYS = ["a", "b", "", "a/b", "m~n", "~1", "~0", "0", "1", "-", " ", "x", "~", "/", "é", "items", "count", "~01"]


class Faults:
    def __init__(self):
        self.arm(None, 0, None)

    def arm(self, where, after, exc):
        self.where, self.after, self.exc, self.fired = where, after, exc, False

    def at(self, where):
        if self.where == where and not self.fired:
            if self.after:
                self.after -= 1
            else:
                self.fired = True
                raise self.exc


class Leaf:
    """A value, equal only to itself."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<%s>" % self.n


class Refused(Exception):
    pass


class Whatever(Exception):
    """The outcome is not specified (e.g. numbers indexing characters)."""


class Attrs(dict):
    """The attributes of a holder, in the model."""


class Column:
    """A column of a frame, in the model."""


def containers(F):
    class Obj(dict):
        def __getitem__(self, k):
            F.at("read")
            return dict.__getitem__(self, k)

        def __setitem__(self, k, v):
            F.at("write")
            dict.__setitem__(self, k, v)

    class Arr(list):
        def __getitem__(self, k):
            F.at("read")
            return list.__getitem__(self, k)

        def __setitem__(self, k, v):
            F.at("write")
            list.__setitem__(self, k, v)

        def append(self, v):
            F.at("write")
            list.append(self, v)

    class Seq(collections.abc.MutableSequence):
        """A sequence that is no list."""

        def __init__(self):
            self.l = []

        def __getitem__(self, k):
            F.at("read")
            return self.l[k]

        def __setitem__(self, k, v):
            F.at("write")
            self.l[k] = v

        def __delitem__(self, k):
            del self.l[k]

        def insert(self, k, v):
            F.at("write")
            self.l.insert(k, v)

        def __len__(self):
            return len(self.l)

    class Made(Obj):
        pass

    class Holder:
        pass

    return Obj, Arr, Made, Holder, Seq


def items_of(x):
    """The items of any kind of sequence."""
    return x if isinstance(x, list) else x.l if type(x).__name__ == "Seq" else None


def plain(x, memo=None):
    """A copy of the document, of plain containers that share what the original shares."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, dict):
        memo[id(x)] = c = {}
        for k in dict.keys(x):
            c[k] = plain(dict.__getitem__(x, k), memo)
        return c
    if items_of(x) is not None:
        memo[id(x)] = c = []
        c.extend(plain(i, memo) for i in list.__iter__(items_of(x)))
        return c
    if type(x).__name__ == "Holder":
        memo[id(x)] = c = Attrs()
        for k, v in vars(x).items():
            c[k] = plain(v, memo)
        return c
    return x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (str, int, float)):
        return a == b
    return a is b


def esc(k):
    return k.replace("~", "~0").replace("/", "~1")


def index(p):
    return int(p) if p.lstrip("-").isdigit() and p.lstrip("-") else None


def m_get(node, parts, relaxed):
    """What is addressed; raises `Refused` if nothing."""
    for p in parts:
        k = index(p)
        if isinstance(node, list) and k is not None and -len(node) <= k < len(node):
            node = node[k]
        elif isinstance(node, dict) and (relaxed or not isinstance(node, Attrs)) and p in node:
            node = node[p]
        elif hasattr(node, "columns") and p in node.columns:
            node = Column()
        elif isinstance(node, (str, Column)) and k is not None or relaxed and p in ("items", "count"):
            raise Whatever  # (some method of theirs)
        else:
            raise Refused
    return node


def m_build(parts, value):
    for p in reversed(parts):
        value = {p: value}
    return value


def m_set(doc, parts, value):
    """Apply on a plain document; return what happened, or raise `Refused`."""
    if not parts:
        raise Refused
    node, parent, pk = doc, None, None
    for i, p in enumerate(parts):
        last = i == len(parts) - 1
        if isinstance(node, list):
            k = len(node) if p == "-" else index(p)
            if k is None or not -len(node) <= k <= len(node):
                raise Refused
            missing = k == len(node)
        elif isinstance(node, dict) and not isinstance(node, Attrs):
            k, missing = p, p not in node
        else:
            if parent is None:
                raise Refused
            parent[pk] = m_build(parts[i:], value)
            return "scalar_replaced"
        if last or missing:
            v = m_build(parts[i + 1 :], value)
            if isinstance(node, list) and missing:
                node.append(v)
                return "appended"
            node[k] = v
            return "set_leaf" if last else "set_branch"
        parent, pk, node = node, k, node[k]


SCREAM = type("scream", (), {})()  # no default given


def run(r):
    import pandas as pd
    from jsonschema.exceptions import RefResolutionError
    from pandalone import pandata

    F = Faults()
    Obj, Arr, Made, Holder, Seq = containers(F)
    cnt = [0]
    shared = []

    def leaf():
        cnt[0] += 1
        k = r.weighted([(4, "leaf"), (2, "num"), (2, "str"), (1, "none"), (1, "falsy"), (1, "frame")])
        if k == "leaf":
            return Leaf(cnt[0])
        if k == "num":
            return r.pick([1, 3.14, 7])
        if k == "str":
            return r.pick(["bar", "x"])
        if k == "frame":
            return pd.DataFrame({"a": [1, 2], "b": [cnt[0], 4]})
        return None if k == "none" else r.pick([0, "", False])

    def tree(d=0):
        k = r.weighted([(3, "leaf"), (5, "obj"), (3, "arr"), (1, "holder"), (1, "shared")]) if d else r.weighted([(8, "obj"), (4, "arr"), (1, "leaf")])
        if d > 2 or k == "leaf":
            return leaf()
        if k == "shared" and shared:
            r.probe("shared")
            return r.pick(shared)
        if k == "arr":
            x = Arr() if r.chance(75) else Seq()
            for _ in range(r.draw(4)):
                list.append(items_of(x), tree(d + 1))
        elif k == "holder":
            x = Holder()
            for _ in range(r.draw(3)):
                setattr(x, r.pick(["a", "b", "x"]), tree(d + 1))
        else:
            x = Obj()
            for _ in range(r.draw(5)):
                dict.__setitem__(x, r.pick(KEYS) if r.chance(95) else 1, tree(d + 1))
        shared.append(x)
        return x

    doc = tree()
    root2 = r.pick([None, None, tree(), Obj(), pd.DataFrame({"a": [1]})])
    made = []

    def factory():
        F.at("factory")
        made.append(Made())
        return made[-1]

    def parts_of(x, relaxed=False):
        """A random path through the document, perhaps diverging from it at some point."""
        parts = []
        for _ in range(r.draw(5)):
            if r.chance(15):
                x = None
            if isinstance(x, dict) and dict.__len__(x):
                p = r.pick(list(dict.keys(x)))
                x = dict.__getitem__(x, p) if isinstance(p, str) else None
                p = str(p)  # (numbers as keys cannot be addressed)
            elif items_of(x) is not None:
                x = items_of(x)
                p = str(r.draw(len(x) + 2)) if r.chance(85) else r.pick(["-", "q", "-", "-9"])
                x = list.__getitem__(x, int(p)) if p.isdigit() and int(p) < len(x) else None
            elif isinstance(x, str):
                p = r.pick(["q", "a/b", "zz"])  # numbers index characters
                x = None
            elif type(x).__name__ == "Holder" and relaxed and vars(x):
                p = r.pick(list(vars(x)))
                x = vars(x)[p]
            elif hasattr(x, "columns"):
                p = r.pick(["a", "b", "q"])
                x = 0
            else:
                p = r.pick(KEYS)
                x = None
            parts.append(p)
        return parts

    for _ in r.ops(2, 14):
        r.tick()
        op = r.weighted([(4, "get"), (5, "set"), (3, "path"), (1, "bad")])
        before = plain(doc)
        F.arm(None, 0, None)
        where = None
        if r.chance(30):
            where = r.pick(["read", "write", "factory"])
            F.arm(where, r.draw(3), r.pick([OSError, MemoryError, KeyboardInterrupt, ZeroDivisionError])("injected"))
        exc = got = None
        if op == "bad":
            ptr = r.pick(["a", "a/b", None, " /a", ""])
            if ptr == "":
                op, fn = "bad-set", lambda: pandata.set_jsonpointer(doc, "", 1)
            else:
                fn = r.pick([lambda: pandata.resolve_jsonpointer(doc, ptr, 1), lambda: pandata.set_jsonpointer(doc, ptr, 1)])
            F.arm(None, 0, None)
            try:
                fn()
            except Exception as ex:
                exc = ex
            r.log("bad", ptr, type(exc).__name__)
            r.check(
                isinstance(exc, RefResolutionError if ptr is not None else AttributeError),
                "malformed-accepted", lambda: "malformed json-pointer %r gave %r" % (ptr, exc),
            )
            r.check(same(plain(doc), before), "malformed-modified", "a malformed json-pointer modified the document")
            r.probe("malformed")
            continue
        relaxed = op == "path"
        absolute = not relaxed or r.chance(40)
        base = doc
        if relaxed and absolute and root2 is not None:
            base = root2
        parts = parts_of(base, relaxed)
        if relaxed:
            parts = [p for p in parts if p and not p.startswith("-")]
            if not parts:
                parts = ["a"]
        text = "/".join(([""] if absolute else []) + [esc(p) for p in parts])
        if any("~" in esc(p) for p in parts):
            r.probe("escaped")
        if op == "set":
            value = r.pick([leaf(), Obj(), Arr(), Seq()])
            want = plain(doc)
            try:
                how = m_set(want, parts, plain(value))
            except Refused:
                how = "refused"
            if _in_frame(doc, parts):
                continue  # setting columns or items of foreign containers
            del made[:]
            try:
                pandata.set_jsonpointer(doc, text, value, factory)
            except (Exception, KeyboardInterrupt) as ex:
                exc = ex
            now = plain(doc)
            fired, F.where = F.fired, None
            r.log("set", text, how, where, type(exc).__name__)
            r.state(("set", how, len(parts), where if fired else None))
            if fired:
                r.fault(where)
                r.probe({"read": "read_failed", "write": "attach_failed", "factory": "factory_failed"}[where])
                r.probe("fault_surfaced")
                r.nontrivial = True
                r.check(exc is F.exc, "fault-masked", lambda: "setting %r: %s failing with %r surfaced as %r" % (text, where, F.exc, exc))
                r.check(same(now, before), "half-set", lambda: "setting %r failed (on a %s), but changed the document from %r to %r" % (text, where, before, now))
                continue
            if how == "refused":
                r.check(isinstance(exc, RefResolutionError), "not-refused", lambda: "setting %r in %r gave %r" % (text, before, exc or now))
                r.check(same(now, before), "refused-modified", lambda: "refused to set %r, yet changed %r to %r" % (text, before, now))
                r.probe("refused")
                continue
            r.check(exc is None, "not-set", lambda: "setting %r in %r failed with %r" % (text, before, exc))
            r.check(same(now, want), "set-wrong", lambda: "setting %r in %r made it %r instead of %r" % (text, before, now, want))
            r.probe(how)
            if how != "set_leaf":
                r.nontrivial = True
            if "-" not in parts and not any(p.startswith("-") for p in parts):
                r.check(pandata.resolve_jsonpointer(doc, text) is value, "set-not-there", lambda: "%r does not resolve to what was just set" % text)
            for x in made:
                r.check(_contains(doc, x), "factory-unused", lambda: "an object from the factory did not get into the document, by setting %r" % text)
            n = _types(doc)
            r.check(n <= {Obj, Arr, Made, Seq}, "not-from-factory", lambda: "setting %r created objects not from the factory: %r" % (text, n))
            continue

        # resolving
        default = r.pick([None, 0, Leaf("default"), ()]) if r.chance(50) else SCREAM
        try:
            want = m_get(plain(base), parts, relaxed)
            found = True
        except Refused:
            want, found = None, False
        except Whatever:
            continue
        before2 = plain(root2)
        try:
            if relaxed:
                got = pandata.resolve_path(doc, text, *(() if default is SCREAM else (default,)), **({"root": root2} if absolute and root2 is not None else {}))
            elif default is SCREAM:
                got = pandata.resolve_jsonpointer(doc, text)
            else:
                got = pandata.resolve_jsonpointer(doc, text, default)
        except (Exception, KeyboardInterrupt) as ex:
            exc = ex
        fired, F.where = F.fired, None
        r.log(op, text, found, where, type(exc).__name__)
        r.state((op, found, len(parts), where if fired else None, default is SCREAM))
        r.check(same(plain(doc), before) and same(plain(root2), before2), "resolve-modified", lambda: "resolving %r modified the document" % text)
        if fired:
            r.fault(where)
            r.probe("fault_surfaced")
            r.nontrivial = True
            r.check(exc is F.exc, "fault-masked", lambda: "resolving %r: %s failing with %r gave %r" % (text, where, F.exc, exc or got))
            continue
        if relaxed:
            r.probe("rooted" if absolute else "relative")
        if not found:
            if default is SCREAM:
                r.check(isinstance(exc, RefResolutionError), "resolved-missing", lambda: "%r is not in %r, yet gave %r" % (text, before, exc or got))
                r.probe("unresolved")
            else:
                r.check(exc is None and got is default, "no-default", lambda: "%r is not in %r, yet gave %r instead of the default %r" % (text, before, exc or got, default))
                r.probe("defaulted")
            continue
        r.check(exc is None, "not-resolved", lambda: "%r exists, yet resolving it in %r gave %r" % (text, before, exc))
        if isinstance(want, Column):
            r.probe("frame")
            r.check(isinstance(got, pd.Series), "wrong-item", lambda: "%r gave a %r" % (text, type(got)))
        else:
            r.check(same(plain(got), want), "wrong-item", lambda: "%r in %r resolved to %r instead of %r" % (text, before, plain(got), want))
        if isinstance(want, Attrs):
            r.probe("attribute")
        if not isinstance(got, (pd.DataFrame, pd.Series, Leaf)) and not got:
            r.probe("falsy")
        r.probe("resolved")


def _walk(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    yield x
    for y in list(dict.values(x)) if isinstance(x, dict) else list(list.__iter__(items_of(x))) if items_of(x) is not None else list(vars(x).values()) if type(x).__name__ == "Holder" else []:
        yield from _walk(y, seen)


def _contains(doc, x):
    return any(y is x for y in _walk(doc))


def _types(doc):
    return {type(x) for x in _walk(doc) if isinstance(x, dict) or items_of(x) is not None}


def _in_frame(doc, parts):
    for p in parts:
        if hasattr(doc, "columns"):
            return True
        k = index(p)
        if isinstance(doc, dict) and p in dict.keys(doc):
            doc = dict.__getitem__(doc, p)
        elif items_of(doc) is not None and k is not None and -len(doc) <= k < len(doc):
            doc = list.__getitem__(items_of(doc), k)
        else:
            return False
    return False
