"""C16: path-steps and mappings shared by many clients neither interfere nor depend on the order of use."""
from .. import pmodref

ID = "C16"
QUICK = 16000
THOROUGH = 500000
RULE = (
    "one run = one set of mappings (literal, regex, nested, rooted, dotted) shared by 2-4 clients, whose scripts of "
    "creating steps, descending, renaming, tagging, locking, grafting, mapping paths and failing assignments are "
    "interleaved by the seeded scheduler; each client's observations are compared with a functional reference and with "
    "running its script alone over mappings of its own. Non-trivial: >=2 clients created steps and one renamed."
)
STATES = "hash of (number of mappings, operation, outcome, client's ordinal)"
REAL = ["Pmod", "Pstep", "pmods_from_tuples"]
STUB = ["clients"]
PROBES = ["renamed", "tagged", "lock_failed", "locked", "grafted", "bad_assign", "mapped_path", "dots", "maps_as_list", "regex_hit", "alias_query", "dir", "grafted_maps", "shared_step"]


class Client:
    """Executes script-items on real objects; returns what it observed."""

    def __init__(self, pmods, tuples, mk):
        self.pmods, self.tuples, self.mk = pmods, tuples, mk
        self.roots, self.refs = [], []
        self.shared = False

    def node(self, i, chain):
        p = self.roots[i % len(self.roots)]
        q = self.refs[i % len(self.refs)]
        for c in chain:
            p = getattr(p, c)
            q = q and q.get(c)
        return p, q

    def do(self, op, refpmod):
        """-> (observation, reference or None)"""
        k = op[0]
        if k == "new" or not self.roots:
            name, how = (op[1], op[2]) if k == "new" else ("a", 0)
            if how == 0:
                p = self.mk[0](name, self.pmods)
            elif how == 1:
                p = self.mk[0](name, list(self.tuples))
            elif how == 2:
                p = self.pmods.step(name)
            else:
                p = self.mk[0](name)
            self.roots.append(p)
            q = pmodref.RefStep(name, None if how == 3 else refpmod)
            self.refs.append(q)
            return str(p), q.name
        if k == "get":
            p, q = self.node(op[1], op[2])
            return str(p), q and q.name
        if k == "rename":
            p, q = self.node(op[1], op[2])
            setattr(p, op[3], op[4])
            if q:
                q.rename(op[3], op[4])
            return str(getattr(p, op[3])), op[4]
        if k == "graft":
            # another (mapped or not) step assigned; children follow
            p, q = self.node(op[1], op[2])
            g = self.mk[0](op[4], self.pmods if op[5] else None)
            g.a.b
            setattr(p, op[3], g)
            self.refs[op[1] % len(self.refs)] = None
            return str(getattr(p, op[3])), None
        if k == "share":
            # one's own step assigned elsewhere gets cloned: what then happens to the clone stays there
            if self.shared or op[1] % len(self.roots) == op[3] % len(self.roots):
                return "skipped", None  # (would make cycles)
            self.shared = True
            p, q = self.node(op[1], op[2])
            t, _ = self.node(op[3], op[4])
            see = lambda: (str(p), sorted(p._steps(keys=True)), sorted(map(str, p._steps())), sorted(p._tags), p._locked, schema(p))
            setattr(t, op[5], p)
            self.refs[op[1] % len(self.refs)] = self.refs[op[3] % len(self.refs)] = None
            c = getattr(t, op[5])
            before = see()
            obs = [str(c), sorted(c._steps(keys=True)) == before[1], sorted(c._tags) == before[3], schema(c) == before[5]]
            for what, arg in op[6]:
                if what == "get":
                    getattr(c, arg)
                elif what == "rename":
                    setattr(c, arg, "RN")
                elif what == "tag":
                    c._tag(arg)
                elif what == "schema":
                    c._schema.title = arg
                else:
                    c._tag_remove(arg)
            return (obs, before == see()), ([op[5], True, True, True], True)
        if k == "bad":
            p, q = self.node(op[1], op[2])
            try:
                setattr(p, op[3], op[4])
                return "assigned", "refused"
            except AssertionError:
                return "refused", "refused"
        if k == "tag":
            p, q = self.node(op[1], op[2])
            want = sorted(set(p._tags) | set(op[3]))
            p._tag(*op[3])
            return sorted(p._tags), want
        if k == "schema":
            p, q = self.node(op[1], op[2])
            want = dict(schema(p) or {}, **{op[3]: op[4]})
            setattr(p._schema, op[3], op[4])
            return schema(p), want
        if k == "untag":
            p, q = self.node(op[1], op[2])
            want = sorted(set(p._tags) - set(op[3]))
            p._tag_remove(op[3])
            return sorted(p._tags), want
        if k == "tagpaths":
            p = self.roots[op[1] % len(self.roots)]
            want = sorted({pmodref.join(path) for path, last in tagged(p) if op[2] in last._tags})
            return p._paths(tag=op[2]), want
        if k == "lock":
            p, q = self.node(op[1], op[2])
            before = p._locked
            try:
                p._lock if op[3] else p._fix
                return ("locked", p._locked, p._locked == (0 if op[3] else 1)), None
            except ValueError:
                return ("refused", p._locked == before), ("refused", True)
        if k == "paths":
            p = self.roots[op[1] % len(self.roots)]
            q = self.refs[op[1] % len(self.refs)]
            return p._paths(), q and q.paths()
        if k == "orig":
            p = self.roots[op[1] % len(self.roots)]
            return p._paths(with_orig=True), None
        if k == "tuples":
            p = self.roots[op[1] % len(self.roots)]
            q = self.refs[op[1] % len(self.refs)]
            return p._derrive_map_tuples(), q and q.tuples()
        if k == "steps":
            p, q = self.node(op[1], op[2])
            return sorted(p._steps(keys=True)), q and sorted(q.kids)
        if k == "map":
            return self.pmods.map_path(op[1]), pmodref.map_path(refpmod, op[1])
        if k == "maps":
            return self.pmods.map_paths(op[1]), [pmodref.map_path(refpmod, x) for x in op[1]]
        if k == "alias":
            return self.pmods.alias(op[1]), pmodref.descend(refpmod, op[1])[1]
        if k == "descend":
            a, b = self.pmods.descend(op[1]), pmodref.descend(refpmod, op[1])
            return (a[0] is not None, a[1]), (b[0] is not None, b[1])
        if k == "merge":
            o = self.mk[1](op[1])
            m = self.pmods._merge(o)
            return m.map_path(op[2]), pmodref.map_path(pmodref.merge(refpmod, pmodref.from_tuples(op[1])), op[2])
        raise AssertionError(k)


def schema(p):
    return p._schema.todict() if p._schema_exists() else None


def gen_script(r, dots):
    out = [("new", r.pick(pmodref.STEPS + [""]), r.weighted([(5, 0), (2, 1), (2, 2), (1, 3)]))]
    chain = lambda: tuple(r.pick(pmodref.STEPS) for _ in range(r.draw(4)))
    path = lambda: r.pick(["", "/"]) + "/".join(r.pick(pmodref.STEPS) for _ in range(1 + r.draw(3)))
    for _ in range(2 + r.draw(9)):
        k = r.weighted(
            [(2, "new"), (6, "get"), (4, "rename"), (1, "graft"), (2, "share"), (1, "bad"), (2, "tag"), (1, "untag"), (2, "schema"), (2, "tagpaths"),
             (2, "lock"), (4, "paths"), (1, "orig"), (2, "tuples"), (1, "steps"), (3, "map"), (1, "maps"), (1, "alias"),
             (1, "descend"), (1, "merge")]
        )
        i = r.draw(4)
        if k == "new":
            op = (k, r.pick(pmodref.STEPS + [""]), r.weighted([(5, 0), (2, 1), (2, 2), (1, 3)]))
        elif k == "get":
            op = (k, i, chain() or ("a",))
        elif k == "rename":
            op = (k, i, chain(), r.pick(pmodref.STEPS), r.pick(["N1", "N2", "n/3", "a", ""]))
        elif k == "graft":
            op = (k, i, chain(), r.pick(pmodref.STEPS), r.pick(pmodref.STEPS), r.draw(2))
        elif k == "share":
            acts = [
                (r.pick(["get", "rename", "tag", "untag", "schema"]), r.pick(["a", "b", "t", "u", "zz"])) for _ in range(1 + r.draw(4))
            ]
            op = (k, i, chain(), r.draw(4), chain(), r.pick(pmodref.STEPS), acts)
        elif k == "bad":
            op = (k, i, chain(), r.pick(pmodref.STEPS), r.pick([3, None, 1.5, ["x"]]))
        elif k == "tag":
            op = (k, i, chain(), [r.pick("tuv") for _ in range(1 + r.draw(2))])
        elif k == "schema":
            op = (k, i, chain(), r.pick(["title", "type", "required"]), r.pick(["x", ["a"], "object"]))
        elif k == "untag":
            op = (k, i, chain(), r.pick("tuv"))
        elif k == "tagpaths":
            op = (k, i, r.pick("tuv"))
        elif k == "lock":
            op = (k, i, chain(), r.draw(2))
        elif k in ("paths", "orig", "tuples"):
            op = (k, i)
        elif k == "steps":
            op = (k, i, chain())
        elif k == "map":
            op = (k, path())
        elif k == "maps":
            op = (k, [path() for _ in range(3)])
        elif k in ("alias", "descend"):
            op = (k, r.pick(pmodref.STEPS))
        else:
            op = (k, pmodref.gen_tuples(r, dots), path())
        out.append(op)
    out.append(("paths", 0))
    return out


def tagged(p, pre=()):
    pre += (str(p),)
    yield pre, p
    for c in p._steps():
        yield from tagged(c, pre)


def run(r):
    from pandalone.mappings import Pstep, pmods_from_tuples

    dots = r.chance(30)
    tuples = pmodref.gen_tuples(r, dots)
    if dots:
        r.probe("dots")
    mk = (Pstep, pmods_from_tuples)
    shared = pmods_from_tuples(tuples)
    snap, snap_repr = pmods_from_tuples(tuples), repr(shared)
    refpmod = pmodref.from_tuples(tuples)
    scripts = [gen_script(r, dots) for _ in range(2 + r.draw(3))]
    clients = [Client(shared, tuples, mk) for _ in scripts]
    seen = [[] for _ in scripts]
    pos = [0] * len(scripts)
    r.log("mappings", tuples)
    makers = set()
    renamed = False
    while True:
        live = [i for i in range(len(scripts)) if pos[i] < len(scripts[i])]
        if not live:
            break
        i = r.pick(live)
        op = scripts[i][pos[i]]
        pos[i] += 1
        r.tick()
        got, want = clients[i].do(op, refpmod)
        seen[i].append(got)
        r.log("client", i, op, got)
        if want is not None:
            r.check(
                got == want, "wrong-mapping",
                lambda: "%r of %r over %r gave %r, must be %r" % (op, scripts[i][: pos[i]], tuples, got, want),
            )
        r.check(
            shared == snap and repr(shared) == snap_repr, "mappings-modified",
            lambda: "%r changed the shared mappings %r into %r" % (op, snap, shared),
        )
        r.state((len(tuples), op[0], got if op[0] == "lock" else 0, i))
        k = op[0]
        if k == "new":
            makers.add(i)
            if op[2] == 1:
                r.probe("maps_as_list")
            if any("~" in f for f, _ in tuples) and got != op[1]:
                r.probe("regex_hit")
        elif k == "rename":
            renamed = True
            r.probe("renamed")
        elif k == "lock":
            r.probe("locked" if got[0] == "locked" else "lock_failed")
            if got[0] == "refused":
                r.fault("lock-refused")
        else:
            pr = {"tag": "tagged", "graft": "grafted", "share": "shared_step", "bad": "bad_assign", "map": "mapped_path", "alias": "alias_query", "steps": "dir"}.get(k)
            if pr:
                r.probe(pr)
            if k == "bad":
                r.fault("bad-assignment")
            if k == "graft" and op[5]:
                r.probe("grafted_maps")
    for i, s in enumerate(scripts):
        alone = Client(pmods_from_tuples(tuples), tuples, mk)
        obs = [alone.do(op, refpmod)[0] for op in s]
        r.check(
            obs == seen[i], "interference",
            lambda: "client %i observed %r, but alone %r with %r over %r" % (i, seen[i], obs, s, tuples),
        )
    if len(makers) > 1 and renamed:
        r.nontrivial = True
