"""Executable reference of path-mappings, from the documentation of `pandalone.mappings`; purely functional."""
import re


def node():
    return (None, {}, ())


def add(n, steps, to):
    alias, lits, regs = n
    if not steps:
        return (to, lits, regs)
    s, rest = steps[0], steps[1:]
    if s.startswith("~"):
        s = s[1:]
        old = dict(regs).get(s)
        # the last one given comes last, and so prevails
        regs = tuple((k, v) for k, v in regs if k != s) + ((s, add(old or node(), rest, to)),)
    else:
        lits = dict(lits)
        lits[s] = add(lits.get(s) or node(), rest, to)
    return (alias, lits, regs)


def from_tuples(tuples):
    n = node()
    for f, t in tuples:
        if (f, t) == ("", ""):
            continue
        n = add(n, f.split("/"), t)
    return n


def merge(a, b):
    lits = dict(a[1])
    for k, v in b[1].items():
        lits[k] = merge(lits[k], v) if k in lits else v
    ad, bd = dict(a[2]), dict(b[2])
    regs = tuple((k, v) for k, v in a[2] if k not in bd)
    regs += tuple((k, merge(ad[k], v) if k in ad else v) for k, v in b[2])
    return (b[0] if b[0] is not None else a[0], lits, regs)


def descend(n, step):
    """-> (child or None, alias or None)"""
    if n is None:
        return None, None
    out = alias = None
    for k, v in n[2]:
        m = re.fullmatch(k, step)
        if m:
            out = v if out is None else merge(out, v)
            if v[0] is not None:
                alias = m.expand(v[0])
    v = n[1].get(step)
    if v is not None:
        out = v if out is None else merge(out, v)
        if v[0] is not None:
            alias = v[0]
    return out, alias


def join(steps):
    """Steps -> path, resolving dots & restarting at roots."""
    out = []
    for s in steps:
        if s == "":
            out = [""]
        elif s == ".":
            pass
        elif s == "..":
            if not out or out[-1] == "..":
                out.append("..")
            elif out != [""]:
                out.pop()
        else:
            out.append(s)
    return "/".join(out) if out else "."


def map_path(n, path):
    out = []
    if n[0] is not None:
        out += n[0].split("/")
    for step in path.split("/"):
        n, alias = descend(n, step)
        if alias is not None:
            if alias.startswith("."):
                out.append(step)
            step = alias
        if len(step) > 1 and step.endswith("/"):
            step = step[:-1]
        out += step.split("/")
    return join(out)


class RefStep:
    """A path-step and its children."""

    def __init__(self, name, pmod, alias=None):
        self.pmod, a = descend(pmod, name)
        self.name = alias if alias is not None else a or name
        self.orig = name
        self.kids = {}

    def get(self, k):
        if k not in self.kids:
            self.kids[k] = RefStep(k, self.pmod)
        return self.kids[k]

    def rename(self, k, alias):
        if k in self.kids:
            self.kids[k].name = alias
        else:
            self.kids[k] = RefStep(k, self.pmod, alias)

    def walk(self, pre=()):
        pre += (self,)
        yield pre
        for c in self.kids.values():
            yield from c.walk(pre)

    def paths(self):
        return sorted({join([str(s.name) for s in w]) for w in self.walk() if not w[-1].kids})

    def tuples(self):
        return sorted(((join([s.orig for s in w]), w[-1].name) for w in self.walk()), key=lambda t: t[0])


FROMS = ["a", "b", "c", "a1", "b2", "~.*", "~a.*", "~[ab]", r"~(\w)(\d)?", "~b.*", "d"]
TOS = ["X", "Y", "y/z", r"\g<0>_", r"\g<0>", "W1", "_q"]
STEPS = ["a", "b", "c", "a1", "b2", "d", "zz"]


def gen_tuples(r, dots=False, root=True):
    """(froms are literal or regexes, at most 3 levels)"""
    out = []
    for _ in range(r.draw(7)):
        n = 1 + r.draw(3)
        steps = [r.pick(FROMS) for _ in range(n)]
        f = "/".join(steps)
        if root and r.chance(40):
            f = "/" + f
        to = r.pick(TOS)
        if not steps[-1].startswith("~"):
            to = to.replace(r"\g<0>", "L")
        if dots and r.chance(40):
            to = r.pick(["..", "../u", "./v", "/r/s", ".", "", "", ""])
        out.append((f, to))
    if dots and r.chance(15):
        out.append(("", r.pick(["new/root", "/R"])))
    return out
