"""C12: the building of a model is staged: no step is entered unless all before it succeeded."""
import collections
import copy

from .. import pdworld

ID = "C12"
QUICK = 9000
THOROUGH = 300000
RULE = (
    "one run = one model-maker over a generated schema and 1-4 submodels, built 2-8 times (fully, first-error, or "
    "abandoned midway) while schema provider, submodels, and curation functions fail or get interrupted at drawn calls "
    "and submodels are added; errors reported, step order, and result are compared with a reference validator/merger. "
    "Non-trivial: both a failed and a successful build."
)
STATES = "hash of (failing step, kind of failure, way of building, number of errors)"
REAL = ["Pandel.build_iter/build", "PandelVisitor", "jsonschema"]
STUB = ["schema provider", "curation functions", "failing submodels"]
PROBES = ["prevalidate", "merge_fail", "validate", "curate", "ok", "interrupted", "abandoned", "schema_fail", "multi_errors", "recovered", "build_raises", "bomb", "schema_changed"]


class SimInterrupt(KeyboardInterrupt):
    pass


class Bomb:
    """Refuses any copying while armed."""

    armed = False

    def __deepcopy__(self, memo):
        if self.armed:
            raise RuntimeError("injected copy failure")
        return self

    __copy__ = lambda self: self.__deepcopy__(None)

    def __eq__(self, o):
        return isinstance(o, Bomb)

    __hash__ = None


def run(r):
    from jsonschema import ValidationError
    from pandalone.pandata import Pandel

    schema = pdworld.gen_schema(r)
    schema.pop("additionalProperties", None)
    loose = pdworld.loosen(schema)
    if r.chance(30):
        loose["type"] = ["object"]
    bad = r.pick([0, 0, 4, 12])
    live = r.chance(40)  # the provider hands out its own schema, and may change it later
    events = []
    plan = {}  # what fails in this build

    class Maker(Pandel):
        def _get_json_schema(self, is_prevalidation):
            events.append("pre" if is_prevalidation else "strict")
            k = "pre" if is_prevalidation else "strict"
            f = plan.get(k)
            if f is not None:
                if f[0] == 0:
                    r.fault("schema-" + k)
                    raise f[1]
                f[0] -= 1
            s = loose if is_prevalidation else schema
            return s if live else copy.deepcopy(s)

    def curator(i):
        def cur(mm):
            events.append("cur%i" % i)
            f = plan.get("cur")
            mm.model["cur%i" % i] = mm.model.get("cur%i" % (i - 1), 0) + 1
            if f and f[0] == i:
                r.fault("curate-" + type(f[1]).__name__)
                raise f[1]

        return cur

    n_cur = r.draw(4)
    mm = Maker(curate_funcs=[curator(i) for i in range(n_cur)])
    r.check(getattr(mm, "_errored", None) is None and mm.model is None, "bad-start", "a new model-maker claims to have built")
    subs = []
    bomb = Bomb()

    def add():
        s = pdworld.gen_value(r, {**schema, "type": "object"}, bad)
        if not isinstance(s, dict):
            s = {"a": s}
        if r.chance(15):
            s["bomb"] = bomb
        subs.append(s)
        mm.add_submodel(s)

    for _ in range(1 + r.draw(3)):
        add()
    was_bad = ok_after = False
    for _ in r.ops(2, 8):
        r.tick()
        if r.chance(15) and len(subs) < 5:
            add()
            r.log("add")
            continue
        if r.chance(15):
            r.probe("schema_changed")
            for s in r.pick([[schema], [loose], [schema, loose]]):
                if "required" in s and r.chance(50):
                    del s["required"]
                else:
                    s["required"] = [r.pick(["a", "zz", "b"])]
        if r.chance(20) and len(subs) > 1 and len(getattr(mm, "_submodel_tuples", ())) == len(subs):
            # a client drops what it gave
            i = r.draw(len(subs))
            del subs[i], mm._submodel_tuples[i]
        if any(pdworld.conflicts(pdworld.merge_all(subs[:i]), subs[i]) for i in range(1, len(subs))):
            bad_merge = True
        else:
            bad_merge = False
        plan.clear()
        exc = lambda: r.pick(
            [ValueError, RuntimeError, KeyError, ValidationError, AssertionError, UserWarning, DeprecationWarning, OSError]
        )("injected")
        k = r.weighted([(5, None), (2, "pre"), (2, "strict"), (4, "cur"), (2, "bomb"), (1, "intr")])
        if k == "pre":
            plan["pre"] = [r.draw(len(subs)), exc()]
        elif k == "strict":
            plan["strict"] = [0, exc()]
        elif k == "cur":
            plan["cur"] = [r.draw(max(1, n_cur)), exc()]
        elif k == "intr":
            plan[r.pick(["strict", "cur"])] = [0, SimInterrupt("injected")]
        armed = k == "bomb" and any("bomb" in s for s in subs)
        if armed:
            r.fault("copy-failure")
        # reference
        pre = []
        for s in subs:
            pre += pdworld.validate(copy.deepcopy(s), loose)
        how = r.weighted([(5, "iter"), (4, "build"), (1, "abandon")])
        del events[:]
        bomb.armed = armed
        errs = err = res = None
        try:
            if how == "iter":
                errs = list(mm.build_iter())
            elif how == "build":
                try:
                    res = mm.build()
                except Exception as ex:
                    err = ex
            else:
                g = mm.build_iter()
                next(g, None)
                g.close()
                r.probe("abandoned")
        except SimInterrupt:
            r.probe("interrupted")
            r.log("interrupted", how, list(events))
            check_order(r, events, bool(pre))
            was_bad = True
            continue
        finally:
            bomb.armed = False
        check_order(r, events, bool(pre) or k == "pre")
        r.log("build", how, k, len(pre), list(events), errs is not None and len(errs), err and type(err).__name__)
        if how == "abandon":
            continue
        # what must have happened
        stage = None
        want = None
        if armed:
            stage = "copy"
            r.probe("bomb")
        elif k == "pre":
            stage = "prevalidate"
            r.probe("schema_fail")
        elif pre:
            stage, want = "prevalidate", pre
        elif bad_merge:
            stage = "?merge"
        elif k == "strict":
            stage = "validate"
        else:
            model = pdworld.merge_all(subs)
            strict = pdworld.validate(model, schema)
            if strict:
                stage, want = "validate", strict
            elif "cur" in plan and n_cur and plan["cur"][0] < n_cur:
                stage = "curate"
        if stage == "?merge":
            continue
        if stage is not None and not stage.startswith("copy"):
            r.probe(stage)
        if stage == "copy":
            r.probe("merge_fail")
        r.state((stage, k, how, want and len(want)))
        if stage is None:
            for i in range(n_cur):
                model["cur%i" % i] = i + 1
            r.probe("ok")
            if how == "iter":
                r.check(not errs, "spurious-error", lambda: "building %r reported %r" % (subs, errs))
            else:
                r.check(err is None, "spurious-error", lambda: "building %r raised %r" % (subs, err))
                r.check(res is mm.model, "wrong-model", "build() returned another model")
            r.check(getattr(mm, "_errored", False) is False, "wrong-flag", "errored flag set after success")
            r.check(
                mm.model == model, "wrong-model",
                lambda: "built %r, must be %r from %r" % (mm.model, model, subs),
            )
            r.check(
                [e for e in events if e.startswith("cur")] == ["cur%i" % i for i in range(n_cur)],
                "wrong-curation", lambda: "curated %r" % events,
            )
            if was_bad:
                r.probe("recovered")
                r.nontrivial = True
            continue
        was_bad = True
        r.check(getattr(mm, "_errored", True) is True, "wrong-flag", lambda: "errored flag %r after failing %s" % (mm._errored, stage))
        if how == "build":
            r.probe("build_raises")
            r.check(
                isinstance(err, ValidationError), "fault-swallowed",
                lambda: "%s failed (%s), yet build() gave %r / %r" % (stage, k, res, err),
            )
            first = [err]
        else:
            r.check(
                errs and all(isinstance(e, ValidationError) for e in errs), "fault-swallowed",
                lambda: "%s failed (%s), yet reported %r" % (stage, k, errs),
            )
            last = errs[-1].message
            names = ["prevalidate", "merge"] if stage == "copy" else [stage]
            r.check(
                "ave-up" in last and any(n in last for n in names), "no-give-up",
                lambda: "failed in %s, but last said: %s" % (stage, last),
            )
            first = errs[:-1]
            r.check(first, "lost-error", lambda: "%s failed without any cause reported" % stage)
        if want is not None:
            got = collections.Counter((tuple(e.absolute_path), e.validator) for e in first)
            exp = collections.Counter(want)
            if how == "build":
                r.check(set(got) <= set(exp), "wrong-errors", lambda: "raised %r, invalid are %r" % (got, exp))
            else:
                r.check(got == exp, "wrong-errors", lambda: "reported %r, invalid are %r in %r" % (got, exp, subs))
                if len(want) > 1:
                    r.probe("multi_errors")
        else:
            r.check(
                any("injected" in str(e) for e in first) or (how == "build" and pre), "lost-error",
                lambda: "cause of failed %s missing from %r" % (stage, first),
            )
            for e in first:
                if "injected" in str(e) and not e.message.startswith("injected"):
                    # (something else than a ValidationError was raised)
                    r.check(
                        isinstance(e.cause, Exception) and "injected" in str(e.cause), "lost-error",
                        lambda: "%r has as cause %r" % (e, e.cause))
        cured = [e for e in events if e.startswith("cur")]
        want_cured = ["cur%i" % i for i in range(plan["cur"][0] + 1)] if stage == "curate" else []
        r.check(
            cured == want_cured, "step-entered-after-failure",
            lambda: "%s failed (%s), yet these curators run: %r" % (stage, k, cured),
        )
        if stage in ("prevalidate",):
            r.check(mm.model is None, "wrong-model", "model exists though pre-validation failed")


def check_order(r, events, pre_failed):
    """Steps only ever advance."""
    rank = {"pre": 0, "strict": 1}
    last = -1
    for e in events:
        k = rank.get(e, 2)
        r.check(k >= last, "wrong-order", lambda: "steps out of order: %r" % events)
        last = k
    if pre_failed:
        r.check(
            all(e == "pre" for e in events), "step-entered-after-failure",
            lambda: "pre-validation failed, yet went on: %r" % events,
        )
