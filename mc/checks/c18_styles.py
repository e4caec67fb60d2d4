"""C18: style changes are scoped to a box and its later descendants."""
from elsie import TextStyle

from .. import fakeproc, svgobs, textref
from .. import world as W

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of operation histories (set/update styles, get or modify style "
             "objects, create slides, boxes and texts) over a small tree against a reference model")
NOTE = ("After every history get_style/has_style of every container and the looks of all texts (created "
        "at any time) must equal those of a model in which every container has its own table of values.")
ASSUMPTIONS = ["a style always has a priority (0 when not given)"]
BOUND = {"quick": "all histories of <= 3 operations (25-60 operations to choose from) from a deck with "
                  "a slide and of <= 2 from two larger trees, one operation more with a reduced "
                  "alphabet; <= 5 containers",
         "thorough": "one operation more"}
CAP = {"thorough": 6000000}

ALL = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity",
       "priority")
S = {
    "s0": dict(color="red"),
    "s1": dict(bold=True, size=30),
    "s2": dict(color="blue", priority=1, align="left"),
    "s3": dict(font="F", line_spacing=2, bold=False, opacity=0.5),
    "full": dict(font="G", size=12, align="right", line_spacing=1.5, color="#00f", italic=True,
                 variant_numeric="normal"),
}
MUT = dict(color="lime", italic=True, align="right", priority=-1)
# the states the histories start in
START = {
    "two": [["slide"]],
    "three": [["slide"], ["set", 0, "y", "s2", None], ["box", 1]],
    "styled": [["set", 0, "x", "s0", None], ["slide"], ["set", 1, "y", "s1", None], ["box", 1], ["box", 2]],
}
FULL = ["set x s0", "set x s1 y", "set y s2", "upd x s2", "upd default s3", "set default full", "upd y s1",
        "box", "text x", "text i", "text o", "get x", "get default"]
SMALL = ["set x s0", "upd x s2", "upd default s3", "box", "text i", "set x s1 y"]
MAXC = 5


def alphabet(n, ops):
    res = []
    for c in range(n):
        for o in ops:
            w = o.split()
            if w[0] == "set":
                res.append(["set", c, w[1], w[2], w[3] if len(w) > 3 else None])
            elif w[0] == "upd":
                res.append(["upd", c, w[1], w[2]])
            elif w[0] == "box":
                if n < MAXC:
                    res.append(["slide"] if c == 0 else ["box", c])
            elif w[0] == "get":
                res.append(["get", c, w[1]])
            elif c != 0:
                res.append(["text", c, w[1]])
    res.append(["mutpassed"])
    res.append(["mutret"])
    return res


def containers(h):
    return 1 + sum(1 for o in h if o[0] in ("slide", "box"))


def histories(h, depth, ops):
    yield h
    if depth == 0:
        return
    for o in alphabet(containers(h), ops):
        if o[0] == "mutpassed" and not any(x[0] in ("set", "upd", "text") for x in h):
            continue
        if o[0] == "mutret" and not any(x[0] in ("set", "upd") for x in h):
            continue
        yield from histories(h + [o], depth - 1, ops)


def cases(tier, env):
    d = 1 if tier == "thorough" else 0
    for st in START:
        for h in histories(START[st], 3 + d if st == "two" else 2 + d, FULL):
            yield h
        for h in histories(START[st], 4 + d if st == "two" else 3 + d, SMALL):
            if len(h) > len(START[st]) + 2:
                yield h


    # many styles and many boxes
    for m in (20, 100):
        h = [["slide"]] + [["set", i % 2, f"z{i}", ["s0", "s1", "s2", "s3"][i % 4], None] for i in range(m)]
        h += [["upd", 1, f"z{i}", "s1"] for i in range(1, m, 7)] + [["box", 1], ["box", 2]]
        for a in alphabet(4, SMALL):
            yield h + [a]
            for b in alphabet(4, SMALL):
                yield h + [a, b]
    h = [["slide"], ["set", 1, "x", "s0", None]] + [["box", i] for i in range(1, 30)]
    for at in (1, 2, 15, 29, 30):
        for o in (["set", at, "x", "s1", "x"], ["upd", at, "x", "s2"], ["upd", at, "default", "s3"], ["set", at, "y", "s1", None]):
            yield h + [o]
            yield h + [o, ["box", at], ["upd", 30, "x", "s3"], ["box", 30], ["text", 15, "x"]]
            yield h + [["upd", 1 + i % at, "x", ["s0", "s1", "s2"][i % 3]] for i in range(40)] + [o, ["text", 30, "x"]]


def setup(env):
    fakeproc.install()


DEFAULTS = {
    "default": dict(font="sans-serif", color="black", size=28, line_spacing=1.2, align="middle",
                    variant_numeric="lining-nums"),
}


def val(d):
    r = {k: d.get(k) for k in ALL}
    if r["priority"] is None:
        r["priority"] = 0
    return r


def over(a, b):
    return {k: b[k] if b[k] is not None else a[k] for k in ALL}


def attrs(style):
    return {k: getattr(style, k) for k in ALL}


def check(rec, ok, message, key=None, **details):
    if not ok:
        rec.fail(message, key=key, **details)


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 3000 == 0:
        env.data.pop("backend", None)
    deck = W.new_deck(env, width=100, height=100)
    real = [deck]
    model = [{k: val(v) for k, v in DEFAULTS.items()}]
    texts = []          # (id, want look of "a", of "q", line height, anchor)
    passed = ret = None
    boxes = 0

    def text(c, kind):
        nonlocal passed
        t = model[c]
        if kind == "x":
            if "x" not in t:
                try:
                    real[c].text("a", "x")
                except Exception:
                    return
                rec.fail("a text with an undefined style is accepted")
                return
            style = "x"
            base = over(t["default"], t["x"])
        elif kind == "o":
            style = TextStyle(**S["s1"])
            passed = style
            base = over(t["default"], val(S["s1"]))
        else:
            style = "default"
            base = t["default"]
        name = f"T{len(texts)}"
        real[c].box().text(name + (":~x{q}" if "x" in t else ":q") + "\nz", style)
        names = ("x",) if "x" in t else ()
        q = textref.effective(base, names, t)
        texts.append((name, textref.look(base), textref.look(q), base["size"] * base["line_spacing"],
                      {"left": "start", "middle": "middle", "right": "end"}[base["align"]]))

    rec.state(case)
    for op in case:
        k = op[0]
        if k == "slide":
            real.append(deck.new_slide())
            model.append({a: dict(b) for a, b in model[0].items()})
        elif k == "box":
            real.append(real[op[1]].box())
            model.append({a: dict(b) for a, b in model[op[1]].items()})
        elif k == "set":
            _, c, name, s, base = op
            passed = TextStyle(**S[s])
            bad = base is not None and base not in model[c]
            try:
                ret = real[c].set_style(name, passed, **({"base": base} if base else {}))
            except Exception as ex:
                check(rec, bad, "set_style fails", error=repr(ex))
                continue
            if bad:
                rec.fail("set_style with an unknown base succeeds", stop=True)
            v = val(S[s])
            if base is not None:
                v = over(model[c][base], v)
            model[c][name] = v
            check(rec, attrs(ret) == v, "set_style returns another style", got=attrs(ret), want=v)
        elif k == "upd":
            _, c, name, s = op
            passed = TextStyle(**S[s])
            bad = name not in model[c]
            try:
                ret = real[c].update_style(name, passed)
            except Exception as ex:
                check(rec, bad, "update_style fails", error=repr(ex))
                continue
            if bad:
                rec.fail("update_style of an unknown style succeeds", stop=True)
            model[c][name] = over(model[c][name], val(S[s]))
            check(rec, attrs(ret) == model[c][name], "update_style returns another style",
                       got=attrs(ret), want=model[c][name])
        elif k == "get":
            _, c, name = op
            if name in model[c]:
                for full in (False, True):
                    g = real[c].get_style(name, full_style=full)
                    for a, b in MUT.items():
                        setattr(g, a, b)
        elif k == "text":
            text(op[1], op[2])
        elif k == "mutpassed" and passed is not None:
            for a, b in MUT.items():
                setattr(passed, a, b)
        elif k == "mutret":
            if ret is not None:
                for a, b in MUT.items():
                    setattr(ret, a, b)
        rec.step()
    for c, t in enumerate(model):
        for name in ("default", "x", "y"):
            check(rec, real[c].has_style(name) == (name in t), "has_style differs", container=c, name=name)
            if name not in t:
                continue
            got = attrs(real[c].get_style(name))
            check(rec, got == t[name], "get_style differs", container=c, name=name, got=got, want=t[name])
            got = attrs(real[c].get_style(name, full_style=True))
            want = t[name] if name == "default" else over(t["default"], t[name])
            check(rec, got == want, "get_style (full) differs", container=c, name=name, got=got, want=want)
        if c:
            text(c, "i")
    if not texts:
        return
    got = {}
    for svg in W.svgs(deck):
        for it in W.Page(svg).items:
            if it.tag != "text":
                continue
            ls = svgobs.text_lines(it.el)
            chars = [(ch, textref.svg_look(st)) for _, _, x in ls for ch, st in x]
            name, _, _ = "".join(ch for ch, _ in chars).partition(":")
            i = len(name)
            dy = ls[1][1] if len(ls) > 1 else None
            got[name] = (name, chars[0][1], chars[i + 1][1], dy, it.el.get("text-anchor"))
            if chars[-1][1] != chars[0][1]:
                rec.fail("the second line has another style", svg=svg)
    rec.trace()
    rec.outcome([(t, model) for t in texts])
    check(rec, sorted(got) == sorted(t[0] for t in texts), "the texts differ", got=sorted(got))
    for t in texts:
        g = got.get(t[0])
        check(rec, g is not None and g[:3] == t[:3] and abs(g[3] - t[3]) < 1e-6 and g[4] == t[4],
                   "a text has another style", key=t[0], got=g, want=t)
