"""C09: slide names obey the name policy through every history."""
import itertools
import os
import sys
import types

from .. import fakeink
from .. import world as W

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of histories of slide creations (named, unnamed, by decorator, "
             "with invalid names), added PDFs and renderings under every name policy against a "
             "reference list")
NOTE = ("Every history up to the bound runs on the real SlideDeck under each policy (and 'auto' in "
        "each notebook situation); after each operation the surviving slides, their names, the "
        "lookup of every name and finally the rendered pages are compared with a reference list.")
ASSUMPTIONS = ["Jupyter is simulated by a stand-in IPython module"]
BOUND = {"quick": "all histories of length <= 5 over 8 operations, 4 policies; length <= 4 for the "
                  "6 situations of 'auto' and the default",
         "thorough": "length <= 6 over 9 operations; length <= 4 for 'auto'"}

# operation: (how, name)
OPS = [["new", None], ["new", "a"], ["new", "b"], ["deco", "a"], ["fn", "b"], ["bad", "a"],
       ["int", 5], ["pdf", None]]
OPS_T = OPS + [["new", ""]]
POLICIES = ["unique", "replace", "ignore", None]
AUTO = ["none", "get_none", "shell", "kernel"]


def cases(tier, env):
    th = tier == "thorough"
    for n in range(1, 5):
        for h in itertools.product(range(len(OPS_T)), repeat=n):
            for pol in POLICIES[:3]:
                yield [pol, "none", list(h)]
            if n <= 3 or (th and n <= 4):
                for a in AUTO:
                    yield ["auto", a, list(h)]
                yield [None, "kernel", list(h)]
                yield [None, "none", list(h)]
    ops = len(OPS_T) if th else len(OPS)
    for n in (5, 6) if th else (5,):
        for h in itertools.product(range(ops), repeat=n):
            for pol in ("unique", "replace"):
                yield [pol, "none", list(h)]
    # many slides
    for n in (9, 33, 130, 300):
        for pol in ("unique", "replace", "ignore"):
            for how in ("new", "deco"):
                h = [[how, f"s{i}"] for i in range(n)]
                yield [pol, "none", h + [["pdf", None]] + [[how, f"s{i}"] for i in (0, n // 2, n - 1, 0)] + [["new", "a"]]]
                yield [pol, "none", h[:n // 2] + h[:n // 2:3] + h[n // 2:] + h[::n // 8 + 1]]
    for pol in ("bogus", "Unique", 5, True):
        yield ["invalid", "none", [pol]]


NAMES = {"a": "part", "b": "part 2"}


def real(name):
    """The name is a new object every time."""
    return "".join(list(NAMES.get(name, name))) if isinstance(name, str) else name


def set_notebook(kind):
    if kind == "none":
        sys.modules["IPython"] = None        # ImportError
        return
    m = types.ModuleType("IPython")
    ip = types.SimpleNamespace(config={"IPKernelApp": {}} if kind == "kernel" else
                               {"TerminalIPythonApp": {}})
    m.get_ipython = lambda: None if kind == "get_none" else ip
    sys.modules["IPython"] = m


def setup(env):
    d = env.fresh_dir()
    env.data["pdf"] = os.path.join(d, "x.pdf")
    with open(env.data["pdf"], "wb") as f:
        f.write(fakeink.make_pdf("x", 30, 40))


def run(case, rec, env):
    policy, nb, hist = case
    rec.state(case)
    set_notebook(nb)
    if policy == "invalid":
        try:
            W.new_deck(env, name_policy=hist[0])
        except Exception:
            rec.step()
        else:
            rec.fail("an invalid name policy is accepted")
        return
    kw = {} if policy is None else {"name_policy": policy}
    deck = W.new_deck(env, width=100, height=100, **kw)
    eff = policy
    if policy in ("auto", None):
        eff = "replace" if nb == "kernel" else "ignore"
    model = []            # entries [name or None, marker or "pdf", object]
    for i, k in enumerate(hist):
        how, name = OPS_T[k] if isinstance(k, int) else k
        name = real(name)
        if how == "pdf":
            deck.add_pdf(env.data["pdf"])
            model.append([None, "pdf", None])
            check(deck, model, rec, i)
            continue
        old = next((e for e in model if e[1] != "pdf" and e[0] == name), None) \
            if name is not None else None
        reject = how == "bad"
        if eff == "unique" and name is not None and (old is not None or how == "int"):
            reject = True
        if eff == "replace" and (name is None or how == "int"):
            reject = True
        mark = W.color(i)
        got = []

        def fill(box):
            got.append(box)
            box.box(width=10, height=10).rect(bg_color=mark)

        err = None
        try:
            if how == "deco":
                slide = deck.slide(name)(fill)
            elif how == "fn":
                fill.__name__ = name
                slide = deck.slide()(fill)
            else:
                kw2 = {"view_box": [0, 0, 1, 1]} if how == "bad" else {}
                box = deck.new_slide(name, **kw2)
                fill(box)
                slide = box.slide
        except Exception as e:
            err = e
        rec.step()
        if reject:
            if err is None:
                rec.fail("a slide that has to be rejected is accepted", at=i, stop=True)
            if got:
                rec.fail("rejected slide is passed to the decorated function", at=i)
        else:
            if err is not None:
                rec.fail("a valid slide is rejected", at=i, error=repr(err), stop=True)
            if eff == "replace" and old is not None:
                model.remove(old)
            if got[0].slide is not slide or slide.name != name:
                rec.fail("wrong slide created", at=i, name=slide.name)
            model.append([name, mark, slide])
        check(deck, model, rec, i)
    if not model:
        return
    pages = W.render_units(deck)
    got = []
    for u in pages:
        svg = u.get_svg()
        got.append("pdf" if svg is None else [it.fill for it in W.Page(svg).items])
    want = ["pdf" if m == "pdf" else [m] for _, m, _ in model]
    rec.trace()
    rec.outcome([[e[0], e[1] == "pdf"] for e in model])
    rec.expect(got, want, "rendered slides differ from the surviving ones")


def check(deck, model, rec, i):
    for name in (None, real("a"), real("b"), "", "Part", 5):
        try:
            got = deck.get_slide_by_name(name)
        except Exception as e:
            rec.fail("lookup of a name fails", at=i, name=name, error=repr(e), stop=True)
        rec.step()
        if name is None:
            continue        # unnamed slides: unspecified
        want = next((e[2] for e in model if e[1] != "pdf" and e[0] == name), None)
        if got is not want:
            rec.fail("lookup of a name gives a wrong slide", at=i, name=name,
                     got=repr(got), want=repr(want))
