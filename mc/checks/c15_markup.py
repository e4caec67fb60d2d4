"""C15: inline markup styles exactly the enclosed characters."""
import itertools

import elsie
from elsie import TextStyle

from .. import fakeproc, textref
from .. import world as W

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all strings over a markup alphabet and of all markup trees "
             "up to a size (styles with all kinds of attributes and priorities, newlines anywhere) "
             "against a reference semantics")
NOTE = ("Each text is drawn by the real code; the characters, lines and effective attributes read "
        "back from the SVG must equal those of an independent reference interpreter, and texts the "
        "reference rejects must raise.")
ASSUMPTIONS = ["observed attributes: font, size, colour, opacity, weight, slant (alignment, line "
               "spacing and digit variants are properties of the whole text)",
               "trailing newlines are not drawn"]
BOUND = {"quick": "all strings of length <= 6 over {a ~ { } newline r #}; all trees with <= 4 "
                  "nodes over 9 styles/newline/text in 3 base styles; 7776 placements of newlines in nested styles; escape variants length <= 5",
         "thorough": "strings of length <= 7, trees with <= 5 nodes"}

STYLES = {
    "r": dict(color="red"),
    "b": dict(bold=True),
    "n": dict(bold=False, italic=True),
    "s": dict(size=11, font="F"),
    "o": dict(opacity=0.5, color="blue"),
    "p": dict(color="green", priority=1),
    "q": dict(italic=True, color="pink", priority=2),
    "m": dict(color="gray", size=40, priority=-1),
    "e": dict(),
    "#d": dict(color="gold"),       # defined although it looks unnamed
}
BASES = {
    "default": None,
    "full": dict(font="Q", size=10, align="left", line_spacing=1.5, color="#123456", bold=True,
                 italic=True, opacity=0.25),
    "prio": dict(size=20, align="right", bold=False, priority=1),
}
TREE = ["r", "b", "n", "s", "p", "q", "m", "#x", "o"]
TREE_S = ["r", "p", "q", "m", "#x"]


def trees(n, styles):
    """All token sequences (texts of markup) with exactly n nodes; leaves: 'a' and newline."""
    if n == 0:
        yield ""
        return
    for first in range(1, n + 1):
        for rest in trees(n - first, styles):
            if first == 1:
                yield "a" + rest
                yield "\n" + rest
            for inner in trees(first - 1, styles):
                for s in styles:
                    yield "~" + s + "{" + inner + "}" + rest


def cases(tier, env):
    th = tier == "thorough"
    for n in range(1, 8 if th else 7):
        for t in itertools.product("a~{}\nr#", repeat=n):
            t = "".join(t)
            if n >= 6 and ("~" not in t or "{" not in t):
                continue
            yield ["default", "~", t]
    for n in range(1, 6 if th else 5):
        for base in BASES:
            st = TREE if n <= 3 else TREE_S
            for t in trees(n, st):
                yield [base, "~", t]
    # three nested styles around letters: every combination of styles
    for a, b, c in itertools.product(TREE + ["e", "#d"], repeat=3):
        for base in BASES:
            yield [base, "~", f"x~{a}{{y~{b}{{z\n~{c}{{u\n\nv}}w}}\nt}}s"]
            yield [base, "~", f"~{a}{{y}}~{b}{{z~{c}{{u}}v}}\n~{c}{{w}}"]
    # line ends at all edges of nested styles
    edge = ["", "x", "\n", "\n\n", "x\n\n", "\n\nx"]
    for t in itertools.product(edge, edge, edge, edge, edge):
        yield ["default", "~", "%s~r{%s~b{%s}%s}%s" % t]
    if th:
        for t in itertools.product(edge, repeat=7):
            yield ["default", "~", "%s~r{%s~b{%s~#x{%s}%s}%s}%s" % t]
    # deep nesting and many siblings
    for base in BASES:
        for d in range(4, 13):
            for s in range(len(TREE)):
                for step in range(1, len(TREE)):
                    names = [TREE[(s + step * i) % len(TREE)] for i in range(d)]
                    nl = "\n" if (s + step) % 3 == 0 else ""
                    yield [base, "~", "".join("~%s{%d%s" % (v, i % 10, nl) for i, v in enumerate(names))
                           + "x" + "".join("}%s%d" % (nl, i % 10) for i in range(d))]
                    if d > 8:
                        yield [base, "~", "".join("~%s{%d}%s~~" % (v, i, nl) for i, v in enumerate(names * 3))]
        for d in range(4, 10):
            for v, w, u in itertools.product("rpqm", repeat=3):
                # another style at every depth on the way back
                names = ([v] * (d - 2) + [w, u])
                yield [base, "~", "".join("~%s{a" % x for x in names) + "".join("}~%s{s}" % u for _ in names)]
                yield [base, "~", "".join("~%s{" % x for x in reversed(names))
                       + "".join("}~%s{s}~%s{\n}" % (w, v) for _ in names)]
        for n in (10, 63, 64, 65, 500, 5000):
            yield [base, "~", "~r{" + "ab cd" * n + "}" + "x" * n + "~b{" + "\n" * n + "y\n" * (n // 50) + "}z"]
    # escape variants: all strings over the special characters of both kinds
    for esc, alpha in (("!", "a!{}~r"), ("@[]", "a@[]r{"), ("~()", "~()r}\n"), ("$<>", "$<>r&'")):
        for n in range(1, 7 if th else 6):
            for t in itertools.product(alpha, repeat=n):
                yield ["default", esc, "".join(t)]


def setup(env):
    fakeproc.install()


def get_deck(env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 300 == 0:
        if n % 15000 == 0:
            env.data.pop("backend", None)
        deck = W.new_deck(env, width=200, height=100)
        for k, v in STYLES.items():
            deck.set_style(k, TextStyle(**v))
        env.data["deck"] = deck
    return env.data["deck"]


DEFAULT = dict(font="sans-serif", color="black", size=28, line_spacing=1.2, priority=0,
               opacity=None, bold=None, italic=None, align="middle")
REF_STYLES = {k: {**{a: v.get(a) for a in textref.ATTRS}, "priority": v.get("priority", 0)}
              for k, v in STYLES.items()}
for _n, _d in (("tt", dict(font="monospace")),):
    REF_STYLES[_n] = {**{a: _d.get(a) for a in textref.ATTRS}, "priority": 0}


def run(case, rec, env):
    basename, esc, src = case
    base = dict(DEFAULT)
    if BASES[basename] is not None:
        base.update({k: v for k, v in BASES[basename].items()})
    e = (esc, "{", "}") if len(esc) == 1 else tuple(esc)
    try:
        chars, names = textref.parse(src, *e)
        for n in names:
            if n not in REF_STYLES and not n.startswith("#"):
                raise textref.Reject("style")
        want = textref.lines(chars, base, REF_STYLES)
    except textref.Reject:
        want = None
    deck = get_deck(env)
    slide = deck.new_slide()
    kw = {} if esc == "~" else {"escape_char": esc}
    style = "default" if BASES[basename] is None else TextStyle(**BASES[basename])
    rec.state(case)
    try:
        slide.text(src, style, **kw)
    except Exception as ex:
        rec.step()
        if want is not None:
            rec.fail("a correct text is rejected", error=repr(ex)[:200])
        return
    if want is None:
        rec.fail("an incorrect text is accepted", svg=svg(deck, slide))
        return
    page = W.Page(svg(deck, slide))
    rec.trace()
    if len(page.items) != 1 or page.items[0].tag != "text":
        rec.fail("not exactly one text is drawn", svg=page.svg, stop=True)
    el = page.items[0].el
    try:
        got = textref.svg_lines(el, base["size"] * base["line_spacing"])
    except ValueError as ex:
        rec.fail(str(ex), svg=page.svg, stop=True)
    rec.step(sum(len(x) for x in want) + len(want))
    rec.outcome(got)
    if [[c for c, _ in x] for x in got] != [[c for c, _ in x] for x in want]:
        rec.fail("the drawn characters differ", got=got, want=want, svg=page.svg)
    elif got != want:
        rec.fail("a character has a wrong style", got=got, want=want, svg=page.svg)


def svg(deck, slide):
    return W.svgs(deck, select_slides=[slide.slide])[0]
