"""C16: code highlighting preserves the code and composes with inline styles."""
import itertools

from pygments.lexers import get_all_lexers, get_lexer_by_name
from pygments.styles import get_style_by_name

import elsie
from elsie import TextStyle

from .. import fakeproc, textref
from .. import world as W

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all placements of inline styles over the characters of code "
             "snippets, and of all languages, against a reference built from the lexer's token stream")
NOTE = ("Every drawn character, its line and its attributes are read back from the SVG and compared "
        "with the source characters styled by the enclosing token and style ranges (outer to inner).")
ASSUMPTIONS = ["the lexers of Pygments are the reference for the tokens of a language",
               "leading newlines are not drawn by highlighted code unless use_styles is on; trailing "
               "newlines are never drawn",
               "of a token and an inline style over each other, the one that starts earlier (when "
               "they start together, the longer one) is the outer one"]
BOUND = {"quick": "all placements of <= 2 ranges x style pairs in 7 snippets of <= 15 characters, "
                  "with/without line numbers; all Pygments languages x 8 snippets; "
                  "all strings of length <= 5 without a language",
         "thorough": "all style pairs; all placements of 3 ranges in 4 snippets"}

STYLES = {
    "r": dict(color="red"),
    "b": dict(bold=True),
    "n": dict(bold=False, italic=True, size=11),
    "p": dict(color="lime", priority=1),
    "m": dict(color="pink", italic=False, priority=-1),
}
SNIPPETS = {
    "py": ("python", 'if a:\n  b="c"'),
    "doc": ("python", "'''d\ne'''\nx"),
    "c": ("c", "int /*a\nb*/ c"),
    "empty": ("python", "x\n\n#é\n\ny"),
    "lead": ("python", "\n\nx y\n"),
    "cmt": ("c", "//a b\n/*\n*/x"),
    "text": ("text", "a b\nc"),
    "gap": ("c", "/*\n\n\n*/"),
    "gap2": ("python", "#a\n\n\n\nb"),
    "html": ("html", "<a b='&lt;'>"),
}
LARGE = {"wide": ("python", "value = compute(alpha, 'text', 12) + other[3]  # note"),
         "tall": ("c", "/* one\n two */ x(1); " * 12)}
PAIRS_Q = [("r", "b"), ("p", "r"), ("r", "p"), ("n", "b"), ("#x", "r"), ("m", "r")]
PLAIN = ["int main() { return 0; } // c~a{b}\n", "def f(x):\n\t'''doc\n\n x'''\n\treturn\tx + 1.5",
         "<a b='c'>text &amp; {{ x|y }}</a>", "# c\n$x = \"a$b\\n\";\n@foo :bar", "a: - b\n- [c, 'd']  # e\n",
         "> a\nout\n>>> x\n1\n", "(defun f (x) (+ x 1))\n; c\n\n\n% d", "\n\n--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n\n"]


def ranges(n, k, allow_empty):
    """All sequences of k properly nested/disjoint ranges in 0..n (sorted by opening)."""
    one = [(i, j) for i in range(n + 1) for j in range(i if allow_empty else i + 1, n + 1)]
    if k == 1:
        for r in one:
            yield (r,)
        return
    for rest in ranges(n, k - 1, False):
        for r in one:
            # r opens after all of the others
            if r[0] < rest[-1][0]:
                continue
            ok = True
            for q in rest:
                if r[0] >= q[1]:
                    continue
                if not (q[0] <= r[0] and r[1] <= q[1]):
                    ok = False
            if ok:
                yield rest + (r,)


def cases(tier, env):
    th = tier == "thorough"
    for name in SNIPPETS:
        n = len(SNIPPETS[name][1])
        for ln in (0, 1):
            yield ["use", name, [], ln]
            for s in STYLES:
                for (r,) in ranges(n, 1, True):
                    yield ["use", name, [[*r, s]], ln]
        for s1, s2 in (itertools.product([*STYLES, "#x"], repeat=2) if th else PAIRS_Q):
            for a, b in ranges(n, 2, False):
                yield ["use", name, [[*a, s1], [*b, s2]], 0]
                if (s1, s2) == ("r", "b"):
                    yield ["use", name, [[*a, s1], [*b, s2]], 1]
    for name in (SNIPPETS if th else ["doc"]):
        n = len(SNIPPETS[name][1])
        if n > 13:
            continue
        for rs in ranges(n, 3, False):
            yield ["use", name, [[*rs[0], "r"], [*rs[1], "p"], [*rs[2], "b"]], 0]
            if th:
                yield ["use", name, [[*rs[0], "b"], [*rs[1], "r"], [*rs[2], "n"]], 1]
    # long lines and deep nesting across tokens
    for name, (_, text) in LARGE.items():
        n = len(text)
        for a in range(0, min(n, 40), 1 if th else 2):
            for b in range(a + 1, min(n, 60)):
                if name == "wide":
                    yield ["use", name, [[a, b, "rbnm"[(a + b) % 4]]], a % 2]
                d = 2 + (a + b) % 8
                for sa, sb in ((1, 1), (0, 1), (1, 0), (2, 1)):
                    rs = [[a + k * sa, b - k * sb, "rnb"[k % 3]] for k in range(d) if a + k * sa < b - k * sb]
                    if len(rs) > 2:
                        yield ["use", name, rs, b % 2]
    for lines in (51, 120):
        for tab in (1, 3, 4, 8):
            for lang in ("c", "python", "text", "html"):
                yield ["lang", lang, "".join("\tab\tc(%d)\t#\t1\n" % i for i in range(lines)), tab % 2, tab]
    for lang in sorted({al[0] for _, al, _, _ in get_all_lexers() if al}):
        for i in range(len(PLAIN)):
            yield ["lang", lang, PLAIN[i], i % 2, 1 + i % 5]
    for n in range(0, 7 if th else 6):
        for t in itertools.product("a~{}\n\t", repeat=n):
            t = "".join(t)
            for use in (0, 1):
                if use and ("~" not in t or "{" not in t):
                    continue
                yield ["none", t, use, n % 2]
    # numbers of one, two and three digits
    for n in [*range(1, 13), 98, 99, 100, 101] + ([999, 1000, 1001] if th else []):
        for lines in (["a"] * n, [""] * (n - 1) + ["b"], ["c"] + [""] * (n - 2) + ["d"] * (n > 1), (["x", "", ""] * n)[:n]):
            for end in ("", "\n", "\n\n"):
                yield ["lang", "c", "\n".join(lines) + end, 1, 4]
                yield ["none", "\n".join(lines) + end, 0, 1]
                if "a" in lines:
                    yield ["none", "~r{" + "\n".join(lines) + "}" + end, 1, 1]
    for n in range(1, 5 if th else 4):
        for t in itertools.product("#'\n \\\"", repeat=n):
            yield ["lang", "python", "".join(t), 1, 3]
            yield ["lang", "c", "".join(t), 0, 3]
            yield ["lang", "yaml", "".join(t), 0, 3]


def setup(env):
    fakeproc.install()


def get_deck(env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 300 == 0:
        if n % 15000 == 0:
            env.data.pop("backend", None)
        deck = W.new_deck(env, width=200, height=100)
        for k, v in STYLES.items():
            deck.set_style(k, TextStyle(**v))
        env.data["deck"] = deck
    return env.data["deck"]


BASE = dict(font="monospace", color="#222", size=20, line_spacing=1.2, priority=0, opacity=None,
            bold=None, italic=None)


def full(d):
    return {**{a: d.get(a) for a in textref.ATTRS}, "priority": d.get("priority", 0)}


REF = {k: full(v) for k, v in STYLES.items()}
REF["code_lineno"] = full(dict(color="gray"))
REF.update(tt=full(dict(font="monospace")), emph=full(dict(italic=True)),
           alert=full(dict(color="red", bold=True)))
THEME = get_style_by_name("default")
STD = {t for t, _ in THEME}


def token_style(tok):
    while tok not in STD:
        tok = tok.parent
    s = THEME.style_for_token(tok)
    return full(dict(color="#" + s["color"] if s["color"] else None, bold=True if s["bold"] else None,
                     italic=True if s["italic"] else None))


def markup(text, rs):
    """The text with the ranges written as inline styles."""
    out = []
    open_ = []
    todo = list(rs)
    for i in range(len(text) + 1):
        while open_ and open_[-1][1] == i:
            open_.pop()
            out.append("}")
        while todo and todo[0][0] == i:
            a, b, s = todo.pop(0)
            out.append(f"~{s}{{")
            if a == b:
                out.append("}")
            else:
                open_.append((a, b))
        out.append(text[i:i + 1])
    return "".join(out)


def expected(text, toks, rs, line_numbers):
    """Lines of (char, look). toks: [(type, value)] or None"""
    spans = []
    if toks is not None:
        p = 0
        for t, v in toks:
            spans.append((p, p + len(v), len(v.rstrip("\n")), t, v))
            p += len(v)
    rs = [(a, b, len(text[a:b].rstrip("\n")), s) for a, b, s in rs]
    styles = dict(REF)
    chars = []
    for i, c in enumerate(text):
        mine = [r for r in rs if r[0] <= i < r[1]]
        tok = next((s for s in spans if s[0] <= i < s[1]), None)
        names = [r[3] for r in mine]
        if tok is not None and tok[4] != "\n":
            k = sum(1 for r in mine if r[0] < tok[0] or (r[0] == tok[0] and r[2] >= tok[2]))
            styles[tok[3]] = token_style(tok[3])
            names.insert(k, tok[3])
        chars.append((c, names))
    return finish(chars, styles, line_numbers)


def finish(chars, styles, line_numbers):
    got = textref.lines(chars, BASE, styles)
    if line_numbers:
        w = len(str(len(got)))
        look = textref.look(textref.effective(BASE, ["code_lineno"], styles))
        got = [[(c, look) for c in f"{i:0{w}d} "] + line for i, line in enumerate(got, 1)]
    return got


def run(case, rec, env):
    kind = case[0]
    kw = {}
    want = None
    if kind == "use":
        _, name, rs, ln = case
        lang, text = {**SNIPPETS, **LARGE}[name]
        src = markup(text, rs)
        kw = dict(use_styles=True, line_numbers=bool(ln))
        if ln and any(a == b and text[a:].strip("\n") == "" for a, b, _ in rs):
            return  # whether an empty style makes the last line a line is not specified
        lead = len(text) - len(text.lstrip("\n"))
        core = text[lead:]
        toks = list(get_lexer_by_name(lang).get_tokens(core))
        assert "".join(v for _, v in toks) == core.rstrip("\n") + "\n", toks
        if lead:
            toks.insert(0, ("Lead", "\n"))
            for _ in range(lead - 1):
                toks.insert(0, ("Lead", "\n"))
        want = expected(text, toks, rs, ln)
    elif kind == "lang":
        _, lang, src, ln, tab = case
        kw = dict(line_numbers=bool(ln), tabsize=tab)
        toks = list(get_lexer_by_name(lang).get_tokens(src.replace("\t", " " * tab)))
        # some lexers normalize the code, otherwise it is the code itself
        text = "".join(v for _, v in toks)
        rec.count("languages keeping the code", text.strip("\n") == src.replace("\t", " " * tab).strip("\n"))
        want = expected(text, toks, [], ln)
    else:
        _, src, use, ln = case
        lang = None
        text = src.replace("\t", "    ")
        kw = dict(line_numbers=bool(ln), use_styles=bool(use))
        try:
            chars, names = textref.parse(text, "~" if use else None)
            for n in names:
                if n not in REF and not n.startswith("#"):
                    raise textref.Reject
            if ln and use and "{}" in text:
                return
            want = finish(chars, REF, ln)
        except textref.Reject:
            pass
    deck = get_deck(env)
    slide = deck.new_slide()
    rec.state(case)
    try:
        slide.code(lang, src, **kw)
    except Exception as ex:
        rec.step()
        if want is not None:
            rec.fail("a correct code is rejected", error=repr(ex)[:300], source=src)
        return
    if want is None:
        rec.fail("an incorrect code is accepted")
        return
    page = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
    rec.trace()
    if len(page.items) != 1 or page.items[0].tag != "text":
        rec.fail("not exactly one text is drawn", svg=page.svg, stop=True)
    try:
        got = textref.svg_lines(page.items[0].el, 24.0)
    except ValueError as ex:
        rec.fail(str(ex), svg=page.svg, stop=True)
    rec.step(sum(len(x) for x in want) + len(want))
    rec.outcome(got)
    if [[c for c, _ in x] for x in got] != [[c for c, _ in x] for x in want]:
        rec.fail("the drawn characters differ", got=["".join(c for c, _ in x) for x in got],
                 want=["".join(c for c, _ in x) for x in want], svg=page.svg)
    elif got != want:
        rec.fail("a character has a wrong style", source=src,
                 got=[c for x in zip(got, want) for c in zip(*x) if c[0] != c[1]][:6])
