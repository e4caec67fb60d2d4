"""C27: Markdown text is rendered completely, in order and styled."""
import itertools
import re

from .. import textgeo
from .. import world as W
from ..svgobs import Page, text_lines

ID = "C27"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of documents over a Markdown grammar that generates source and meaning "
             "together; the texts drawn by the real code (string, style of every character, order, position) "
             "are compared with the meaning")
NOTE = ("Documents are generated from trees (not parsed by the check), so the expected texts do not depend on "
        "the Markdown library.")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in",
               "constructs documented as unsupported (rules, images, inline and indented code, HTML) draw nothing",
               "braces are part of Elsie's inline styles: a brace inside emphasis is a recorded finding",
               "token colours of fenced code are C16's business; here only its characters and font"]
BOUND = {"quick": "paragraph/heading/quote/item of <=2 of 48 inlines; sequences of <=3 of 15 blocks; all trees of "
                  "containers of depth <=3 with <=2 children; overrides of every style at 3 places; 4 escape "
                  "characters",
         "thorough": "<=3 inlines, sequences of <=4 blocks, trees of depth <=4"}

# --- inlines: (source, meaning); @ = a new word --------------------------------
T = "t"


def t(s):
    return [T, s]


INL = [
    ("@", [t("@")]),
    ("*@*", [["i", [t("@")]]]),
    ("_@_", [["i", [t("@")]]]),
    ("**@**", [["b", [t("@")]]]),
    ("__@ @__", [["b", [t("@ @")]]]),
    ("***@***", [["i", [["b", [t("@")]]]]]),
    ("*@ **@** @*", [["i", [t("@ "), ["b", [t("@")]], t(" @")]]]),
    ("**@ *@***", [["b", [t("@ "), ["i", [t("@")]]]]]),
    ("**@ *@* @**", [["b", [t("@ "), ["i", [t("@")]], t(" @")]]]),
    ("@*@*@", [t("@"), ["i", [t("@")]], t("@")]),
    ("[@](u)", [["a", [t("@")]]]),
    ("[*@* @](http://u.v \"title\")", [["a", [["i", [t("@")]], t(" @")]]]),
    ("**[@](<u v>)**", [["b", [["a", [t("@")]]]]]),
    ("[@][ref]", [["a", [t("@")]]]),
    ("[REF]", [["a", [t("REF")]]]),
    ("[@]", [t("[@]")]),
    ("[@](u", [t("[@](u")]),
    ("<http://x.y/@>", [["a", [t("http://x.y/@")]]]),
    ("<a@@x.yz>", [["a", [t("a@@x.yz")]]]),
    ("~tt{@}", [["tt", [t("@")]]]),
    ("~tt{@ *@*}", [["tt", [t("@ "), ["i", [t("@")]]]]]),
    ("*@ ~alert{@}*", [["i", [t("@ "), ["alert", [t("@")]]]]]),
    ("~emph{@ ~tt{@} **@**}", [["emph", [t("@ "), ["tt", [t("@")]], t(" "), ["b", [t("@")]]]]]),
    ("~md-bold{@}", [["b", [t("@")]]]),
    ("\\*@\\*", [t("*@*")]),
    ("\\_@ \\[@\\](u)", [t("_@ [@](u)")]),
    ("\\\\@\\x", [t("\\@\\x")]),
    ("*\\*@\\*@*", [["i", [t("*@*@")]]]),
    ("\\!\\\"\\#\\$\\%\\&@\\'\\(\\)\\+\\,\\-\\.\\/", [t("!\"#$%&@'()+,-./")]),
    ("@\\:\\;\\<\\=\\>\\?\\@\\^\\|\\{\\}", [t("@:;<=>?\0^|{}")]),
    ("\\~tt@", [t("~tt@")]),
    ("*\\~@*", [["i", [t("~@")]]]),
    ("@ ~~ @", [t("@ ~ @")]),
    ("&amp;@", [t("&@")]),
    ("&lt;@&gt; &copy; &#65;&#x42;", [t("<@> \u00a9 AB")]),
    ("\\&amp;@", [t("&amp;@")]),
    ("*&quot;@&quot;*", [["i", [t("\"@\"")]]]),
    ("@ < @ > & \" '", [t("@ < @ > & \" '")]),
    ("{@} }{", [t("{@} }{")]),
    ("@ * @ _ @", [t("@ * @ _ @")]),
    ("@_@_@ **", [t("@_@_@ **")]),
    ("@\n@", [t("@\n@")]),
    ("@  \n@", [t("@\n@")]),
    ("@\\\n@", [t("@\n@")]),
    ("*@\n@*", [["i", [t("@\n@")]]]),
    ("\u00e9\u2192@\u6f22", [t("\u00e9\u2192@\u6f22")]),
    ("`@`@", [["", []], t("@")]),
    ("![@](u.png)@", [["", []], t("@")]),
    ("<b>@</b>", [t("@")]),
    ("1\\. @", [t("1. @")]),
]
DROPPED = {46: 1, 47: 1}  # words that are not drawn
BRACES = [("*{@}*", [["i", [t("{@}")]]]), ("**@ } @**", [["b", [t("@ } @")]]]),
          ("[@\\}](u) @", [["a", [t("@}")]], t(" @")])]
SMALL = [0, 1, 3, 6, 10, 19, 24, 41]

# --- blocks --------------------------------------------------------------------
# ["p", inlines] ["h", level, inlines, form] ["code", lang, fence, text] ["q", blocks]
# ["ul", items] ["ol", start, items] ["hr"] ["pre"] ["html"]
CODES = [("", "```", "@ *@* ~tt{@} \\* &amp; }"), ("python", "~~~", "def @():\n    return 1\n\nx = '~'"),
         ("c", "```", "int @ = 0; // **}\n  y"), ("python", "````", "'''\n```\n# @\n'''"), ("", "```", "  @\n\n@")]


def P(*inl):
    return ["p", list(inl)]


def blocks15():
    return [P(0), P(1, 0), P(41), ["h", 1, [0], 0], ["h", 3, [3, 0], 1], ["h", 2, [41], 2], ["q", [P(0, 1)]],
            ["q", [P(0), ["h", 4, [0], 0]]], ["code", 0], ["code", 1], ["ul", [[P(0)], [P(3)]]],
            ["ol", 1, [[P(0)], [P(1)]]], ["ol", 4, [[P(0)]]], ["hr"], ["ul", [[], [P(0), ["ul", [[P(0)]]]]]]]


def trees(depth, small=False):
    """Blocks of the given depth at most."""
    yield P(0)
    if not small:
        yield ["h", 2, [0], 0]
        yield ["code", 0]
    if depth == 0:
        return
    sub = list(trees(depth - 1, True))
    for a in sub:
        yield ["q", [a]]
        yield ["ul", [[a]]]
        yield ["ol", 2, [[a], [P(0)]]]
        if depth == 3:
            continue
        yield ["ol", 5, [[P(0), a, P(0)], [P(0)]]]
        if depth == 1:
            yield ["ul", [[P(0), a, ["h", 2, [0], 0], a], [P(0), ["ol", 8, [[a], [P(0)]]], P(0)]]]
    for a, b in itertools.product(sub, repeat=2) if len(sub) < 30 else ((a, b) for a in sub for b in sub[:5]):
        yield ["q", [a, b]]
        yield ["ul", [[a, b]]]
        yield ["ol", 1, [[a, b]]]
        yield ["ul", [[a], [b]]]
        yield ["ol", 0, [[a], [b]]]


ALL = [P(0, 1, 3), ["h", 1, [0, 1], 0], ["h", 2, [0], 0], ["h", 3, [3], 0], ["h", 4, [0], 0], ["h", 5, [10], 0],
       ["h", 6, [0], 0], ["q", [P(0, 6, 10), ["h", 1, [0], 0], ["ul", [[P(0)]]]]], ["ul", [[P(0, 3)], [["q", [P(0)]]]]],
       ["ol", 3, [[P(0, 19)], [["h", 2, [0], 0]]]], ["code", 0]]
STYLES = ["md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote"] + ["md-h%d" % i for i in range(1, 7)]


def cases(tier, env):
    th = tier == "thorough"
    n = len(INL)
    for ctx in range(5):
        for a in range(n):
            yield ["inl", ctx, [a], 0]
        for a, b in itertools.product(range(n), repeat=2):
            for sep in (0, 1) if th or ctx == 0 else (a + b + ctx & 1,) if ctx in (2, 3) or (a ^ b) & 1 else ():
                yield ["inl", ctx, [a, b], sep]
        for a, b, c in itertools.product(range(n) if th else SMALL, repeat=3):
            for sep in (0, 1) if ctx == 0 or not th else (0,):
                if ctx in (0, 1, 3) or not th:
                    yield ["inl", ctx, [a, b, c], sep]
    for i in range(len(BRACES)):
        yield ["brace", i]
    for k in range(1, 5 if th else 4):
        for seq in itertools.product(range(15), repeat=k):
            if k == 4 and len(set(seq)) < 4:
                continue
            yield ["blocks", list(seq)]
    for lv, form, a in itertools.product(range(1, 7), range(3), range(n)):
        if (lv <= 2) if form == 2 else "\n" not in INL[a][0]:
            yield ["doc", [["h", lv, [a], form], P(0)]]
    for c in range(len(CODES)):
        for wrap in range(5):
            yield ["code", c, wrap]
    # large numbers, long and deep documents
    for start in (9, 10, 11, 12, 99, 100, 123, 999999, 123456789):
        for m in (1, 2, 12) if start < 1000 or th else (2,):
            yield ["doc", [["ol", start, [[P(0)]] * m]]]
            yield ["doc", [["ul", [[P(0), ["ol", start, [[P(0)], [P(3), P(0)]] * (m // 2 + 1)]]]], P(0)]]
    for m in (9, 16, 21, 33, 60):
        yield ["doc", [P(0)] * m]
        yield ["doc", [P(*[(i + m) % 40 for i in range(m)])]]
        yield ["doc", [["h", 1 + i % 6, [0], 0] for i in range(m)]]
        yield ["doc", [["ul", [[P(0), P(3)]] * m], P(0)]]
        yield ["doc", [["q", [P(i % 4) for i in range(m)]], ["code", 1]]]
    for d in (4, 5, 6, 8):
        for kinds in itertools.product("uo", repeat=2):
            tree = [P(0)]
            for i in range(d):
                sub = [P(0), ["ul" if kinds[i % 2] == "u" else "ol", *([] if kinds[i % 2] == "u" else [7 + i]), [tree, [P(0)]]]]
                tree = sub + [P(3)] if i % 3 == 1 else sub
            yield ["doc", tree[1:]]
        tree = P(0)
        for i in range(d):
            tree = ["q", [P(3), tree]]
        yield ["doc", [tree, P(0)]]
    for d in range(4 if th else 3):
        for k, tree in enumerate(trees(d + 1 if d == 2 else d)):
            if d < 2 or th or k % 2:
                yield ["doc", [tree]]
            if d < 2 or th or k % 4 == 0:
                yield ["doc", [P(0), tree, P(0)]]
    if th:
        for tree in trees(4, True):
            yield ["doc", [tree, P(0)]]
    for where in range(4):
        for k in range(1 << 5):
            yield ["style", where, [s for i, s in enumerate(STYLES[:5]) if k >> i & 1]]
        for s in STYLES + ["default", "tt"]:
            yield ["style", where, [s]]
        yield ["style", where, STYLES]
    for esc in range(4):
        for a in range(n):
            yield ["esc", esc, a]
    for i in range(len(EDGES)):
        for ind in range(4):
            yield ["edge", i, ind]
    for a, b in itertools.product(range(15), repeat=2):
        yield ["two", a, b]


EDGES = [("@\\`@\\`", [["p", [["raw", "@`@`"]]]]), ("", []), ("\n", []), ("  \n\t\n", []), ("@", [P(0)]), ("\n@\n", [P(0)]), ("# @\n@", [["h", 1, [0], 0], P(0)]),
         ("#", []), ("-", [["ul", [[]]]]), ("- @\n\n\n- @", [["ul", [[P(0)], [P(0)]]]]),
         ("@\n* @\n@\n> @\n@", [P(0), ["ul", [[P(41)]]], ["q", [P(41)]]]),
         ("```\n```\n@", [P(0)]), (">", []), ("> ", []), ("1. ", [["ol", 1, [[]]]]),
         ("@\n# @\n@\n***\n@", [P(0), ["h", 1, [0], 0], P(0), P(0)]),
         ("1. @\n1. @\n1. @", [["ol", 1, [[P(0)], [P(0)], [P(0)]]]]),
         ("#@", [["p", [["raw", "#@"]]]]), ("+ @\n+ @\n* @", [["ul+", [[P(0)], [P(0)]]], ["ul", [[P(0)]]]]),
         ("[REF]\n\n[ref]: u\n\n@", [P(14), P(0)]),
         ("####### @", [["p", [["raw", "####### @"]]]]), ("1) @\n2) @", [["ol", 1, [[P(0)], [P(0)]]]])]
ESC = ["~", "$", "~[]", "|()"]


class Doc:
    """Builds source and expected entries of a document."""

    def __init__(self, styles, esc="~"):
        self.words = 0
        self.styles = styles     # name -> partial style
        self.esc = esc
        self.refs = False

    def word(self):
        self.words += 1
        return "W%dw" % self.words

    def fill(self, src, words):
        """Replace every @ of the source (except \\@ and @@) by the next word."""
        out, i = [], 0
        while i < len(src):
            if src.startswith("\\@", i):
                out.append("\\@")
                i += 2
            elif src.startswith("@@", i):
                out.append("@")
                i += 2
            elif src[i] == "@":
                out.append(words.pop(0))
                i += 1
            else:
                out.append(src[i])
                i += 1
        return "".join(out)

    def escaped(self, src):
        if self.esc == "~":
            return src
        e, b, c = self.esc if len(self.esc) == 3 else self.esc + "{}"
        out, depth, i = [], 0, 0
        while i < len(src):
            if src.startswith("\\~", i):
                out.append("\\" + e)
                i += 2
                continue
            if src[i] == "~":
                out.append(e)
                if not src.startswith("~~", i):
                    depth += 1
                    j = src.index("{", i)
                    out.append(src[i + 1:j] + b)
                    i = j + 1
                    continue
                out.append(e)
                i += 2
                continue
            if src[i] == "}" and depth:
                depth -= 1
                out.append(c)
            else:
                out.append(src[i])
            i += 1
        return "".join(out)

    def inl(self, indices, style, sep=" "):
        """-> (source, [(char, style)])"""
        srcs, chars = [], []
        for k, ix in enumerate(indices):
            if isinstance(ix, list) and ix and ix[0] == "raw":
                src, meaning = ix[1], [t(ix[1])]
            else:
                src, meaning = (BRACES[ix - 1000] if ix >= 1000 else INL[ix])
                if ix in (13, 14):
                    self.refs = True
            count = src.replace("\\@", "").replace("@@", "").count("@")
            words = [self.word() for _ in range(count)]
            text = self.fill(src, list(words))
            if ix in DROPPED if isinstance(ix, int) else False:
                del words[:DROPPED[ix]]
            if k:
                srcs.append(sep)
                chars.append((sep, style))
            srcs.append(self.escaped(text))
            self.meaning(meaning, words, style, chars)
            assert not words
        return "".join(srcs), chars

    def meaning(self, nodes, words, style, chars):
        names = {"i": "md-italic", "b": "md-bold", "a": "md-link"}
        for node in nodes:
            if node[0] == T:
                s = node[1]
                if self.esc != "~":
                    s = s.replace("~", self.esc[0])
                for c in self.fill(s, words).replace("\0", "@"):
                    chars.append((c, style))
            elif node[0]:
                name = names.get(node[0], node[0])
                self.meaning(node[1], words, compose(style, self.styles[name]), chars)

    def blocks(self, bs, default, sep="\n\n"):
        """-> (source, entries)"""
        out, entries = "", []
        prev = None
        for i, b in enumerate(bs):
            src, es = self.block(b, default, i)
            if prev is not None:
                tight = sep == "\n" and prev[0] in ("p", "h", "code") and src and b[0] in ("q", "ul", "code") \
                    and not (b[0] == "ul" and not b[1][0])
                out += "\n" if tight else "\n\n"
            out += src
            entries += es
            prev = b
        return out, entries

    def block(self, b, default, pos):
        kind = b[0]
        if kind == "p":
            src, chars = self.inl(b[1], compose(default, self.styles["md-paragraph"]), b[2] if len(b) > 2 else " ")
            return src, [chars]
        if kind == "h":
            level, inl, form = b[1:]
            src, chars = self.inl(inl, compose(default, self.styles["md-h%d" % level]))
            if form == 2:
                return src + "\n" + "=-"[level - 1] * 3, [chars]
            return "#" * level + " " + src + (" " + "#" * (level + 1) if form == 1 else ""), [chars]
        if kind == "code":
            lang, fence, text = CODES[b[1]]
            words = [self.word() for _ in range(text.count("@"))]
            text = self.fill(text, words)
            style = compose(default, {"font": "monospace", "size": 20, "color": None})
            if lang:
                style["bold"] = style["italic"] = None
            return fence + lang + "\n" + text + "\n" + fence, [[(c, style) for c in text]]
        if kind == "q":
            src, entries = self.blocks(b[1], compose(default, self.styles["md-blockquote"]))
            return "\n".join(("> " + l).rstrip() for l in src.split("\n")), entries
        if kind in ("ul", "ul+", "ol"):
            items = b[-1]
            lines, entries = [], []
            for k, item in enumerate(items):
                if kind == "ol":
                    mark = "%d%s" % (b[1] + k, ".)"[pos % 2])
                    label = "%d." % (b[1] + k)
                else:
                    mark = label = "+" if kind == "ul+" else "-*"[pos % 2]
                entries.append([(c, default) for c in label])
                src, es = self.blocks(item, default, "\n")
                entries += es
                pad = " " * (len(mark) + 1)
                for j, l in enumerate(src.split("\n")):
                    lines.append(((mark + " " if j == 0 else pad) + l).rstrip(" ") if not l.endswith("  ")
                                 else (mark + " " if j == 0 else pad) + l)
            return "\n".join(lines), entries
        if kind == "hr":
            return "***", []
        raise ValueError(b)


def compose(a, b):
    r = dict(a)
    r.update(b)
    return r


DEFAULT = {"font": "sans-serif", "color": "black", "size": 28, "bold": False, "italic": False}


def md_styles():
    st = {"md-paragraph": {}, "md-bold": {"bold": True}, "md-italic": {"italic": True},
          "md-link": {"color": "#0EBFE9"}, "md-blockquote": {"color": "#A9A9A9"},
          "tt": {"font": "monospace"}, "emph": {"italic": True}, "alert": {"bold": True, "color": "red"}}
    for i in range(6):
        st["md-h%d" % (i + 1)] = {"size": 40 - 2 * i}
    return st


def observed(page):
    res = []
    for it in page.items:
        if it.tag != "text":
            continue
        chars = []
        for k, (_, _, line) in enumerate(text_lines(it.el)):
            if k:
                chars.append(("\n", None))
            chars += [(c, {"font": st.get("font-family"), "color": st.get("fill"), "size": float(st["font-size"]),
                           "bold": st.get("font-weight") == "bold", "italic": st.get("font-style") == "italic"})
                      for c, st in line]
        if any(not c.isspace() for c, _ in chars):
            res.append((chars, it))
    return res


def run(case, rec, env):
    from elsie.ext import markdown

    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, name_policy="ignore")
    deck = env.data["deck"]
    kind = case[0]
    slide = deck.new_slide()
    parent = slide
    styles, default = md_styles(), dict(DEFAULT)
    esc = ESC[case[1]] if kind == "esc" else "~"
    key = None
    if kind == "style":
        where = case[1]
        parent = target = slide if where in (0, 2) else slide.box()
        for name in case[2]:
            k = (STYLES + ["default", "tt"]).index(name)
            new = {"color": "#%02x0000" % (k + 10), "size": 11 + k}
            if k % 3 == 1:
                new["italic"] = True
            if k % 3 == 2:
                new["bold"] = False
            st = W.elsie.TextStyle(**new)
            if name == "default":
                target.update_style("default", st)
                default.update(new)
            elif where == 3 and name == "tt":
                target.update_style("tt", st)
                styles["tt"] = compose(styles["tt"], new)
            else:
                target.set_style(name, st)
                styles[name] = new
        if where == 2:
            parent = slide.box().box()
    d = Doc(styles, esc)
    docs = []
    if kind == "inl":
        _, ctx, idx, sep = case
        p = ["p", idx, " \n"[sep]]
        bs = [[p], [["h", 2, idx, 2 if any("\n" in INL[i][0] for i in idx) else 0]], [["q", [p]]], [["ul", [[p], [P(0)]]]],
              [["ol", 1, [[["q", [p]]]]]]][ctx]
        docs.append(d.blocks(bs, default))
    elif kind == "esc":
        docs.append(d.blocks([P(case[2]), ["ul", [[P(case[2], 0)]]]], default))
    elif kind == "brace":
        key = "braces inside emphasis"
        docs.append(d.blocks([P(1000 + case[1])], default))
    elif kind == "blocks":
        docs.append(d.blocks([blocks15()[i] for i in case[1]], default))
    elif kind == "doc":
        docs.append(d.blocks(case[1], default))
    elif kind == "code":
        c = ["code", case[1]]
        docs.append(d.blocks([[c], [P(0), c, P(0)], [["q", [c]]], [["ul", [[P(0), c]]]], [["ol", 1, [[c]]]]][case[2]],
                             default))
    elif kind == "style":
        docs.append(d.blocks(ALL, default))
    elif kind == "two":
        for i in case[1:]:
            docs.append(d.blocks([blocks15()[i]], default))
    elif kind == "edge":
        src, bs = EDGES[case[1]]
        _, entries = d.blocks(bs, default)
        d.words = 0
        src = d.fill(src, ["W%dw" % (i + 1) for i in range(src.count("@"))])
        docs.append((src, entries))
    expected = []
    for i, (src, entries) in enumerate(docs):
        if d.refs:
            src = src + "\n\n[ref]: http://x.y\n"
        if kind == "edge":
            ind = case[2]
            if ind == 1:
                src = "\n".join("    " + l if l else l for l in src.split("\n")) + "\n    "
            elif ind == 2:
                src = "\n\n" + "\n".join("  " + l for l in src.split("\n")) + "\n"
            elif ind == 3:
                src = "\n" + "\n".join("\t" + l for l in src.split("\n"))
        rec.step()
        kw = {"escape_char": esc} if esc != "~" else {}
        had = {name: parent.has_style(name) for name in md_styles()}
        markdown(parent, src, **kw)
        rec.expect({name: parent.has_style(name) for name in md_styles()}, had,
                   "styles of the box into which the text is rendered")
        expected += entries
    expected = [e for e in expected if any(not c.isspace() for c, _ in e)]
    page = Page(W.svgs(deck, select_slides=[slide.slide])[0])
    got = observed(page)
    rec.trace()
    rec.state((kind, len(expected)))
    rec.outcome(tuple(len(e) for e in expected))

    def strip(chars):
        # empty lines are a matter of line positions (C16, C19)
        out, s = [], "".join(c for c, _ in chars)
        a, b = len(s) - len(s.lstrip("\n")), len(s.rstrip())
        return [c for i, c in enumerate(chars) if a <= i < b and not (c[0] == "\n" == chars[i - 1][0])]

    gs = ["".join(c for c, _ in strip(e)) for e, _ in got]
    ws = ["".join(c for c, _ in strip(e)) for e in expected]
    if gs != ws:
        rec.fail("the texts drawn are not those of the document", key=key, got=gs, want=ws, source=src)
        return
    for (e, it), w in zip(got, expected):
        for (c, st), (_, ref) in zip(strip(e), strip(w)):
            if c.isspace():
                continue
            for k, v in ref.items():
                if v is not None and st[k] != v:
                    rec.fail("character %r of %r has %s=%r instead of %r" % (
                        c, "".join(c for c, _ in e), k, st[k], v), key=key, source=src)
                    return
    # geometry: every text below the previous one, labels left of what follows
    prev = None
    for (e, it), w in zip(got, expected):
        ls = [(y, chars) for (_, y), chars in textgeo.device_lines(it) if any(not c[0].isspace() for c in chars)]
        top, bottom = ls[0][0], ls[-1][0]
        left = min(chars[0][1][0] for _, chars in ls)
        right = max(chars[-1][2][0] for _, chars in ls)
        s = "".join(c for c, _ in e).strip()
        label = "W" not in s and not s.startswith("REF") and (len(s) <= 3 or re.fullmatch(r"[0-9.]+", s))
        if prev is not None:
            if prev[0]:
                if left < prev[3] - 0.01 and top < prev[2] + 0.01:
                    rec.fail("text %r is not right of or below the label before it" % s, source=src)
                    return
                if top < prev[2] - 15:
                    rec.fail("text %r is above its label" % s, source=src)
                    return
            elif top <= prev[2] + 0.01:
                rec.fail("text %r is not below the text before it" % s, source=src)
                return
        prev = (label, top, bottom, right)
