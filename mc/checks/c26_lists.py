"""C26: lists number, label, reveal and place their items correctly."""
import itertools

from .. import textgeo
from .. import world as W
from ..fakeink import char_width
from ..svgobs import Page
from .c01_fragments import parse, selected

ID = "C26"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of item/sublist call histories over growing trees of lists, with "
             "overrides at every call, executed on the real code and compared page by page with a "
             "reference of counters, inheritance, fragments and positions")
NOTE = ("For every history the texts and item boxes drawn on every page (string, position, size, order), the "
        "counters passed to label functions and the fragment count must equal the reference's.")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in",
               "the indentation of a sublist applies to its box and again to each of its items (as the golden "
               "files of the project have it)",
               "sublists inherit label padding and box arguments, not the label, of the enclosing list"]
BOUND = {"quick": "histories of <=4 calls over 1-2 root lists, overrides at one call (<=3 calls) or all calls "
                  "(<=2 calls), 20 root variants, 6 parents",
         "thorough": "histories of <=5 calls, overrides at one call (<=4 calls) or all calls (<=3 calls)"}

F = {"dash": lambda b, l: b.text("-"),
     "none": lambda b, l: None,
     "levels": lambda b, l: b.text("<" + "/".join(str(v) for v in l) + ">"),
     "pop": lambda b, l: b.text("p%d" % l.pop()),
     "append": lambda b, l: (l.append(9), b.text("a"))[1],
     "reverse": lambda b, l: (l.reverse(), b.text("r"))[1]}


def boom(box, level):
    box.rect(bg_color="#fedcba")
    box.box(show="next").text("boom")
    raise ZeroDivisionError


F["boom"] = boom
BAD = (5, "boom", "~unclosed{x")

# (arguments, number of text lines); labels in F are functions
ITEM = [({}, 1), ({"label": "x"}, 1), ({"label": "dash"}, 1), ({"label": "none"}, 1), ({"label": ""}, 1),
        ({"label": "levels"}, 1), ({"label": "pop"}, 1), ({"label": "append"}, 1), ({"label": "reverse"}, 1),
        ({"label": 5}, 1), ({"label_padding": 10}, 1), ({"label_padding": 0}, 1), ({"show": "next+"}, 1),
        ({"show": "2"}, 1), ({"show": None}, 1), ({"show": "1-2"}, 1), ({"show": "next"}, 2),
        ({"height": 60}, 1), ({}, 2), ({"label": "yy", "label_padding": 3, "show": "last+", "height": 5}, 2),
        ({"padding": 4}, 1), ({"label": "boom"}, 1), ({"label": "boom", "show": "next+"}, 1),
        ({"label": "~unclosed{x", "show": "4"}, 1)]
SUB = [{}, {"indent": 5}, {"indent": 0}, {"label": "x"}, {"label": "levels"}, {"label": ""}, {"label": "pop"},
       {"show": "next+"}, {"show": "3+"}, {"show": "2"}, {"show": None}, {"height": 30},
       {"indent": 7, "label": "dash", "show": "next+"}]
BIG = [{"indent": 230}, {"indent": 330.5}, {"indent": 120, "label": "x" * 30}]
OL = SUB + [{"start": 5}, {"level": [1, 2]}, {"level": []}, {"start": 3, "level": [7]},
            {"start": 2, "level": [4], "indent": 3, "label": "levels"}]
ROOT = [{}, {"indent": 50}, {"indent": 0}, {"label_padding": 0}, {"label_padding": 7, "indent": 3}, {"label": "x"},
        {"label": "levels"}, {"label": "pop"}, {"label": ""}, {"label": "none"}, {"show": "next+"}, {"show": "2"},
        {"show": None}, {"show": "3+"}, {"height": 40}, {"show": "next+", "label_padding": 1, "label": "dash"},
        {"label": "boom"}]
OLROOT = ROOT + [{"start": 3}, {"start": 0}, {"start": 10, "label": "levels"}]
PARENTS = ["box", "hbox", "fbox", "style", "padded", "slide", "last"]


def skeletons(n, roots):
    """All call sequences: (list, kind); a sublist call opens a new list."""
    def rec(prefix, lists):
        if len(prefix) == n:
            yield prefix
            return
        for L in range(lists):
            for kind in ("item", "ul", "ol"):
                yield from rec(prefix + [[L, kind]], lists + (kind != "item"))
    yield from rec([], roots)


def nvar(kind):
    return len({"item": ITEM, "ul": SUB, "ol": OL}[kind])


def cases(tier, env):
    th = tier == "thorough"
    roots1 = [[["ul", 0]], [["ol", 0]]]
    roots2 = [[[a, 0], [b, 0]] for a, b in itertools.product(("ul", "ol"), repeat=2)]
    # (a) plain histories
    for n in range(1, 6 if th else 5):
        for roots in roots1 + (roots2 if n <= (4 if th else 3) else []):
            for sk in skeletons(n, len(roots)):
                yield [roots, "box", [[L, k, 0] for L, k in sk]]
    # (b) one call with every override
    for n in (2, 3, 4) if th else (2, 3):
        for roots in roots1 + (roots2 if n <= (3 if th else 2) else []):
            for sk in skeletons(n, len(roots)):
                for i in range(n):
                    for v in range(1, nvar(sk[i][1])):
                        yield [roots, "box", [[L, k, v if j == i else 0] for j, (L, k) in enumerate(sk)]]
    # (c) all calls with every override
    for n in (2, 3) if th else (2,):
        for roots in roots1:
            for sk in skeletons(n, 1):
                for vs in itertools.product(*[range(nvar(k)) for _, k in sk]):
                    if n == 3 and sum(v != 0 for v in vs) < 2:
                        continue
                    yield [roots, "box", [[L, k, v] for (L, k), v in zip(sk, vs)] + [[0, "item", 0]]]
    # (d) root arguments and parents
    for kind, args in (("ul", ROOT), ("ol", OLROOT)):
        for r in range(len(args)):
            for p in PARENTS if th else PARENTS[:1]:
                for n in (2, 3):
                    for sk in skeletons(n, 1):
                        for i in range(n):
                            for v in range(nvar(sk[i][1]) if n == 2 or (th and p == "box") else 1):
                                if v == 0 and i:
                                    continue
                                yield [[[kind, r]], p, [[L, k, v if j == i else 0] for j, (L, k) in enumerate(sk)]]
            for p in PARENTS[1:] if not th else ():
                for sk in skeletons(2, 1):
                    yield [[[kind, r]], p, [[L, k, 0] for L, k in sk]]
                yield [[[kind, r]], p, [[0, "item", 1], [0, "ol", 0], [1, "item", 12], [0, "item", 18]]]
    # (e) sublists of sublists, with inherited arguments at two levels
    for kind in ("ul", "ol"):
        for a in range(nvar(kind)):
            for kind2 in ("ul", "ol"):
                for b in range(nvar(kind2)):
                    for r in (0, 4, 10):
                        yield [[["ol", r]], "box", [[0, "item", 0], [0, kind, a], [1, kind2, b], [2, "item", 0],
                                                    [1, "item", 0], [0, "item", 0], [2, "item", 0]]]


    # (f) deep and long lists
    for d in (4, 5, 6, 9):
        for k1, k2 in itertools.product(("ul", "ol"), repeat=2):
            calls = [[0, "item", 0]]
            for i in range(d):
                calls += [[i, k1 if i % 2 else k2, 0], [i + 1, "item", 0], [i + 1, "item", 5 if i % 3 == 2 else 0]]
            calls += [[i, "item", 0] for i in range(d, -1, -1)]
            for r in (0, 4):
                yield [[["ol", r]], "box", calls]
                yield [[["ul", r]], "box", calls]
    # large indentations
    for kind, v, kind2 in itertools.product(("ul", "ol"), range(3), ("ul", "ol")):
        b1, b2 = (len(SUB if k == "ul" else OL) for k in (kind, kind2))
        yield [[["ol", 0]], "box", [[0, "item", 0], [0, kind, b1 + v], [1, "item", 0], [1, kind2, 1], [2, "item", 0],
                                    [0, "item", 0], [1, "item", 0], [0, kind2, b2 + 1 - v % 2], [3, "item", 0]]]
    for n in (9, 10, 11, 12, 30, 101):
        for v in (0, 5, 12):
            if n < 50 or v != 12:
                yield [[["ol", 0]], "box", [[0, "item", v]] * n]
                yield [[["ol", len(ROOT)]], "fbox", [[0, "item", 0]] * n + [[0, "ol", 0]] + [[1, "item", v]] * 3]
    for n in (10, 11, 12):
        yield [[["ol", 0], ["ul", 0]], "box", [[0, "ol", 0]] * n + [[j, "item", 0] for j in range(n + 2)] * 2]


class List:
    def __init__(self, parent, kind, level, start, label, pad, indent, total, args, ivs):
        self.parent = parent
        self.kind = kind
        self.level = list(level) + [start - 1]
        self.label = label
        self.pad = pad
        self.indent = indent
        self.total = total
        self.args = args
        self.ivs = ivs
        self.children = []


def setup(env):
    for size in (28, 40):
        deck = W.new_deck(env, name_policy="ignore")
        deck.update_style("default", W.elsie.TextStyle(size=size))
        slide = deck.new_slide()
        b = slide.box()
        b.rect(bg_color="#123456")
        b.text("Tq")
        b2 = slide.box()
        b2.rect(bg_color="#123457")
        b2.text("Tq\nTq")
        page = Page(W.svgs(deck)[0])
        r1, r2 = (page.by_fill()[c][0].rect() for c in ("#123456", "#123457"))
        t = [i for i in page.items if i.tag == "text"][0]
        env.data["m%d" % size] = (r1[3], r2[3], textgeo.device_lines(t)[0][0][1] - r1[1],
                                  textgeo.device_lines(t)[0][1][0][3]["font-family"])


def run(case, rec, env):
    roots, pname, ops = case
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, name_policy="ignore")
    deck = env.data["deck"]
    slide = deck.new_slide()
    size = 40 if pname == "style" else 28
    h1, h2, asc, family = env.data["m%d" % size]

    def width(s):
        return max([sum(char_width(c, float(size), False, False, family) for c in line)
                    for line in s.split("\n")])

    cur = 1
    outer = [(1, None)]
    if pname == "slide":
        parent = slide
    elif pname == "hbox":
        parent = slide.box(horizontal=True)
    elif pname == "fbox":
        parent = slide.fbox()
    elif pname == "padded":
        parent = slide.box(x=100, y=50, padding=6)
    elif pname == "last":
        slide.box(show="2")
        parent = slide.box(show="next+")
        cur, outer = 3, [(3, None)]
    else:
        parent = slide.box()
        if pname == "style":
            parent.update_style("default", W.elsie.TextStyle(size=40, align="right", color="#0000aa"))

    from elsie.ext import ordered_list, unordered_list

    seen, want_seen = [], []

    def real_label(v):
        if isinstance(v, str) and v in F:
            fn = F[v]

            def label(box, level):
                seen.append(list(level))
                return fn(box, level)
            return label
        return v

    def select(sel):
        nonlocal cur
        ivs, mx = parse(sel, cur)
        cur = max(cur, mx)
        return ivs

    builders, lists = [], []
    for kind, r in roots:
        args = (ROOT if kind == "ul" else OLROOT)[r]
        kw = dict(args)
        if "label" in kw:
            kw["label"] = real_label(kw["label"])
        builders.append((unordered_list if kind == "ul" else ordered_list)(parent, **kw))
        a = {k: v for k, v in args.items() if k in ("show", "height")}
        a.setdefault("show", "last+")
        lists.append(List(None, kind, [], args.get("start", 1), args.get("label"), args.get("label_padding", 25),
                          args.get("indent", 10), 0, a, [(1, None)]))
        rec.step()
    main = list(lists)
    mark = 0
    for L, op, v in ops:
        rec.step()
        lst, b = lists[L], builders[L]
        if op == "item":
            args, nlines = ITEM[v]
            kw = dict(args)
            if "label" in kw:
                kw["label"] = real_label(kw["label"])
            before = cur
            a = dict(lst.args)
            a.update({k: x for k, x in args.items() if k in ("show", "height", "padding")})
            if args.get("label", lst.label) in BAD:
                try:
                    b.item(**kw)
                except Exception:
                    del seen[len(want_seen):]
                    rec.outcome("rejected")
                    continue
                rec.fail("an invalid label was accepted", stop=True)
            ivs = select(a["show"])
            lst.level[-1] += 1
            label = args.get("label", lst.label)
            if label is None:
                label = "\u2022" if lst.kind == "ul" else ".".join(str(x) for x in lst.level) + "."
            elif label in F:
                want_seen.append(list(lst.level))
                label = {"dash": "-", "none": "", "pop": "p%d" % lst.level[-1], "append": "a", "reverse": "r",
                         "levels": "<" + "/".join(str(x) for x in lst.level) + ">"}[label]
            mark += 1
            text = "\n".join(["T%d" % mark] * nlines)
            box = b.item(**kw)
            rec.expect(seen, want_seen, "counters passed to label functions")
            box.rect(bg_color=W.color(mark))
            box.text(text)
            lst.children.append(("item", label, text, args.get("label_padding", lst.pad), a.get("height"),
                                 a.get("padding", 0), ivs, W.color(mark), before))
        else:
            args = ((SUB if op == "ul" else OL) + BIG)[v]
            kw = dict(args)
            if "label" in kw:
                kw["label"] = real_label(kw["label"])
            a = dict(lst.args)
            a.update({k: x for k, x in args.items() if k in ("show", "height")})
            ivs = select(a["show"])
            if "level" in kw:
                kw["level"] = list(kw["level"])
            builders.append(getattr(b, op)(**kw))
            if "level" in kw:
                kw["level"].append(77)  # the caller may do anything with its list afterwards
            level = args.get("level", lst.level)
            indent = args.get("indent", lst.indent)
            new = List(lst, op, level, args.get("start", 1), args.get("label"), lst.pad, indent,
                       lst.total + indent, a, ivs)
            lst.children.append(new)
            lists.append(new)
    rec.expect(slide.current_fragment(), cur, "fragments of the slide")

    # reference layout
    def natural(c):
        if isinstance(c, List):
            sizes = [natural(x) for x in c.children]
            w = max([s[0] for s in sizes], default=0)
            h = sum(s[1] for s in sizes)
            if c.parent is not None:
                w += c.total
                h = max(h, c.args.get("height", 0))
            return w, h
        _, label, text, pad, height, padding, _, _, _ = c
        lh = h1 if label else 0
        th = h2 if "\n" in text else h1
        return (width(label) + pad + width(text) + padding, max(2 * padding + max(lh, th), height or 0))

    # item boxes: p_left = total indent of the list overrides the left padding
    def nat_item(c, lst):
        w, h = natural(c)
        return w + lst.total, h

    def natural_list(c):
        w = h = 0
        for x in c.children:
            cw, ch = natural_list(x) if isinstance(x, List) else nat_item(x, c)
            w, h = max(w, cw), h + ch
        if c.parent is not None:
            w += c.total
            h = max(h, c.args.get("height", 0))
        return w, h

    expected = []

    def place(c, x, y, h, chain):
        """x, y: content origin of the list; h its height."""
        chain = chain + [c.ivs]
        total = sum((natural_list(i) if isinstance(i, List) else nat_item(i, c))[1] for i in c.children)
        y += (h - total) / 2
        for i in c.children:
            if isinstance(i, List):
                ch = natural_list(i)[1]
                place(i, x + i.total, y, ch, chain)
                y += ch
                continue
            _, label, text, pad, height, padding, ivs, color, _ = i
            rw, rh = nat_item(i, c)
            left = x + c.total
            lw = width(label)
            th = h2 if "\n" in text else h1
            entry = []
            if label:
                entry.append(("text", label, left, y + padding + asc))
            cy = y + rh / 2 - th / 2
            entry.append(("rect", color, left + lw + pad, cy, width(text), th))
            entry.append(("text", text, left + lw + pad, cy + asc))
            expected.append((chain + [ivs], entry))
            y += rh

    sizes = [natural_list(m) for m in main]
    hor = pname == "hbox"
    bw = sum(s[0] for s in sizes) if hor else max(s[0] for s in sizes)
    bh = max(s[1] for s in sizes) if hor else sum(s[1] for s in sizes)
    if pname == "padded":
        x, y = 106.0, 56.0
    elif pname in ("fbox", "slide"):
        x, y = 0.0, (768 - bh) / 2
    else:
        x, y = (1024 - bw) / 2, (768 - bh) / 2
    for m, (w, h) in zip(main, sizes):
        place(m, x, y, bh if hor else h, [outer])
        if hor:
            x += w
        else:
            y += h

    pages = W.svgs(deck, select_slides=[slide.slide])
    rec.expect(len(pages), cur, "number of pages")
    rec.state(("pages", len(pages), len(lists)))
    rec.outcome((len(pages), tuple(l.kind for l in lists), mark))
    rec.trace()
    for k, svg in enumerate(pages, 1):
        got, want = [], []
        for it in Page(svg).items:
            if it.tag == "text":
                ls = textgeo.device_lines(it)
                s = "\n".join("".join(c[0] for c in chars) for _, chars in ls)
                if not s:
                    continue
                lefts = {round(chars[0][1][0], 3) for _, chars in ls}
                if len(lefts) != 1:
                    rec.fail("the lines of an item are not left aligned", text=s, svg=svg)
                    return
                got.append(("text", s, lefts.pop(), ls[0][0][1]))
            elif it.fill != "white":
                got.append(("rect", it.fill) + tuple(it.rect()))
        for chain, entry in expected:
            if all(selected(i, k) for i in chain):
                want += entry
        same = len(got) == len(want) and all(
            len(g) == len(w) and g[:2] == w[:2] and all(abs(a - b) < 0.01 for a, b in zip(g[2:], w[2:]))
            for g, w in zip(got, want))
        if not same:
            rec.fail("page %d does not show the expected list" % k, got=got, want=want)
            return
