"""C21: image fragments follow their labels."""
import itertools
import os
import xml.etree.ElementTree as ET

from .. import fakeproc
from .. import world as W

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of labellings of small SVG trees x show_begin x fragments x "
             "select_fragments, two uses of the file per slide; every page compared with a reference tree")
NOTE = ("The picture embedded in each page is compared, as a tree with all attributes and texts, with the "
        "source file without the elements whose labels do not select the fragment.")
ASSUMPTIONS = []
BOUND = {"quick": "8 tree shapes x all labellings over 4-7 labels x 10 configurations of two uses",
         "thorough": "8 tree shapes x all labellings over 6-9 labels x 10x10 configurations of two uses"}

LABELS = [None, "**1", "**2", "a**2-3**b", "**1+", "**3,1", "**2+**", "**4", "plain*2",
          "**10", "**9-11", "a**12+", "**7,10,13", "**100"]

# {i} is replaced by the label of the i-th element
SHAPES = [
    ("flat", 2, '<rect{0} fill="r0"/><rect{1} fill="r1"/>', 9),
    ("group", 3, '<g{0} class="g"><rect{1} id="a"/><rect{2} id="b"/></g><rect id="z"/>', 6),
    ("deep", 3, '<g{0}><g{1} transform="scale(2)"><rect{2} id="a"/></g><rect id="b"/></g>', 6),
    ("tails", 3, 'T0<text x="1">é<tspan{0}>one</tspan> mid <tspan{1}>two</tspan> &lt;end <tspan{2}>3</tspan>!</text>T1', 5),
    ("first", 2, '<text>a<tspan{0}>b<tspan{1}>c</tspan>d</tspan>e</text>', 6),
    ("siblings", 4, '<rect{0} id="a"/><g{1}><rect{2} id="b"/></g><rect{3} id="c"/>', 4),
    ("notes", 2, '<!-- c --><defs><linearGradient id="lg"{0}/></defs><?p i?><use xlink:href="#lg"{1}/>', 5),
    ("root", 2, '<rect{1} id="a"/>', 5),
]

SHAPES += [
    ("deep20", 20, "".join('<g{%d} id="d%d">' % (i, i) for i in range(20)) + '<rect id="in"/>' + "</g>t" * 20, 0),
    ("many40", 40, "".join('<rect{%d} id="m%d"/>t' % (i, i) for i in range(40)), 0),
    ("wide", 24, "".join('<g{%d}><text>a<tspan{%d}>b</tspan>c</text></g>' % (2 * i, 2 * i + 1) for i in range(12)), 0),
]

CONFIGS = [(1, True, None), (2, True, None), (3, True, None), (1, False, None), (2, False, None),
           (1, True, [2, None, 1]), (2, True, [3, 3]), (1, True, []), (3, True, [None, 2]), (1, True, [1])]
MAIN = len(CONFIGS)
CONFIGS += [(1, True, [12, 10, 1, None, 9, 100, 7, 8, 2, 3, 11, 13]), (12, True, None), (10, False, None)]


def cases(tier, env):
    th = tier == "thorough"
    k = 0
    for s, (name, n, _, nl) in enumerate(SHAPES[:8]):
        labels = range(min(nl + 2, 9) if th and n < 4 else nl)
        for ls in itertools.product(labels, repeat=n):
            for c in range(MAIN):
                k += 1
                for d in range(MAIN) if th else sorted({k * 7 % 10, k * 3 % 10, (k + 5) % 10, 6}):
                    yield [s, list(ls), c, d]


    # numbers with several digits
    for s in range(3):
        for ls in itertools.product([None, 2, 9, 10, 11, 12, 13][1 - s // 2:], repeat=SHAPES[s][1]):
            for c, d in (((0, 10), (11, 6), (12, 3), (10, 1)) if th else ((0, 10), (11, 12))):
                yield [s, [0 if x is None else x for x in ls], c, d]


    # deep trees, many elements, far fragments
    for s in range(8, len(SHAPES)):
        for a in range(len(LABELS)):
            for step in (1, 2, 3, 5):
                ls = [(a + i * step) % len(LABELS) if i % step == 0 else 0 for i in range(SHAPES[s][1])]
                yield [s, ls, 0, 0]
                yield [s, ls, 1, 3]
                yield [s, [a if i == step * 3 else 0 for i in range(SHAPES[s][1])], 0, 12]


def setup(env):
    fakeproc.install()


def source(s, labels):
    name, n, body, _ = SHAPES[s]
    ls = [f' inkscape:label="{LABELS[i]}"' if LABELS[i] else "" for i in labels]
    root = ls[0] if name == "root" else ""
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" '
            'xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" '
            f'width="20" height="20"{root}>' + body.format(*ls) + "\n</svg>\n")


INK = "{http://www.inkscape.org/namespaces/inkscape}label"


def selector(label):
    """None or a function of the fragment; and the largest fragment named."""
    if not label or "**" not in label:
        return None, 1
    part = label.split("**")[1]
    items = []
    top = 1
    for p in part.split(","):
        if p.endswith("+"):
            a = int(p[:-1])
            items.append((a, 10 ** 9))
            top = max(top, a)
        elif "-" in p:
            a, b = map(int, p.split("-"))
            items.append((a, b))
            top = max(top, b)
        else:
            items.append((int(p), int(p)))
            top = max(top, int(p))
    return (lambda k: any(a <= k <= b for a, b in items)), top


def reduce(el, k):
    """Tree of an element at a fragment (None: everything), None if it is hidden."""
    if k is not None:
        sel, _ = selector(el.get(INK))
        if sel is not None and not sel(k):
            return None
    content = [el.text or ""]
    for c in el:
        r = reduce(c, k)
        if r is not None:
            content.append(r)
            content.append("")
        content[-1] += c.tail or ""
    return (el.tag, tuple(sorted(el.attrib.items())), tuple(content))


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=100, height=50)
    deck = env.data["deck"]
    s, labels, c, d = case
    src = source(s, labels)
    d0 = env.data.setdefault("dir", env.fresh_dir())
    path = os.path.join(d0, "image.svg")
    with open(path, "w", encoding="utf-8") as f:
        f.write(src)
    root = ET.fromstring(src.encode())
    top = max(selector(e.get(INK))[1] for e in root.iter())
    slide = deck.new_slide()
    uses = []
    want_pages = 1
    for i, cfg in enumerate((CONFIGS[c], CONFIGS[d])):
        begin, frag, sel = cfg
        kw = {}
        if begin != 1:
            kw["show_begin"] = begin
        if not frag:
            kw["fragments"] = False
        if sel is not None:
            kw["select_fragments"] = sel
        slide.box(x=40 * i, y=0, width=20, height=20).image(path, **kw)
        steps = len(sel) if sel is not None else top if frag else 1
        want_pages = max(want_pages, begin - 1 + steps)
        uses.append(cfg)
    rec.state(case)
    rec.expect(slide.current_fragment(), want_pages, "largest fragment of the slide", src=src)
    rec.expect(slide.slide.steps(), want_pages, "number of fragments of the slide", src=src)
    if c == d:
        rec.expect(len(W.svgs(deck, select_slides=[slide.slide])), want_pages, "number of pages", src=src)
    slide.box(x=0, y=0, width=1, height=1, show="5").rect(bg_color="#000001")
    want_pages = max(want_pages, 5)
    pages = W.svgs(deck, select_slides=[slide.slide])
    rec.trace()
    if not rec.expect(len(pages), want_pages, "number of pages", src=src, uses=uses):
        return
    whole = reduce(root, None)
    for p, svg in enumerate(pages, 1):
        page = ET.fromstring(svg)
        got = [None, None]
        for g in page.iter("{http://www.w3.org/2000/svg}g"):
            t = g.get("transform") or ""
            if t.startswith("translate(") and len(g) == 1 and g[0].tag.endswith("}svg"):
                i = 0 if float(t[10:].split(",")[0].strip()) < 30 else 1
                if got[i] is not None:
                    rec.fail("an image is drawn twice", src=src, page=p)
                got[i] = reduce(g[0], None)
        for i, (begin, frag, sel) in enumerate(uses):
            rec.step()
            k = p - begin + 1
            if k < 1:
                want = None
            elif sel is not None:
                k = sel[k - 1] if k <= len(sel) else None
                want = None if k is None else reduce(root, k)
            else:
                want = reduce(root, k) if frag else whole
            rec.outcome(want)
            if got[i] != want:
                rec.fail("a page shows something else of the image than its fragment", src=src, page=p,
                         use=uses[i], other=uses[1 - i], got=got[i], want=want)
                return
