"""C23: OpenRaster images convert faithfully."""
import base64
import io
import itertools
import os
import xml.etree.ElementTree as ET
import zipfile
from xml.sax.saxutils import quoteattr

from PIL import Image

from .. import fakeproc, svgobs
from .. import world as W

ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of OpenRaster stacks (shapes x offsets x opacities x visibilities x "
             "kinds of layers x names); all drawn pixels compared with a reference composition")
NOTE = ("The bitmaps on the page are decoded; the set of visible pixels of each drawn layer with its "
        "position, its total opacity, its order and its labels has to be the one of the stack.")
ASSUMPTIONS = ["layers use the composition operator svg:src-over"]
BOUND = {"quick": "6 stack shapes, all pairs of attribute sets of two nested/sibling nodes x 12 kinds of layers",
         "thorough": "6 stack shapes, all triples of attribute sets"}

OFFS = [None, (0, 0), (3, -2), (-7, 0), (0, -5), (-2, 9)]
OPACS = [None, "1.0", "0.5", "0", "0.0", "1", "0.004", "2.5e-1", "0.99", "0.995"]
VIS = [None, "visible", "hidden"]
ATTR = list(itertools.product(range(3), repeat=3))       # (offset, opacity, visibility)
NAMES = [None, "", "plain", "a**2**b", "q\"'<&é", "**1-2"]
VARIANTS = [(o, p, v, n) for (o, p, v), n in zip(ATTR * 2, itertools.cycle(range(6)))][:54]
VARIANTS += [(o, p, v, (o + p + v) % 6) for o in (3, 5) for p in (0, 2) for v in (0, 1)]
VARIANTS += [(p % 4, p, p % 3 % 2, n) for p, n in ((3, 0), (4, 3), (5, 2), (6, 1), (7, 5), (8, 2), (9, 0))]
N = len(VARIANTS)


def picture(kind):
    if kind == "full":
        im = Image.new("RGBA", (4, 3), (10, 20, 30, 255))
        im.putpixel((1, 1), (255, 0, 0, 255))
    elif kind == "part":
        im = Image.new("RGBA", (5, 4), (0, 0, 0, 0))
        im.putpixel((1, 1), (1, 2, 3, 255))
        im.putpixel((3, 2), (200, 2, 3, 128))
    elif kind == "empty":
        im = Image.new("RGBA", (4, 4), (0, 0, 0, 0))
    elif kind == "ghost":
        im = Image.new("RGBA", (4, 4), (9, 9, 9, 0))
    elif kind == "rgbblack":
        im = Image.new("RGB", (3, 3), (0, 0, 0))
    elif kind == "rgb":
        im = Image.new("RGB", (3, 3), (0, 0, 0))
        im.putpixel((1, 2), (5, 6, 7))
    elif kind == "black":
        im = Image.new("RGBA", (2, 3), (0, 0, 0, 255))
    elif kind == "gray":
        im = Image.new("L", (3, 2), 0)
        im.putpixel((2, 1), 77)
    elif kind == "la":
        im = Image.new("LA", (5, 4), (200, 0))
        im.putpixel((1, 1), (100, 255))
        im.putpixel((3, 3), (0, 128))
    elif kind == "pal":
        im = Image.new("P", (4, 4), 0)
        im.putpalette([9, 9, 9, 255, 0, 0, 0, 0, 255])
        im.putpixel((1, 2), 1)
        im.putpixel((3, 1), 2)
        im.info["transparency"] = bytes([0, 255, 100])
    elif kind == "key":
        im = Image.new("RGB", (4, 4), (1, 2, 3))
        im.putpixel((2, 2), (3, 2, 1))
        im.putpixel((3, 0), (0, 0, 0))
        im.info["transparency"] = (1, 2, 3)
    elif kind == "bit":
        im = Image.new("1", (3, 3), 0)
        im.putpixel((1, 1), 1)
    return im


KINDS = ["full", "part", "empty", "ghost", "rgbblack", "rgb", "black", "gray", "la", "pal", "key", "bit"]

# a node: ["L", attributes, kind] or ["G", attributes, children]; attributes: index to VARIANTS
SHAPES = ["two", "group", "nested", "groups", "emptygroup", "three"]


def tree(shape, a, b, c, k1, k2):
    plain = ["L", 40, "full"]
    if shape == "two":
        return [["L", a, k1], ["L", b, k2]]
    if shape == "group":
        return [["L", c, k2], ["G", a, [["L", b, k1], plain]]]
    if shape == "nested":
        return [["G", a, [["G", b, [["L", c, k1], ["L", 13, k2]]]]]]
    if shape == "groups":
        return [["G", a, [["L", 13, k1]]], ["G", b, [["L", 13, k1], ["L", c, k2]]]]
    if shape == "emptygroup":
        return [["G", a, []], ["G", b, [["G", c, []]]], ["L", 13, k1]]
    if shape == "three":
        return [["L", a, k1], ["L", b, k1], ["L", c, k2]]


def cases(tier, env):
    th = tier == "thorough"
    k = 0
    for shape in SHAPES:
        for a in range(N):
            for b in range(N):
                for c in range(0, N, 2 if th else 60):
                    k += 1
                    cc = c if th else (k * 13) % 54
                    yield [tree(shape, a, b, cc, KINDS[k % 12], KINDS[(k // 12) % 12]), k % 4, k % 5 == 0]
    for shape in ("two", "nested"):
        for k1, k2 in itertools.product(KINDS, repeat=2):
            for a in range(27):
                yield [tree(shape, a, 26 - a if a != 13 else 12, 13, k1, k2), a % 4, False]


    # many layers and deep nesting
    for n in (6, 9, 10, 11, 15, 30):
        for first in (0, 7, 20):
            layers = [["L", (first + i) % 27, KINDS[(first + i) % 12]] for i in range(n)]
            yield [layers, n % 4, False]
            yield [[["G", first, layers[:n // 2]], ["G", 13, layers[n // 2:]]], n % 4, False]
            deep = [["L", 13, "part"], ["L", 13, "full"]]
            for i in range(n):
                deep = [["L", 13, "rgb"], ["G", (54 + i % 12 if i % 3 else 13), deep]][i % 2:]
            yield [deep, n % 4, False]
            yield [[["L", i, KINDS[i % 12]] for i in (first, 54 + first % 12, N - 1, N - 2)], n % 4, False]
            yield [[["G", N - 1 - i % 2, [["L", N - 1, "full"], ["L", 13, "part"]]] for i in range(n)], n % 4, False]


def setup(env):
    fakeproc.install()
    env.data["files"] = {}
    env.data["pixels"] = {}
    for k in KINDS:
        b = io.BytesIO()
        picture(k).save(b, "png")
        env.data["files"][k] = b.getvalue()
        env.data["pixels"][k] = pixels(Image.open(b))


def pixels(im):
    im = im.convert("RGBA")
    return {(x, y): im.getpixel((x, y)) for x in range(im.width) for y in range(im.height)
            if im.getpixel((x, y))[3]}


ROOTS = ["", " name='root'", " name='root' x='0' y='0' opacity='1.0' visibility='visible'", " isolation='isolate'"]


def attrs(i):
    o, p, v, n = VARIANTS[i]
    s = ""
    if NAMES[n] is not None:
        s += f" name={quoteattr(NAMES[n])}"
    if OFFS[o]:
        s += f" x='{OFFS[o][0]}' y='{OFFS[o][1]}'"
    if OPACS[p]:
        s += f" opacity='{OPACS[p]}'"
    if VIS[v]:
        s += f" visibility='{VIS[v]}'"
    return s


def to_xml(node):
    t, a, x = node
    if t == "L":
        return f"<layer{attrs(a)} src='data/{x}.png'/>"
    return f"<stack{attrs(a)}>" + "".join(map(to_xml, x)) + "</stack>"


def label_shows(name, k):
    """k: fragment or None (all)"""
    if k is None or not name or "**" not in name:
        return True
    sel = name.split("**")[1]
    a, _, b = sel.partition("-")
    return int(a) <= k <= int(b or a)


def reference(nodes, env, k, x0, y0, op):
    res = []
    for t, a, x in reversed(nodes):
        o, p, v, n = VARIANTS[a]
        if VIS[v] == "hidden" or not label_shows(NAMES[n], k):
            continue
        dx, dy = OFFS[o] or (0, 0)
        opacity = op * float(OPACS[p] or 1)
        if t == "G":
            res += reference(x, env, k, x0 + dx, y0 + dy, opacity)
        else:
            px = env.data["pixels"][x]
            if px and opacity:
                res.append(({(x0 + dx + i, y0 + dy + j): c for (i, j), c in px.items()}, round(opacity, 6)))
    return res


def fragments(nodes):
    res = 1
    for t, a, x in nodes:
        o, p, v, n = VARIANTS[a]
        if VIS[v] == "hidden":
            continue
        if t == "L" and x in ("empty", "ghost"):
            continue
        if NAMES[n] and "**" in NAMES[n]:
            res = 2
        if t == "G":
            res = max(res, fragments(x))
    return res


def drawn(svg):
    root = ET.fromstring(svg)
    out = []

    def walk(el, m, op):
        if el.tag == svgobs.SVG + "svg" and (el.get("x") or el.get("y") or el.get("viewBox")):
            raise ValueError("unexpected viewport")
        m = svgobs.mul(m, svgobs.parse_transform(el.get("transform")))
        op *= float(el.get("opacity") or 1)
        if el.tag == svgobs.SVG + "image":
            data = el.get(svgobs.XLINK + "href")
            im = Image.open(io.BytesIO(base64.b64decode(data.split(",", 1)[1])))
            if (float(el.get("width")), float(el.get("height"))) != im.size or m[:4] != (1, 0, 0, 1):
                raise ValueError("a layer is scaled")
            x, y = svgobs.apply(m, (float(el.get("x")), float(el.get("y"))))
            out.append(({(x + i, y + j): c for (i, j), c in pixels(im).items()}, round(op, 6)))
        for c in el:
            walk(c, m, op)

    walk(root, svgobs.IDENT, 1.0)
    return [v for v in out if v[1]]


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 5000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=100, height=50)
    deck = env.data["deck"]
    nodes, r, frag = case
    stack = (f"<image w='30' h='20' version='0.0.3'><stack{ROOTS[r]}>" + "".join(map(to_xml, nodes))
             + "</stack></image>")
    path = os.path.join(env.data.setdefault("dir", env.fresh_dir()), "a.ora")
    used = sorted(set(part.split(".png")[0] for part in stack.split("data/")[1:]))
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("mimetype", "image/openraster")
        z.writestr("stack.xml", '<?xml version="1.0" encoding="UTF-8"?>' + stack)
        for k in used:
            z.writestr(f"data/{k}.png", env.data["files"][k])
    slide = deck.new_slide()
    slide.box(x=0, y=0, width=30, height=20).image(path, fragments=frag)
    rec.state(case)
    pages = W.svgs(deck, select_slides=[slide.slide])
    rec.trace()
    rec.expect(len(pages), fragments(nodes) if frag else 1, "number of pages", stack=stack)
    for p, svg in enumerate(pages, 1):
        got = drawn(svg)
        want = reference(nodes, env, p if frag else None, 0, 0, 1.0)
        rec.step(len(want))
        rec.outcome([(sorted(a), b) for a, b in want])
        if got != want:
            rec.fail("the drawn layers are different from the stack", stack=stack, page=p, got=got, want=want)
            return
