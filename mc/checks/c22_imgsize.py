"""C22: images keep their aspect ratio, fit their box and size it correctly."""
import base64
import io
import itertools
import math
import os
import zipfile

from PIL import Image

from .. import fakeproc, svgobs
from .. import world as W

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of image kinds, natural sizes and units, source forms, scales, box "
             "sizings, paddings, layouts and rotations against a reference of the sizing rules")
NOTE = ("The transformation of the embedded picture and the rectangle of its box are read back from the "
        "page and compared with the size, the scale and the centre that the rules demand.")
ASSUMPTIONS = ["explicit numbers are minimal sizes: a box with both of them is enlarged to the proportion "
               "of the image"]
BOUND = {"quick": "17 pictures x 7x7 sizings x 4 scales x 4 paddings x 2 layouts x 3 rotations, sources rotated",
         "thorough": "the full product of 17 pictures x 7x7 sizings x 5 scales x 4 paddings x 2 layouts x "
                     "3 rotations x 4 sources"}

PICS = [("svg", "100", "30"), ("svg", "30px", "100px"), ("svg", "12pt", "30pt"), ("svg", "10mm", "7mm"),
        ("svg", "1cm", "1.5cm"), ("svg", "1in", "0.25in"), ("svg", "2pc", "5pc"), ("svg", "400.5", "1e2"),
        ("png", 40, 25), ("png", 25, 300), ("jpg", 33, 33), ("jpeg", 64, 16), ("png/jpeg", 12, 30),
        ("jpeg/png", 9, 9), ("png/gif", 10, 20), ("ora", 50, 20), ("ora", 30, 45)]
UNIT = {"": 1, "px": 1, "pt": 4 / 3, "mm": 96 / 25.4, "cm": 96 / 2.54, "in": 96, "pc": 16}
SIZES = [None, 60, 150, "fill", "50%", 0, "fill(2)"]
SCALES = [None, 1, 0.5, 3, 0.123]
PADS = [{}, {"padding": 7}, {"p_left": 3, "p_top": 11}, {"p_x": 5, "p_bottom": 2}]
ROTS = [None, 30, -90]
SRC = ["path", "bytes", "stream", "file"]


def cases(tier, env):
    th = tier == "thorough"
    k = 0
    for i in range(len(PICS)):
        for w, h in itertools.product(range(7), repeat=2):
            for s in range(5 if th else 4):
                for p, hor, r in itertools.product(range(4), range(2), range(3)):
                    k += 1
                    if th:
                        for src in range(4) if PICS[i][0] not in ("svg", "ora") else (0,):
                            yield [i, w, h, s, p, hor, r, src]
                    else:
                        yield [i, w, h, s, p, hor, r, (k + k // 24) % 4]


def setup(env):
    fakeproc.install()
    d = env.fresh_dir()
    pics = env.data["pics"] = []
    for i, (kind, w, h) in enumerate(PICS):
        ext, _, fmt = kind.partition("/")
        path = os.path.join(d, f"pic{i}.{ext}")
        if kind == "svg":
            with open(path, "w") as f:
                f.write(f'<svg xmlns="http://www.w3.org/2000/svg" width="{w}" height="{h}"><rect/></svg>')
            nat = []
            for v in (w, h):
                u = v.lstrip("0123456789.e")
                if u == "" or not u.isalpha():
                    u = ""
                num = v[:len(v) - len(u)] if u else v
                nat.append(float(num) * UNIT[u])
            pics.append((path, None, None, *nat))
        elif kind == "ora":
            buf = io.BytesIO()
            Image.new("RGBA", (w, h), (i * 10, 20, 30, 255)).save(buf, "png")
            with zipfile.ZipFile(path, "w") as z:
                z.writestr("mimetype", "image/openraster")
                z.writestr("stack.xml", f'<image w="{w}" h="{h}"><stack x="0" y="0"><layer src="a.png" x="0" y="0"/>'
                                        "</stack></image>")
                z.writestr("a.png", buf.getvalue())
            pics.append((path, None, None, w, h))
        else:
            fmt = fmt or {"jpg": "jpeg"}.get(ext, ext)
            im = Image.new("RGB", (w, h), (i * 10, 20, 30))
            im.putpixel((w // 2, h // 2), (255, 0, 0))
            buf = io.BytesIO()
            im.save(buf, fmt)
            with open(path, "wb") as f:
                f.write(buf.getvalue())
            pics.append((path, buf.getvalue(), "image/" + fmt, w, h))


def close(a, b, tol=2e-5):  # natural sizes are rounded to 5-6 digits
    return abs(a - b) <= tol * max(300.0, abs(a), abs(b))


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=300, height=200)
    deck = env.data["deck"]
    i, w, h, s, p, hor, r, src = case
    path, data, mime, nw, nh = env.data["pics"][i]
    scale, rot, pad = SCALES[s], ROTS[r], PADS[p]
    sw, sh = SIZES[w], SIZES[h]
    slide = deck.new_slide()
    parent = slide.box(width="fill", height="fill", horizontal=bool(hor))
    parent.box(width=40, height=30)
    kw = dict(pad)
    if sw is not None:
        kw["width"] = sw
    if sh is not None:
        kw["height"] = sh
    box = parent.box(**kw)
    box.rect(bg_color="#010203")
    ikw = {}
    if scale is not None:
        ikw["scale"] = scale
    if rot is not None:
        ikw["rotation"] = rot
    kind = SRC[src]
    rec.state(case)
    if data is None or kind == "path":
        box.image(path, **ikw)
    elif kind == "bytes":
        box.image(data, image_type=path.rsplit(".", 1)[1].replace("jpg", "jpeg"), **ikw)
    elif kind == "stream":
        box.image(io.BytesIO(data), image_type="png", **ikw)
    else:
        with open(path, "rb") as f:
            box.image(f, image_type="jpeg", **ikw)
    page = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
    rec.trace()
    # the size of the box
    pl = pad.get("p_left", pad.get("p_x", pad.get("padding", 0)))
    pr = pad.get("p_x", pad.get("padding", 0))
    pt = pad.get("p_top", pad.get("padding", 0))
    pb = pad.get("p_bottom", pad.get("padding", 0))
    if sw is None and sh is None:
        mw, mh = nw * (scale or 1), nh * (scale or 1)
    else:
        gw = max(sw - pl - pr, 0) if isinstance(sw, int) else 0
        gh = max(sh - pt - pb, 0) if isinstance(sh, int) else 0
        mw, mh = max(gw, gh * nw / nh), max(gh, gw * nh / nw)

    def final(size, m, pad_, whole, rest):
        m += pad_
        if isinstance(size, str) and size.startswith("fill"):
            return rest - pad_
        if isinstance(size, str):
            m = max(m, whole * float(size[:-1]) / 100)
        elif isinstance(size, int):
            m = max(m, size)
        return m - pad_

    want_w = final(sw, mw, pl + pr, 300, 300 - 40 if hor else 300)
    want_h = final(sh, mh, pt + pb, 200, 200 if hor else 200 - 30)
    rect = next(it for it in page.items if it.fill == "#010203").rect()
    rec.step()
    if not close(rect[2], want_w) or not close(rect[3], want_h):
        rec.fail("the box of an image has a wrong size", got=rect, want=(want_w, want_h), natural=(nw, nh))
        return
    # the picture
    if scale is not None:
        k = scale
    elif rect[2] > 1e-9 and rect[3] > 1e-9:
        k = min(rect[2] / nw, rect[3] / nh)
    elif rect[2] > 1e-9:
        k = rect[2] / nw
    elif rect[3] > 1e-9:
        k = rect[3] / nh
    else:
        k = 0
    mid = (rect[0] + rect[2] / 2, rect[1] + rect[3] / 2)
    m, size = locate(page.svg, data, mime, rec, nw, nh)
    if m is None:
        return
    a = math.radians(rot or 0)
    for fx, fy in ((0, 0), (1, 0), (0, 1), (1, 1)):
        dx, dy = (fx - 0.5) * nw * k, (fy - 0.5) * nh * k
        want = (mid[0] + dx * math.cos(a) - dy * math.sin(a), mid[1] + dx * math.sin(a) + dy * math.cos(a))
        got = svgobs.apply(m, (size[0] + fx * size[2], size[1] + fy * size[3]))
        rec.step()
        if not close(got[0], want[0]) or not close(got[1], want[1]):
            rec.fail("an image is drawn at a wrong place or size", got=got, want=want, corner=(fx, fy),
                     rect=rect, natural=(nw, nh), svg=page.svg[:600])
            return
    rec.outcome((round(k, 9), rect))


def locate(svg, data, mime, rec, nw, nh):
    """Matrix and rectangle (in its coordinates) of the only picture of the page."""
    import xml.etree.ElementTree as ET

    root = ET.fromstring(svg)
    if data is None:
        gs = [g for g in root if g.tag == svgobs.SVG + "g" and len(g) and g[0].tag == svgobs.SVG + "svg"]
        if len(gs) != 1:
            rec.fail("the image is not drawn once", count=len(gs))
            return None, None
        return svgobs.parse_transform(gs[0].get("transform")), (0, 0, nw, nh)
    ims = list(root.iter(svgobs.SVG + "image"))
    if len(ims) != 1:
        rec.fail("the image is not drawn once", count=len(ims))
        return None, None
    im = ims[0]
    href = im.get(svgobs.XLINK + "href")
    head, _, body = href.partition(",")
    rec.expect(head, f"data:{mime};base64", "type of the embedded image")
    rec.expect(base64.b64decode(body) == data, True, "the embedded image is the given one")
    return (svgobs.parse_transform(im.get("transform")),
            tuple(float(im.get(q)) for q in ("x", "y", "width", "height")))
