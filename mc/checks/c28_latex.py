"""C28: LaTeX snippets stay independent and internally consistent."""
import itertools
import os
import re
import xml.etree.ElementTree as ET

from .. import cairoobs, fakeproc, svgobs
from .. import world as W
from .c24_cairo import cairo_ops

ID = "C28"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of converter outputs (identifiers x reference forms) and of histories of "
             "snippets, sessions and converter faults, on the real code with in-process stand-ins for pdflatex "
             "and pdf2svg; the embedded pictures are compared element by element with the converter's output")
NOTE = ("References are resolved in the converter's output and in the page and must lead to the same element; "
        "everything that is neither an identifier nor a reference must be unchanged.")
ASSUMPTIONS = ["pdflatex and pdf2svg are replaced by stand-ins (they are not installed)",
               "references are href/xlink:href values and url(#...) in attributes; the converter writes no style "
               "sheets and no scripts"]
BOUND = {"quick": "all ordered sets of <=3 of 12 identifiers with 20 reference forms to every pair of them; histories "
                  "of <=3 snippets over 3 sources x 3 places x 3 scales (of 3 at most one scaled), 6 box sizings, 5 units; every fault at "
                  "every call of <=3 calls",
         "thorough": "ordered sets of <=4 identifiers, histories of <=4 snippets"}

IDS = ["a", "ab", "abc", "fff", "glyph0-1", "glyph0-10", "a.b", "clip1", "clip10", "x", "-a", "aXb"]
NS = ('xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"')
# X, Y: identifiers
FORMS = ['<use xlink:href="#X" x="1"/>', '<use href="#X"/>', '<path fill="url(#X)" stroke="#fff"/>',
         '<path style="fill:url(#X);stroke:#fff"/>', "<g clip-path=\"url('#X')\"/>", "<g mask='url(\"#X\")'/>",
         '<path style="fill:url(#X);stroke:url(#Y);clip-path:url(#X)"/>', '<g filter="url(#X) url(#Y)"/>',
         '<path marker-start="url(#X)" marker-end="url(#Y)"/>', '<path fill="#X"/>', '<g data-note="#X #Y"/>',
         '<animate values="#X;#Y"/>', '<text font-family="X" class="#X">#X url(#X) <tspan>Y</tspan>#Y</text>',
         '<image xlink:href="other.svg#X"/>', '<path fill="url(other.svg#X)"/>', '<path fill="url(#X) #Y"/>',
         '<use xlink:href="#X-missing"/>', '<path fill="url(#missing)" stroke="#abc"/>',
         '<linearGradient xlink:href="#X" id="g-Y"/>', '<!-- #X url(#Y) --><g/>']
REF_URL = re.compile(r"""url\(\s*(["']?)#([^"')\s]+)\1\s*\)""")
PLACES = ["new", "same", "slide"]
SCALES = [1, 0.5, 3, 7.5, 40, 0.01]
UNITS = [("30pt", "12pt", 40, 16), ("31", "17", 31, 17), ("25.4mm", "12.7mm", 96, 48), ("100px", "20px", 100, 20),
         ("0.5in", "1in", 48, 96)]
BOXES = [{}, {"width": 300, "height": 200}, {"width": "fill", "height": "fill"}, {"padding": 10},
         {"width": 5, "height": 5}, {"width": "50%", "p_left": 20}]
FAULTS = ["pdflatex", "pdf2svg", "pdf2svg-partial", "truncated", "pdflatex-output", "pdflatex-killed",
          "pdf2svg-output", "pdf2svg-killed"]


def cases(tier, env):
    th = tier == "thorough"
    for i in range(len(IDS)):
        yield ["ids", [i]]
    for k in (2, 3, 4) if th else (2, 3):
        for ids in itertools.permutations(range(len(IDS)), k):
            yield ["ids", list(ids)]
    for f in range(len(FORMS)):
        for ids in itertools.permutations(range(len(IDS)), 2):
            yield ["form", f, list(ids)]
    steps = list(itertools.product(range(3), range(3), range(3)))
    for k in (1, 2, 3):
        for seq in itertools.product(steps, repeat=k):
            if k == 3 and not th and sum(s[2] > 0 for s in seq) > 1:
                continue
            yield ["hist", [list(s) for s in seq]]
    if th:
        for seq in itertools.product(itertools.product(range(3), range(3), (0,)), repeat=4):
            yield ["hist", [list(s) for s in seq]]
    for u, s, b, backend, hor in itertools.product(range(5), range(len(SCALES)), range(6), range(2), range(2)):
        yield ["geom", u, s, b, backend, hor]
    for k in (1, 2, 3):
        for seq in itertools.product(range(2), repeat=k):
            for at in range(k):
                for f in FAULTS:
                    for again in (0, 1):
                        yield ["fault", list(seq), at, f, again]
    for a, b in itertools.product(range(len(SOURCES)), repeat=2):
        yield ["source", a, b]


def setup(env):
    fakeproc.install()


def picture(ids, forms, pairs, label="p", size=("30pt", "12pt")):
    """Converter output; every element has a unique n attribute."""
    body = ["<defs>"]
    for i in ids:
        body.append('<g id="%s"><path d="M 0 0 L 1 1"/></g>' % i)
    body.append("</defs>")
    for f in forms:
        for x, y in pairs:
            body.append(re.sub(r"\b[XY](?![a-z])", lambda m: x if m.group() == "X" else y, FORMS[f].replace(
                '"X"', '"%s"' % x)) if "X" in FORMS[f] else FORMS[f])
    svg = '<svg %s width="%s" height="%s" viewBox="0 0 30 12" version="1.1" data-label="%s">\n%s\n</svg>' % (
        NS, size[0], size[1], label, "\n".join(body))
    return number(svg)


def number(svg):
    n = itertools.count()

    def sub(m):
        return m.group(1) + ' n="%d"' % next(n)
    return re.sub(r"(<(?!/|!|\?|svg|tspan)[a-zA-Z]+)", sub, svg)


def describe(root):
    """Structure with identifiers replaced by element numbers: (tag, attributes, text, tail)."""
    order = list(e for e in root.iter() if isinstance(e.tag, str))
    index = {}
    for k, e in enumerate(order):
        i = e.get("id")
        if i is not None:
            index.setdefault(i, k)
    out = []
    for k, e in enumerate(order):
        at = {}
        for name, value in e.attrib.items():
            if name == "id":
                at[name] = "defined"
            elif name in ("href", svgobs.XLINK + "href") and value.startswith("#"):
                v = value[1:]
                at[name] = ("ref", index[v]) if v in index else ("dangling", value)
            else:
                at[name] = REF_URL.sub(lambda m: "url(->%s)" % index.get(m.group(2), "dangling " + m.group(2)), value)
        out.append((e.tag, at, (e.text or "").strip(), (e.tail or "").strip() if k else ""))
    return out


def pictures(svg):
    """The embedded pictures of a page: (transform matrix, element)."""
    root = ET.fromstring(svg)
    res = []

    def walk(e, m):
        for c in e:
            mm = svgobs.mul(m, svgobs.parse_transform(c.get("transform")))
            if c.get("data-label") is not None:
                res.append((mm, c))
            else:
                walk(c, mm)
    walk(root, svgobs.IDENT)
    return res


def compare(rec, got, want_svg, what):
    want = describe(ET.fromstring(want_svg))
    have = describe(got)
    if len(want) != len(have):
        rec.fail("%s: %d elements instead of %d" % (what, len(have), len(want)))
        return False
    for w, h in zip(want, have):
        if w != h:
            rec.fail("%s: an element differs from the converter's output" % what, got=h, want=w, converter=want_svg)
            return False
    return True


def new_deck(env, d=None, cairo=False, **kw):
    import elsie
    from elsie.render.backends import CairoBackend, InkscapeBackend

    d = d or env.fresh_dir("cache")
    if cairo:
        backend = CairoBackend(cache_dir=d)
    else:
        backend = InkscapeBackend(inkscape=W.FAKE, cache_dir=d)
    return elsie.SlideDeck(backend=backend, cache_dir=d, **kw), d


def run(case, rec, env):
    from elsie.ext.latex import latex

    fakeproc.WORLD.reset()
    world = fakeproc.WORLD
    kind = case[0]
    rec.state(case[:3])
    if kind in ("ids", "form"):
        ids = [IDS[i] for i in case[-1]]
        forms = range(len(FORMS)) if kind == "ids" else [case[1]]
        pairs = list(itertools.permutations(ids, 2)) or [(ids[0], ids[0])]
        svg = picture(ids, forms, pairs)
        if kind == "ids":
            # identifiers must be unique in the converter's output
            seen = set()
            svg = re.sub(r' id="(g-[^"]*)"', lambda m: m.group() if m.group(1) not in seen and not
                         seen.add(m.group(1)) else "", svg)
        world.tex["svg"] = lambda src: svg
        n = env.data.get("n", 0)
        env.data["n"] = n + 1
        if n % 100 == 0:
            env.data["deck"] = new_deck(env, width=300, height=200)[0]
        deck = env.data["deck"]
        slide = deck.new_slide()
        latex(slide.box(), "%r" % (case,))
        page = W.svgs(deck, select_slides=[slide.slide])[0]
        rec.trace()
        pics = pictures(page)
        rec.expect(len(pics), 1, "pictures on the page")
        compare(rec, pics[0][1], svg, "snippet")
        got_ids = [e.get("id") for e in pics[0][1].iter() if e.get("id")]
        rec.expect(len(set(got_ids)), len(got_ids), "identifiers are unique within a snippet")
        rec.step(len(got_ids))
        rec.outcome(len(got_ids))
        return
    if kind == "geom":
        geometry(case, rec, env, world, latex)
        return
    if kind == "source":
        sources(case, rec, env, world, latex)
        return
    svgs = [picture(["a", "ab", "b%d" % k][:2 + k % 2] if k < 2 else ["a", "x"], [0, 2, 6, 8], [("a", "ab"), ("ab", "a")]
                    if k < 2 else [("x", "a")], "p%d" % k, UNITS[k][:2]) for k in range(3)]

    def convert(src):
        m = re.search(r"snippet (\d)", src)
        return svgs[int(m.group(1))]

    world.tex["svg"] = convert
    deck, d = new_deck(env, width=600, height=400)
    if kind == "fault":
        fault(case, rec, deck, d, world, latex, svgs, convert)
        return
    # histories
    slides = [deck.new_slide()]
    box = slides[0].box()
    want = [[]]
    used = set()
    for src, place, sc in case[1]:
        rec.step()
        if PLACES[place] == "slide":
            slides.append(deck.new_slide())
            want.append([])
            box = slides[-1].box()
        elif PLACES[place] == "new":
            box = slides[-1].box()
        latex(box, "snippet %d" % src, scale=SCALES[sc])
        used.add(src)
        want[-1].append((src, SCALES[sc]))
    for session in range(2):
        rec.expect(world.count("pdflatex"), len(used), "compilations")
        rec.expect(world.count("pdf2svg"), len(used), "conversions")
        pages = deck.render(output=None, return_units=True, prune_cache=False)
        rec.trace()
        ids = {}
        for page, w in zip(pages, want):
            pics = pictures(page.get_svg())
            rec.expect([e.get("data-label") for _, e in pics], ["p%d" % s for s, _ in w], "snippets of a page")
            for (m, e), (s, sc) in zip(pics, w):
                if not compare(rec, e, svgs[s], "snippet %d" % s):
                    return
                rec.expect(abs(m[0] - sc) < 1e-9 and abs(m[3] - sc) < 1e-9, True, "scale of a snippet")
                for i in (x.get("id") for x in e.iter()):
                    if i and ids.setdefault(i, s) != s:
                        rec.fail("snippets %d and %d have the same identifier %r" % (s, ids[i], i))
                        return
        if session == 0:
            # another session with the same cache directory
            deck2, _ = new_deck(env, d, width=600, height=400)
            for w in want:
                s2 = deck2.new_slide()
                for src, sc in w:
                    latex(s2.box(), "snippet %d" % src, scale=sc)
            deck = deck2
    rec.outcome((len(used), len(want)))


def fault(case, rec, deck, d, world, latex, svgs, convert):
    _, seq, at, f, again = case
    slide = deck.new_slide()
    outer = slide.box()
    want, used, compiled = [], set(), 0
    for k, src in enumerate(seq):
        rec.step()
        if k == at:
            before = sorted(os.listdir(d))
            if f == "truncated":
                world.tex["svg"] = lambda s: convert(s)[:200]
            else:
                world.tex["fault"] = f
            try:
                latex(outer.box(), "snippet %d" % src)
                failed = False
            except Exception:
                failed = True
            world.tex["fault"] = None
            world.tex["svg"] = convert
            if failed == (src in used):
                rec.fail("a failing compilation did not raise" if not failed else
                         "a snippet that had been compiled failed with the converter")
                return
            rec.expect(sorted(os.listdir(d)), before, "files of the cache after a failed compilation")
            if not failed:
                want.append(src)
            if not again:
                continue
            if not failed:
                continue
        latex(outer.box(), "snippet %d" % src)
        want.append(src)
        used.add(src)
    n = world.count("pdflatex")
    units = deck.render(output=None, return_units=True)
    rec.expect(world.count("pdflatex"), n, "compilations while rendering")
    pics = pictures(units[0].get_svg())
    rec.trace()
    rec.outcome((len(pics), f))
    rec.expect([e.get("data-label") for _, e in pics], ["p%d" % s for s in want], "snippets of the page")
    for (_, e), s in zip(pics, want):
        if not compare(rec, e, svgs[s], "snippet %d" % s):
            return
    # nothing of a failure is left for the next session
    deck2, _ = new_deck(None, d)
    s2 = deck2.new_slide()
    world.log.clear()
    for s in sorted(set(seq)):
        latex(s2.box(), "snippet %d" % s)
    rec.expect(world.count("pdflatex"), len(set(seq) - set(want)), "compilations of the next session")
    pics = pictures(deck2.render(output=None, return_units=True)[0].get_svg())
    rec.expect([e.get("data-label") for _, e in pics], ["p%d" % s for s in sorted(set(seq))],
               "snippets of the next session")


def geometry(case, rec, env, world, latex):
    _, u, s, b, backend, hor = case
    w, h, nw, nh = UNITS[u]
    scale = SCALES[s]
    svg = ('<svg %s width="%s" height="%s" viewBox="0 0 %s %s" data-label="p"><rect x="0" y="0" width="%s" height="%s" '
           'fill="#204060"/></svg>' % (NS, w, h, nw, nh, nw, nh))
    world.tex["svg"] = lambda src: svg
    key = "gdeck%d" % backend
    n = env.data.get("gn", 0)
    env.data["gn"] = n + 1
    if n % 100 == 0:
        for k in range(2):
            env.data["gdeck%d" % k] = new_deck(env, cairo=bool(k), width=600, height=400)[0]
    deck = env.data[key]
    slide = deck.new_slide()
    parent = slide.box(width="fill", height="fill", horizontal=bool(hor))
    box = parent.box(**BOXES[b])
    box.rect(bg_color="#102030")
    latex(box, "geometry %r" % case, scale=scale)
    # reference size of the box
    kw = BOXES[b]
    pl = kw.get("p_left", kw.get("padding", 0))
    pr = pt = pb = kw.get("padding", 0)
    sw, sh = nw * scale, nh * scale

    def final(size, m, p, whole):
        if size == "fill":
            return whole - p
        if isinstance(size, str):
            return max(whole * 0.5, m + p) - p
        return max(m + p, size or 0) - p
    bw, bh = final(kw.get("width"), sw, pl + pr, 600), final(kw.get("height"), sh, pt + pb, 400)
    cx, cy = 300 + (pl - pr) / 2, 200 + (pt - pb) / 2
    want_box = (cx - bw / 2, cy - bh / 2, bw, bh)
    want_pic = (cx - sw / 2, cy - sh / 2, sw, sh)
    rec.outcome((want_box, want_pic))
    if backend == 0:
        page = W.svgs(deck, select_slides=[slide.slide])[0]
        rect = W.Page(page).by_fill()["#102030"][0].rect()
        m, e = pictures(page)[0]
        p0, p1 = svgobs.apply(m, (0, 0)), svgobs.apply(m, (nw, nh))
        pic = (*p0, p1[0] - p0[0], p1[1] - p0[1])
    else:
        log = cairoobs.record(deck, "png", select_slides=[slide.slide])[0]
        ops = {}
        for o in cairo_ops(log, 1.0):
            if o[0] == "fill":
                pts = [p for sub, _ in o[1] for p in sub]
                if not pts:
                    continue
                x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
                y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
                ops[o[2]] = (x0, y0, x1 - x0, y1 - y0)
        rect, pic = ops["#102030"], ops.get("#204060")
    rec.trace()
    for got, want, what in ((rect, want_box, "box"), (pic, want_pic, "picture")):
        if got is None or any(abs(a - c) > 0.02 for a, c in zip(got, want)):
            rec.fail("the %s of a snippet has a wrong place or size" % what, got=got, want=want)
            return


# texts, headers and tails: the compiled source is header, text and tail
SOURCES = [("x", None, None), ("x", "\\documentclass{article}\\begin{document}", None), ("x", None, "%\n\\end{document}"),
           ("\u00e9 \\\"o $\\frac{1}{2}$ 100\\%", None, None), ("x\n", None, None), ("", "H\nx", "T"),
           (" x", None, None), ("x", None, "\\end{document}\n"), ("x", "\\begin{document} ", None),
           ("x ", None, None)] + [(a + "x" * n + b, None, None) for n in (100, 3000) for a, b in ("AC", "BC", "AD")] + [
               ("x", "A" + "%" * 900 + "\n\\begin{document}", None), ("x", "B" + "%" * 900 + "\n\\begin{document}", None),
               ("x", None, "\\end{document}" + " " * 900 + "A"), ("x", None, "\\end{document}" + " " * 900 + "B")]


def sources(case, rec, env, world, latex):
    seen = []

    def convert(src):
        seen.append(src)
        return number('<svg %s width="10pt" height="10pt" data-label="p%d"><defs><g id="a"/></defs>'
                      '<use xlink:href="#a"/></svg>' % (NS, len(seen)))
    world.tex["svg"] = convert
    deck, d = new_deck(env)
    slide = deck.new_slide()
    for k in case[1:]:
        rec.step()
        text, header, tail = SOURCES[k]
        kw = {}
        if header is not None:
            kw["header"] = header
        if tail is not None:
            kw["tail"] = tail
        latex(slide.box(), text, **kw)
        src = seen[-1] if k == case[-1] or len(seen) > 1 else seen[0]
        if k == case[1] or len(seen) > 1:
            body = (header if header is not None else "\\begin{document}") + "\n" + text + "\n" + (
                tail if tail is not None else "\\end{document}")
            if not src.endswith(body) or (header is None) != src.lstrip().startswith("\\documentclass[varwidth"):
                rec.fail("the source given to pdflatex is not header, text and tail", got=src, want=body)
                return
    want = ["p1", "p1"] if case[1] == case[2] else ["p1", "p2"]
    pics = pictures(deck.render(output=None, return_units=True)[0].get_svg())
    rec.trace()
    rec.expect([e.get("data-label") for _, e in pics], want, "snippets with different sources")
    ids = [sorted(x.get("id") for x in e.iter() if x.get("id")) for _, e in pics]
    rec.expect((ids[0] == ids[1]), case[1] == case[2], "identifiers are equal only for the same source")
    rec.outcome(tuple(want))
