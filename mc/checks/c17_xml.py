"""C17: any text reaches the output intact as well-formed XML."""
import builtins
import io
import itertools
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as ET
import zipfile
from xml.sax.saxutils import escape

import elsie
from elsie import TextStyle
from elsie.ext.latex import latex

from .. import fakeink, fakeproc, svgobs
from .. import world as W
from ..engine import REPO
from .c10_cache import png_file

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all short strings over the characters special in XML/CSS, "
             "control and non-ASCII characters, in every text and attribute position at once and one "
             "by one, read back by an XML parser")
NOTE = ("The element structure and attribute names of a page must not depend on the strings, and every "
        "string must read back; a string that XML cannot represent must be rejected.")
ASSUMPTIONS = ["expat as the XML parser", "spaces and non-breaking spaces are not distinguished in texts",
               "strings with ; in a colour are not colours (CSS)"]
BOUND = {"quick": "all strings of length <= 3 over 19 characters in 24 positions; every BMP block "
                  "boundary character, control character and noncharacter in each position; 3 encodings; 9 texts with a real child process on an ASCII platform",
         "thorough": "length <= 4"}

ALPHA = ["'", '"', "&", "<", ">", "\\", "#", "]", "\t", "\n", "\r", " ", "\u00a0", "é", "😀", "a", "%",
         "{", "-"]
BAD = [chr(i) for i in range(0x20) if i not in (9, 10, 13)] + ["\ufffe", "\uffff", "\ud800", "\udfff"]
ODD = ["\x7f", "\x85", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ue000", "\U0010ffff", "\u0301", "\u200b",
       "\u202e", "\u2009", "\u2003", "\u3000", "\u202f", "\u1680", "\u2060", "a\u2002\u3000 b", "\u00ad", "\u0600", "&#0;", "&amp;", "]]>", "<!--", "<?x?>", "</text>", "' x='", "é'é", "%s", "{0}", "\\'"]
ESC = "\ue001\ue002\ue003"
MIN = {"quick": 3, "thorough": 4}
POSITIONS = ["text", "code", "pycode", "lines", "inline", "font", "tcolor", "icolor", "box", "rect", "bg",
             "dash", "ellipse", "polygon", "path", "line", "arrow", "imgtext", "imgattr", "imgtail", "label",
             "imgname", "orastack", "oralayer"]
CSS = ["tcolor", "icolor", "rect", "bg", "dash", "ellipse", "polygon", "path", "line", "arrow"]
INK = "{http://www.inkscape.org/namespaces/inkscape}label"


def cases(tier, env):
    for n in range(1, MIN[tier] + 1):
        for t in itertools.product(ALPHA, repeat=n):
            yield ["all", "".join(t)]
    for s in ODD:
        yield ["all", s]
    for s in ALPHA + ODD + BAD:
        for p in POSITIONS:
            yield ["one", p, [ord(c) for c in s]]
    for a, b in itertools.product(ALPHA, repeat=2):
        for p in POSITIONS:
            yield ["one", p, [ord(c) for c in a + b]]
    for n in (100, 1000, 5000, 70000):
        for s in (ALPHA + ["ab c "]) if n < 70000 else ["a", "é", "ab c "]:
            for p in ("text", "code", "lines", "inline", "font", "box", "label", "imgtext", "imgattr", "oralayer"):
                if n < 5000 or p in ("text", "code", "imgtext", "label"):
                    yield ["one", p, ["x" + s + "y", n]]
    for enc in ("latin-1", "cp1250", "ascii"):
        for s in ["é", "😀", "ř", "\u00a0", "a b", "x\ny"]:
            yield ["enc", enc, s]
    for s in ["a", "é", "😀", "ř", "\u00a0", "a b", "x\ny", "éa", "😀é"]:
        for utf8 in (0, 1):
            yield ["proc", s, utf8]


def setup(env):
    fakeproc.install()
    env.data["img"] = env.fresh_dir("img")


def get_deck(env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 100 == 0:
        if n % 2000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=300, height=300)
    return env.data["deck"]


def attr(s):
    s = escape(s, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
    return '"' + s + '"'


def build(deck, env, s, positions, files):
    """A slide with the string in the positions; elsewhere a harmless one."""
    slide = deck.new_slide()
    slide.box()  # the reference and the tested slide have the same structure
    v = {p: p + "=" + (s if p in positions else "-") + "y" for p in POSITIONS}
    st = TextStyle(font=v["font"], color=v["tcolor"])
    slide.box(name="n" + v["box"])
    slide.slide.debug_boxes = True
    slide.box(x=0, y=0, width=10, height=10).text(v["text"], escape_char=ESC)
    slide.box(x=0, y=0, width=10, height=10).code(None, v["code"])
    slide.box(x=0, y=0, width=10, height=10).code("text", v["pycode"].replace("\r", "-"))
    slide.box(x=0, y=0, width=10, height=10).text("1\n" + v["lines"] + "\n\n2", escape_char=ESC)
    b = slide.box(x=0, y=0, width=10, height=10)
    b.set_style("s", TextStyle(color=v["icolor"]))
    b.text(f"\ue001s\ue002{v['inline']}\ue003", st, escape_char=ESC)
    slide.box(x=0, y=0, width=10, height=10).rect(color=v["rect"], bg_color=v["bg"], stroke_dasharray=v["dash"])
    slide.box(x=0, y=0, width=10, height=10).ellipse(bg_color=v["ellipse"])
    slide.box(x=0, y=0, width=10, height=10).polygon([(0, 0), (1, 0), (0, 1)], color=v["polygon"])
    slide.box(x=0, y=0, width=10, height=10).path([("M", (0, 0)), ("L", (3, 4))], color=v["path"])
    slide.box(x=0, y=0, width=10, height=10).line([(0, 0), (9, 9)], color=v["line"])
    slide.box(x=0, y=0, width=10, height=10).line([(0, 0), (9, 9)], color=v["arrow"], end_arrow=elsie.Arrow(3))
    key = "".join(v["imgname"].split("/")).replace("\0", "0")
    f = os.path.join(env.data["img"], f"{len(key)}{key}.svg".encode("utf8", "replace").decode("utf8"))
    data = (f"<?xml version='1.0' encoding='UTF-8'?><!-- c --><svg xmlns='{svgobs.SVG[1:-1]}' "
            f"xmlns:inkscape='{INK[1:-6]}' width='10' height='10'><g inkscape:label={attr(v['label'])} "
            f"fill={attr(v['imgattr'])}><text>{escape(v['imgtext'], {chr(13): '&#13;'})}</text>"
            f"{escape(v['imgtail'], {chr(13): '&#13;'})}</g></svg>")
    with open(f, "wb") as out:
        out.write(data.encode())
    files.append(f)
    slide.box(x=0, y=0, width=10, height=10).image(f)
    f = os.path.join(env.data["img"], "o.ora")
    z = zipfile.ZipFile(f, "w")
    z.writestr("mimetype", "image/openraster")
    z.writestr("stack.xml", "<?xml version='1.0' encoding='UTF-8'?><image w='10' h='10'>"
               f"<stack name='root' x='0' y='0' opacity='1.0' visibility='visible'><stack name={attr(v['orastack'])} x='1' y='1' opacity='1.0'"
               f" visibility='visible'><layer name={attr(v['oralayer'])} src='l.png' x='1' y='2'"
               " opacity='1.0' visibility='visible'/></stack></stack></image>")
    z.writestr("l.png", png_file(1))
    z.close()
    files.append(f)
    slide.box(x=0, y=0, width=10, height=10).image(f)
    return slide, v


def skeleton(root):
    """Structure: tags, attribute names; texts with lines have one tspan each, tested separately."""
    def go(e):
        if e.tag.endswith("}text"):
            return ("text", tuple(sorted(k for k in e.attrib)))
        return (e.tag, tuple(sorted(e.attrib)), tuple(go(c) for c in e))
    return go(root)


def values(page):
    """position -> value read back"""
    got = {}
    texts = [it for it in page.items if it.tag == "text"]
    own = [t for t in texts if not any(p.get(INK) is not None for p in t.path)]
    dbg = [svgobs.text_plain(t.el) for t in own if t.el.get("font-size") == "12" or "[" in svgobs.text_plain(t.el)]
    got["dbg"] = dbg
    plain = [svgobs.text_plain(t.el) for t in own]
    got["texts"] = plain
    its = [it for it in page.items if it.tag != "text"]
    got["items"] = its
    return got


def norm(s):
    return re.sub("\n+", "\n", s.replace("\u00a0", " "))


def spaces_kept(el, preserve=False):
    """White space of a text without xml:space="preserve" is collapsed: it must contain none of it."""
    space = el.get("{http://www.w3.org/XML/1998/namespace}space")
    preserve = space == "preserve" if space else preserve
    if not preserve and re.search("^ | $|  ", el.text or ""):
        return False
    return all(spaces_kept(c, preserve) and (preserve or not re.search("^ | $|  ", c.tail or "")) for c in el)


def paints(el):
    return svgobs.parse_style(el.get("style"))


def compare(rec, svg, ref, v, s, case):
    try:
        page = W.Page(svg)
    except (ET.ParseError, ValueError) as ex:
        rec.fail("the page is not well-formed XML", error=str(ex), svg=svg, stop=True)
    if ref is not None and skeleton(page.root) != skeleton(ref.root):
        rec.fail("the structure of the page is altered", svg=svg, stop=True)
    root = page.root
    own, imgs = [], []
    for it in page.items:
        if it.tag == "text":
            (imgs if any(p.get(INK) is not None for p in it.path) else own).append(it.el)
    plain = [norm(svgobs.text_plain(e)) for e in own]

    def has(pos, ok):
        rec.step()
        if not ok:
            rec.fail(f"the {pos} does not read back", key=pos, want=v.get(pos), svg=svg)

    for e in own:
        if not spaces_kept(e):
            rec.fail("spaces of a text are lost when it is drawn", svg=svg, stop=True)
    for p in ("text", "inline"):
        has(p, norm(v[p]) in plain)
    has("code", norm(v["code"]).replace("\t", "    ") in plain)
    has("pycode", norm(v["pycode"].replace("\r", "-")).replace("\t", "    ") in plain)
    has("lines", "1\n" + norm(v["lines"]) + "\n2" in plain)
    has("box", any(("n" + norm(v["box"]) + " [") in x for x in plain))
    allst = [(e.tag.split("}")[1], paints(e), e) for e in root.iter() if isinstance(e.tag, str)]
    has("font", any(e.get("font-family") == v["font"] for t, p, e in allst if t == "text"))
    has("tcolor", any(p.get("fill") == v["tcolor"] for t, p, e in allst if t == "text"))
    has("icolor", any(p.get("fill") == v["icolor"] for t, p, e in allst if t == "tspan"))
    has("rect", any(p.get("stroke") == v["rect"] for t, p, e in allst if t == "rect"))
    has("bg", any(p.get("fill") == v["bg"] for t, p, e in allst if t == "rect"))
    has("dash", any(p.get("stroke-dasharray") == v["dash"] for t, p, e in allst if t == "rect"))
    has("ellipse", any(p.get("fill") == v["ellipse"] for t, p, e in allst if t == "ellipse"))
    has("polygon", any(p.get("stroke") == v["polygon"] for t, p, e in allst if t == "polygon"))
    has("path", any(p.get("stroke") == v["path"] for t, p, e in allst if t == "path"))
    has("line", any(p.get("stroke") == v["line"] for t, p, e in allst if t == "polyline"))
    has("arrow", any(p.get("fill") == v["arrow"] for t, p, e in allst if t == "polygon"))
    labels = [e.get(INK) for e in root.iter()]
    for p in ("label", "orastack", "oralayer"):
        has(p, v[p] in labels)
    has("imgattr", any(e.get("fill") == v["imgattr"] for e in root.iter()))
    has("imgtext", any(e.text == v["imgtext"] for e in imgs))
    has("imgtail", any(e.tail == v["imgtail"] for e in imgs))


def valid(s):
    return all(c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000"
               for c in s)


def run(case, rec, env):
    kind = case[0]
    if kind == "proc":
        return run_process(case, rec, env)
    if kind == "enc":
        return run_enc(case, rec, env)
    if kind == "all":
        s, pos = case[1], [p for p in POSITIONS if ";" not in case[1] or p not in CSS]
    else:
        s = case[2][0] * case[2][1] if isinstance(case[2][0], str) else "".join(map(chr, case[2]))
        pos = [case[1]]
        if ";" in s and case[1] in CSS:
            return
        if not valid(s) and pos[0] in ("imgtext", "imgattr", "imgtail", "label", "imgname", "orastack",
                                       "oralayer"):
            return  # no such file exists
    rec.state(case)
    deck = get_deck(env)
    files = []
    try:
        if "ref" not in env.data:
            slide, v = build(deck, env, "-", [], files)
            env.data["ref"] = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
        try:
            slide, v = build(deck, env, s, pos, files)
            svg = W.svgs(deck, select_slides=[slide.slide])[0]
        except Exception as ex:
            rec.step()
            rec.outcome(type(ex).__name__)
            if valid(s):
                rec.fail("a string is rejected", error=repr(ex)[:300], stop=True)
            return
        rec.trace()
        rec.outcome(svg)
        compare(rec, svg, env.data["ref"], v, s, case)
    finally:
        for f in files:
            if os.path.exists(f):
                os.unlink(f)


def run_enc(case, rec, env):
    """Files of the output do not depend on the default encoding of the platform."""
    _, enc, s = case
    real = builtins.open

    def fake_open(file, mode="r", buffering=-1, encoding=None, *a, **kw):
        if "b" not in mode and encoding is None:
            encoding = enc
        return real(file, mode, buffering, encoding, *a, **kw)

    d = env.fresh_dir("enc")
    env.data.pop("backend", None)
    fakeproc.WORLD.reset()
    fakeproc.WORLD.tex = {"svg": lambda src: f"<svg xmlns='{svgobs.SVG[1:-1]}' width='10' height='10'>"
                          f"<text>{src and 'é'}</text></svg>"}
    files = []
    rec.state(case)
    builtins.open = fake_open
    try:
        deck = elsie.SlideDeck(backend=W.InkscapeBackend(inkscape=W.FAKE, cache_dir=os.path.join(d, "c")),
                               width=300, height=300, cache_dir=os.path.join(d, "c"))
        slide, v = build(deck, env, s, POSITIONS, files)
        latex(slide.box(), "x" + s)
        deck.debug = True  # writes the pages also next to the cache
        deck.render(os.path.join(d, "o.pdf"))
    except Exception as ex:
        rec.fail("a text is rejected with this encoding", error=repr(ex)[:300], stop=True)
    finally:
        builtins.open = real
        env.data.pop("backend", None)
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
    n = 0
    for root, _, names in os.walk(d):
        for name in names:
            if name.endswith(".svg") and ".tmp" not in name:
                data = real(os.path.join(root, name), "rb").read()
                rec.step()
                n += 1
                try:
                    ET.fromstring(data)
                except ET.ParseError as ex:
                    rec.fail("a written SVG file is not well-formed", file=name, error=str(ex), data=repr(data))
    rec.trace()
    rec.count("SVG files read", n)


CHILD = """
import sys
import elsie
from elsie.render.backends import InkscapeBackend
s = "".join(chr(int(v)) for v in sys.argv[3:])
deck = elsie.SlideDeck(backend=InkscapeBackend(sys.argv[1], cache_dir=sys.argv[2]), width=300, height=300,
                       cache_dir=sys.argv[2])
slide = deck.new_slide()
box = slide.box()
box.text("x~#a{" + s + "}y").inline_box("#a").rect(bg_color="red")
box.rect(bg_color="blue")
slide.box().code("python", "'" + s + "'")
for unit in deck.render(output=None, return_units=True):
    sys.stdout.buffer.write(unit.get_svg().encode("utf-8"))
deck.render(sys.argv[2] + "/o.pdf", save_cache=True)
"""


def run_process(case, rec, env):
    """Real pipes and files to a real child process, with an ASCII or UTF-8 platform."""
    _, s, utf8 = case
    rec.state(case)
    outs = []
    for u in (1, utf8):
        d = env.fresh_dir("proc")
        e = {"PATH": os.environ["PATH"], "PYTHONPATH": REPO, "LC_ALL": "C.UTF-8" if u else "C",
             "PYTHONUTF8": str(u), "PYTHONCOERCECLOCALE": "0", "PYTHONDONTWRITEBYTECODE": "1",
             "PYTHONHASHSEED": "0"}
        ink = os.path.join(d, "ink")
        with builtins.open(ink, "w") as f:
            f.write(f"#!/bin/sh\nPYTHONUTF8=1 exec {sys.executable} -IS {os.path.abspath(fakeink.__file__)} \"$@\"\n")
        os.chmod(ink, 0o755)
        r = subprocess.run([sys.executable, "-c", CHILD, ink, d, *[str(ord(c)) for c in s]], env=e, cwd=d,
                           capture_output=True, timeout=60)
        rec.step()
        if r.returncode != 0:
            rec.fail("a text is rejected by a platform with this encoding", utf8=u,
                     error=r.stderr.decode("utf8", "replace")[-600:], stop=True)
        outs.append(r.stdout[:r.stdout.rindex(b"</svg>")])
    rec.trace()
    rec.outcome(outs[0].decode())
    if outs[0] != outs[1]:
        rec.fail("the pages depend on the encoding of the platform", got=outs[1].decode("utf8", "replace"),
                 want=outs[0].decode())
