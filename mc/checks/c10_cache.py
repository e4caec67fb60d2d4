"""C10: caches never change results."""
import base64
import io
import itertools
import os
import shutil
import struct
import sys
import zipfile
import zlib

import elsie
from elsie.ext.latex import latex
from elsie.render.backends import InkscapeBackend
from elsie.render.inkscape import InkscapeShell

from .. import fakeproc
from .. import world as W
from .c06_pure_render import read
from .c08_pages import pdf_pages

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of histories of sessions in one cache directory (and of "
             "operations within a session); every result compared with the same session in an "
             "empty cache directory")
NOTE = ("Sessions = program (texts, SVG/ORA/PNG images, LaTeX; edited variants) x Inkscape version "
        "x Elsie version x text-to-path x output kind x saving/pruning mode; all pairs, all triples "
        "over a smaller set, and all in-session histories of building, editing sources, switching "
        "decks and rendering run on the real code with in-process stand-ins of the external "
        "programs whose answers depend on the versions.")
ASSUMPTIONS = ["external programs are deterministic functions of their input, version and options",
               "sources are edited between two uses, not while they are read"]
BOUND = {"quick": "all pairs of 144+ sessions (one final configuration each), triples of 20 "
                  "sessions; in-session histories of length <= 5 over 9 operations; all ordered pairs of 58 similar texts, styles, "
                  "formulas and files; 3000 pages and 12000 other entries in one cache",
         "thorough": "all pairs of sessions with all final configurations, triples of 48, "
                     "in-session histories of length 6"}

NS = "xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape'"


def svg_file(v):
    return (f"<svg {NS} width='{40 + v}' height='20'><g inkscape:label='a**{1 + v % 2}'>"
            f"<rect fill='#a000{v:02x}' width='5' height='5'/></g></svg>").encode()


def png_file(v):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))

    w = 2 + v
    raw = b"".join(b"\0" + bytes([v * 40, 10, 20]) * w for _ in range(2))
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, 2, 8, 2, 0, 0, 0))
            + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def ora_file(v, comment=b""):
    b = io.BytesIO()
    z = zipfile.ZipFile(b, "w")

    def put(name, data):
        z.writestr(zipfile.ZipInfo(name, (1990, 1, 1, 0, 0, 0)), data)

    put("mimetype", "image/openraster")
    put("stack.xml", f"<image w='{30 + v}' h='20' version='0.0.1'><stack name='root' x='0' y='0'>"
        "<layer name='l' src='data/l.png' x='1' y='2' opacity='1.0' visibility='visible'/>"
        "</stack></image>")
    put("data/l.png", png_file(v))
    if comment:
        put("comment", comment)
    z.close()
    return b.getvalue()


FILES = {"svg": svg_file, "png": png_file, "ora": ora_file}
ALL = {"svg": 0, "png": 0, "ora": 0}

# a program: list of drawing operations; the number is the variant of the used file
PROGRAMS = {
    "A": [["text", "Hello"], ["svg", 0], ["ora", 0], ["png", 0], ["tex", "x"]],
    "A2": [["text", "Hello"], ["svg", 1], ["ora", 1], ["png", 1], ["tex", "y"]],    # edited
    "B": [["text", "Hello", 40], ["text", "Hello"], ["inline", "Hello"], ["tex", "x", 2]],
    "C": [["inline", "Hello"], ["png", 0], ["fit", "Hello"]],
}
MODES = ["full", "keep", "nosave", "unsaved"]


def sessions(progs, inks, elsies, ttps, kinds, modes):
    return [list(x) for x in itertools.product(progs, inks, elsies, ttps, kinds, modes)]


FULL = (("A", "A2", "B"), (0, 1), (0, 1), (0, 1), ("pdf", "png"), ("full", "keep", "nosave"))
OPS = [["text", "Hello"], ["svg", "e"], ["png", "e"], ["ora", "e"], ["edit"], ["render"], ["file"],
       ["prune"], ["deck"]]
BIN_OPS = [["bytes", 0], ["bytes", 1], ["png", "e"], ["edit"], ["render"], ["io", 0], ["io", 1]]


# Things that are almost the same
_LONG = "0123456789" * 900
NEAR = {
    "text": ["mm", "MM", "mM", " mm", "mm ", "m m", "m  m", "m\nm", "mm\n", "m\u0301", "\u1e3f", "\uff4d\uff4d", "m\u00a0m", "~tt{m}m",
             "~tt{mm}", "~#a{mm}", "~emph{m}m", "", _LONG, _LONG[:-1] + "8", "1" + _LONG[1:], _LONG[:4500] + "_" + _LONG[4501:]],
    "style": [{}, {"size": 28.5}, {"size": 29}, {"font": "Mono"}, {"font": "mono"}, {"bold": True}, {"italic": True},
              {"line_spacing": 1.3}, {"variant_numeric": "normal"}, {"color": "red"}, {"align": "left"}, {"size": 2.8}],
    "tex": ["x", "X", "x ", "x%", "xx", "x\n", "x~y", _LONG, _LONG[:-1] + "8", "1" + _LONG[1:]],
    "svg": ["", " ", "<!--a-->", "<!--A-->", "<!--" + _LONG * 9 + "-->", "<!--" + _LONG * 9 + "1-->",
            "<!--1" + _LONG * 9 + "-->"],
    "ora": [b"", b"a", b"A", b"a\0", _LONG.encode() * 9, _LONG.encode() * 9 + b"1", b"1" + _LONG.encode() * 9],
}


def many(n, rec, env, d):
    """Many different pages, measured texts and snippets in one cache."""
    env.data["world"].digest = True
    try:
        backend = start_session(env, d, 0, 0, 0)
        deck = elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=d)
        for i in range(n):
            deck.new_slide().box(x=i, y=0, width=5, height=5).rect(bg_color="red")
        data = [read(f) for f in deck.render(None, export_type="png")]
        end_session(backend)
        rec.step(n)
        rec.trace()
        seen = {}
        for i, x in enumerate(data):
            if seen.setdefault(x, i) != i:
                rec.fail("two different pages share a file", first=seen[x], second=i, stop=True)
        cache = elsie.utils.cache.FsCache(d, "v")
        made = []

        def make(data, target, kind):
            made.append(data)
            with open(target, "wb") as f:
                f.write(data)

        for i in range(4 * n):
            x = b"%d" % i
            rec.step()
            if read(cache.ensure(x, "txt", make)) != x:
                rec.fail("different inputs share a cached result", index=i, stop=True)
        rec.outcome((len(seen), len(made)))
    finally:
        env.data["world"].digest = False


def near(spec, env, d):
    kind, a, b, mode = spec

    def content(s, v):
        b = s.box()
        if kind == "text":
            b.rect(bg_color="red").text(v)
        elif kind == "style":
            b.rect(bg_color="red").text("Hello", elsie.TextStyle(**v))
            b.code("python", "def f():\n  pass", style=elsie.TextStyle(**v), use_styles=True)
        elif kind == "tex":
            latex(b, v)
        else:
            path = os.path.join(d, "%d.%s" % (NEAR[kind].index(v), kind))
            with open(path, "wb") as f:
                if kind == "svg":
                    f.write(svg_file(2).replace(b"<g", v.encode() + b"<g", 1))
                else:
                    f.write(ora_file(1, v))
            b.image(path)

    def pages(cache, values):
        backend = start_session(env, cache, 0, 0, 0)
        try:
            deck = elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=cache)
            for v in values:
                content(deck.new_slide(), NEAR[kind][v])
            svgs = [u.get_svg() for u in deck.render(None, return_units=True)]
            files = [read(f) for f in deck.render(None, export_type="png", prune_cache=False)]
            return svgs, files
        finally:
            end_session(backend)

    env.data["world"].digest = True
    try:
        want = []
        for v in (a, b):
            ref = env.data.setdefault("near", {})
            if (kind, v) not in ref:
                if len(ref) > 200:
                    ref.clear()
                c = env.fresh_dir()
                ref[kind, v] = pages(c, [v])
                shutil.rmtree(c)
            want.append(ref[kind, v])
        c = env.fresh_dir()
        try:
            if mode == "deck":
                got = pages(c, [a, b])
                got = [([s], [f]) for s, f in zip(*got)]
            else:
                got = [pages(c, [v]) for v in (a, b)]
        finally:
            shutil.rmtree(c)
        return got, want
    finally:
        env.data["world"].digest = False


def cases(tier, env):
    th = tier == "thorough"
    for p in PROGRAMS:
        for k in ("pdf", "png", "svg"):
            yield ["sessions", [[p, 0, 0, 0, k, "full"]] * 2]
    full = sessions(*FULL)
    # equal by what is kept of the first session: all last sessions against the base one and vice
    # versa; then all pairs that differ in at most three parameters
    lim = 6 if th else 3
    for a in full:
        for b in full:
            if b[5] != "full" or (not th and b[4] == "png"):
                continue
            if sum(x != y for x, y in zip(a, b)) <= lim:
                yield ["sessions", [a, b]]
    more = sessions(("A", "B", "C"), (0, 2, 3), (0,), (0, 1), ("pdf", "svg"),
                    ("unsaved", "full"))
    for a in more:
        for b in more:
            if b[5] == "full":
                yield ["sessions", [a, b]]
    small = sessions(("A", "A2", "B") if th else ("A", "A2"), (0, 1), (0, 1) if th else (0,),
                     (0, 1), ("pdf",), ("full", "keep") if th else ("full",))
    for h in itertools.product(small, repeat=3):
        yield ["sessions", [list(x) for x in h]]
    for n in range(2, 7 if th else 6):
        for h in itertools.product(range(len(OPS)), repeat=n):
            ops = [OPS[i][0] for i in h]
            # at least one use before an edit and one after it, or two decks
            if ops[-1] not in ("render", "file"):
                continue
            if "edit" not in ops and not (n <= 4 and "deck" in ops):
                continue
            if n >= 5 and (ops[0] in ("edit", "render", "file", "prune", "deck")
                           or "prune" in ops and n > 5):
                continue
            yield ["inside", list(h)]
    for n in (3000, 6000) if th else (3000,):
        yield ["many", n]
    for kind, values in NEAR.items():
        for a, b in itertools.permutations(range(len(values)), 2):
            for mode in ("deck", "session"):
                yield ["near", [kind, a, b, mode]]
    for n in range(2, 5 if th else 4):
        for h in itertools.product(range(len(BIN_OPS)), repeat=n):
            yield ["binary", list(h) + [4]]


def setup(env):
    env.data["world"] = fakeproc.install()
    env.data["texsvg"] = None


INK = ["Inkscape 1.2.2 (fake, 2022-12-01)", "Inkscape 1.3 (fake, 2023-07-21)",
       "Inkscape 1.2.2 (fake, 2022-12-02)", "weird"]


def set_elsie_version(v):
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "elsie" and hasattr(m, "VERSION"):
            m.VERSION = v


ORIG_VERSION = elsie.version.VERSION


def start_session(env, d, ink, els, ttp):
    w = env.data["world"]
    w.log.clear()
    w.procs.clear()
    w.ink = {"version": INK[ink], "epoch": f"e{els}", "scale": 1.0 + 0.25 * ink + 0.5 * els,
             "digest": getattr(w, "digest", False)}
    k = 10 + ink + 5 * els
    w.tex = {"svg": lambda src: f"<svg {NS} width='{k}pt' height='{len(src)}pt'>"
             f"<path id='a' d='M 0 0 L {k} {zlib.crc32(src if isinstance(src, bytes) else src.encode())}'/></svg>"}
    set_elsie_version(ORIG_VERSION if els == 0 else "99.99")
    return InkscapeBackend(inkscape=InkscapeShell(W.FAKE, text_to_path=bool(ttp)), cache_dir=d)


def end_session(backend):
    set_elsie_version(ORIG_VERSION)
    W.close_backend(backend)


def build(deck, prog, path):
    s = deck.new_slide()
    for op in prog:
        draw(s, op, path)


def draw(s, op, path):
    if op[0] == "text":
        s.box().text(op[1], elsie.TextStyle(size=op[2] if len(op) > 2 else 28))
    elif op[0] == "inline":
        t = s.box().text("~tt{" + op[1] + "} ~#q{x} end")
        t.inline_box("#q").rect(bg_color="#00ff00")
    elif op[0] == "fit":
        s.box(width=50, height=30).text(op[1], scale_to_fit=True)
    elif op[0] == "tex":
        latex(s.box(), op[1], scale=op[2] if len(op) > 2 else 1)
    else:
        s.box().image(path(op[0], op[1]))


def session(env, d, spec, files):
    prog, ink, els, ttp, kind, mode = spec
    backend = start_session(env, d, ink, els, ttp)
    try:
        for name, data in FILES.items():
            v = [op[1] for op in PROGRAMS[prog] if op[0] == name]
            with open(os.path.join(files, "f." + name), "wb") as f:
                f.write(data(v[0] if v else 0))
        deck = elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=d)
        build(deck, PROGRAMS[prog], lambda kind, v: os.path.join(files, "f." + kind))
        kw = {"prune_cache": mode == "full", "save_cache": mode != "nosave"}
        if mode == "unsaved":
            return None, None
        svgs = [u.get_svg() for u in deck.render(None, return_units=True, prune_cache=False,
                                                 save_cache=False)]
        out = os.path.join(files, "out.pdf")
        res = deck.render(out, export_type=kind, **kw)
        if kind == "pdf":
            return svgs, pdf_pages(read(out))
        return svgs, [read(f) for f in res]
    finally:
        end_session(backend)


def run(case, rec, env):
    kind, hist = case
    rec.state(case)
    d = env.fresh_dir()
    try:
        if kind == "many":
            many(hist, rec, env, d)
        elif kind == "near":
            got, want = near(hist, env, d)
            rec.step(4)
            rec.trace()
            rec.outcome(repr(want))
            for i in (0, 1):
                for g, w in zip(got[i], want[i]):
                    if g != w:
                        rec.fail("the result depends on something similar that was made before", at=i, got=g, want=w)
                        return
        elif kind == "sessions":
            run_sessions(hist, rec, env, d)
        else:
            run_inside(hist, rec, env, d, OPS if kind == "inside" else BIN_OPS)
    finally:
        set_elsie_version(ORIG_VERSION)
        shutil.rmtree(d, ignore_errors=True)


def reference(env, spec, d):
    memo = env.data.setdefault("memo", {})
    key = tuple(spec[:5])
    if key not in memo:
        ref, files = env.fresh_dir("ref"), env.fresh_dir("reff")
        memo[key] = session(env, ref, spec[:5] + ["full"], files)
        shutil.rmtree(ref)
        shutil.rmtree(files)
    return memo[key]


def run_sessions(hist, rec, env, d):
    cache = os.path.join(d, "cache")
    os.mkdir(cache)
    for i, spec in enumerate(hist):
        svgs, out = session(env, cache, spec, d)
        if svgs is None:
            continue
        rsvgs, rout = reference(env, spec, d)
        rec.step(len(svgs) + len(out))
        rec.trace()
        rec.outcome([svgs, repr(out)])
        if svgs != rsvgs:
            rec.fail("pages differ from those with an empty cache", at=i,
                     got=svgs, want=rsvgs, stop=True)
        if out != rout:
            rec.fail("output differs from that with an empty cache", at=i,
                     got=repr(out)[:300], want=repr(rout)[:300], stop=True)


def run_inside(hist, rec, env, d, ops):
    """One session with edits of the sources between the operations; the reference run uses a new
    file for each content, an empty cache and renders nothing before."""
    real = os.path.join(d, "real")
    os.mkdir(real)
    backend = start_session(env, real, 0, 0, 0)
    decks = []
    programs = []
    version = 0
    results = []

    def write(v):
        for name, data in FILES.items():
            with open(os.path.join(d, "f." + name), "wb") as f:
                f.write(data(v))

    def new():
        decks.append(elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=real))
        programs.append([])

    def execute(s, op, path):
        if op[0] == "bytes":
            s.box().image(png_file(op[1]), image_type="png")
        elif op[0] == "io":
            s.box().image(io.BytesIO(png_file(op[1])), image_type="png")
        else:
            draw(s, op, path)

    write(0)
    new()
    slide = decks[0].new_slide()
    cur = 0
    slides = {0: slide}
    try:
        for k in hist:
            op = ops[k]
            if op[0] == "edit":
                version += 1
                write(version)
            elif op[0] == "deck":
                if len(decks) == 1:
                    new()
                    slides[1] = decks[1].new_slide()
                cur = 1 - cur
            elif op[0] in ("render", "file", "prune"):
                out = os.path.join(d, "out.pdf")
                if op[0] == "render":
                    res = [u.get_svg() for u in decks[cur].render(None, return_units=True)]
                else:
                    decks[cur].render(out, prune_cache=op[0] == "prune")
                    res = [t for t, _ in pdf_pages(read(out))]
                results.append((op[0] == "render", [list(x) for x in programs[cur]], res))
            else:
                v = version if len(op) > 1 and op[1] == "e" else (op[1] if len(op) > 1 else None)
                programs[cur].append([op[0], v])
                execute(slides[cur], [op[0], v], lambda kind, v: os.path.join(d, "f." + kind))
    finally:
        end_session(backend)
    for n, (units, prog, res) in enumerate(results):
        want = ref_inside(env, d, prog, units, execute)
        rec.step(len(res))
        rec.trace()
        rec.outcome(res)
        if res != want:
            rec.fail("a rendering differs from that with new files and an empty cache", at=n,
                     program=prog, got=repr(res)[:600], want=repr(want)[:600], stop=True)


def ref_inside(env, d, prog, units, execute):
    memo = env.data.setdefault("memo-inside", {})
    key = (W.elsie.__name__, units, repr(prog))
    if key in memo:
        return memo[key]
    ref = env.fresh_dir("ref")
    backend = start_session(env, ref, 0, 0, 0)
    try:
        deck = elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=ref)
        s = deck.new_slide()

        def path(kind, v):
            p = os.path.join(ref, f"v{v}.{kind}")
            with open(p, "wb") as f:
                f.write(FILES[kind](v))
            return p

        for op in prog:
            execute(s, op, path)
        if units:
            res = [u.get_svg() for u in deck.render(None, return_units=True)]
        else:
            out = os.path.join(ref, "out.pdf")
            deck.render(out)
            res = [t for t, _ in pdf_pages(read(out))]
    finally:
        end_session(backend)
        shutil.rmtree(ref, ignore_errors=True)
    if len(memo) < 3000:
        memo[key] = res
    return res
