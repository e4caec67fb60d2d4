"""C30: the documentation plugin rewrites only elsie fences."""
import base64
import itertools
import os
import re
import shutil
import sys

from .. import fakeink, fakeproc
from .. import world as W
from ..engine import REPO
from .c29_notebook import parse

import elsie

ID = "C30"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of pages over the grammar of fences (all line sequences up to a depth, all block "
             "sequences, the product of all parameters); the real plugin processes every page and the result is "
             "compared line by line with an explicit state machine of fences, every slide with the slide that "
             "the same code gives when it is run directly")
NOTE = "The reference decides which lines form a fence; the code of the slide is run against the library of the same tree."
ASSUMPTIONS = ["an opening fence inside a fence of the same character (and at least the same length) nests (documented "
               "behaviour of the plugin; Markdown itself has no nesting)",
               "Inkscape is replaced by an in-process stand-in; mkdocs is imported with a shim for the missing "
               "jinja2.contextfilter"]
BOUND = {"quick": "all pages of <=5 lines over 13 lines; all sequences of <=3 of 21 blocks; the product of sizes, border, "
                  "debug, skip, type, order of parameters and format; 2 pages in a row; all pages of the documentation of the project",
         "thorough": "pages of <=6 lines, sequences of <=4 blocks"}
CAP = {"quick": 400, "thorough": 9000}

LINES = ["text", "", "```", "~~~", "````", "```python", "~~~elsie,type=lib", "```elsie,type=lib", "```x``` y",
         "  ```elsie , type=lib", "  ```", "````elsie,type=lib", "- \x0c\u2028item  "]
FENCE = re.compile(r"[ \t]*(`{3,}|~{3,})(.*)", re.S)


def delimiter(line):
    m = FENCE.fullmatch(line)
    if not m or (m.group(1)[0] == "`" and "`" in m.group(2)):
        return None
    return m.group(1)[0], len(m.group(1)), m.group(2).strip()


def reference(lines):
    """[line or ("slide", arguments, code, library)]"""
    out, lib = [], []
    i = 0
    while i < len(lines):
        d = delimiter(lines[i])
        if d is None:
            out.append(lines[i])
            i += 1
            continue
        char, length, info = d
        depth, j = 0, i + 1
        while j < len(lines):
            e = delimiter(lines[j])
            if e and e[0] == char and e[1] >= length:
                if e[2]:
                    depth += 1
                elif depth:
                    depth -= 1
                else:
                    break
            j += 1
        if j == len(lines):
            # not closed
            out += lines[i:]
            break
        parts = [p.strip() for p in info.split(",")]
        body = lines[i + 1:j]
        if parts[0] == "elsie":
            args = dict((p.split("=") + ["yes"])[:2] for p in parts[1:])
            out.append(re.sub("elsie.*", "python", lines[i]))
            out += body
            out.append(lines[j])
            if args.get("type", "render") == "lib":
                lib += dedent(body)
            else:
                out.append(("slide", args, body, list(lib)))
        else:
            out += lines[i:j + 1]
        i = j + 1
    return out


def dedent(lines):
    n = min([len(v) - len(v.lstrip()) for v in lines if v.strip()] or [0])
    return [v[n:] for v in lines]


def setup(env):
    import jinja2
    if not hasattr(jinja2, "contextfilter"):
        jinja2.contextfilter = jinja2.pass_context
    path = os.path.join(REPO, "docs", "mkdocs-elsie-plugin")
    if path not in sys.path:
        sys.path.insert(0, path)
    import mkdocs_elsie_plugin
    assert os.path.realpath(mkdocs_elsie_plugin.__file__).startswith(os.path.realpath(REPO) + os.sep)
    env.data["module"] = mkdocs_elsie_plugin
    fakeproc.install()
    fakeproc.WORLD.reset()
    os.environ["ELSIE_INKSCAPE"] = W.FAKE


def cases(tier, env):
    th = tier == "thorough"
    n = len(LINES)
    for k in range(0, 3):
        yield ["lines", [], k]
    for first in itertools.product(range(n), repeat=3 if th else 2):
        yield ["lines", list(first), 3]
    for k in (1, 2, 3, 4) if th else (1, 2, 3):
        for seq in itertools.product(range(len(BLOCKS)), repeat=min(k, 2)):
            yield ["blocks", list(seq), k - len(seq)]
    for fmt in ("svg", "png", None):
        for size in range(len(SIZES)):
            for border in range(len(BORDERS)):
                yield ["params", fmt, size, border]
    for a in range(len(BLOCKS)):
        yield ["pages", a]
    for k in range(len(ERRORS)):
        yield ["error", k]
    # long fences, deep nesting, long pages
    code = ["slide.box(x=@N, y=1, width=2, height=3).rect(bg_color='#112233')"]
    for c in "`~":
        for a in (3, 4, 5, 6, 7, 9, 10, 12, 20):
            for b in (a - 2, a - 1, a, a + 1, a + 7):
                yield ["given", [c * a + "elsie", code[0].replace("@N", str(a)),
                                *(["s = '''", c * b, "'''", c * a, "x"] if b < a else [c * b, "x"])]]
                yield ["given", [c * a + "python"] + [c * b, "```elsie", "pass", "```"] + [c * a, "x"]]
        for d in (2, 3, 4, 5, 8):
            for k in (0, 1, 2):
                nest = [c * 3 + "elsie_%d" % i for i in range(d)] + [c * 3] * (d - k)
                yield ["given", [c * 3 + "md", *nest, c * 3, "between", c * 3 + "elsie,type=lib", "pass", c * 3, "end"]]
    for k in range(len(BLOCKS)):
        for m in ((4, 15) if th else (4,)):
            yield ["blocks", [m] + [k] * (30 if th else 12) + [15, 5] * 4, 0]
    yield ["blocks", [4] + [15] * 60 + [5], 0]
    yield ["blocks", list(range(len(BLOCKS))) * 3, 0]
    docs = os.path.join(REPO, "docs")
    for base, dirs, files in sorted(os.walk(docs)):
        for name in sorted(files):
            if name.endswith(".md"):
                for fmt in ("svg", "png"):
                    yield ["real", os.path.relpath(os.path.join(base, name), docs), fmt]


# the number of the block is substituted for N and C (so that no two lines are equal)
BLOCKS = [
    ["text @N"],
    [""],
    ["```elsie", "slide.box(x=@N, y=20, width=30, height=40).rect(bg_color='@C')", "```"],
    ["~~~elsie,width=100,height=@N0", "box = slide.box(show='2')", "", "box.rect(color='@C')", "~~~"],
    ["```elsie,type=lib", "def draw(box):", "    box.rect(bg_color='@C')", "```"],
    ["```elsie", "try:", "    draw(slide.box(x=@N, y=2, width=3, height=4))", "except NameError:", "    slide.box(x=@N, y=9, width=9, height=9).rect(color='@C')", "```"],
    ["```python", "```elsie", "slide.fail_@N()", "```", "```"],
    ["~~~markdown", "```elsie", "slide.fail_@N()", "```", "~~~"],
    ["````md", "```", "```elsie", "slide.fail_@N()", "```", "````"],
    ["```c", "~~~elsie", "slide.fail_@N()", "~~~", "```"],
    ["- item @N", "  ```elsie,border=no", "  for x in (1, 2):", "    slide.box(x=@N, y=x, width=7, height=7).rect(bg_color='@C')", "", "    del x", "  ```"],
    ["~~~elsie,width=400", "text = '''", "```python", "@N", "```", "'''", "assert text.count('`') == 6",
     "slide.box(x=@N, y=20, width=len(text), height=40).rect(bg_color='@C')", "~~~"],
    ["````elsie", "s = '''", "```", "'''", "slide.box(x=@N, y=20, width=len(s), height=40).rect(bg_color='@C')", "`````"],
    ["```elsie", "```"],
    ["```elsie", "slide = slides.new_slide(bg_color='@C')", "slide.box().rect(color='red')", "```"],
    ["    ```elsie,type=lib", "    import os", "", "    base = @N", "    ```"],
    ["```elsie,skip=1", "import nothing_@N", "slide.box(x=@N, y=1, width=1, height=1).rect(bg_color='@C')", "```", "no fence: ``` @N"],
    ["``` elsie, border=no ", "slide.box(x=@N, y=1, width=1, height=1).rect(bg_color='@C')", "```  "],
    ["```elsie_@N", "slide.fail_@N()", "```", "`elsie`", "elsie", "```", "plain @N", "```"],
    ["~~~elsie", "s = '''", "~~~python", "~~~", "'''", "slide.box(x=@N, y=1, width=len(s), height=1).rect(bg_color='@C')", "~~~"],
    ["```elsie", "here = __import__('os').getcwd()", "slide.box(x=@N, y=1, width=len(here), height=here.endswith('docs')).rect(bg_color='@C')", "```"],
]
SIZES = [{}, {"width": "400"}, {"height": "120"}, {"width": "100", "height": "50"}, {"height": "50", "width": "100"}]
BORDERS = [{}, {"border": "no"}, {"border": "yes"}, {"border": None}]
DEBUGS = [{}, {"debug": None}, {"debug": "yes"}, {"debug": "no"}]
SKIPS = [None, "0", "1", "2", "0:2", "1:-1", "1:", ":3", ":", ":-1", "-2", "-2:", "3:"]
TYPES = [{}, {"type": "render"}]
ERRORS = [["```elsie", "1 / 0", "```"], ["```elsie", "if", "```"], ["```elsie", "slide.box(x=1).rect(bg_color='red'", "```"],
          ["```elsie", "import os", "os.chdir('/')", "raise KeyError(1)", "```"]]


def block(k, number):
    c = "#%06x" % (0x3060 * number + 0x111)
    return [v.replace("@N", str(number)).replace("@C", c) for v in BLOCKS[k]]


def plugin(env, fmt):
    p = env.data["module"].ElsiePlugin()
    # as MkDocs does it with the options of mkdocs.yml
    errors, _warnings = p.load_config({} if fmt is None else {"render_format": fmt})
    assert not errors, errors
    return p


def process(env, p, src):
    docs = env.data.get("docs")
    if docs is None or env.data["used"] > 300:
        docs = env.data["docs"] = os.path.join(env.fresh_dir("site"), "docs")
        os.mkdir(docs)
        env.data["used"] = 0
        fakeproc.WORLD.reset()
    env.data["used"] += 1
    cwd = os.getcwd()
    try:
        return p.on_page_markdown(src, page=None, config={"docs_dir": docs})
    finally:
        after = os.getcwd()
        if after != cwd:
            os.chdir(cwd)
            raise AssertionError("the working directory is changed to %s" % after)


def run(case, rec, env):
    kind = case[0]
    rec.state(case)
    if kind == "lines":
        p = plugin(env, "svg")
        for tail in itertools.product(LINES, repeat=case[2]):
            lines = [LINES[i] for i in case[1]] + list(tail)
            for end in ([], [""]) if len(lines) < 4 else ([],):
                src = "\n".join(lines + end)
                want = "\n".join(reference(lines + end))
                got = process(env, p, src)
                rec.step()
                if got != want:
                    rec.fail("the page is changed", page=src, got=got, want=want)
                    return
            rec.count("pages")
        rec.outcome(len(case[1]))
    elif kind == "given":
        page(rec, env, plugin(env, "svg"), case[1], "svg")
    elif kind == "blocks":
        for tail in itertools.product(range(len(BLOCKS)), repeat=case[2]):
            seq = case[1] + list(tail)
            lines = [v for i, k in enumerate(seq) for v in block(k, i + 1)]
            if not page(rec, env, plugin(env, "svg"), lines, "svg"):
                return
    elif kind == "params":
        fmt = case[1]
        a, b = SIZES[case[2]], BORDERS[case[3]]
        code = ["box = slide.box(x=3, y=20, width=30, height=40)", "box.rect(bg_color='#123456')", "    ",
                "slide.box(show='2').box(width=5, height=6).rect(color='#654321')", "# end"]
        for k, (d, skip, t) in enumerate(itertools.product(DEBUGS, SKIPS, TYPES)):
            body = code
            if skip == "-2" or skip == "-2:":
                body = code[:2] + ["box.", "box = slide", "box.rect(color='red')"]
            elif skip in ("1", "1:", "1:-1"):
                body = ["import nothing"] + code + (["also ignored"] if skip == "1:-1" else [])
            elif skip in ("2", "3:"):
                body = ["raise"] * int(skip[0]) + ["  " + v for v in code]
            elif skip == "0:2":
                body = code[:2] + ["raise"]
            elif skip == ":3":
                body = code[:3] + ["raise"]
            elif skip == ":-1":
                body = code + ["raise"]
            args = {**a, **b, **d, **t}
            if skip is not None:
                args["skip"] = skip
            items = list(args.items())
            if k % 2:
                items.reverse()
            head = "".join("," + n + ("=" + v if v is not None else "") for n, v in items)
            lines = ["before", "```elsie" + head] + body + ["```", "after"]
            if not page(rec, env, plugin(env, fmt), lines, fmt or "svg"):
                return
    elif kind == "pages":
        p = plugin(env, "svg")
        for k in range(len(BLOCKS)):
            if not page(rec, env, p, block(case[1], 1), "svg") or not page(rec, env, p, block(k, 2), "svg"):
                return
    elif kind == "real":
        # the pages of the documentation of the project
        docs = os.path.join(env.fresh_dir("site"), "docs")
        shutil.copytree(os.path.join(REPO, "docs"), docs, ignore=shutil.ignore_patterns("elsie-cache"))
        env.data.update(docs=docs, used=0)
        fakeproc.WORLD.reset()
        with open(os.path.join(docs, case[1]), encoding="utf-8") as f:
            src = f.read()
        try:
            page(rec, env, plugin(env, case[2]), src.split("\n"), case[2])
        finally:
            env.data["docs"] = None
    else:
        lines = block(2, 1)
        for e in (False, True):
            try:
                process(env, plugin(env, "svg"), "\n".join(lines + ERRORS[case[1]]))
            except AssertionError:
                raise
            except Exception as x:
                rec.outcome(type(x).__name__)
            else:
                rec.fail("an error in the code of a slide is hidden")
        page(rec, env, plugin(env, "svg"), lines, "svg")


def page(rec, env, p, lines, fmt):
    rec.step()
    want = reference(lines)
    src = "\n".join(lines)
    got = process(env, p, src).split("\n")
    pos = 0
    for i, w in enumerate(want):
        if isinstance(w, str):
            if pos >= len(got) or got[pos] != w:
                rec.fail("line %d of the page is wrong" % (pos + 1), page=src, got=got[pos:pos + 5], want=w)
                return False
            pos += 1
            continue
        while pos < len(got) and not got[pos].strip():
            pos += 1
        html = []
        while pos < len(got):
            if (html and html[-1].rstrip().endswith(">") and not got[pos].lstrip().startswith("<")
                    and not parse("\n".join(html))[2]):
                break
            html.append(got[pos])
            pos += 1
        if not slide(rec, env, "\n".join(html), w, fmt, src):
            return False
        # an empty line that follows the slide does not change the page
        nxt = want[i + 1:i + 2]
        while pos < len(got) and not got[pos] and (not nxt or nxt[0] != ""):
            pos += 1
    if pos != len(got):
        rec.fail("the page has more lines", page=src, got=got[pos:][:5])
        return False
    rec.trace()
    rec.count("pages")
    return True


def slide(rec, env, html, item, fmt, src):
    _, args, body, lib = item
    tree, pages, errors = parse(html)
    if errors or not pages:
        rec.fail("the slide is not shown below its code", page=src, html=html[:500], errors=errors)
        return False
    skip = args.get("skip")
    if skip is not None:
        body = body[slice(*[int(v) if v else None for v in skip.split(":")])] if ":" in skip else body[int(skip):]
    docs = env.data["docs"]
    deck = elsie.SlideDeck(width=int(args.get("width", 300)), height=int(args.get("height", 300)), name_policy="ignore",
                           cache_dir=os.path.join(docs, "elsie-cache"))
    first = deck.new_slide(bg_color="white", debug_boxes=args.get("debug", "no") == "yes")
    if args.get("border", "yes") == "yes":
        first.rect(color="black")
    cwd = os.getcwd()
    os.chdir(docs)
    try:
        exec("\n".join(lib + [""] + dedent(body)), {"elsie": elsie, "Box": type(first), "slides": deck, "slide": first})
    finally:
        os.chdir(cwd)
    last = deck._slides[-1]
    units = deck.render(output=None, return_units=True, select_slides=[last], prune_cache=False)
    svgs = [u.get_svg() for u in units]
    if len(pages) != len(svgs):
        rec.fail("the number of pages of the slide is wrong", page=src, got=len(pages), want=len(svgs))
        return False
    for k, (g, s) in enumerate(zip(pages, svgs)):
        if fmt == "svg":
            ref = parse(s)[1][0]
            if clean(g) != clean(ref):
                rec.fail("the slide differs from the one that its code makes", page=src, got=html[:800], want=s[:800])
                return False
        else:
            data = base64.b64decode(re.sub(r"^data:image/png;base64,|\s", "", g[1].get("src", "")))
            if data != fakeink.export_bytes(s.encode(), "png", fakeink.VERSION):
                rec.fail("the slide differs from the one that its code makes", page=src, got=k, want=s[:800])
                return False
    rec.outcome((tuple(sorted(args)), len(pages)))
    return True


def clean(n):
    if isinstance(n, str):
        return n.strip()
    return [n[0], {k: v for k, v in n[1].items() if k != "data-mc-page"}, [clean(c) for c in n[2] if clean(c)]]
