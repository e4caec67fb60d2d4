"""C29: the notebook view always shows exactly the current fragment."""
import base64
import io
import itertools
import json
import os
import re
import subprocess
from html.parser import HTMLParser

from PIL import Image

from .. import cairoobs, svgobs
from .. import world as W

ID = "C29"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of click sequences on the generated page: its HTML is loaded into a DOM, its "
             "JavaScript is executed by node, and the visible page, the counter and the buttons are compared with "
             "the reference after every click of every sequence")
NOTE = ("The script that is explored is the one the library generates; the DOM is a small implementation that "
        "supports selectors, events, inline styles, classes, hidden/disabled and display rules of style sheets.")
ASSUMPTIONS = ["browsers dispatch no click to a disabled button",
               "PNG pages of the Inkscape backend come from the stand-in and are identified by the drawing they "
               "were made from"]
BOUND = {"quick": "1-6, 10 and 11 fragments, 1-3 outputs on a page, all click sequences of depth 8 (2 buttons), 5 (4), 3 (6); 4 "
                  "ways of display, SVG and PNG, both backends; all histories of <=3 of {display, add fragment}",
         "thorough": "1-9 fragments, depth 12/6/5, histories of <=4"}
VOID = {"img", "br", "hr", "input", "meta", "link"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, env):
    th = tier == "thorough"
    how = ["repr", "box", "svg", "png", "cairo"]
    for n in range(1, 10 if th else 7):
        for h in how:
            for inc in (0, 1):
                yield ["one", n, h, inc, 12 if th else 8]
    # numbers with two digits
    for n in (10, 11, 12) if th else (10, 11):
        for h in how if th else how[2:]:
            for inc in (0, 1):
                yield ["one", n, h, inc, n + 1, "long"]
    # numbers beyond the usual limits
    for n in (13, 16, 17, 25, 33, 65, 101):
        yield ["one", n, "svg", n % 2, 0, "walks"]
    for a, b in itertools.product(range(1, 5 if th else 4), repeat=2):
        for h in how[2:]:
            for same in (0, 1):
                for inc in (0, 1) if th or h == "svg" else (0,):
                    yield ["two", [a, b], h, same, inc, 6 if th else 5 if h == "svg" else 3]
    for ns in itertools.product((1, 2, 3), repeat=3):
        for inc in (0, 1):
            yield ["two", list(ns), "svg", 0, inc, 5 if th else 3]
            yield ["two", list(ns), "svg", 1, inc, 4 if th else 3]
    # the same slide again and again, with additions between
    for k in (2, 3, 4) if th else (2, 3):
        for seq in itertools.product(("show0", "show1", "add0", "add1", "next0"), repeat=k):
            if sum(s[:4] == "show" for s in seq):
                yield ["again", list(seq), k % 2, 4]
    for s in range(len(HARD)):
        for h in how:
            yield ["hard", s, h, 4]


HARD = [{"text": "</div></script><script>alert(1)</script>"}, {"text": "step-1 elsie-next .elsie-step"},
        {"name": "a'b\"c<d>"}, {"view_box": (1, 2, 30, 40)}, {"debug_boxes": True}, {"title": "x" * 80},
        {"text": "\u00e9\u6f22 & &amp; <b>"}]


class Parser(HTMLParser):
    """HTML -> [tag, attributes, children]"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ["div", {"data-mc": "output"}, []]
        self.stack = [self.root]
        self.errors = []

    def handle_starttag(self, tag, attrs):
        node = [tag, {k: v or "" for k, v in attrs}, []]
        self.stack[-1][2].append(node)
        if tag not in VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        # only foreign elements close themselves
        node = [tag, {k: v or "" for k, v in attrs}, []]
        self.stack[-1][2].append(node)
        if tag not in VOID and not any(n[0] == "svg" for n in self.stack) and tag != "svg":
            self.stack.append(node)

    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i][0] == tag:
                if i != len(self.stack) - 1:
                    self.errors.append("unclosed " + self.stack[-1][0])
                del self.stack[i:]
                return
        self.errors.append("unexpected end tag " + tag)

    def handle_data(self, data):
        self.stack[-1][2].append(data)


def parse(html):
    p = Parser()
    p.feed(html)
    p.close()
    if len(p.stack) != 1:
        p.errors.append("unclosed " + p.stack[-1][0])
    pages = []

    def walk(node):
        for c in node[2]:
            if isinstance(c, list):
                if c[0] in ("svg", "img"):
                    c[1]["data-mc-page"] = str(len(pages) + 1)
                    pages.append(c)
                else:
                    walk(c)
    walk(p.root)
    return p.root, pages, p.errors


def fills(node, marks):
    res = []

    def walk(n):
        v = n[1].get("fill") or svgobs.parse_style(n[1].get("style")).get("fill")
        if v in marks:
            res.append(v)
        for c in n[2]:
            if isinstance(c, list):
                walk(c)
    walk(node)
    return res


def strip(node):
    """Without the contents of pages (they are not needed in the DOM)."""
    tag, at, children = node
    if "data-mc-page" in at:
        return [tag, at, []]
    return [tag, at, [strip(c) if isinstance(c, list) else c for c in children]]


def setup(env):
    env.data["node"] = subprocess.Popen(["node", os.path.join(HERE, "notebook.js")], stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, universal_newlines=True)


def teardown(env):
    p = env.data.pop("node", None)
    if p is not None:
        p.stdin.close()
        p.wait(20)
        p.stdout.close()


def ask(env, **req):
    p = env.data["node"]
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    ans = json.loads(p.stdout.readline())
    return ans


COLORS = ["#%02x%02x80" % (40 * (i % 6) + 10, i + 10) for i in range(130)]


class Slide:
    def __init__(self, deck, n, backend, **kw):
        text = kw.pop("text", None)
        kw.pop("title", None)
        self.slide = deck.new_slide(**kw)
        self.n = 0
        self.inner = self.slide.box(width="fill", height="fill")
        for _ in range(n):
            self.add()
        if text:
            self.slide.overlay().text(text)

    def add(self, sel=None):
        self.n += 1
        self.inner.overlay(show=str(self.n)).rect(bg_color=COLORS[self.n])


def display(s, how):
    from elsie.render.jupyter import render_slide_html

    if how == "repr":
        return s.slide.slide._repr_html_()
    if how == "box":
        return s.inner._repr_html_()
    return render_slide_html(s.slide.slide, "svg" if how == "svg" else "png")


def run(case, rec, env):
    kind = case[0]
    rec.state(case)
    outputs, counts = [], []
    html_kw = {}

    def deck_for(how, **kw):
        d = env.fresh_dir("nb")
        if how == "cairo":
            import elsie
            from elsie.render.backends import CairoBackend
            return elsie.SlideDeck(backend=CairoBackend(cache_dir=d), cache_dir=d, width=40, height=30, **kw)
        return W.new_deck(env, width=40, height=30, **kw)

    def show(s, how):
        html = display(s, how)
        tree, pages, errors = parse(html)
        if errors:
            rec.fail("the HTML is not well-formed: %s" % errors[0], html=html[:1500])
            return False
        counts.append(s.n)
        if len(pages) != s.n:
            rec.fail("%d pages in the HTML of a slide with %d" % (len(pages), s.n), html=html[:1500])
            return False
        for k, page in enumerate(pages, 1):
            if not right_page(rec, page, k, s, how, env):
                return False
        outputs.append(strip(tree))
        return True

    if kind == "one":
        _, n, how, inc, depth = case[:5]
        deck = deck_for(how)
        deck.new_slide()
        s = Slide(deck, n, how)
        deck.new_slide().box(show="5")
        if not show(s, how):
            return
    elif kind == "two":
        _, ns, how, same, inc, depth = case
        deck = deck_for(how)
        slides = []
        for n in ns:
            if not same:
                deck = deck_for(how)
            # (equal names in one deck: the displayed slide is the one that counts)
            slides.append(Slide(deck, n, how, **({"name": "s"} if same else {})))
        for s in slides:
            if not show(s, how):
                return
    elif kind == "again":
        _, seq, inc, depth = case
        deck = deck_for("svg")
        slides = [Slide(deck, 1, "svg", name="n"), Slide(deck, 2, "svg", name="n")]
        for op in seq:
            s = slides[int(op[-1])]
            if op[:4] == "show":
                if not show(s, "svg"):
                    return
            elif op[:4] == "next":
                s.n += 1
                s.inner.box(show="next").overlay().rect(bg_color=COLORS[s.n])
            else:
                s.n += 1
                s.slide.overlay(show=str(s.n)).rect(bg_color=COLORS[s.n])
    else:
        _, k, how, depth = case
        inc = 0
        deck = deck_for(how)
        if not show(Slide(deck, 3, how, **HARD[k]), how):
            return
    if len(outputs) > 2:
        depth = min(depth, 5 if env.tier == "thorough" else 3)
    walks = None
    if "walks" in case:
        walks = [[b] * a + [1 - b] * c + [b, b] for b in (0, 1) for a in (n - 2, n - 1, n + 1) for c in (1, 2, n + 1)]
    ans = ask(env, outputs=outputs, incremental=bool(inc), depth=depth, walks=walks)
    if "error" in ans:
        rec.fail("the script of the page fails: " + ans["error"].splitlines()[0], error=ans["error"])
        return
    # every output with several pages has two buttons, the others none
    per = [sum(1 for o, _ in ans["buttons"] if o == i) for i in range(len(outputs))]
    rec.expect(per, [2 if n > 1 else 0 for n in counts], "buttons of the outputs")
    role = roles(outputs, ans["buttons"])

    def check(cur, obs, seq):
        for i, (visible, disabled, text) in enumerate(obs):
            if visible != [cur[i]]:
                rec.fail("visible pages of output %d after clicks %s" % (i, seq), got=visible, want=[cur[i]])
                return False
            if counts[i] == 1:
                if text:
                    rec.fail("an output with one page has text or controls", got=text)
                    return False
                continue
            want = [cur[i] <= 1, cur[i] >= counts[i]]
            have = [None, None]
            for j, d in enumerate(disabled):
                have[role[i, j]] = d
            if have != want:
                rec.fail("disabled buttons (previous, next) of output %d after clicks %s" % (i, seq), got=have, want=want)
                return False
            m = re.search(r"\d+", text)
            if not m or int(m.group()) != cur[i]:
                rec.fail("counter of output %d after clicks %s" % (i, seq), got=text, want=cur[i])
                return False
        return True

    if not check([1] * len(outputs), ans["initial"], []):
        return
    for seq, obs in ans["traces"]:
        cur = [1] * len(outputs)
        rec.trace()
        for k, b in enumerate(seq):
            o, j = ans["buttons"][b]
            cur[o] = min(max(cur[o] + (1 if role[o, j] else -1), 1), counts[o])
            if obs[k] is None:
                continue
            rec.step()
            if not check(cur, obs[k], seq[:k + 1]):
                return
        rec.state(tuple(cur))
    rec.outcome((tuple(counts), len(ans["traces"])))


def roles(outputs, buttons):
    """(output, button) -> 0 for previous, 1 for next; by class, else by order."""
    res = {}
    for i, out in enumerate(outputs):
        found = []

        def walk(n):
            for c in n[2]:
                if isinstance(c, list):
                    if c[0] == "button":
                        found.append(c)
                    walk(c)
        walk(out)
        for j, b in enumerate(found):
            name = " ".join(b[1].values()).lower()
            res[i, j] = 0 if "prev" in name else 1 if "next" in name else j
    return res


def right_page(rec, page, k, s, how, env):
    want = COLORS[k]
    if page[0] == "svg":
        got = fills(page, COLORS)
        if got != [want]:
            rec.fail("page %d of the HTML shows the wrong fragment" % k, got=got, want=[want])
            return False
        return True
    m = re.match(r"data:image/png;base64,\s*(.*)$", page[1].get("src", ""), re.S)
    if not m:
        rec.fail("page %d is not an embedded PNG" % k, got=page[1].get("src", "")[:100])
        return False
    data = base64.b64decode(re.sub(r"\s", "", m.group(1)), validate=True)
    if how == "cairo":
        im = Image.open(io.BytesIO(data)).convert("RGB")
        colors = sorted(im.getcolors(1 << 20))
        px = "#%02x%02x%02x" % [c for _, c in colors if max(c) - min(c) > 20][-1]
        if any(abs(int(px[i:i + 2], 16) - int(want[i:i + 2], 16)) > 2 for i in (1, 3, 5)):
            rec.fail("page %d of the HTML shows the wrong fragment" % k, got=px, want=want)
            return False
        return True
    from .. import fakeink

    svgs = W.svgs(s.slide.slide.slides, select_slides=[s.slide.slide])
    if data != fakeink.export_bytes(svgs[k - 1].encode(), "png", fakeink.VERSION):
        tags = [fakeink.export_bytes(v.encode(), "png", fakeink.VERSION) == data for v in svgs]
        rec.fail("page %d of the HTML shows the wrong fragment" % k, got=tags)
        return False
    return True
