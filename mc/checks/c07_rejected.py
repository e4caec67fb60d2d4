"""C07: a rejected call leaves no trace."""
import itertools
import os

from .. import world as W

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (program, position, rejected call) histories; final deck "
             "compared with the same history without the rejected call")
NOTE = ("Each of ~130 rejected calls is made at every position of three base programs (and every "
        "pair of rejected calls of a reduced alphabet); afterwards counters, slides, names, styles "
        "and every rendered page must equal those of the history without it. Decided on the real "
        "code by differential execution. A call that is not rejected is not judged.")
ASSUMPTIONS = ["calls covered: deck, box, drawing, text, image, style and list-builder calls "
               "(composite helpers such as ext.markdown build step by step)"]
BOUND = {"quick": "3 programs x 10 positions x ~130 calls x 3 targets; pairs of 22 calls",
         "thorough": "all pairs of calls at two pairs of positions"}

GOOD = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape="
        "'http://www.inkscape.org/namespaces/inkscape' width='40' height='20'>"
        "<g inkscape:label='a**2'><rect fill='#a00002' x='3' width='5' height='5'/></g></svg>")
BAD = {
    "label.svg": GOOD.replace("a**2", "a**x"),
    "label2.svg": GOOD.replace("a**2", "a**3-1"),
    "nosize.svg": "<svg xmlns='http://www.w3.org/2000/svg'></svg>",
    "halfsize.svg": "<svg xmlns='http://www.w3.org/2000/svg' width='90'></svg>",
    "badsize.svg": "<svg xmlns='http://www.w3.org/2000/svg' width='90' height='x%'></svg>",
    "malformed.svg": "<svg xmlns='http://www.w3.org/2000/svg' width='90' height='70'>",
    "zero.svg": "<svg xmlns='http://www.w3.org/2000/svg' width='0' height='70'></svg>",
    "zero2.svg": "<svg xmlns='http://www.w3.org/2000/svg' width='70' height='0'></svg>",
    "x.gif": "GIF", "bad.png": "not a png", "bad.ora": "not a zip", "empty.svg": "",
}


def setup(env):
    d = env.fresh_dir("img")
    env.data["dir"] = d
    for k, v in BAD.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(v)
    with open(os.path.join(d, "good.svg"), "w") as f:
        f.write(GOOD)
    # an ORA without a stack
    import zipfile

    with zipfile.ZipFile(os.path.join(d, "nostack.ora"), "w") as z:
        z.writestr("mimetype", "image/openraster")
    env.data["memo"] = {}


def rejects():
    """name -> (function of (world, box) that is expected to raise, kinds of targets)"""
    r = {}

    def add(name, fn, targets="b"):
        assert name not in r
        r[name] = (fn, targets)

    for i, s in enumerate(["abc", "", "3-1", "1+,2+", "next-1x", "1;2", "+", "9-", "**", [7],
                           8.5, (9,), "7,x", "9+,b"]):
        add(f"show{i}", lambda w, b, s=s: b.box(show=s), "bs")
        add(f"showp{i}", lambda w, b, s=s: b.box(show=s, prepend=True, width=300, height=99))
    for i, v in enumerate(["abc", "50px", "-5", "5%%", "fill(", "fill()", [], (1, 2), "1.5%", {1}]):
        add(f"width{i}", lambda w, b, v=v: b.box(width=v or "q", show="next"), "bs")
        add(f"height{i}", lambda w, b, v=v: b.box(height=v or "q", width=700, show="8"))
    for i, v in enumerate(["abc", "-5", "[10]", "[a%]", "", [1], "10%x"]):
        add(f"x{i}", lambda w, b, v=v: b.box(x=v, show="next+"), "bs")
        add(f"y{i}", lambda w, b, v=v: b.box(y=v, width=500))
        add(f"xprep{i}", lambda w, b, v=v: b.box(x=v, prepend=True, show="9"))
    other = {"foreign": lambda w, b: w.first.box, "none-str": lambda w, b: "box"}
    for how in ("above", "below"):
        add(f"{how}-self", lambda w, b, h=how: b.box(width=444, height=333, show="9", **{h: b}))
        add(f"{how}-str", lambda w, b, h=how: b.box(show="next", height=50, **{h: "box"}), "bs")
        add(f"{how}-slide", lambda w, b, h=how: b.box(show="next", height=50, **{h: w.slide}))
        add(f"{how}-int", lambda w, b, h=how: b.box(width="fill", height="fill", **{h: 5}))
        add(f"{how}-fill", lambda w, b, h=how: b.overlay(show="7", **{h: w.slide}))
    add("both", lambda w, b: b.box(height=60, show="next", above=w.kid(b), below=w.kid(b)), "bs")
    add("both-prep", lambda w, b: b.box(height=60, prepend=True, above=w.kid(b), below=w.kid(b)))
    add("overlay", lambda w, b: b.overlay(show="x"))
    add("overlay2", lambda w, b: b.overlay(x="x", show="8"))
    add("fbox", lambda w, b: b.fbox(show="8-", prepend=True))
    add("sbox", lambda w, b: b.sbox(above="x", show="next"), "bs")
    add("sbox2", lambda w, b: b.sbox(height="%"))
    add("kwarg", lambda w, b: b.box(colour=3), "bs")
    # text
    T = W.elsie.TextStyle
    add("t-style", lambda w, b: b.text("wide wide wide text\n\n", "nostyle"), "bs")
    add("t-inline", lambda w, b: b.text("wide wide wide ~nostyle{text}\n\n\n"), "bs")
    add("t-inline2", lambda w, b: b.text("~emph{wide ~nostyle{text}}\n\n\n", scale_to_fit=True))
    add("t-unbal", lambda w, b: b.text("wide wide wide ~emph{text"), "bs")
    add("t-noname", lambda w, b: b.text("wide ~"), "bs")
    add("t-esc", lambda w, b: b.text("wide wide", escape_char="~~"))
    add("t-obj", lambda w, b: b.text("wide wide", 5))
    add("t-size", lambda w, b: b.text("wide wide", T(size="a")))
    add("t-none", lambda w, b: b.text(None))
    add("c-lang", lambda w, b: b.code("nolang", "wide wide\n\n\n\n"), "bs")
    add("c-style", lambda w, b: b.code("python", "wide = 5", style="nostyle"), "bs")
    add("c-inline", lambda w, b: b.code("python", "w ~nostyle{= 5}\n\n", use_styles=True))
    add("c-unbal", lambda w, b: b.code("python", "w ~emph{= 5\n\n", use_styles=True))
    add("c-unbal2", lambda w, b: b.code("", "w ~emph{= 5\n\n", use_styles=True))
    add("c-esc", lambda w, b: b.code("python", "w", escape_char=""))
    add("c-lineno", lambda w, b: b.code("", "a ~nostyle{x}", use_styles=True, line_numbers=True))
    for i, v in enumerate(["missing", "", "#nope", "emph "]):
        add(f"ib{i}", lambda w, b, v=v: w.text.inline_box(v, show="next"), "w")
    add("ib-nth", lambda w, b: w.text.inline_box("#m", n_th=3, show="next"), "w")
    add("ib-nth0", lambda w, b: w.text.inline_box("#m", n_th=0), "w")
    add("ib-show", lambda w, b: w.text.inline_box("#m", show="x"), "w")
    add("ib-x", lambda w, b: w.text.inline_box("#m", x="q", show="8"), "w")
    add("ib-above", lambda w, b: w.text.inline_box("#m", above=w.first, show="8"), "w")
    add("lb-show", lambda w, b: w.text.line_box(0, show="4-2"), "w")
    add("lb-h", lambda w, b: w.text.line_box(0, height="q", show="next"), "w")
    add("lb-below", lambda w, b: w.text.line_box(0, below="q", show="next"), "w")
    add("lb-kw", lambda w, b: w.text.line_box(0, q=1, show="next"), "w")
    # drawings
    pts = [[(0, 0)], [(0, 0), 5], [(0, 0), (1, "a")], [(0, 0), (1, 2, 3)], [(0, 0), None],
           [("x", 0), (0, 0)], []]
    for i, p in enumerate(pts):
        add(f"line{i}", lambda w, b, p=p: b.line(p), "bs" if i < 3 else "b")
        if i not in (0, 6):
            add(f"poly{i}", lambda w, b, p=p: b.polygon(p, bg_color="red"))
    cmds = [[("X", (0, 0))], [("M", 5)], [("Q", (0, 0))], [("M", (0, 0)), ()], ["M"],
            [("C", (0, 0), (1, 1), "ab")], [("M", (0, 0)), ("S", (1, 1))], [5], 5]
    for i, c in enumerate(cmds):
        add(f"path{i}", lambda w, b, c=c: b.path(c), "bs" if i < 2 else "b")
    # images
    for name in BAD:
        add("img-" + name, lambda w, b, n=name: b.image(w.img(n)), "bs")
    add("img-missing", lambda w, b: b.image(w.img("missing.svg")), "bs")
    add("img-missing2", lambda w, b: b.image(w.img("missing.png")))
    add("img-missing3", lambda w, b: b.image(w.img("missing.ora")))
    add("img-nostack", lambda w, b: b.image(w.img("nostack.ora")))
    add("img-type", lambda w, b: b.image(w.img("good.svg"), image_type="tiff"))
    add("img-bytes", lambda w, b: b.image(b"abc"))
    add("img-bytes2", lambda w, b: b.image(b"abc", image_type="svg"))
    add("img-bytes3", lambda w, b: b.image(b"abc", image_type="png"))
    add("img-begin", lambda w, b: b.image(w.img("good.svg"), show_begin="2"), "bs")
    add("img-begin2", lambda w, b: b.image(w.img("good.svg"), show_begin=None))
    add("img-select", lambda w, b: b.image(w.img("good.svg"), select_fragments=7))
    add("img-scale", lambda w, b: b.image(w.img("good.svg"), scale="q"))
    add("img-asp", lambda w, b: b.image(w.img("good.svg"), image_type="png"))
    add("img-repaired", lambda w, b: w.repaired(b))
    add("img-repaired2", lambda w, b: w.repaired(b, "nosize.svg"))
    add("img-repaired3", lambda w, b: w.repaired(b, "label.svg"))
    # styles
    add("set-type", lambda w, b: b.set_style("default", {"size": 90}), "bsd")
    add("set-name", lambda w, b: b.set_style(5, T(size=90)), "bsd")
    add("set-base", lambda w, b: b.set_style("default", T(size=90), base="nostyle"), "bsd")
    add("upd-type", lambda w, b: b.update_style("default", {"size": 90}), "bsd")
    add("upd-none", lambda w, b: b.update_style("default", None), "bsd")
    add("upd-miss", lambda w, b: b.update_style("nostyle", T(size=90)), "bsd")
    add("get-miss", lambda w, b: b.get_style("nostyle"), "bsd")
    # deck
    add("ns-view", lambda w, b: w.deck.new_slide("dup", view_box=(1, 2, 3)), "d")
    add("ns-view2", lambda w, b: w.deck.new_slide("first", view_box=5, bg_color="red"), "d")
    add("ns-view3", lambda w, b: w.deck.new_slide("first", view_box=(1, 2, 3, "a")), "d")
    add("ns-view4", lambda w, b: w.deck.new_slide("z", view_box=[0, 0, 1, 1]), "d")
    add("ns-dup", lambda w, b: w.unique and w.deck.new_slide("first"), "d")
    add("ns-noname", lambda w, b: w.replace and w.deck.new_slide(), "d")
    add("ns-type", lambda w, b: w.deck.new_slide(5), "d")
    add("ns-type2", lambda w, b: w.deck.new_slide(["first"]), "d")
    add("ns-kw", lambda w, b: w.deck.new_slide("zz", colour="red"), "d")
    add("dec", lambda w, b: w.deck.slide("first", view_box=3)(lambda s: s.text("x")), "d")
    # lists
    add("li-show", lambda w, b: w.list.item(show="q"), "l")
    add("li-show2", lambda w, b: w.list.item(show="9+,8+"), "l")
    add("li-label", lambda w, b: w.list.item(label=5), "l")
    add("li-label2", lambda w, b: w.list.item(label=[1], show="next+"), "l")
    add("li-kw", lambda w, b: w.list.item(colour=3), "l")
    add("li-width", lambda w, b: w.list.item(width="q"), "l")
    add("li-height", lambda w, b: w.list.item(height="q", show="next"), "l")
    add("li-above", lambda w, b: w.list.item(above=w.first), "l")
    add("li-x", lambda w, b: w.list.item(x=3), "l")
    add("li-bad-label", lambda w, b: w.list.item(label="~nostyle{a}", show="8"), "l")
    add("li-bad-label2", lambda w, b: w.list.item(label="~emph{a"), "l")
    add("ul-show", lambda w, b: w.list.ul(show="q"), "l")
    add("ol-start", lambda w, b: w.list.ol(start=0), "l")
    add("ol-start2", lambda w, b: w.list.ol(start="a", show="next+"), "l")
    add("ol-level", lambda w, b: w.list.ol(level=5), "l")
    add("ol-level2", lambda w, b: w.list.ol(level=5, show="next+", height=40), "l")
    add("ol-indent", lambda w, b: w.list.ol(indent="a", show="next+"), "l")
    add("ol-kw", lambda w, b: w.list.ol(level=(1,), q=3), "l")
    add("ol-label", lambda w, b: w.list.ol(label="1", above="x", show="9"), "l")
    add("list-start", lambda w, b: W_ol(b, start="a"), "bs")
    add("list-start2", lambda w, b: W_ol(b, start=None), "b")
    return r


def W_ol(b, **kw):
    from elsie.ext import ordered_list

    return ordered_list(b, **kw)


REJ = rejects()
QUICK_PAIR = ["show0", "showp3", "width0", "x0", "above-self", "below-str", "both", "t-inline",
              "c-unbal", "ib-above", "lb-below", "poly2", "path5", "img-label.svg",
              "img-nosize.svg", "img-begin", "li-show", "li-label2", "ol-level2", "ns-dup",
              "set-base", "li-bad-label"]


class World:
    def __init__(self, env, policy):
        self.env = env
        self.deck = W.new_deck(env, width=400, height=300, name_policy=policy)
        self.unique = policy == "unique"
        self.replace = policy == "replace"
        self.tmp = None
        self.first = self.deck.new_slide("first")
        self.slide = self.first
        self.box = self.slide.box(width="80%", padding=3)
        self.list = W_ol(self.box, start=2)
        self.text = self.box.text("abc ~#m{x}\nsecond")
        self.n = 0

    def img(self, name):
        return os.path.join(self.env.data["dir"], name)

    def kid(self, b):
        return b.children[0] if b.children else b.box(width=1)

    def repaired(self, b, bad="malformed.svg"):
        """An image that is rejected, repaired on disk, and used by later operations."""
        p = self.img(f"repaired-{os.getpid()}.svg")
        with open(p, "w") as f:
            f.write(BAD[bad])
        try:
            b.image(p)
        finally:
            with open(p, "w") as f:
                f.write(GOOD)

    def op(self, name):
        self.n += 1
        n = self.n
        b = self.box
        if name == "slide":
            self.slide = self.deck.new_slide(f"s{n}", bg_color="#eeeeee")
            self.box = self.slide.box(width="70%", horizontal=True)
            self.text = self.slide.text("t ~#m{y}")
            self.list = W_ol(self.box)
        elif name == "box":
            q = b.box(show="next+", height=10 + n, width="fill")
            q.rect(bg_color=W.color(n))
            self.slide.box(width=20, height=10, prepend=True).rect(bg_color=W.color(100 + n))
        elif name == "text":
            b.text(f"text ~emph{{{n}}}")
            self.text = self.slide.box(width=100, height="fill").text(
                "fit ~#m{me}", scale_to_fit=True)
            self.text.inline_box("#m", show="last").rect(bg_color=W.color(200 + n))
        elif name == "item":
            i = self.list.item(show="next+")
            i.text("item")
            i.rect(bg_color=W.color(300 + n))
        elif name == "sub":
            s = self.list.ol()
            s.item().text("sub")
            self.list.item(label="L").rect(bg_color=W.color(400 + n))
        elif name == "image":
            b.box(height=40).image(self.img("good.svg"))
            p = self.img(f"repaired-{os.getpid()}.svg")
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write(GOOD)
            b.image(p)
        elif name == "line":
            b.box(width=30, height=10).line([(0, 0), self.slide.mid_point()])
        elif name == "style":
            self.slide.update_style("default", W.elsie.TextStyle(size=20 + n))
            self.deck.set_style("q", W.elsie.TextStyle(color="red"))
        elif name == "render":
            W.render_units(self.deck)
        elif name == "code":
            b.box().code("python", "x = ~#k{1}\n", use_styles=True)

    def observe(self):
        d = self.deck
        tail = self.slide.box(show="last+")
        t = tail.text("tail ~emph{text}")
        t.inline_box("emph").rect(color="#0000fe")
        self.list.item().text("end")
        return [
            [(s.name, s.max_step, s.box().current_fragment()) for s in d._slides],
            sorted(d._styles),
            [repr([getattr(s, k) for k in s.__slots__]) for _, s in sorted(d._styles.items())],
            sorted(self.box._styles), sorted(self.slide._styles),
            W.svgs(d),
        ]


PROGRAMS = [
    ("ignore", ["box", "item", "image", "text", "sub", "style", "slide", "item", "box"]),
    ("unique", ["text", "slide", "box", "code", "render", "item", "line", "image"]),
    ("replace", ["slide", "item", "box", "render", "text", "sub", "image"]),
]


def targets(kinds):
    return {"b": ["box"], "s": ["slide"], "d": ["deck"], "w": ["text"], "l": ["list"]}


def cases(tier, env):
    names = list(REJ)
    for pi, (_, prog) in enumerate(PROGRAMS):
        for pos in range(len(prog) + 1):
            for nm in names:
                for tg in REJ[nm][1]:
                    yield [pi, [[pos, nm, tg]]]
    if tier == "quick":
        for a, b in itertools.product(QUICK_PAIR, repeat=2):
            for pi in range(3):
                for p1, p2 in ((0, 0), (2, 4), (1, 6)):
                    yield [pi, [[p1, a, REJ[a][1][0]], [p2, b, REJ[b][1][0]]]]
    else:
        for a, b in itertools.product(names, repeat=2):
            for pi in range(3):
                for p1, p2 in ((0, 0), (1, 4)):
                    yield [pi, [[p1, a, REJ[a][1][0]], [p2, b, REJ[b][1][0]]]]


def execute(env, pi, rejected, rec):
    policy, prog = PROGRAMS[pi]
    w = World(env, policy)
    n_rej = 0
    for i in range(len(prog) + 1):
        for pos, nm, tg in rejected:
            if pos != i:
                continue
            target = {"b": w.box, "s": w.slide, "d": w.deck, "w": w.box, "l": w.box}[tg]
            before = snapshot(w)
            try:
                REJ[nm][0](w, target)
            except Exception:
                n_rej += 1
                rec.step()
                after = snapshot(w)
                if before != after:
                    rec.fail("state changed by a rejected call", call=nm, got=after, want=before)
            else:
                rec.count("not_rejected:" + nm)
                return None
        if i < len(prog):
            w.op(prog[i])
    return w.observe(), n_rej


def snapshot(w):
    return [(getattr(s, "name", None), s.current_fragment()) for s in w.deck._slides]


def run(case, rec, env):
    pi, rejected = case
    rec.state(case)
    memo = env.data["memo"]
    if pi not in memo:
        memo[pi] = execute(env, pi, [], rec)[0]
    want = memo[pi]
    res = execute(env, pi, rejected, rec)
    if res is None:
        return
    got, n = res
    rec.trace()
    rec.outcome([c[1] for c in rejected])
    for what, g, x in zip(("slides", "style names", "styles", "box styles", "slide styles",
                           "pages"), got, want):
        if g != x:
            rec.fail(f"{what} differ from the history without the rejected call", got=diff(g, x))


def diff(g, x):
    if isinstance(g, list) and len(g) == len(x):
        for a, b in zip(g, x):
            if a != b:
                if isinstance(a, str):
                    from .c06_pure_render import first_diff

                    return first_diff(a, b)
                return f"{a} <> {b}"
    return f"{len(g)} items <> {len(x)} items"
