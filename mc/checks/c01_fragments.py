"""C01: content is on exactly the pages its fragment selectors name."""
import itertools

from .. import world as W

ID = "C01"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of box-building histories over a selector alphabet, each run "
             "on the real code and compared page by page with a reference selector model")
NOTE = ("Every program of the bounded space is built and rendered with the real library (SVG "
        "units); visible drawings, page counts and current_fragment() after every call must equal "
        "a reference model of the selector language. Bounds: trees of <=4 boxes over 13 selectors "
        "(quick: 3 boxes full alphabet, 4 boxes reduced), unions of <=3 intervals, 2 interleaved "
        "slides with <=4 calls.")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in (visibility does not "
               "depend on them)"]
BOUND = {"quick": "trees<=3 boxes x 13 selectors, 4 boxes x 5 selectors; unions<=3 intervals; "
                  "2 slides x 4 calls; numbers up to 130, unions of up to 101 intervals, 40 boxes",
         "thorough": "trees<=4 boxes x 13 selectors; unions<=4 intervals; 2 slides x 5 calls"}


# --- reference model of selectors ------------------------------------------

def parse(sel, cur):
    """-> (set of closed (a, b) intervals with b None = open, largest named fragment)"""
    if sel is None:
        return [(1, None)], 1
    if isinstance(sel, int):
        return [(sel, sel)], max(1, sel)
    res = []
    for part in sel.split(","):
        part = part.strip()
        opened = part.endswith("+")
        if opened:
            part = part[:-1]
        if part == "next":
            a = b = cur + 1
        elif part == "last":
            a = b = cur
        elif "-" in part:
            a, b = (int(v) for v in part.split("-"))
        else:
            a = b = int(part)
        res.append((a, None if opened else b))
    return res, max([1] + [max(a, b or 0) for a, b in res])


def selected(ivs, k):
    return any(a <= k and (b is None or k <= b) for a, b in ivs)


SEL = [None, 1, 2, "2", "2+", "1-2", "next", "last", "next+", "last+", "1,3", "3-4", "1,3+"]
SEL_SMALL = [None, "2", "2+", "next", "last+"]
INTERVALS = ["1", "2", "10", "1-3", "9-11", "3+", "10+", "next", "last", "next+", "last+", "4-4"]
BIG = [1, 2, 9, 10, 11, 20, 32, 64, 65, 99, 100, 101, 128]
SEPS = [",", ", ", " , "]
MAKERS = ["box", "overlay", "fbox", "sbox", "item.box", "nested", "line_box", "inline_box",
          "list", "polygon", "path", "line", "ellipse", "text", "code", "deco", "image", "svg", "svgsteps",
          "svgselect"]

PNG1 = bytes.fromhex(
    "89504e470d0a1a0a0000000d4948445200000001000000010804000000b51c0c020000000b4944415478da6364"
    "f8ff9f01000401028100b2a5b00000000049454e44ae426082")


def trees(n):
    """All parent assignments for n boxes (0 is the root)."""
    return itertools.product(*[range(i + 1) for i in range(n)])


def cases(tier, env):
    # (a) selector language on one box, after a preceding box that fixes the current fragment
    for pre in (None, "3", "12"):
        for s in SEL + [0, 3, 12, "0", "12", "007"]:
            yield ["sel", pre, s]
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for combo in itertools.product(INTERVALS, repeat=n):
                if sum(c.endswith("+") for c in combo) > 1:
                    continue
                if n >= 3 and tier == "quick" and pre == "12":
                    continue
                seps = SEPS if n <= 2 else [", "]
                for sep in seps:
                    yield ["sel", pre, sep.join(combo)]
        for s in (" 2 ", "2 ", " 1-2,3 "):
            yield ["sel", pre, s]
    # (b) trees
    for n in (1, 2, 3, 4):
        alpha = SEL
        if n == 4 and tier == "quick":
            alpha = SEL_SMALL
        for t in trees(n):
            for sels in itertools.product(alpha, repeat=n):
                yield ["tree", list(t), list(sels)]
    if tier == "thorough":
        for t in trees(5):
            for sels in itertools.product(SEL_SMALL, repeat=5):
                yield ["tree", list(t), list(sels)]
    # (c) every way of creating content in a box
    for mk in MAKERS:
        for outer in SEL:
            for inner in SEL:
                yield ["maker", mk, outer, inner]
    # (d) two slides, interleaved
    alpha = [None, "2", "next", "last+", "next+"]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for which in itertools.product((0, 1), repeat=n):
            for sels in itertools.product(alpha, repeat=n):
                yield ["slides", list(which), list(sels)]
    # (d2) large numbers and long unions
    for a, b in itertools.combinations_with_replacement(BIG, 2):
        for pre in (None, "3"):
            yield ["sel", pre, f"{a}-{b}"]
            if pre is None:
                yield ["sel", pre, f"{a},{b}+"]
                yield ["sel", pre, f"{b}+, {a}"]
                yield ["sel", str(a), f"next,{b}-{b + 2},last"]
                yield ["sel", f"{a}+", f"{b}-{b + 1}, 2 , next+"]
    for n in (10, 33, 65, 70, 101):
        for step in (1, 2, 3):
            for rev in (1, -1):
                yield ["sel", None, ",".join(str(i) for i in range(1, n + 1, step)[::rev])]
                yield ["sel", "5", ", ".join(f"{i}-{i + step - 1}" for i in range(2, n, step + 1)[::rev]) + ",last+"]
    # (e) long histories of placeholders (a deck that reveals 12 things one after another)
    for a in ("next", "next+"):
        for b in ("last", "last+", "next"):
            for n in (9, 10, 11, 12, 20, 33, 40):
                yield ["tree", [0] * n, [a] * (n - 1) + [b]]
                yield ["tree", list(range(n)), [a if i % 2 else b for i in range(n)]]


class Ref:
    """Reference state of one slide."""

    def __init__(self):
        self.cur = 1
        self.marks = []       # (colour, [interval lists on the path])

    def add(self, sel, path):
        ivs, mx = parse(sel, self.cur)
        self.cur = max(self.cur, mx)
        return path + [ivs]

    def expected(self):
        pages = []
        for k in range(1, self.cur + 1):
            pages.append([c for c, path in self.marks if all(selected(i, k) for i in path)])
        return pages


def observe(deck, **kw):
    return [[c for c in p.colors() if c and c.startswith("#")] for p in W.pages(deck, **kw)]


def run(case, rec, env):
    kind = case[0]
    if kind == "sel":
        _, pre, sel = case
        deck = W.new_deck(env)
        root = deck.new_slide()
        ref = Ref()
        n = 0
        for s in ([pre] if pre else []) + [sel]:
            b = root.box(show=s)
            b.rect(bg_color=W.color(n))
            ref.marks.append((W.color(n), ref.add(s, [])))
            n += 1
            rec.step()
            rec.expect(root.current_fragment(), ref.cur, "current_fragment after box()", sel=s)
        check(deck, [ref], rec, sel)
    elif kind == "tree":
        _, parents, sels = case
        deck = W.new_deck(env)
        root = deck.new_slide()
        ref = Ref()
        boxes, paths = [root], [[]]
        for i, (p, s) in enumerate(zip(parents, sels)):
            b = boxes[p].box(show=s)
            b.rect(bg_color=W.color(i))
            path = ref.add(s, paths[p])
            boxes.append(b)
            paths.append(path)
            ref.marks.append((W.color(i), path))
            rec.step()
            rec.expect(b.current_fragment(), ref.cur, "current_fragment after box()")
        # depth-first order of painting
        order = []

        def dfs(j):
            for i, p in enumerate(parents):
                if p == j:
                    order.append(i)
                    dfs(i + 1)

        dfs(0)
        ref.marks = [ref.marks[i] for i in order]
        check(deck, [ref], rec, sels)
    elif kind == "slides":
        _, which, sels = case
        deck = W.new_deck(env)
        roots = [deck.new_slide(), deck.new_slide(bg_color="white", debug_boxes=False)]
        refs = [Ref(), Ref()]
        for i, (w, s) in enumerate(zip(which, sels)):
            roots[w].box(show=s).rect(bg_color=W.color(i))
            refs[w].marks.append((W.color(i), refs[w].add(s, [])))
            rec.step()
            for j in (0, 1):
                rec.expect(roots[j].current_fragment(), refs[j].cur,
                           "current_fragment of slide %d" % j)
        check(deck, refs, rec, sels)
        # each slide on its own
        for j in (0, 1):
            got = observe(deck, select_slides=[roots[j].slide])
            rec.expect(got, refs[j].expected(), "pages of slide %d rendered alone" % j)
    elif kind == "maker":
        maker(case, rec, env)


def check(deck, refs, rec, sel):
    want = [p for r in refs for p in r.expected()]
    got = observe(deck)
    rec.trace()
    rec.step(len(want))
    rec.state([len(want), want])
    rec.outcome(got)
    if len(got) != len(want):
        rec.fail("wrong number of pages", got=len(got), want=len(want))
    elif got != want:
        rec.fail("wrong drawings visible on a page", got=got, want=want)


def maker(case, rec, env):
    _, mk, outer, inner = case
    deck = W.new_deck(env)
    root = deck.new_slide()
    ref = Ref()
    o = root.box(show=outer, width=400, height=300)
    path_o = ref.add(outer, [])
    col = W.color(7)

    def via(fn):
        ref.marks.append((col, ref.add(inner, path_o)))
        return fn(show=inner)

    if mk in ("box", "overlay", "fbox", "sbox"):
        via(getattr(o, mk)).rect(bg_color=col)
    elif mk == "item.box":
        it = o.rect(bg_color=W.color(9))
        ref.marks.append((W.color(9), path_o))
        via(it.box).rect(bg_color=col)
    elif mk == "nested":
        p = ref.add(inner, path_o)
        mid = o.box(show=inner)
        mid.box().box().rect(bg_color=col)
        ref.marks.append((col, p))
    elif mk in ("line_box", "inline_box"):
        t = o.text("aa ~#w{bb}\ncc", W.elsie.TextStyle(color=W.color(9), align="left"))
        ref.marks.append((W.color(9), path_o))
        if mk == "line_box":
            via(lambda show: t.line_box(0, show=show)).rect(bg_color=col)
        else:
            via(lambda show: t.inline_box("#w", show=show)).rect(bg_color=col)
    elif mk == "list":
        from elsie.ext import unordered_list

        lst = unordered_list(o, label=lambda box, level: None)
        via(lambda show: lst.item(show=show)).rect(bg_color=col)
    else:
        b = via(o.box)
        ref.marks.pop()
        path = ref.marks and None
        p = parse_path(ref, outer, inner)
        if mk == "polygon":
            b.polygon([(0, 0), (5, 0), (0, 5)], bg_color=col)
        elif mk == "path":
            b.path([("M", (0, 0)), ("L", (5, 5))], bg_color=col)
        elif mk == "line":
            b.line([(0, 0), (5, 0)], color=col)
        elif mk == "ellipse":
            b.ellipse(bg_color=col)
        elif mk == "text":
            b.text("x", W.elsie.TextStyle(color=col))
        elif mk == "code":
            b.set_style("cc", W.elsie.TextStyle(color=col, align="left"))
            b.code(None, "x", style="cc")
        elif mk == "deco":
            b.rect(color=col)
        elif mk == "image":
            b.image(PNG1, image_type="png")
            b.rect(bg_color=col)
        elif mk in ("svg", "svgsteps", "svgselect"):
            # pictures that need 1, 4 and 3 pages
            f = W.os.path.join(env.scratch, mk + ".svg")
            with open(f, "w") as out:
                out.write("<svg xmlns='http://www.w3.org/2000/svg' width='9' height='9' xmlns:inkscape="
                          "'http://www.inkscape.org/namespaces/inkscape'><g inkscape:label='%s'>"
                          "<rect width='5' height='5'/></g></svg>" % ("a" if mk == "svg" else "**2-3**"))
            if mk == "svgselect":
                b.image(f, select_fragments=[2, None, 3])
            else:
                b.image(f, show_begin=1 if mk == "svg" else 2)
            b.rect(bg_color=col)
            ref.cur = max(ref.cur, {"svg": 1, "svgsteps": 4, "svgselect": 3}[mk])
        ref.marks.append((col, p))
    rec.step(2)
    rec.expect(root.current_fragment(), ref.cur, "current_fragment")
    check(deck, [ref], rec, inner)


def parse_path(ref, outer, inner):
    """Selector path of a box created with `inner` inside one created with `outer` (the reference
    state has already advanced past both)."""
    a, m = parse(outer, 1)
    b, _ = parse(inner, max(1, m))
    return [a, b]
