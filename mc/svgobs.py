"""Observation of rendered SVG pages: drawn items in paint order, with resolved geometry/paint."""
import math
import re
import xml.etree.ElementTree as ET

SVG = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
INK = "{http://www.inkscape.org/namespaces/inkscape}"
XMLNS = "{http://www.w3.org/XML/1998/namespace}"

IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def mul(m, n):
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D,
            a * E + c * F + e, b * E + d * F + f)


def apply(m, p):
    a, b, c, d, e, f = m
    return (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)


_T = re.compile(r"\s*(matrix|translate|scale|rotate|skewX|skewY)\s*\(([^)]*)\)\s*,?")


def parse_transform(s):
    m = IDENT
    s = (s or "").strip()
    pos = 0
    while pos < len(s):
        t = _T.match(s, pos)
        if not t:
            raise ValueError("bad transform %r" % s)
        pos = t.end()
        v = [float(x) for x in re.split(r"[\s,]+", t.group(2).strip()) if x]
        k = t.group(1)
        if k == "translate":
            n = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif k == "scale":
            n = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif k == "rotate":
            a = math.radians(v[0])
            r = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0)
            if len(v) == 3:
                n = mul(mul((1, 0, 0, 1, v[1], v[2]), r), (1, 0, 0, 1, -v[1], -v[2]))
            else:
                n = r
        elif k == "matrix":
            n = tuple(v)
        else:
            raise ValueError("unexpected transform " + k)
        m = mul(m, n)
    return m


def parse_style(s):
    res = {}
    for part in (s or "").split(";"):
        if ":" in part:
            k, v = part.split(":", 1)
            res[k.strip()] = v.strip()
    return res


def local(tag):
    return tag.rsplit("}", 1)[-1]


PAINT = ("fill", "stroke", "stroke-width", "stroke-dasharray", "fill-opacity", "opacity",
         "font-family", "font-size", "font-weight", "font-style", "font-variant-numeric",
         "text-anchor")


class Item:
    __slots__ = ("tag", "el", "matrix", "style", "attrib", "path", "opacities")

    def __init__(self, tag, el, matrix, style, path, opacities=()):
        self.tag = tag
        self.el = el
        self.matrix = matrix
        self.style = style
        self.attrib = el.attrib
        self.path = path
        self.opacities = opacities

    def num(self, name, default=0.0):
        v = self.el.get(name)
        return default if v is None else float(v)

    @property
    def fill(self):
        return self.style.get("fill")

    @property
    def stroke(self):
        return self.style.get("stroke")

    def rect(self):
        return (self.num("x"), self.num("y"), self.num("width"), self.num("height"))

    def bbox(self):
        """Untransformed geometry as (x, y, w, h) for rect/ellipse/image, else None."""
        if self.tag in ("rect", "image"):
            return self.rect()
        if self.tag == "ellipse":
            cx, cy, rx, ry = (self.num(k) for k in ("cx", "cy", "rx", "ry"))
            return (cx - rx, cy - ry, 2 * rx, 2 * ry)
        return None

    def points(self):
        return [tuple(float(v) for v in p.split(",")) for p in self.el.get("points").split()]

    def geometry(self):
        """Everything that determines where it is drawn (rounded, hashable)."""
        if self.tag in ("rect", "image", "ellipse"):
            g = self.bbox() + (self.num("rx", 0) if self.tag == "rect" else 0,)
        elif self.tag in ("polygon", "polyline"):
            g = tuple(v for p in self.points() for v in p)
        elif self.tag == "path":
            g = tuple(parse_path(self.el.get("d")))
        elif self.tag == "text":
            g = text_geometry(self.el)
        else:
            g = ()
        return (self.tag, rnd(g), rnd(self.matrix))


def rnd(v, nd=5):
    if isinstance(v, float):
        r = round(v, nd)
        return r + 0.0 if r else 0.0
    if isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    if isinstance(v, (list, tuple)):
        return tuple(rnd(x, nd) for x in v)
    return v


_P = re.compile(r"([MLCSQTZmlcsqtz])|(-?\d*\.?\d+(?:[eE][-+]?\d+)?)")


def parse_path(d):
    """[(cmd, ((x, y), ...)), ...] as written (absolute commands only)."""
    res = []
    cur = None
    for m in _P.finditer(d):
        if m.group(1):
            cur = [m.group(1), []]
            res.append(cur)
        else:
            cur[1].append(float(m.group(2)))
    return [(c, tuple(zip(v[::2], v[1::2]))) for c, v in res]


class Page:
    def __init__(self, svg):
        self.svg = svg
        self.root = ET.fromstring(svg)
        self.items = []
        self._collect(self.root, IDENT, {}, (), ())

    def _collect(self, el, matrix, inherited, path, opac):
        for i, c in enumerate(el):
            tag = local(c.tag) if isinstance(c.tag, str) else "#"
            if tag == "#":
                continue
            m = mul(matrix, parse_transform(c.get("transform")))
            st = dict(inherited)
            for k in PAINT:
                if k in c.attrib and k != "opacity":
                    st[k] = c.get(k)
            st.update(parse_style(c.get("style")))
            op = opac + ((float(c.get("opacity")),) if c.get("opacity") else ())
            if tag in ("g", "svg"):
                if tag == "svg":
                    m = mul(m, (1, 0, 0, 1, float(c.get("x") or 0), float(c.get("y") or 0)))
                self._collect(c, m, st, path + (c,), op)
            elif tag in ("defs", "metadata", "namedview"):
                continue
            else:
                self.items.append(Item(tag, c, m, st, path + (c,), op))

    def by_fill(self):
        res = {}
        for it in self.items:
            if it.fill and it.fill != "none":
                res.setdefault(it.fill, []).append(it)
        return res

    def colors(self):
        """Marker colours in paint order (fill, or stroke when there is no fill)."""
        res = []
        for it in self.items:
            c = it.fill if it.fill not in (None, "none") else it.stroke
            res.append(c)
        return res


# --- text ------------------------------------------------------------------

TEXT_KEYS = ("font-family", "font-size", "fill", "fill-opacity", "font-weight", "font-style",
             "font-variant-numeric")


def text_lines(el):
    """The lines of a text element: [(x, y_offset, [(char, style), ...]), ...].

    A line starts at a tspan with an explicit x or dy; characters carry their effective style.
    Non-breaking spaces are reported as spaces."""
    lines = [[float(el.get("x") or 0), 0.0, []]]
    pending = [0.0]

    def put(s, st):
        for ch in s or "":
            lines[-1][2].append((" " if ch == "\u00a0" else ch, st))

    def walk(e, st, first):
        st = dict(st)
        for k in TEXT_KEYS:
            if k in e.attrib:
                st[k] = e.get(k)
        for k, v in parse_style(e.get("style")).items():
            st[k] = v
        if not first and (e.get("x") is not None or e.get("dy") is not None):
            x = float(e.get("x")) if e.get("x") is not None else lines[-1][0]
            lines.append([x, lines[-1][1] + float(e.get("dy") or 0), []])
        put(e.text, st)
        for c in e:
            walk(c, st, False)
            put(c.tail, st)

    walk(el, {}, True)
    return [(x, y, chars) for x, y, chars in lines]


def text_plain(el):
    return "\n".join("".join(c for c, _ in chars) for _, _, chars in text_lines(el))


def text_geometry(el):
    st = parse_style(el.get("style"))
    return (float(el.get("x") or 0), float(el.get("y") or 0), el.get("text-anchor"),
            el.get("font-size"),
            tuple((x, y, "".join(c for c, _ in chars)) for x, y, chars in text_lines(el)))
