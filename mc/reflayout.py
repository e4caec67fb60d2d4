"""Reference model of the documented layout rules (docs/userguide/layout.md), written from the
documentation: plain recursion over a tree of nodes, one function per axis."""


def parse_size(s):
    """-> ("min", n) | ("ratio", r) | ("fill", n)"""
    if s is None:
        return ("min", 0.0)
    if isinstance(s, (int, float)):
        return ("min", float(s))
    if s == "fill":
        return ("fill", 1.0)
    if s.startswith("fill("):
        return ("fill", float(s[5:-1]))
    if s.endswith("%"):
        return ("ratio", float(s[:-1]) / 100)
    return ("min", float(s))


def resolve_pos(p, origin, full, own):
    if callable(p):
        return p()
    if isinstance(p, (int, float)):
        return origin + p
    if p.startswith("["):
        return origin + (full - own) * float(p[1:-2]) / 100
    if p.endswith("%"):
        return origin + full * float(p[:-1]) / 100
    return origin + float(p)


class Node:
    """pos/size are [x, y] / [width, height] specs; pad = [left, right, top, bottom];
    content = minimal (w, h) requested by items drawn directly in the box."""

    def __init__(self, pos=(None, None), size=(None, None), pad=(0, 0, 0, 0), horizontal=False,
                 content=(0, 0)):
        self.pos = pos
        self.size = [parse_size(s) if not callable(s) else ("lazy", s) for s in size]
        self.pad = pad
        self.axis = 0 if horizontal else 1
        self.content = content
        self.children = []     # in layout order
        self.outer = None
        self.rect = None       # padded rectangle [x, y, w, h]

    def padding(self, axis):
        return self.pad[0] + self.pad[1] if axis == 0 else self.pad[2] + self.pad[3]

    def flow(self):
        return [c for c in self.children if c.pos[self.axis] is None]

    def minimum(self, axis):
        """Size request along an axis, padding included."""
        inner = [c.minimum(axis) for c in self.flow()]
        if not inner:
            m = 0
        elif axis == self.axis:
            m = sum(inner)
        else:
            m = max(inner)
        m = max(m, self.content[axis]) + self.padding(axis)
        kind, v = self.size[axis]
        return max(m, v) if kind == "min" else m

    def extent(self, axis, full, share):
        """Final size along an axis in a parent of the given full size; share = size of a fill
        unit, or None if fill means the whole parent."""
        kind, v = self.size[axis]
        if kind == "lazy":
            return v()
        if kind == "fill":
            return full if share is None else share * v
        if kind == "ratio":
            return max(full * v, self.minimum(axis))
        return self.minimum(axis)

    def place(self, outer, report):
        self.outer = outer
        x, y, w, h = outer
        self.rect = rect = [x + self.pad[0], y + self.pad[2],
                            w - self.pad[0] - self.pad[1], h - self.pad[2] - self.pad[3]]
        if w < -1e-9 or h < -1e-9 or rect[2] < -1e-9 or rect[3] < -1e-9:
            report["negative"] = True
        main, cross = self.axis, 1 - self.axis
        flow = self.flow()
        fills = sum(c.size[main][1] for c in flow if c.size[main][0] == "fill")
        rest = rect[2 + main] - sum(
            c.extent(main, rect[2 + main], None) for c in flow if c.size[main][0] != "fill")
        share = None
        start = rect[main]
        if fills:
            share = rest / fills
        else:
            start += rest / 2
        for c in self.children:
            inflow = c.pos[main] is None
            size = [0, 0]
            at = [0, 0]
            size[main] = c.extent(main, rect[2 + main], share if inflow else None)
            size[cross] = c.extent(cross, rect[2 + cross], None)
            if inflow:
                at[main] = start
                start += size[main]
            else:
                at[main] = resolve_pos(c.pos[main], rect[main], rect[2 + main], size[main])
            p = c.pos[cross]
            if p is None:
                at[cross] = rect[cross] + (rect[2 + cross] - size[cross]) / 2
            else:
                at[cross] = resolve_pos(p, rect[cross], rect[2 + cross], size[cross])
            c.place([at[0], at[1], size[0], size[1]], report)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def rect_close(a, b, tol=1e-6):
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
