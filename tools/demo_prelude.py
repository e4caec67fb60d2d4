import atexit
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET

TMP = tempfile.mkdtemp()
os.chdir(TMP)
atexit.register(shutil.rmtree, TMP, True)

import elsie
from elsie.render.backends import InkscapeBackend
from elsie.render.inkscape import InkscapeShell

NS = "{http://www.w3.org/2000/svg}"


class Ink(InkscapeShell):
    """Stand-in: every character is half of its font size wide."""

    def __init__(self):
        self.text_to_path = False

    def get_version(self):
        return "Inkscape 1.0 (stand-in)"

    def _target(self, svg, ident):
        root = ET.fromstring(svg)
        sizes = {}

        def walk(el, size):
            size = float(el.get("font-size") or size)
            start = pos[0]
            pos[0] += len(el.text or "") * size / 2
            for c in el:
                walk(c, size)
                pos[0] += len(c.tail or "") * size / 2
            sizes[el.get("id")] = (start, pos[0])

        pos = [0]
        text = next(root.iter(NS + "text"))
        walk(text, 20)
        shift = {"start": 0, "middle": pos[0] / 2, "end": pos[0]}[text.get("text-anchor") or "start"]
        a, b = sizes[ident]
        return a - shift, b - a

    def get_width(self, svg, ident):
        return self._target(svg, ident)[1]

    def get_x(self, svg, ident):
        return self._target(svg, ident)[0]


def new_deck(**kw):
    return elsie.SlideDeck(backend=InkscapeBackend(Ink(), cache_dir=TMP), cache_dir=TMP, **kw)


def pages(deck, **kw):
    return [u.get_svg() for u in deck.render(output=None, return_units=True, **kw)]


def rects(svg):
    """Rectangles of a page in paint order: (fill, x, y, width, height)"""
    res = []
    for el in ET.fromstring(svg).iter(NS + "rect"):
        fill = re.search("fill:([^;]*)", el.get("style") or "")
        res.append((fill.group(1) if fill else None, *(float(el.get(k)) for k in ("x", "y", "width", "height"))))
    return res


def check(cond, *info):
    if not cond:
        print("BROKEN", *info)
        sys.exit(1)


