"""Observation of what is drawn through cairocffi: every fill/stroke/paint is recorded with its
device-independent (user space of the page) outline, paint and stroke parameters."""
import contextlib

import cairocffi

from .svgobs import rnd


def new_deck(env, **kw):
    import elsie
    from elsie.render.backends import CairoBackend

    if "cairo-dir" not in env.data:
        env.data["cairo-dir"] = env.fresh_dir("cairo")
    d = env.data["cairo-dir"]
    return elsie.SlideDeck(backend=CairoBackend(cache_dir=d), cache_dir=d, **kw)


def hexcolor(rgba):
    return "#%02x%02x%02x" % tuple(int(round(v * 255)) for v in rgba[:3])


_orig = {}
_log = None

METHODS = ("fill", "stroke", "fill_preserve", "stroke_preserve", "paint", "paint_with_alpha")


def _wrap(name):
    orig = getattr(cairocffi.Context, name)

    def fn(self, *a, **kw):
        if _log is not None:
            _log.append(_snapshot(self, name))
        return orig(self, *a, **kw)

    _orig[name] = orig
    return fn


def _snapshot(ctx, name):
    op = {"op": name.replace("_preserve", "")}
    m = ctx.get_matrix()
    op["matrix"] = tuple(m.as_tuple())
    op["surface"] = type(ctx.get_target()).__name__
    src = ctx.get_source()
    try:
        op["color"] = tuple(src.get_rgba())
    except Exception:
        op["color"] = None
        op["source"] = src
        if hasattr(src, "get_surface"):
            op["picture"] = _picture(ctx, src)
    if op["op"] in ("fill", "stroke"):
        path = []
        for kind, pts in ctx.copy_path():
            dev = [ctx.user_to_device(*pts[i:i + 2]) for i in range(0, len(pts), 2)]
            path.append((kind, tuple(dev)))
        op["path"] = path
        if op["op"] == "stroke":
            op["width"] = ctx.get_line_width()
            op["dash"] = tuple(ctx.get_dash()[0])
            op["dash_offset"] = ctx.get_dash()[1]
            op["joins"] = (ctx.get_line_join(), ctx.get_line_cap(), ctx.get_miter_limit())
    return op


def _picture(ctx, src):
    """Corners of the painted bitmap on the device"""
    m = src.get_matrix()
    m.invert()
    sf = src.get_surface()
    sx, sy = sf.get_device_scale()
    w, h = sf.get_width() / sx, sf.get_height() / sy
    return [ctx.user_to_device(*m.transform_point(x, y)) for x, y in ((0, 0), (w, 0), (w, h), (0, h))]


@contextlib.contextmanager
def recording(log):
    global _log
    for name in METHODS:
        setattr(cairocffi.Context, name, _wrap(name))
    _log = log
    try:
        yield
    finally:
        _log = None
        for name in METHODS:
            setattr(cairocffi.Context, name, _orig[name])


def record(deck, export_type="png", **kw):
    """One list of recorded operations per rendered page (split by slide/fragment)."""
    import os

    res = []
    log = []
    with recording(log):
        units = deck.render(output=None, return_units=True, export_type=export_type,
                            save_cache=False, prune_cache=False, **kw)
    # operations of different pages go to different surfaces; pages are rendered in order, so
    # split the log at the changes of surface identity (recorded through the units' count)
    res.append(log)
    for u in units:
        fn = getattr(getattr(u, "ctx", None), "filename", None)
        if fn and os.path.exists(fn):
            os.remove(fn)
    return res
