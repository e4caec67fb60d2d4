"""Observation of the texts drawn through Pango: every character with its effective attributes and its
place on the device. Import this module before elsie."""
import cairocffi  # noqa: F401
import pangocairocffi
import pangocffi

_log = None
_orig = pangocairocffi.show_layout


def _show_layout(ctx, layout):
    if _log is not None:
        _log.append(snapshot(ctx, layout))
    return _orig(ctx, layout)


pangocairocffi.show_layout = _show_layout

ffi = pangocffi.ffi
P = pangocffi.pango


def attributes(layout):
    """[(first byte, end byte, attributes)]"""
    res = []
    al = P.pango_layout_get_attributes(layout.get_pointer())
    if al == ffi.NULL:
        return res
    it = P.pango_attr_list_get_iterator(al)
    a, b = ffi.new("gint *"), ffi.new("gint *")
    while True:
        P.pango_attr_iterator_range(it, a, b)
        desc = P.pango_font_description_new()
        P.pango_attr_iterator_get_font(it, desc, ffi.NULL, ffi.NULL)
        fam = P.pango_font_description_get_family(desc)
        font = None if fam == ffi.NULL else ffi.string(fam).decode()
        size = P.pango_font_description_get_size(desc) / 1024
        if not P.pango_font_description_get_size_is_absolute(desc):
            size *= 96 / 72
        fg = P.pango_attr_iterator_get(it, P.PANGO_ATTR_FOREGROUND)
        color = None
        if fg != ffi.NULL:
            rgb = ffi.cast("unsigned short *", ffi.cast("char *", fg) + 16)
            color = "#%02x%02x%02x" % tuple(round(rgb[i] / 257) for i in range(3))
        res.append((a[0], b[0], {
            "font": font, "size": size, "color": color,
            "bold": int(P.pango_font_description_get_weight(desc)) >= 600,
            "italic": int(P.pango_font_description_get_style(desc)) != 0}))
        P.pango_font_description_free(desc)
        if not P.pango_attr_iterator_next(it):
            break
    P.pango_attr_iterator_destroy(it)
    return res


def snapshot(ctx, layout):
    """Lines; a line is a list of (character, attributes, left end, right end of its base line)"""
    x0, y0 = ctx.get_current_point()
    text = layout.get_text() if hasattr(layout, "get_text") else layout.text
    data = text.encode()
    at, pos = {}, 0
    for c in text:
        at[pos] = c
        pos += len(c.encode())
    attrs = attributes(layout)

    def look(i):
        for a, b, d in attrs:
            if a <= i < b:
                return d
        return {}

    lines = []
    it = layout.get_iter()
    last = None
    while True:
        base = it.get_baseline()
        if base != last:
            lines.append([])
            last = base
        i = it.get_index()
        c = at.get(i)
        if c is not None and c not in "\n\u2800" and i < len(data):
            e = it.get_char_extents()
            x, w, b = e.x / 1024, e.width / 1024, base / 1024
            lines[-1].append((c, look(i), ctx.user_to_device(x0 + x, y0 + b),
                              ctx.user_to_device(x0 + x + w, y0 + b)))
        if not it.next_char():
            break
    return [ln for ln in lines if ln]


class recording:
    def __enter__(self):
        global _log
        _log = []
        return _log

    def __exit__(self, *a):
        global _log
        _log = None
