"""Pictures with features that are drawn by libraries (gradients, masks, embedded bitmaps, layers,
kinds of bitmaps): too rich for an interpreter of outlines, compared by their pixels."""
import base64
import io
import os
import zipfile

from PIL import Image

H = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" '
S = 'width="30" height="20"'
R = '<rect x="2" y="2" width="20" height="10" '
SVGS = {
    "image": S + '><image x="2" y="2" width="20" height="10" xlink:href="data:image/png;base64,PNG"/>',
    "images": S + '><image x="2" y="2" width="10" height="5" xlink:href="data:image/png;base64,PNG"/>'
                  '<image x="12" y="8" width="16" height="8" xlink:href="data:image/png;base64,PNG"/>',
    "linear": S + '><defs><linearGradient id="g"><stop offset="0" stop-color="red"/>'
                  '<stop offset="1" stop-color="blue"/></linearGradient></defs>' + R + 'fill="url(#g)"/>',
    "radial": S + '><defs><radialGradient id="g"><stop offset="0" stop-color="red"/>'
                  '<stop offset="1" stop-color="blue"/></radialGradient></defs>'
                  '<circle cx="12" cy="10" r="8" fill="url(#g)"/>',
    "pattern": S + '><defs><pattern id="g" width="4" height="4" patternUnits="userSpaceOnUse">'
                   '<rect width="2" height="4" fill="red"/></pattern></defs>' + R + 'fill="url(#g)"/>',
    "mask": S + '><defs><mask id="g"><rect width="12" height="20" fill="white"/></mask></defs>' + R
            + 'fill="green" mask="url(#g)"/>',
    "marker": S + '><defs><marker id="g" markerWidth="4" markerHeight="4" refX="2" refY="2">'
                  '<rect width="4" height="4" fill="red"/></marker></defs>'
                  '<path d="M 3 3 L 20 15" stroke="black" marker-end="url(#g)"/>',
    "clip": S + '><defs><clipPath id="g"><rect width="12" height="20"/></clipPath></defs>' + R
            + 'fill="green" clip-path="url(#g)"/>',
    "use": S + '><defs><rect id="g" width="5" height="7" fill="green"/></defs>'
               '<use xlink:href="#g" x="3" y="4"/><use xlink:href="#g" x="13" y="10"/>',
    "filter": S + '><defs><filter id="g"><feOffset dx="5" dy="3"/></filter></defs>'
                  '<rect width="5" height="7" fill="green" filter="url(#g)"/>',
    "opacity": S + '><g opacity="0.5"><rect width="15" height="17" fill="green"/>'
                   '<rect x="5" y="3" width="15" height="7" fill="red"/></g>',
    "viewbox": S + ' viewBox="0 0 60 40"><rect x="5" y="3" width="50" height="30" fill="red"/>',
    "origin": S + ' viewBox="-10 5 15 10"><rect x="-5" y="7" width="5" height="4" fill="red"/>',
    "aspect": S + ' viewBox="0 0 20 40"><rect x="5" y="3" width="10" height="30" fill="red"/>',
    "stretch": S + ' viewBox="0 0 20 40" preserveAspectRatio="none">'
                   '<rect x="5" y="3" width="10" height="30" fill="red"/>',
    "percent": S + '><rect x="10%" y="20%" width="50%" height="50%" fill="red"/>',
    "mm": 'width="10mm" height="5mm" viewBox="0 0 10 5"><rect x="1" y="1" width="5" height="3" fill="red"/>',
    "nested": S + '><svg x="4" y="3" width="15" height="10" viewBox="0 0 5 5">'
                  '<rect width="5" height="5" fill="red"/></svg>',
    "css": S + '><style>.a {fill: red}</style><rect class="a" x="3" y="3" width="15" height="10"/>',
    "overflow": S + '><rect x="10" y="10" width="60" height="50" fill="red"/>',
    "symbol": S + '><symbol id="g" viewBox="0 0 4 4"><rect width="4" height="4" fill="red"/></symbol>'
                  '<use xlink:href="#g" x="3" y="4" width="8" height="8"/>',
    "flow": S + '><flowRoot><flowRegion><rect width="30" height="20"/></flowRegion>'
                '<flowPara>abc</flowPara></flowRoot>' + R + 'fill="green"/>',
}
STACK = ('<image w="30" h="20"><stack><layer src="data/a.png" x="3" y="2" name="A"/>'
         '<stack x="4" y="5"><layer src="data/a.png" x="8" y="7" opacity="0.5" name="B"/></stack></stack></image>')
MODES = ("L", "LA", "P", "1", "RGB", "RGBA")


def png_bytes():
    im = Image.new("RGBA", (8, 4), (255, 0, 0, 255))
    im.paste((0, 0, 255, 255), (4, 0, 8, 2))
    im.paste((0, 90, 0, 120), (0, 3, 3, 4))
    b = io.BytesIO()
    im.resize((16, 8), Image.NEAREST).save(b, "PNG")
    return b.getvalue()


def build(d):
    """Writes the files into the directory, returns {name: path}."""
    res = {}
    png = png_bytes()
    for name, body in SVGS.items():
        res[name] = os.path.join(d, name + ".svg")
        with open(res[name], "w") as f:
            f.write(H + body.replace("PNG", base64.b64encode(png).decode()) + "</svg>")
    res["ora"] = os.path.join(d, "o.ora")
    with zipfile.ZipFile(res["ora"], "w") as z:
        z.writestr("mimetype", "image/openraster")
        z.writestr("stack.xml", STACK)
        z.writestr("data/a.png", png)
    base = Image.open(io.BytesIO(png))
    for mode in MODES:
        res["png-" + mode] = os.path.join(d, f"m{mode}.png")
        base.convert(mode).save(res["png-" + mode])
    res["png-16"] = os.path.join(d, "m16.png")
    Image.frombytes("I;16", base.size, bytes(
        ((i * 7919 + 300) >> (8 * k)) & 255 for i in range(base.width * base.height) for k in (0, 1))).save(res["png-16"])
    p = base.convert("P")
    res["png-key"] = os.path.join(d, "mk.png")
    p.save(res["png-key"], transparency=p.getpixel((0, 0)))
    for mode in ("L", "RGB", "CMYK"):
        res["jpg-" + mode] = os.path.join(d, f"j{mode}.jpg")
        base.convert("RGB").convert(mode).save(res["jpg-" + mode], quality=95)
    return res


NAMES = list(SVGS) + ["ora"] + ["png-" + m for m in MODES] + ["png-16", "png-key", "jpg-L", "jpg-RGB", "jpg-CMYK"]
