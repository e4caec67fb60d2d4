#!/opt/venv/bin/python -IS
"""A deterministic stand-in for `inkscape --shell` (the part of its protocol that a slide renderer
can use), with a simple exact text metric, minimal exports that carry a hash of the source, a
command log and injectable faults.

Environment: FAKE_INK_LOG      file to which every command (and the sha1 of opened files) is appended
             FAKE_INK_VERSION  answer of `inkscape-version`
             FAKE_INK_FAULT    JSON {"<n>": kind}: fault at the n-th command (0-based) of the process

The Server class is the protocol itself; it is also used in-process (mc/fakeproc.py).
"""
import hashlib
import json
import os
import sys
import zlib
import struct
import xml.etree.ElementTree as ET

SVGNS = "{http://www.w3.org/2000/svg}"


def char_width(ch, size, bold=False, italic=False, font=None):
    if ch in (" ", "\u00a0"):
        w = 0.4
    else:
        w = 0.3 + (ord(ch) * 7 % 13) / 20.0
    if bold:
        w *= 1.125
    if italic:
        w *= 1.0625
    if font:
        w *= 1 + (sum(font.encode("utf8")) % 5) / 16.0
    return w * size


def parse_style(s):
    res = {}
    for part in (s or "").split(";"):
        if ":" in part:
            k, v = part.split(":", 1)
            res[k.strip()] = v.strip()
    return res


class Measure:
    """Bounding box of the element with the given id inside the (single) text element."""

    def __init__(self, root):
        self.root = root

    def query(self, what, tid):
        for text in self.root.iter(SVGNS + "text"):
            ids = [e.get("id") for e in text.iter()]
            if tid in ids:
                return self._measure(text, what, tid)
        return None

    def _measure(self, text, what, tid):
        # lines: list of [x, y, [(char, width, inside)]]
        lines = []
        state = {"x": float(text.get("x") or 0), "y": float(text.get("y") or 0)}
        lines.append([state["x"], state["y"], []])
        sizes = []

        def put(s, ctx, inside):
            for ch in s or "":
                w = char_width(ch, ctx["size"], ctx["bold"], ctx["italic"], ctx["font"])
                lines[-1][2].append((w, inside))
                if inside:
                    sizes.append(ctx["size"])

        def walk(e, ctx, inside):
            ctx = dict(ctx)
            if e.get("font-size"):
                ctx["size"] = float(e.get("font-size"))
            if e.get("font-family"):
                ctx["font"] = e.get("font-family")
            st = parse_style(e.get("style"))
            if st.get("font-weight"):
                ctx["bold"] = st["font-weight"] == "bold"
            if st.get("font-style"):
                ctx["italic"] = st["font-style"] == "italic"
            inside = inside or e.get("id") == tid
            if e is not text and (e.get("x") is not None or e.get("dy") is not None):
                x = float(e.get("x")) if e.get("x") is not None else lines[-1][0]
                y = lines[-1][1] + float(e.get("dy") or 0)
                lines.append([x, y, []])
            put(e.text, ctx, inside)
            for c in e:
                walk(c, ctx, inside)
                put(c.tail, ctx, inside)

        walk(text, {"size": 12.0, "bold": False, "italic": False, "font": None}, False)
        anchor = text.get("text-anchor") or "start"
        lo = hi = None
        top = bottom = None
        for x, y, chars in lines:
            total = sum(w for w, _ in chars)
            if anchor == "middle":
                cur = x - total / 2
            elif anchor == "end":
                cur = x - total
            else:
                cur = x
            for w, inside in chars:
                if inside:
                    lo = cur if lo is None else min(lo, cur)
                    hi = cur + w if hi is None else max(hi, cur + w)
                    top = y if top is None else min(top, y)
                    bottom = y if bottom is None else max(bottom, y)
                cur += w
        if lo is None:
            return 0.0
        if what == "width":
            return hi - lo
        if what == "x":
            return lo
        if what == "y":
            return top
        return bottom - top + max(sizes) * 1.2


def make_pdf(tag, w, h):
    body = ("%% ELSIE-SRC %s\n0 0 m\n" % tag).encode()
    objs = [
        b"<< /Type /Catalog /Pages 2 0 R >>",
        b"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
        ("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %g %g] /Contents 4 0 R /Resources << >> >>"
         % (w, h)).encode(),
        b"<< /Length %d >>\nstream\n" % len(body) + body + b"\nendstream",
    ]
    out = b"%PDF-1.4\n"
    offs = []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n" % (i + 1) + o + b"\nendobj\n"
    xref = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1)
    for o in offs:
        out += b"%010d 00000 n \n" % o
    out += b"trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, xref)
    return out


def make_png(tag):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))

    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 1, 1, 8, 6, 0, 0, 0))
            + chunk(b"tEXt", b"src\0" + tag.encode())
            + chunk(b"IDAT", zlib.compress(b"\0\0\0\0\0")) + chunk(b"IEND", b""))


def export_bytes(svg_bytes, typ, version="", ttp=False):
    tag = hashlib.sha1(version.encode() + (b"|ttp" if ttp else b"") + b"|" + svg_bytes).hexdigest()
    w = h = 100.0
    try:
        root = ET.fromstring(svg_bytes)
        w, h = float(root.get("width") or 100), float(root.get("height") or 100)
    except Exception:
        pass
    if typ == "pdf":
        return make_pdf(tag, w, h)
    if typ == "png":
        return make_png(tag)
    return (typ + ":" + tag + "\n").encode()


BANNER = "Inkscape interactive shell mode. Type 'action-list' to list all actions.\n> "
VERSION = "Inkscape 1.2.2 (fake, 2022-12-01)"


class Server:
    """State of one `inkscape --shell` process.

    command(line) -> (text to be written to the standard output, still alive)
    """

    def __init__(self, version=VERSION, faults=None, log=None, epoch="", scale=1.0, digest=False):
        self.version = version
        self.epoch = epoch        # results also depend on it (used to tell histories apart)
        self.scale = scale
        self.digest = digest          # answers depend on every byte of the document
        self.faults = faults or {}
        self.log = log
        self.docs = []       # stack of open documents: [bytes, root, selected]
        self.n = -1
        self.exp = {"type": None, "filename": None}
        self.ttp = False
        self.stderr = None

    def _log(self, cmd, note):
        if self.log is not None:
            self.log(cmd, note)

    def command(self, cmd):
        self.n += 1
        fault = self.faults.get(str(self.n))
        note = ""
        docs, exp = self.docs, self.exp
        if fault == "eof":
            self._log(cmd, "FAULT eof")
            return "", False
        if fault == "eof-partial":
            self._log(cmd, "FAULT eof-partial")
            return "12", False
        if fault == "eof-answer":       # a complete number, but never a prompt
            self._log(cmd, "FAULT eof-answer")
            return "12.5\n", False
        reply = ""
        name, _, arg = cmd.partition(":")
        if name == "file-open":
            try:
                with open(arg, "rb") as f:
                    data = f.read()
                try:
                    root = ET.fromstring(data)
                except ET.ParseError:
                    root = None
                docs.append([data, root, None])
                note = hashlib.sha1(data).hexdigest()
            except OSError:
                reply = "file not found"
        elif name == "file-close":
            if docs:
                docs.pop()
        elif name == "select":
            if docs:
                docs[-1][2] = arg
        elif name in ("query-width", "query-height", "query-x", "query-y"):
            if docs and docs[-1][1] is not None and docs[-1][2]:
                v = Measure(docs[-1][1]).query(name[6:], docs[-1][2])
                if v is not None:
                    if self.digest:
                        v += zlib.crc32(docs[-1][0]) % 5003 / 100.0
                    reply = repr(round(v * self.scale, 6))
            note = reply
        elif name == "export-type":
            exp["type"] = arg
        elif name == "export-filename":
            exp["filename"] = arg
        elif name == "export-text-to-path":
            self.ttp = True
        elif name == "export-do":
            if docs and exp["filename"] and fault != "noexport":
                data = export_bytes(docs[-1][0], exp["type"] or "pdf", self.version + self.epoch,
                                    self.ttp)
                if fault in ("partial-eof", "partial"):
                    data = data[: len(data) // 2]
                try:
                    with open(exp["filename"], "wb") as f:
                        f.write(data)
                except OSError as e:
                    reply = "cannot write: " + str(e)
                note = hashlib.sha1(docs[-1][0]).hexdigest() + "." + (exp["type"] or "pdf")
                if fault == "partial-eof":
                    self._log(cmd, "FAULT partial-eof")
                    return "", False
            self.exp = {"type": None, "filename": None}
            self.ttp = False
        elif name == "inkscape-version":
            reply = self.version
        elif name == "quit":
            return "", False
        if fault == "nonnum":
            reply = "abc"
        elif fault == "nan":
            reply = "nan"
        elif fault == "twonum":
            reply = "1 2"
        elif fault == "empty":
            reply = ""
        elif fault == "noise":          # a warning line before the real answer
            reply = "** (inkscape): WARNING > something\nelement <a> b</a>> c>> d\n\n  > in\t> e\n" + reply
        elif fault == "flood":          # many warnings on the standard error output
            self.stderr = "WARNING: something\n" * 20000
        self._log(cmd, note)
        return (reply + "\n" if reply else "") + "> ", True


def main():
    logname = os.environ.get("FAKE_INK_LOG")
    logf = open(logname, "a") if logname else None

    def log(cmd, note):
        logf.write(json.dumps([os.getpid(), cmd, note]) + "\n")
        logf.flush()

    server = Server(os.environ.get("FAKE_INK_VERSION", VERSION),
                    json.loads(os.environ.get("FAKE_INK_FAULT") or "{}"),
                    log if logf else None)
    out = sys.stdout
    out.write(BANNER)
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        text, alive = server.command(line.rstrip("\n"))
        if server.stderr:
            sys.stderr.write(server.stderr)
            sys.stderr.flush()
            server.stderr = None
        out.write(text)
        out.flush()
        if not alive:
            os._exit(1)


if __name__ == "__main__":
    main()
