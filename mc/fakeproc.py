"""In-process stand-ins for the external programs (Inkscape shell, pdflatex, pdf2svg, pdfunite):
`subprocess.Popen` is replaced while the patch is active, everything above it is the real code.

An Inkscape process is the same Server as in fakeink.py, connected by buffers instead of pipes; a
read that could never be answered raises Hang (a real pipe would block for ever)."""
import contextlib
import hashlib
import io
import os
import shlex
import subprocess
import sys

from . import fakeink

REAL_POPEN = subprocess.Popen


class Hang(BaseException):
    pass


class Pipe:
    """Readable end whose content is produced by the commands written to the other end."""

    def __init__(self, proc, text):
        self.proc = proc
        self.buf = ""
        self.eofs = 0
        self.text = text
        self.closed = False

    def _conv(self, s):
        return s if self.text else s.encode()

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if n is None or n < 0:
            if self.proc.alive:
                raise Hang("reading to the end of the output of a live process")
            n = len(self.buf)
        if len(self.buf) < n and self.proc.alive:
            self._short()
        s, self.buf = self.buf[:n], self.buf[n:]
        if not s and n:
            if self.proc.alive:
                raise Hang("reading from a process that waits for a command")
            self.eofs += 1
            if self.eofs > 500:
                raise Hang("reading at the end of the output again and again")
        return self._conv(s)

    def _short(self):
        # a text pipe returns only when it has n characters or EOF
        if self.text:
            raise Hang("reading from a process that waits for a command")

    def readline(self):
        i = self.buf.find("\n")
        if i < 0:
            if self.proc.alive:
                raise Hang("reading from a process that waits for a command")
            i = len(self.buf) - 1
        s, self.buf = self.buf[:i + 1], self.buf[i + 1:]
        return self._conv(s)

    def __iter__(self):
        return iter(self.readline, self._conv(""))

    def close(self):
        self.closed = True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class In:
    def __init__(self, proc):
        self.proc = proc
        self.pending = ""
        self.closed = False

    def write(self, s):
        if isinstance(s, bytes):
            s = s.decode()
        self.pending += s
        return len(s)

    def flush(self):
        if not self.proc.alive:
            raise BrokenPipeError(32, "Broken pipe")
        while "\n" in self.pending and self.proc.alive:
            line, self.pending = self.pending.split("\n", 1)
            self.proc.command(line)

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.proc.alive:
            with contextlib.suppress(BrokenPipeError):
                self.flush()
        self.proc.alive = False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


def is_text(kw):
    return bool(kw.get("universal_newlines") or kw.get("text") or kw.get("encoding") or kw.get("errors"))


class Base:
    returncode = None
    pid = 99999999
    args = ()

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class InkProc(Base):
    def __init__(self, world, args, kw):
        text = is_text(kw)
        self.world = world
        self.alive = True
        self.args = args
        cfg = world.ink
        self.server = fakeink.Server(cfg.get("version", fakeink.VERSION), cfg.get("faults"),
                                     self.log, cfg.get("epoch", ""), cfg.get("scale", 1.0),
                                     cfg.get("digest", False))
        self.number = len(world.procs)
        world.procs.append(self)
        self.stdout = Pipe(self, text)
        self.stdout.buf = fakeink.BANNER
        self.stderr = Pipe(self, text) if kw.get("stderr") == subprocess.PIPE else None
        self.stdin = In(self)
        self.blocked = False

    def log(self, cmd, note):
        self.world.log.append((self.number, cmd, note))

    def command(self, line):
        text, alive = self.server.command(line)
        if self.server.stderr and self.stderr is not None:
            self.stderr.buf += self.server.stderr
            if len(self.stderr.buf) > 65536:
                # the process blocks on its full pipe and never answers
                self.server.stderr = None
                self.blocked = True
                return
        self.server.stderr = None
        if self.blocked:
            return
        self.stdout.buf += text
        self.alive = alive

    def poll(self):
        return None if self.alive else 1

    def wait(self, timeout=None):
        if self.alive:
            raise Hang("waiting for a process that waits for a command")
        self.returncode = 1
        return 1

    def kill(self):
        self.alive = False

    terminate = kill

    def communicate(self, input=None, timeout=None):
        if input:
            self.stdin.write(input)
            self.stdin.flush()
        self.alive = False
        return self.stdout.read(), None


class Done(Base):
    """A program that has already run."""

    def __init__(self, returncode=0, out=b"", err=b""):
        self.returncode = returncode
        self.stdout = self.stderr = self.stdin = None
        self._res = (out, err)

    def connect(self, args, kw):
        """The streams that the caller asked for, as subprocess.Popen gives them."""
        out, err = self._res
        self.args = args
        conv = io.BytesIO if not is_text(kw) else (lambda b: io.StringIO(b.decode()))
        if kw.get("stderr") == subprocess.STDOUT:
            out, err = out + err, b""
        ends = []
        for name, data in (("stdout", out), ("stderr", err)):
            dest = kw.get(name)
            if dest == subprocess.PIPE:
                stream = conv(data)
                setattr(self, name, stream)
                ends.append(stream.getvalue())
                continue
            ends.append(None)
            if dest not in (None, subprocess.DEVNULL, subprocess.STDOUT):
                os.write(dest if isinstance(dest, int) else dest.fileno(), data)
        if kw.get("stdin") == subprocess.PIPE:
            self.stdin = conv(b"")
        self._res = tuple(ends)
        return self

    def communicate(self, input=None, timeout=None):
        return self._res

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    terminate = kill


class World:
    """Configuration and log of the external programs."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.ink = {}
        self.log = []
        self.procs = []
        self.tex = {}       # "svg": function(tex source) -> svg text; "fault": kind

    def count(self, *names):
        return sum(1 for _, c, _ in self.log if c.partition(":")[0] in names)

    def popen(self, args, *a, **kw):
        if isinstance(args, (str, bytes)):
            words = shlex.split(os.fsdecode(args)) if kw.get("shell") else [os.fsdecode(args)]
        else:
            words = [os.fsdecode(x) for x in ([args] if isinstance(args, os.PathLike) else args)]
        prog = os.path.basename(words[0])
        if prog == "fakeink.py":
            return InkProc(self, args, kw)
        tool = {"pdflatex": self.pdflatex, "pdf2svg": self.pdf2svg, "pdfunite": self.pdfunite}.get(prog)
        if tool is not None:
            return tool(words, os.fspath(kw.get("cwd") or os.getcwd())).connect(args, kw)
        return REAL_POPEN(args, *a, **kw)

    def pdflatex(self, args, cwd):
        name = [x for x in args[1:] if not x.startswith("-")][-1]
        if not name.endswith(".tex"):
            name += ".tex"
        with open(os.path.join(cwd, name), encoding="utf-8") as f:
            src = f.read()
        self.log.append((-1, "pdflatex", hashlib.sha1(src.encode()).hexdigest()))
        out = cwd
        for i, x in enumerate(args):
            if x.lstrip("-").startswith("output-directory"):
                out = os.path.join(cwd, x.partition("=")[2] or args[i + 1])
        base = os.path.join(out, os.path.basename(name)[:-4])
        with open(base + ".log", "w") as f:
            f.write("log of pdflatex")
        if self.tex.get("fault") == "pdflatex":
            return Done(1, b"! Undefined control sequence")
        with open(base + ".pdf", "w", encoding="utf-8") as f:
            f.write(src)
        # an output can be there although the program failed or was killed
        return Done({"pdflatex-output": 1, "pdflatex-killed": -9}.get(self.tex.get("fault"), 0))

    def pdf2svg(self, args, cwd):
        self.log.append((-1, "pdf2svg", ""))
        with open(os.path.join(cwd, args[1]), encoding="utf-8") as f:
            src = f.read()
        fault = self.tex.get("fault")
        svg = self.tex["svg"](src)
        if fault == "pdf2svg-partial":
            svg = svg[:len(svg) // 2]
        if fault in ("pdf2svg-output", "pdf2svg-killed"):
            svg = svg.replace("</svg>", "<g class='incomplete'/></svg>")
        if fault != "pdf2svg":
            with open(os.path.join(cwd, args[2]), "w", encoding="utf-8") as f:
                f.write(svg)
        code = {"pdf2svg": 1, "pdf2svg-partial": 1, "pdf2svg-output": 1, "pdf2svg-killed": -9}.get(fault, 0)
        return Done(code, b"", b"pdf2svg error")

    def pdfunite(self, args, cwd):
        from PyPDF2 import PdfFileMerger

        m = PdfFileMerger()
        for a in args[1:-1]:
            m.append(os.path.join(cwd, a))
        with open(os.path.join(cwd, args[-1]), "wb") as f:
            m.write(f)
        return Done()


WORLD = World()


class FakePopen(REAL_POPEN):
    def __new__(cls, args, *a, **kw):
        return WORLD.popen(args, *a, **kw)


def install():
    """Activates the stand-ins for the whole process (only in worker processes of checks)."""
    subprocess.Popen = FakePopen
    import elsie.ext  # noqa
    import elsie.ext.latex  # noqa
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "elsie":
            for k, v in list(vars(m).items()):
                if v is REAL_POPEN:
                    setattr(m, k, FakePopen)
    WORLD.reset()
    return WORLD


def uninstall():
    subprocess.Popen = REAL_POPEN
