"""Creating decks/backends for the checks (shared fake Inkscape, scratch cache directories)."""
import json
import os
import sys

sys.dont_write_bytecode = True
import elsie  # noqa
from elsie.render.backends import CairoBackend, InkscapeBackend  # noqa

from .svgobs import Page  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = os.path.join(HERE, "fakeink.py")
REAL = "/opt/vp/inkscape-quiet"


def shared_backend(env, key="backend"):
    """One backend (one fake Inkscape process) per worker."""
    if key not in env.data:
        os.environ.pop("FAKE_INK_LOG", None)
        os.environ.pop("FAKE_INK_FAULT", None)
        d = env.fresh_dir("cache")
        env.data[key] = InkscapeBackend(inkscape=FAKE, cache_dir=d)
        env.data[key + "-dir"] = d
    return env.data[key], env.data[key + "-dir"]


def new_deck(env, **kwargs):
    backend, d = shared_backend(env)
    return elsie.SlideDeck(backend=backend, cache_dir=d, **kwargs)


def render_units(deck, **kwargs):
    kwargs.setdefault("save_cache", False)
    kwargs.setdefault("prune_cache", False)
    return deck.render(output=None, return_units=True, **kwargs)


def pages(deck, **kwargs):
    return [Page(u.get_svg()) for u in render_units(deck, **kwargs)]


def svgs(deck, **kwargs):
    return [u.get_svg() for u in render_units(deck, **kwargs)]


def color(n):
    """A marker colour; #0000xx .. #00ffff"""
    return "#%06x" % (n + 1)


def close_backend(backend):
    p = backend.inkscape.process
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            if f is not None:
                f.close()
        except Exception:
            pass
    try:
        p.kill()
        p.wait(10)
    except Exception:
        pass
