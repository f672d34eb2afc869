"""Chart observation: the figure is inspected at the moment it is written; rendering itself is replaced by a tiny picture."""
import hashlib
import io
import os

from matplotlib.backend_bases import FigureCanvasBase
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.colors import to_hex
from PIL import Image

_TINY = {}


def _tiny(fmt, shot):
    """A small picture whose pixels depend on the data shown."""
    key = (fmt, repr(shot))
    if key not in _TINY:
        if len(_TINY) > 5000:
            _TINY.clear()
        b = io.BytesIO()
        Image.frombytes("RGB", (4, 4), hashlib.sha512(key[1].encode()).digest()[:48]).save(b, format=fmt)
        _TINY[key] = b.getvalue()
    return _TINY[key]


def pixels(image):
    """What an image shows."""
    return (image.size, image.convert("RGB").tobytes())


class Recorder:
    """While `on`, every figure that is written (or drawn) is described; writing produces a tiny picture instead of rendering."""

    def __init__(self):
        self.on = False
        self.shots = []
        self.fail = None  # fault injection: the exception the next write raises

    def install(self):
        recorder = self
        write, draw = FigureCanvasBase.print_figure, FigureCanvasAgg.draw

        def print_figure(canvas, filename, *args, **kwargs):
            if not recorder.on:
                return write(canvas, filename, *args, **kwargs)
            if recorder.fail is not None:
                error, recorder.fail = recorder.fail, None
                raise error
            recorder.shots.append(describe(canvas.figure))
            fmt = kwargs.get("format") or (args[4] if len(args) > 4 else None)
            if fmt is None and not hasattr(filename, "write"):
                fmt = os.path.splitext(str(filename))[1][1:]
            fmt = (fmt or "png").lower()
            data = _tiny({"tif": "TIFF", "tiff": "TIFF", "jpg": "JPEG", "jpeg": "JPEG", "webp": "WEBP"}.get(fmt, "PNG"), recorder.shots[-1])
            if hasattr(filename, "write"):
                filename.write(data)
            else:
                with open(filename, "wb") as f:
                    f.write(data)

        def drawing(canvas, *args, **kwargs):
            if recorder.on:
                recorder.shots.append(describe(canvas.figure))
            return draw(canvas, *args, **kwargs)

        FigureCanvasBase.print_figure = print_figure
        FigureCanvasAgg.draw = drawing
        self.on = True


def describe(fig):
    out = {"axes": []}
    for ax in fig.axes:
        bars = []
        for p in ax.patches:
            if hasattr(p, "get_width") and p.get_visible() and p.get_alpha() != 0 and filled(p, ax):
                bars.append((float(p.get_x()), float(p.get_width()), float(p.get_y()), float(p.get_height())))
        lines = []
        for ln in ax.get_lines():
            if not ln.get_visible() or ln.get_alpha() == 0 or not drawn(ln, ax):
                continue
            lines.append(([float(x) for x in ln.get_xdata()], [float(y) for y in ln.get_ydata()], str(ln.get_label()), style(ln)))
        legend = ax.get_legend()
        out["axes"].append({
            "bars": bars, "lines": lines, "collections": len(ax.collections),
            "legend": [t.get_text() for t in legend.get_texts()] if legend is not None else None,
            "keys": keys(legend),
            "xlim": tuple(sorted(map(float, ax.get_xlim()))), "ylim": tuple(sorted(map(float, ax.get_ylim()))),
            "scales": (str(ax.get_xscale()), str(ax.get_yscale())), "shown": bool(fig.get_visible() and ax.get_visible()),
            "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "title": ax.get_title(),
        })
    return out


def filled(patch, ax):
    """The patch can be told from the background."""
    try:
        paper = to_hex(ax.get_facecolor())
        face, edge = patch.get_facecolor(), patch.get_edgecolor()
        inside = patch.get_fill() and face[3] > 0 and to_hex(face) != paper
        return bool(inside or (patch.get_linewidth() > 0 and edge[3] > 0 and to_hex(edge) != paper))
    except (AttributeError, ValueError, TypeError, IndexError):
        return True


def drawn(line, ax):
    """The line can be told from the background."""
    try:
        marks = str(line.get_marker()).strip().lower() not in ("", "none")
        stroke = line.get_linewidth() > 0 and str(line.get_linestyle()).strip().lower() not in ("", "none")
        return bool((marks or stroke) and to_hex(line.get_color()) != to_hex(ax.get_facecolor()))
    except (AttributeError, ValueError, TypeError):
        return True


def style(line):
    """What tells one line from another to the eye."""
    try:
        return (to_hex(line.get_color()), str(line.get_linestyle()), str(line.get_marker()))
    except (AttributeError, ValueError):
        return None


def keys(legend):
    """The legend's entries as (name, style of the sample beside it), None where the samples are not lines."""
    if legend is None:
        return None
    samples = getattr(legend, "legend_handles", None) or getattr(legend, "legendHandles", None) or []
    texts = [t.get_text() for t in legend.get_texts()]
    found = [style(h) for h in samples]
    if len(found) != len(texts) or None in found:
        return None
    return list(zip(texts, found))


RECORDER = Recorder()
