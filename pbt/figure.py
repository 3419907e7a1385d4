"""Captures the figures tbplas saves instead of rendering them."""
import contextlib
import os

os.environ["MPLBACKEND"] = "Agg"


@contextlib.contextmanager
def captured():
    """Yields a list that receives (file name, figure) for every figure saved, (None, figure) for one shown; nothing is written."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    out = []
    orig, show = Figure.savefig, plt.show

    def savefig(self, fname, *args, **kwargs):
        out.append((fname, self))
    Figure.savefig = savefig
    plt.show = lambda *args, **kwargs: out.extend((None, plt.figure(n)) for n in plt.get_fignums())
    try:
        yield out
    finally:
        Figure.savefig, plt.show = orig, show
        plt.close("all")


def arrows(ax):
    """[(x, y, dx, dy)] of the arrows drawn with axes.arrow."""
    from matplotlib.patches import FancyArrow
    return [(p._x, p._y, p._dx, p._dy, p) for p in ax.patches if isinstance(p, FancyArrow)]


def segments(ax):
    """Line collections: list of (n, 2, 2) lists."""
    from matplotlib.collections import LineCollection
    return [[s[:2].tolist() for s in c.get_segments()] for c in ax.collections if isinstance(c, LineCollection)]


def scatters(ax):
    from matplotlib.collections import PathCollection
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def line_collections(ax):
    from matplotlib.collections import LineCollection
    return [c for c in ax.collections if isinstance(c, LineCollection)]
