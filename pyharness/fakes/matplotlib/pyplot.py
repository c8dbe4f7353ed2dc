"""Stand-in for matplotlib's pyplot: axes that record what is drawn on them."""


class Axes:
    def __init__(self):
        self.drawn = []  # (method, arguments, keywords)

    def _record(name):
        def f(self, *a, **k):
            self.drawn.append((name, a, k))
            return []
        return f

    plot = _record("plot")
    scatter = _record("scatter")
    quiver = _record("quiver")


class Figure:
    def __init__(self, **k):
        self.kwargs = k

    def add_subplot(self, *a, **k):
        assert k.get("projection") == "3d"
        ax = Axes()
        ax.figure = self
        return ax


def figure(**k):
    return Figure(**k)
