"""A stand-in for pyvista's plotter that records what it is given to show.

Used in symbolic runs and in replays (there is no display): meshes, the data
they carry at every frame, labels, texts and sliders."""
from __future__ import annotations


class Text:
    def __init__(self, text):
        self.text = text

    def SetInput(self, text):
        self.text = text

    set_text = SetInput

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Camera:
    def zoom(self, *a, **k):
        pass


class Cylinder:
    def __init__(self, center=(0, 0, 0), direction=(1, 0, 0), radius=0.5, height=1.0, **k):
        self.center = [x for x in center]
        self.direction = tuple(direction)
        self.radius = radius
        self.height = height


class Shown:
    """a mesh in a figure"""

    def __init__(self, mesh, kw):
        self.mesh = mesh
        self.kw = kw
        self.name = None
        sc = kw.get("scalars")
        if sc is not None:
            if isinstance(sc, str):
                self.name = sc
            else:
                self.name = "Data"  # the name pyvista gives
                if len(sc) != mesh.n_cells:
                    raise ValueError("number of scalars does not match the cells")
                mesh[self.name] = sc

    def data(self):
        return [x for x in self.mesh[self.name]]


class Figure:
    """recording Plotter"""

    log: list = []

    def __init__(self, *a, **kw):
        self.kw = kw
        self.meshes = []
        self.texts = []
        self.labels = []
        self.points = []
        self.frames = []
        self.sliders = []
        self.shows = []
        self.gif = None
        self.closed = False
        self.camera = Camera()
        self.camera_position = None
        Figure.log.append(self)

    # what is in the figure
    def add_mesh(self, mesh, *a, **kw):
        s = Shown(mesh, kw)
        self.meshes.append(s)
        return s

    def add_text(self, text="", *a, **kw):
        t = Text(text)
        t.position = kw.get("position", a[0] if a else None)
        self.texts.append(t)
        return t

    def add_point_labels(self, points, labels, *a, **kw):
        self.labels.append(([list(p) for p in points], [x for x in labels]))

    def add_points(self, points, *a, **kw):
        self.points.append([list(p) for p in points])

    def add_slider_widget(self, callback, rng, value=None, **kw):
        self.sliders.append((callback, tuple(rng), value))
        callback(rng[0] if value is None else value)

    def open_gif(self, filename, *a, **kw):
        self.gif = (filename, kw)

    def update_scalars(self, scalars, mesh=None, *a, **kw):
        for s in self.meshes:
            if s.name and (mesh is None or s.mesh is mesh):
                s.mesh[s.name] = scalars

    # moments
    def snap(self):
        return ([s.data() if s.name else None for s in self.meshes], [t.text for t in self.texts])

    def write_frame(self):
        self.frames.append(self.snap())

    def show(self, *a, **kw):
        self.shows.append(self.snap())

    def close(self):
        self.closed = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Plots:
    """records what is drawn by matplotlib: [(kind, values)] per shown figure"""

    names = ("plot", "imshow", "show", "subplots", "figure", "gca", "scatter", "step", "matshow", "savefig", "xlabel", "ylabel", "xticks", "yticks", "title", "grid", "colorbar", "legend", "close", "tight_layout", "clf", "cla", "suptitle", "xlim", "ylim", "gcf", "axes", "subplot")

    def __init__(self):
        self.drawn, self.shown, self.texts = [], [], []

    def __iter__(self):
        return iter((self, self))

    def _draw(self, kind, a):
        vals = [x for x in a if not isinstance(x, str)]
        self.drawn.append((kind, vals[-1]))
        return [self]

    def plot(self, *a, **k):
        return self._draw("line", a)

    step = scatter = plot

    def imshow(self, *a, **k):
        self._draw("image", a[:1])
        return self

    matshow = imshow

    def show(self, *a, **k):
        self.shown.append(self.drawn)
        self.drawn = []

    def title(self, *a, **k):
        self.texts += list(a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self
