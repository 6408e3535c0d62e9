"""pyvista stub.

Only the part of ExplicitStructuredGrid that the repository's own results
depend on is given a contract: natural (Fortran) ordering of cells, cell
coordinates, and cell volumes/centres of box-shaped cells computed from the
corners that were passed in.  Rendering is outside the encoding."""
from __future__ import annotations

import types
from collections.abc import Sequence

import numpy as np

from . import core, npf
from .npf import arr_from, facade as fnp, to_float_arr


class Dummy:
    """accepts anything, returns itself"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return self

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter(())


class ExplicitStructuredGrid:
    def __init__(self, dims, corners):
        self.dims = tuple(int(x) for x in np.asarray(dims).reshape(-1))
        if len(self.dims) != 3:
            raise ValueError("Expected dimensions to be length 3.")
        self.shape = tuple(d - 1 for d in self.dims)
        ni, nj, nk = self.shape
        c = to_float_arr(arr_from(corners))
        c = np.reshape(np.asarray(c).view(np.ndarray), (2 * ni, 2 * nj, 2 * nk, 3), order="F")
        self.corners = c
        self.n_cells = ni * nj * nk
        self.cell_data = {}
        self.point_data = {}

    def __setitem__(self, name, values):
        if len(values) != self.n_cells:
            raise ValueError("Number of scalars must match the number of cells.")
        self.cell_data[name] = values

    def __getitem__(self, name):
        return self.cell_data[name]

    @property
    def dimensions(self):
        return self.dims

    def _corner(self, c):
        i, j, k = np.unravel_index(c, self.shape, order="F")
        out = []
        for a, b, d in [
            (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
            (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1),
        ]:
            out.append([self.corners[2 * i + a, 2 * j + b, 2 * k + d, x] for x in range(3)])
        return out

    def _vol(self, c):
        p = self._corner(c)

        def sub(a, b):
            return [x - y for x, y in zip(a, b)]

        def det(a, b, c):
            return (
                a[0] * (b[1] * c[2] - b[2] * c[1])
                - a[1] * (b[0] * c[2] - b[2] * c[0])
                + a[2] * (b[0] * c[1] - b[1] * c[0])
            )

        # decomposition into five tetrahedra
        v = core.ZERO
        for a, b, c_, d in [(0, 1, 3, 4), (1, 4, 5, 6), (1, 4, 6, 3), (1, 3, 6, 2), (3, 6, 7, 4)]:
            v = v + npf.sabs(
                core.lift(det(sub(p[b], p[a]), sub(p[c_], p[a]), sub(p[d], p[a])))
            ) * core.F(1, 6)
        return v

    @property
    def volume(self):
        return sum((self._vol(c) for c in range(self.n_cells)), core.ZERO)

    def compute_cell_sizes(self, *a, **k):
        vs = [self._vol(c) for c in range(self.n_cells)]
        return {"Volume": to_float_arr(arr_from(vs))}

    def cell_centers(self, *a, **k):
        pts = []
        for c in range(self.n_cells):
            p = self._corner(c)
            pts.append([sum((q[x] for q in p), core.ZERO) * core.F(1, 8) for x in range(3)])
        r = types.SimpleNamespace()
        r.points = to_float_arr(arr_from(pts))
        return r

    def cell_id(self, coords):
        if isinstance(coords, Sequence):
            coords = fnp.asarray(coords)
        coords = np.asarray(coords)
        if coords.dtype == object:
            coords = np.array([int(x) for x in coords.reshape(-1)]).reshape(coords.shape)
        if coords.ndim == 2:
            coords = tuple(coords[:, c] for c in range(coords.shape[1]))
        try:
            return np.ravel_multi_index(coords, np.array(self.shape), order="F")
        except ValueError:
            return None

    def cell_coords(self, ind):
        if core.Ctx.cur is not None and isinstance(ind, core.SymInt):
            ind = int(ind)
        ind = np.asarray(ind)
        if ind.dtype == object:
            ind = np.array([int(x) for x in ind.reshape(-1)]).reshape(ind.shape)
        if ind.ndim == 0:
            ind = ind[()]
        try:
            coords = np.unravel_index(ind, np.array(self.shape), order="F")
        except ValueError:
            return None
        if isinstance(coords[0], np.ndarray):
            return np.stack(coords, axis=1)
        return np.asanyarray(coords)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Dummy()


class _M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Dummy()


facade = _M("pyvista")
facade.ExplicitStructuredGrid = ExplicitStructuredGrid


def dummy_module(name):
    return _M(name)
