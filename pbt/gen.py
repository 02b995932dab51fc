"""Generators. All cases are plain data (lists, numbers, strings); build() turns an obstacle spec into an obstacle.

Numbers are drawn as bytes (one draw for many numbers) and mapped to grids, so that exact degeneracies (collinear points,
points on edges, equal coordinates, axis aligned and diagonal directions) are common and cases shrink to simple ones."""
import math

import numpy as np
from hypothesis import assume, strategies as st

from pbt import core, ref  # noqa: F401  (core sets the import path)


class Raw:
    """Numbers decoded from drawn bytes. All zero bytes give the simplest case."""

    def __init__(self, draw, n):
        self.b = draw(st.binary(min_size=n, max_size=n))
        self.i = 0

    def byte(self):
        self.i += 1
        return self.b[self.i - 1]

    def int(self, lo, hi):
        """lo..hi, zero bytes give lo."""
        if hi - lo > 255:
            return lo + (self.byte() * 256 + self.byte()) % (hi - lo + 1)
        return lo + self.byte() % (hi - lo + 1)

    def sym(self, m):
        """-m..m, zero bytes give 0."""
        k = self.int(0, 2 * m)
        return (k + 1) // 2 if k % 2 else -(k // 2)

    def coord(self, r, q=8):
        return self.sym(int(r * q)) / q

    def point(self, r, q=8):
        return [self.coord(r, q), self.coord(r, q)]

    def angle(self):
        if self.byte() % 2:
            return self.sym(350) / 100
        return self.sym(12) * math.pi / 12


@st.composite
def raw(draw, n, f):
    return f(Raw(draw, n))


def coord(r, q=8):
    """Multiples of 1/q in [-r, r]."""
    return raw(2, lambda b: b.coord(r, q))


def point(r, q=8):
    return raw(4, lambda b: b.point(r, q))


def points(n, r, q=8):
    return raw(4 * n, lambda b: [b.point(r, q) for _ in range(n)])


def point_in(lo, hi, q=16):
    return raw(4, lambda b: [b.int(lo * q, hi * q) / q, b.int(lo * q, hi * q) / q])


def points_in(n, lo, hi, q=16):
    return raw(4 * n, lambda b: [[b.int(lo * q, hi * q) / q, b.int(lo * q, hi * q) / q] for _ in range(n)])


angle = raw(3, lambda b: b.angle())


def pose(r=4, none=True):
    """Some without a pose, some far away and with several turns."""
    def f(b):
        k = b.byte()
        if none and k % 4 == 0:
            return None
        p = [b.coord(r), b.coord(r), b.angle()]
        return [64 * p[0], 64 * p[1], 4 * p[2]] if k >= 224 else p
    return raw(8, f)


def pose_in(lo, hi):
    return raw(8, lambda b: [b.int(lo * 16, hi * 16) / 16, b.int(lo * 16, hi * 16) / 16, b.angle()])


def centered(v):
    """Move (a multiple of 1/64 close to) the mean of the vertices to the origin."""
    c = [round(sum(p[i] for p in v) / len(v) * 64) / 64 for i in range(2)]
    return [[p[0] - c[0], p[1] - c[1]] for p in v]


# ---------- polygons (lists of vertices, simple, distinct) ---------- #
@st.composite
def convex_vertices(draw, r=2, q=8, nmax=9):
    b = Raw(draw, 2 + 4 * (nmax + 3))
    n = b.int(3, nmax + 3)
    h = [list(p) for p in ref.convex_hull([b.point(r, q) for _ in range(n)])]
    if len(h) < 3 or ref.area2(h) <= 0.25:
        h = [[-r, -r / 2], [r, -r / 2], [r / 4, r / 2]]
    return h


@st.composite
def star_vertices(draw, nmin=4, nmax=10, r=16, q=64, clearance=0.05):
    """Polygon which is starshaped with respect to (a neighbourhood of) the origin."""
    b = Raw(draw, 2 + 2 * nmax)
    n = b.int(nmin, nmax)
    a = b.int(0, 15) * math.pi / 8
    gaps = [b.int(2, 7) for _ in range(n)]
    radii = [b.int(3, r) for _ in range(n)]
    tot = sum(gaps)
    # The origin is enclosed only if no gap is too large
    gaps = [min(g, 0.42 * tot) for g in gaps]
    tot = sum(gaps)
    v = []
    for g, rad in zip(gaps, radii):
        v.append([round(rad / 8 * math.cos(a) * q) / q, round(rad / 8 * math.sin(a) * q) / q])
        a += g * 2 * math.pi / tot
    assume(ref.is_simple(v))
    # Origin must be to the left of all edges with some clearance
    v = ref.ccw(v)
    for i in range(n):
        p, w = np.array(v[i - 1]), np.array(v[i])
        d = w - p
        assume((d[0] * -p[1] - d[1] * -p[0]) / np.linalg.norm(d) > clearance)
    return v


@st.composite
def tangled_vertices(draw, nmin=4, nmax=9, r=2, q=8):
    """Random points, uncrossed by 2-opt: simple polygons of any shape."""
    b = Raw(draw, 1 + 2 * nmax)
    n = b.int(nmin, nmax)
    v = []
    for _ in range(n):
        p = b.point(r, q)
        if p not in v:
            v.append(p)
    assume(len(v) > 3)
    n = len(v)
    for _ in range(60):
        changed = False
        for i in range(n):
            for j in range(i + 2, n):
                if (j + 1) % n == i:
                    continue
                if ref.segments_intersect(v[i], v[i + 1], v[j], v[(j + 1) % n]):
                    v[i + 1:j + 1] = v[i + 1:j + 1][::-1]
                    changed = True
        if not changed:
            break
    assume(ref.is_simple(v) and abs(ref.area2(v)) > 0.4)
    return v


@st.composite
def pocket_vertices(draw):
    """C-shapes and spirals: exterior points which are (almost or completely) enclosed."""
    b = Raw(draw, 8)
    if b.byte() % 2 == 0:
        w, h = b.int(8, 24) / 8, b.int(10, 24) / 8
        t = b.int(1, 3) / 8
        lip = b.int(0, 3) / 8
        v = [[0, 0], [w, 0], [w, t + lip], [w - t, t + lip], [w - t, t], [t, t], [t, h - t], [w - t, h - t],
             [w - t, h - t - lip], [w, h - t - lip], [w, h], [0, h]]
        if lip == 0:
            v = [[0, 0], [w, 0], [w, t], [t, t], [t, h - t], [w, h - t], [w, h], [0, h]]
        v = [[x - w / 2, y - h / 2] for x, y in v]
    else:
        steps = b.int(6, 16)
        dth = [math.pi / 4, math.pi / 3, 0.6][b.int(0, 2)]
        r0, dr = b.int(4, 8) / 8, b.int(2, 4) / 8
        th = 0.35 * dr
        out, inn = [], []
        for i in range(steps):
            a = i * dth
            r = r0 + dr * a / (2 * math.pi)
            out.append([round((r + th) * math.cos(a) * 64) / 64, round((r + th) * math.sin(a) * 64) / 64])
            inn.append([round((r - th) * math.cos(a) * 64) / 64, round((r - th) * math.sin(a) * 64) / 64])
        v = out + inn[::-1]
    assume(ref.is_simple(v))
    return v


def any_vertices():
    return st.one_of(convex_vertices(), star_vertices(), tangled_vertices(), tangled_vertices(nmin=6, nmax=12),
                     pocket_vertices())


@st.composite
def relabel(draw, v):
    """Same polygon: rotated vertex list, reversed, with vertices inserted on edges."""
    b = Raw(draw, 8)
    k = b.int(0, len(v) - 1)
    w = v[k:] + v[:k]
    for i in sorted({b.int(0, len(v) - 1) for _ in range(b.int(0, 3))}, reverse=True):
        p, r = w[i - 1], w[i]
        m = [(p[0] + r[0]) / 2, (p[1] + r[1]) / 2]
        w = w[:i] + [m] + w[i:] if i > 0 else w + [m]
    if b.byte() % 2:
        w = w[::-1]
    return w


# ---------- obstacles ---------- #
@st.composite
def ellipse_spec(draw, pose_st=None, amin=3, amax=16):
    """xr is given as fraction of the semi-axes (inside the ellipse)."""
    b = Raw(draw, 5)
    a = [b.int(amin, amax) / 8, b.int(amin, amax) / 8]
    xr = None if b.byte() % 3 == 0 else [b.coord(.5), b.coord(.5)]
    return {'t': 'E', 'a': a, 'pose': draw(pose() if pose_st is None else pose_st), 'xr': xr}


@st.composite
def star_spec(draw, pose_st=None, vertices=None):
    return {'t': 'S', 'v': draw(star_vertices() if vertices is None else vertices),
            'pose': draw(pose() if pose_st is None else pose_st), 'xr': draw(st.sampled_from([None, [0., 0.]]))}


@st.composite
def polygon_spec(draw, pose_st=None, vertices=None):
    return {'t': 'P', 'v': draw(any_vertices() if vertices is None else vertices),
            'pose': draw(pose() if pose_st is None else pose_st)}


def moved_points(p, d):
    """Nested lists of points, moved by d."""
    if p is None:
        return None
    if len(p) == 2 and not isinstance(p[0], (list, tuple)):
        return [p[0] + d[0], p[1] + d[1]]
    return [moved_points(q, d) for q in p]


@st.composite
def off_center(draw, cases, keys=('p',)):
    """Half of the cases with the polygon (and the points under keys) moved away from the origin of its frame."""
    c = draw(cases)
    b = Raw(draw, 5)
    if b.byte() % 2 == 0 or c['o']['t'] == 'E':
        return c
    d = [b.coord(8, 2), b.coord(8, 2)]
    c = dict(c, o=dict(c['o'], v=moved_points(c['o']['v'], d)), off=d)
    if c['o'].get('xr') is not None:
        c['o']['xr'] = moved_points(c['o']['xr'], d)
    for k in keys:
        c[k] = moved_points(c[k], d)
    return c


def obstacle_spec(pose_st=None):
    return st.one_of(ellipse_spec(pose_st), star_spec(pose_st), polygon_spec(pose_st))


def build(spec, motion_model=None, **kwargs):
    from obstacles import Ellipse, Polygon, StarshapedPolygon
    from obstacles import motion_model as mm
    p = spec.get('pose')
    if motion_model is None and p is not None:
        motion_model = mm.Static(p[:2], p[2])
    if spec['t'] == 'E':
        xr = spec.get('xr')
        if xr is not None:
            xr = [xr[0] * spec['a'][0], xr[1] * spec['a'][1]]
        return Ellipse(spec['a'], xr=xr, motion_model=motion_model, **kwargs)
    if spec['t'] == 'S':
        return StarshapedPolygon(spec['v'], xr=spec.get('xr'), motion_model=motion_model, **kwargs)
    return Polygon(spec['v'], motion_model=motion_model, **kwargs)


def region(spec, n=128, pad=0.):
    """Reference region in the global frame (ellipses as n-gons inscribed in the ellipse with axes a + pad)."""
    import shapely.geometry as sg
    if spec['t'] == 'E':
        return ref.ellipse_polygon(spec['a'], spec.get('pose'), n, pad)
    return sg.Polygon(ref.fwd_all(spec.get('pose'), spec['v']))


def global_vertices(spec):
    return ref.fwd_all(spec.get('pose'), spec['v'])


def location(spec, x):
    """Location of the global point x: (-1 | 0 | 1, distance to the boundary (a lower bound for ellipses))."""
    y = ref.inv(spec.get('pose'), x)
    if spec['t'] == 'E':
        a = spec['a']
        f = math.hypot(y[0] / a[0], y[1] / a[1])
        return (f > 1) - (f < 1), abs(f - 1) * min(a)
    v = spec['v']
    d = ref.boundary_distance(v, y)
    return ref.locate(v, y), d
