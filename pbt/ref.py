"""Independent reference geometry: nothing here uses the code under test."""
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg

from pbt.core import HarnessError


# ---------- rigid motions ---------- #
def fwd(pose, x):
    """Obstacle frame -> global frame, pose = [x, y, rot] or None."""
    if pose is None:
        return np.array(x, float)
    z = complex(x[0], x[1]) * complex(math.cos(pose[2]), math.sin(pose[2])) + complex(pose[0], pose[1])
    return np.array([z.real, z.imag])


def inv(pose, x):
    if pose is None:
        return np.array(x, float)
    z = (complex(x[0], x[1]) - complex(pose[0], pose[1])) * complex(math.cos(pose[2]), -math.sin(pose[2]))
    return np.array([z.real, z.imag])


def rot(pose, v):
    return fwd(None if pose is None else [0, 0, pose[2]], v)


def fwd_all(pose, pts):
    pts = np.array(pts, float)
    if pose is None:
        return pts
    z = (pts[:, 0] + 1j * pts[:, 1]) * complex(math.cos(pose[2]), math.sin(pose[2])) + complex(pose[0], pose[1])
    return np.c_[z.real, z.imag]


# ---------- exact predicates on floats ---------- #
def F(p):
    return Fraction(float(p[0])), Fraction(float(p[1]))


def cross(a, b, c):
    """Exact (b-a)x(c-a): positive if a,b,c is counterclockwise."""
    (ax, ay), (bx, by), (cx, cy) = F(a), F(b), F(c)
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)


def sign(v):
    return (v > 0) - (v < 0)


def side(a, b, c):
    """Sign of cross(a, b, c), exact (floating point filter first)."""
    u, v = (b[0] - a[0]) * (c[1] - a[1]), (b[1] - a[1]) * (c[0] - a[0])
    d = u - v
    if abs(d) > 1e-12 * (abs(u) + abs(v)) and abs(u) + abs(v) > 1e-200:
        if max(abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]), abs(c[0]), abs(c[1])) < 1e3 and abs(d) > 1e-9:
            return 1 if d > 0 else -1
    return sign(cross(a, b, c))


def on_segment(p, a, b):
    """Exact: p on the closed segment a-b."""
    if not (min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])):
        return False
    return side(a, b, p) == 0


def segments_intersect(a, b, c, d):
    if max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or \
            max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
        return False
    o1, o2, o3, o4 = side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return on_segment(c, a, b) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d)


def line_point(a, b, c, d):
    """Exact intersection of the lines a-b and c-d as floats and the parameters on both, None if parallel."""
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = F(a), F(b), F(c), F(d)
    den = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)
    if den == 0:
        return None
    t = ((cx - ax) * (dy - cy) - (cy - ay) * (dx - cx)) / den
    u = ((cx - ax) * (by - ay) - (cy - ay) * (bx - ax)) / den
    return np.array([float(ax + t * (bx - ax)), float(ay + t * (by - ay))]), t, u


def locate(v, p):
    """Exact location of p relative to the simple polygon v: -1 interior, 0 boundary, 1 exterior."""
    n = len(v)
    for i in range(n):
        if on_segment(p, v[i - 1], v[i]):
            return 0
    inside = False
    for i in range(n):
        a, b = v[i - 1], v[i]
        if (a[1] > p[1]) != (b[1] > p[1]):
            # p to the left of the edge (in x)
            if (side(a, b, p) > 0) == (b[1] > a[1]):
                inside = not inside
    return -1 if inside else 1


def area2(v):
    """Exact twice signed area."""
    s = Fraction(0)
    for i in range(len(v)):
        (ax, ay), (bx, by) = F(v[i - 1]), F(v[i])
        s += ax * by - ay * bx
    return s


def is_simple(v):
    n = len(v)
    for i in range(n):
        if tuple(v[i]) == tuple(v[i - 1]):
            return False
        # spikes
        if side(v[i - 2], v[i - 1], v[i]) == 0:
            (ax, ay), (bx, by), (cx, cy) = F(v[i - 2]), F(v[i - 1]), F(v[i])
            if (bx - ax) * (cx - bx) + (by - ay) * (cy - by) < 0:
                return False
    for i in range(n):
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if segments_intersect(v[i], v[i + 1], v[j], v[(j + 1) % n]):
                return False
    return area2(v) != 0


def is_convex(v):
    s = {side(v[i - 2], v[i - 1], v[i]) for i in range(len(v))}
    return not (1 in s and -1 in s)


def convex_hull(pts):
    """Exact strict convex hull, counterclockwise."""
    pts = sorted(set((float(p[0]), float(p[1])) for p in pts))
    if len(pts) <= 2:
        return pts
    def chain(ps):
        out = []
        for p in ps:
            while len(out) >= 2 and side(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return chain(pts) + chain(pts[::-1])


# ---------- regions ---------- #
def union(polygons):
    """Union; on a precision grid and closed, as overlays of (almost) overlapping edges are not reliable otherwise."""
    return shapely.union_all(polygons, grid_size=1e-9).buffer(1e-7, join_style='mitre').buffer(-9e-8, join_style='mitre')


def ccw(v):
    return list(v) if area2(v) > 0 else list(v)[::-1]


def kernel(v, margin=0.):
    """Kernel of the simple polygon v: a box, clipped by the half planes of all edges (overlays of GEOS may fail here)."""
    v = np.array(ccw(v), float)
    lo, hi = v.min(axis=0) - 1, v.max(axis=0) + 1
    k = [(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])]
    for i in range(len(v)):
        a, d = v[i - 1], v[i] - v[i - 1]
        d = d / np.hypot(*d)
        h = [d[0] * (q[1] - a[1]) - d[1] * (q[0] - a[0]) - margin for q in k]
        out = []
        for j in range(len(k)):
            if h[j] >= 0:
                out.append(k[j])
            m = (j + 1) % len(k)
            if (h[j] < 0) != (h[m] < 0):
                t = h[j] / (h[j] - h[m])
                out.append((k[j][0] + t * (k[m][0] - k[j][0]), k[j][1] + t * (k[m][1] - k[j][1])))
        k = out
        if not k:
            return sg.Polygon()
    g = sg.MultiPoint(k).convex_hull
    return g if g.geom_type == 'Polygon' else sg.Polygon()


def ellipse_polygon(a, pose=None, n=128, pad=0.):
    t = np.linspace(0, 2 * np.pi, n, endpoint=False)
    return sg.Polygon(fwd_all(pose, np.c_[(a[0] + pad) * np.cos(t), (a[1] + pad) * np.sin(t)]))


def angular_range(pts, x):
    """Unwrapped angles of the closed curve pts seen from x: (lo, hi, closing difference)."""
    d = np.array(pts, float) - np.array(x, float)
    d = np.vstack((d, d[:1]))
    cr = d[:-1, 0] * d[1:, 1] - d[:-1, 1] * d[1:, 0]
    dt = np.sum(d[:-1] * d[1:], axis=1)
    phi = np.arctan2(d[0, 1], d[0, 0]) + np.hstack((0, np.cumsum(np.arctan2(cr, dt))))
    return phi.min(), phi.max(), phi[-1] - phi[0]


def ang(v):
    return math.atan2(v[1], v[0])


def ccw_angle(a, b):
    """Angle from direction a to direction b, counterclockwise in [0, 2pi)."""
    return math.atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1]) % (2 * math.pi)


def check_valid(p):
    if not p.is_valid:
        raise HarnessError('invalid reference geometry')
    return p


def point_segment_distance(p, a, b):
    p, a, b = np.array(p, float), np.array(a, float), np.array(b, float)
    L = float(np.dot(b - a, b - a))
    t = 0. if L == 0 else min(max(float(np.dot(p - a, b - a)) / L, 0.), 1.)
    return float(np.linalg.norm(p - a - t * (b - a)))


def boundary_distance(v, p):
    return min(point_segment_distance(p, v[i - 1], v[i]) for i in range(len(v)))
