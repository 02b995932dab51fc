"""Combinations of polygons (StarshapedPrimitiveCombination) with exact coordinates, which are starshaped by construction.

All members are starshaped polygons around the reference point (with small offsets), or convex polygons elsewhere which are
connected to the reference point by the hull (a triangle). Numbers are dyadic and poses are translations, so that the
obstacle frames of the members, and the location of every point, are exact."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref


def parts(case):
    """Vertices of the members (and the hull) in the global frame, exact."""
    out = [[[x + m['pose'][0], y + m['pose'][1]] for x, y in m['v']] for m in case['o']]
    return out + ([case['hull']] if case['hull'] else [])


def build(case):
    from obstacles import StarshapedPrimitiveCombination
    obs = [gen.build(m) for m in case['o']]
    # Without hull: None, or an empty polygon
    hull = sg.Polygon(case['hull']) if case['hull'] else sg.Polygon() if case.get('empty') else None
    return StarshapedPrimitiveCombination(obs, hull, xr=np.array(case['xr'], float)), obs


def union(case):
    return ref.union([sg.Polygon(v) for v in parts(case)])


def radius(case, d):
    """Distance from the reference point to the boundary of the union in direction d, and the outward normals of the edges there."""
    k = np.array(case['xr'])
    best, normals = 0., []
    for v in parts(case):
        v = [np.array(p) for p in ref.ccw(v)]
        for i in range(len(v)):
            e = v[i] - v[i - 1]
            den = d[0] * e[1] - d[1] * e[0]
            if abs(den) < 1e-9 * np.linalg.norm(e):
                continue
            w = v[i - 1] - k
            t, u = (w[0] * e[1] - w[1] * e[0]) / den, (w[0] * d[1] - w[1] * d[0]) / den
            if -1e-9 <= u <= 1 + 1e-9:
                n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
                if t > best + 1e-9:
                    best, normals = t, []
                if t > best - 1e-9:
                    normals.append(n)
    return best, normals


def location(case, p):
    """Exact: -1 inside of a part; 1 outside of all; 0 boundary of the union; None on the boundary of parts, not clear whether inside of the union."""
    loc = [ref.locate(v, p) for v in parts(case)]
    if -1 in loc:
        return -1
    if 0 not in loc:
        return 1
    for i in range(16):
        a = math.pi * (i + .37) / 8
        q = [p[0] + round(math.cos(a) * 1024) / 2 ** 30, p[1] + round(math.sin(a) * 1024) / 2 ** 30]
        if all(ref.locate(v, q) == 1 for v in parts(case)):
            return 0
    return None


@st.composite
def combinations(draw, off=True):
    b = gen.Raw(draw, 80)
    c = b.point(2)
    star = [gen.star_vertices(), gen.star_vertices(r=10), gen.convex_vertices(r=1).map(gen.centered), st.just([[-1, -1], [1, -1], [1, 1], [-1, 1]])]
    m = []
    for i in range(b.int(1, 3)):
        v = draw(star[b.int(0, 3)])
        inside = all(ref.side(ref.ccw(v)[j - 1], ref.ccw(v)[j], [0, 0]) > 0 for j in range(len(v)))
        if not inside:
            v = [[-.5, -.5], [1, -.5], [1, .25], [-.5, .25]]
        if i and b.int(0, 3) == 3:
            # (Almost) a copy of another one
            v = m[0]['v']
        s = [b.sym(3) / 128, b.sym(3) / 128] if b.int(0, 1) else [0., 0.]
        if not all(ref.cross(ref.ccw(v)[j - 1], ref.ccw(v)[j], [-s[0], -s[1]]) > 0 for j in range(len(v))):
            s = [0., 0.]
        m.append({'t': 'S', 'v': v, 'pose': [c[0] + s[0], c[1] + s[1], 0], 'xr': [0., 0.]})
    hull = None
    k = b.int(0, 3) if off else 0
    if k:
        v = draw(gen.convex_vertices(r=1).map(gen.centered))
        p = [c[0] + b.coord(2), c[1] + b.coord(2)]
        w = [[x + p[0], y + p[1]] for x, y in v]
        if ref.locate(w, c) == 1:
            lo, hi, _ = ref.angular_range(w, c)
            t = []
            for a in (lo, hi):
                # (Farthest) vertex in the extreme direction
                at = [q for q in w if abs((math.atan2(q[1] - c[1], q[0] - c[0]) - a + math.pi) % (2 * math.pi) - math.pi) < 1e-9]
                t.append(max(at, key=lambda q: np.hypot(q[0] - c[0], q[1] - c[1])))
            if abs(ref.cross(c, t[0], t[1])) > 1e-2:
                m.append({'t': 'P' if k == 1 else 'S', 'v': v, 'pose': [p[0], p[1], 0], 'xr': None})
                hull = [c, t[0], t[1]]
    elif b.int(0, 1):
        r = [b.int(1, 12) / 8 for _ in range(4)]
        hull = [[c[0] + r[0], c[1]], [c[0], c[1] + r[1]], [c[0] - r[2], c[1]], [c[0], c[1] - r[3]]]
    return {'o': m, 'hull': hull, 'xr': c, 'empty': b.int(0, 2) == 2}


@st.composite
def with_points(draw, n=6):
    """Combination, points (anywhere, on edges of the parts, on chords, at crossings of the edges) and segments."""
    case = draw(combinations())
    b = gen.Raw(draw, 16 * n + 40)
    P = parts(case)
    V = [(v[i - 1], v[i]) for v in P for i in range(len(v))]

    def point():
        k = b.int(0, 4)
        c = case['xr']
        if k < 2:
            p = b.point(2, 16)
            return [c[0] + p[0], c[1] + p[1]]
        e = V[b.int(0, len(V) - 1)]
        s = [0, .5, .25, -.5, 1.5, .75, -1, 2][b.int(0, 7)]
        if k == 3:
            # Chord between vertices
            e = (e[0], V[b.int(0, len(V) - 1)][1])
        if k == 4:
            # Radially shifted vertex
            e = (c, e[1])
        return [e[0][0] + s * (e[1][0] - e[0][0]), e[0][1] + s * (e[1][1] - e[0][1])]
    case['p'] = [point() for _ in range(n)]
    case['lines'] = [[point(), point()] for _ in range(4)]
    case['warm'] = b.int(0, 5)
    return case


def warm_up(case, o):
    """Queries before the checked ones (what is computed lazily must not matter)."""
    [lambda: None, o.polygon, o.kernel, o.is_convex, lambda: o.normal(np.array(case['xr']) + [3., 1.]), lambda: o.set_xr(np.array(case['xr']))][case['warm']]()
