"""Dilated obstacles: grown by the padding in all directions, and otherwise a consistent obstacle at the same pose."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c13 import close, same_points
from pbt.core import Skip, Test, require

RULE = 'points within the padding, and points outside of the dilated obstacle'


def distance(spec, y):
    """Distance of y to the region in the obstacle frame: (lower bound, upper bound)."""
    if spec['t'] == 'E':
        d = gen.region(dict(spec, pose=None), 720).distance(sg.Point(y))
        return max(d - 1e-4, 0), d
    if ref.locate(spec['v'], y) <= 0:
        return 0, 0
    d = ref.boundary_distance(spec['v'], y)
    return d, d


def ring_edge(pol, c, y):
    """Edge of the polygon in the direction from c to y (none if this is not clear)."""
    v = np.asarray(pol.exterior.coords)
    d = np.array(y) - c
    found = []
    for a, b in zip(v[:-1], v[1:]):
        p, q = a - c, b - c
        s, t = d[0] * p[1] - d[1] * p[0], d[0] * q[1] - d[1] * q[0]
        m = 1e-6 * np.linalg.norm(d)
        if np.linalg.norm(b - a) < 1e-6:
            continue
        if (s > m and t < -m or s < -m and t > m) and d.dot(p * abs(t) + q * abs(s)) > 0:
            found.append((a, b))
    return found[0] if len(found) == 1 else None


def check(case, rec):
    from obstacles import Frame
    spec, pose, r = case['o'], case['o'].get('pose'), case['r']
    o = gen.build(spec)
    for q in case['before']:
        # Representations may be cached
        o.polygon()
        if spec['t'] != 'P' and q:
            o.kernel()
    before = o.polygon()
    dil = o.dilated_obstacle(r) if case['id'] == 'default' else o.dilated_obstacle(r, id=case['id'])
    require(type(dil) is type(o) and dil is not o, 'dilated obstacle is a {}', type(dil).__name__)
    if case['id'] == 'temporary':
        require(dil.id() is None, 'temporary obstacle has the id {}', dil.id())
    elif case['id'] == 'duplicate':
        require(dil.id() == o.id(), 'duplicate has the id {}, not {}', dil.id(), o.id())
    else:
        require(dil.id() is not None and dil.id() != o.id(), 'new obstacle has the id {}', dil.id())
    seen = set()
    pts = list(case['p'])
    if spec['t'] != 'E':
        for i, s, t, k in case['near']:
            # Near vertices and edges
            a, b = np.array(spec['v'][i % len(spec['v']) - 1]), np.array(spec['v'][i % len(spec['v'])])
            pts.append([float(c) for c in a + s * (b - a) + k * r * np.array([math.cos(t), math.sin(t)])])
    else:
        for i, s, t, k in case['near']:
            pts.append([(spec['a'][0] + k * r) * math.cos(t), (spec['a'][1] + k * r) * math.sin(t)])
    gpol = dil.polygon()
    lpol = dil.polygon(Frame.OBSTACLE)
    for y in pts:
        lo, hi = distance(spec, y)
        x = ref.fwd(pose, y)
        if spec['t'] == 'E':
            # The ellipse with longer axes: inside of the set of the points within the padding
            f = math.hypot(y[0] / (spec['a'][0] + r), y[1] / (spec['a'][1] + r))
            if abs(f - 1) < 1e-6:
                continue
            want = f < 1
            if want:
                require(lo <= r, 'harness: {} {}', lo, r)
        else:
            # Arcs are represented by polygons
            if 0.98 * r < lo < r + 1e-9:
                continue
            want = hi < r
        seen.add(want)
        for p, frame in ((np.array(y, float), Frame.OBSTACLE), (x, Frame.GLOBAL)):
            require(dil.interior_point(p, frame) == want and dil.exterior_point(p, frame) == (not want),
                    'point {} (distance {}) is reported as {} of the obstacle dilated by {} (frame {})', y, lo, 'interior' if dil.interior_point(p, frame) else 'not interior', r, frame)
        gap = 0.06 * max(spec['a']) + .06 * r + 2e-3 if spec['t'] == 'E' else 0.02 * r + 1e-9
        for pol, p in ((gpol, x), (lpol, y)):
            if lo > r + gap:
                require(not pol.contains(sg.Point(p)), 'polygon of the dilated obstacle contains {} at distance {} > {}', y, lo, r)
            if hi < r - gap and (spec['t'] != 'E' or f < 1 - gap / min(spec['a'])):
                require(pol.contains(sg.Point(p)), 'polygon of the dilated obstacle does not contain {} at distance {} < {}', y, hi, r)
    rec.hit(len(seen) == 2)
    require(gpol.buffer(1e-9).covers(before) or spec['t'] == 'E' and gpol.buffer(0.013 * max(spec['a'])).covers(before), 'dilated obstacle does not cover the obstacle')
    # The original is as before
    fresh = gen.build(spec)
    require(o.polygon().equals_exact(before, 0) and o.polygon().exterior.hausdorff_distance(fresh.polygon().exterior) < 1e-9, 'dilation changes the polygon of the original')
    for y in pts:
        x = ref.fwd(pose, y)
        if gen.location(spec, x)[1] > 1e-9:
            require(np.sign(o.point_location(x)) == np.sign(fresh.point_location(x)), 'dilation changes the original at {}', y)
    # The dilated obstacle is consistent
    for y in pts:
        x = ref.fwd(pose, y)
        d = distance(spec, y)[0]
        if spec['t'] == 'E':
            exterior = math.hypot(y[0] / (spec['a'][0] + r), y[1] / (spec['a'][1] + r)) > 1 + 1e-3
        else:
            exterior = d > r + 1e-3
        if exterior:
            tps = dil.tangent_points(x)
            if spec['t'] == 'E' or sg.Polygon(spec['v']).convex_hull.distance(sg.Point(y)) > r + 1e-3:
                require(len(tps) == 2, '{} tangent points of the dilated obstacle', len(tps))
            for t in tps:
                t = np.asarray(t)
                require(dil.polygon().exterior.distance(sg.Point(t)) < (0.06 * (max(spec['a']) + r) + 2e-3 if spec['t'] == 'E' else 1e-6), 'tangent point {} is not on the boundary', list(t))
                # (The tangent may be along an edge)
                m = x + .5 * (t - x)
                require(not dil.interior_point(m) or gpol.exterior.distance(sg.Point(m)) < 1e-9, 'segment to the tangent point {} crosses the dilated obstacle', list(t))
        if spec['t'] == 'E':
            # The same as the ellipse with longer axes
            twin = gen.build(dict(spec, a=[c + r for c in spec['a']]))
            twin.set_xr(o.xr(Frame.OBSTACLE))
            require(close(dil.xr(), o.xr(), 1e-9) and abs(dil.area() - twin.area()) < 1e-9 * (1 + twin.area()), 'reference point or area of the dilated ellipse is not the one of the larger ellipse')
            if np.linalg.norm(x - twin.xr()) > 1e-3:
                for what, a, b in (('normal', dil.normal(x), twin.normal(x)), ('boundary mapping', dil.boundary_mapping(x), twin.boundary_mapping(x)),
                                   ('distance function', dil.distance_function(x), twin.distance_function(x))):
                    require(close(a, b, 1e-6), '{} of the dilated ellipse is {}, of the larger ellipse {}', what, a, b)
            a, b = dil.line_intersection([x, ref.fwd(pose, pts[0])]), twin.line_intersection([x, ref.fwd(pose, pts[0])])
            require(len(a) == len(b) and all(close(c, d, 1e-6) for c, d in zip(a, b)), 'line intersections of the dilated ellipse are {}, of the larger ellipse {}', a, b)
        if spec['t'] == 'S' and np.linalg.norm(np.array(y) - dil.xr(Frame.OBSTACLE)) > 1e-3:
            require(close(np.linalg.norm(dil.normal(x)), 1), 'normal of the dilated obstacle is not a unit vector')
            n = ref.inv(pose, ref.fwd(pose, [0, 0]) + dil.normal(x)) if pose else dil.normal(x)
            # Normal of the edge hit by the ray from the reference point
            c, e = dil.xr(Frame.OBSTACLE), ring_edge(lpol, dil.xr(Frame.OBSTACLE), y)
            if e is not None:
                w = np.array([e[1][1] - e[0][1], e[0][0] - e[1][0]]) / np.linalg.norm(e[1] - e[0])
                w = w if w.dot(e[0] - c) > 0 else -w
                require(close(n, w, 1e-5), 'normal of the dilated obstacle towards {} is {}, but the normal of the edge is {}', y, list(n), list(w))
        if spec['t'] != 'P' and np.linalg.norm(np.array(y) - dil.xr(Frame.OBSTACLE)) > 1e-3:
            if spec['t'] == 'S' and case['star'] is False:
                continue
            b = dil.boundary_mapping(x)
            require(b is not None, 'no boundary mapping of the dilated obstacle for {}', y)
            yb = ref.inv(pose, b)
            if spec['t'] == 'E':
                f = math.hypot(yb[0] / (spec['a'][0] + r), yb[1] / (spec['a'][1] + r))
                require(abs(f - 1) < 1e-6, 'mapped point {} is not on the boundary of the dilated ellipse', list(yb))
            else:
                require(.98 * r < ref.boundary_distance(spec['v'], yb) < r + 1e-6, 'mapped point {} has not the distance {}', list(yb), r)
            fx = dil.distance_function(x)
            inside = dil.point_location(x)
            if abs(fx - 1) > 1e-6:
                require((fx > 1) == (inside > 0), 'distance function of the dilated obstacle is {}, location {}', fx, inside)


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 60)
    return {'o': o, 'r': b.int(1, 16) / 16, 'p': [b.point(3) for _ in range(4)], 'before': [b.int(0, 1) for _ in range(b.int(0, 1))],
            'near': [[b.int(0, 20), b.int(0, 4) / 4, b.angle(), [.5, .9, 1.1, 1.5][b.int(0, 3)]] for _ in range(4)], 'id': ['default', 'new', 'temporary', 'duplicate'][b.int(0, 3)],
            'star': True}


P = gen.pose()
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P)), check, 2000),
    Test('starshaped', gen.off_center(cases(gen.star_spec(P))), check, 2000),
    Test('polygon', gen.off_center(cases(gen.polygon_spec(P, st.one_of(gen.convex_vertices(), gen.star_vertices(), gen.tangled_vertices())))), check, 2500),
]
