"""Poses and frames: every query commutes with moving the obstacle, and the frames of input and output only transform."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'obstacle has a pose with rotation and translation, and at least one query has a result'


def close(a, b, tol=1e-7):
    return a is not None and b is not None and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=tol)


def same_points(a, b, tol=1e-6):
    """Same set of points."""
    return all(any(np.linalg.norm(p - q) < tol for q in b) for p in a) and all(any(np.linalg.norm(p - q) < tol for q in a) for p in b)


def corner_margin(spec, xr, y):
    """Smallest difference of the direction of y from xr to the direction of a vertex."""
    if spec['t'] == 'E':
        return 1.
    d = math.atan2(y[1] - xr[1], y[0] - xr[0])
    t = [math.atan2(v[1] - xr[1], v[0] - xr[0]) for v in spec['v']]
    return min(abs((d - s + math.pi) % (2 * math.pi) - math.pi) for s in t)


def line_margin(spec, line):
    """Smallest distance of the line to the vertices, of its end points to the boundary (or to tangency for ellipses)."""
    p, q = np.array(line[0], float), np.array(line[1], float)
    if spec['t'] == 'E':
        a = np.array(spec['a'])
        p, q = p / a, q / a
    n = np.linalg.norm(q - p)
    if n < 1e-3:
        return 0
    dist = lambda v: abs((q[0] - p[0]) * (v[1] - p[1]) - (q[1] - p[1]) * (v[0] - p[0])) / n
    if spec['t'] == 'E':
        return min(abs(dist((0, 0)) - 1), abs(np.linalg.norm(p) - 1), abs(np.linalg.norm(q) - 1))
    return min([dist(v) for v in spec['v']] + [ref.boundary_distance(spec['v'], p), ref.boundary_distance(spec['v'], q)])


def tangents_clear(spec, y):
    """Clearly exterior (or interior) and clearly enclosed (or not), in the obstacle frame."""
    if gen.location(dict(spec, pose=None), y)[1] < 1e-6:
        return False
    if spec['t'] == 'E':
        return True
    lo, hi, _ = ref.angular_range(spec['v'], y)
    return abs(hi - lo - 2 * math.pi) > 1e-6


def same_directions(p, a, b, tol=1e-6):
    """The points a are in the same directions from p as the points b, in the same order."""
    for t, u in zip(a, b):
        s = abs((t[0] - p[0]) * (u[1] - p[1]) - (t[1] - p[1]) * (u[0] - p[0]))
        if not (s < tol and np.dot(t - p, u - p) > 0):
            return False
    return len(a) == len(b)


def weights_clear(spec, o, x, s):
    from pbt.checks import c31
    return c31.weights_clear(spec, o, x, s)


def check(case, rec):
    from obstacles import Frame
    G, O = Frame.GLOBAL, Frame.OBSTACLE
    spec, pose = case['o'], case['o']['pose']
    star = spec['t'] != 'P'
    o, twin = gen.build(spec), gen.build(dict(spec, pose=None))
    rec.label('rotated', pose[2] != 0)
    rec.hit(pose[2] != 0 and pose[0] != 0)

    def out(p, frame):
        """Point of the obstacle frame in the given frame."""
        return np.array(p, float) if frame == O else ref.fwd(pose, p)

    def outv(v, frame):
        return np.array(v, float) if frame == O else ref.rot(pose, v)

    require(close(o.pos(), pose[:2]) and close(o.pos(O), [0, 0]) and close(twin.pos(), [0, 0]), 'pos: {} {}', list(o.pos()), list(o.pos(O)))
    require(abs(o.rot() - pose[2]) < 1e-12 and o.rot(O) == 0 and twin.rot() == 0, 'rot: {} {}', o.rot(), o.rot(O))
    for frame in (G, O):
        want = sg.Polygon([out(p, frame) for p in np.asarray(twin.polygon(O).exterior.coords)])
        require(o.polygon(frame).exterior.hausdorff_distance(want.exterior) < 1e-7, 'polygon in frame {}', frame)
        ext = o.extreme_points(frame)
        require(same_points(ext, [out(p, frame) for p in twin.extreme_points(O)]), 'extreme points in frame {}', frame)
        if spec['t'] == 'E':
            require(len(ext) >= 8 and sg.Polygon(ext).area > .8 * math.pi * spec['a'][0] * spec['a'][1], 'extreme points {} of an ellipse', ext)
        else:
            require(same_points(ext, [out(p, frame) for p in spec['v']]), 'extreme points {} are not the vertices, frame {}', ext, frame)
        if star:
            require(close(o.xr(frame), out(twin.xr(), frame)), 'xr in frame {}: {}', frame, list(o.xr(frame)))
            k = twin.kernel()
            want = sg.Polygon([out(p, frame) for p in np.asarray(k.exterior.coords)])
            require(o.kernel(frame).exterior.hausdorff_distance(want.exterior) < 1e-7, 'kernel in frame {}', frame)
    require(twin.polygon(G).equals(twin.polygon(O)), 'frames differ without a motion model')
    xr = twin.xr() if star else None

    for p in case['p']:
        for fi in (G, O):
            x = out(p, fi)
            for fo in (G, O):
                what = 'for input frame %s, output frame %s, point %s' % (fi, fo, list(x))
                require(close(o.transform(x, fi, fo), out(p, fo)), 'transform {}', what)
                require(close(o.rotate(outv(p, fi), fi, fo), outv(p, fo)), 'rotate {}', what)
            _, d = gen.location(dict(spec, pose=None), p)
            if d > 1e-8:
                require(np.sign(o.point_location(x, fi)) == np.sign(twin.point_location(np.array(p, float))), 'point location for input frame {}, point {}',
                        fi, list(x))
                if d > 1e-6:
                    loc = np.sign(twin.point_location(np.array(p, float)))
                    got = o.interior_point(x, fi), o.boundary_point(x, fi), o.exterior_point(x, fi)
                    require(tuple(map(bool, got)) == (loc < 0, loc == 0, loc > 0), 'interior, boundary, exterior are {} for input frame {}, point {}', got, fi, list(x))
            if tangents_clear(spec, p):
                tp = twin.tangent_points(np.array(p, float))
                for fo in (G, O):
                    got = o.tangent_points(x, fi, fo)
                    # Any point on a tangent edge is fine
                    local = [t if fo == O else ref.inv(pose, t) for t in got]
                    require(same_directions(np.array(p), local, tp), 'tangent points {} (obstacle frame), {} without pose, for {}', local, tp, list(x))
            if not star or np.linalg.norm(np.array(p) - xr) < 1e-3:
                continue
            f = twin.distance_function(np.array(p, float))
            require(abs(o.distance_function(x, fi) - f) < 1e-6 * max(1, f), 'distance function {}, without pose {}', o.distance_function(x, fi), f)
            for fo in (G, O):
                what = 'input frame %s, output frame %s, point %s' % (fi, fo, list(x))
                b = twin.boundary_mapping(np.array(p, float))
                require(close(o.boundary_mapping(x, fi, fo), out(b, fo), 1e-6), 'boundary mapping, {}', what)
                if corner_margin(spec, xr, p) > 1e-6:
                    n = twin.normal(np.array(p, float))
                    require(close(o.normal(x, fi, fo), outv(n, fo), 1e-6), 'normal, {}', what)
                    # Of the boundary point
                    require(close(o.normal(out(b, fi), fi, fo, x_is_boundary=True), outv(n, fo), 1e-5), 'normal with x_is_boundary, {}', what)
                    if spec['t'] == 'S' and weights_clear(dict(spec, pose=None), twin, p, 1.):
                        n = twin.normal(np.array(p, float), type='weighted_edges')
                        require(close(o.normal(x, fi, fo, type='weighted_edges'), outv(n, fo), 1e-5), 'weighted normal, {}', what)
                if fi == fo:
                    r = twin.reference_direction(np.array(p, float))
                    require(close(o.reference_direction(x, fi, fo), outv(r, fo), 1e-7), 'reference direction, {}', what)
    for line in case['lines']:
        if line_margin(spec, line) < 1e-6:
            continue
        want = twin.line_intersection([np.array(p, float) for p in line])
        for fi in (G, O):
            for fo in (G, O):
                got = o.line_intersection([out(p, fi) for p in line], fi, fo)
                rec.label('intersections', len(got) > 0)
                require(len(got) == len(want) and same_points(got, [out(p, fo) for p in want]),
                        'line intersection: {}, without pose {}, input frame {}, output frame {}', got, want, fi, fo)


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 60)
    return {'o': o, 'p': [b.point(4) for _ in range(3)], 'lines': [[b.point(4), b.point(4)] for _ in range(3)]}


# Also almost without rotation
P = st.tuples(gen.pose(4, none=False), st.integers(0, 31)).map(lambda t: t[0] if t[1] < 26 else t[0][:2] + [(t[1] - 28.5) / 256])


def invalid(case, rec):
    """Frames other than the two are rejected."""
    from obstacles import Frame, Obstacle
    o = gen.build(case['o'])
    bad = case['bad']
    calls = [lambda: o.polygon(bad), lambda: o.transform(np.zeros(2), bad, Frame.OBSTACLE), lambda: o.transform(np.zeros(2), Frame.GLOBAL, bad),
             lambda: o.rotate(np.zeros(2), Frame.OBSTACLE, bad)]
    if case['o']['t'] != 'P':
        calls.append(lambda: o.kernel(bad))
    rec.hit()
    for i, f in enumerate(calls):
        try:
            r = f()
        except Frame.InvalidFrameError:
            continue
        require(False, 'call {} accepts the frame {!r} and returns {}', i, bad, r)


TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P)), check, 1200),
    Test('starshaped', gen.off_center(cases(gen.star_spec(P)), ['p', 'lines']), check, 1500),
    Test('polygon', gen.off_center(cases(gen.polygon_spec(P)), ['p', 'lines']), check, 1500),
    Test('invalid', st.fixed_dictionaries({'o': gen.obstacle_spec(P), 'bad': st.sampled_from(['global', 'obstacle', None, 0, 3])}), invalid, 300),
]
