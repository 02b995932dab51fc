"""Planar predicates and constructions: orientation, betweenness, intersections of lines, segments and rays, transformations."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'not all points are equal'


def check_orientation(case, rec):
    from utils import is_ccw, is_cw, is_collinear, is_between
    a, b, c = (np.array(p) for p in case['p'])
    s = ref.side(a, b, c)
    if s and abs(ref.cross(a, b, c)) < 1e-9:
        raise Skip('nearly collinear')
    rec.label({1: 'ccw', -1: 'cw', 0: 'collinear'}[s])
    rec.hit(len({tuple(p) for p in case['p']}) > 1)
    forms = [case['p'], [a, b, c], [tuple(p) for p in case['p']]]
    for p in forms:
        got = bool(is_ccw(*p)), bool(is_cw(*p)), bool(is_collinear(*p))
        require(got == (s > 0, s < 0, s == 0), '(is_ccw, is_cw, is_collinear) is {}', got)
    for x, y, z in ((a, b, c), (b, c, a), (c, a, b), (a, c, b)):
        want = ref.on_segment(y, x, z)
        rec.label('between', want)
        require(bool(is_between(x, y, z)) == want, 'is_between({}, {}, {}) is {}', list(x), list(y), list(z), not want)


def close(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6 * max(1, abs(q[0]), abs(q[1]))


def common(pts):
    a, b, c, d = pts
    """None: parallel; otherwise the common point of the lines and its parameters."""
    return ref.line_point(a, b, c, d)


def check_lines(case, rec):
    from utils import Point, Line, LineSegment, Ray, get_intersection, intersect
    a, b, c, d = case['p']
    seg = ref.segments_intersect(a, b, c, d)
    # get_intersection: a common point, exactly if there is one (also for collinear, touching or degenerate segments)
    A, B, C, D = (np.array(p) for p in case['p'])
    got = get_intersection(A, B, C, D)
    rec.label('segments meet' if seg else 'segments disjoint')
    require((got is not None) == seg, 'get_intersection is {}', got)
    if got is not None:
        require(np.shape(got) == (2,), 'get_intersection is {}', got)
        for x, y in ((a, b), (c, d)):
            require(ref.point_segment_distance(got, x, y) < 1e-6, 'get_intersection {} is not on {}-{}', list(got), x, y)
    if a == b or c == d:
        rec.label('degenerate')
        return
    rec.hit()
    X = common(case['p'])
    s = [ref.side(c, d, a), ref.side(c, d, b), ref.side(a, b, c), ref.side(a, b, d)]
    if 0 not in s:
        rec.label('general position')
        require(bool(intersect(A, B, C, D)) == seg, 'intersect is {}', not seg)
        require(bool(LineSegment(Point(*a), Point(*b)).intersects(LineSegment(Point(*c), Point(*d)))) == seg, 'intersects is {}', not seg)

    def expect(what, got, want):
        require((got is None) == (not want), '{} is {}', what, got if got is None else list(got))
        if want:
            require(close(got, X[0]), '{} is {}, expected {}', what, list(got), list(X[0]))

    for (p, q), (r, t) in (((a, b), (c, d)), ((c, d), (a, b))):
        P = [Point(*x) for x in (p, q, r, t)]
        expect('line_intersection', Line(P[0], P[1]).line_intersection(Line(P[2], P[3])), X is not None)
        expect('line_segment_intersection', LineSegment(P[0], P[1]).line_segment_intersection(LineSegment(P[2], P[3])),
               X is not None and seg)
        expect('ray_intersection', Ray(P[0], P[1]).ray_intersection(Ray(P[2], P[3])),
               X is not None and X[1] >= 0 and X[2] >= 0)
    rec.label('parallel' if X is None else 'rays meet' if X[1] >= 0 and X[2] >= 0 else 'rays do not meet')


def check_open_line(case, rec):
    """line(a, b): the segment without its end points. ray(a, b, c): from close to a, in the direction b -> c."""
    from utils import line, ray
    a, b, c = (np.array(p) for p in case['p'][:3])
    L = np.linalg.norm(b - a)
    if L > 0:
        rec.hit()
        q = np.array(line(a, b).coords)
        require(len(q) == 2, 'line({}, {}) has {} points', list(a), list(b), len(q))
        for x, e, t in ((q[0], a, b), (q[1], b, a)):
            h = np.linalg.norm(x - e)
            require(0 < h <= 1e-3 * L and ref.point_segment_distance(x, a, b) < 1e-9 and np.linalg.norm(x - t) < L,
                    'end point {} of the open line from {} to {}', list(x), list(a), list(b))
    if np.linalg.norm(c - b) > 0:
        d = c - b
        q = np.array(ray(a, b, c).coords)
        for x in q:
            require(abs(d[0] * (x - a)[1] - d[1] * (x - a)[0]) < 1e-6 * (1 + np.linalg.norm(x)), 'ray point {}', list(x))
        require(0 < np.dot(q[0] - a, d) <= 1e-2 * d.dot(d) and np.dot(q[1] - a, d) > 1e3 * d.dot(d), 'ray from {} along {} is {}', list(a), list(d), q.tolist())


def check_transform(case, rec):
    from utils import affine_transform
    rot, tr = case['rot'], case['t']
    rec.hit(rot != 0)
    for x in case['x']:
        y = affine_transform(np.array(x), rotation=rot, translation=np.array(tr))
        want = ref.fwd([*tr, rot], x)
        require(np.allclose(y, want, atol=1e-9, rtol=0), 'transform of {} is {}, expected {}', x, list(y), list(want))
        z = affine_transform(y, rotation=rot, translation=tr, inverse=True)
        require(np.allclose(z, x, atol=1e-9, rtol=0), 'inverse transform of {} is {}, expected {}', list(y), list(z), x)
        w = affine_transform(np.array(x), rotation=rot, translation=tr, inverse=True)
        require(np.allclose(w, ref.inv([*tr, rot], x), atol=1e-9, rtol=0), 'inverse transform of {} is {}', x, list(w))


@st.composite
def close_points(draw, n):
    """n points on a small or large grid, some of them repeated or on the line through two others."""
    r, q = draw(st.sampled_from([(1, 1), (2, 2), (8, 8), (100, 1)]))
    pts = draw(gen.points(n, r, q))
    for i in range(2, n):
        k = draw(st.integers(0, 4))
        if k == 0:
            pts[i] = list(pts[draw(st.integers(0, i - 1))])
        elif k == 1:
            a, b = pts[draw(st.integers(0, i - 1))], pts[draw(st.integers(0, i - 1))]
            m = draw(st.sampled_from([-2, -1, 0.25, 0.5, 0.75, 2, 3]))
            pts[i] = [a[j] + m * (b[j] - a[j]) for j in range(2)]
        elif k == 2:
            # Parallel
            pts[i] = [pts[i - 1][j] + pts[1][j] - pts[0][j] for j in range(2)]
    order = draw(st.permutations(range(n)))
    # Also small figures, and far from the origin: scaled and moved exactly
    f = draw(st.sampled_from([1, 1, 1, 2 ** -3, 2 ** -6, 2 ** -8]))
    o = draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [32, -16], [-7, 64]]))
    return [[o[j] + f * pts[i][j] for j in range(2)] for i in order]


TESTS = [
    Test('orientation', st.fixed_dictionaries({'p': close_points(3)}), check_orientation, 8000),
    Test('lines', st.fixed_dictionaries({'p': close_points(4)}), check_lines, 16000),
    Test('open lines and rays', st.fixed_dictionaries({'p': close_points(3)}), check_open_line, 3000),
    Test('transform', st.fixed_dictionaries({'rot': st.one_of(gen.angle, st.tuples(st.integers(-64, 64), st.integers(6, 16)).map(lambda t: t[0] * 2. ** -t[1])), 't': gen.point(8), 'x': gen.points(4, 8)}), check_transform, 4000),
]
