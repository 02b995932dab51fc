"""Random generators: for every size, box and random state the result is a polygon of the promised kind."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, require

RULE = 'at least 4 vertices, or not the unit box / angle'


def check_convex(case, rec):
    from utils import generate_convex_polygon
    n, box = case['n'], case['box']
    np.random.seed(case['seed'])
    args = [] if box is None else [list(box)]
    got = generate_convex_polygon(n, *args)
    v = np.array(got, float)
    w, h = box or [1, 1]
    rec.hit(n > 3 or box is not None)
    require(v.shape == (n, 2), '{} vertices, expected {}', len(got), n)
    ext = np.ptp(v, axis=0)
    require(ext[0] <= w * (1 + 1e-9) and ext[1] <= h * (1 + 1e-9), 'width and height are {}, the box is {}', list(ext), [w, h])
    require(np.abs(v.mean(axis=0)).max() < 1e-9 * max(w, h), 'mean of the vertices is {}', list(v.mean(axis=0)))
    # Counterclockwise turns, one turn in total
    e = np.roll(v, -1, axis=0) - v
    u = e / np.array([w, h])
    ang = np.arctan2(u[:, 1], u[:, 0])
    turn = (np.roll(ang, -1) - ang + 1e-6) % (2 * math.pi) - 1e-6
    require(turn.max() < math.pi + 1e-6 and abs(turn.sum() - 2 * math.pi) < 1e-5, 'the polygon {} is not convex and counterclockwise', v.tolist())
    require(len({tuple(p) for p in v.tolist()}) == n, 'repeated vertices {}', v.tolist())


def check_star(case, rec):
    from utils import generate_star_polygon, random_angle_steps
    n, c, r, irr, spi = (case[k] for k in ('n', 'c', 'r', 'irr', 'spi'))
    np.random.seed(case['seed'])
    if not (0 <= irr <= 1 and 0 <= spi <= 1):
        rec.label('rejected')
        try:
            generate_star_polygon(tuple(c), r, irr, spi, n)
        except ValueError:
            return
        require(False, 'irregularity {}, spikiness {} are accepted', irr, spi)
    rec.hit(n > 3)
    v = np.array(generate_star_polygon(tuple(c), r, irr, spi, n), float)
    require(v.shape == (n, 2), '{} vertices, expected {}', len(v), n)
    d = v - np.array(c)
    rad = np.hypot(d[:, 0], d[:, 1])
    tol = 1e-9 * (r + abs(c[0]) + abs(c[1]))
    require(rad.max() <= 2 * r + tol, 'radius {} for average radius {}', rad.max(), r)
    if spi == 0:
        require(np.abs(rad - r).max() < tol, 'radii {} without spikiness, average radius {}', rad.tolist(), r)
    if rad.min() > 1e-3 * r:
        rec.label('radii positive')
        ang = np.arctan2(d[:, 1], d[:, 0])
        steps = (np.roll(ang, -1) - ang + 1e-9) % (2 * math.pi) - 1e-9
        require(abs(steps.sum() - 2 * math.pi) < 1e-6, 'the vertices are not in counterclockwise order (steps {})', steps.tolist())
        if irr == 0:
            require(np.abs(steps - 2 * math.pi / n).max() < 1e-6, 'steps {} are not regular', steps.tolist())
        if steps.max() < math.pi - 1e-3 and steps.min() > 1e-3:
            rec.label('starshaped')
            p = sg.Polygon(v)
            require(p.is_valid and p.exterior.is_ccw and p.contains(sg.Point(c)), 'the polygon {} is not a valid polygon around {}', v.tolist(), c)
            for i in range(n):
                require(ref.cross(c, v[i - 1], v[i]) > 0, 'the centre does not see the edge to vertex {}', i)
    steps = random_angle_steps(n, irr * 2 * math.pi / n)
    require(len(steps) == n and min(steps) >= -1e-12 and abs(sum(steps) - 2 * math.pi) < 1e-9, 'angle steps {}', steps)
    if irr > 0 and n >= 3:
        # Every step before the normalisation is in the mean +- irregularity
        require(max(steps) * (1 - irr) <= min(steps) * (1 + irr) + 1e-9, 'angle steps {} for irregularity {}', steps, irr)


def check_triangle(case, rec):
    from utils import equilateral_triangle, point_in_triangle
    c, s, rot = case['c'], case['s'], case['rot']
    rec.hit(rot != 0)
    t = np.array(equilateral_triangle(c, s, rot), float) if rot else np.array(equilateral_triangle(c, s), float)
    require(t.shape == (3, 2), 'triangle {}', t.tolist())
    for i in range(3):
        require(abs(np.linalg.norm(t[i] - t[i - 1]) - s) < 1e-9 * max(1, s), 'side length is {}, expected {}', np.linalg.norm(t[i] - t[i - 1]), s)
    require(np.allclose(t.mean(axis=0), c, atol=1e-9), 'centroid is {}, expected {}', t.mean(axis=0).tolist(), c)
    t0 = np.array(equilateral_triangle(c, s), float) - c
    want = [ref.rot([0, 0, rot], p) + c for p in t0]
    require(np.allclose(t, want, atol=1e-9), 'rotated triangle is {}, expected {}', t.tolist(), np.array(want).tolist())
    # One vertex straight above the centroid without rotation
    require(abs(t0[:, 0]).min() < 1e-12 and t0[:, 1].max() > 0 and abs(t0[np.argmax(t0[:, 1]), 0]) < 1e-12, 'unrotated triangle {}', t0.tolist())


def check_point_in_triangle(case, rec):
    from utils import point_in_triangle
    a, b, c = case['t']
    if ref.side(a, b, c) == 0:
        return
    rec.hit()
    np.random.seed(case['seed'])
    pts = np.array([point_in_triangle(a, b, c) for _ in range(case['n'])], float)
    A = np.array([[a[0], b[0], c[0]], [a[1], b[1], c[1]], [1, 1, 1]], float)
    bary = np.linalg.solve(A, np.c_[pts, np.ones(len(pts))].T).T
    i = int(np.argmin(bary.min(axis=1)))
    require(bary.min() > -1e-9, 'the point {} is not in the triangle {}', pts[i].tolist(), case['t'])
    # The points reach all parts of the triangle (uniform: a fourth in each of the four middle triangles)
    if len(pts) >= 200:
        for part in (bary[:, 0] > 0.5, bary[:, 1] > 0.5, bary[:, 2] > 0.5, bary.max(axis=1) <= 0.5):
            require(0.05 < part.mean() < 0.5, 'no points in a part of the triangle ({} of {})', int(part.sum()), len(part))


seed = st.integers(0, 2 ** 31)
size = st.sampled_from([0.25, 0.5, 1., 2., 3., 10., 100.])

TESTS = [
    Test('convex polygon', st.fixed_dictionaries({'n': st.integers(3, 30), 'seed': seed, 'box': st.one_of(st.none(), st.tuples(size, size).map(list))}),
         check_convex, 4000),
    Test('star polygon', st.fixed_dictionaries({
        'n': st.integers(3, 30), 'seed': seed, 'c': gen.point(8), 'r': size,
        'irr': st.one_of(st.sampled_from([0, 1, -0.125, 1.125]), st.integers(0, 16).map(lambda k: k / 16)),
        'spi': st.one_of(st.sampled_from([0, 1, -0.125, 1.125]), st.integers(0, 16).map(lambda k: k / 16))}), check_star, 4000),
    Test('equilateral triangle', st.fixed_dictionaries({'c': gen.point(8), 's': size, 'rot': gen.angle}), check_triangle, 2000),
    Test('point in triangle', st.fixed_dictionaries({'t': gen.points(3, 4), 'seed': seed, 'n': st.sampled_from([20, 400])}), check_point_in_triangle, 1000),
]
