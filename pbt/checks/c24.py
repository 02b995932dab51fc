"""Cones: membership, polygon and intersections agree with the counterclockwise angular range."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'a checked point is inside and another one outside'

DIRS = [[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 1], [-1, -1], [1, -1]]


def same_direction(d, e):
    """Equal up to rounding (the range is then empty, or everything)."""
    return abs(math.atan2(d[0] * e[1] - d[1] * e[0], d[0] * e[0] + d[1] * e[1])) < 1e-8


def in_range(d1, d2, v):
    """Location of the direction v relative to the counterclockwise range d1 -> d2: 1 inside, 0 boundary, -1 outside. Exact."""
    if same_direction(d1, v) or same_direction(d2, v):
        return 0
    s12, s1, s2 = (ref.side([0, 0], a, b) for a, b in ((d1, d2), (d1, v), (v, d2)))
    if s12 > 0:
        return 1 if s1 > 0 and s2 > 0 else -1
    # At least a half turn: everything but the (counterclockwise) range d2 -> d1
    return -1 if s1 < 0 and s2 < 0 else 1


def sure(case_cones, p, margin=1e-4):
    """p is clearly not on the boundary of a cone."""
    for c in case_cones:
        v = [p[0] - c['apex'][0], p[1] - c['apex'][1]]
        if math.hypot(*v) < 1e-2:
            return False
        for d in (c['d1'], c['d2']):
            a = abs(math.atan2(d[0] * v[1] - d[1] * v[0], d[0] * v[0] + d[1] * v[1]))
            if a < margin:
                return False
    return True


def vec(p, c):
    return [p[0] - c['apex'][0], p[1] - c['apex'][1]]


def polygon_has(poly, p):
    # p is far from the boundary
    return (not poly.is_empty) and poly.intersects(sg.Point(p))


def build(c):
    from utils import Cone
    return Cone(c['apex'], c['d1'], c['d2'])


def samples(case):
    """Points around the apexes at all scales up to the bounding box of the cone polygons."""
    out = []
    for c in case['cones']:
        dirs = [d for e in case['cones'] for d in (e['d1'], e['d2'])]
        ang = [math.atan2(d[1], d[0]) for d in dirs] + [math.pi / 4 * i for i in range(8)]
        ang = sorted(a % (2 * math.pi) for a in ang)
        for i in range(len(ang)):
            lo, hi = ang[i - 1], ang[i] + (2 * math.pi if i == 0 else 0)
            for t in (0.01, 0.5, 0.99):
                a = lo + t * (hi - lo)
                for r in case['r']:
                    out.append([c['apex'][0] + r * math.cos(a), c['apex'][1] + r * math.sin(a)])
    return out + case['p']


def check_membership(case, rec):
    for c in case['cones']:
        if same_direction(c['d1'], c['d2']):
            continue
        cone = build(c)
        poly = cone.polygon()
        require(poly.is_valid and poly.area > 0, 'polygon of the cone {} is not valid', c)
        ins = set()
        for p in samples(dict(case, cones=[c])):
            want = in_range(c['d1'], c['d2'], vec(p, c))
            if not sure([c], p):
                continue
            ins.add(want)
            require(cone.point_in_cone(p) == (want > 0), 'point_in_cone of {} is {} for the cone {}', p, cone.point_in_cone(p), c)
            require(polygon_has(poly, p) == (want > 0), 'polygon of the cone {} is wrong at {}', c, p)
        rec.hit(len(ins) == 2)
        rec.label('convex' if ref.side([0, 0], c['d1'], c['d2']) > 0 else 'half turn or more')


def check_intersection(case, rec):
    from utils import Cone
    cones = case['cones']
    if any(same_direction(c['d1'], c['d2']) for c in cones):
        raise Skip()
    same = case['same_apex']
    if same:
        for c in cones:
            c['apex'] = cones[0]['apex']
    built = [build(c) for c in cones]
    pts = [p for p in samples(case) if sure(cones, p)]
    want = [all(in_range(c['d1'], c['d2'], vec(p, c)) > 0 for c in cones) for p in pts]
    rec.label('same apex' if same else 'different apexes')
    rec.label('empty' if not any(want) else 'non-empty')
    rec.hit(any(want) and not all(want))
    results = {'list': Cone.list_intersection(built, same_apex=same)}
    if same:
        results['list, general'] = Cone.list_intersection(built)
    if len(built) == 2:
        results['pair'] = built[0].intersection(built[1], same_apex=same)
        results['pair, reversed'] = built[1].intersection(built[0], same_apex=same)
        if same:
            parts = built[0].intersection_same_apex(built[1])
            rec.label('%d parts' % len(parts))
            for p, w in zip(pts, want):
                n = sum(c.point_in_cone(p) for c in parts)
                require(n == int(w), '{} of the {} cones of the intersection have {}, expected {}', n, len(parts), p, int(w))
    for name, poly in results.items():
        for p, w in zip(pts, want):
            require(polygon_has(poly, p) == w, 'intersection ({}) is wrong at {}: expected {}', name, p, w)
    for c, b in zip(cones, built):
        require(list(b.apex) == list(c['apex']) and list(b.dir1) == list(c['d1']) and list(b.dir2) == list(c['d2']), 'a cone changed')


direction = st.one_of(st.sampled_from(DIRS), gen.raw(4, lambda b: b.point(3)),
                      gen.raw(3, lambda b: (lambda a: [math.cos(a), math.sin(a)])(b.angle()))) \
    .filter(lambda d: math.hypot(*d) > 1e-6)


@st.composite
def cone(draw, shared):
    """Directions are often shared between the cones, or opposite."""
    d = []
    for _ in range(2):
        if shared and draw(st.integers(0, 2)) == 0:
            e = draw(st.sampled_from(shared))
            d.append([-e[0], -e[1]] if draw(st.booleans()) else list(e))
        else:
            d.append(draw(direction))
    shared += d
    return {'apex': draw(gen.point(8)), 'd1': d[0], 'd2': d[1]}


@st.composite
def cases(draw, nmin, nmax):
    shared = []
    return {'cones': [draw(cone(shared)) for _ in range(draw(st.integers(nmin, nmax)))],
            'same_apex': draw(st.booleans()),
            'r': [draw(st.sampled_from([0.05, 1., 30.])), draw(st.sampled_from([3e3, 3e5]))],
            'p': draw(gen.points(4, 12))}


TESTS = [
    Test('membership', cases(1, 1), check_membership, 4000),
    Test('intersection', cases(2, 4), check_intersection, 4000),
]
