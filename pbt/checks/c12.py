"""Points are classified as interior, boundary or exterior of the region which defines the obstacle."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.core import Skip, Test, require

RULE = 'points of at least two different classes (interior, boundary, exterior) in the case'


def classify(o, y, frame, want, what):
    kw = {} if frame is None else {'input_frame': frame}
    y = np.array(y, float)
    loc = o.point_location(y, **kw)
    require(int(loc > 0) - int(loc < 0) == want, '{}: location {} is reported, expected sign {}', what, loc, want)
    got = [bool(o.interior_point(y, **kw)), bool(o.boundary_point(y, **kw)), bool(o.exterior_point(y, **kw))]
    require(got == [want < 0, want == 0, want > 0], '{}: interior/boundary/exterior reported as {}, expected sign {}', what, got, want)


def polygon(case, rec):
    from obstacles import Frame
    spec = case['o']
    v, pose = spec['v'], spec.get('pose')
    o = gen.build(spec)
    pts = list(case['p'])
    for i, s, j in case['edge']:
        a, b, c = v[i % len(v) - 1], v[i % len(v)], v[j % len(v)]
        # on the edge, on its extension, on a chord
        pts.append([a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])])
        pts.append([a[0] + s * (c[0] - a[0]), a[1] + s * (c[1] - a[1])])
        pts.append([c[0], a[1]])
    seen = set()
    for p in pts:
        want = ref.locate(v, p)
        d = ref.boundary_distance(v, p)
        if d == 0 or d > 1e-10:
            # Exact in the frame of the obstacle
            classify(o, p, Frame.OBSTACLE, want, 'point %s in the obstacle frame' % p)
            seen.add(want)
        if d > 1e-9:
            g = ref.fwd(pose, p)
            classify(o, g, Frame.GLOBAL, want, 'point %s' % list(g))
            classify(o, g, None, want, 'point %s' % list(g))
    rec.label('boundary', 0 in seen)
    rec.hit(len(seen) > 1)


def ellipse(case, rec):
    from obstacles import Frame
    spec = case['o']
    a, pose = spec['a'], spec.get('pose')
    o = gen.build(spec)
    seen = set()
    for t, r in case['polar']:
        y = [r * a[0] * math.cos(t), r * a[1] * math.sin(t)]
        for frame in (Frame.OBSTACLE, Frame.GLOBAL, None):
            p = np.array(y) if frame == Frame.OBSTACLE else ref.fwd(pose, y)
            kw = {} if frame is None else {'input_frame': frame}
            if r == 1:
                require(o.boundary_point(p, **kw), 'boundary point {} is not reported as such', list(p))
                require(abs(o.point_location(p, **kw)) < 1e-8, 'location of a boundary point is {}', o.point_location(p, **kw))
            else:
                classify(o, p, frame, 1 if r > 1 else -1, 'point %s' % list(p))
            seen.add((r > 1) - (r < 1))
    rec.hit(len(seen) > 1)


def combination(case, rec):
    """Interior of any member or the hull is interior, outside of all is exterior."""
    o, _ = combo.build(case)
    combo.warm_up(case, o)
    seen = set()
    for p in case['p']:
        want = combo.location(case, p)
        near = [ref.boundary_distance(v, p) for v in combo.parts(case)]
        if any(0 < d < 1e-10 for d in near):
            continue
        seen.add(want)
        if want is None:
            # Between members: interior or boundary
            loc = o.point_location(np.array(p, float))
            require(loc <= 0 and not o.exterior_point(np.array(p, float)), 'location {} is reported for {}, which is on the boundary of a member', loc, p)
            continue
        classify(o, p, None, want, 'point %s' % p)
    rec.label('boundary', 0 in seen)
    rec.hit(len(seen) > 1)


@st.composite
def polygons(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 80)
    return {'o': o, 'p': [b.point(2.5) for _ in range(8)],
            'edge': [[b.int(0, 40), [0, .5, .25, -.5, 1.5, .75, -1, 2][b.int(0, 7)], b.int(0, 40)] for _ in range(4)]}


@st.composite
def ellipses(draw):
    o = draw(gen.ellipse_spec())
    b = gen.Raw(draw, 60)
    return {'o': o, 'polar': [[b.angle(), [1, 1 - 1e-6, 1 + 1e-6, .9, 1.1, 0, .5, 2, b.int(0, 40) / 7][b.int(0, 8)]] for _ in range(8)]}


TESTS = [
    Test('ellipse', ellipses(), ellipse, 3000),
    Test('starshaped', gen.off_center(polygons(gen.star_spec())), polygon, 3000),
    Test('polygon', gen.off_center(polygons(gen.polygon_spec())), polygon, 6000),
    Test('combination', combo.with_points(), combination, 3000),
    Test('pocket', polygons(gen.polygon_spec(vertices=gen.pocket_vertices())), polygon, 2000),
]
