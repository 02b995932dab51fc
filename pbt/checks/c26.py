"""convex_hull returns exactly the extreme points of the given points, in counterclockwise order."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, require

RULE = 'the hull has at least 3 vertices'


def check(case, rec):
    from utils import convex_hull
    pts = case['p']
    before = [list(p) for p in pts]
    want = ref.convex_hull(pts)
    rec.hit(len(want) >= 3)
    rec.label('repeated points', len({tuple(p) for p in pts}) < len(pts))
    rec.label('%d points' % len(want), len(want) < 3)
    rec.label('points inside or on the hull', len(want) < len({tuple(p) for p in pts}))
    for arg in (pts, np.array(pts), [tuple(p) for p in pts]):
        got = [(float(p[0]), float(p[1])) for p in convex_hull(arg)]
        require(len(got) == len(set(got)), 'the hull {} has repeated vertices', got)
        require(set(got) == set(want), 'the hull is {}, expected {}', got, want)
        if len(want) >= 3:
            i = got.index(want[0])
            require(got[i:] + got[:i] == list(want), 'the hull {} is not counterclockwise', got)
    require(pts == before, 'the points were changed')


@st.composite
def cases(draw):
    r, q = draw(st.sampled_from([(1, 1), (2, 2), (4, 8), (100, 1)]))
    n = draw(st.integers(1, 14))
    pts = draw(gen.points(n, r, q))
    for i in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 1))
        a, b = draw(st.sampled_from(pts)), draw(st.sampled_from(pts))
        pts.insert(draw(st.integers(0, len(pts))), list(a) if k else [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
    if draw(st.integers(0, 3)) == 0:
        pts = [[p[0], pts[0][1]] for p in pts] if draw(st.booleans()) else [[p[0], p[0]] for p in pts]
    return {'p': pts}


TESTS = [Test('hull', cases(), check, 10000)]
