"""The starshaped hull for given kernel points is the smallest set with the obstacles which is starshaped for all of them."""
import math

import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'probe points inside and outside of the hull, and the hull extends the obstacles'


def shadow(p, K, R):
    """The points which p hides from some point in the convex hull of K (p not in the convex hull)."""
    d = [np.array(p) - k for k in K]
    d = [v / np.linalg.norm(v) for v in d]
    mid = math.atan2(*sum(d)[::-1])
    a = [ref.ccw_angle([math.cos(mid), math.sin(mid)], v) for v in d]
    a = [t - 2 * math.pi if t > math.pi else t for t in a]
    lo, hi = min(a), max(a)
    if hi - lo > math.pi - 1e-3:
        return None
    end = [[p[0] + R * math.cos(mid + t), p[1] + R * math.sin(mid + t)] for t in np.linspace(lo, hi, 5)]
    if hi - lo < 1e-9:
        return sg.LineString([p, end[0]])
    return sg.Polygon([p] + end)


def check(case, rec):
    import starshaped_hull as sh
    obs = [gen.build(s) for s in case['o']]
    K = np.array(case['K'], float)
    regs = [gen.region(s, 256) for s in case['o']]
    tol = 1e-3 if any(s['t'] == 'E' for s in case['o']) else 1e-6
    as_list = len(obs) > 1 or case['list']
    hull = sh.kernel_starshaped_hull(obs if as_list else obs[0], K)
    if hull is None:
        require(as_list, 'no result for a single obstacle')
        hull = sg.Polygon()
    require(hull.is_valid, 'invalid polygon')
    # The hull of a convex obstacle is only the extension of the obstacle
    total = hull if hull.is_empty else ref.union([g for g in getattr(hull, 'geoms', [hull])])
    for s, o, g in zip(case['o'], obs, regs):
        if not o.is_convex():
            d = g.difference(hull.buffer(tol))
            require(d.area < 1e-6, 'hull does not contain the nonconvex obstacle (area {:.1e})', d.area)
    total = ref.union([total] + regs) if not total.is_empty else ref.union(regs)
    area = ref.union(regs).area
    rec.label('extended', total.area > area + 1e-3)
    ck = sg.MultiPoint(K).convex_hull
    all_regs = shapely.union_all(regs)
    big, small = all_regs.buffer(tol), all_regs.buffer(-tol)
    hbig, hsmall = total.buffer(2 * tol), total.buffer(-2 * tol)
    R = 100. + 4 * float(np.max(np.abs(np.array(all_regs.bounds))))
    probes = [np.array(p) for p in case['p']]
    verts = np.vstack([np.asarray(g.exterior.coords)[:-1] for g in regs])
    for i, s, e in case['seg']:
        v = verts[i % len(verts)]
        k = K[i % len(K)]
        probes.append(k + s * (v - k) + np.array(e))
    seen = set()
    for p in probes:
        P = sg.Point(p)
        if ck.distance(P) < 0.01:
            require(ck.distance(P) > 1e-9 or hbig.intersects(P), 'hull does not contain the point {} between the kernel points', list(p))
            continue
        if small.intersects(P):
            want = 1
        else:
            sh_p = shadow(p, K, R)
            if sh_p is None:
                continue
            if sh_p.intersects(small):
                want = 1
            elif not sh_p.intersects(big) and sh_p.distance(big) > 10 * tol:
                want = 0
            else:
                continue
        seen.add(want)
        if want:
            require(hbig.intersects(P), 'hull does not contain {}, although it is between a kernel point and the obstacle', list(p))
        else:
            require(not hsmall.intersects(P), 'hull contains {}, which is not between the kernel points and the obstacle', list(p))
    rec.hit(len(seen) == 2 and total.area > area + 1e-3)


@st.composite
def cases(draw, obstacles, n):
    m = draw(st.integers(*n))
    o = [draw(obstacles) for _ in range(m)]
    b = gen.Raw(draw, 140)
    nk = b.int(0, 3)
    c = b.point(3)
    if o[0].get('pose') and b.int(0, 1):
        c = [c[0] + o[0]['pose'][0], c[1] + o[0]['pose'][1]]
    if nk == 0:
        K = [c]
    elif nk == 1:
        K = [c, [c[0] + b.coord(1) + 2, c[1] + b.coord(1)]]
    else:
        r = [.05, .1, .4, 1][b.int(0, 3)]
        a = b.angle()
        K = [[c[0] + r * math.cos(a + t), c[1] + r * math.sin(a + t)] for t in (0, 2.1, 4.2, 5.5)[:nk + 1]]
    return {'o': o, 'K': K, 'list': b.int(0, 1) == 1, 'p': [b.point(5) for _ in range(10)],
            'seg': [[b.int(0, 200), b.int(0, 36) / 32, [b.coord(.1, 256), b.coord(.1, 256)]] for _ in range(8)]}


P = gen.pose(2)
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P), (1, 1)), check, 1500),
    Test('convex', cases(st.one_of(gen.star_spec(P, gen.convex_vertices().map(gen.centered)), gen.polygon_spec(P, gen.convex_vertices())), (1, 1)), check, 2000),
    Test('starshaped', cases(gen.star_spec(P), (1, 1)), check, 1500),
    Test('polygon', cases(gen.polygon_spec(P), (1, 1)), check, 3000),
    Test('list', cases(gen.obstacle_spec(P), (2, 4)), check, 1500),
]
