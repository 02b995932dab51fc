"""The combination of several obstacles and a hull behaves as one starshaped obstacle: their union."""
import math

import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'at least two members contribute to the boundary of the combination'


def members(case):
    """Obstacles, optionally with a translational velocity."""
    from obstacles import motion_model as mm
    out = []
    for s, v in zip(case['o'], case['vel']):
        p = s['pose']
        m = mm.SinusVelocity(p[:2], p[2], cartesian_coords=True, x1_mag=v[0], x2_mag=v[1])
        out.append(gen.build(s, motion_model=m))
    return out


def far(region, k, d):
    """Distance of the last boundary point of the region on the ray from k, and the region of the ray around it."""
    ray = sg.LineString([k, np.array(k) + 100 * d])
    g = ray.intersection(region.boundary)
    pts = [c for h in getattr(g, 'geoms', [g]) for c in h.coords]
    return max([float(np.linalg.norm(np.array(c) - k)) for c in pts] + [-1])


def check(case, rec):
    import starshaped_hull as sh
    from obstacles import StarshapedPrimitiveCombination
    obs = members(case)
    K = np.array(case['K'], float)
    k = K.mean(axis=0)
    hull = sh.kernel_starshaped_hull(obs, K)
    if hull is not None and case['hull_only'] is False and hull.geom_type != 'Polygon':
        raise Skip()
    regs = [gen.region(s, 512) for s in case['o']]
    parts = regs + ([hull] if hull is not None else [])
    U = ref.union(parts)
    if U.geom_type != 'Polygon' or not U.contains(sg.Point(k)) or U.exterior.distance(sg.Point(k)) < 0.02:
        raise Skip()
    # The n-gons of the ellipses
    ell = any(s['t'] == 'E' for s in case['o'])
    gap = max([0.013 * max(s['a']) + 1.5e-3 for s in case['o'] if s['t'] == 'E'] + [1e-6])
    eps = 1e-3 if ell else 1e-6
    inside = [o for o in obs if o.is_starshaped()]
    spc = StarshapedPrimitiveCombination(inside, hull, xr=k)
    for op in case['warm']:
        [spc.polygon, spc.kernel, spc.is_convex, lambda: spc.normal(np.array(case['x'][0]) + [9, 9])][op]()
    p = spc.polygon()
    require(p.geom_type == 'Polygon' and p.is_valid, 'polygon of the combination is {}', p.geom_type)
    require(p.buffer(gap).covers(U) and U.buffer(gap).covers(p), 'polygon of the combination is not the union (areas {}, {})', p.area, U.area)
    require(np.allclose(spc.xr(), k, atol=1e-9), 'reference point {}', list(spc.xr()))
    on_boundary = [not g.exterior.intersection(U.exterior.buffer(eps)).is_empty for g in parts]
    if sum(on_boundary) < 2:
        rec.label('single')
    rec.hit(sum(on_boundary) > 1)
    for x in case['x']:
        x = np.array(x)
        X = sg.Point(x)
        d = U.exterior.distance(X)
        if d > eps:
            want = -1 if U.contains(X) else 1
            got = spc.point_location(x)
            if want > 0:
                require(got > 0 and spc.exterior_point(x) and not spc.interior_point(x), 'location of the exterior point {} is {}', list(x), got)
            else:
                # Common boundary of members is not resolved
                if min(g.exterior.distance(X) for g in parts) > eps:
                    require(got < 0 and spc.interior_point(x), 'location of the interior point {} is {}', list(x), got)
                else:
                    require(got <= 0, 'location of the interior point {} is {}', list(x), got)
        if np.linalg.norm(x - k) < 1e-3:
            continue
        u = (x - k) / np.linalg.norm(x - k)
        r = far(U, k, u)
        b = spc.boundary_mapping(x)
        require(b is not None, 'no boundary mapping for {}', list(x))
        # Grazing edges: compare with the radius in nearby directions
        rs = [far(U, k, np.array([u[0] * math.cos(t) - u[1] * math.sin(t), u[0] * math.sin(t) + u[1] * math.cos(t)])) for t in (-1e-4, 1e-4)]
        rb = np.linalg.norm(b - k)
        require(abs(np.dot(b - k, u) - rb) < 1e-6 * max(1, rb), 'boundary mapping of {} is {}, not in the direction from the reference point', list(x), list(b))
        require(min(rs + [r]) - 2 * eps < rb < max(rs + [r]) + 2 * eps, 'boundary mapping of {} is at distance {}, expected {}', list(x), rb, r)
        if abs(np.linalg.norm(x - k) - r) > max(abs(r - v) for v in rs) + 3 * eps:
            f = spc.distance_function(x)
            require((f > 1) == (np.linalg.norm(x - k) > r), 'distance function of {} is {} (distance {}, boundary {})', list(x), f, np.linalg.norm(x - k), r)
        for t in ('polygon_approx', 'weigthed_polygon_approx'):
            n = spc.normal(x, type=t)
            require(abs(np.linalg.norm(n) - 1) < 1e-9, '{}: length of the normal is {}', t, np.linalg.norm(n))
        rad = [far(g, k, u) for g in regs]
        star = [s['t'] != 'P' for s in case['o']]
        at_xr = any(np.linalg.norm(x - o.xr()) < 1e-3 for o in obs if hasattr(o, 'xr'))
        hull_outside = hull is not None and hull.geom_type == 'Polygon' and far(hull, k, u) > max(rad) + 0.01
        n_sub = spc.normal(x, type='sub_normal') if all(star) and not at_xr else None
        if all(star) and not at_xr:
            require(n_sub is not None and np.shape(n_sub) == (2,) and abs(np.linalg.norm(n_sub) - 1) < 1e-9, 'sub_normal: the normal is {}', n_sub)
            # At the boundary: the one of the outermost member
            i = int(np.argmax(rad))
            others = [q for j, q in enumerate(rad) if j != i] + ([far(hull, k, u)] if hull is not None and hull.geom_type == 'Polygon' else [])
            if rad[i] > max(others + [0]) + .02:
                n_out = outward(case['o'][i], b)
                if n_out is not None and np.dot(n_out, u) > 0.05:
                    n_b = spc.normal(b, type='sub_normal')
                    rec.label('member normal')
                    require(n_b is not None and np.linalg.norm(n_b - n_out) < 1e-4, 'sub_normal at the boundary point {} is {}, the outermost member {} has {}', list(b), n_b, i, list(n_out))
        # The normal of the edge of the polygon in the direction of x
        v = np.asarray(p.exterior.coords)[:-1]
        ang = np.abs((np.arctan2(v[:, 1] - k[1], v[:, 0] - k[0]) - math.atan2(u[1], u[0]) + math.pi) % (2 * math.pi) - math.pi)
        if ang.min() > 1e-6 and not ell:
            n = spc.normal(x, type='polygon_approx')
            w = np.vstack((v, v[:1])) if p.exterior.is_ccw else np.vstack((v, v[:1]))[::-1]
            best = None
            for i in range(len(w) - 1):
                e = w[i + 1] - w[i]
                if (w[i][0] - k[0]) * u[1] - (w[i][1] - k[1]) * u[0] > 0 > (w[i + 1][0] - k[0]) * u[1] - (w[i + 1][1] - k[1]) * u[0]:
                    nn = np.array([e[1], -e[0]]) / np.linalg.norm(e)
                    if np.dot(nn, u) > 1e-3 and np.linalg.norm(e) > 1e-4:
                        best = nn if best is None else False
            if best is not None and best is not False:
                rec.label('edge normal')
                require(np.linalg.norm(n - best) < 1e-4, 'normal {} for {}, the edge has {}', list(n), list(x), list(best))
                if n_sub is not None and hull_outside and len(hull.interiors) == 0 and hull.contains(sg.Point(k)):
                    rec.label('hull normal')
                    require(np.linalg.norm(n_sub - best) < 1e-4, 'sub_normal: normal {} for {}, the edge has {}', list(n_sub), list(x), list(best))
        order = np.argsort(rad)
        # Velocity of the outermost member (the reference direction is not defined at the reference point of the member)
        if not at_xr and all(star) and len(rad) > 1 and rad[order[-1]] - rad[order[-2]] > 0.02 and rad[order[-1]] > 0:
            want = case['vel'][order[-1]]
            got = spc.vel_intertial_frame(x)
            rec.label('velocity')
            require(np.allclose(got, want, atol=1e-9), 'velocity for {} is {}, the outermost member {} has {}', list(x), list(got), int(order[-1]), want)
    for a, c in case['lines']:
        a, c = np.array(a), np.array(c)
        if np.linalg.norm(a - c) < 1e-3:
            continue
        line = sg.LineString([a, c])
        got = spc.line_intersection([a, c])
        for g in got:
            require(line.distance(sg.Point(g)) < 1e-6, 'intersection {} is not on the segment', list(g))
            require(min(q.exterior.distance(sg.Point(g)) for q in parts) < eps, 'intersection {} is not on the boundary of a member or the hull', list(g))
        # Clear crossings of the boundary of the union: end points clearly inside and outside of parts of the segment
        n = 60
        pos = [a + (c - a) * i / n for i in range(n + 1)]
        cls = [0 if U.exterior.distance(sg.Point(q)) < 0.01 else (1 if U.contains(sg.Point(q)) else -1) for q in pos]
        for i in range(n):
            if cls[i] * cls[i + 1] < 0:
                rec.label('crossing')
                seg = sg.LineString([pos[i], pos[i + 1]])
                require(any(seg.distance(sg.Point(g)) < 1e-6 for g in got), 'crossing of the boundary between {} and {} is missing', list(pos[i]), list(pos[i + 1]))
    # Kernel and convexity
    if not ell:
        # (The polygon with n-gons for the ellipses is only starshaped up to their accuracy)
        kern = spc.kernel()
        require(kern.buffer(1e-6).contains(sg.Point(k)), 'reference point {} is not in the kernel', list(k))
    if p.convex_hull.area - p.area > 1e-3:
        require(not spc.is_convex(), 'combination is reported as convex')
    require(spc.is_starshaped(), 'combination is not starshaped')


def outward(spec, b):
    """Outward normal of the obstacle at the boundary point b, None at (or close to) a vertex, and elsewhere."""
    y = ref.inv(spec['pose'], b)
    if spec['t'] == 'E':
        if abs(math.hypot(y[0] / spec['a'][0], y[1] / spec['a'][1]) - 1) > 1e-6:
            return None
        n = np.array([y[0] / spec['a'][0] ** 2, y[1] / spec['a'][1] ** 2])
    else:
        v = [np.array(p) for p in ref.ccw(spec['v'])]
        on = [i for i in range(len(v)) if ref.point_segment_distance(y, v[i - 1], v[i]) < 1e-3]
        if len(on) != 1 or ref.point_segment_distance(y, v[on[0] - 1], v[on[0]]) > 1e-6:
            return None
        e = v[on[0]] - v[on[0] - 1]
        n = np.array([e[1], -e[0]])
    return ref.rot(spec['pose'], n / np.linalg.norm(n))


def member():
    p = gen.raw(8, lambda b: [b.coord(1.2, 16), b.coord(1.2, 16), b.angle()])
    return st.one_of(gen.ellipse_spec(p), gen.star_spec(p), gen.polygon_spec(p, gen.convex_vertices(r=1)), gen.polygon_spec(p, gen.tangled_vertices(r=1)),
                     scene.bar(p))


@st.composite
def cases(draw, spec, nmin=1, nmax=4):
    n = draw(st.integers(nmin, nmax))
    o = [draw(spec) for _ in range(n)]
    b = gen.Raw(draw, 100)
    c, r, t = b.point(1, 16), [.02, .05, .1, .2][b.int(0, 3)], b.angle()
    K = [[c[0] + r * math.cos(t + s), c[1] + r * math.sin(t + s)] for s in (0, 2 * math.pi / 3, 4 * math.pi / 3)]
    return {'o': o, 'K': K, 'vel': [b.point(2) for _ in range(n)], 'x': [b.point(3) for _ in range(4)], 'lines': [[b.point(3), b.point(3)] for _ in range(2)],
            'warm': [b.int(0, 3) for _ in range(b.int(0, 3))], 'hull_only': False}


P = gen.raw(8, lambda b: [b.coord(1.2, 16), b.coord(1.2, 16), b.angle()])
TESTS = [
    Test('mixed', cases(member()), check, 1200),
    Test('polygons', cases(st.one_of(gen.star_spec(P), gen.polygon_spec(P, gen.convex_vertices(r=1)), gen.polygon_spec(P, gen.tangled_vertices(r=1)))), check, 1000),
    Test('velocity', cases(st.one_of(gen.ellipse_spec(P, 3, 6), gen.star_spec(P)), 2, 4), check, 1000),
]
