"""Radial mapping of starshaped obstacles: boundary mapping, distance function, reference direction and normal."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.core import Skip, Test, require

RULE = 'point is not the reference point, and (for polygons) not in the direction of a vertex'


def boundary_point(spec, xr, d):
    """Reference: where the ray from xr in direction d leaves the obstacle (obstacle frame), and the outward normal there (None at a vertex)."""
    if spec['t'] == 'E':
        a = np.array(spec['a'])
        p, q = xr / a, d / a
        A, B, C = q.dot(q), p.dot(q), p.dot(p) - 1
        t = (-B + math.sqrt(B * B - A * C)) / A
        b = xr + t * d
        n = b / a ** 2
        return b, n / np.linalg.norm(n)
    v = [np.array(p) for p in ref.ccw(spec['v'])]
    best = None
    for i in range(len(v)):
        e = v[i] - v[i - 1]
        den = d[0] * e[1] - d[1] * e[0]
        if abs(den) < 1e-12:
            continue
        w = v[i - 1] - xr
        t = (w[0] * e[1] - w[1] * e[0]) / den
        u = (w[0] * d[1] - w[1] * d[0]) / den
        if t > 0 and -1e-12 <= u <= 1 + 1e-12:
            n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
            corner = min(u, 1 - u) * np.linalg.norm(e) < 1e-6
            if best is None or corner:
                best = (xr + t * d, None if corner else n)
    return best


def check(case, rec):
    from obstacles import Frame
    spec, pose = case['o'], case['o'].get('pose')
    o = gen.build(spec)
    if case['set_xr'] is not None:
        if spec['t'] == 'E':
            o.set_xr(np.array(case['set_xr']) * np.array(spec['a']) * .9)
        else:
            o.set_xr(np.array(case['set_xr']) * .03 + np.array(case.get('off', [0., 0.])))
    xr = np.array(o.xr(Frame.OBSTACLE))
    for p in case['p']:
        p = np.array(p, float)
        r = np.linalg.norm(p - xr)
        if r < 1e-3:
            continue
        d = (p - xr) / r
        want, n = boundary_point(spec, xr, d)
        x = ref.fwd(pose, p)
        got = o.boundary_mapping(x)
        require(got is not None, 'no boundary point for {}', list(x))
        b = ref.inv(pose, got)
        require(np.linalg.norm(b - want) < 1e-6, 'boundary mapping of {} is {}, expected {} (obstacle frame)', list(p), list(b), list(want))
        rd = o.reference_direction(x)
        require(np.linalg.norm(rd - ref.rot(pose, d)) < 1e-9, 'reference direction {}', list(rd))
        radius = np.linalg.norm(want - xr)
        f = o.distance_function(x)
        require(math.isfinite(f) and f >= 0, 'distance function is {}', f)
        if abs(r - radius) > 1e-6:
            require((f > 1) == (r > radius), 'distance function at {} is {}, but the boundary has distance {} from xr, the point {}', list(p), f, radius, r)
        else:
            require(abs(f - 1) < 1e-4, 'distance function on the boundary is {}', f)
        # On the boundary, and monotone along the ray
        require(abs(o.distance_function(got) - 1) < 1e-6, 'distance function at the mapped point is {}', o.distance_function(got))
        fs = [o.distance_function(ref.fwd(pose, xr + s * d)) for s in (.25 * radius, .5 * radius, .99 * radius, 1.01 * radius, 1.5 * radius, 4 * radius)]
        require(all(a < c for a, c in zip(fs, fs[1:])), 'distance function is not increasing along the ray: {}', [float(v) for v in fs])
        require(fs[2] < 1 < fs[3], 'distance function across the boundary: {}', [float(v) for v in fs])
        require(np.linalg.norm(o.boundary_mapping(ref.fwd(pose, xr + 3 * (p - xr))) - got) < 1e-6, 'boundary mapping is not constant along the ray')
        if n is not None:
            rec.hit()
            got_n = ref.rot(None if pose is None else [0, 0, -pose[2]], o.normal(x))
            require(np.linalg.norm(got_n - n) < 1e-6, 'normal for {} is {}, expected {} (obstacle frame)', list(p), list(got_n), list(n))
            if spec['t'] == 'E':
                got_n = ref.rot(None if pose is None else [0, 0, -pose[2]], o.normal(got, x_is_boundary=True))
                require(np.linalg.norm(got_n - n) < 1e-6, 'normal at the boundary point is {}, expected {}', list(got_n), list(n))
        if spec['t'] != 'E':
            w = o.normal(x, type='weighted_edges')
            require(abs(np.linalg.norm(w) - 1) < 1e-9, 'weighted normal has length {}', np.linalg.norm(w))
            v = [np.array(q) for q in ref.ccw(spec['v'])]
            if n is not None and len([i for i in range(len(v)) if ref.point_segment_distance(want, v[i - 1], v[i]) < .05]) == 1:
                # On an edge, far from the others
                w = ref.rot(None if pose is None else [0, 0, -pose[2]], o.normal(got, type='weighted_edges'))
                require(np.linalg.norm(w - n) < 1e-2, 'weighted normal on an edge at {} is {}, expected {}', list(want), list(w), list(n))


def combination(case, rec):
    """The radial mapping of a combination is the one of the union."""
    o, _ = combo.build(case)
    combo.warm_up(case, o)
    check_combination(case, o, rec)
    if 'to' in case:
        # Another reference point in the kernel
        U = combo.union(case)
        if U.geom_type != 'Polygon' or U.interiors:
            return
        K = ref.kernel(ref.ccw([list(p) for p in U.exterior.simplify(1e-9).coords[:-1]]))
        if not hasattr(K, 'exterior') or K.is_empty or K.area < 1e-2 * K.length:
            return
        c = np.asarray(K.exterior.coords)[case['to'][0] % (len(K.exterior.coords) - 1)]
        k = c + case['to'][1] / 8 * (np.asarray(K.centroid.coords[0]) - c)
        if U.exterior.distance(sg.Point(k)) < 1e-2:
            return
        o.set_xr(k)
        rec.label('moved')
        check_combination(dict(case, xr=[float(q) for q in k]), o, rec)


def check_combination(case, o, rec):
    k = np.array(case['xr'], float)
    require(np.array_equal(o.xr(), k), 'reference point {}, expected {}', list(o.xr()), list(k))
    for p in case['p']:
        p = np.array(p, float)
        r = np.linalg.norm(p - k)
        if r < 1e-3:
            continue
        d = (p - k) / r
        turn = [np.array([d[0] * math.cos(t) - d[1] * math.sin(t), d[0] * math.sin(t) + d[1] * math.cos(t)]) for t in (-1e-6, 1e-6)]
        (R, N), near = combo.radius(case, d), [combo.radius(case, q)[0] for q in turn]
        if max(near + [R]) - min(near + [R]) > 1e-4:
            # Edge in the radial direction
            continue
        b = o.boundary_mapping(p)
        require(b is not None, 'no boundary point for {}', list(p))
        require(np.linalg.norm(b - k - R * d) < 1e-6, 'boundary mapping of {} is {}, expected {}', list(p), list(b), list(k + R * d))
        require(np.linalg.norm(o.reference_direction(p) - d) < 1e-9, 'reference direction of {} is {}', list(p), list(o.reference_direction(p)))
        f = o.distance_function(p)
        if abs(r - R) > 1e-6:
            require((f > 1) == (r > R), 'distance function at {} is {}, but the boundary has distance {} from xr, the point {}', list(p), f, R, r)
        else:
            require(abs(f - 1) < 1e-4, 'distance function on the boundary is {}', f)
        for s in (.3, 2.):
            require(np.linalg.norm(o.boundary_mapping(k + s * (p - k)) - b) < 1e-6, 'boundary mapping is not constant along the ray')
        for t in ('weigthed_polygon_approx', 'polygon_approx'):
            n = o.normal(p, type=t)
            require(abs(np.linalg.norm(n) - 1) < 1e-9, '{}: length of the normal is {}', t, np.linalg.norm(n))
        nn = [combo.radius(case, np.array([d[0] * math.cos(t) - d[1] * math.sin(t), d[0] * math.sin(t) + d[1] * math.cos(t)]))[1] for t in (-1e-4, 1e-4)] + [N]
        nn = [m for l in nn for m in l]
        if all(np.linalg.norm(m - nn[0]) < 1e-9 for m in nn) and np.dot(nn[0], d) > 1e-2:
            rec.hit()
            require(np.linalg.norm(n - nn[0]) < 1e-6, 'normal for {} is {}, expected {}', list(p), list(n), list(nn[0]))


def kernel_boundary(case, rec):
    """The reference point is anywhere in the kernel, also on its boundary, where edges (almost) are radial."""
    spec, pose = case['o'], case['o'].get('pose')
    P = sg.Polygon(spec['v'])
    K = gen_kernel(spec['v'])
    if K is None:
        raise Skip()
    c = np.asarray(K.exterior.coords)[:-1]
    i = case['i'] % len(c)
    xr = c[i] + case['s'] * (c[i - 1] - c[i])
    xr = xr + case.get('w', 0) * (np.asarray(K.centroid.coords[0]) - xr)
    if P.exterior.distance(sg.Point(xr)) < 0.02:
        raise Skip()
    if case['new']:
        o = gen.build(dict(spec, xr=[float(v) for v in xr]))
    else:
        o = gen.build(spec)
        o.set_xr(xr)
    at = [math.atan2(v[1] - xr[1], v[0] - xr[0]) for v in spec['v']]
    for v in spec['v']:
        # Towards a vertex, maybe along an edge: some boundary point in this direction
        for f in (.5, 2):
            b = o.boundary_mapping(ref.fwd(pose, xr + f * (np.array(v) - xr)))
            require(b is not None, 'no boundary point towards the vertex {}', v)
            b = ref.inv(pose, b)
            require(P.exterior.distance(sg.Point(b)) < 1e-6 and abs(ref.cross(xr, v, b)) < 1e-6 and np.dot(b - xr, np.array(v) - xr) > 0,
                    'boundary mapping towards the vertex {} is {}', v, list(b))
    for p in case['p']:
        p = np.array(p, float)
        r = np.linalg.norm(p - xr)
        if r < 1e-3:
            continue
        d = (p - xr) / r
        if min(abs(math.remainder(a - math.atan2(d[1], d[0]), 2 * math.pi)) for a in at) < 1e-4:
            continue
        want, n = boundary_point(spec, xr, d)
        rec.hit()
        x = ref.fwd(pose, p)
        back = None if pose is None else [0, 0, -pose[2]]
        b = ref.inv(pose, o.boundary_mapping(x))
        require(np.linalg.norm(b - want) < 1e-6, 'boundary mapping of {} is {}, expected {} (obstacle frame)', list(p), list(b), list(want))
        f, radius = o.distance_function(x), np.linalg.norm(want - xr)
        if abs(r - radius) > 1e-6:
            require((f > 1) == (r > radius), 'distance function at {} is {}, but the boundary has distance {} from xr, the point {}', list(p), f, radius, r)
        if n is not None:
            got = ref.rot(back, o.normal(x))
            require(np.linalg.norm(got - n) < 1e-6, 'normal for {} is {}, expected {} (obstacle frame)', list(p), list(got), list(n))


def gen_kernel(v):
    v = ref.ccw(v)
    K = ref.kernel(v)
    K = sg.Polygon(K) if not hasattr(K, 'exterior') else K
    return K if K.area > 1e-3 else None


@st.composite
def boundary_cases(draw):
    o = draw(gen.star_spec(gen.pose(), st.one_of(gen.star_vertices(r=12), gen.star_vertices(nmin=6, nmax=12, r=30), combo_star(), gen.convex_vertices())))
    b = gen.Raw(draw, 24)
    return {'o': dict(o, xr=None), 'i': b.int(0, 15), 's': b.int(0, 4) / 4, 'w': [0, 0, .05, .2, .5][b.int(0, 4)], 'new': b.int(0, 1) == 1, 'p': [b.point(4, 8) for _ in range(4)]}


@st.composite
def moving(draw, strategy):
    case = draw(strategy)
    b = gen.Raw(draw, 4)
    if b.int(0, 1):
        case['to'] = [b.int(0, 15), b.int(1, 8)]
    return case


@st.composite
def combo_star(draw):
    """Rectilinear stars: the edges at the inner corners are on lines through the kernel."""
    b = gen.Raw(draw, 12)
    w, h = b.int(2, 8) / 8, b.int(2, 8) / 8
    arm = [b.int(0, 12) / 8 for _ in range(4)]
    v = []
    for (cx, cy), (a1, a2), ccw_first in (((w, h), (arm[0], arm[1]), 0), ((-w, h), (arm[2], arm[1]), 1), ((-w, -h), (arm[2], arm[3]), 0), ((w, -h), (arm[0], arm[3]), 1)):
        px, py = [cx + math.copysign(a1, cx), cy], [cx, cy + math.copysign(a2, cy)]
        q = [px, [cx, cy], py]
        v += q[::-1] if ccw_first else q
    v = [p for i, p in enumerate(v) if p != v[i - 1]]
    # Shear, to have other directions than the axes
    s, t = b.int(0, 6) / 8, b.int(0, 4) / 8
    return [[p[0] + s * p[1], p[1] + t * p[0]] for p in v]


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 24)
    c = {'o': o, 'set_xr': None if b.int(0, 2) == 0 else b.point(.5, 16), 'p': [b.point(4, 8) for _ in range(3)]}
    if o['t'] != 'E' and b.int(0, 2) == 0:
        # At, or in the direction of, a vertex
        v, s = o['v'][b.int(0, len(o['v']) - 1)], [1, .5, 2][b.int(0, 2)]
        c['p'][0] = [s * v[0], s * v[1]]
    return c


P = gen.pose()
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P)), check, 3000),
    Test('starshaped', gen.off_center(cases(gen.star_spec(P, gen.star_vertices(r=12)))), check, 4000),
    Test('kernel_boundary', gen.off_center(boundary_cases()), kernel_boundary, 5000),
    Test('combination', moving(combo.with_points()), combination, 3000),
    Test('spiky', cases(gen.star_spec(P, gen.star_vertices(nmin=6, nmax=12, r=30))), check, 3000),
]
