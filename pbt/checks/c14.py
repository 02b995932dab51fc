"""Queries follow the current pose, whatever was asked before: an obstacle with any history behaves as a new obstacle at its pose."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c13 import close, line_margin, same_directions, same_points, tangents_clear
from pbt.core import Skip, Test, require

RULE = 'a query was made, then the pose changed, then the same query was made again'
QUERIES = ['polygon', 'kernel', 'location', 'xr', 'extreme', 'tangent', 'boundary', 'line', 'intersects', 'convex', 'hull', 'local', 'normal', 'distance', 'direction']


def vertex_angle_margin(v, r, y):
    """Smallest angle between the directions from r to y and to a vertex."""
    d = np.array(y) - r
    m = math.pi
    for w in v:
        e = np.array(w) - r
        if np.linalg.norm(e) < 1e-9:
            return 0
        m = min(m, abs(math.atan2(d[0] * e[1] - d[1] * e[0], d.dot(e))))
    return m


def in_kernel(spec, r):
    """Strictly in the kernel."""
    if spec['t'] == 'E':
        return math.hypot(r[0] / spec['a'][0], r[1] / spec['a'][1]) < .9
    v = np.array(ref.ccw(spec['v']))
    for a, b in zip(v, np.roll(v, -1, 0)):
        d = b - a
        if (d[0] * (r[1] - a[1]) - d[1] * (r[0] - a[0])) / np.linalg.norm(d) < .02:
            return False
    return True


def compare(query, o, twin, spec, p, q, other, what):
    """Same result for the obstacle and a new one with the same pose."""
    from obstacles import Frame
    star = hasattr(twin, 'xr')
    p, q = np.array(p, float), np.array(q, float)
    y, z = ref.inv(spec['pose'], p), ref.inv(spec['pose'], q)  # rounding may matter in degenerate cases
    if query == 'polygon':
        d = o.polygon().exterior.hausdorff_distance(twin.polygon().exterior)
        require(d < 1e-7, 'polygon differs by {:.2e} {}', d, what)
    elif query == 'local':
        d = o.polygon(Frame.OBSTACLE).exterior.hausdorff_distance(twin.polygon(Frame.OBSTACLE).exterior)
        require(d < 1e-9, 'polygon in the obstacle frame differs by {:.2e} {}', d, what)
    elif query == 'kernel' and star:
        d = o.kernel().exterior.hausdorff_distance(twin.kernel().exterior)
        require(d < 1e-7, 'kernel differs by {:.2e} {}', d, what)
    elif query == 'location' and gen.location(spec, p)[1] > 1e-9:
        a, b = o.point_location(p), twin.point_location(p)
        require(np.sign(a) == np.sign(b), 'location of {} is {}, for a new obstacle {} {}', list(p), a, b, what)
    elif query == 'xr' and star:
        require(close(o.xr(), twin.xr()), 'xr is {}, for a new obstacle {} {}', list(o.xr()), list(twin.xr()), what)
    elif query == 'extreme':
        require(same_points(o.extreme_points(), twin.extreme_points()), 'extreme points differ {}', what)
    elif query == 'tangent' and tangents_clear(spec, y):
        a, b = o.tangent_points(p), twin.tangent_points(p)
        require(same_directions(p, a, b), 'tangent points {}, for a new obstacle {} {}', a, b, what)
    elif query == 'boundary' and star:
        if np.linalg.norm(p - twin.xr()) > 1e-3:
            a, b = o.boundary_mapping(p), twin.boundary_mapping(p)
            require(close(a, b, 1e-6), 'boundary mapping {}, for a new obstacle {} {}', a, b, what)
    elif query == 'normal' and star:
        r = twin.xr(Frame.OBSTACLE)
        if np.linalg.norm(y - r) > 1e-3 and (spec['t'] == 'E' or vertex_angle_margin(spec['v'], r, y) > 1e-6):
            a, b = o.normal(p), twin.normal(p)
            require(close(a, b, 1e-5), 'normal {}, for a new obstacle {} {}', list(a), list(b), what)
    elif query == 'distance' and star:
        if np.linalg.norm(p - twin.xr()) > 1e-3:
            a, b = o.distance_function(p), twin.distance_function(p)
            require(abs(a - b) < 1e-5 * (1 + abs(b)), 'distance function {}, for a new obstacle {} {}', a, b, what)
    elif query == 'direction' and star:
        if np.linalg.norm(p - twin.xr()) > 1e-3:
            a, b = o.reference_direction(p), twin.reference_direction(p)
            require(close(a, b, 1e-6), 'reference direction {}, for a new obstacle {} {}', list(a), list(b), what)
    elif query == 'line':
        if line_margin(spec, [y, z]) > 1e-7:
            a, b = o.line_intersection([p, q]), twin.line_intersection([p, q])
            require(len(a) == len(b) and same_points(a, b), 'line intersections {}, for a new obstacle {} {}', a, b, what)
    elif query == 'intersects':
        a, b = o.intersects(other), twin.intersects(other)
        if a != b and twin.polygon().distance(other.polygon()) < 1e-8 and twin.polygon().intersection(other.polygon()).area < 1e-8:
            return True
        require(a == b and other.intersects(o) == a, 'intersects {}, for a new obstacle {} {}', a, b, what)
    elif query == 'convex':
        require(o.is_convex() == twin.is_convex() and o.is_starshaped() == twin.is_starshaped(), 'convexity differs {}', what)
    elif query == 'hull':
        import starshaped_hull as sh
        K = np.array([p, p + [.1, 0], p + [0, .1]])
        a, b = sh.kernel_starshaped_hull(o, K), sh.kernel_starshaped_hull(twin, K)
        require(a.is_empty == b.is_empty and abs(a.area - b.area) < 1e-6, 'starshaped hull differs (area {}, {}) {}', a.area, b.area, what)
    else:
        return False
    return True


def check(case, rec):
    from obstacles import Frame, motion_model as mm
    spec = dict(case['o'])
    start = spec['pose']
    model = None if start is None else mm.Static(start[:2], start[2])
    kw = {'compute_polygon': True} if case['eager'] else {}
    o = gen.build(spec, motion_model=model, **kw)
    other = gen.build(case['other'])
    pose, version, asked = start, 0, {}
    share = None
    for op in case['ops']:
        kind = op[0]
        if kind == 'ask':
            t = gen.build(dict(spec, pose=pose))
            if spec.get('moved_xr'):
                t.set_xr(spec['moved_xr'])
            what = 'at pose %s' % (pose,)
            if compare(op[1], o, t, dict(spec, pose=pose), op[2], op[3], other, what):
                rec.hit(op[1] in asked and asked[op[1]] != version)
                asked.setdefault(op[1], version)
            continue
        if kind == 'model':
            # Replace the motion model (also for an obstacle without one)
            model = mm.Static(op[1][:2], op[1][2])
            o.set_motion_model(model)
            pose = list(op[1])
        elif kind == 'none':
            model, pose = None, None
            o.set_motion_model(None)
        elif model is None:
            o.move(0.1)
            continue
        elif kind == 'pos':
            model.set_pos(op[1][:2])
            pose = [op[1][0], op[1][1], pose[2]]
        elif kind == 'rot':
            model.set_rot(op[1][2])
            pose = [pose[0], pose[1], op[1][2]]
        elif kind == 'drive':
            # Constant linear and angular velocity
            model = mm.SinusVelocity(pose[:2], pose[2], cartesian_coords=False, x1_mag=op[2][0], x2_mag=op[2][1])
            o.set_motion_model(model)
            dt = 0.25
            for _ in range(op[3]):
                pose = [pose[0] + dt * op[2][0] * math.cos(pose[2]), pose[1] + dt * op[2][0] * math.sin(pose[2]), pose[2] + dt * op[2][1]]
                o.move(dt)
        elif kind == 'xr':
            if spec['t'] != 'P':
                # Keep it in the kernel
                spec['moved_xr'] = next(r for k in (1, .5, .25, .125, .01) for r in [[k * c for c in op[2]]] if k == .01 or in_kernel(spec, r))
                # Frames, and setting only if it is in the kernel: no difference
                if op[3] < 2:
                    o.set_xr(np.array(spec['moved_xr']), safe_set=op[3] == 1)
                else:
                    o.set_xr(o.transform(np.array(spec['moved_xr']), Frame.OBSTACLE, Frame.GLOBAL), Frame.GLOBAL, op[3] == 3)
        elif kind == 'creep':
            # A small motion
            size = 2. ** -op[4]
            pose = [pose[0] + op[2][0] * size, pose[1] + op[2][1] * size, pose[2] + op[3] * size]
            model.set_pos(pose[:2])
            model.set_rot(pose[2])
        version += 1
        require(close(o.pos(), [0, 0] if pose is None else pose[:2], 1e-9) and abs(o.rot() - (0 if pose is None else pose[2])) < 1e-9,
                'pose is {}, {}, expected {}', list(o.pos()), o.rot(), pose)


@st.composite
def cases(draw, spec):
    o, other = draw(spec), draw(gen.obstacle_spec())
    n = draw(st.integers(3, 12))
    b = gen.Raw(draw, 8 + 26 * n)
    ops = []
    few = [QUERIES[b.int(0, len(QUERIES) - 1)] for _ in range(3)]
    for _ in range(n):
        k = b.int(0, 13)
        pose = [b.coord(4), b.coord(4), b.angle()]
        if k < 7:
            ops.append(['ask', few[b.int(0, 2)], b.point(5), b.point(5)])
        elif k == 7:
            ops.append(['pos', pose])
        elif k == 8:
            ops.append(['rot', pose])
        elif k == 9:
            ops.append(['drive', pose, [b.coord(2), b.coord(2)], b.int(1, 3)])
        elif k == 10:
            ops.append(['model', pose] if b.int(0, 2) else ['none'])
        elif k == 11:
            ops.append(['creep', pose, b.point(1), b.sym(4), [8, 12, 16, 4][b.int(0, 3)]])
        else:
            ops.append(['xr', pose, b.point(2), b.int(0, 3)])
    return {'o': o, 'other': other, 'ops': ops, 'eager': b.int(0, 3) == 3}


@st.composite
def creeping(draw, spec):
    """The same query again and again, with small motions in between."""
    c = draw(cases(spec))
    b = gen.Raw(draw, 80)
    c['o'] = dict(c['o'], pose=c['o']['pose'] or [1., 2., 0.])
    q = QUERIES[b.int(0, len(QUERIES) - 1)]
    p, l = b.point(5), b.point(5)
    size = [8, 12, 16][b.int(0, 2)]
    c['ops'] = [['ask', q, p, l]]
    for _ in range(b.int(1, 5)):
        d = b.point(1)
        c['ops'] += [['creep', None, [[d[0], 0], [0, d[1]], d, [0, 0]][b.int(0, 3)], [0, 1, -1, 4][b.int(0, 3)], size], ['ask', q, p, l]]
    return c


TESTS = [
    Test('ellipse', cases(gen.ellipse_spec()), check, 3000),
    Test('starshaped', cases(gen.star_spec()), check, 3000),
    Test('polygon', cases(gen.polygon_spec()), check, 3000),
    Test('creeping', creeping(gen.obstacle_spec()), check, 2500),
]
