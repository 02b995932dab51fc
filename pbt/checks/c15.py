"""Motion models: the pose follows the specified motion for every sequence of time steps."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'the pose changes, and the velocity changes during the motion'


def vec(a):
    return [float(v) for v in np.asarray(a).ravel()]


def near(a, b, tol):
    return float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float)))) < tol


def obstacle(model):
    from obstacles import Ellipse
    return Ellipse([.5, .25], motion_model=model)


def static(case, rec):
    from obstacles import motion_model as mm
    p = case['pose']
    m = mm.Static(p[:2], p[2]) if case['args'] else mm.Static()
    if not case['args']:
        p = [0., 0., 0.]
    o = obstacle(m)
    for dt in case['dt']:
        o.move(dt)
        require(vec(o.pos()) == p[:2] and o.rot() == p[2], 'static obstacle moved from {} to {}, {}', p, vec(o.pos()), o.rot())
        require(vec(m.lin_vel()) == [0, 0] and m.rot_vel() == 0, 'static obstacle has a velocity')
    rec.hit()


def sinus(case, rec):
    """Explicit integration of the sinusoidal velocities."""
    from obstacles import motion_model as mm
    p, c = list(case['pose']), case['cartesian']
    (m1, T1), (m2, T2) = case['x1'], case['x2']
    m = mm.SinusVelocity(p[:2], p[2], cartesian_coords=c, x1_mag=m1, x1_period=T1, x2_mag=m2, x2_period=T2)
    o = obstacle(m)
    t, start = 0., p[:]
    for dt in case['dt']:
        v1 = m1 * (math.cos(2 * math.pi * t / T1) if T1 else 1)
        v2 = m2 * (math.cos(2 * math.pi * t / T2) if T2 else 1)
        v = [v1, v2, 0.] if c else [v1 * math.cos(p[2]), v1 * math.sin(p[2]), v2]
        for _ in range(case['ask']):
            require(near(m.lin_vel(), v[:2], 1e-8), 'linear velocity {} at time {}, expected {}', vec(m.lin_vel()), t, v[:2])
            require(near(m.rot_vel(), v[2], 1e-8), 'angular velocity {} at time {}, expected {}', m.rot_vel(), t, v[2])
        o.move(dt)
        p = [p[i] + v[i] * dt for i in range(3)]
        t += dt
        require(near(o.pos(), p[:2], 1e-8) and near(o.rot(), p[2], 1e-8), 'pose {}, {} at time {}, expected {}', vec(o.pos()), o.rot(), t, p)
    rec.label('cartesian', c)
    rec.hit(m1 != 0 and T1 != 0 and near(p, start, 1e9) and not near(p[:2], start[:2], 1e-6))


def interval(case, rec):
    """The position is at each given point at the given time, and interpolated between (steps divide the intervals)."""
    from obstacles import motion_model as mm
    times = [t for t, _ in case['tp']]
    m = mm.Interval(case['init'], [(t, p) for t, p in case['tp']])
    o = obstacle(m)
    pts, at = [case['init']] + [p for _, p in case['tp']], [0.] + [float(v) for v in np.cumsum(times)]
    t = 0.
    k = 0
    while t < at[-1]:
        # All of the steps end at a multiple of the unit, no step across a time point
        nxt = min(a for a in at if a > t)
        dt = min(case['dt'][k % len(case['dt'])], nxt - t)
        k += 1
        o.move(dt)
        t += dt
        want = [float(np.interp(t, at, [p[i] for p in pts])) for i in range(2)]
        require(near(o.pos(), want, 1e-8), 'position {} at time {}, expected {}', vec(o.pos()), t, want)
        require(o.rot() == 0, 'rotation {}', o.rot())
        if k > 400:
            break
    # Stays at the last point
    for dt in case['dt']:
        o.move(dt)
        require(near(o.pos(), pts[-1], 1e-6), 'position {} after the end, expected {}', vec(o.pos()), pts[-1])
    rec.hit(len(case['tp']) > 1 and pts[0] != pts[1])


def waypoints(case, rec):
    """Straight towards the waypoints, one after the other, with the given speed, until all are reached."""
    from obstacles import motion_model as mm
    vel, thresh = case['vel'], case['thresh']
    m = mm.Waypoints(case['init'], [list(w) for w in case['wp']], vel, thresh) if thresh != 0.2 else mm.Waypoints(case['init'], [list(w) for w in case['wp']], vel)
    o = obstacle(m)
    p, todo = np.array(case['init'], float), [np.array(w, float) for w in case['wp']]
    k, visited = 0, 0
    while k < 600:
        for _ in range(case['ask'] if k % 3 == 0 else 0):
            m.lin_vel()
            m.rot_vel()
        while todo and np.linalg.norm(todo[0] - p) < thresh + 1e-9:
            if np.linalg.norm(todo[0] - p) > thresh - 1e-9:
                raise Skip()
            d = np.linalg.norm(np.asarray(o.pos()) - todo[0])
            require(d < thresh + 1e-6, 'distance {} to waypoint {} when it is counted as reached', d, vec(todo[0]))
            todo.pop(0)
            visited += 1
        dt = case['dt'][k % len(case['dt'])]
        old = p
        if todo:
            d = todo[0] - p
            p = p + vel * dt * d / np.linalg.norm(d)
        o.move(dt)
        require(near(o.pos(), p, 1e-7), 'position {} after {} steps, expected {} (next waypoint {})', vec(o.pos()), k, vec(p), vec(todo[0]) if todo else None)
        require(o.rot() == 0, 'rotation {}', o.rot())
        k += 1
        if not todo and k % 5 == 0:
            break
    require(not todo or k == 600, 'waypoints left')
    rec.label('all reached', not todo)
    rec.hit(visited > 1)


def interval_end(case, rec):
    """Steps across the last time point: the position still ends up at the last point (when the steps are short)."""
    from obstacles import motion_model as mm
    tp, pts = case['tp'], [case['init']] + [p for _, p in case['tp']]
    m = mm.Interval(case['init'], [(t, p) for t, p in tp])
    o = obstacle(m)
    speed = max(math.hypot(pts[i + 1][0] - pts[i][0], pts[i + 1][1] - pts[i][1]) / tp[i][0] for i in range(len(tp)))
    end = sum(t for t, _ in tp)
    dt = min(case['f'] * .5 / (speed + 1e-9), end / 3)
    if end / dt > 2000:
        raise Skip()
    last = math.hypot(pts[-1][0] - pts[-2][0], pts[-1][1] - pts[-2][1]) / tp[-1][0]
    t = 0.
    while t < end:
        o.move(dt)
        t += dt
        # Each step is with the velocity at its start
        want = [float(np.interp(t, np.cumsum([0.] + [s for s, _ in tp]), [p[i] for p in pts])) for i in range(2)]
        require(near(o.pos(), want, 2 * len(tp) * speed * dt + 1e-9), 'position {} at time {}, expected about {}', vec(o.pos()), t, want)
    d = np.linalg.norm(o.pos() - np.array(pts[-1]))
    if last < 1e-3:
        raise Skip()
    # Approaches at least exponentially or with constant speed
    for _ in range(int(40 / (last * dt) + d / (last * dt)) + 1 if last * dt > 2e-2 else 0):
        o.move(dt)
        require(np.linalg.norm(o.pos() - np.array(pts[-1])) < d + 1e-6, 'moves away from the last point {} to {}', pts[-1], vec(o.pos()))
    if last * dt > 2e-2:
        require(near(o.pos(), pts[-1], 1e-3), 'position {} long after the end, expected {}', vec(o.pos()), pts[-1])
        rec.hit(len(tp) > 1 and d > 1e-6)


def velocity(case, rec):
    """Velocity of a boundary point of an obstacle."""
    from obstacles import motion_model as mm
    pose, x = case['o']['pose'], np.array(case['p'], float)
    (m1, m2), c = case['v'], case['cartesian']
    model, twin = [None if pose is None else mm.SinusVelocity(pose[:2], pose[2], cartesian_coords=c, x1_mag=m1, x2_mag=m2) for _ in range(2)]
    o = gen.build(case['o'], motion_model=model)
    if np.linalg.norm(x - o.xr()) < 1e-2:
        raise Skip()
    v = o.vel_intertial_frame(x)
    require(np.shape(v) == (2,), 'velocity of shape {}', np.shape(v))
    if pose is None:
        require(vec(v) == [0, 0], 'velocity {} without motion model', vec(v))
        return
    for dt in case['dt']:
        v = np.array(o.vel_intertial_frame(x)) - twin.lin_vel()
        om = 0 if c else m2
        if om == 0:
            require(near(v, [0, 0], 1e-9), 'velocity differs from the linear one by {} without rotation', vec(v))
        elif case['o']['xr'] in (None, [0., 0.]) and case['o']['t'] == 'E':
            d = x - o.pos()
            if np.linalg.norm(d) > 1e-2:
                require(abs(v.dot(d)) < 1e-9 * (1 + np.linalg.norm(d)), 'rotational velocity {} is not perpendicular to {}', vec(v), vec(d))
                require((d[0] * v[1] - d[1] * v[0]) * om > 0, 'rotational velocity {} at {} with angular velocity {}', vec(v), vec(d), om)
                rec.hit()
        o.move(dt)
        twin.move(None, dt)
    rec.hit(c and (m1 != 0 or m2 != 0))


@st.composite
def interval_end_case(draw):
    c = draw(interval_case())
    b = gen.Raw(draw, 2)
    return {'init': c['init'], 'tp': c['tp'], 'f': b.int(3, 16) / 16}


@st.composite
def velocity_case(draw):
    o = draw(st.one_of(gen.ellipse_spec(), gen.star_spec()))
    b = gen.Raw(draw, 24)
    return {'o': o, 'p': b.point(5), 'v': [b.coord(3), b.coord(3)], 'cartesian': b.int(0, 2) == 0, 'dt': [b.int(0, 16) / 8 for _ in range(3)]}


@st.composite
def static_case(draw):
    b = gen.Raw(draw, 20)
    return {'pose': [b.coord(4), b.coord(4), b.angle()], 'args': b.int(0, 3) > 0, 'dt': [b.int(0, 20) / 8 for _ in range(4)]}


@st.composite
def sinus_case(draw):
    n = draw(st.integers(1, 20))
    b = gen.Raw(draw, 24 + 2 * n)
    return {'pose': [b.coord(4), b.coord(4), b.angle()], 'cartesian': b.int(0, 1) == 0, 'x1': [b.coord(3), b.int(0, 24) / 4],
            'x2': [b.coord(3), b.int(0, 24) / 4], 'ask': b.int(0, 2), 'dt': [b.int(0, 40) / 32 for _ in range(n)]}


@st.composite
def interval_case(draw):
    n = draw(st.integers(1, 5))
    b = gen.Raw(draw, 20 + 8 * n)
    init = b.point(4)
    return {'init': init, 'tp': [[b.int(1, 40) / 8, b.point(4)] for _ in range(n)], 'dt': [[.125, .25, .5, 1., 2.][b.int(0, 4)] for _ in range(3)]}


@st.composite
def waypoint_case(draw):
    n = draw(st.integers(0, 5))
    b = gen.Raw(draw, 24 + 8 * n)
    init = b.point(3)
    thresh = [.2, .2, .1, .5, .05][b.int(0, 4)]
    vel = b.int(1, 24) / 8
    # Steps are not longer than the threshold
    f = [b.int(8, 32) / 32 for _ in range(3)]
    return {'init': init, 'wp': [b.point(3) for _ in range(n)], 'vel': vel, 'thresh': thresh, 'ask': b.int(0, 2), 'dt': [v * thresh / vel for v in f]}


TESTS = [
    Test('static', static_case(), static, 600),
    Test('sinus', sinus_case(), sinus, 6000),
    Test('interval', interval_case(), interval, 6000),
    Test('interval_end', interval_end_case(), interval_end, 1500),
    Test('velocity', velocity_case(), velocity, 3000),
    Test('waypoints', waypoint_case(), waypoints, 3000),
]
