"""Choice of the kernel points: admissible for robot and goal, outside of the workspace for obstacles at its border,
and admissible for the extreme points of the other obstacles if that is asked for."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'an obstacle region reaches out of the workspace with an admissible part; or a cluster of several obstacles with a common admissible kernel'
R = 60.


def check_ray(k, p, region, what):
    """The ray from p away from k misses the region."""
    d = np.array(p, float) - np.asarray(k, float)
    d /= np.linalg.norm(d)
    ray = sg.LineString([p, np.array(p) + 2 * R * d])
    require(not ray.intersects(region.buffer(-1e-4)), '{}: kernel point {} not admissible for {}', what, list(map(float, k)), list(map(float, p)))


def check_robot_goal(cl, obs, case, regs, what):
    for o in cl.obstacles:
        for n in ('x', 'xg'):
            for k in cl.kernel_points:
                check_ray(k, case[n], regs[o.id()], what)


def check_admissible(case, rec):
    """All clusters of all iterations."""
    obs = scene.build(case)
    kw = dict(case.get('kw', {}))
    clusters, _, flag, n, history = scene.cluster(obs, case, return_history=True, **kw)
    regs = dict(zip(scene.ids(obs), scene.regions(case)))
    rec.label('flag%d' % flag)
    if flag == scene.COMPLETE:
        require(len(history) == n, '{} iterations, history of length {}', n, len(history))
        require(scene.groups(history[-1]) == scene.groups(clusters), 'last iteration of the history is not the result')
    for it in history:
        scene.check_partition(it, obs)
        for cl in it:
            if cl.kernel_points is None:
                continue
            rec.hit(len(cl.obstacles) > 1)
            check_robot_goal(cl, obs, case, regs, 'cluster %s' % scene.ids(cl.obstacles))


@st.composite
def ws_scene(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, sizes=(4, 6), **kw))
    b = gen.Raw(draw, 12)
    kind = b.int(0, 2)
    pose = [b.int(0, 6 * 16) / 16, b.int(0, 6 * 16) / 16, b.angle()]
    if kind == 0:
        s['ws'] = {'t': 'E', 'a': [b.int(8, 40) / 8, b.int(8, 40) / 8], 'pose': pose, 'xr': None}
    else:
        l, w = b.int(8, 40) / 8, b.int(8, 40) / 8
        v = [[-l, -w], [l, -w], [l, w], [-l, w]]
        if kind == 2:
            v = [[-l, -w], [0, -w / 2], [l, -w], [l, w], [-l, w]]
        s['ws'] = {'t': 'S', 'v': v, 'pose': pose, 'xr': [0., 0.]}
    return s


def check_workspace(case, rec):
    ws = case['ws']
    W = gen.region(ws, 256, pad=2e-3) if ws['t'] == 'E' else gen.region(ws)
    inner = gen.region(dict(ws, a=[0.98 * v for v in ws['a']]), 256) if ws['t'] == 'E' else W
    obs = scene.build(case)
    workspace = gen.build(ws, id='temporary')
    clusters, _, flag, n = scene.cluster(obs, case, workspace=workspace)
    if flag != scene.COMPLETE:
        return
    scene.check_sound(clusters, obs, case)
    scene.check_starshaped(clusters, obs, case)
    regs = dict(zip(scene.ids(obs), scene.regions(case)))
    for cl in clusters:
        what = 'cluster %s' % scene.ids(cl.obstacles)
        members = [regs[o.id()] for o in cl.obstacles]
        region = ref.union(members)
        outside = region.difference(W)
        if outside.area > 0.01:
            ak = scene.admissible(members, [case['x'], case['xg']], R, shrink=1e-6)
            if ak.intersection(outside).area > 0.01:
                rec.hit()
                rec.label('outside')
                rec.label('outside, several', len(members) > 1)
                for k in cl.kernel_points:
                    d = inner.buffer(-1e-3).distance(sg.Point(k))
                    require(d > 0, '{} reaches out of the workspace with an admissible part, but the kernel point {} is in the workspace', what, list(map(float, k)))


def check_exclude(case, rec):
    obs = scene.build(case)
    clusters, _, flag, n = scene.cluster(obs, case, exclude_obstacles=True)
    rec.label('flag%d' % flag)
    if flag != scene.COMPLETE:
        return
    regs = dict(zip(scene.ids(obs), scene.regions(case)))
    spec = dict(zip(scene.ids(obs), case['obs']))
    for cl in clusters:
        if len(cl.obstacles) < 2:
            continue
        what = 'cluster %s' % scene.ids(cl.obstacles)
        members = [regs[o.id()] for o in cl.obstacles]
        constraints = []
        for o in cl.obstacles:
            for other in obs:
                if other is o:
                    continue
                pts = [list(map(float, p)) for p in other.extreme_points()]
                locs = [gen.location(spec[o.id()], p) for p in pts]
                if any(d < 1e-4 for _, d in locs):
                    rec.label('unclear')
                    return
                if any(l < 0 for l, _ in locs):
                    continue
                arcs = [ref.angular_range(np.asarray(regs[o.id()].exterior.coords)[:-1], p) for p in pts]
                if any(abs(hi - lo - 2 * math.pi) < 1e-3 for lo, hi, _ in arcs):
                    rec.label('unclear')
                    return
                if any(hi - lo >= 2 * math.pi for lo, hi, _ in arcs):
                    continue
                constraints.append((regs[o.id()], pts))
        if not constraints:
            continue
        ak = scene.admissible(members, [case['x'], case['xg']], R, shrink=1e-4)
        for g, pts in constraints:
            ak = ak.intersection(scene.admissible([g], pts, R, shrink=1e-4))
            if ak.area < 1e-3:
                break
        if ak.area < 1e-3:
            rec.label('not possible')
            continue
        rec.hit()
        rec.label('excluded')
        for g, pts in constraints:
            for p in pts:
                for k in cl.kernel_points:
                    check_ray(k, p, g, what)


@st.composite
def with_options(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, **kw))
    s['kw'] = draw(st.sampled_from([{}, {'make_convex': True}, {'exclude_obstacles': True}]))
    return s


TESTS = [
    Test('admissible', with_options('ECSPVB', nmin=2, nmax=7), check_admissible, 900),
    Test('workspace', ws_scene('ECSPV', nmax=5), check_workspace, 900),
    Test('workspace_convex', ws_scene('ECVB', nmax=6), check_workspace, 600),
    Test('exclude', scene.scenes('EBCV', nmin=2, nmax=4, sizes=(2, 3)), check_exclude, 700),
    Test('exclude_nonconvex', scene.scenes('PBSQ', nmin=2, nmax=3, sizes=(2, 3)), check_exclude, 500),
]
