"""Clustering with the previous clusters given: stable for unchanged scenes, ids and kernel points follow the clusters."""
import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import assume, strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'a cluster of several obstacles (or an extended one) exists in both steps; or the previous kernel center is re-used or must be replaced'


def is_combination(cl):
    """The cluster is represented by an obstacle of its own (with an own id)."""
    return not any(cl.cluster_obstacle is o for o in cl.obstacles)


def center(cl):
    return np.mean(np.asarray(cl.kernel_points, float), axis=0)


def check_ids(clusters, obs):
    own = [cl.cluster_obstacle.id() for cl in clusters if len(cl.obstacles) > 1]
    require(all(i is not None for i in own), 'cluster obstacles have no id: {}', own)
    every = own + [cl.cluster_obstacle.id() for cl in clusters if len(cl.obstacles) == 1]
    require(len(set(every)) == len(every), 'ids of the cluster obstacles are not unique: {}', every)
    require(not set(own) & set(scene.ids(obs)), 'cluster obstacle has the id of an obstacle: {}', own)


def check_followed(clusters, prev):
    """Clusters with the members of a previous cluster keep the id."""
    before = {tuple(sorted(scene.ids(cl.obstacles))): cl for cl in prev}
    n = 0
    for cl in clusters:
        p = before.get(tuple(sorted(scene.ids(cl.obstacles))))
        if p is not None and is_combination(cl) and is_combination(p):
            n += 1
            require(cl.cluster_obstacle.id() == p.cluster_obstacle.id(), 'cluster {} changed id from {} to {}', scene.ids(cl.obstacles),
                    p.cluster_obstacle.id(), cl.cluster_obstacle.id())
    return n


def check_unchanged(case, rec):
    obs = scene.build(case)
    kw = {'make_convex': True} if case['convex'] else {}
    clusters, _, flag, n = scene.cluster(obs, case, **kw)
    if flag != scene.COMPLETE:
        rec.label('incomplete')
        return
    rec.hit(any(is_combination(cl) for cl in clusters))
    again = clusters
    for i in range(case['repeat']):
        # Also with the obstacles in another order
        k = case['rot'] % len(obs)
        order = obs[k:] + obs[:k]
        prev = again
        again, _, flag, n = scene.cluster(order, case, previous_clusters=prev, **kw)
        require(flag == scene.COMPLETE, 'flag {} for the unchanged scene', flag)
        require(scene.groups(again) == scene.groups(clusters), 'unchanged scene is clustered as {} after {}', scene.groups(again),
                scene.groups(clusters))
        check_followed(again, prev)
        check_ids(again, obs)
        old = {tuple(sorted(scene.ids(cl.obstacles))): cl for cl in prev}
        for cl in again:
            p = old[tuple(sorted(scene.ids(cl.obstacles)))]
            d = np.max(np.abs(np.asarray(cl.kernel_points) - np.asarray(p.kernel_points)))
            require(d < 1e-6, 'kernel points of cluster {} move by {:.2e} in an unchanged scene', scene.ids(cl.obstacles), d)
            require(scene.same_shape(scene.poly_of(cl), scene.poly_of(p), 1e-5), 'cluster {} changes in an unchanged scene', scene.ids(cl.obstacles))


@st.composite
def unchanged(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, **kw))
    b = gen.Raw(draw, 3)
    s['convex'] = b.int(0, 2) == 2
    s['repeat'], s['rot'] = b.int(1, 3), b.int(0, 4)
    return s


@st.composite
def moving(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, **kw))
    n = len(s['obs'])
    k = draw(st.integers(1, 4))
    b = gen.Raw(draw, k * (n * 6 + 4) + 1)
    s['convex'] = b.int(0, 2) == 2
    s['steps'] = [{'d': [[b.coord(.25, 32), b.coord(.25, 32), b.sym(20) / 100] for _ in range(n)],
                   'x': [b.coord(.25, 32), b.coord(.25, 32)]} for _ in range(k)]
    return s


def check_moving(case, rec):
    from obstacles import motion_model as mm
    obs = scene.build(case)
    models = []
    for o, s in zip(obs, case['obs']):
        models.append(mm.Static(s['pose'][:2], s['pose'][2]))
        o.set_motion_model(models[-1])
    prev = None
    followed = 0
    for step in [None] + case['steps']:
        if step is not None:
            for m, s, d in zip(models, case['obs'], step['d']):
                s['pose'] = [s['pose'][0] + d[0], s['pose'][1] + d[1], s['pose'][2] + d[2]]
                m.set_pos(s['pose'][:2])
                m.set_rot(s['pose'][2])
            case['x'] = [case['x'][0] + step['x'][0], case['x'][1] + step['x'][1]]
        if not all(scene.is_free(s, p, 0.03) for s in case['obs'] for p in (case['x'], case['xg'])) or case['x'] == case['xg']:
            prev = None
            rec.label('robot hit')
            continue
        clusters, _, flag, n = scene.cluster(obs, case, previous_clusters=prev, make_convex=case['convex'])
        if flag != scene.COMPLETE:
            require(flag == scene.INCOMPLETE, 'flag {}', flag)
            scene.check_singletons(clusters, obs)
            rec.label('incomplete')
            prev = None
            continue
        scene.check_sound(clusters, obs, case)
        scene.check_starshaped(clusters, obs, case)
        check_ids(clusters, obs)
        if prev is not None:
            followed += check_followed(clusters, prev)
        prev = clusters
    rec.label('followed', followed > 0)
    rec.hit(followed > 0)


@st.composite
def single(draw):
    """One convex obstacle which jumps, robot and goal on different sides."""
    kind = draw(st.sampled_from('ECV'))
    o = draw(scene.member(kind, 1))
    o['pose'] = [0., 0., o['pose'][2]]
    b = gen.Raw(draw, 14)
    a = b.angle()
    r1, r2 = 2 + b.int(0, 16) / 8, 2 + b.int(0, 16) / 8
    x = [r1 * np.cos(a), r1 * np.sin(a)]
    a2 = a + np.pi + b.sym(60) / 100
    xg = [r2 * np.cos(a2), r2 * np.sin(a2)]
    to = [b.coord(1, 32), b.coord(1, 32), o['pose'][2] + b.sym(60) / 100]
    return {'obs': [o], 'x': [float(v) for v in x], 'xg': [float(v) for v in xg], 'eps': [0.05, 0.2][b.int(0, 1)], 'to': to}


def check_single(case, rec):
    from obstacles import motion_model as mm
    obs = scene.build(case)
    spec = case['obs'][0]
    model = mm.Static(spec['pose'][:2], spec['pose'][2])
    obs[0].set_motion_model(model)
    for pose in (spec['pose'], case['to']):
        spec['pose'] = pose
        if not all(scene.is_free(spec, p, 0.03) for p in (case['x'], case['xg'])):
            raise Skip()
    spec['pose'] = [0., 0., spec['pose'][2]]
    model.set_rot(spec['pose'][2])
    prev, _, flag, _ = scene.cluster(obs, case)
    require(flag == scene.COMPLETE, 'flag {} for a single convex obstacle', flag)
    k0 = center(prev[0])
    spec['pose'] = case['to']
    model.set_pos(case['to'][:2])
    model.set_rot(case['to'][2])
    now, _, flag, _ = scene.cluster(obs, case, previous_clusters=prev)
    require(flag == scene.COMPLETE, 'flag {} for a single convex obstacle', flag)
    k1 = center(now[0])
    # The obstacle (as the code represents it) is the selection set of the kernel center
    region = gen.region(spec, 256)
    gap = 0.06 * max(spec['a']) + 2e-3 if spec['t'] == 'E' else 1e-6
    x, xg = case['x'], case['xg']

    def side(k):
        return float((xg[0] - x[0]) * (k[1] - x[1]) - (xg[1] - x[1]) * (k[0] - x[0]))
    rec.hit()
    if region.contains(sg.Point(k0)) and region.exterior.distance(sg.Point(k0)) > gap and abs(side(k0)) > 1e-6:
        rec.label('kept')
        require(np.max(np.abs(k0 - k1)) < 1e-6, 'kernel center {} moved to {} although it is still in the obstacle', list(k0), list(k1))
        return
    line = sg.LineString([x, xg])
    inner = region.buffer(-gap)
    parts = [p for p in shapely.ops.split(inner, line).geoms] if inner.geom_type == 'Polygon' and not inner.is_empty else []
    if region.distance(sg.Point(k0)) > gap and len(parts) == 2 and min(p.area for p in parts) > 1e-3 and abs(side(k0)) > 1e-3:
        rec.label('replaced')
        require(side(k0) * side(k1) > 0, 'kernel center moved from {} to {}, to the other side of the line from robot to goal', list(k0), list(k1))


TESTS = [
    Test('unchanged', unchanged('ECSPVB', nmin=2, nmax=7), check_unchanged, 700),
    Test('unchanged_nonconvex', unchanged('SPQ', nmax=4), check_unchanged, 500),
    Test('moving', moving('ECSPVB', nmin=2, nmax=6), check_moving, 600),
    Test('moving_nonconvex', moving('SPQ', nmax=3), check_moving, 400),
    Test('single', single(), check_single, 1500),
]
