"""make_convex: clusters become their convex hull where that is possible, and stay as they are elsewhere."""
import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import scene
from pbt.core import Test, require

RULE = 'a cluster of the scene is not convex (so that it must be replaced or must have a reason not to be)'


def run(case, **kw):
    obs = scene.build(case)
    np.random.seed(1)  # the kernel selection may be randomized
    return obs, scene.cluster(obs, case, **kw)


def check(case, rec):
    obs0, (base, _, flag0, n0) = run(case)
    obs, (clusters, _, flag, n) = run(case, make_convex=True)
    require(flag == flag0 and n == n0, 'flag {} and {} iterations, without make_convex {} and {}', flag, n, flag0, n0)
    require(scene.groups(clusters) == scene.groups(base), 'clusters {}, without make_convex {}', scene.groups(clusters), scene.groups(base))
    if flag != scene.COMPLETE:
        scene.check_singletons(clusters, obs)
        rec.label('incomplete')
        return
    scene.check_partition(clusters, obs)
    scene.check_disjoint(clusters)
    before = {tuple(sorted(scene.ids(cl.obstacles))): cl for cl in base}
    pols = [scene.poly_of(cl) for cl in clusters]
    for i, cl in enumerate(clusters):
        what = 'cluster %s' % scene.ids(cl.obstacles)
        p, q = scene.poly_of(before[tuple(sorted(scene.ids(cl.obstacles)))]), pols[i]
        require(scene.same_shape(cl.polygon(), q), '{}: polygon of the cluster is not that of its obstacle', what)
        hull = p.convex_hull
        unchanged, convex = scene.same_shape(p, q, 1e-5), scene.same_shape(hull, q, 1e-5)
        require(unchanged or convex, '{}: neither unchanged nor the convex hull (area {}, before {}, hull {})', what, q.area, p.area, hull.area)
        ref = before[tuple(sorted(scene.ids(cl.obstacles)))]
        require(np.allclose(cl.kernel_points, ref.kernel_points, atol=1e-9), '{}: other kernel points with make_convex', what)
        require(np.allclose(cl.cluster_obstacle.xr(), ref.cluster_obstacle.xr(), atol=1e-7), '{}: other reference point with make_convex', what)
        if hull.area - p.area > 1e-4:
            rec.hit()
            if convex:
                rec.label('made convex')
                require(cl.cluster_obstacle.is_convex(), '{}: convex hull is not reported as convex', what)
                for name in ('x', 'xg'):
                    require(not q.intersects(sg.Point(case[name])), '{}: convex hull contains {}', what, name)
                    require(cl.cluster_obstacle.exterior_point(scene.pt(case[name])), '{}: {} is not exterior of the convex hull', what, name)
            else:
                padded = hull.buffer(1e-6)
                blocked = any(padded.intersects(sg.Point(case[name])) for name in ('x', 'xg'))
                hit = any(padded.intersects(pols[j]) for j in range(len(pols)) if j != i)
                rec.label('not convex: robot or goal', blocked)
                rec.label('not convex: other cluster', hit)
                require(blocked or hit, '{}: not made convex, although its hull is free', what)


TESTS = [
    Test('scenes', scene.scenes('ECSPV', nmin=2, nmax=6, sizes=(3, 4, 6)), check, 900),
    Test('dense', scene.scenes('BBEC', nmin=3, nmax=7, sizes=(4, 6)), check, 700),
    Test('nonconvex', scene.scenes('SPQ', nmax=4, sizes=(3, 4, 6)), check, 900),
]
