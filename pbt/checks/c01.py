"""A completed clustering is a partition of the obstacles into connected, pairwise disjoint regions covering them."""
from pbt import scene
from pbt.core import Test, require

RULE = 'completed clustering in which at least two obstacles were merged, or at least one obstacle was extended'
ASSUMPTIONS = ['disjointness is judged on the polygons by which the code represents the clusters (ellipses are n-gons)']


def check(case, rec):
    obs, clusters, flag, n = scene.run(case)
    rec.label('flag%d' % flag)
    require(flag in (scene.INCOMPLETE, scene.COMPLETE), 'flag {}', flag)
    scene.check_partition(clusters, obs)
    if flag != scene.COMPLETE:
        return
    merged = len(clusters) < len(obs)
    rec.label('merged', merged)
    rec.label('iterations%d' % min(n, 4))
    rec.hit(merged or any(cl.cluster_obstacle is not cl.obstacles[0] for cl in clusters))
    scene.check_contains(clusters, obs, case)
    scene.check_disjoint(clusters)


TESTS = [
    Test('mixed', scene.with_options(scene.scenes(nmin=0)), check, 1500),
    Test('starshaped', scene.with_options(scene.scenes('ECSB', nmax=9)), check, 900),
    Test('bars', scene.with_options(scene.scenes('BBBEC', nmin=6, nmax=12, sizes=(4, 6))), check, 900),
    Test('nonconvex', scene.with_options(scene.scenes('SPQ', nmax=4)), check, 900),
    Test('crowded', scene.with_options(scene.scenes('ECV', nmin=5, nmax=14, sizes=(4, 6, 8))), check, 600),
]
