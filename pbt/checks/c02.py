"""Each completed cluster is starshaped with respect to its reference point and all its kernel points."""
import numpy as np
import shapely.geometry as sg

from pbt import scene
from pbt.core import Test, require

RULE = 'completed clustering with at least one cluster which is not one of the given obstacles'
ASSUMPTIONS = ['starshaped up to 1e-6 (polygons) and 2e-3 (clusters with ellipses, which the code represents by n-gons)']


def check(case, rec):
    obs, clusters, flag, n = scene.run(case)
    rec.label('flag%d' % flag)
    if flag != scene.COMPLETE:
        return
    rec.label('extended', any(len(cl.obstacles) == 1 and cl.cluster_obstacle is not cl.obstacles[0] for cl in clusters))
    rec.label('merged', len(clusters) < len(obs))
    rec.hit(any(cl.cluster_obstacle is not cl.obstacles[0] for cl in clusters))
    for cl in clusters:
        k = np.asarray(cl.kernel_points, float)
        require(k.shape == (3, 2) and sg.Polygon(k).area > 0, 'degenerate kernel points {}', k.tolist())
        side = [np.linalg.norm(k[i] - k[i - 1]) for i in range(3)]
        require(max(side) - min(side) < 1e-9 * max(1, np.max(np.abs(k))), 'kernel points not equilateral: {}', side)
        require(max(side) <= case['eps'] + 1e-9, 'kernel width {} larger than epsilon {}', max(side), case['eps'])
        require(np.linalg.norm(cl.cluster_obstacle.xr() - k.mean(axis=0)) < 1e-6, 'reference point {} not the center of the kernel points {}',
                list(cl.cluster_obstacle.xr()), k.tolist())
    scene.check_starshaped(clusters, obs, case)


TESTS = [
    Test('mixed', scene.with_options(scene.scenes()), check, 1200),
    Test('starshaped', scene.with_options(scene.scenes('ECSB', nmax=9)), check, 900),
    Test('nonconvex', scene.with_options(scene.scenes('SPQ', nmax=4)), check, 1200),
    Test('bars', scene.with_options(scene.scenes('BBBEC', nmin=6, nmax=12, sizes=(4, 6))), check, 600),
]
