"""Obstacles are only merged, and the clustering only given up, for a reason."""
import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'disjoint obstacles of which one is not convex; or a clustering with merged obstacles; or an incomplete clustering'


@st.composite
def disjoint(draw, kinds, nmax=7, gap=0.01):
    """Scene of obstacles which do not intersect (those intersecting previous ones are dropped)."""
    s = draw(scene.scenes(kinds, nmin=2, nmax=nmax, sizes=(4, 6, 8, 10)))
    keep, regs = [], []
    for o in s['obs']:
        r = gen.region(o, 64, pad=2e-3)
        if all(r.distance(q) > gap for q in regs):
            keep.append(o)
            regs.append(r)
    s['obs'] = keep
    return s


def check_untouched(case, rec):
    """Disjoint starshaped obstacles with free robot and goal: nothing to cluster."""
    obs = scene.build(case)
    before = [gen.region(s, 256) for s in case['obs']]
    clusters, _, flag, n = scene.cluster(obs, case)
    rec.hit(len(obs) > 1)
    rec.label('nonconvex', not all(o.is_convex() for o in obs))
    require(flag == scene.COMPLETE, 'flag {} for disjoint starshaped obstacles', flag)
    require(scene.groups(clusters) == [[i] for i in sorted(scene.ids(obs))], 'disjoint starshaped obstacles are clustered: {}', scene.groups(clusters))
    for cl in clusters:
        i = scene.ids(obs).index(cl.obstacles[0].id())
        p = scene.poly_of(cl)
        extra = p.difference(before[i].buffer(1e-6)).area
        tol = 1e-6 + (3e-3 * before[i].length if case['obs'][i]['t'] == 'E' else 0)
        require(extra < tol, 'starshaped obstacle {} extended although it is disjoint from all others (area {:.2e})', obs[i].id(), extra)
        if case['obs'][i]['t'] in 'ES':
            # It has the exact shape (and the id, if nothing is to be extended in any case) of the obstacle
            c, k = cl.cluster_obstacle, np.asarray(cl.cluster_obstacle.xr())
            require(not obs[i].is_convex() or c.id() == obs[i].id(), 'single obstacle {} gets the id {}', obs[i].id(), c.id())
            for a in (.3, 1.7, 3.3, 5.1):
                b = c.boundary_mapping(k + [np.cos(a), np.sin(a)])
                require(b is not None, 'no boundary point of the single obstacle {}', obs[i].id())
                d = boundary_distance(case['obs'][i], ref.inv(case['obs'][i]['pose'], b))
                require(d < 1e-6, 'boundary point {} of the single obstacle {} is not on its boundary (distance {:.2e})', list(b), obs[i].id(), d)


def boundary_distance(spec, p):
    if spec['t'] == 'E':
        q = np.asarray(p) / np.asarray(spec['a'])
        return abs(np.hypot(*q) - 1) * max(spec['a'])
    return sg.Polygon(spec['v']).exterior.distance(sg.Point(p))


def reference_kernel(case, obs, cluster, shrink):
    reg = dict(zip(scene.ids(obs), scene.regions(case)))
    return scene.admissible([reg[o.id()] for o in cluster.obstacles], [case['x'], case['xg']], r=60., shrink=shrink)


def check_reason(case, rec):
    """Merges follow from intersections of the clusters of the previous iteration, giving up from an empty kernel."""
    obs = scene.build(case)
    clusters, _, flag, n, hist = scene.cluster(obs, case, return_history=True)
    rec.label('flag%d' % flag)
    rec.label('iterations%d' % n)
    rec.hit(flag == scene.INCOMPLETE or len(clusters) < len(obs))
    if flag == scene.INCOMPLETE:
        if n == 0:
            cands = [type('C', (), {'obstacles': [o]}) for o in obs]
        else:
            cands = hist[-1]
            scene.check_partition(cands, obs)
        areas = [reference_kernel(case, obs, c, 2e-3).area for c in cands]
        require(min(areas) < 1e-4, 'incomplete, but all clusters {} have admissible kernels (areas {})', scene.groups(cands), areas)
        return
    steps = list(hist) + [clusters]
    require(scene.groups(steps[0]) == [[i] for i in sorted(scene.ids(obs))], 'history starts with {}', scene.groups(steps[0]))
    for a, b in zip(steps[:-1], steps[1:]):
        scene.check_partition(a, obs)
        want, slack = components([scene.poly_of(c) for c in a], [scene.ids(c.obstacles) for c in a])
        if slack:
            rec.label('touching')
            continue
        require(scene.groups(b) == want, 'clusters {} where the intersections of the previous iteration {} give {}', scene.groups(b),
                scene.groups(a), want)


def components(polygons, labels):
    """Connected components of the intersection graph, and whether some intersection is undecided numerically."""
    n = len(polygons)
    comp, slack = list(range(n)), False
    for i in range(n):
        for j in range(i):
            d = polygons[i].distance(polygons[j])
            hit = d == 0
            if 0 < d < 1e-7 or (hit and not polygons[i].buffer(-1e-7).intersects(polygons[j].buffer(-1e-7))):
                slack = True
            if hit:
                a, b = comp[i], comp[j]
                comp = [b if c == a else c for c in comp]
    return sorted(sorted(l for k in range(n) if comp[k] == c for l in labels[k]) for c in set(comp)), slack


TESTS = [
    Test('untouched', disjoint('ECSV'), check_untouched, 1500),
    Test('untouched_bars', disjoint('BBSE', nmax=10), check_untouched, 600),
    Test('reason', scene.scenes('ECSPVB', nmin=0, nmax=9, sizes=(4, 6, 8)), check_reason, 900),
    Test('reason_bars', scene.scenes('BBBEC', nmin=6, nmax=12, sizes=(4, 6)), check_reason, 1500),
    Test('reason_nonconvex', scene.scenes('SPQQ', nmin=1, nmax=4), check_reason, 1500),
]
