"""Clustering by intersection: connected components of the intersection graph."""
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, scene
from pbt.core import Test, require

RULE = 'a component of the intersection graph is not a clique (some members only intersect indirectly)'


def components(n, edges):
    part = list(range(n))

    def find(i):
        while part[i] != i:
            i = part[i]
        return i
    for i, j in edges:
        part[find(i)] = find(j)
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return sorted(out.values())


def check(case, rec):
    import starshaped_hull as sh
    from starshaped_hull import ObstacleCluster
    obs = scene.build(case)
    n = len(obs)
    regs = [gen.region(s, 256) for s in case['obs']]
    ell = [s['t'] == 'E' for s in case['obs']]
    edges, sure = [], True
    for i in range(n):
        for j in range(n):
            if i == j:
                require(obs[i].intersects(obs[i]), 'obstacle does not intersect itself')
                continue
            got = obs[i].intersects(obs[j])
            tol = sum(0.055 * max(s['a']) + 2e-3 for s in (case['obs'][i], case['obs'][j]) if s['t'] == 'E') + 1e-7
            if got:
                require(regs[i].distance(regs[j]) < 2e-3 + 1e-7, 'obstacles {} and {} intersect, distance {}', i, j, regs[i].distance(regs[j]))
                require(obs[j].intersects(obs[i]), 'intersects is not symmetric for {} and {}', i, j)
                edges.append((i, j))
            else:
                require(not regs[i].buffer(-tol).intersects(regs[j]), 'obstacles {} and {} do not intersect, although they overlap', i, j)
    clusters = [ObstacleCluster([o]) for o in obs]
    out, exist = sh.get_intersection_clusters(clusters)
    require(bool(exist) == bool(edges), 'intersection reported: {}, there are {} pairs', exist, len(edges) // 2)
    got = sorted(sorted(obs.index(o) for o in cl.obstacles) for cl in out)
    want = components(n, edges)
    require(got == want, 'clusters {}, but the components of the intersections {} are {}', got, sorted(set(map(tuple, map(sorted, edges)))), want)
    for c in want:
        if len([e for e in edges if e[0] in c]) < len(c) * (len(c) - 1):
            rec.hit()
            rec.label('indirect %d' % min(len(c), 6))
    rec.label('several clusters', sum(len(c) > 1 for c in want) > 1)


@st.composite
def many(draw, kinds, nmin, nmax, sizes):
    b = gen.Raw(draw, 2 + nmax)
    n = b.int(nmin, nmax)
    W = sizes[b.int(0, len(sizes) - 1)]
    return {'obs': [draw(scene.member(kinds[b.int(0, len(kinds) - 1)], W)) for _ in range(n)]}


@st.composite
def nested(draw):
    """Large obstacles of any shape with small ones in and around them."""
    b = gen.Raw(draw, 40)
    obs = []
    for _ in range(b.int(1, 2)):
        v = draw(gen.any_vertices())
        obs.append({'t': 'P', 'v': [[4 * x, 4 * y] for x, y in v], 'pose': [b.coord(2), b.coord(2), b.angle()]})
    for _ in range(b.int(1, 5)):
        s = draw(st.one_of(gen.polygon_spec(st.none(), gen.any_vertices()), gen.star_spec(st.none()), gen.ellipse_spec(st.none(), 3, 8)))
        if s['t'] != 'E':
            s = dict(s, v=[[x / 4, y / 4] for x, y in s['v']])
        obs.append(dict(s, pose=[b.coord(6), b.coord(6), b.angle()]))
    if b.int(0, 1):
        obs = obs[::-1]
    return {'obs': obs}


TESTS = [
    Test('nested', nested(), check, 1500),
    Test('bars', many('B', 3, 10, (4, 6, 8)), check, 6000),
    Test('mixed', many('ECSPVB', 2, 9, (4, 6, 8)), check, 4000),
]
