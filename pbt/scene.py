"""Scenes (obstacles, robot position, goal position) and the oracles for clustering results."""
import contextlib
import io
import math
import sys
import time

import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import assume, strategies as st

from pbt import gen, ref
from pbt.core import REPO, HarnessError, require

INCOMPLETE, COMPLETE, MAX_TIME_CONVEX = 0, 1, 2


# ---------- generators ---------- #
@st.composite
def bar(draw, p):
    """Long bars: the hull of crossing bars often reaches other obstacles."""
    b = gen.Raw(draw, 3)
    kind, l, w = b.int(0, 2), b.int(6, 16) / 8, b.int(2, 5) / 16
    pose = draw(p)
    if kind == 0:
        return {'t': 'E', 'a': [l, w], 'pose': pose, 'xr': None, 'n': 20}
    w = w / 2
    return {'t': 'SP'[kind - 1], 'v': [[-l, -w], [l, -w], [l, w], [-l, w]], 'pose': pose, 'xr': None}


def member(kind, W):
    p = gen.pose_in(0, W)
    if kind == 'E':
        return st.builds(lambda s, n: dict(s, n=n), gen.ellipse_spec(p, 3, 10), st.sampled_from([20, 20, 20, 10, 36]))
    if kind == 'C':
        return gen.star_spec(p, gen.convex_vertices(r=1, q=16).map(gen.centered)).map(lambda s: dict(s, xr=None))
    if kind == 'B':
        return bar(p)
    if kind == 'S':
        return gen.star_spec(p, gen.star_vertices(r=9))
    if kind == 'P':
        return gen.polygon_spec(p, gen.tangled_vertices(r=1, q=16))
    if kind == 'Q':
        return gen.polygon_spec(p, gen.pocket_vertices())
    if kind == 'V':
        return gen.polygon_spec(p, gen.convex_vertices(r=1, q=16))
    raise HarnessError(kind)


@st.composite
def scenes(draw, kinds='ECSPV', nmin=1, nmax=6, sizes=(2, 3, 4, 6), clearance=0.03):
    b = gen.Raw(draw, 4 + nmax)
    W = sizes[b.int(0, len(sizes) - 1)]
    n = b.int(nmin, nmax)
    obs = [draw(member(kinds[b.int(0, len(kinds) - 1)], W)) for _ in range(n)]
    free = draw(gen.points_in(10, -1, W + 1))
    regs = [gen.region(s, 64) for s in obs]
    free = [p for p in free if all(g.distance(sg.Point(p)) > clearance for g in regs)]
    assume(len(free) >= 2)
    x, xg = free[:2]
    # Also with the robot at, or very close to, the goal
    near = draw(st.integers(0, 23))
    if near >= 22:
        xg = list(x) if near == 23 else [x[0] + 2 ** -12, x[1] - 2 ** -13]
    assume(near == 23 or x != xg)
    case = {'obs': obs, 'x': x, 'xg': xg, 'eps': [0.05, 0.1, 0.2, 0.5, 0.1, 1e-4, 1.5, 20.][b.int(0, 7)],
            'id0': [0, 3, 7, 95][b.int(0, 3)]}
    if draw(st.integers(0, 2)) == 2:
        # Ids in any order, whose decimal representations contain each other
        case['ids'] = draw(st.permutations(IDS))
    return case


IDS = [1, 11, 12, 2, 21, 112, 111, 22, 3, 13, 31, 121, 5, 10, 211, 122]


def is_free(spec, p, clearance):
    """p is outside the obstacle, with some clearance."""
    loc, _ = gen.location(spec, p)
    return loc > 0 and gen.region(spec, 256).distance(sg.Point(p)) > clearance


# ---------- running the code ---------- #
def build(case, **kw):
    """Obstacles of the scene. The id counter is set so that the ids do not depend on the cases run before."""
    from obstacles import Obstacle
    if isinstance(getattr(Obstacle, 'id_counter', None), int):
        Obstacle.id_counter = case.get('id0', 0)
    obs = []
    for i, s in enumerate(case['obs']):
        if 'ids' in case and isinstance(getattr(Obstacle, 'id_counter', None), int):
            Obstacle.id_counter = case['ids'][i] - 1
        obs.append(gen.build(s, **({'n_pol': s['n']} if 'n' in s else {})))
    if 'ids' in case and isinstance(getattr(Obstacle, 'id_counter', None), int):
        Obstacle.id_counter = max(IDS)
    return obs


def pt(p):
    return np.array(p, float)


def cluster(obs, case, **kw):
    import starshaped_hull as sh
    return sh.cluster_and_starify(obs, pt(case['x']), pt(case['xg']), case['eps'], **kw)


@contextlib.contextmanager
def clock(jump_at=None, jump=1e9, tick=1e-6):
    """Replace the clocks by one which advances by tick per reading, and jumps at reading number jump_at."""
    names = ['time', 'perf_counter', 'monotonic', 'process_time']
    old = {n: getattr(time, n) for n in names}
    state = {'n': 0, 't': 1000.}

    def now():
        state['n'] += 1
        state['t'] += tick
        if state['n'] == jump_at:
            state['t'] += jump
        return state['t']
    places = [(time, n, old[n]) for n in names]
    for m in list(sys.modules.values()):
        if str(getattr(m, '__file__', None)).startswith(REPO + '/'):
            # 'from time import time' in the code under test
            places += [(m, n, v) for n, v in vars(m).items() if callable(v) and any(v is f for f in old.values())]
    for m, n, _ in places:
        setattr(m, n, now)
    try:
        yield state
    finally:
        for m, n, v in places:
            setattr(m, n, v)


@st.composite
def with_options(draw, strategy, workspace=True):
    """Scenes with any of the options which do not change what a sound clustering is (half of them without any)."""
    s = draw(strategy)
    b = gen.Raw(draw, 24)
    if b.byte() % 2 == 0:
        s['opt'] = {}
        return s
    opt = {n: True for n in ('make_convex', 'exclude_obstacles', 'verbose', 'timing_verbose', 'return_history') if b.int(0, 2) == 2}
    if opt.get('exclude_obstacles') and len(s['obs']) > 6:
        del opt['exclude_obstacles']  # Slow
    if b.int(0, 3) == 3:
        opt['max_iterations'] = b.int(20, 40)
    if b.int(0, 3) == 3:
        opt['max_compute_time'] = 1e12
    k = b.int(0, 5)
    c = [b.int(0, 64) / 16, b.int(0, 64) / 16, b.angle()]
    if workspace and k == 4:
        s['ws'] = {'t': 'E', 'a': [b.int(8, 40) / 8, b.int(8, 40) / 8], 'pose': c, 'xr': None}
    elif workspace and k == 5:
        l, w = b.int(8, 40) / 8, b.int(8, 40) / 8
        s['ws'] = {'t': 'S', 'v': [[-l, -w], [l, -w], [l, w], [-l, w]], 'pose': c, 'xr': [0., 0.]}
    if b.int(0, 2) == 2:
        # Clusters of a previous step with another robot position and poses
        s['before'] = {'x': [b.int(0, 64) / 16, b.int(0, 64) / 16], 'd': [b.coord(.5, 32), b.coord(.5, 32), b.coord(.25, 32)]}
    s['opt'] = opt
    return s


def run(case):
    """(obstacles, clusters, flag, number of iterations) with the options of the case."""
    from obstacles import motion_model as mm
    obs = build(case)
    kw = dict(case.get('opt', {}))
    if 'ws' in case:
        kw['workspace'] = gen.build(case['ws'], id='temporary')
    with contextlib.redirect_stdout(io.StringIO()):
        if 'before' in case:
            d = case['before']['d']
            for i, (o, s) in enumerate(zip(obs, case['obs'])):
                o.set_motion_model(mm.Static([s['pose'][0] + d[0] * (i % 2), s['pose'][1] + d[1] * (i % 3 > 0)], s['pose'][2] + d[2]))
            prev = cluster(obs, dict(case, x=case['before']['x']), **kw)
            for o, s in zip(obs, case['obs']):
                o.set_motion_model(mm.Static(s['pose'][:2], s['pose'][2]))
            if prev[2] == COMPLETE:
                kw['previous_clusters'] = prev[0]
        res = cluster(obs, case, **kw)
    require(len(res) == 4 + bool(kw.get('return_history')), 'result of length {}', len(res))
    return obs, res[0], res[2], res[3]


# ---------- oracles ---------- #
def ids(obs):
    return [o.id() for o in obs]


def groups(clusters):
    return sorted(sorted(ids(cl.obstacles)) for cl in clusters)


def regions(case):
    """Reference regions of the obstacles: inscribed polygons with 256 vertices for ellipses."""
    return [gen.region(s, 256) for s in case['obs']]


def check_partition(clusters, obs):
    got = [o for cl in clusters for o in cl.obstacles]
    require(sorted(ids(got)) == sorted(ids(obs)), 'clusters contain the obstacles {} of the scene {}', ids(got), ids(obs))
    require({id(o) for o in got} == {id(o) for o in obs}, 'clusters contain other obstacle objects than the given ones')


def poly_of(cl):
    p = cl.cluster_obstacle.polygon()
    require(not p.is_empty and p.is_valid, 'cluster polygon empty or invalid')
    require(p.geom_type == 'Polygon', 'cluster {} is not connected: {}', ids(cl.obstacles), p.geom_type)
    holes = [sg.Polygon(i).area for i in p.interiors]
    # Between hull and n-gon representation of an ellipse there may be gaps
    tol = 1e-2 if any(type(o).__name__ == 'Ellipse' for o in cl.obstacles) else 1e-5
    require(max(holes + [0]) < tol, 'cluster {} has a hole of area {}', ids(cl.obstacles), max(holes + [0]))
    return sg.Polygon(p.exterior)


def same_shape(p, q, tol=1e-6):
    """Same polygon up to tol (boundary distance: overlays are not reliable for almost equal polygons)."""
    return p.exterior.hausdorff_distance(q.exterior) < tol


def check_contains(clusters, obs, case):
    reg = dict(zip(ids(obs), regions(case)))
    for cl in clusters:
        p = poly_of(cl)
        for o in cl.obstacles:
            d = reg[o.id()].difference(p.buffer(1e-7))  # exact overlays fail for almost equal polygons
            tol = 1e-6
            spec = case['obs'][ids(obs).index(o.id())]
            if spec['t'] == 'E':
                # The ellipse is represented by an n-gon
                n = spec.get('n', 20)
                tol = 1e-6 + 1.02 * reg[o.id()].area * (1 - math.sin(2 * math.pi / n) / (2 * math.pi / n))
            require(d.area < tol, 'cluster {} does not cover its obstacle {} (area {:.2e})', ids(cl.obstacles), o.id(), d.area)


def check_disjoint(clusters):
    pol = [poly_of(cl) for cl in clusters]
    for i in range(len(pol)):
        for j in range(i):
            require(not pol[i].intersects(pol[j]), 'clusters {} and {} intersect (area {:.2e})', ids(clusters[i].obstacles),
                    ids(clusters[j].obstacles), pol[i].intersection(pol[j]).area)


def true_region(cl, obs, case):
    """The cluster with the ellipses replaced by fine polygons, and the tolerance of the representation."""
    reg = dict(zip(ids(obs), regions(case)))
    ell = [s['t'] == 'E' for s in case['obs']]
    members = [reg[o.id()] for o in cl.obstacles if ell[ids(obs).index(o.id())]]
    if not members:
        return poly_of(cl), 1e-6
    return ref.union([poly_of(cl)] + members), 2e-3


def check_star(p, k, tol, what):
    """p (no holes) is starshaped with respect to k: all vertices are visible."""
    if p.geom_type != 'Polygon':
        p = p.buffer(tol)
        require(p.geom_type == 'Polygon', '{}: not connected', what)
    holes = [sg.Polygon(i).buffer(-tol).area for i in p.interiors]
    require(max(holes + [0]) < 1e-6, '{}: has a hole of area {}', what, max(holes + [0]))
    pb = shapely.prepared.prep(sg.Polygon(p.exterior).buffer(tol))
    k = (float(k[0]), float(k[1]))
    require(math.isfinite(k[0]) and math.isfinite(k[1]), '{}: kernel point not finite', what)
    for v in np.asarray(p.exterior.coords)[:-1]:
        require(pb.covers(sg.LineString([k, v])), '{}: {} does not see {} (tolerance {})', what, k, list(v), tol)


def check_starshaped(clusters, obs, case):
    for cl in clusters:
        p, tol = true_region(cl, obs, case)
        what = 'cluster %s' % ids(cl.obstacles)
        check_star(p, cl.cluster_obstacle.xr(), tol, what + ' reference point')
        for k in np.asarray(cl.kernel_points):
            check_star(p, k, tol, what + ' kernel point')


def check_excluded(clusters, case, name=('x', 'xg')):
    for cl in clusters:
        p = poly_of(cl)
        for n in name:
            q = sg.Point(case[n])
            require(not p.contains(q) and p.distance(q) >= 0 and not p.intersects(q), 'cluster {} contains {}', ids(cl.obstacles), n)
            require(not cl.cluster_obstacle.interior_point(pt(case[n])), 'cluster {}: {} is an interior point', ids(cl.obstacles), n)


def check_sound(clusters, obs, case):
    check_partition(clusters, obs)
    check_contains(clusters, obs, case)
    check_disjoint(clusters)
    check_excluded(clusters, case)


def check_singletons(clusters, obs):
    require([ids(cl.obstacles) for cl in clusters] == [[i] for i in ids(obs)],
            'not the unclustered obstacles in order: {}', [ids(cl.obstacles) for cl in clusters])
    for cl, o in zip(clusters, obs):
        require(cl.obstacles[0] is o and cl.cluster_obstacle is o, 'fallback cluster is not the given obstacle')


# ---------- admissible kernel (reference) ---------- #
def blocked_arc(region, x):
    """Directions from x which hit the region, as (lo, hi), None if x is inside or completely enclosed by angle."""
    lo, hi, close = ref.angular_range(np.asarray(region.exterior.coords)[:-1], x)
    if abs(close) > 1e-6 or hi - lo >= 2 * math.pi - 1e-9:
        return None
    return lo, hi


def sector(x, lo, hi, r):
    """Polygon of the directions lo..hi from x (chain with small steps, at least radius r in each direction)."""
    n = max(2, int((hi - lo) / 0.2) + 2)
    t = np.linspace(lo, hi, n)
    r = r / math.cos((hi - lo) / (n - 1) / 2)
    return sg.Polygon([list(x)] + [[x[0] + r * math.cos(a), x[1] + r * math.sin(a)] for a in t])


def admissible(regs, points, r=50., shrink=0.):
    """{k within r: the rays from the points away from k miss the regions}; shrink > 0 widens the blocked directions."""
    out = None
    for x in points:
        cx = sg.Point(x).buffer(r)
        for g in regs:
            arc = blocked_arc(g, x)
            if arc is None:
                return sg.Polygon()
            lo, hi = arc[0] - shrink, arc[1] + shrink
            if hi - lo >= 2 * math.pi:
                return sg.Polygon()
            # k - x is opposite to a blocked direction
            cx = cx.difference(sector(x, lo + math.pi, hi + math.pi, 3 * r))
        out = cx if out is None else out.intersection(cx)
    return out
