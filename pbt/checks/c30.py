"""A clustering is determined by the scene: not by the order of the obstacles, their ids and names, the place of the scene or the reporting options."""
import contextlib
import copy
import io
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'completed clustering in which at least two obstacles were merged, or at least one was extended'
ASSUMPTIONS = ['a difference is not judged in scenes whose clustering changes with random changes of the coordinates by at most 1e-6 (something touches, or there are ties)']
TOL = 1e-4


def summary(case, order=None, seed=0, kw=None):
    """(flag, iterations, {members: (region, kernel points)}) with the obstacles in the given order, members as indices of the case."""
    order = list(range(len(case['obs']))) if order is None else order
    c = dict(case, obs=[case['obs'][i] for i in order])
    obs = scene.build(c)
    which = {id(o): i for o, i in zip(obs, order)}
    np.random.seed(seed)
    opt = dict(case.get('opt', {}), **(kw or {}))
    if 'ws' in case:
        opt['workspace'] = gen.build(case['ws'], id='temporary')
    with contextlib.redirect_stdout(io.StringIO()):
        res = scene.cluster(obs, c, **opt)
    clusters, flag, n = res[0], res[2], res[3]
    out = {}
    for cl in clusters:
        k = tuple(sorted(which[id(o)] for o in cl.obstacles))
        require(k not in out, 'two clusters with the obstacles {}', k)
        p = cl.cluster_obstacle.polygon()
        out[k] = (sg.Polygon(p.exterior), None if cl.kernel_points is None else np.asarray(cl.kernel_points, float))
    return flag, n, out


def moved(case, t):
    """The scene translated by t."""
    c = copy.deepcopy(case)
    for o in c['obs'] + ([c['ws']] if 'ws' in c else []):
        o['pose'] = [o['pose'][0] + t[0], o['pose'][1] + t[1], o['pose'][2]]
    for k in ('x', 'xg'):
        c[k] = [c[k][0] + t[0], c[k][1] + t[1]]
    return c


def differs(a, b, tol, t=(0, 0)):
    """None, or how b differs from a moved."""
    if a[0] != b[0]:
        return 'flag %d instead of %d' % (b[0], a[0])
    if a[1] != b[1]:
        return '%d iterations instead of %d' % (b[1], a[1])
    if set(a[2]) != set(b[2]):
        return 'clusters %s instead of %s' % (sorted(b[2]), sorted(a[2]))
    for k in a[2]:
        (p, kp), (q, kq) = a[2][k], b[2][k]
        if (kp is None) != (kq is None):
            return 'kernel points of %s' % (k,)
        if kp is not None and np.max(np.abs(kp + t - kq)) > tol:
            return 'kernel points of %s: %s instead of %s' % (k, kq.tolist(), (kp + t).tolist())
        p = sg.Polygon(np.asarray(p.exterior.coords) + t)
        d = p.exterior.hausdorff_distance(q.exterior)
        if d > tol:
            return 'region of %s (distance %.2e)' % (k, d)
    return None


def stable(case, want, reseed=True):
    """The clustering does not change with tiny changes of the scene (random, but the same ones every time)."""
    rnd = np.random.RandomState(7)
    for i in range(18):
        size = [1e-6, 1e-7, 1e-9, 1e-11, 1e-12, 1e-13][i % 6]

        def near(p):
            return [float(v) for v in np.asarray(p) + rnd.uniform(-size, size, len(p))]
        c = copy.deepcopy(case)
        for o in c['obs']:
            o['pose'] = near(o['pose'])
            if 'v' in o:
                o['v'] = [near(p) for p in o['v']]
            else:
                o['a'] = near(o['a'])
        c['x'], c['xg'] = near(c['x']), near(c['xg'])
        if differs(want, summary(c, seed=i + 1 if reseed else 0), TOL / 2) is not None:
            return False
    return True


def same(case, want, got, what, t=(0, 0), reseed=True):
    d = differs(want, got, TOL, t)
    if d is not None:
        if not stable(case, want, reseed):
            raise Skip()
        require(False, '{}: {}', what, d)


def check(case, rec):
    want = summary(case)
    flag, n, cl = want
    rec.label('flag%d' % flag)
    if case['what'] == 'repeat':
        got = summary(case)
        d = differs(want, got, 1e-12)
        require(d is None, 'the same scene again: {}', d)
        # Also with other random numbers
        same(case, want, summary(case, seed=100 + case['k']), 'the same scene again, with another random state', reseed=False)
    elif case['what'] == 'report':
        for kw in ({'verbose': True, 'timing_verbose': True}, {'return_history': True}, {'max_iterations': 1000, 'max_compute_time': 1e15}):
            d = differs(want, summary(case, kw=kw), 1e-12)
            require(d is None, 'with the options {}: {}', kw, d)
    else:
        if case['what'] == 'order':
            k = case['k'] % len(case['obs'])
            order = list(range(k, len(case['obs']))) + list(range(k))
            order = order[::-1] if case['rev'] else order
            same(case, want, summary(case, order), 'obstacles in the order %s' % order)
        elif case['what'] == 'ids':
            same(case, want, summary(dict({n: v for n, v in case.items() if n != 'ids'}, id0=case['k'] * 37 + 8)), 'other ids')
        else:
            t = case['t']
            same(case, want, summary(moved(case, t)), 'scene translated by %s' % t, t)
    rec.label(case['what'])
    obs = case['obs']
    rec.hit(flag != 0 and len(obs) > 1 and (len(cl) < len(obs) or n > 1))


@st.composite
def cases(draw, strategy):
    s = draw(scene.with_options(strategy))
    s.pop('before', None)
    for k in ('verbose', 'timing_verbose', 'return_history', 'max_iterations', 'max_compute_time'):
        s['opt'].pop(k, None)
    b = gen.Raw(draw, 12)
    s['what'] = ['repeat', 'report', 'order', 'order', 'order', 'ids', 'place', 'place'][b.int(0, 7)]
    s['k'], s['rev'] = b.int(0, 7), b.int(0, 1) == 1
    s['t'] = [b.coord(8, 32) * [1, 4, 16][b.int(0, 2)], b.coord(8, 32)]
    return s


TESTS = [
    Test('mixed', cases(scene.scenes(nmin=2)), check, 600),
    Test('starshaped', cases(scene.scenes('ECSB', nmin=2, nmax=9)), check, 500),
    Test('bars', cases(scene.scenes('BBBEC', nmin=6, nmax=10, sizes=(4, 6))), check, 300),
    Test('nonconvex', cases(scene.scenes('SPQ', nmax=4)), check, 500),
]
