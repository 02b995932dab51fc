"""Stopping early (compute time, iterations) gives the unclustered obstacles flagged as incomplete, or a sound clustering."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scene
from pbt.core import Test, require

RULE = 'the limit was reached before the clustering was complete (or while obstacles were made convex)'
ASSUMPTIONS = ['time is read through the time module (time, perf_counter, monotonic, process_time), which the check replaces']


@st.composite
def limited(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, **kw))
    b = gen.Raw(draw, 6)
    s['at'] = b.int(0, 40)             # clock reading at which the time jumps (fraction of all readings)
    s['tick'] = [1e-6, 0, 1e-3][b.int(0, 2)]
    s['kw'] = {'make_convex': b.byte() % 2 == 1, 'return_history': b.byte() % 2 == 1, 'exclude_obstacles': b.byte() % 4 == 3}
    s['limit'] = [1., 1000., 3.7e5][b.int(0, 2)]
    return s


def unpack(res, kw, elapsed=None):
    require(isinstance(res, tuple) and len(res) == (5 if kw.get('return_history') else 4), 'result is a {} of length {}',
            type(res).__name__, len(res))
    clusters, timing, flag, n = res[:4]
    require(len(timing) == 4 and all(np.isfinite(timing)) and min(timing) >= 0, 'timing {}', timing)
    if elapsed is not None:
        require(sum(timing) <= elapsed * (1 + 1e-9) + 1e-6, 'the times {} are together more than the elapsed time {} ms', timing, elapsed)
    hist = res[4] if len(res) == 5 else None
    if hist is not None:
        for entry in hist:
            cls = entry if isinstance(entry, list) else [entry]
            require(all(hasattr(c, 'obstacles') for c in cls), 'history contains {}', type(cls[0]).__name__)
    return clusters, flag, n, hist


def run(case, clock=None, **kw):
    obs = scene.build(case)
    np.random.seed(case['at'])
    t = clock['t'] if clock else 0
    res = scene.cluster(obs, case, **kw)
    return obs, unpack(res, kw, 1e3 * (clock['t'] - t) if clock else None)


def same(a, b):
    require(scene.groups(a) == scene.groups(b), 'other clusters than without limit: {} {}', scene.groups(a), scene.groups(b))
    for x, y in zip(a, b):
        require(scene.same_shape(scene.poly_of(x), scene.poly_of(y)), 'cluster {} differs from the one without limit', x.name)


def check_time(case, rec):
    kw = case['kw']
    with scene.clock(tick=case['tick']) as c:
        obs0, (cl0, flag0, n0, _) = run(case, c, **kw)
    total = c['n']
    if total < 2:
        rec.label('clock not controlled')
        return
    at = 1 + case['at'] * total // 40
    with scene.clock(at, tick=case['tick']) as c:
        obs, (cl, flag, n, _) = run(case, c, max_compute_time=case['limit'], **kw)
    rec.label('flag%d to %d' % (flag0, flag))
    rec.hit(flag != flag0)
    require(flag in (scene.INCOMPLETE, scene.COMPLETE, scene.MAX_TIME_CONVEX), 'flag {}', flag)
    if case['tick'] * total < 1e-5 * case['limit']:
        # The limit is in milliseconds: half of it elapses, twice the limit elapses
        with scene.clock(at, 5e-4 * case['limit'], tick=case['tick']) as c:
            _, (cl1, flag1, n1, _) = run(case, c, max_compute_time=case['limit'], **kw)
        require(flag1 == flag0 and n1 == n0, 'flag {} when half of the time limit elapses, without limit {}', flag1, flag0)
        same(cl1, cl0)
        with scene.clock(at, 2e-3 * case['limit'], tick=case['tick']) as c:
            _, (cl2, flag2, n2, _) = run(case, c, max_compute_time=case['limit'], **kw)
        require(flag2 == flag, 'flag {} when twice the time limit elapses, {} for a longer time', flag2, flag)
    if flag == scene.INCOMPLETE:
        scene.check_singletons(cl, obs)
        return
    require(flag0 == scene.COMPLETE, 'flag {} but {} without time limit', flag, flag0)
    require(flag == scene.COMPLETE or kw['make_convex'], 'flag {} although no cluster is made convex', flag)
    scene.check_sound(cl, obs, case)
    if flag == scene.COMPLETE:
        same(cl, cl0)
    elif flag == scene.MAX_TIME_CONVEX:
        require(scene.groups(cl) == scene.groups(cl0), 'other clusters than without time limit')


def check_noticed(case, rec):
    """The time limit is observed in all phases: at the start, in the iterations, while clusters are made convex."""
    kw = dict(case['kw'], make_convex=True)
    with scene.clock(tick=1e-9) as c:
        _, (cl0, flag0, n0, _) = run(case, c, **kw)
    total = c['n']
    if total < 2:
        rec.label('clock not controlled')
        return

    def flag_at(at):
        with scene.clock(at, tick=1e-9):
            _, (cl, flag, n, _) = run(case, max_compute_time=case['limit'], **kw)
        return flag
    flags = [flag_at(at) for at in (2, 3)]
    require(scene.INCOMPLETE in flags, 'flags {} when the time is exhausted from the start', flags)
    for m in range(1, n0 - 1):
        # The time is exhausted when m iterations are done, and at least two follow
        with scene.clock(tick=1e-9) as c:
            run(case, max_iterations=m, **kw)
        rec.hit()
        rec.label('iterations')
        flag = flag_at(c['n'])
        require(flag == scene.INCOMPLETE, 'flag {} when the time is exhausted after {} of {} iterations', flag, m, n0)
    with scene.clock(tick=1e-9) as c:
        _, (cl1, flag1, n1, _) = run(case, c, **dict(kw, make_convex=False))
    if flag1 != scene.COMPLETE:
        return
    bent = [cl for cl in cl1 if scene.poly_of(cl).convex_hull.area > scene.poly_of(cl).area * 1.01 + 1e-3]
    if bent:
        rec.hit()
        rec.label('convex')
        # The time is exhausted at some of the clock readings after the last iteration
        flags = []
        for at in range(max(1, c['n'] - 1), total + 1):
            flags += [flag_at(at)]
            if flags[-1] == scene.MAX_TIME_CONVEX:
                return
        require(False, 'flags {} when the time is exhausted while {} clusters are made convex', flags, len(bent))


@st.composite
def iterations(draw, kinds, **kw):
    s = draw(scene.scenes(kinds, **kw))
    b = gen.Raw(draw, 4)
    s['at'] = b.int(0, 40)
    s['m'] = b.int(1, 4)
    s['kw'] = {'make_convex': b.byte() % 2 == 1, 'return_history': b.byte() % 2 == 1}
    return s


def check_iterations(case, rec):
    kw, m = case['kw'], case['m']
    with scene.clock() as c:
        obs0, (cl0, flag0, n0, hist0) = run(case, c, **kw)
    with scene.clock() as c:
        obs, (cl, flag, n, hist) = run(case, c, max_iterations=m, **kw)
    if flag0 == scene.COMPLETE and hist0 is not None:
        require(len(hist0) == n0, 'history of {} iterations has {} entries', n0, len(hist0))
    rec.label('stopped', n0 > m)
    rec.hit(n0 > m)
    require(n <= m, '{} iterations with max_iterations = {}', n, m)
    if flag0 == scene.INCOMPLETE or n0 > m:
        require(flag == scene.INCOMPLETE, 'flag {} with max_iterations {}, the clustering takes {} iterations (flag {})', flag, m,
                n0, flag0)
        scene.check_singletons(cl, obs)
    else:
        require(flag == flag0 and n == n0, 'flag {} (n={}) with max_iterations {} instead of {} (n={})', flag, n, m, flag0, n0)
        same(cl, cl0)


TESTS = [
    Test('time', limited('ECSPB', nmin=2, nmax=6), check_time, 1200),
    Test('time_nonconvex', limited('SPQ', nmax=4), check_time, 600),
    Test('noticed', limited('BBECS', nmin=2, nmax=8, sizes=(3, 4)), check_noticed, 300),
    Test('noticed_bars', limited('BBBEC', nmin=6, nmax=12, sizes=(4, 6)), check_noticed, 200),
    Test('noticed_nonconvex', limited('SPQ', nmax=3), check_noticed, 150),
    Test('iterations', iterations('BBBEC', nmin=4, nmax=10, sizes=(4, 6)), check_iterations, 900),
    Test('iterations_nonconvex', iterations('SPQ', nmin=2, nmax=5), check_iterations, 500),
]
