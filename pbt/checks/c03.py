"""Robot and goal are outside all clusters of a completed clustering, and a clustering is only completed if they are free."""
from hypothesis import strategies as st

from pbt import gen, scene
from pbt.core import Skip, Test, require

RULE = 'robot and goal free and some cluster extended; or robot or goal inside an obstacle'


def check(case, rec):
    obs, clusters, flag, n = scene.run(case)
    rec.label('flag%d' % flag)
    if flag == scene.INCOMPLETE:
        return
    rec.hit(any(cl.cluster_obstacle is not cl.obstacles[0] for cl in clusters))
    scene.check_excluded(clusters, case)


@st.composite
def blocked_scene(draw):
    """Robot or goal (or both) at a point with positive clearance inside one of the obstacles."""
    s = draw(scene.scenes('ECSPVQ', nmax=5))
    b = gen.Raw(draw, 8)
    i = b.int(0, len(s['obs']) - 1)
    which = ['x', 'xg', 'both'][b.int(0, 2)]
    c = gen.region(s['obs'][i]).representative_point()
    p = [c.x + b.coord(.5, 32), c.y + b.coord(.5, 32)]
    s['which'], s['inside'] = which, p
    return s


def check_blocked(case, rec):
    locs = [gen.location(o, case['inside']) for o in case['obs']]
    if not any(l < 0 and d > 0.02 for l, d in locs) or any(d < 1e-6 for l, d in locs):
        raise Skip()
    for n in ('x', 'xg'):
        if case['which'] in (n, 'both'):
            case[n] = case['inside']
    rec.hit()
    rec.label(case['which'])
    obs, clusters, flag, n = scene.run(case)
    require(flag == scene.INCOMPLETE, 'flag {} with robot or goal inside of an obstacle', flag)
    scene.check_singletons(clusters, obs)


TESTS = [
    Test('free', scene.with_options(scene.scenes('ECSPV', nmin=0)), check, 1200),
    Test('nonconvex', scene.with_options(scene.scenes('SPQ', nmax=4)), check, 900),
    Test('crowded', scene.with_options(scene.scenes('ECVB', nmin=4, nmax=10, sizes=(3, 4, 6))), check, 900),
    Test('inside', scene.with_options(blocked_scene()), check_blocked, 1500),
]
