"""Identity and isolation: ids of new obstacles are unique, copies are equal but independent, and no caller data is shared or changed."""
import numpy as np
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.core import Skip, Test, require

RULE = 'an obstacle was copied, and later the copy or the original was changed'
SAMPLE = [[0, 0], [.4, .3], [-.7, .2], [1, -1], [.1, -.6], [-1.2, -.4], [2, 2]]


class Model:
    """What is expected of one obstacle."""

    def __init__(self, spec, id, name, xr, pose):
        self.spec, self.id, self.name, self.xr, self.pose = spec, id, name, xr, pose


def new_id(kind, counter, known):
    """(id argument, expected id, new counter)"""
    if kind in ('new', 'n'):
        return kind, counter + 1, counter + 1
    if kind in ('temporary', 'temp', 't'):
        return kind, None, counter
    if kind == 'existing':
        return (known, known, counter) if known else ('t', None, counter)
    if kind == 'unknown':
        return counter + 5, None, counter
    if kind == 'negative':
        return -1, None, counter
    return 0, None, counter


def make(spec, id, name):
    from obstacles import Ellipse, Polygon, StarshapedPolygon, motion_model as mm
    pose = spec['pose']
    # The arrays given to the code are overwritten afterwards
    junk = []

    def arr(v):
        junk.append(np.array(v, float))
        return junk[-1]
    m = None if pose is None else mm.Static(arr(pose[:2]), pose[2])
    kw = {'motion_model': m, 'id': id}
    if name is not None:
        kw['name'] = name
    if spec['t'] == 'E':
        if spec.get('n_pol'):
            kw['n_pol'] = spec['n_pol']
        xr = None if spec['xr'] is None else arr([spec['xr'][0] * spec['a'][0], spec['xr'][1] * spec['a'][1]])
        o = Ellipse(arr(spec['a']), xr=xr, **kw)
    elif spec['t'] == 'S':
        o = StarshapedPolygon(arr(spec['v']), xr=None if spec['xr'] is None else arr(spec['xr']), **kw)
    else:
        o = Polygon(arr(spec['v']), **kw)
    for a in junk:
        a += 17.
    return o


def check_obstacle(o, m, what):
    from obstacles import Frame
    require(o.id() == m.id, '{}: id {}, expected {}', what, o.id(), m.id)
    require(str(o) == m.name, '{}: name {}, expected {}', what, o, m.name)
    require(np.allclose(o.pos(), [0, 0] if m.pose is None else m.pose[:2], atol=1e-12) and abs(o.rot() - (m.pose[2] if m.pose else 0)) < 1e-12,
            '{}: pose {} {}, expected {}', what, list(o.pos()), o.rot(), m.pose)
    if m.spec['t'] != 'P':
        require(np.allclose(o.xr(Frame.OBSTACLE), m.xr, atol=1e-9), '{}: reference point {}, expected {}', what, list(o.xr(Frame.OBSTACLE)), list(m.xr))
    spec = dict(m.spec, pose=m.pose)
    for y in SAMPLE:
        x = ref.fwd(m.pose, y)
        loc, d = gen.location(spec, x)
        if d > 1e-9:
            require(np.sign(o.point_location(x)) == loc, '{}: location of {} (obstacle frame) is {}, expected {}', what, y, o.point_location(x), loc)
    n_pol = spec.get('n_pol') or 20
    if spec['t'] == 'E':
        n = len(o.polygon().exterior.coords) - 1
        require(n == n_pol, '{}: polygon with {} vertices, expected {}', what, n, n_pol)
    g = gen.region(spec, n_pol, pad=1e-3) if spec['t'] == 'E' else gen.region(spec)
    d = o.polygon().exterior.hausdorff_distance(g.exterior)
    require(d < (1.05 * (1 - np.cos(np.pi / n_pol)) * max(spec['a']) + 1e-3 if spec['t'] == 'E' else 1e-9), '{}: polygon differs by {:.1e}', what, d)


def check(case, rec):
    from obstacles import Frame, motion_model as mm
    probe = {'t': 'E', 'a': [1, 1], 'pose': None, 'xr': None}
    counter = gen.build(probe).id()
    obs, models, copied = [], [], set()
    for op in case['ops']:
        kind = op[0]
        if kind == 'new' or not obs:
            known = models[-1].id if models else None
            arg, want, counter = new_id(op[2], counter, known)
            name = op[3]
            o = make(op[1], arg, name)
            spec = op[1]
            xr = None
            if spec['t'] != 'P':
                xr = np.array(o.xr(Frame.OBSTACLE))
                if spec['xr'] is not None:
                    want_xr = [spec['xr'][0] * spec['a'][0], spec['xr'][1] * spec['a'][1]] if spec['t'] == 'E' else spec['xr']
                    require(np.allclose(xr, want_xr), 'reference point {}, expected {}', list(xr), want_xr)
            obs.append(o)
            models.append(Model(spec, want, name if name else str(want), xr, spec['pose']))
        else:
            i = op[4] % len(obs)
            o, m = obs[i], models[i]
            if kind == 'copy':
                known = models[op[5] % len(models)].id
                name = op[3]
                if op[2] == 'duplicate':
                    arg, want = ['duplicate', 'd'][op[5] % 2], m.id
                    if m.spec['t'] == 'P':
                        name = m.name
                    c = o.copy(arg)
                    name = name if m.spec['t'] == 'P' else None
                elif op[2] == 'default':
                    want = None
                    c = o.copy()
                    name = None
                else:
                    arg, want, counter = new_id(op[2], counter, known)
                    c = o.copy(arg, name) if name else o.copy(arg)
                require(c is not o and type(c) is type(o), 'copy is {}', type(c).__name__)
                if hasattr(o, 'xr'):
                    require(np.allclose(c.xr(), o.xr()), 'copy has the reference point {}, original {}', list(c.xr()), list(o.xr()))
                obs.append(c)
                models.append(Model(m.spec, want, name if name else str(want), None if m.xr is None else np.array(m.xr), m.pose))
                copied.update((i, len(obs) - 1))
            elif kind == 'pose':
                p = np.array(op[6][:2], float)
                o.set_motion_model(mm.Static(p, op[6][2]))
                p += 3.
                m.pose = op[6]
                rec.hit(i in copied)
            elif kind == 'xr' and m.spec['t'] != 'P':
                rec.hit(i in copied)
                y = np.array(op[7], float) * .5
                frame = [Frame.OBSTACLE, Frame.GLOBAL][op[5] % 2]
                safe = op[5] % 4 >= 2
                k = o.kernel(Frame.OBSTACLE)
                import shapely.geometry as sg
                if not safe:
                    # Has to be in the kernel
                    y = y * .02 if m.spec['t'] == 'S' else y * .3 * min(m.spec['a'])
                elif k.exterior.distance(sg.Point(y)) < 1e-6:
                    continue
                a = ref.fwd(m.pose, y) if frame == Frame.GLOBAL else np.array(y)
                given = a.copy()
                if frame == Frame.OBSTACLE and op[5] % 8 == 0:
                    o.set_xr(a)
                else:
                    o.set_xr(a, frame, safe_set=safe)
                require(np.array_equal(a, given), 'set_xr changes its argument')
                a += 5.
                if not safe or k.contains(sg.Point(y)):
                    m.xr = y
                else:
                    rec.label('unsafe xr refused')
            elif kind == 'query':
                # Results belong to the caller
                o.polygon()
                x = np.array(op[7], float)
                o.tangent_points(x)
                o.point_location(x)
                o.line_intersection([x, x + 1.])
                if m.spec['t'] != 'P':
                    o.kernel()
                    if np.linalg.norm(x - o.xr()) > 1e-3:
                        b = o.boundary_mapping(x)
                        b += 7.
                require(np.array_equal(x, op[7]), 'query changes its argument')
    for i, (o, m) in enumerate(zip(obs, models)):
        check_obstacle(o, m, 'obstacle %d' % i)
    fresh = gen.build(probe)
    require(fresh.id() == counter + 1, 'id {} of a new obstacle, expected {}', fresh.id(), counter + 1)
    require(fresh.id() not in [m.id for m in models] and fresh.id() > 0, 'id {} of a new obstacle is used already', fresh.id())


ID = ['new', 'new', 'n', 't', 'temp', 'temporary', 'existing', 'unknown', 'negative', 'zero']
NAMES = [None, None, 'A', 'box']


@st.composite
def cases(draw):
    n = draw(st.integers(2, 9))
    b = gen.Raw(draw, 30 * n)
    ops = []
    for j in range(n):
        k = ['new', 'copy', 'copy', 'pose', 'xr', 'query', 'xr'][b.int(0, 6)]
        if not j:
            k = 'new'
        spec = draw(st.one_of(gen.ellipse_spec(), gen.star_spec(), gen.polygon_spec())) if k == 'new' else None
        if spec and spec['t'] == 'E' and b.int(0, 2) == 0:
            spec['n_pol'] = [10, 12, 30, 64][b.int(0, 3)]
        idk = ID[b.int(0, len(ID) - 1)]
        if k == 'copy':
            idk = ['duplicate', 'default', 'new', idk][b.int(0, 3)]
        ops.append([k, spec, idk, NAMES[b.int(0, 3)], b.int(0, 7), b.int(0, 7), [b.coord(3), b.coord(3), b.angle()], b.point(3)])
    return {'ops': ops}


def check_combination(case, rec):
    """Copies of combinations."""
    from obstacles import Obstacle, StarshapedPrimitiveCombination, motion_model as mm
    import shapely.geometry as sg
    obs = [gen.build(m) for m in case['o']]
    counter = Obstacle.id_counter
    xr = np.array(case['xr'], float)
    kind, new, counter = new_id(case['id'], counter, obs[0].id())
    o = StarshapedPrimitiveCombination(obs, sg.Polygon(case['hull']) if case['hull'] else None, xr=xr, id=kind, name=case['name'])
    xr += 17
    combo.warm_up(case, o)
    kind, copied, counter = new_id(case['cid'], counter, obs[-1].id())
    if case['cid'] == 'duplicate':
        kind, copied = 'duplicate', new
    c = o.copy(kind) if case['cname'] is None else o.copy(kind, case['cname'])
    name = case['name'] or str(new)
    cname = name if case['cid'] == 'duplicate' else case['cname'] or str(copied)

    def same(q, id, name, xr, what):
        require(q.id() == id and str(q) == name, '{}: id {} and name {}, expected {} and {}', what, q.id(), q, id, name)
        require(np.allclose(q.xr(), xr, rtol=0, atol=1e-12), '{}: reference point {}, expected {}', what, list(q.xr()), list(xr))
        for p in case['p']:
            want = combo.location(case, p)
            if want is not None and min(ref.boundary_distance(v, p) for v in combo.parts(case)) > 1e-9:
                require(np.sign(q.point_location(np.array(p, float))) == want, '{}: location of {} is {}, expected {}', what, p, q.point_location(np.array(p, float)), want)
        area = combo.union(case).area
        require(abs(q.polygon().area - area) < 1e-6 * max(1, area), '{}: area {}, expected {}', what, q.polygon().area, area)
    k = np.array(case['xr'], float)
    same(o, new, name, k, 'combination')
    same(c, copied, cname, k, 'copy')
    # Change the reference point, and the members, of one of them
    a, b = (o, c) if case['which'] else (c, o)
    k2 = k + [1 / 1024, -1 / 2048]
    a.set_xr(k2.copy())
    require(np.allclose(a.xr(), k2, rtol=0, atol=1e-12), 'reference point {} after setting it to {}', list(a.xr()), list(k2))
    for m in a.obstacle_cluster():
        m.set_motion_model(mm.Static([30, 30], 1))
    what = 'copy after changing the original' if case['which'] else 'original after changing the copy'
    same(b, *((copied, cname) if case['which'] else (new, name)), k, what)
    rec.hit()
    rec.label(case['cid'])


@st.composite
def combinations(draw):
    case = draw(combo.with_points())
    b = gen.Raw(draw, 8)
    kinds = ['new', 'n', 'temporary', 'temp', 't', 'existing', 'unknown', 'negative']
    case.update(id=kinds[b.int(0, 7)], cid=(kinds + ['duplicate'] * 3)[b.int(0, 10)], name=[None, 'abc'][b.int(0, 1)],
                cname=[None, 'xyz'][b.int(0, 1)], which=b.int(0, 1) == 1)
    return case


TESTS = [Test('history', cases(), check, 6000),
         Test('combination', combinations(), check_combination, 900)]
