"""Line intersections: all returned points are on the segment and the boundary, and no crossing of the boundary is missed."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.core import Skip, Test, require

RULE = 'the segment meets the boundary'


def crossings(spec, p, q):
    """(proper crossings, whether these are all) of the segment p-q with the boundary, obstacle frame."""
    if spec['t'] == 'E':
        a = np.array(spec['a'])
        u, w = np.array(p) / a, np.array(q) / a
        d = w - u
        A, B, C = d.dot(d), u.dot(d), u.dot(u) - 1
        D = B * B - A * C
        if abs(D) < 1e-7 * A:
            return [], False
        if D < 0:
            return [], True
        out, sure = [], True
        for s in ((-B - math.sqrt(D)) / A, (-B + math.sqrt(D)) / A):
            if abs(s) < 1e-9 or abs(s - 1) < 1e-9:
                sure = False
            elif 0 < s < 1:
                out.append((u + s * d) * a)
        return out, sure
    v = spec['v']
    out, sure = [], True
    for i in range(len(v)):
        a, b = v[i - 1], v[i]
        if not ref.segments_intersect(p, q, a, b):
            continue
        if 0 in (ref.side(p, q, a), ref.side(p, q, b), ref.side(a, b, p), ref.side(a, b, q)):
            sure = False
            continue
        out.append(ref.line_point(p, q, a, b)[0])
    return out, sure


def check(case, rec):
    from obstacles import Frame
    spec, pose = case['o'], case['o'].get('pose')
    o = gen.build(spec)
    for p, q in case['lines']:
        if p == q:
            continue
        want, sure = crossings(spec, p, q)
        for glob in (False, True):
            frame = Frame.GLOBAL if glob else Frame.OBSTACLE
            if glob and pose is None:
                continue
            tr = (lambda y: ref.fwd(pose, y)) if glob else (lambda y: np.array(y, float))
            got = o.line_intersection([tr(p), tr(q)], input_frame=frame, output_frame=frame)
            back = [ref.inv(pose, g) if glob else np.asarray(g) for g in got]
            rec.hit(len(back) > 0)
            what = 'segment %s-%s, %s frame' % (p, q, 'global' if glob else 'obstacle')
            for g in back:
                require(g.shape == (2,) and np.all(np.isfinite(g)), 'bad point {} ({})', g, what)
                require(ref.point_segment_distance(g, p, q) < 1e-6, 'point {} is not on the segment ({})', list(g), what)
                if spec['t'] == 'E':
                    f = math.hypot(g[0] / spec['a'][0], g[1] / spec['a'][1])
                    require(abs(f - 1) < 1e-6, 'point {} is not on the boundary ({})', list(g), what)
                else:
                    require(ref.boundary_distance(spec['v'], g) < 1e-6, 'point {} is not on the boundary ({})', list(g), what)
            for w in want:
                require(any(np.linalg.norm(g - w) < 1e-6 for g in back), 'crossing at {} is missing in {} ({})', list(w), [list(g) for g in back], what)
            if sure:
                rec.label('general position')
                # Every point is one of the crossings
                for g in back:
                    require(any(np.linalg.norm(g - w) < 1e-6 for w in want), 'point {} is not a crossing ({})', list(g), what)
                require(len(got) == len(want), '{} points, {} crossings ({})', len(got), len(want), what)
            elif not glob and spec['t'] != 'E':
                rec.label('degenerate')
                # Touching points count as well, when they are exact
                for v in spec['v']:
                    if ref.on_segment(v, p, q):
                        require(any(np.linalg.norm(g - np.array(v)) < 1e-6 for g in back) or inner(spec['v'], v, p, q), 'vertex {} on the segment is missing in {} ({})', v,
                                [list(g) for g in back], what)
                for s in overlaps(spec['v'], p, q):
                    for e in s:
                        rec.label('overlap')
                        require(any(np.linalg.norm(g - np.array(e)) < 1e-6 for g in back), 'end point {} of the common part with an edge is missing in {} ({})', e,
                                [list(g) for g in back], what)


def inner(v, w, p, q):
    """The vertex w is inside of (or at) the common part of the segment with edges."""
    return any(ref.side(p, q, v[i - 1]) == 0 and ref.side(p, q, v[i]) == 0 and ref.on_segment(w, v[i - 1], v[i]) for i in range(len(v)))


def overlaps(v, p, q):
    """Maximal common parts of the segment p-q with edges (more than a point)."""
    c = 0 if p[0] != q[0] else 1
    lo, hi = min(p[c], q[c]), max(p[c], q[c])
    ends = {p[c]: p, q[c]: q}
    out = []
    for i in range(len(v)):
        if ref.side(p, q, v[i - 1]) == 0 and ref.side(p, q, v[i]) == 0:
            ends.setdefault(v[i][c], v[i])
            ends.setdefault(v[i - 1][c], v[i - 1])
            a, b = max(lo, min(v[i - 1][c], v[i][c])), min(hi, max(v[i - 1][c], v[i][c]))
            if a < b:
                out.append([a, b])
    out.sort()
    merged = []
    for a, b in out:
        if merged and a <= merged[-1][1]:
            merged[-1][1] = max(b, merged[-1][1])
        else:
            merged.append([a, b])
    return [(ends[a], ends[b]) for a, b in merged]


def combination(case, rec):
    """Every point is on the boundary of a member or the hull, and every crossing of the boundary of the union is found."""
    o, _ = combo.build(case)
    combo.warm_up(case, o)
    P = combo.parts(case)
    for p, q in case['lines']:
        if p == q:
            continue
        got = [np.asarray(g) for g in o.line_intersection([np.array(p, float), np.array(q, float)])]
        what = 'segment %s-%s' % (p, q)
        rec.hit(len(got) > 0)
        for g in got:
            require(g.shape == (2,) and np.all(np.isfinite(g)), 'bad point {} ({})', g, what)
            require(ref.point_segment_distance(g, p, q) < 1e-6, 'point {} is not on the segment ({})', list(g), what)
            require(min(ref.boundary_distance(v, g) for v in P) < 1e-6, 'point {} is not on the boundary of a member or the hull ({})', list(g), what)
        want = []
        for v in P:
            want += crossings({'t': 'P', 'v': v}, p, q)[0]
        for w in want:
            # Not inside of the other parts
            others = [ref.locate(v, w) for v in P if ref.boundary_distance(v, w) > 1e-9]
            if -1 not in others:
                rec.label('outer crossing')
                require(any(np.linalg.norm(g - w) < 1e-6 for g in got), 'crossing at {} is missing in {} ({})', list(w), [list(g) for g in got], what)




@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 60)
    lines = [[b.point(4), b.point(4)] for _ in range(3)]
    if o['t'] == 'E':
        # Vertical and horizontal lines, and through the center
        x, y = b.coord(1.5, 64), b.coord(1.5, 64)
        lines += [[[x, -3], [x, 3]], [[3, y], [-3, y]], [[-x, -y], [3 * x, 3 * y]]]
    else:
        v = o['v']
        for _ in range(4):
            i, j, s, t = b.int(0, len(v) - 1), b.int(0, len(v) - 1), b.coord(2), b.coord(2)
            lines.append([[v[i][k] + s * (v[j][k] - v[i][k]) for k in (0, 1)], [v[i][k] + t * (v[j][k] - v[i][k]) for k in (0, 1)]])
    return {'o': o, 'lines': lines}


P = gen.pose()
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P)), check, 4000),
    Test('starshaped', gen.off_center(cases(gen.star_spec(P)), ['lines']), check, 3000),
    Test('combination', combo.with_points(), combination, 3000),
    Test('polygon', gen.off_center(cases(gen.polygon_spec(P)), ['lines']), check, 4000),
]
