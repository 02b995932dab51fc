"""Writes properties.jsonl and MANIFEST.json from the list below. Run from /verif: python3 tools/meta.py"""
import json

CAS = 'starshaped_hull/cluster_and_starify.py'
SH = 'starshaped_hull/starshaped_hull.py'
OB = 'obstacles/obstacle.py'
EL = 'obstacles/ellipse.py'
PO = 'obstacles/polygon.py'
SP = 'obstacles/starshaped_polygon.py'
SO = 'obstacles/starshaped_obstacle.py'
SPC = 'obstacles/starshaped_primitive_combination.py'
MM = 'obstacles/motion_model.py'
CG = 'utils/cg.py'
MI = 'utils/misc.py'

SCENE_TESTS = 'The tests run a handful of scenes with fixed seeds and mostly assert nothing about the resulting regions; '
OBST_TESTS = 'The tests plot or query a few fixed obstacles; '

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique))


prop('C01', 'A completed clustering is a disjoint, connected cover of the obstacles',
     'Whenever the clustering reports that it is complete, the returned clusters partition the given obstacles: every obstacle is a member of exactly one cluster. '
     'The region of every cluster is one connected polygon without self-intersections which covers all its member obstacles. '
     'The regions of different clusters do not intersect.',
     ['inputs'], 'every scene of ellipses, convex, starshaped and general polygons, robot and goal position and kernel size',
     SCENE_TESTS + 'the guarantee is over all scenes, including those with chains of merges.',
     [CAS], [('cluster_and_starify main loop', CAS), ('get_intersection_clusters', CAS)],
     'Random search; regions compared with an independent union of the input regions (tolerances for ellipse polygons).',
     'property-based testing: generated scenes, partition/cover/connectivity/disjointness oracle')
prop('C02', 'Clusters are starshaped with respect to their reference and kernel points',
     'In a completed clustering the region of every cluster is starshaped with respect to its reference point and to every one of its kernel points: each of these points sees every boundary point of the region along a segment in the region.',
     ['inputs'], 'every scene, robot and goal position and kernel size', SCENE_TESTS + 'starshapedness is never checked over scenes with pockets, touching or nested obstacles.',
     [CAS, SH], [('kernel point selection', CAS + ' compute_kernel_points'), ('kernel_starshaped_hull', SH)],
     'Random search; visibility of all boundary vertices (and densified edges) in the reference region of the cluster.',
     'property-based testing: generated scenes, visibility oracle')
prop('C03', 'Robot and goal are never inside a cluster; blocked positions are reported',
     'In a completed clustering neither the robot position nor the goal position is inside or on the region of any cluster. '
     'If the robot or goal position is inside an obstacle, the result is flagged as incomplete and consists of the given obstacles, one per cluster.',
     ['inputs', 'configurations'], 'every scene, robot and goal position, with and without workspace, convexification and exclusion options',
     SCENE_TESTS + 'the tests use positions far from the obstacles.', [CAS, SH],
     [('admissible kernel', SH + ' admissible_kernel'), ('flag handling', CAS)],
     'Random search with clearance to the obstacles; polygon and point query are both checked.',
     'property-based testing: generated scenes and options, exclusion invariant')
prop('C04', 'Time and iteration limits give a flagged fallback, never a half-finished result',
     'When the compute time or the number of iterations is exhausted before the clustering is complete, the result is flagged as incomplete and consists of exactly the given obstacles, one per cluster in order. '
     'When the time is exhausted while clusters are made convex, the flag says so and the result is still a sound clustering. '
     'The time is watched in every phase: exhausted at the start or two iterations before the end it gives an incomplete result. A sufficient limit does not change the result; the time limit and the reported times are in milliseconds, and the times add up to no more than the elapsed time.',
     ['inputs', 'fault_sequences', 'configurations'], 'every scene and every clock reading at which the time runs out, every iteration limit',
     'The tests never exhaust a limit; the point at which the time runs out is a schedule that a test cannot enumerate.', [CAS],
     [('max_compute_time / max_iterations', CAS + ' cluster_and_starify')],
     'The clocks are replaced by a simulated one which jumps at a generated reading; all exits are compared with the unlimited run.',
     'property-based testing with fault injection: simulated clock jumping at generated readings')
prop('C05', 'Obstacles are only merged, and clustering only given up, for a reason',
     'Starshaped obstacles which are pairwise disjoint, with free robot and goal, stay single, and a starshaped obstacle is not extended: its cluster has the exact shape of the obstacle. '
     'In every iteration the clusters are exactly the connected components of the intersecting clusters of the previous iteration. '
     'The clustering is only given up because of an empty admissible kernel of some cluster.',
     ['inputs', 'histories'], 'every scene; all iterations recorded in the returned history',
     SCENE_TESTS + 'a clustering that merges everything would pass them.', [CAS],
     [('get_intersection_clusters', CAS), ('incomplete exit', CAS)],
     'Random search; the history is replayed against own intersection graph; numerically undecided intersections are skipped.',
     'property-based testing: generated scenes, replay of the iteration history against a reference component computation')
prop('C06', 'Continuity with previous clusters',
     'Given the previous clusters of an unchanged scene, the same clusters with the same regions and kernel points are returned. '
     'A cluster whose members are the members of a previous cluster keeps the id of that cluster, and ids are unique. '
     'A previous kernel center which is still usable is kept, and otherwise the kernel center stays on the same side of the line from robot to goal where the obstacle has parts on that side.',
     ['histories', 'inputs'], 'every sequence of two or more clusterings of scenes with moving obstacles, robot and goal',
     'The single stable test moves one scene a few steps and asserts no continuity.', [CAS],
     [('previous cluster lookup', CAS), ('kernel point reuse', CAS + ' compute_kernel_points')],
     'Random search over scene sequences; metamorphic comparison of consecutive results.',
     'stateful property-based testing: sequences of clusterings, metamorphic continuity relations')
prop('C07', 'Convexified clusters are convex hulls, and only where allowed',
     'With convexification, every cluster is either as without it or exactly its convex hull; robot, goal and the other clusters are never covered by a convexified cluster. '
     'A non-convex cluster is only left as it is when its convex hull contains robot or goal or intersects another cluster.',
     ['inputs'], 'every scene for which the clustering is complete', SCENE_TESTS + 'convexification is exercised without any assertion about its result.',
     [CAS], [('make_convex', CAS + ' cluster_and_starify')], 'Random search; differential to the same run without convexification.',
     'property-based testing: differential (with/without convexification)')
prop('C08', 'Kernel points are chosen admissibly',
     'In every iteration the kernel points of every cluster lie in the admissible kernel of the cluster for robot and goal position: the rays from these positions away from the kernel points miss the obstacles of the cluster. '
     'With a workspace, an obstacle which admissibly reaches out of the workspace gets its kernel points outside of it. '
     'With exclusion of obstacles, the kernel points are also admissible for the extreme points of the other obstacles where that is possible.',
     ['inputs', 'configurations', 'histories'], 'every scene, workspace and option; all iterations in the history',
     SCENE_TESTS + 'kernel points are never compared with an independent computation.', [CAS, SH],
     [('compute_kernel_points', CAS), ('admissible_kernel', SH)],
     'Random search; rays against reference regions, independent admissible regions built from blocked directions.',
     'property-based testing: generated scenes and options, ray oracle and reference admissible kernel')
prop('C09', 'Clustering by intersection gives the connected components',
     'Grouping clusters by intersection returns exactly the connected components of the intersection graph of their regions, with every member kept once, and reports whether there was any intersection. '
     'Whether two obstacles intersect does not depend on their order and agrees with their regions.',
     ['inputs'], 'every list of obstacles, in every order', 'No test covers indirect intersections over several obstacles in different list orders.', [CAS, OB],
     [('get_intersection_clusters', CAS), ('Obstacle.intersects', OB)],
     'Random search; exact components of the reference regions; undecided (touching) pairs are skipped.',
     'property-based testing: reference union-find model')
prop('C10', 'The admissible kernel is exactly the set of unobstructed points',
     'The admissible kernel of an obstacle for a point to exclude contains exactly those points k for which the ray from the excluded point away from k misses the obstacle. '
     'It is empty for points in the obstacle and for points enclosed by it.',
     ['inputs'], 'every obstacle of any kind at any pose, every point to exclude including vertices, edges and pockets',
     'The tests plot the admissible kernel of a few obstacles.', [SH, CG], [('admissible_kernel', SH), ('Cone', CG), ('tangent_points', PO)],
     'Random search; blocked directions are computed independently from the region.',
     'property-based testing: generated obstacles and points, blocked-direction oracle')
prop('C11', 'The starshaped hull is the smallest starshaped extension',
     'The starshaped hull of one or several obstacles with given kernel points, together with the obstacles, is starshaped with respect to all these points. '
     'It is the smallest such set: every point of it is in an obstacle or on a segment from a kernel point (or the hull of the kernel points) to a point of an obstacle.',
     ['inputs'], 'every obstacle or list of obstacles, every one to three or more kernel points inside, outside or on the obstacles',
     'The tests check two constellations.', [SH, PO, SP], [('kernel_starshaped_hull', SH)],
     'Random search; shadow oracle on probe points (with distance to the decision boundary).',
     'property-based testing: generated obstacles and kernel points, membership oracle on probe points')
prop('C12', 'Points are classified as interior, boundary or exterior correctly',
     'For every obstacle (also combinations of obstacles and a hull) and point, the location reported is interior, boundary or exterior as given by the region that defines the obstacle. '
     'The interior, exterior and boundary queries agree with it and exclude each other.',
     ['inputs'], 'every obstacle, pose and point, including vertices, edges and points on bounding box sides', OBST_TESTS + 'boundary cases are not covered.',
     [EL, PO, SP], [('point_location', PO), ('point_location', EL)], 'Random search; exact rational point location for polygons, sign of the ellipse equation with a margin for ellipses.',
     'property-based testing: exact rational reference')
prop('C13', 'Queries commute with the pose of the obstacle and the frames',
     'Every geometric query on an obstacle with a pose gives the result for the obstacle without a pose, moved accordingly, for every combination of input and output frame. '
     'The extreme points of a polygon are its vertices, and those of an ellipse the vertices of a polygon which approximates it. '
     'Invalid frames are rejected with an error.',
     ['inputs', 'configurations'], 'every obstacle, pose, point, line and pair of frames', OBST_TESTS + 'frames other than the default are hardly used.',
     [OB, EL, PO, SP, SO], [('transform / rotate', OB)], 'Random search; differential to an unposed twin, transformed by independent rigid motions.',
     'property-based testing: metamorphic relation (rigid motions) over all queries')
prop('C14', 'Query results follow the current pose, whatever was asked before',
     'After any sequence of queries, motions and changes of the motion model, every query gives the result of a new obstacle which is created at the current pose.',
     ['histories'], 'every sequence of queries, motions and pose changes', 'The tests create obstacles and query them once; stale cached results need a history to show.',
     [OB, EL, PO, SP, SO], [('cached polygons and kernels', OB), ('cached global polygon', PO)],
     'Random operation sequences; differential to a fresh twin.', 'stateful (model-based) property-based testing against a fresh twin')
prop('C15', 'Motion models move as specified',
     'For every motion model and every sequence of time steps, the pose is the one obtained by integrating the specified velocities step by step, the velocities asked for are those used in the next step, and asking does not change anything. '
     'Waypoint models move towards the waypoints in the given order, each until it is reached within the threshold, and stop after the last one; interval models pass the given positions at the given times, with constant velocity in between, and stay at (or return to) the last one. '
     'The velocity of a point on an obstacle that does not rotate is the velocity of its motion model, and zero without one.',
     ['histories', 'inputs'], 'every parametrisation and every sequence of time steps', 'No test asserts a motion.', [MM, OB],
     [('move', MM)], 'Random search; independent reference integration.', 'stateful property-based testing: reference model of the motion')
prop('C16', 'The kernel of a starshaped obstacle is exact',
     'The kernel of an obstacle, or of a combination of obstacles and a hull, contains exactly the points which see the whole region, and is reported as empty exactly if there are none. '
     'The default reference point of a starshaped obstacle is in its kernel.',
     ['inputs'], 'every starshaped, convex or general polygon and ellipse, every vertex order', OBST_TESTS + 'kernels are plotted, not checked.',
     [SP, EL, SO], [('_compute_kernel', SP), ('set_xr', SO)], 'Random search; independent half-plane clipping and point-wise visibility.',
     'property-based testing: half-plane clipping reference')
prop('C17', 'Radial mapping, distance function and normals are consistent',
     'The boundary mapping of a point is the boundary point in its direction from the reference point; the distance function is 1 there, less inside, more outside and consistent with the mapping along the ray. '
     'The reference direction points from the reference point to the query point with unit length; normals are unit vectors, and the default one is the outward normal of the boundary at the mapped point. '
     'This holds for ellipses, starshaped polygons and combinations of obstacles and a hull, with any reference point in the kernel or on its boundary.',
     ['inputs'], 'every starshaped obstacle with any reference point in its kernel, every point except the reference point', OBST_TESTS + 'single points are checked.',
     [SO, SP, EL], [('boundary_mapping', SO), ('distance_function', SO), ('normal', SP)], 'Random search; exact ray casting; only documented parts of the weighted normals are asserted.',
     'property-based testing: ray casting reference')
prop('C18', 'Tangent points are the extreme boundary points seen from a point',
     'The tangent points of an obstacle (or a combination of obstacles and a hull) from an exterior point are on its boundary, the whole obstacle is between the two tangent directions, and the first one is the left one as seen from the point. '
     'There are none exactly for points in the obstacle or enclosed by it.',
     ['inputs'], 'every obstacle, combination, pose and point, including points on edge lines and in pockets', OBST_TESTS + 'few points, no degenerate directions.',
     [EL, PO, SP], [('tangent_points', PO), ('tangent_points', EL)], 'Random search; angular range of the reference region.',
     'property-based testing: angular range oracle')
prop('C19', 'Line intersections are sound and complete',
     'Every point returned as intersection of a segment with an obstacle or a combination of obstacles and a hull is on the segment and on the boundary of the obstacle. '
     'Every crossing of the boundary by the segment is returned, and the end points of every common part with an edge.',
     ['inputs'], 'every obstacle, pose and segment, including segments through vertices and along edges', OBST_TESTS + 'a few lines are checked.',
     [EL, PO, SP], [('line_intersection', PO), ('line_intersection', EL)], 'Random search; exact rational crossings, roots of the ellipse equation.',
     'property-based testing: exact rational reference')
prop('C20', 'Dilated obstacles are grown by the padding',
     'A dilated obstacle contains all points within the padding of the obstacle and no points clearly farther away, and is at the same pose. '
     'All its queries are consistent with its own region and the original obstacle does not change.',
     ['inputs'], 'every obstacle, pose and padding', 'Dilation is not tested.', [EL, PO, SP], [('dilated_obstacle', PO), ('dilated_obstacle', EL)],
     'Random search; distances to the original region (documented approximations for ellipses allowed).', 'property-based testing: distance oracle')
prop('C21', 'Results do not depend on how a polygon is listed',
     'Polygons given with another first vertex, the other orientation or with additional vertices on edges behave equally in all queries. '
     'Area and convexity are those of the region.',
     ['inputs'], 'every polygon and every equivalent vertex list', 'The tests use one vertex list per polygon.', [PO, SP, OB],
     [('vertices', PO), ('_check_convexity', PO)], 'Random search; metamorphic comparison of the listings; exact area and convexity.',
     'property-based testing: metamorphic relation (vertex lists), exact area')
prop('C22', 'Unique ids, independent copies and no data shared with the caller',
     'New obstacles have unique ids, temporary ones none, and duplicates that of the original. '
     'A copy equals the original (pose, region, reference point), and changing the pose model or reference point of one does not change the other. '
     'No operation changes its arguments, and changing data that was passed in before (vertices, reference points, positions) does not change the obstacle.',
     ['histories'], 'every sequence of creations, copies, modifications and queries', 'No test checks aliasing; it needs a sequence of operations on two obstacles.',
     [OB, PO, SP, EL, MM, SO], [('copy', OB), ('_set_id_name', OB)], 'Random operation sequences with snapshots; motion models are shared by the documented copies.',
     'stateful property-based testing: snapshots and fresh twins')
prop('C23', 'A combination of obstacles and a hull behaves as their union',
     'A combined starshaped obstacle has the union of its members and hull as region, and its point location, boundary mapping, distance function, line intersections and kernel are those of this region. '
     'Its normal is the one of the outermost part and its velocity that of the outermost member in the direction of the query point.',
     ['inputs', 'histories'], 'every set of members with a hull for common kernel points, every point and segment, after any previous queries', 'The tests run a clustering and never query the combination.',
     [SPC, SH, CG], [('StarshapedPrimitiveCombination', SPC), ('polygon_union', CG)], 'Random search; reference union of the parts; ellipse members with polygon tolerance.',
     'property-based testing: differential to a reference union')
prop('C24', 'Cones are counterclockwise angular ranges',
     'A point is reported in a cone, and is in the polygon of the cone, exactly if its direction from the apex is in the counterclockwise range from the first to the second direction. '
     'Intersections of two or more cones, with a common apex or not, are exactly the common points.',
     ['inputs'], 'all apexes and directions (axis parallel, diagonal, shared, opposite), convex and non-convex cones', 'One test with a few cones.', [CG],
     [('Cone', CG)], 'Random search; exact orientation signs; points with an angular margin.', 'property-based testing: angular range reference')
prop('C25', 'Planar predicates and line constructions are exact on representable input',
     'Orientation, betweenness and segment intersection predicates give the mathematically correct answer, also for collinear, touching and degenerate constellations. '
     'Intersections of lines, segments and rays are returned exactly if they exist; the rigid transformation is correct and its inverse undoes it.',
     ['inputs'], 'all constellations of points on grids, including degenerate ones, and all rotations and translations', 'Tests cover a few triples.',
     [CG], [('orientation predicates', CG), ('get_intersection', CG), ('Line, LineSegment, Ray', CG), ('affine_transform', CG)],
     'Random search with exact rational reference.', 'property-based testing: exact rational reference')
prop('C26', 'The convex hull consists of exactly the extreme points in counterclockwise order',
     'The convex hull of any list of points consists of exactly its extreme points, each once, in counterclockwise order, and is found in finite time also for repeated or collinear points.',
     ['inputs'], 'every list of points, with repeated and collinear points', 'One random point set is tested.', [CG], [('convex_hull', CG)],
     'Random search; exact reference hull.', 'property-based testing: exact reference hull')
prop('C27', 'Random generators give polygons of the promised kind',
     'For every random state and size, the generated convex polygon is convex, centered and fits the given box, and the generated star polygon has the given number of vertices in counterclockwise order around the center within twice the radius; invalid parameters are rejected. '
     'Equilateral triangles have the given centroid, side length and rotation, and random triangle points are in the triangle and reach all parts of it.',
     ['inputs'], 'every size, box, parameter and random state', 'The tests sample one random state per run.', [CG],
     [('generate_convex_polygon', CG), ('generate_star_polygon', CG), ('equilateral_triangle', CG)], 'Random search over parameters and random states.',
     'property-based testing: invariants of generated polygons')
prop('C28', 'Drawing shows obstacles and clusters where they are',
     'A drawn obstacle is shown as its region at its pose in the chosen frame, with reference point and name where asked for, and follows the obstacle with every plot update. '
     'The drawings of a clustering show all obstacles, cluster regions, admissible kernels with kernel points, robot and goal, and change nothing. '
     'Rays and cones are drawn where they are.',
     ['inputs', 'histories'], 'every obstacle, pose history and drawing option, every clustered scene', 'The tests draw without looking at the result.',
     [EL, PO, SP, SPC, CAS, MI], [('init_plot / update_plot', PO), ('draw functions', CAS), ('draw_shapely_polygon', MI)], 'Random search; shapes of the drawn patches in data coordinates.',
     'stateful property-based testing: drawn patches against reference regions')


prop('C29', 'Calls leave what they are given as it was',
     'A clustering leaves the given positions, list of obstacles, the id, name, pose and region of every obstacle, the workspace and the previous clusters (their members, regions and kernel points) unchanged, and its result is not changed by a later clustering. '
     'Queries of obstacles, hull and kernel computations, grouping by intersection and the geometric functions change neither their arguments nor the obstacles they are asked of; changing a point in a returned list changes no obstacle.',
     ['inputs', 'histories', 'configurations'], 'every scene, option, sequence of clusterings, obstacle, point and query', 'The tests look at results only; a changed argument shows in a later step with the same data.',
     [CAS, SH, OB, EL, PO, SP, SO, CG], [('cluster_and_starify', CAS), ('get_intersection_clusters', CAS), ('queries', OB)],
     'Random search; snapshots of all arguments (the reference point of starshaped obstacles may be moved by the clustering, within the obstacle).',
     'stateful property-based testing: snapshots of all arguments before and after')

prop('C30', 'A clustering is determined by the scene',
     'Clustering the same scene again gives the same clusters, regions and kernel points, and so do the options that only concern reporting and limits which are not reached. '
     'The result does not depend on the order in which the obstacles are given, on their ids, nor on the place of the scene: a translated scene gives the translated clusters. '
     '(Scenes in which obstacles or clusters touch within rounding, or with ties, are excepted for the order, ids and place.)',
     ['inputs', 'configurations'], 'every scene, order of the obstacles, id, translation and reporting option', SCENE_TESTS + 'relations between the results of several runs are not looked at.',
     [CAS, SH, SPC, CG], [('cluster_and_starify', CAS), ('get_intersection_clusters', CAS), ('Cone', CG)],
     'Random search; metamorphic relations. A difference counts if random changes of the coordinates by 1e-6 to 1e-13 do not change the clustering.',
     'property-based testing: metamorphic relations (repetition, permutation, renaming, translation) between clusterings')

prop('C31', 'Results do not depend on the unit of length or the orientation of the axes',
     'Scaling, mirroring or turning (by right angles) the whole input of a query scales, mirrors or turns its result: location of points, boundary mapping, reference direction, normals, '
     'tangent points (left and right change sides in a mirrored scene), line intersections, polygon, kernel, reference point, convexity and dilated region of an obstacle or combination, '
     'whether two obstacles intersect, and admissible kernels and starshaped hulls.',
     ['inputs'], 'every obstacle, combination and query, and every such transformation', OBST_TESTS + 'sizes and orientations are always the same ones.',
     [PO, SP, EL, SPC, SH, CG], [('queries of obstacles', PO), ('tangent points and line intersections of ellipses', EL), ('starshaped hull', SH)],
     'Random search; metamorphic relation with exact transformations (powers of two, signed permutations of the axes).',
     'property-based testing: metamorphic relation (exact similarity transformations) between queries')
prop('C32', 'The form in which numbers are given does not matter',
     'Integer coordinates (also in lists or tuples where those are accepted), strided and read-only arrays give the same results as arrays of floats with the same numbers: '
     'for the vertices, semi-axes, positions and reference points of obstacles, query points and segments, kernel points, motion models and time steps, the geometric functions and a whole clustering.',
     ['inputs'], 'every obstacle, query, motion and scene with integer coordinates, every form of the numbers', OBST_TESTS + 'almost all numbers are floats.',
     [OB, PO, SP, EL, MM, CG, SH, CAS], [('constructors and queries of obstacles', OB), ('motion models', MM), ('geometric functions', CG)],
     'Random search; differential against the same call with arrays of floats.',
     'property-based testing: differential between forms of the same numbers')


import os
if os.path.exists('tools/meta_more.py'):
    exec(open('tools/meta_more.py').read())

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')

with open('MANIFEST.json', 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash check.sh --selftest',
        'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'],
                    'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
                    'technique': p['technique'], 'level': 'exploration',
                    'level_note': p['level_note']} for p in P],
        'not_applicable': [],
        'notes': 'Hypothesis (from the tooling venv, appended to the import path) drives the code in /repo with /opt/venv/bin/python. '
                 'No hooks in /repo. A failure is shrunk to a replay file: bash check.sh --replay FILE. '
                 'VERIF_REPO selects another tree for experiments; the registered commands use /repo.'}, f, indent=1)
