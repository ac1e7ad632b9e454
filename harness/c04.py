from fractions import Fraction as F
from symx.harness import harness
from .common import *
from . import geom as G

FUNCTIONS = ['geom_impact_ellip.ellip_cham_geom_object.is_outside', 'geom_impact_poly_fast_impact.polyg_cham_geom_object (constructor, is_outside, is_convex, vertex_is_on_edge, vertexes_are_subset)', 'geom_impact_poly_cython.is_outside_convex / is_outside_nonconvex (Cython)',
             'geom_impact_poly.polyg_cham_geom_object.is_outside (numpy)', 'geom_impact_rect_fast_impact.rect_cham_geom_object']
BOUNDS = ['points: every real point, 1 to 3 at a time', 'ellipse: arbitrary positive semi-axes; rectangle: arbitrary positive apertures',
          'polygons: nine fixed shapes (5 convex, 4 concave, with collinear vertices) and triangles with arbitrary vertices', 'convexity: fixed polygons with one vertex moved anywhere that keeps the polygon simple, both orientations']
ASSUMPTIONS = ['Exact real arithmetic.', 'The inscribed ellipse of the chamber description lies inside the polygon (a point inside it is inside the chamber).', 'Polygons are simple (edges do not cross).']


@harness('C04', [dict(n=1), dict(n=2)])
def ellipse(env, n):
    a, b = env.real('a', slo=0), env.real('b', slo=0)
    ch = env.mod('geom_impact_ellip').ellip_cham_geom_object(a, b, flag_verbose_file=False)
    x, y = env.reals('x', n), env.reals('y', n)
    out = ch.is_outside(x, y)
    for i in range(n):
        # (x/a)^2 + (y/b)^2 >= 1, multiplied out
        env.check(env.Iff(out[i], (x[i] * b) * (x[i] * b) + (y[i] * a) * (y[i] * a) >= a * a * b * b), 'ellipse: outside exactly on or beyond the wall')
        env.check(env.Or(out[i], env.And(abs(x[i]) < ch.x_aper, abs(y[i]) < ch.y_aper)), 'ellipse: apertures bound every inside point')
    env.check(ch.is_convex() is True, 'an ellipse is convex')


@harness('C04', [dict(n=1, how='aper', convex=True), dict(n=2, how='aper', convex=True), dict(n=1, how='aper', convex=False)])
def rectangle(env, n, how, convex):
    a, b = env.real('a', env.q(1, 1000), 10), env.real('b', env.q(1, 1000), 10)
    ch = env.mod('geom_impact_rect_fast_impact').rect_cham_geom_object(a, b, 0, flag_assume_convex=convex)
    x, y = env.reals('x', n), env.reals('y', n)
    out = ch.is_outside(x, y)
    for i in range(n):
        ins = env.And(abs(x[i]) < a, abs(y[i]) < b)
        env.check(env.Implies(ins, env.Not(out[i])), 'rectangle: interior points are inside')
        far = env.Or(abs(x[i]) > a, abs(y[i]) > b) if not convex else env.Not(ins)
        env.check(env.Implies(far, out[i]), 'rectangle: points beyond the wall are outside')
        env.check(env.Or(out[i], env.And(abs(x[i]) <= ch.x_aper, abs(y[i]) <= ch.y_aper)), 'apertures bound every inside point')


CONVEX = [k for k, v in G.POLY.items() if v[2]]
CONCAVE = [k for k, v in G.POLY.items() if not v[2]]


@harness('C04', [dict(poly=p, impl=i, n=1) for p in CONVEX for i in ('convex', 'nonconvex', 'numpy')] + [dict(poly=p, impl='nonconvex', n=1) for p in CONCAVE] +
         [dict(poly='rect', impl='convex', n=2), dict(poly='diamond', impl='numpy', n=2), dict(poly='bay', impl='nonconvex', n=2)],
         [dict(poly=p, impl=i, n=n) for p in CONVEX for i in ('convex', 'nonconvex', 'numpy') for n in (1, 2)] + [dict(poly=p, impl='nonconvex', n=n) for p in CONCAVE for n in (1, 2)] +
         [dict(poly='tri', impl='numpy', n=3), dict(poly='tri', impl='convex', n=3)])
def polygon(env, poly, impl, n):
    V, ell, convex = G.POLY[poly]
    ch = G.chamber(env, poly, impl)
    x, y = env.reals('x', n), env.reals('y', n)
    out = ch.is_outside(x, y)
    env.check(len(out) == n, 'one answer per point')
    for i in range(n):
        p = (x[i], y[i])
        env.check(env.Implies(G.inside(env, V, p), env.Not(out[i])), 'interior points are inside')
        env.check(env.Implies(env.Not(G.in_closed(env, V, p)), out[i]), 'points beyond the wall are outside')
        if impl != 'nonconvex':
            env.check(env.Implies(G.on_wall(env, V, p), out[i]), 'points on the wall are outside')
        env.check(env.Or(out[i], env.And(abs(p[0]) <= ch.x_aper, abs(p[1]) <= ch.y_aper)), 'apertures bound every inside point')
    env.check(ch.N_vert == len(V) and ch.N_edg == len(V), 'number of vertices')


@harness('C04', [dict(impl=i) for i in ('convex', 'nonconvex')])
def any_triangle(env, impl):
    """arbitrary counter-clockwise triangle around, beside or through a point outside the inscribed ellipse"""
    P = [(env.real('X%d' % i, -10, 10), env.real('Y%d' % i, -10, 10)) for i in range(3)]
    env.assume(G.cross(*P) > 0)
    for a, b in G.edges(P): env.assume(env.Or(abs(a[0] - b[0]) > env.q(1, 1000), abs(a[1] - b[1]) > env.q(1, 1000)))
    r = env.q(1, 100)
    d = {'Vx': env.array([p[0] for p in P], 'f'), 'Vy': env.array([p[1] for p in P], 'f'), 'x_sem_ellip_insc': r, 'y_sem_ellip_insc': r}
    ch = env.mod('geom_impact_poly_fast_impact').polyg_cham_geom_object(d, 0, flag_assume_convex=(impl == 'convex'))
    x, y = env.q(1, 2), env.q(-1, 3)       # any point relative to the triangle, by translation
    p = (x, y)
    out = ch.is_outside(env.array([x], 'f'), env.array([y], 'f'))[0]
    s = [G.cross(a, b, p) for a, b in G.edges(P)]
    env.check(env.Implies(env.And(*[k > 0 for k in s]), env.Not(out)), 'interior points are inside')
    env.check(env.Implies(env.Or(*[k < 0 for k in s]), out), 'points beyond the wall are outside')


def simple_at(env, V, k, P):
    """moving vertex k to P keeps the polygon simple (no crossing with the other edges, no degenerate corner)"""
    n = len(V)
    W = [G.q(env, v) for v in V]; W[k] = P
    pr, nx = W[k - 1], W[(k + 1) % n]
    cs = []
    for (a, b) in ((k, (k + 1) % n), ((k - 1) % n, k)):
        for j in range(n):
            c, d = j, (j + 1) % n
            if {c, d} & {a, b}: continue
            o = lambda i, j, l: G.cross(W[i], W[j], W[l])
            # strictly separated by one of the two lines
            cs.append(env.Or(env.And(o(a, b, c) > 0, o(a, b, d) > 0), env.And(o(a, b, c) < 0, o(a, b, d) < 0),
                             env.And(o(c, d, a) > 0, o(c, d, b) > 0), env.And(o(c, d, a) < 0, o(c, d, b) < 0)))
    cs.append(G.cross(pr, P, nx) != 0)
    for o in (pr, nx): cs.append(env.Or(abs(P[0] - o[0]) > env.q(1, 1000), abs(P[1] - o[1]) > env.q(1, 1000)))
    for j in range(n):
        for i in ((j + 1) % n,):
            cs.append(G.cross(W[j - 1], W[j], W[i]) != 0)
    return env.And(*cs), W


BASE = {'quad': [(2, 1), (-2, 1), (-2, -1), (2, -1)], 'penta': [(3, 0), (1, 3), (-2, 2), (-3, -1), (1, -3)], 'arrow': [(4, 3), (0, 1), (-4, 3), (0, -3)], 'hexa': [(4, 3), (0, 6), (-4, 3), (-4, -3), (0, -6), (4, -3)]}


@harness('C04', [dict(base=b, k=k) for b, k in (('quad', 0), ('quad', 1), ('quad', 2), ('quad', 3), ('penta', 0), ('penta', 3), ('penta', 4), ('arrow', 1))],
         [dict(base=b, k=k) for b in BASE for k in range(len(BASE[b]))])
def convexity(env, base, k):
    """a polygon is accepted as convex exactly when no vertex lies beyond the line of any edge; clockwise ones are rejected"""
    V = BASE[base]
    M = env.mod('geom_impact_poly_fast_impact')
    P = (env.real('px', -9, 9), env.real('py', -9, 9))
    ok, W = simple_at(env, V, k, P)
    env.assume(ok)
    area2 = env.sum([a[0] * b[1] - a[1] * b[0] for a, b in G.edges(W)])
    env.assume(env.Or(area2 > env.q(1, 1000), area2 < env.q(-1, 1000)))
    r = env.q(1, 100)
    d = {'Vx': env.array([p[0] for p in W], 'f'), 'Vy': env.array([p[1] for p in W], 'f'), 'x_sem_ellip_insc': r, 'y_sem_ellip_insc': r}
    try:
        ch = M.polyg_cham_geom_object(d, 0, flag_assume_convex=False)
        rej = False
    except M.PyECLOUD_ChamberException:
        rej = True
    env.check(env.Iff(rej, area2 < 0), 'clockwise vertices are rejected, counter-clockwise ones accepted')
    if rej: return
    env.eq(ch.area * 2, area2, 'area of the chamber')
    conv = env.And(*[G.cross(a, b, p) >= 0 for a, b in G.edges(W) for p in W if p is not a and p is not b])
    env.check(env.Iff(ch.is_convex(), conv), 'convexity is detected exactly')
    try:
        M.polyg_cham_geom_object(d, 0, flag_assume_convex=True)
        rej = False
    except M.PyECLOUD_ChamberException:
        rej = True
    env.check(env.Iff(rej, env.Not(conv)), 'a polygon that is not convex is rejected where convexity is assumed')


@harness('C04', [dict(k=k, photo=p) for k in (0, 1, 3, 'close') for p in (False, True)])
def degenerate(env, k, photo):
    """repeated vertices (also the closing one) are rejected"""
    V = list(G.POLY['rect'][0])
    if k == 'close': V = V + [V[0]]
    else: V.insert(k, V[k])
    M = env.mod('geom_impact_poly_fast_impact')
    d = G.chamb_dict(env, V, G.POLY['rect'][1])
    d['phem_cdf'] = env.array([env.q(i + 1, 5) for i in range(5)], 'f')
    env.check(env.raises(M.PyECLOUD_ChamberException, M.polyg_cham_photoemission if photo else lambda d: M.polyg_cham_geom_object(d, 0), d), 'an edge of zero length is rejected')


@harness('C04', [dict(poly=p) for p in ('rect', 'diamond', 'collinear', 'L', 'bay')], [dict(poly=p) for p in G.POLY])
def on_edge(env, poly):
    V = G.POLY[poly][0]
    ch = G.chamber(env, poly, 'nonconvex')
    p = (env.real('x'), env.real('y'))
    env.check(env.Iff(ch.vertex_is_on_edge(*p), G.on_wall(env, V, p)), 'a point is found on an edge exactly when it lies on the wall')


@harness('C04', [dict(poly='rect'), dict(poly='diamond')])
def same_shape(env, poly):
    """refined segments of the same shape are accepted, any other shape is not"""
    V, ell, _ = G.POLY[poly]
    M = env.mod('geom_impact_poly_fast_impact')
    ch = G.chamber(env, poly, 'convex')
    p = (env.real('x', -9, 9), env.real('y', -9, 9))
    W = [G.q(env, v) for v in V]
    W.insert(1, p)       # between vertex 0 and vertex 1
    for i in (0, 2): env.assume(env.Or(abs(p[0] - W[i][0]) > env.q(1, 1000), abs(p[1] - W[i][1]) > env.q(1, 1000)))
    e = G.q(env, ell)
    d = {'Vx': env.array([w[0] for w in W], 'f'), 'Vy': env.array([w[1] for w in W], 'f'), 'x_sem_ellip_insc': e[0], 'y_sem_ellip_insc': e[1]}
    try:
        other = M.polyg_cham_geom_object(d, 0, flag_assume_convex=False)
    except M.PyECLOUD_ChamberException:
        return
    env.assume(env.Not(env.And(G.on_wall(env, V, p), env.Not(G.on_edge(env, V[0], V[1], p)))))
    env.check(env.Iff(ch.vertexes_are_subset(other), G.on_edge(env, V[0], V[1], p)), 'same shape recognised exactly')
