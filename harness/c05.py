from fractions import Fraction as F
from symx.harness import harness
from .common import *
from . import geom as G

FUNCTIONS = ['geom_impact_ellip.ellip_cham_geom_object.impact_point_and_normal', 'geom_impact_poly_fast_impact.polyg_cham_geom_object.impact_point_and_normal', 'geom_impact_poly_cython.impact_point_and_normal, is_outside_convex, is_outside_nonconvex (Cython)',
             'geom_impact_poly.polyg_cham_geom_object.impact_point_and_normal (numpy)', 'geom_impact_rect_fast_impact.rect_cham_geom_object']
BOUNDS = ['one particle (two for mixing) with every start point strictly inside and every end point on or beyond the wall, within 12 units', 'nine fixed polygon shapes; for each either the start point, the end point or the direction is one of a few fixed ones and the rest arbitrary; rectangles with arbitrary apertures', 'ellipse: from the centre to anywhere, along the axes of an arbitrary ellipse, and along 18 (thorough: 21) fixed lines of a 2x1 ellipse with arbitrary length', 'safety factor 0.99 (default) and 1/2']
ASSUMPTIONS = ['Exact real arithmetic.', 'The inscribed ellipse lies inside the polygon.', 'Polygonal chambers do not compute the longitudinal position of the impact (it is set to zero).']


def check_impact(env, V, P, Q, got, resc, label=''):
    """got = (x, y, Nx, Ny, i) for a particle that went from P (inside) to Q (not inside)"""
    x, y, Nx, Ny, i = got
    E_ = G.edges(V)
    i = next((k for k in range(len(E_)) if bool(i == k)), None)
    env.check(i is not None, label + 'the segment that was hit is one of the chamber\'s segments')
    a, b = [G.q(env, p) for p in E_[i]]
    si, so = G.cross(a, b, P), G.cross(a, b, Q)
    den = si - so                        # t = si / den
    ca, cb = G.cross(P, Q, a), G.cross(P, Q, b)
    env.check(env.Or(den > 0, env.And(den < 0, env.Or(ca == 0, cb == 0))), label + 'the segment is crossed from the inside (at a vertex either adjacent segment will do)')
    if not bool(den > 0): si, so, den = -si, -so, -den
    env.check(so <= 0, label + 'the impact is not beyond the end point')
    env.check(si >= 0, label + 'the impact is not before the start point')
    env.eq(x * den, P[0] * den + resc * si * (Q[0] - P[0]), label + 'impact point on the path (x)')
    env.eq(y * den, P[1] * den + resc * si * (Q[1] - P[1]), label + 'impact point on the path (y)')
    env.check(ca * cb <= 0, label + 'the path crosses the segment between its end points')
    for j, (c, d) in enumerate(E_):
        if j == i: continue
        c, d = G.q(env, c), G.q(env, d)
        sj, oj = G.cross(c, d, P), G.cross(c, d, Q)
        cc, cd = G.cross(P, Q, c), G.cross(P, Q, d)
        crossed = env.And(sj > 0, oj <= 0, cc <= 0, cd >= 0) if True else None
        env.check(env.Implies(crossed, sj * den >= si * (sj - oj)), label + 'no other segment is met earlier')
    (ax, ay), (bx, by) = [(F(p[0]), F(p[1])) for p in E_[i]]
    L = env.sqrt(env.q(((bx - ax) ** 2 + (by - ay) ** 2).numerator, ((bx - ax) ** 2 + (by - ay) ** 2).denominator))
    env.eq(Nx * L, env.q((ay - by).numerator, (ay - by).denominator), label + 'inward unit normal of the segment (x)')
    env.eq(Ny * L, env.q((bx - ax).numerator, (bx - ax).denominator), label + 'inward unit normal of the segment (y)')


CONVEX = [k for k, v in G.POLY.items() if v[2]]
ALL = list(G.POLY)


def run(env, ch, Ps, Qs, resc):
    A = lambda L, k: env.array([p[k] for p in L], 'f')
    z = env.array([env.q(0)] * len(Ps), 'f')
    kw = {} if resc is None else dict(resc_fac=resc)
    return ch.impact_point_and_normal(A(Ps, 0), A(Ps, 1), z, A(Qs, 0), A(Qs, 1), z, **kw)


# rational start points inside / end points outside, and directions of motion
STARTS = {'rect': [(F(1, 2), F(1, 4)), (F(-3, 2), F(1, 2))], 'diamond': [(F(1, 2), F(-1, 3)), (0, 0)], 'tri': [(0, -1), (F(-2), F(-7, 4))], 'collinear': [(0, F(1, 2)), (F(1), F(-1, 2))], 'hexa': [(0, 0), (F(-3), F(3))],
          'L': [(F(5, 2), 0), (0, F(5, 2)), (0, 0)], 'arrow': [(F(7, 2), F(5, 2)), (0, 0)], 'U': [(2, F(7, 2)), (-2, F(7, 2)), (0, 0)], 'bay': [(F(7, 2), F(15, 4)), (0, 0), (F(3), F(-7, 2))]}
ENDS = {'rect': [(3, 0), (2, 1)], 'diamond': [(3, 3), (0, -4)], 'tri': [(0, 2), (-5, F(-5, 2))], 'collinear': [(0, 2), (0, 1)], 'hexa': [(5, 5), (4, 0)],
        'L': [(2, 2), (1, 1), (4, 4)], 'arrow': [(0, 2), (0, -4)], 'U': [(0, 3), (0, 5), (4, 0)], 'bay': [(3, 0), (1, 0), (5, 5)]}
DIRS = [(1, 0), (0, -1), (1, 1), (-3, 1)]


@harness('C05', [dict(poly=p, impl=i, mode=m, k=k) for p in ('rect', 'diamond', 'collinear') for i in ('convex', 'numpy') for m, k in (('start', 0), ('end', 0))] +
         [dict(poly='tri', impl=i, mode=m, k=k) for i in ('convex', 'numpy') for m, k in (('start', 1), ('dir', 2))] + [dict(poly='rect', impl='convex', mode='dir', k=0)] +
         [dict(poly=p, impl='nonconvex', mode=m, k=k) for p in ('L', 'bay') for m, k in (('start', 0), ('start', 1), ('end', 0), ('end', 1), ('dir', 1))],
         [dict(poly=p, impl=i, mode=m, k=k) for p in CONVEX for i in ('convex', 'nonconvex', 'numpy') for m, n in (('start', STARTS), ('end', ENDS), ('dir', None)) for k in range(len(n[p]) if n else len(DIRS))] +
         [dict(poly=p, impl='nonconvex', mode=m, k=k) for p in ALL if p not in CONVEX for m, n in (('start', STARTS), ('end', ENDS), ('dir', None)) for k in range(len(n[p]) if n else len(DIRS))])
def polygon(env, poly, impl, mode, k):
    V, ell, convex = G.POLY[poly]
    ch = G.chamber(env, poly, impl)
    P = (env.real('x_in', -12, 12), env.real('y_in', -12, 12)) if mode != 'start' else G.q(env, STARTS[poly][k])
    if mode == 'end': Q = G.q(env, ENDS[poly][k])
    elif mode == 'start': Q = (env.real('x_out', -12, 12), env.real('y_out', -12, 12))
    else:
        l = env.real('length', 0, 20)
        Q = (P[0] + l * DIRS[k][0], P[1] + l * DIRS[k][1])
    env.assume(G.inside(env, V, P))
    env.assume(env.Not(G.inside(env, V, Q)))
    x, y, z, Nx, Ny, i = run(env, ch, [P], [Q], None)
    check_impact(env, V, P, Q, (x[0], y[0], Nx[0], Ny[0], i[0]), env.q(99, 100))
    out = ch.is_outside(x, y)
    env.check(env.Not(out[0]), 'the impact point is not outside the chamber')


@harness('C05', [dict(poly=p, impl=i, resc=r) for p, i, r in (('rect', 'convex', None), ('L', 'nonconvex', (1, 2)), ('diamond', 'numpy', None), ('rect', 'numpy', (1, 2)), ('diamond', 'convex', (1, 2)))])
def two(env, poly, impl, resc):
    """several particles at once do not influence each other; other safety factors"""
    V, ell, convex = G.POLY[poly]
    ch = G.chamber(env, poly, impl)
    P = [G.q(env, p) for p in STARTS[poly][:2]]
    Q = [(env.real('x_out%d' % k, -12, 12), G.q(env, ENDS[poly][k])[1]) for k in range(2)]
    for q in Q: env.assume(env.Not(G.inside(env, V, q)))
    n0 = ch.N_mp_impact
    x, y, z, Nx, Ny, i = run(env, ch, P, Q, env.q(*resc) if resc else None)
    for k in range(2):
        check_impact(env, V, P[k], Q[k], (x[k], y[k], Nx[k], Ny[k], i[k]), env.q(*resc) if resc else env.q(99, 100))
    env.check(ch.N_mp_impact == n0 + 2, 'impacts are counted')


@harness('C05', [dict(k=k) for k in range(3)])
def rectangle(env, k):
    """rectangle with arbitrary apertures"""
    a, b = env.real('a', env.q(1, 10), 10), env.real('b', env.q(1, 10), 10)
    ch = env.mod('geom_impact_rect_fast_impact').rect_cham_geom_object(a, b, 0, flag_assume_convex=True)
    P = (env.q(0), env.q(0)) if k < 2 else (env.q(1, 20), env.q(-1, 30))
    f = env.real('f')
    env.assume(env.And(f > -1, f < 1))
    l = env.real('l', 1, 5)
    Q = (a * l, b * f) if k == 0 else (a * f, -b * l) if k == 1 else (-a * l, P[1])
    x, y, z, Nx, Ny, i = run(env, ch, [P], [Q], None)
    t = (a + P[0]) / (P[0] - Q[0]) if k == 2 else 1 / l
    r = env.q(99, 100)
    env.eq(x[0], P[0] + r * t * (Q[0] - P[0]), 'impact point on the path (x)')
    env.eq(y[0], P[1] + r * t * (Q[1] - P[1]), 'impact point on the path (y)')
    env.eq(Nx[0], (-1, 0, 1)[k], 'inward normal (x)'); env.eq(Ny[0], (0, 1, 0)[k], 'inward normal (y)')
    env.check(i[0] == (3, 2, 1)[k], 'segment that was hit')
    env.check(env.Not(ch.is_outside(x, y)[0]), 'the impact point is not outside the chamber')


ELL_START = [(0, 0), (F(3, 2), F(1, 4)), (F(-1, 2), F(-4, 5))]
ELL_END = [(3, 0), (0, -1), (-2, 3)]
ELL = [dict(mode='centre', k=0), dict(mode='axes', k=0), dict(mode='axes', k=1)] + [dict(mode='start', k=k, d=d) for k in range(3) for d in range(4)] + [dict(mode='end', k=k, d=d) for k in range(3) for d in range(3)]


@harness('C05', [e for e in ELL if e not in (dict(mode='end', k=2, d=2), dict(mode='start', k=2, d=3), dict(mode='end', k=0, d=2))], ELL)
def ellipse(env, mode, k, d=0):
    env.merge_masks(False)
    a, b = env.q(2), env.q(1)
    D = [(1, 0), (0, -1), (1, 1), (-3, 1)][d]
    if mode == 'axes':       # arbitrary ellipse, motion along an axis
        a, b = env.real('a', env.q(1, 10), 10), env.real('b', env.q(1, 10), 10)
        f = env.real('f')
        env.assume(env.And(f > -1, f < 1))
        l = env.real('length', 0, 10)
        P = (a * f, env.q(0)) if k == 0 else (env.q(0), b * f)
        Q = (P[0] + a * l, P[1]) if k == 0 else (P[0], P[1] - b * l)
    elif mode == 'centre':   # from the centre anywhere
        P, Q = (env.q(0), env.q(0)), (env.real('x_out', -8, 8), env.real('y_out', -8, 8))
    elif mode == 'start':    # fixed start and direction
        P = G.q(env, ELL_START[k])
        l = env.real('length', 0, 10)
        Q = (P[0] + l * D[0], P[1] + l * D[1])
    else:                    # fixed end and direction
        Q = G.q(env, ELL_END[k])
        l = env.real('length', 0, 10)
        S = G.q(env, ELL_START[d])
        P = (Q[0] + l * (S[0] - Q[0]), Q[1] + l * (S[1] - Q[1]))
    ch = env.mod('geom_impact_ellip').ellip_cham_geom_object(a, b, flag_verbose_file=False)
    g = lambda x, y: (x * b) * (x * b) + (y * a) * (y * a) - a * a * b * b
    env.assume(g(*P) < 0); env.assume(g(*Q) >= 0)
    if mode == 'end' and not bool(env.Or(P[0] != Q[0], P[1] != Q[1])): return
    zi, zo = env.reals('z_in', 1), env.reals('z_out', 1)
    A = lambda v: env.array([v], 'f')
    x, y, z, Nx, Ny, i = ch.impact_point_and_normal(A(P[0]), A(P[1]), zi, A(Q[0]), A(Q[1]), zo)
    x, y, z, Nx, Ny = x[0], y[0], z[0], Nx[0], Ny[0]
    env.check(i is None, 'no segment for an ellipse')
    dx, dy = Q[0] - P[0], Q[1] - P[1]
    env.eq((x - P[0]) * dy, (y - P[1]) * dx, 'impact point on the line of the path')
    tau = ((x - P[0]) * dx + (y - P[1]) * dy) / (dx * dx + dy * dy)
    env.check(env.And(tau >= 0, tau <= 1), 'impact point between start and end')
    env.check(g(x, y) < 0, 'impact point inside')
    s = tau + env.q(11, 1000)
    env.check(env.Or(g(P[0] + s * dx, P[1] + s * dy) >= 0, dx * dx + dy * dy <= (Q[0] * Q[0] + Q[1] * Q[1]) * env.q(2, 10 ** 8)), 'impact point where the path meets the wall, up to the safety factor')
    env.eq(z, zi[0] + tau * (zo[0] - zi[0]), 'longitudinal position on the path')
    env.eq(Nx * Nx + Ny * Ny, 1, 'unit normal')
    env.eq(Nx * y * a * a, Ny * x * b * b, 'normal to the wall')
    env.check(Nx * x * b * b + Ny * y * a * a <= 0, 'normal points inwards')
