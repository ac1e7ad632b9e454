"""planar geometry oracle shared by the harnesses (exact rationals, written from the definitions)"""
from fractions import Fraction as F

# name: (vertices counter-clockwise, inscribed ellipse semi-axes, convex); all edge lengths rational
POLY = {
    'rect': ([(2, 1), (-2, 1), (-2, -1), (2, -1)], (F(19, 10), F(9, 10)), True),
    'diamond': ([(4, 0), (0, 3), (-4, 0), (0, -3)], (2, F(3, 2)), True),
    'tri': ([(4, -2), (0, 1), (-4, -2)], (F(1, 2), F(1, 2)), True),
    'collinear': ([(2, 1), (0, 1), (-2, 1), (-2, -1), (2, -1)], (1, F(1, 2)), True),
    'hexa': ([(4, 3), (0, 6), (-4, 3), (-4, -3), (0, -6), (4, -3)], (3, 3), True),
    'L': ([(3, 1), (1, 1), (1, 3), (-1, 3), (-1, -1), (3, -1)], (F(1, 2), F(1, 2)), False),
    'arrow': ([(4, 3), (0, 1), (-4, 3), (0, -3)], (F(1, 4), F(1, 4)), False),     # notch at the top (irrational edges)
    'U': ([(3, 4), (1, 4), (1, 1), (-1, 1), (-1, 4), (-3, 4), (-3, -1), (3, -1)], (F(1, 2), F(1, 2)), False),
    'bay': ([(4, 4), (-4, 4), (-4, -4), (4, -4), (1, 0)], (F(1, 2), F(1, 2)), False),    # notch on the right (3-4-5 edges)
}


def cross(o, a, b): return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def edges(V): return [(V[i], V[(i + 1) % len(V)]) for i in range(len(V))]


def triangles(V):
    """ear clipping of a simple counter-clockwise polygon with rational vertices"""
    V = [(F(x), F(y)) for x, y in V]
    out = []
    while len(V) > 3:
        n = len(V)
        for i in range(n):
            a, b, c = V[i - 1], V[i], V[(i + 1) % n]
            k = cross(a, b, c)
            if k == 0:
                V.pop(i)
                break
            if k > 0 and not any(p not in (a, b, c) and cross(a, b, p) >= 0 and cross(b, c, p) >= 0 and cross(c, a, p) >= 0 for p in V):
                out.append((a, b, c))
                V.pop(i)
                break
        else:
            raise ValueError('not a simple polygon')
    if cross(*V) != 0: out.append(tuple(V))
    return out


def q(env, p): return (env.q(F(p[0]).numerator, F(p[0]).denominator), env.q(F(p[1]).numerator, F(p[1]).denominator))


def in_closed(env, V, p):
    """p belongs to the polygon or its wall"""
    alts = []
    for t in triangles(V):
        a, b, c = [q(env, v) for v in t]
        alts.append(env.And(cross(a, b, p) >= 0, cross(b, c, p) >= 0, cross(c, a, p) >= 0))
    return env.Or(*alts)


def on_edge(env, a, b, p):
    """p belongs to the closed segment a-b (rational end points)"""
    a, b = (F(a[0]), F(a[1])), (F(b[0]), F(b[1]))
    A, B = q(env, a), q(env, b)
    c = [cross(A, B, p) == 0]
    for k in (0, 1):
        lo, hi = (A, B) if a[k] <= b[k] else (B, A)
        c += [p[k] >= lo[k], p[k] <= hi[k]]
    return env.And(*c)


def on_wall(env, V, p): return env.Or(*[on_edge(env, a, b, p) for a, b in edges(V)])


def inside(env, V, p): return env.And(in_closed(env, V, p), env.Not(on_wall(env, V, p)))


def chamb_dict(env, V, ell, **extra):
    vs = [q(env, v) for v in V]
    d = {'Vx': env.array([v[0] for v in vs], 'f'), 'Vy': env.array([v[1] for v in vs], 'f')}
    e = q(env, ell)
    d['x_sem_ellip_insc'], d['y_sem_ellip_insc'] = e
    d.update(extra)
    return d


def chamber(env, name, impl, **extra):
    V, ell, convex = POLY[name]
    d = chamb_dict(env, V, ell, **extra)
    if impl == 'numpy':
        return env.mod('geom_impact_poly').polyg_cham_geom_object(d, 0)
    return env.mod('geom_impact_poly_fast_impact').polyg_cham_geom_object(d, 0, flag_assume_convex=(impl == 'convex'))
