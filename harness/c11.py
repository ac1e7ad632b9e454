from symx.harness import harness
from .common import *

FUNCTIONS = ['rhocompute.compute_sc_rho', 'int_field_for.int_field', 'hist_for.compute_hist', 'seg_impact.update_seg_impact', 'vectsum.vectsum (Fortran, through GIMPLE, with the f2py calling convention)']
BOUNDS = ['grids of 2 to 5 nodes per direction, histograms of 2 to 5 bins, 1 to 3 particles (thorough: 5 nodes, 3 particles)',
          'coordinates, charges, weights, offsets, previous histogram contents and field values arbitrary reals; grid steps from a list of binary fractions (compute_hist: also arbitrary)']
ASSUMPTIONS = ['Histogram coordinates are not below the first bin (the documented range). A particle exactly on the last grid line is outside the claim.',
               'Accesses outside an array are violations; they are replayed on a build with run-time bounds checks.']


def hat(env, u):
    return env.If(abs(u) >= 1, 0, 1 - abs(u))


def steps(env, D):
    return env.q(D[0], D[1])


G = lambda N, nx, ny, D=(1, 2), free=True: dict(N=N, nx=nx, ny=ny, D=D, free=free)


@harness('C11', [G(1, 3, 3), G(1, 2, 4, (1, 4)), G(2, 3, 2, (2, 1), False)],
         [G(1, nx, ny, d) for nx in (2, 3, 4, 5) for ny in (2, 3, 5) for d in ((1, 2), (1, 1))] + [G(2, nx, ny, (1, 4), False) for nx in (2, 3) for ny in (2, 3)] + [G(3, 3, 2, (1, 1), False)])
def deposit(env, N, nx, ny, D, free):
    """compute_sc_rho: cloud-in-cell weights of every particle on the corners of its cell, nothing else"""
    f = env.mod('rhocompute').compute_sc_rho
    Dh = steps(env, D)
    bx = env.real('bias_x') if free else env.q(-1, 2)
    by = env.real('bias_y') if free else env.q(-3, 4)
    x, y, w = env.reals('x', N), env.reals('y', N), env.reals('nel', N)
    for p in range(N):
        env.assume(env.And(x[p] != bx + (nx - 1) * Dh, y[p] != by + (ny - 1) * Dh))
    rho = f(x, y, w, bx, by, Dh, nx, ny)
    inside = [bool(env.And(x[p] >= bx, x[p] < bx + (nx - 1) * Dh, y[p] >= by, y[p] < by + (ny - 1) * Dh)) for p in range(N)]
    env.check(tuple(rho.shape) == (nx, ny), 'one charge per node')
    hx = [[hat(env, (x[p] - bx) / Dh - i) for i in range(nx)] for p in range(N)]
    hy = [[hat(env, (y[p] - by) / Dh - j) for j in range(ny)] for p in range(N)]
    for i in range(nx):
        for j in range(ny):
            want = env.sum([w[p] * hx[p][i] * hy[p][j] for p in range(N) if inside[p]])
            env.eq(rho[i, j], want, 'node charge is the sum of the bilinear shares of the particles')
    tot = env.sum([rho[i, j] for i in range(nx) for j in range(ny)])
    env.eq(tot, env.sum([w[p] for p in range(N) if inside[p]]), 'total deposited charge equals the charge inside the grid')
    if N == 1:
        for i in range(nx):
            for j in range(ny):
                env.check(env.Or(w[0] < 0, rho[i, j] >= 0), 'shares are non-negative', margin=None)
    env.observe('rho', rho)


@harness('C11', [G(1, 3, 3), G(1, 2, 3, (1, 4)), G(2, 2, 2, (1, 2), False)],
         [G(1, nx, ny, d) for nx in (2, 3, 4) for ny in (2, 3, 4) for d in ((1, 2), (2, 1))] + [G(2, 3, 3, (1, 2), False), G(3, 2, 2, (1, 2), False)])
def interpolate(env, N, nx, ny, D, free):
    """int_field: bilinear interpolation inside, zero outside"""
    f = env.mod('int_field_for').int_field
    dx = steps(env, D); dy = dx * 2
    bx = env.real('bias_x') if free else env.q(-1, 2)
    by = env.real('bias_y') if free else env.q(-3, 4)
    x, y = env.reals('x', N), env.reals('y', N)
    ex = [[env.real('ex%d_%d' % (i, j)) for j in range(ny)] for i in range(nx)]
    ey = [[env.real('ey%d_%d' % (i, j)) for j in range(ny)] for i in range(nx)]
    for p in range(N):
        env.assume(env.And(x[p] != bx + (nx - 1) * dx, y[p] != by + (ny - 1) * dy))
    a, b = f(x, y, bx, by, dx, dy, env.array(ex), env.array(ey))
    env.check(len(a) == N and len(b) == N, 'one field value per particle')
    for p in range(N):
        inside = bool(env.And(x[p] >= bx, x[p] < bx + (nx - 1) * dx, y[p] >= by, y[p] < by + (ny - 1) * dy))
        for got, e, nm in ((a, ex, 'first'), (b, ey, 'second')):
            want = 0
            if inside:
                want = env.sum([e[i][j] * hat(env, (x[p] - bx) / dx - i) * hat(env, (y[p] - by) / dy - j) for i in range(nx) for j in range(ny)])
            env.eq(got[p], want, '%s component is the bilinear interpolation of the node values inside and zero outside' % nm)
    env.observe('a', a); env.observe('b', b)


@harness('C11', [G(1, 3, 4)], [G(1, nx, ny, d) for nx in (2, 3, 5) for ny in (2, 3, 5) for d in ((1, 2), (1, 1))])
def linear_exact(env, N, nx, ny, D, free):
    """a field linear in both coordinates is reproduced exactly, so node values are too"""
    f = env.mod('int_field_for').int_field
    dx = steps(env, D); dy = dx / 2
    bx = env.real('bias_x'); by = env.real('bias_y')
    c = [env.real('c%d' % k) for k in range(4)]
    d = [env.real('d%d' % k) for k in range(4)]
    lin = lambda k, x, y: k[0] + k[1] * (x - bx) + k[2] * (y - by) + k[3] * (x - bx) * (y - by)
    X, Y = env.real('x'), env.real('y')
    env.assume(env.And(X >= bx, X < bx + (nx - 1) * dx, Y >= by, Y < by + (ny - 1) * dy))
    ex = env.array([[lin(c, bx + i * dx, by + j * dy) for j in range(ny)] for i in range(nx)])
    ey = env.array([[lin(d, bx + i * dx, by + j * dy) for j in range(ny)] for i in range(nx)])
    a, b = f(env.array([X]), env.array([Y]), bx, by, dx, dy, ex, ey)
    env.eq(a[0], lin(c, X, Y), 'a linear field is reproduced exactly')
    env.eq(b[0], lin(d, X, Y), 'a linear field is reproduced exactly')


H = lambda N, n, D=(1, 2): dict(N=N, n=n, D=D)


@harness('C11', [H(1, 4), H(2, 3, (1, 1)), H(1, 3, None), H(3, 2, (1, 4)), H(1, 2, (2, 1))],
         [H(N, n, d) for N in (1, 2) for n in (2, 3, 4, 5) for d in ((1, 2), (1, 1), (5, 4))] + [H(1, n, None) for n in (2, 3, 4, 5)] + [H(3, n) for n in (2, 3, 4)])
def histogram(env, N, n, D):
    """compute_hist: linear share in the two adjacent bins, everything beyond the last bin goes into the last"""
    f = env.mod('hist_for').compute_hist
    if D is None:
        Dx = env.real('Dx', slo=0, hi=4); b = env.q(-1, 2)
        u = [env.real('u%d' % p, 0, n + 2) for p in range(N)]
        x = env.array([b + Dx * v for v in u], 'f')
    else:
        Dx = steps(env, D); b = env.real('bias')
        x = env.reals('x', N)
        u = [(x[p] - b) / Dx for p in range(N)]
        for p in range(N): env.assume(env.And(x[p] >= b, x[p] <= b + (n + 3) * Dx))
    w = env.reals('wei', N)
    h0 = [env.real('h%d' % i) for i in range(n)]
    h = env.array(list(h0), 'f')
    if N == 0: x = env.array([], 'f'); w = env.array([], 'f')
    f(x, w, b, Dx, h)
    for i in range(n):
        want = h0[i]
        for p in range(N):
            share = hat(env, u[p] - i)
            if i == n - 1: share = env.If(u[p] >= n - 1, 1, share)
            want = want + w[p] * share
        env.eq(h[i], want, 'each weight is shared linearly between the two bins next to its coordinate')
    env.eq(env.sum(list(h)), env.sum(h0) + env.sum(list(w)), 'the histogram grows by the total weight')
    env.observe('h', h)


@harness('C11', [dict(N=2, n=3), dict(N=3, n=2), dict(N=1, n=1)], [dict(N=N, n=n) for N in (1, 2, 3) for n in (1, 2, 3, 4)])
def segments(env, N, n):
    f = env.mod('seg_impact').update_seg_impact
    ix = [env.int('seg%d' % p, -2, n + 1) for p in range(N)]
    w = env.reals('wei', N) if N else env.array([], 'f')
    h0 = [env.real('h%d' % i) for i in range(n)]
    h = env.array(list(h0), 'f')
    f(env.array(ix, 'i'), w, h)
    for i in range(n):
        want = h0[i]
        for p in range(N):
            want = want + env.If(ix[p] == i, w[p], 0)
        env.eq(h[i], want, 'each weight is added to its own segment only, none for impacts without a segment')


@harness('C11', [dict(N=0), dict(N=1), dict(N=4)], [dict(N=N) for N in range(8)])
def total(env, N):
    f = env.mod('vectsum').vectsum
    x = env.reals('x', N) if N else env.array([], 'f')
    env.eq(f(x), env.sum(list(x)), 'vectsum is the sum')
