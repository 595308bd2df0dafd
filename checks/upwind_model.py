"""The first-order upwind scheme with periodic boundaries, and the Laplacian, as reference models."""
import numpy as np


def initial(dims):
    f = np.zeros(dims)
    f.reshape(-1)[0] = 1.0
    return f


def step(f, v, lengths, dt):
    new = f.copy()
    for j, n in enumerate(f.shape):
        dx = lengths[j] / n
        if v[j] >= 0:
            new = new - dt * v[j] / dx * (f - np.roll(f, 1, j))
        else:
            new = new - dt * v[j] / dx * (np.roll(f, -1, j) - f)
    return new


def solve(dims, v, lengths, steps):
    """steps: the list of (number, dt)."""
    f = initial(dims)
    for n, dt in steps:
        for _ in range(n):
            f = step(f, v, lengths, dt)
    return f


def solve_by_powers(dims, v, lengths, steps):
    """The same by the power of the matrix of one step: for many steps on few cells."""
    f = initial(dims).reshape(-1)
    for n, dt in steps:
        a = np.array([step(e.reshape(dims), v, lengths, dt).reshape(-1) for e in np.eye(f.size)]).T
        f = np.linalg.matrix_power(a, n) @ f
    return f.reshape(dims)


def standard(n, nsteps, ndims=3):
    """What the programs compute: unit cube, unit velocity, Courant number 0.1."""
    dims = [n] * ndims
    return (solve if nsteps < 5000 else solve_by_powers)(dims, [1.0] * ndims, [1.0] * ndims, [(nsteps, 0.1 / n)])


def laplacian_ten(n, d):
    x = np.sin(2.0 * np.pi * ((np.arange(n) + 0.5) * (1.0 / n)))
    f = np.ones([n] * d)
    for j in range(d):
        sh = [1] * d
        sh[j] = n
        f = f * x.reshape(sh)
    for _ in range(10):
        g = -2.0 * d * f
        for j in range(d):
            g = g + np.roll(f, 1, j) + np.roll(f, -1, j)
        f = g
    return f
