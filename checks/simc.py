"""Generators and decks shared by the checks that run the whole program."""
from checks.common import *
from vlib import sim
from vlib.sim import C, QE, ME, EPS0, MU0

SPLIT3 = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2),
          (4, 1, 1), (1, 1, 4)]
SPLIT2 = [(1, 1, 1), (2, 1, 1), (1, 1, 2), (3, 1, 1), (1, 1, 3), (2, 1, 2), (4, 1, 1), (1, 1, 4)]
BIG3 = [(2, 2, 2), (3, 2, 1), (1, 2, 3), (2, 1, 3), (5, 1, 1)]
BIG2 = [(3, 1, 2), (2, 1, 3), (5, 1, 1), (2, 1, 4)]


def splits(dim, big=False):
    s = SPLIT3 + (BIG3 if big else []) if dim == 3 else SPLIT2 + (BIG2 if big else [])
    return st.sampled_from(s).map(list)


def mkdeck(dim, n, split, d=(1e-6, 1e-6, 1e-6), org=(0., 0., 0.), guards=(3, 3, 3), jguards=None, tiles=(1, 1, 1),
           species=(), main=None, cpu=None, solver=None, plasma=None, extra=()):
    """n: cells of the whole domain along x, y, z."""
    jguards = guards if jguards is None else jguards
    m = dict(c_dim=dim, nx=n[0] + 1, ny=n[1] + 1, nz=n[2] + 1, ntilex=tiles[0], ntiley=tiles[1], ntilez=tiles[2],
             xmin=org[0], xmax=org[0] + n[0] * d[0], ymin=org[1], ymax=org[1] + n[1] * d[1],
             zmin=org[2], zmax=org[2] + n[2] * d[2],
             nguardsx=guards[0], nguardsy=guards[1], nguardsz=guards[2],
             njguardsx=jguards[0], njguardsy=jguards[1], njguardsz=jguards[2], nsteps=1)
    m.update(main or {})
    c = dict(nprocx=split[0], nprocy=split[1], nprocz=split[2], topology=0)
    c.update(cpu or {})
    secs = [("main", m), ("cpusplit", c)]
    if plasma:
        secs.append(("plasma", plasma))
    if solver:
        secs.append(("solver", solver))
    for s in species:
        secs.append(("species", dict(dict(mass=1.0, charge=-1.0, nppcell=0), **s)))
    secs += list(extra)
    return sim.deck(secs)


def cut(n, p):
    """Cells per process along one axis, in the order of the program's own split (only used to size cases)."""
    a = n // p
    k = p if a * p == n else (a + 1) * p - n
    return [a] * k + [a + 1] * (p - k)


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s against %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        k = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation("%s: %d of %d values differ, first at %s: %.17g instead of %.17g (allowed %g)" %
                        (what, int(bad.sum()), a.size, k, a[k], b[k], np.asarray(tol) if np.ndim(tol) == 0 else np.broadcast_to(tol, a.shape)[k]))
