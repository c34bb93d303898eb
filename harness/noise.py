"""Random generators with known output, standing in for the generator a
source is bound to."""
import numpy as np
from .core import Mismatch, need


def _size(size):
    if size is None:
        return ()
    return tuple(int(k) for k in np.atleast_1d(size))


class Gaussian:
    """A generator whose k-th standard normal variate is xi(k): all normal
    variates are affine functions of those."""

    def __init__(self, xi):
        self.xi, self.n = xi, 0

    def _draw(self, size):
        z = np.empty(size)
        flat = z.reshape(-1)
        for i in range(flat.size):
            flat[i] = self.xi(self.n)
            self.n += 1
        return z

    def standard_normal(self, size=None, dtype=float, out=None):
        return self._draw(_size(size))[()]

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return (loc + scale*self._draw(_size(size)))[()]

    def multivariate_normal(self, mean, cov, size=None, **args):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        need(mean.ndim == 1 and cov.shape == 2*mean.shape,
             'multivariate_normal called with mean', mean.shape, 'cov', cov.shape)
        need(np.allclose(cov, cov.T), 'covariance is not symmetric', cov.tolist())
        w, v = np.linalg.eigh(cov)
        need((w > -1e-9).all(), 'covariance is not positive', cov.tolist())
        fac = v*np.sqrt(np.maximum(w, 0.))
        xi = self._draw(_size(size) + mean.shape)
        return mean + np.einsum('ij,...j->...i', fac, xi)


def law(experiment, tol=1e-8):
    """Mean and covariance of the (flattened) array experiment(rng) returns
    when all its randomness is Gaussian: impulse responses to each standard
    normal variate, with a check that the dependence is affine."""
    g = Gaussian(lambda k: 0.)
    mean = np.array(experiment(g), dtype=float)
    n = g.n
    shape = mean.shape
    mean = mean.reshape(-1)
    J = np.empty((mean.size, n))
    for j in range(n):
        g = Gaussian(lambda k: 1. if k == j else 0.)
        J[:, j] = np.array(experiment(g), dtype=float).reshape(-1) - mean
        need(g.n == n, 'number of normal variates depends on their values:',
             g.n, 'instead of', n)
    xi = np.random.default_rng(n).normal(size=n)
    y = np.array(experiment(Gaussian(lambda k: xi[k])), dtype=float)
    need(np.allclose(y.reshape(-1), mean + J @ xi, rtol=tol, atol=tol),
         'values are not an affine function of the normal variates')
    return mean.reshape(shape), (J @ J.T).reshape(shape + shape), n
