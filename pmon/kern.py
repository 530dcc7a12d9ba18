"""Direct driver of the four MCMC kernels of pocomc.mcmc."""
import types

import numpy as np

KERNELS = {("tpcn", True): "preconditioned_pcn", ("rwm", True): "preconditioned_rwm",
           ("tpcn", False): "pcn", ("rwm", False): "rwm"}


class Bar:
    """Stands in for the progress bar (kernels read info['calls'])."""

    def __init__(self):
        self.info = dict(calls=0)
        self.updates = 0

    def update_stats(self, info):
        self.info.update(info)
        self.updates += 1


class AffineFlow:
    """A valid flow with a known affine map: theta = (x - a) B^T."""

    def __init__(self, B, a):
        import torch
        self.B = torch.tensor(np.asarray(B), dtype=torch.float32)
        self.Binv = torch.tensor(np.linalg.inv(np.asarray(B, dtype=float)), dtype=torch.float32)
        self.a = torch.tensor(np.asarray(a), dtype=torch.float32)
        self.ld = float(np.linalg.slogdet(B)[1])

    def forward(self, x):
        import torch
        return (x - self.a) @ self.B.T, torch.full((len(x),), self.ld)

    def inverse(self, t):
        import torch
        return t @ self.Binv.T + self.a, torch.full((len(t),), -self.ld)


class SinhFlow:
    """A valid, strongly non-linear flow: theta = asinh(c x) / c  elementwise."""

    def __init__(self, c):
        self.c = float(c)

    def forward(self, x):
        import torch
        c = self.c
        return torch.asinh(c * x) / c, torch.sum(-0.5 * torch.log1p((c * x) ** 2), dim=1)

    def inverse(self, t):
        import torch
        c = self.c
        return torch.sinh(c * t) / c, torch.sum(torch.log(torch.cosh(c * t)), dim=1)


class BrokenFlow:
    """Wraps a flow; the inverse map fails (NaN or inf) for part of the points."""

    def __init__(self, inner, seed, frac=0.3):
        self.inner = inner
        self.rs = np.random.RandomState(seed)
        self.frac = frac

    def forward(self, x):
        return self.inner.forward(x)

    def inverse(self, t):
        x, j = self.inner.inverse(t)
        x = x.clone()
        bad = self.rs.rand(len(x)) < self.frac
        vals = [np.nan, np.inf, -np.inf]
        for i in np.flatnonzero(bad):
            x[i, self.rs.randint(x.shape[1])] = vals[self.rs.randint(3)]
        return x, j


def geometry(t_mean, t_cov, t_nu, normal_mean=None, normal_cov=None):
    import pocomc.geometry
    g = pocomc.geometry.Geometry()
    g.t_mean = np.array(t_mean, dtype=float)
    g.t_cov = np.array(t_cov, dtype=float)
    g.t_nu = float(t_nu)
    g.normal_mean = np.array(t_mean if normal_mean is None else normal_mean, dtype=float)
    g.normal_cov = np.array(t_cov if normal_cov is None else normal_cov, dtype=float)
    return g


def call(kernel, state, loglike, logprior, scaler, flow, geom, n_max, n_steps=10**9, scale=None, bar=None,
         other_geom=None):
    import pocomc.mcmc
    f = getattr(pocomc.mcmc, KERNELS[tuple(kernel)])
    d = state["x"].shape[1]
    junk = other_geom
    fd = dict(loglike=loglike, logprior=logprior, scaler=scaler, flow=flow,
              u_geometry=geom if not kernel[1] else junk, theta_geometry=geom if kernel[1] else junk)
    od = dict(n_max=n_max, n_steps=n_steps, progress_bar=bar,
              proposal_scale=2.38 / d ** 0.5 if scale is None else scale)
    return f(state, fd, od)


def state_of(scaler, loglike, logprior, x, beta, blobs=None):
    u = scaler.forward(x)
    _, ldj = scaler.inverse(u)
    ll = loglike(x)
    if isinstance(ll, tuple):
        ll, blobs = ll
    return dict(u=u, x=x.copy(), logdetj=ldj, logl=np.array(ll), logp=np.array(logprior(x)), beta=beta, blobs=blobs)
