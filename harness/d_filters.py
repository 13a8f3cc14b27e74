"""Distributions and conversions (C10), the unscented Kalman filter (C11)"""
import numpy as np

from common import THOROUGH, enc, nrng, num, record, some
from d_params import only
from moirae.estimators.online.filters.conversions import (AbsoluteValueConversionOperator, FirstOrderTaylorConversionOperator,
                                                           IdentityConversionOperator, LinearConversionOperator)
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.filters.kalman.utils import calculate_gain_matrix, ensure_positive_semi_definite


# ---------------------------------------------------------------- random pieces
def spd(r, n, lo=0.3, hi=3.):
    """A well-conditioned covariance"""
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    c = q @ np.diag(r.uniform(lo, hi, size=n)) @ q.T
    return (c + c.T) / 2


def well(r, n, m):
    """A well-conditioned matrix, of full rank"""
    u, _ = np.linalg.qr(r.normal(size=(max(n, m), max(n, m))))
    v, _ = np.linalg.qr(r.normal(size=(min(n, m), min(n, m))))
    k = min(n, m)
    a = u[:, :k] @ np.diag(r.uniform(0.4, 2.5, size=k)) @ v
    return a if n >= m else a.T


class Bend(FirstOrderTaylorConversionOperator):
    """The smooth curve of Gauss.tla, on some of the values"""
    at: list[int]

    def _on(self, x, f):
        y = np.array(x, dtype=float)
        y[..., self.at] = f(y[..., self.at])
        return y

    @staticmethod
    def _root(y):
        return (np.sqrt(9 + 4 * np.abs(y)) - 1) / 2

    def transform_samples(self, samples):
        return self._on(samples, lambda x: np.sign(x) * (np.abs(x) + np.sqrt(1 + np.abs(x)) - 1))

    def inverse_transform_samples(self, transformed_samples):
        return self._on(transformed_samples, lambda y: np.sign(y) * (self._root(y) ** 2 - 1))

    def get_jacobian(self, pivot):
        j = np.ones(pivot.size)
        j[self.at] = 1 + 0.5 / np.sqrt(1 + np.abs(pivot[self.at]))
        return np.diag(j)

    def get_inverse_jacobian(self, transformed_pivot):
        j = np.ones(transformed_pivot.size)
        j[self.at] = 1 / (1 + 0.5 / self._root(transformed_pivot[self.at]))
        return np.diag(j)


def random_bend(r, dim):
    at = sorted(int(x) for x in r.permutation(dim)[:int(r.integers(1, dim + 1))])
    return Bend(at=at), dict(op='bend', idx=[i + 1 for i in at])


def random_op(r, dim):
    """A conversion of vectors of a dimension: (operator, description, dimension after)"""
    kind = str(r.choice(['identity', 'scale', 'vector', 'matrix', 'matrix', 'wide', 'abs', 'abs', 'bend']))
    if kind == 'identity':
        return IdentityConversionOperator(), dict(op='identity'), dim
    if kind == 'abs':
        idx = None if r.random() < 0.35 else [int(x) for x in r.permutation(dim)[:int(r.integers(1, dim + 1))]]
        return AbsoluteValueConversionOperator(indices=idx), dict(op='abs', idx=[0] if idx is None else [i + 1 for i in idx]), dim
    if kind == 'bend':
        return (*random_bend(r, dim), dim)
    out = dim
    if kind == 'scale':
        m = np.array(float(r.choice([-1, 1]) * r.uniform(0.3, 3)))
        md = num(m)
    elif kind == 'vector':
        m = r.choice([-1, 1], size=dim) * r.uniform(0.3, 3, size=dim)
        md = enc(np.diag(m))
    else:
        out = dim if kind == 'matrix' else int(r.integers(1, 5))
        m = well(r, dim, out)
        md = enc(m)
    kw, b = {}, np.zeros(1)
    k = r.random()
    if k < 0.6:
        b = r.normal(size=out) * 3
        kw['additive_array'] = b
    elif k < 0.75:
        b = np.array([float(r.normal())])
        kw['additive_array'] = b if r.random() < 0.5 else np.array(b[0])
    return LinearConversionOperator(multiplicative_array=m, **kw), dict(op='linear', m=md, b=enc(b)), out


class Gaussians:
    def __init__(self, s, r):
        self.s, self.r, self.ds, self.given, self.ops = s, r, [], [], []

    def log(self, ev, **f):
        self.s.add(ev, **f, ds=[dict(kind='gauss' if isinstance(d, MultivariateGaussian) else 'delta', dim=d.num_dimensions,
                                     mean=enc(d.get_mean()), cov=enc(d.get_covariance())) for d in self.ds])

    def make(self):
        r = self.r
        n = int(r.integers(1, 5))
        mean = some(r, r.normal(size=n) * 3, 3)
        if r.random() < 0.25:
            d, e = self.s.call(DeltaDistribution, mean=mean)
            rec = dict(kind='delta', mean=enc(mean), cov=enc(np.zeros((n, n))))
            self.given += [mean]
        else:
            cov = spd(r, n)
            k = r.random()
            if k < 0.15:  # shapes which do not fit
                cov = cov[:, :-1] if r.random() < 0.3 else spd(r, n + 1) if r.random() < 0.5 else np.ones(n)
            elif k < 0.3:  # singular
                v = r.normal(size=(n, 1))
                cov = v @ v.T
            rec = dict(kind='gauss', mean=enc(mean), cov=enc(cov))
            d, e = self.s.call(MultivariateGaussian, mean=mean, covariance=cov)
            self.given += [mean, cov]
        if not e:
            self.ds.append(d)
        self.log('make', d=rec, err=e)

    def op(self, dim):
        r = self.r
        old = [o for o in self.ops if o[3] == dim]
        if old and r.random() < 0.6:
            return old[int(r.integers(len(old)))]
        o = (*random_op(r, dim), dim)
        self.ops.append(o)
        return o

    def op_to(self, dim):
        """A conversion whose results have that dimension"""
        old = [o for o in self.ops if o[2] == dim]
        if old and self.r.random() < 0.8:
            return old[int(self.r.integers(len(old)))]
        while True:
            o = (*random_op(self.r, dim), dim)
            if o[2] == dim:
                self.ops.append(o)
                return o

    def convert(self):
        i = int(self.r.integers(len(self.ds)))
        inv = bool(self.r.random() < 0.4)
        o, od, _, _ = (self.op_to if inv else self.op)(self.ds[i].num_dimensions)
        self.ds.append(self.ds[i].convert(o, inverse=True) if inv else self.ds[i].convert(conversion_operator=o))
        self.log('convert', i=i + 1, op=od, inv=inv)

    def combine(self):
        r = self.r
        i = int(r.integers(len(self.ds)))
        same = [k for k, d in enumerate(self.ds) if type(d) is type(self.ds[i])]
        rest = [int(r.choice(same)) for _ in range(int(r.integers(0, 4)))]
        if sum(self.ds[k].num_dimensions for k in [i] + rest) > 9:
            rest = rest[:1]
        others = [self.ds[k] for k in rest]
        self.ds.append(self.ds[i].combine_with(others if r.random() < 0.6 else tuple(others)))
        self.log('combine', s=[i + 1] + [k + 1 for k in rest])

    def samples(self):
        r = self.r
        n = int(r.integers(1, 5))
        inv = bool(r.random() < 0.5)
        o, od, _, _ = (self.op_to if inv else self.op)(n)
        x = some(r, r.normal(size=(int(r.integers(1, 5)), n)) * 3, 3)
        flat = bool(r.random() < 0.4)
        x = x[:1] if flat else x
        arg = x[0].copy() if flat else x.copy()
        y = o.inverse_transform_samples(arg) if inv else o.transform_samples(arg)
        self.log('samples', op=od, x=enc(x), inv=inv, got=enc(np.atleast_2d(y)) if flat and y.ndim == 1 else enc(y), after=enc(np.atleast_2d(arg)))

    def cov(self):
        r = self.r
        n = int(r.integers(1, 5))
        inv = bool(r.random() < 0.5)
        o, od, _, _ = (self.op_to if inv else self.op)(n)
        c, p = spd(r, n), np.round(r.normal(size=n), 3)
        if r.random() < 0.2:
            p[0] = 0.
        c1, p1 = c.copy(), p.copy()
        y = o.inverse_transform_covariance(c1, p1) if inv else o.transform_covariance(c1, p1)
        self.log('cov', op=od, c=enc(c), p=enc(p), inv=inv, got=enc(y), after=enc(c1), pafter=enc(p1))

    def write(self):
        """The caller goes on using its arrays"""
        r = self.r
        if self.given and r.random() < 0.6:
            a = self.given[int(r.integers(len(self.given)))]
            a *= 2
            a += 1
        elif self.ds:
            d = self.ds[int(r.integers(len(self.ds)))]
            d.get_mean()[:] = 77.
            d.get_covariance()[:] = 78.
        self.log('write')


def gaussians(s, key):
    r = nrng('C10', key)
    g = Gaussians(s, r)
    g.make()
    for _ in range(int(r.integers(5, 11))):
        k = str(r.choice(['make', 'convert', 'convert', 'convert', 'combine', 'samples', 'samples', 'cov', 'write']))
        if k in ('convert', 'combine') and (not g.ds or len(g.ds) > 6):
            k = 'samples'
        getattr(g, k)()


def magnitudes(s, key):
    """Quantities whose units differ by many orders of magnitude, such as capacitances next to resistances"""
    r = nrng('C10m', key)
    n = int(r.integers(2, 5))
    m = r.choice([-1, 1], size=n) * 10. ** r.uniform(-7, 7, size=n)
    b = r.normal(size=n) * (np.abs(m) if r.random() < 0.7 else 0)
    one = m[int(r.integers(n))]
    if r.random() < 0.3 and n > 2:  # quantities are exchanged as well
        m = np.diag(m)[r.permutation(n)]
    if r.random() < 0.25:  # one scale for all
        m = np.array(one)
        b = b * np.abs(m)
    o = LinearConversionOperator(multiplicative_array=m, additive_array=b)
    od = dict(op='linear', m=num(m) if m.ndim == 0 else enc(m if m.ndim == 2 else np.diag(m)), b=enc(b))
    unit = np.max(np.abs(m), axis=0) if m.ndim == 2 else np.abs(m) * np.ones(n)  # after
    x = r.normal(size=(int(r.integers(1, 4)), n))
    y = o.transform_samples(x.copy())
    s.add('samples', op=od, x=enc(x), inv=False, got=enc(y), after=enc(x), unit=enc(unit))
    s.add('samples', op=od, x=enc(y), inv=True, got=enc(o.inverse_transform_samples(y.copy())), after=enc(y), unit=enc(np.ones(n)))
    ds = [MultivariateGaussian(mean=x[0], covariance=spd(r, n))]
    units = [np.ones(n)]

    def log(ev, **f):
        s.add(ev, **f, ds=[dict(kind='gauss', dim=d.num_dimensions, mean=enc(d.get_mean()), cov=enc(d.get_covariance()), unit=enc(u)) for d, u in zip(ds, units)])
    log('make', d=dict(kind='gauss', mean=enc(x[0]), cov=enc(ds[0].get_covariance())), err='')
    for i, inv in enumerate([False, True, False]):
        ds.append(ds[-1].convert(o, inverse=inv))
        units.append(np.ones(n) if inv else unit)
        log('convert', i=i + 1, op=od, inv=inv)


def c10(res):
    res.model_check('MCGauss', 'MCGaussDeep.cfg' if THOROUGH else 'MCGauss.cfg', workers=8)
    named = [(f'gauss-{i}', lambda s, i=i: gaussians(s, i)) for i in range(4000 if THOROUGH else 400)]
    named += [(f'magnitudes-{i}', lambda s, i=i: magnitudes(s, i)) for i in range(600 if THOROUGH else 60)]
    res.validate('TraceGauss', [record(nm, f) for nm, f in only(named)], shards=8)


# ---------------------------------------------------------------- the filter
class Poly(ModelWrapper):
    """The model of the specification (Ukf.tla)"""

    def __init__(self, m):
        super().__init__()
        self.m = m

    @property
    def num_hidden_dimensions(self):
        return self.m['A'].shape[0]

    @property
    def num_output_dimensions(self):
        return self.m['D'].shape[0]

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        m, x = self.m, hidden_states
        return m['c'] + x @ m['A'].T + m['B'] @ previous_controls + m['C'] @ new_controls + (x * np.roll(x, -1, axis=1)) @ m['G'].T

    def predict_measurement(self, hidden_states, controls):
        m, x = self.m, hidden_states
        return m['d'] + x @ m['D'].T + m['E'] @ controls + (x * np.roll(x, -1, axis=1)) @ m['H'].T


def poly(r, n, k, nu, linear):
    def mat(a, b, s=1.):
        return np.round(r.normal(size=(a, b)) * s, 4)
    g = 0. if linear else 0.05
    return dict(c=mat(1, n)[0], A=np.round(well(r, n, n) * 0.4, 4), B=mat(n, nu), C=mat(n, nu), G=mat(n, n, g),
                d=mat(1, k)[0], D=mat(k, n), E=mat(k, nu), H=mat(k, n, g))


class Filters:
    def __init__(self, s, r):
        self.s, self.r, self.fs, self.info = s, r, [], []
        self.n, self.k, self.nu = int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(1, 3))
        self.m = poly(r, self.n, self.k, self.nu, r.random() < 0.35)
        self.ux = self.uy = 1.  # units of the states and of the outputs
        if r.random() < 0.3:
            self.ux, self.uy = (float(10. ** r.integers(-6, 4)) for _ in range(2))
            a, b = self.ux, self.uy
            self.m = {k: v * dict(c=a, B=a, C=a, G=1 / a, d=b, D=b / a, E=b, H=b / a / a).get(k, 1.) for k, v in self.m.items()}
        self.x0, self.P0, self.u0 = np.round(r.normal(size=self.n) * 2, 3), spd(r, self.n), np.round(r.normal(size=self.nu), 3)
        if r.random() < 0.15:  # part of the state is known exactly
            v = r.integers(-2, 3, size=(self.n, max(1, self.n - 1))).astype(float)
            self.P0 = v @ v.T
        self.x0, self.P0 = self.x0 * self.ux, self.P0 * self.ux ** 2
        self.hidden = MultivariateGaussian(mean=self.x0, covariance=self.P0)
        self.controls = DeltaDistribution(mean=self.u0)
        self.Q, self.R = spd(r, self.n, 0.05, 1.) * self.ux ** 2, spd(r, self.k, 0.05, 1.) * self.uy ** 2
        self.sent, self.returned = [], []

    def new(self):
        r = self.r
        L = 2 * self.n + self.k
        al = float(r.choice([1., 1., 0.5, 0.3, 0.1, 0.03]))
        be = float(r.choice([2., 2., 0., 1.5]))
        ka = 'automatic' if r.random() < 0.25 else float(r.choice([0., 0., 1., 3., -0.5]))
        if ka == 'automatic' and al < 0.3:
            al = 1.
        Q, R = self.Q.copy(), self.R.copy()
        kw = {}
        k = r.random()
        if k < 0.03:
            al = float(r.choice([0.0009, 1.01, -0.5, 0.]))
        elif k < 0.06:
            be = -0.1
        elif k < 0.09:
            ka = float(-L - r.choice([0., 1.]))
        elif k < 0.12:
            Q = spd(r, self.n + 1)
        elif k < 0.15:
            R = R[:, :-1] if r.random() < 0.5 else spd(r, self.k + 1)
        elif k < 0.18:
            Q = Q * 0.
        elif k < 0.25:
            Q = None
        elif k < 0.32 and self.uy <= 1:
            R = None
        if not (al == 1. and be == 2. and r.random() < 0.5):
            kw.update(alpha_param=al, beta_param=be)
        if ka != 0. or r.random() < 0.5:
            kw.update(kappa_param=ka)
        rec = dict(x=enc(self.hidden.get_mean()), P=enc(self.hidden.get_covariance()), u=enc(self.controls.get_mean()),
                   Q=enc(np.eye(self.n) * 1e-8 if Q is None else Q), R=enc(np.eye(self.k) * 1e-8 if R is None else R),
                   al=num(al), be=num(be), ka=ka if ka == 'automatic' else num(ka), m={k: enc(v) for k, v in self.m.items()})
        if Q is not None:
            kw['covariance_process_noise'] = Q
        if R is not None:
            kw['covariance_sensor_noise'] = R
        f, e = self.s.call(UnscentedKalmanFilter, Poly(self.m), self.hidden, self.controls, **kw)
        self.s.add('new', f=rec, err=e, nh=self.n, no=self.k)
        if not e:
            self.fs.append(f)
            self.info.append((1e-4 if R is None else 1e-7 if al >= 0.1 else 1e-5, Q, R))  # tiny noise makes the gain ill-conditioned

    def step(self):
        r = self.r
        i = int(r.integers(len(self.fs)))
        f = self.fs[i]
        u = DeltaDistribution(mean=some(r, r.normal(size=self.nu), 3))
        # near what the model says, so that estimates stay of moderate size
        x = self.m['A'] @ f.hidden.get_mean()
        y = DeltaDistribution(mean=self.m['D'] @ x + some(r, r.normal(size=self.k) * 2, 3) * self.uy)
        uu, yy = u.get_mean(), y.get_mean()
        pts = enc(f.build_sigma_points())
        h, p = f.step(u, y) if r.random() < 0.5 else f.step(new_controls=u, measurements=y)
        self.sent += [u, y]
        self.returned += [h, p]
        self.s.add('step', i=i + 1, pts=pts, u=enc(uu), y=enc(yy), x=enc(f.hidden.get_mean()), P=enc(f.hidden.get_covariance()), rx=enc(h.get_mean()),
                   rP=enc(h.get_covariance()), py=enc(p.get_mean()), pP=enc(p.get_covariance()), ku=enc(f.controls.get_mean()), tol=num(self.info[i][0]),
                   others=[dict(x=enc(g.hidden.get_mean()), P=enc(g.hidden.get_covariance())) for g in self.fs], ux=num(self.ux), uy=num(self.uy), _w=20)
        P = f.hidden.get_covariance()
        return bool(np.abs(f.hidden.get_mean()).max() < 1e3 * self.ux and np.abs(P).max() < 1e4 * self.ux ** 2)

    def sigma(self):
        i = int(self.r.integers(len(self.fs)))
        self.s.add('sigma', i=i + 1, pts=enc(self.fs[i].build_sigma_points()), tol=num(self.info[i][0]), ux=num(self.ux))

    def write(self):
        """The caller goes on using what it handed over, and what it got"""
        r = self.r
        for a in [self.x0, self.P0, self.u0] + [x for i in self.info for x in i[1:] if x is not None]:
            if r.random() < 0.5:
                a *= 1.5
                a += 0.1
        for d in self.sent[-2:] + self.returned[-2:]:
            if r.random() < 0.5:
                d.mean += 1.
                if hasattr(d, 'covariance'):
                    d.covariance[:] = 2 * d.covariance
        self.s.add('write')


def filters(s, key):
    r = nrng('C11', key)
    f = Filters(s, r)
    for _ in range(int(r.integers(1, 3))):
        f.new()
    while not f.fs:
        f.new()
    for _ in range(int(r.integers(3, 8))):
        k = str(r.choice(['step', 'step', 'step', 'step', 'sigma', 'write']))
        if getattr(f, k)() is False and k == 'step':
            break


class Same(Poly):
    """Its prediction is the very array it is given"""
    def predict_measurement(self, hidden_states, controls):
        return hidden_states


def identity(s):
    """One step of a filter whose model returns its argument, as in the tests of the repository"""
    one, none = np.ones((1, 1)), np.zeros((1, 1))
    m = dict(c=np.zeros(1), A=one, B=none, C=none, G=none, d=np.zeros(1), D=one, E=none, H=none)
    x, P, Q, R, u, v, y = (np.array(a, dtype=float) for a in ([9.], [[1.]], [[0.01]], [[0.01]], [0.], [1.], [11.]))
    f = UnscentedKalmanFilter(Same(m), MultivariateGaussian(mean=x, covariance=P), DeltaDistribution(mean=u), alpha_param=1.,
                              covariance_process_noise=Q, covariance_sensor_noise=R)
    s.add('new', f=dict(x=enc(x), P=enc(P), u=enc(u), Q=enc(Q), R=enc(R), al=num(1.), be=num(2.), ka=num(0.), m={k: enc(a) for k, a in m.items()}),
          err='', nh=1, no=1)
    pts = enc(f.build_sigma_points())
    h, p = f.step(new_controls=DeltaDistribution(mean=v), measurements=DeltaDistribution(mean=y))
    s.add('step', i=1, pts=pts, u=enc(v), y=enc(y), x=enc(f.hidden.get_mean()), P=enc(f.hidden.get_covariance()), rx=enc(h.get_mean()),
          rP=enc(h.get_covariance()), py=enc(p.get_mean()), pP=enc(p.get_covariance()), ku=enc(f.controls.get_mean()), tol=num(1e-7), ux='1', uy='1',
          others=[dict(x=enc(f.hidden.get_mean()), P=enc(f.hidden.get_covariance()))])


def projections(s, key):
    r = nrng('C11p', key)
    for _ in range(6):
        n = int(r.integers(1, 6))
        k = r.random()
        if k < 0.3:
            S = spd(r, n)
        elif k < 0.4:
            v = r.integers(-3, 4, size=(n, max(1, n - 1))).astype(float)
            S = v @ v.T
        elif k < 0.75:
            q, _ = np.linalg.qr(r.normal(size=(n, n)))
            S = q @ np.diag(r.normal(size=n) * 10 ** r.uniform(-2, 2)) @ q.T
            S = (S + S.T) / 2
        else:
            S = r.normal(size=(n, n))
        a = S.copy()
        got = ensure_positive_semi_definite(a)
        s.add('project', S=enc(S), got=enc(got), after=enc(a))
        c, cy = r.normal(size=(int(r.integers(1, 4)), n)), spd(r, n)
        s.add('gain', cxy=enc(c), cy=enc(cy), got=enc(calculate_gain_matrix(c, cy)))


def c11(res):
    res.model_check('MCUkf', 'MCUkfDeep.cfg' if THOROUGH else 'MCUkf.cfg', workers=8)
    named = [(f'filter-{i}', lambda s, i=i: filters(s, i)) for i in range(1500 if THOROUGH else 150)]
    named += [(f'projection-{i}', lambda s, i=i: projections(s, i)) for i in range(400 if THOROUGH else 60)]
    named.append(('identity-prediction', identity))
    res.validate('TraceUkf', [record(nm, f) for nm, f in only(named)], shards=8)
