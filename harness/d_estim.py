"""Online estimators: coordinates (C12), joint estimation (C13), dual estimation (C14)"""
from typing import Optional

import numpy as np
from pydantic import Field

from common import THOROUGH, enc, nrng, num, record, some
from d_filters import random_bend, spd, well
from d_params import only
from ecm_tools import ECM, ECMInput, ECMTransientVector, enc_asoh, random_asoh, temperature
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.conversions import (AbsoluteValueConversionOperator, IdentityConversionOperator, LinearConversionOperator)
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.base import (CellModel, DegradationModel, GeneralContainer, HealthVariable, InputQuantities, ListParameter, OutputQuantities,
                                ScalarParameter)
from moirae.models.utils import NoDegradation


# ---------------------------------------------------------------- the cell of Estimator.tla
class ToySub(HealthVariable):
    b: ScalarParameter = 1.


class ToyHealth(HealthVariable):
    a: ScalarParameter = 1.
    v: ListParameter = Field(default=1.)
    sub: ToySub = Field(default_factory=ToySub)
    z: ScalarParameter = 0.


class ToyState(GeneralContainer):
    s: ScalarParameter = 0.
    q: Optional[ScalarParameter] = None
    w: ListParameter = Field(default=())


class ToyInput(InputQuantities):
    temperature: Optional[ScalarParameter] = None


class ToyOutput(OutputQuantities):
    e: Optional[ListParameter] = None


class ToyCell(CellModel):
    def __init__(self, ne):
        self.ne = ne

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        x, h, u0, u1 = transient_state, asoh, previous_inputs, new_inputs
        n = max(x.batch_size, h.batch_size, u0.batch_size, u1.batch_size)
        dt = u1.time - u0.time
        s = x.s + 0.1 * h.a * dt * (u1.current + 0.5 * u0.current) + 0.02 * h.sub.b * x.s ** 2 - 0.05 * x.s
        q = None if x.q is None else 0.9 * x.q + 0.1 * x.s * h.sub.b
        nw = x.w.shape[1]
        j = np.arange(nw)
        w = x.w * (0.7 + 0.05 * h.v[:, j % h.v.shape[1]]) + 0.2 * h.a * u0.current + 0.05 * (j + 1)
        return ToyState(s=s[:, 0], q=None if q is None else q[:, 0], w=np.broadcast_to(w, (n, nw)).copy())

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        x, h, u = transient_state, asoh, new_inputs
        j = np.arange(x.w.shape[1])
        v = 3 + h.z + x.s * (1 + 0.2 * h.a) + 0.3 * h.sub.b * u.current + 0.1 * h.v[:, :1] + np.sum(x.w * h.v[:, j % h.v.shape[1]], axis=1, keepdims=True)
        if x.q is not None:
            v = v + 0.5 * x.q
        if u.temperature is not None:
            v = v + 0.01 * u.temperature
        k = np.arange(self.ne)
        e = 0.2 * (k + 1) * v * h.sub.b + x.s + 0.3 * h.v[:, k % h.v.shape[1]] if self.ne else None
        return ToyOutput(terminal_voltage=v[:, 0], e=e)


class ToyAging(DegradationModel):
    def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
        h, i, t, x, v = previous_asoh, new_inputs.current, new_inputs.time, new_transients.s, new_measurements.terminal_voltage
        j = np.arange(h.v.shape[1]) + 1
        new = h.model_copy(deep=True)
        new.a = h.a * (1 - 0.01 * i * i) + 0.002 * v
        new.v = h.v + 0.003 * x * j + 0.001 * t
        new.sub.b = h.sub.b - 0.001 * v * h.sub.b
        new.z = h.z + 0.01 * i
        return new


# ---------------------------------------------------------------- conversions
def square_op(r, n, mode, mag=1.):
    """An invertible conversion: (operator, description).  mode: none, diag, full, abs"""
    if mode == 'none':
        return IdentityConversionOperator(), dict(op='identity')
    if mode == 'abs':
        idx = sorted(int(x) for x in r.permutation(n)[:int(r.integers(1, n + 1))])
        return AbsoluteValueConversionOperator(indices=idx), dict(op='abs', idx=[i + 1 for i in idx])
    if mode == 'bend':
        return random_bend(r, n)
    if mode == 'diag':
        if r.random() < 0.3:
            m = np.array(float(r.choice([-1, 1]) * r.uniform(0.4, 2.5)))
            md = num(m)
        else:
            m = r.choice([-1, 1], size=n) * r.uniform(0.4, 2.5, size=n)
            md = enc(np.diag(m))
    else:
        m = well(r, n, n) * mag  # quantities are mixed in units of each
        md = enc(m)
    kw, b = {}, np.zeros(1)
    if r.random() < 0.7:
        b = np.round(r.normal(size=n), 3) * (mag if mode == 'full' else 1.)
        kw['additive_array'] = b
    return LinearConversionOperator(multiplicative_array=m, **kw), dict(op='linear', m=md, b=enc(b))


ID = dict(op='identity')
NAMES = ['a', 'v', 'sub.b', 'z']


class Estimators:
    """Histories of estimators which were made from the same objects"""

    def __init__(self, s, r, kinds, modes):
        self.s, self.r, self.kinds, self.modes = s, r, kinds, modes
        self.setup()
        self.input = self.inp(0.)
        self.es, self.sent, self.t, self.tols, self.mags, self.sing, self.left = [], [], [], [], [], [], []

    def setup(self):
        r = self.r
        self.lay = dict(cell='toy', q=int(r.integers(0, 2)), nw=int(r.integers(0, 3)), nT=int(r.integers(0, 2)), ne=int(r.integers(0, 3)))
        lay = self.lay
        nv = int(r.integers(1, 3))
        self.health = ToyHealth(a=float(r.uniform(0.5, 1.5)), v=np.round(r.uniform(0.3, 1.2, size=(1, nv)), 3), sub=ToySub(b=float(r.uniform(0.5, 1.2))),
                                z=float(np.round(r.normal() * 0.3, 3)) if r.random() < 0.7 else 0.)
        chosen = [n for n in NAMES if r.random() < (0.3 if n == 'z' else 0.6)] or ['a']
        for n in chosen:
            self.health.mark_updatable(n)
        self.chosen = chosen
        self.state = ToyState(s=float(np.round(r.normal() * 0.5, 3)), q=float(np.round(r.normal() * 0.5, 3)) if lay['q'] else None,
                              w=np.round(r.normal(size=(1, lay['nw'])) * 0.5, 3))
        self.cell = ToyCell(lay['ne'])

    def inp(self, t):
        r = self.r
        kw = dict(temperature=float(np.round(r.uniform(0, 40), 1))) if self.lay['nT'] else {}
        return ToyInput(time=t, current=float(some(r, r.normal(), 3)), **kw)

    # What depends on the cell; magnitudes of states, selected parameters and outputs
    aging, steps, exact = ToyAging, [0.5, 1., 1., 2., 0.], 1e-9

    def mag(self, sel):
        return np.ones(self.state.to_numpy().shape[1]), np.ones(self.health.get_parameters(sel).shape[1]), np.ones(1 + self.lay['ne'])

    def everything(self, h):
        """Parameters of a description in the order of the specification, one row per member"""
        return [h.a, h.v, h.sub.b, h.z]

    def disturb(self):
        self.health.a += 1
        self.health.v[:] += 1
        self.health.sub.b += 1
        self.state.s += 1
        self.input.current += 1

    def disturb_objects(self, x, h):
        x.s += 1
        h.v += 1
        h.sub.b += 1

    def sane(self, e):
        return np.abs(e.state.get_mean()).max() < 30

    def base(self):
        h = self.health
        return dict(a=num(h.a.item()), v=enc(h.v[0]), b=num(h.sub.b.item()), z=num(h.z.item()))

    def tuning(self):
        r = self.r
        if r.random() < 0.4:
            return None, dict(al='1', be='2', ka='0')
        t = dict(alpha_param=float(r.choice([1., 0.7, 0.4])), beta_param=float(r.choice([2., 0., 1.])), kappa_param=float(r.choice([0., 1.])))
        return t, dict(al=num(t['alpha_param']), be=num(t['beta_param']), ka=num(t['kappa_param']))

    def ops(self, n, no, mag):
        """Converters of a wrapper and their description"""
        r = self.r
        nu = 2 + self.lay['nT']
        hm, um, ym = [str(r.choice(self.modes[k])) for k in ('h', 'u', 'y')]
        (h, hd), (u, ud), (y, yd) = square_op(r, n, hm, mag), square_op(r, nu, um), square_op(r, no, ym)
        c = {}
        for k, o, m in [('hidden_conversion_operator', h, hm), ('control_conversion_operator', u, um), ('output_conversion_operator', y, ym)]:
            if m != 'none' or r.random() < 0.3:
                c[k] = o
        return c, dict(h=hd, u=ud, y=yd)

    def describe(self):
        """What an estimator is made from"""
        r, lay = self.r, self.lay
        x, u = self.state.to_numpy()[0], self.input.to_numpy()[0]
        no = 1 + lay['ne']
        kind = str(r.choice(self.kinds))
        how = str(r.choice(['simple', 'wrapper', 'wrapper', 'hand']))
        deg = 'none' if how == 'simple' or r.random() < 0.4 else 'full'
        sel = list(self.chosen)
        if how != 'simple' and r.random() < 0.6:
            sel = [str(n) for n in r.permutation(sel)]
            if r.random() < 0.5:
                sel = sel[:max(1, len(sel) - 1)]
        nx, nh = len(x), self.health.get_parameters(sel).shape[1]
        explicit = how != 'simple' and (sel != self.chosen or r.random() < 0.5)
        mx, mh, my = self.mag(sel)
        P, Ph = spd(r, nx, 0.05, 0.4) * np.outer(mx, mx), spd(r, nh, 0.02, 0.15) * np.outer(mh, mh)
        Q, Qh = spd(r, nx, 0.02, 0.2) * np.outer(mx, mx), spd(r, nh, 0.01, 0.05) * np.outer(mh, mh)
        sing = bool(r.random() < 0.25)
        if sing:  # some of the parameters do not change, or are known exactly
            z = (r.random(nh) < 0.6).astype(float)
            Qh *= np.outer(z, z)
            if r.random() < 0.3:
                z = (r.random(nx) < 0.5).astype(float)
                Q *= np.outer(z, z)
            if r.random() < 0.4:
                z = (r.random(nh) < 0.6).astype(float)
                Ph *= np.outer(z, z)
        R = spd(r, no, 0.05, 0.5) * np.outer(my, my)
        k = r.random()
        noQ, noR = k < 0.12, 0.12 < k < 0.2 and nx + nh >= no and lay['cell'] == 'toy'
        return dict(kind=kind, sing=sing, how=how, deg=deg, sel=sel, explicit=explicit, nx=nx, nh=nh, no=no, P=P, Ph=Ph, Q=None if noQ else Q, Qh=None if noQ else Qh,
                    R=None if noR else R, mag=np.concatenate([mx, mh]), tun=self.tuning(), tunh=self.tuning(), x=x, u=u, tol=1e-3 if noR else 1e-6 if lay['cell'] == 'toy' else 1e-5, unc=spd(r, len(u)) if r.random() < 0.2 else None)

    def normalizer(self, d, with_state):
        v = self.health.get_parameters(d['sel'])[0]
        v = np.where(v == 0, 1., v)
        m = np.concatenate([np.ones(d['nx']), v]) if with_state else v
        return dict(op='linear', m=enc(np.diag(m)), b=['0'])

    def joint(self, d):
        r = self.r
        n = d['nx'] + d['nh']
        full = np.block([[d['P'], np.zeros((d['nx'], d['nh']))], [np.zeros((d['nh'], d['nx'])), d['Ph']]])
        kw = {}
        if r.random() < 0.5:  # with cross terms
            full = spd(r, n, 0.02, 0.3) * np.outer(d['mag'], d['mag'])
            kw['covariance_joint'] = full.copy()
            if r.random() < 0.3:
                kw['covariance_transient'] = np.eye(d['nx'])  # not used
        else:
            kw.update(covariance_transient=d['P'].copy(), covariance_asoh=d['Ph'].copy())
        Q = None
        if d['Q'] is not None:
            Q = np.block([[d['Q'], np.zeros((d['nx'], d['nh']))], [np.zeros((d['nh'], d['nx'])), d['Qh']]])
            if d['sing'] and r.random() < 0.5:
                kw['joint_covariance_process_noise'] = Q.copy()
            elif r.random() < 0.5 and not d['sing']:
                Q = spd(r, n, 0.01, 0.2) * np.outer(d['mag'], d['mag'])
                kw['joint_covariance_process_noise'] = Q.copy()
            else:
                kw.update(transient_covariance_process_noise=d['Q'].copy(), asoh_covariance_process_noise=d['Qh'].copy())
        if d['R'] is not None:
            kw['covariance_sensor_noise'] = d['R'].copy()
        if d['unc'] is not None:
            kw['inputs_uncertainty'] = d['unc'].copy()
        if d['tun'][0] is not None:
            kw['filter_args'] = d['tun'][0]
        if d['how'] == 'simple':
            norm = bool(r.random() < 0.5) and 'diag' in self.modes['h']
            o = dict(h=self.normalizer(d, True) if norm else ID, u=ID, y=ID)
            rec = self.rec(d, o, o, full, Q)
            return rec, lambda: JointEstimator.initialize_unscented_kalman_filter(self.cell, self.health, self.state, self.input, normalize_asoh=norm, **kw)
        c, o = self.ops(n, d['no'], d['mag'])
        rec = self.rec(d, o, o, full, Q)

        def make():
            w = JointCellModelWrapper(self.cell, self.health, self.state, self.input, **self.wkw(d), converters=c)
            if d['how'] == 'wrapper':
                return JointEstimator.initialize_ukf_from_wrapper(w, **kw)
            x0 = w.create_hidden_state(self.health, self.state)[0]
            return JointEstimator(self.filter(w, x0, d, full, Q, 'tun'))
        return rec, make

    def wkw(self, d):
        kw = {}
        if d['explicit']:
            kw['asoh_inputs'] = tuple(d['sel']) if self.r.random() < 0.5 else list(d['sel'])
        if d['deg'] == 'full':
            kw['degradation_model'] = self.aging()
        elif self.r.random() < 0.3:
            kw['degradation_model'] = NoDegradation()
        return kw

    def filter(self, w, x0, d, P, Q, tun):
        """A filter made by hand, in its own coordinates"""
        kw = dict(d[tun][0] or {})
        if Q is not None:
            kw['covariance_process_noise'] = w.hidden_conversion.inverse_transform_covariance(Q, np.zeros(len(Q)))
        if d['R'] is not None:
            kw['covariance_sensor_noise'] = w.output_conversion.inverse_transform_covariance(d['R'], np.zeros(len(d['R'])))
        return UnscentedKalmanFilter(w, MultivariateGaussian(mean=x0, covariance=w.hidden_conversion.inverse_transform_covariance(P, w.hidden_conversion.transform_samples(x0))),
                                     DeltaDistribution(mean=w.control_conversion.inverse_transform_samples(self.input.to_numpy()[0].copy())), **kw)

    def dual(self, d):
        r = self.r
        kw = dict(covariance_transient=d['P'].copy(), covariance_asoh=d['Ph'].copy())
        if d['Q'] is not None:
            kw.update(transient_covariance_process_noise=d['Q'].copy(), asoh_covariance_process_noise=d['Qh'].copy())
        if d['R'] is not None:
            kw['covariance_sensor_noise'] = d['R'].copy()
        if d['unc'] is not None:
            kw['inputs_uncertainty'] = d['unc'].copy()
        args = {k: t for k, t in [('transient', d['tun'][0]), ('asoh', d['tunh'][0])] if t is not None}
        if args or r.random() < 0.3:
            kw['filter_args'] = args
        if d['how'] == 'simple':
            norm = bool(r.random() < 0.5) and 'diag' in self.modes['h']
            rec = self.rec(d, dict(h=ID, u=ID, y=ID), dict(h=self.normalizer(d, False) if norm else ID, u=ID, y=ID), d['P'], d['Q'])
            return rec, lambda: DualEstimator.initialize_unscented_kalman_filter(self.cell, self.health, self.state, self.input, normalize_asoh=norm, **kw)
        c, o = self.ops(d['nx'], d['no'], d['mag'][:d['nx']])
        ch, oh = self.ops(d['nh'], d['no'], d['mag'][d['nx']:])
        rec = self.rec(d, o, oh, d['P'], d['Q'])

        def make():
            w = CellModelWrapper(self.cell, self.health, self.state, self.input, converters=c)
            wh = DegradationModelWrapper(self.cell, self.health, self.state, self.input, **self.wkw(d), converters=ch)
            if d['how'] == 'wrapper':
                return DualEstimator.initialize_ukf_from_wrappers(w, wh, **kw)
            return DualEstimator(self.filter(w, w.hidden_conversion.inverse_transform_samples(d['x'].copy()), d, d['P'], d['Q'], 'tun'),
                                 self.filter(wh, wh.hidden_conversion.inverse_transform_samples(self.health.get_parameters(d['sel'])[0]), d, d['Ph'], d['Qh'], 'tunh'))
        return rec, make

    def rec(self, d, o, og, P, Q):
        return dict(kind=d['kind'], lay=self.lay, base=self.base(), sel=d['sel'], deg=d['deg'], mag=enc(d['mag']), x=enc(d['x']), u=enc(d['u']), P=enc(P), Ph=enc(d['Ph']),
                    Q=enc(Q), Qh=enc(d['Qh']), R=enc(d['R']), tun=d['tun'][1], tunh=d['tunh'][1], o=o, og=og)

    # ------------------------------------------------ actions
    def looks(self, e):
        st = e.state
        x, h = e.get_estimated_state()
        return dict(sm=enc(st.get_mean()), sP=enc(st.get_covariance()), ox=enc(x.to_numpy()[0]),
                    oh=[enc(v[0]) for v in self.everything(h)])

    def all(self):
        return dict(all=[enc(e.state.get_mean()) for e in self.es], tols=[num(t) for t in self.tols])

    def new(self):
        d = self.describe()
        rec, make = getattr(self, d['kind'])(d)
        e, err = self.s.call(make)
        if err:
            self.s.add('new', d=rec, err=err)
            return
        self.es.append(e)
        self.t.append(0.)
        self.tols.append(d['tol'])
        self.left.append(2 if d['R'] is None else 100)  # nearly exact measurements of few quantities: errors of rounding grow with every step
        self.sing.append(d['sing'])
        self.s.add('new', d=rec, err=err, names=dict(state=list(e.state_names), output=list(e.output_names), control=list(e.control_names)),
                   dims=[e.num_state_dimensions, e.num_output_dimensions], **self.looks(e), **self.all(), tol=num(self.exact))

    def step(self):
        r = self.r
        i = int(r.integers(len(self.es)))
        if not self.left[i]:
            return
        self.left[i] -= 1
        e = self.es[i]
        self.t[i] += float(r.choice(self.steps))
        u = self.inp(self.t[i])
        x, h = e.get_estimated_state()
        y = self.cell.calculate_terminal_voltage(u, x, h)
        y = y.make_copy(some(r, y.to_numpy() + r.normal(size=y.to_numpy().shape) * 0.4 * self.mag(self.chosen)[2], 3))
        uu, yy = enc(u.to_numpy()[0]), enc(y.to_numpy()[0])
        pts = [f.build_sigma_points() for f in ([e.filter] if hasattr(e, 'filter') else [e.trans_filter, e.asoh_filter])] if self.sing[i] else []
        a, b = e.step(u, y) if r.random() < 0.5 else e.step(inputs=u, measurements=y)
        self.s.add('step', i=i + 1, u=uu, y=yy, pts=[enc(p) for p in pts], rm=enc(a.get_mean()), rP=enc(a.get_covariance()), ym=enc(b.get_mean()), yP=enc(b.get_covariance()),
                   tol=num(self.tols[i]), **self.looks(e), **self.all(), _w=20)
        self.sent = [u, y, a, b]
        return self.sane(e)

    def write(self):
        """The caller goes on using what it handed over, and what it got"""
        r = self.r
        if self.sent and r.random() < 0.7:
            u, y, a, b = self.sent
            u.from_numpy(u.to_numpy() + 1)
            y.from_numpy(y.to_numpy() + 1)
            a.mean += 1
            a.covariance[:] = 2 * a.covariance
            b.mean += 1
        else:
            h = self.health.model_copy(deep=True)
            x, u = self.state.model_copy(deep=True), self.input.model_copy(deep=True)
            self.disturb()
            self.health, self.state, self.input = h, x, u
        if self.es and r.random() < 0.5:
            x, h = self.es[int(r.integers(len(self.es)))].get_estimated_state()
            self.disturb_objects(x, h)
        self.s.add('write', **self.all(), tol=num(1e-4))

    def points(self):
        """A model as its filter sees it"""
        r = self.r
        d = self.describe()
        which = 'joint' if d['kind'] == 'joint' else str(r.choice(['state', 'health']))
        n = dict(joint=d['nx'] + d['nh'], state=d['nx'], health=d['nh'])[which]
        c, o = self.ops(n, d['no'], dict(joint=d['mag'], state=d['mag'][:d['nx']], health=d['mag'][d['nx']:])[which])
        idn = dict(h=ID, u=ID, y=ID)
        rec = self.rec(d, o if which != 'health' else idn, o if which == 'health' else idn, np.eye(d['nx'] + d['nh']) if which == 'joint' else d['P'], None)
        args = (self.cell, self.health, self.state, self.input)
        w = dict(joint=lambda: JointCellModelWrapper(*args, **self.wkw(d), converters=c), state=lambda: CellModelWrapper(*args, converters=c),
                 health=lambda: DegradationModelWrapper(*args, **self.wkw(d), converters=c))[which]()
        k = int(r.integers(1, 5))
        rows = self.rows_of(r, k, n, d, which, w)
        u0, u1 = [w.control_conversion.inverse_transform_samples(self.inp(t).to_numpy()[0]) for t in (0., float(r.choice(self.steps[1:4])))]
        arg = rows.copy()
        xs = w.update_hidden_states(arg, u0, u1)
        ys = w.predict_measurement(arg, u1)
        ys = np.repeat(ys, k, axis=0) if len(ys) == 1 else ys  # outputs which are the same for all points
        self.s.add('points', which=which, d=rec, rows=enc(rows), u0=enc(u0), u1=enc(u1), xs=enc(xs), ys=enc(ys), after=enc(arg),
                   dims=[w.num_hidden_dimensions, w.num_output_dimensions])
        if which == 'joint':
            h, x = w.create_cell_model_inputs(arg)
            hs = [np.repeat(v, k // v.shape[0], axis=0) for v in self.everything(h)]
            self.s.add('objects', d=rec, rows=enc(rows), ox=enc(x.to_numpy()), oh=enc(np.concatenate(hs, axis=1)), back=enc(w.create_hidden_state(h, x)),
                       templates=[enc(w.transients.to_numpy()[0])] + [enc(v[0]) for v in self.everything(w.asoh)])

    def rows_of(self, r, k, n, d, which, w):
        return some(r, r.normal(size=(k, n)), 3)


class Circuits(Estimators):
    """The same with the circuit of Ecm.tla"""
    steps, exact = [1., 1., 10., 60., 0.], 1e-7

    class aging(DegradationModel):
        def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
            new = previous_asoh.model_copy(deep=True)
            j = np.arange(new.r0.base_values.shape[1]) + 1
            new.q_t.base_values = new.q_t.base_values * (1 - 0.001 * new_inputs.current ** 2)
            new.r0.base_values = new.r0.base_values + 1e-4 * (new_measurements.terminal_voltage + j * new_transients.soc)
            return new

    def setup(self):
        r = self.r
        mode = str(r.choice(['constant', 'linear']))
        a = random_asoh(r, 1, nrc=int(r.integers(0, 3)), styles=['linear', 'linear', 'slinear', 'quadratic', 'cubic'])
        if a.c0 is not None:
            a.c0.base_values = a.c0.base_values * 1e-3
        self.health, self.cell = a, ECM(mode)
        rcs = [f'rc_elements.{k}.{w}.base_values' for k in range(len(a.rc_elements)) for w in 'rc']
        self.scales = {'q_t.base_values': 0.05, 'ce': 0.02, 'ocv.ocv_ref.base_values': 0.02, 'ocv.ocv_ent.base_values': 5e-4, 'r0.base_values': 0.003,
                       'r0.temperature_dependence_factor': 5e-4, **({'c0.base_values': 2.} if a.c0 is not None else {}),
                       **{n: 0.003 if '.r.' in n else 20. for n in rcs}, 'h0.base_values': 0.005}
        names = list(self.scales)
        k = min(len(names), int(r.integers(1, 4)))
        self.chosen = sorted([str(n) for n in r.permutation(names)[:k]], key=names.index)
        for n in self.chosen:
            a.mark_updatable(n)
        self.lay = dict(cell='circuit', q=int(a.c0 is not None), nw=len(a.rc_elements), nT=int(r.integers(0, 2)), ne=0, mode=mode, all=names)
        self.state = ECMTransientVector(soc=float(r.uniform(0.35, 0.65)), q0=None if a.c0 is None else float(r.normal()), i_rc=r.normal(size=(1, len(a.rc_elements))),
                                        hyst=float(r.normal() * 0.01))

    def inp(self, t):
        r = self.r
        q = float(self.health.q_t.base_values.item())
        kw = dict(temperature=temperature(r)) if self.lay['nT'] else {}
        return ECMInput(time=t, current=float(some(r, r.normal() * q * 0.5, 3)) if r.random() < 0.85 or self.modes['u'] != ['none'] else 0., **kw)  # conversions do not preserve zero exactly, and the circuit has a switch there

    def mag(self, sel):
        lay = self.lay
        mx = [0.03] + [1.] * lay['q'] + [0.3] * lay['nw'] + [0.01]
        mh = [self.scales[n] for n in sel for _ in range(self.health.get_parameters([n]).shape[1])]
        return np.array(mx), np.array(mh), np.array([0.05])

    def base(self):
        return enc_asoh(self.health)

    def everything(self, h):
        return [h.get_parameters([n]) for n in self.scales]

    def disturb(self):
        self.health.r0.base_values[:] += 1
        self.health.q_t.base_values[:] += 1
        self.state.soc += 0.1
        self.input.current += 1

    def disturb_objects(self, x, h):
        x.soc += 0.1
        h.ocv.ocv_ref.base_values += 1
        h.q_t.base_values += 1

    def sane(self, e):
        x, h = e.get_estimated_state()
        return -0.5 < x.soc.item() < 1.5 and h.q_t.base_values.item() > 0.2 and np.abs(e.state.get_mean()).max() < 1e6

    def rows_of(self, r, k, n, d, which, w):
        """Points around the state, in the coordinates of the filter"""
        x = np.concatenate([d['x'], self.health.get_parameters(d['sel'])[0]])
        p = x + r.normal(size=(k, len(x))) * d['mag']
        p = dict(joint=p, state=p[:, :d['nx']], health=p[:, d['nx']:])[which]
        return w.hidden_conversion.inverse_transform_samples(p)


ANY = dict(h=['none', 'diag', 'diag', 'full', 'abs', 'bend'], u=['none', 'diag', 'full', 'bend'], y=['none', 'diag', 'full', 'bend'])
PLAIN = dict(h=['none'], u=['none'], y=['none'])
SOME = dict(h=['none', 'none', 'diag'], u=['none', 'none', 'diag'], y=['none', 'none', 'diag'])
COORD = dict(h=['diag', 'full', 'none', 'abs', 'bend'], u=['diag', 'full', 'none'], y=['diag', 'full', 'none'])


def estimators(s, key, kinds, modes, tag, cls=Estimators):
    r = nrng(tag, key)
    f = cls(s, r, kinds, modes)
    for _ in range(int(r.integers(1, 3))):
        f.new()
    for _ in range(int(r.integers(4, 8))):
        k = str(r.choice(['step', 'step', 'step', 'step', 'points', 'write', 'new']))
        if k == 'new' and len(f.es) > 2 or k == 'step' and not f.es:
            k = 'points'
        if getattr(f, k)() is False and k == 'step':
            break


def run(res, tag, kinds, modes, n, models=True):
    real = [{k: [m for m in v if m not in ('abs', 'bend')] for k, v in mode.items()} for mode in modes]
    if models:
        res.model_check('MCEst', 'MCEstDeep.cfg' if THOROUGH else 'MCEst.cfg', workers=8)
        res.model_check('MCCircuit', 'MCCircuitDeep.cfg' if THOROUGH else 'MCCircuit.cfg', workers=8)
    named = [(f'{tag}-{i}', lambda s, i=i: estimators(s, i, kinds, modes[i % len(modes)], tag)) for i in range(n * (8 if THOROUGH else 1))]
    named += [(f'{tag}-circuit-{i}', lambda s, i=i: estimators(s, i, kinds, real[i % len(real)], tag + ' circuit', Circuits)) for i in range(n // 3 * (8 if THOROUGH else 1))]
    res.validate('TraceEst', [record(nm, f) for nm, f in only(named)], shards=8)


def c12(res):
    run(res, 'coordinates', ['joint', 'dual'], [COORD, COORD, ANY], 140)


def c13(res):
    run(res, 'joint', ['joint'], [PLAIN, SOME, ANY], 140)


def c14(res):
    run(res, 'dual', ['dual'], [PLAIN, SOME, ANY], 140)
