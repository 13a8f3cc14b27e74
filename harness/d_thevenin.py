"""The adapter to the external solver of circuits (C21).  The solver is not installed; a stand-in takes its place, whose solution depends on
everything it is given (Solved in Thevenin.tla)."""
import sys
import types

import numpy as np

from common import THOROUGH, enc, nrng, num, record, some
from d_params import only


class Experiment:
    def __init__(self, *a, **k):
        self.steps = []

    def add_step(self, mode, value, tspan, limits=None, **options):
        if mode != 'current_A':
            raise ValueError(mode)
        if callable(value):
            value = value(0.)
        dt = tspan[0] if isinstance(tspan, tuple) else np.asarray(tspan).ravel()[-1]
        self.steps.append((float(np.asarray(value).item()), float(dt)))


class Solution:
    def __init__(self, v):
        self.vars = v


class Model:
    def __init__(self, params=None, **kw):
        self.p = dict(params)
        n = self.p['num_RC_pairs']
        self._ptr = dict(soc=0, T_cell=1, eta_j=np.arange(2, 2 + n))
        self._sv0 = np.concatenate([[float(self.p['soc0']), 1.], np.zeros(n)])

    def run(self, exp, *a, **k):
        p, n = self.p, self.p['num_RC_pairs']
        soc, eta = self._sv0[0], self._sv0[self._ptr['eta_j']].copy()
        out = dict(soc=[soc], temperature_K=[float(p['T_inf'])], **{f'eta{j + 1}_V': [eta[j]] for j in range(n)})
        for load, dt in exp.steps:
            amb = float(p['T_inf'])
            s1 = soc - load * dt / 3600 / p['capacity']
            temp = (amb + 0.01 * p['mass'] + 1e-4 * p['Cp'] + 0.1 * p['h_therm'] + 0.2 * p['A_therm'] + p['ocv'](soc) + 2 * p['ocv'](s1)
                    + 3 * p['R0'](soc, amb) + 5 * p['R0'](s1, amb + 10) + (7 if p['isothermal'] else 0))
            eta = np.array([0.5 * eta[j] + load * p[f'R{j + 1}'](soc, amb + 5) + 1e-3 * dt * p[f'C{j + 1}'](s1, amb) for j in range(n)])
            soc = s1
            out['soc'].append(soc)
            out['temperature_K'].append(temp)
            for j in range(n):
                out[f'eta{j + 1}_V'].append(eta[j])
        return Solution({k: np.array(v, dtype=float) for k, v in out.items()})


stand_in = types.ModuleType('thevenin')
stand_in.Model, stand_in.Experiment = Model, Experiment
sys.modules['thevenin'] = stand_in

from moirae.models.thevenin import TheveninModel  # noqa: E402
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable  # noqa: E402
from moirae.models.thevenin.ins_outs import TheveninInput  # noqa: E402
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient  # noqa: E402


def rows(r, B, n, lo, hi, pb):
    v = np.round(r.uniform(lo, hi, size=(B if r.random() < pb else 1, n)), 4)
    if r.random() < 0.1:
        v[0, 0] = 0. if lo <= 0 else lo
    return v


def plain(v, scalar=False):
    return float(v[0, 0]) if v.shape == (1, 1) and scalar else v


def element(r, B, lo, hi, pb):
    kw = dict(soc_coeffs=rows(r, B, int(r.integers(1, 4)), lo, hi, pb))
    if r.random() < 0.7:
        kw['t_coeffs'] = rows(r, B, int(r.integers(1, 4)), -1e-2, 1e-2, pb) * 10. ** -np.arange(3)[:1]
    if r.random() < 0.6:
        kw['t_ref'] = rows(r, B, 1, 280, 310, pb)[:, 0]
    return SOCTempPolynomialVariable(**kw)


def describe(r, B, pb):
    n = int(r.integers(0, 4))
    kw = dict(ocv=SOCPolynomialVariable(coeffs=rows(r, B, int(r.integers(1, 5)), 0.1, 3., pb)), r=tuple(element(r, B, 0.01, 0.1, pb) for _ in range(n + 1)),
              c=tuple(element(r, B, 10, 100, pb) for _ in range(n)))
    for k, lo, hi in [('capacity', 0.5, 5), ('mass', 0.05, 1), ('c_p', 500, 2000), ('h_thermal', 1, 20), ('a_therm', 0.1, 2)]:
        if r.random() < 0.7:
            kw[k] = rows(r, B, 1, lo, hi, pb)[:, 0]
    return TheveninASOH(**kw)


def enc_el(f):
    return dict(s=enc(f.soc_coeffs), t=enc(f.t_coeffs), ref=enc(f.t_ref))


def enc_x(x):
    return dict(soc=enc(x.soc), temp=enc(x.temp), eta=enc(x.eta))


def enc_u(u):
    return dict(t=enc(u.time), i=enc(u.current), amb=enc(u.t_inf))


def dump(*objs):
    return [[(k, getattr(o, k).copy() if isinstance(getattr(o, k), np.ndarray) else str(getattr(o, k))) for k in type(o).model_fields] for o in objs]


def same(a, b):
    return all(len(x) == len(y) and all(k == m and (np.array_equal(v, w) if isinstance(v, np.ndarray) else v == w) for (k, v), (m, w) in zip(x, y)) for x, y in zip(a, b))


def batch(s, i, r):
    """One batch of cells, stepped several times"""
    B = int(r.choice([1, 2, 2, 3, 4]))
    pb = 0. if B == 1 else float(r.choice([0.1, 0.3, 0.6, 1.]))
    a = describe(r, B, pb)
    n = a.num_rc_elements
    iso = bool(r.random() < 0.5)
    model = TheveninModel(isothermal=iso) if iso or r.random() < 0.5 else TheveninModel()
    if r.random() < 0.25:
        soc, temp = float(some(r, r.uniform(0, 1), 3)), float(some(r, r.uniform(280, 310), 1))
        x = TheveninTransient.from_asoh(a, soc=soc, temp=temp) if r.random() < 0.7 else TheveninTransient.from_asoh(a, soc)
    else:
        x = TheveninTransient(soc=rows(r, B, 1, 0, 1, pb)[:, 0], temp=rows(r, B, 1, 280, 310, pb)[:, 0], eta=rows(r, B, n, -0.3, 0.3, pb) if n else [])
    batched_inputs = B > 1 and r.random() < 0.3

    def inp(t):
        kw = {}
        if r.random() < 0.8:
            kw['t_inf'] = rows(r, B, 1, 280, 310, 0.5 if batched_inputs else 0.)[:, 0]
        if batched_inputs:
            return TheveninInput(time=t + some(r, r.uniform(0, 5, size=B), 2), current=some(r, r.normal(size=B), 3), **kw)
        return TheveninInput(time=t, current=float(some(r, r.normal() * 2, 3)) if r.random() < 0.85 else 0., **kw)
    size = max([x.batch_size, a.batch_size] + ([B] if batched_inputs else []))
    t = float(r.choice([0., 100.]))
    p = inp(t)
    s.add('begin', p=enc_u(p), c=dict(B=size, cap=enc(a.capacity), mass=enc(a.mass), cp=enc(a.c_p), h=enc(a.h_thermal), area=enc(a.a_therm), ocv=enc(a.ocv.coeffs),
                                      r=[enc_el(f) for f in a.r], c=[enc_el(f) for f in a.c], iso=iso, x=enc_x(x)))
    for _ in range(int(r.integers(1, 5))):
        t += float(r.choice([1., 10., 100., 0.])) + (5 if batched_inputs else 0)
        u = inp(t)
        before = dump(p, u, x, a)
        new, err = s.call(lambda: model.update_transient_state(p, u, x, a) if r.random() < 0.5 else
                          model.update_transient_state(previous_inputs=p, new_inputs=u, transient_state=x, asoh=a))
        ok = same(before, dump(p, u, x, a))
        s.add('step', i=i, u=enc_u(u), err=err, o={} if err else enc_x(new), same=ok, _w=size)
        if err:
            return
        x, p = new, u
        before = dump(p, u, x, a)
        v, err = s.call(lambda: model.calculate_terminal_voltage(u, x, a))
        s.add('volts', i=i, u=enc_u(u), err=err, v=[] if err else enc(v.terminal_voltage), same=same(before, dump(p, u, x, a)))


def parts(s, r):
    """Components on their own"""
    B = int(r.choice([1, 2, 3, 4]))
    pb = float(r.choice([0.3, 0.6, 1.]))
    if r.random() < 0.4:
        f = SOCPolynomialVariable(coeffs=rows(r, B, int(r.integers(1, 5)), -1, 3., pb))
        e, n = dict(s=enc(f.coeffs)), f.coeffs.shape[0]
    else:
        f = element(r, B, -0.1, 0.1, pb)
        e, n = enc_el(f), f.batch_size
    two = 'ref' in e
    if r.random() < 0.6:  # one member
        b = int(r.integers(B))
        k = int(r.integers(1, 4))
        soc, T = some(r, r.uniform(-0.2, 1.2, size=k), 3), some(r, r.uniform(270, 320, size=k), 1)
        scalar = k == 1 and r.random() < 0.7
        args = ((float(soc[0]), float(T[0])) if scalar else (soc, T))[:2 if two else 1]
        got, err = s.call(lambda: f(*args, batch_id=b))
        s.add('poly', f=e, b=b + 1, n=k, socs=enc(soc), temps=enc(T), got=enc(np.ravel(got)) if not err else [], err=err)
    else:
        k = n if r.random() < 0.6 else 1
        if n == 1 and r.random() < 0.5:
            k = int(r.integers(2, 5))
        soc, T = some(r, r.uniform(-0.2, 1.2, size=k), 3), some(r, r.uniform(270, 320, size=k if r.random() < 0.7 else 1), 1)
        args = ((float(soc[0]), float(T[0])) if k == 1 and r.random() < 0.5 else (soc, T))[:2 if two else 1]
        n = max(k, n)
        got, err = s.call(lambda: f(*args))
        s.add('poly', f=e, b=0, n=n, socs=enc(soc), temps=enc(T), got=enc(np.ravel(got)) if not err else [], err=err)


def adapter(s, key):
    r = nrng('C21', key)
    for i in range(int(r.integers(1, 4))):
        batch(s, i + 1, r)
    for _ in range(4):
        parts(s, r)


def c21(res):
    res.model_check('MCThevenin', 'MCTheveninDeep.cfg' if THOROUGH else 'MCThevenin.cfg', workers=8)
    named = [(f'adapter-{i}', lambda s, i=i: adapter(s, i)) for i in range(5000 if THOROUGH else 300)]
    res.validate('TraceThevenin', [record(nm, f) for nm, f in only(named)], shards=8)
