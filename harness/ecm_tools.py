"""Circuits: random descriptions, states and inputs, and their encoding for the specification"""
import numpy as np

from common import enc, num
from moirae.models.ecm import EquivalentCircuitModel as ECM
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity, OpenCircuitVoltage, RCComponent,
                                          ReferenceOCV, Resistance)
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement  # noqa: F401
from moirae.models.ecm.transient import ECMTransientVector

STYLES = ['linear', 'linear', 'slinear', 'nearest', 'nearest-up', 'zero', 'quadratic', 'cubic', 'cubic', 'previous', 'next']
SMOOTH = ['linear', 'linear', 'slinear', 'quadratic', 'cubic', 'cubic', 'zero', 'nearest']


def table(r, B, lo, hi, monotone=False, styles=SMOOTH, pconst=0.4, pb=0.4):
    """Arguments of a quantity which depends on the state of charge"""
    rows = B if r.random() < pb else 1
    if r.random() < pconst:
        v = r.uniform(lo, hi, size=(rows, 1))
        if r.random() < 0.4 and rows == 1:
            v = float(v[0, 0])
        return dict(base_values=v, interpolation_style=str(r.choice(styles))) if r.random() < 0.5 else dict(base_values=v)
    style = str(r.choice(styles))
    need = {'quadratic': 3, 'cubic': 4}.get(style, 2)
    n = int(r.integers(need, need + 4))
    v = lo + (hi - lo) * r.uniform(0.2, 0.8, size=(rows, n))
    if monotone or r.random() < 0.3:
        v = np.sort(v, axis=1)
    kw = dict(base_values=v, interpolation_style=style)
    if r.random() < 0.5:
        pins = np.linspace(0, 1, n)
        pins[1:-1] += r.uniform(-0.3, 0.3, size=n - 2) / (n - 1)
        if r.random() < 0.3:
            pins = pins * 0.9 + 0.05
        kw['soc_pinpoints'] = pins if r.random() < 0.5 else pins.tolist()
    return kw


def column(r, B, lo, hi, pb=0.4, special=None):
    v = r.uniform(lo, hi, size=B if r.random() < pb else 1)
    if r.random() < 0.25:  # the ends of the range, for some of the members
        v = np.where(r.random(v.size) < 0.5, lo if r.random() < 0.5 or special is None else special, v)
    return v if r.random() < 0.7 or v.size > 1 else float(v[0])


def random_asoh(r, B=1, nrc=None, c0=None, pb=0.4, styles=SMOOTH):
    nrc = int(r.integers(0, 4)) if nrc is None else nrc
    c0 = bool(r.random() < 0.4) if c0 is None else c0

    def res(lo, hi):
        kw = table(r, B, lo, hi, pb=pb, styles=styles)
        if r.random() < 0.7:
            kw['temperature_dependence_factor'] = column(r, B, 0., 0.01, pb)
        if r.random() < 0.5:
            kw['reference_temperature'] = float(np.round(r.uniform(15, 35), 2)) if r.random() < 0.75 else float(r.choice([0., 25., -10.]))
        return Resistance(**kw)

    ocv = ReferenceOCV(**table(r, B, 3., 4., monotone=True, pconst=0.1, pb=pb, styles=styles),
                       **(dict(reference_temperature=column(r, B, 15, 35, pb, 0.)) if r.random() < 0.5 else {}))
    kw = dict(q_t=MaxTheoreticalCapacity(base_values=column(r, B, 0.5, 12., pb)),
              ocv=OpenCircuitVoltage(ocv_ref=ocv, **(dict(ocv_ent=EntropicOCV(**table(r, B, -0.01, 0.01, pb=pb, styles=styles))) if r.random() < 0.6 else {})),
              r0=res(0.01, 0.1),
              rc_elements=tuple(RCComponent(r=res(0.01, 0.1), c=Capacitance(**table(r, B, 200., 20000., pb=pb, styles=styles))) for _ in range(nrc)))
    if r.random() < 0.7:
        kw['ce'] = column(r, B, 0.8, 1., pb, 1.)
    if c0:
        kw['c0'] = Capacitance(**table(r, B, 5e4, 5e5, pb=pb, styles=styles))
    if r.random() < 0.8:
        kw['h0'] = HysteresisParameters(**table(r, B, 0.01, 0.1, pb=pb, styles=styles), gamma=column(r, B, 0., 5., pb))
    return ECMASOH(**kw)


def enc_table(f):
    return dict(v=enc(f.base_values), pin=enc(f.soc_pinpoints), style=str(f.interpolation_style))


def enc_res(f):
    return dict(enc_table(f), g=enc(f.temperature_dependence_factor), tref=num(f.reference_temperature))


def enc_asoh(a):
    return dict(qt=enc(a.q_t.base_values), ce=enc(a.ce), ocv=enc_table(a.ocv.ocv_ref), tref=enc(a.ocv.ocv_ref.reference_temperature),
                ent=enc_table(a.ocv.ocv_ent), r0=enc_res(a.r0), c0=[] if a.c0 is None else [enc_table(a.c0)],
                rc=[dict(r=enc_res(e.r), c=enc_table(e.c)) for e in a.rc_elements], h0=enc_table(a.h0), gamma=enc(a.h0.gamma))


def enc_state(x):
    return dict(soc=enc(x.soc), q0=[] if x.q0 is None else enc(x.q0), irc=enc(x.i_rc), hyst=enc(x.hyst))


def enc_input(u):
    return dict(t=num(u.time[0, 0]), i=num(u.current[0, 0]), temp=[] if u.temperature is None else [num(u.temperature[0, 0])])


def random_state(r, a, B=1, pb=0.4, soc=None):
    def col(lo, hi):
        v = r.uniform(lo, hi, size=B if r.random() < pb else 1)
        return np.where(r.random(v.size) < 0.5, 0., v) if lo < 0 and r.random() < 0.15 else v
    nrc = len(a.rc_elements)
    return ECMTransientVector(soc=col(0.1, 0.9) if soc is None else soc, q0=None if a.c0 is None else col(-500, 500),
                              i_rc=r.normal(size=(B if r.random() < pb else 1, nrc)) * 2, hyst=col(-0.05, 0.05))


def temperature(r, lo=10, hi=45):
    if r.random() < 0.3:
        return float(r.uniform(lo, hi))
    return float(np.round(r.uniform(lo, hi), 1)) if r.random() < 0.8 else float(r.choice([0., 25., -5., 20.]))


class Drive:
    """Random currents and durations which keep the state of charge in range"""

    def __init__(self, r, q, soc, mode, temp=None):
        self.r, self.q, self.soc, self.mode = r, float(q), float(soc), mode
        self.temp = temp if temp is not None else bool(r.random() < 0.6)
        self.free = bool(r.random() < 0.12)  # not kept in range
        self.least = float(r.choice([0.05, 0.05, 1e-3]))
        self.t = float(np.round(r.uniform(0, 1000), 1)) if r.random() < 0.5 else 0.
        self.i = self.current()
        self.T = temperature(r)

    def current(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return 0.
        if r.random() < 0.12:  # a trickle
            return float(r.choice([-1, 1]) * self.q * 10. ** r.uniform(-7, -3))
        v = r.uniform(-1, 1) * self.q * r.choice([0.1, 1., 3.])
        return float(np.round(v, 3) if r.random() < 0.6 else v)

    def input(self):
        return ECMInput(time=self.t, current=self.i, **(dict(temperature=self.T) if self.temp else {}))

    def next(self, zero=0.12):
        r = self.r
        i0, i1 = self.i, self.current()
        if r.random() < 0.2:
            i1 = i0
        if r.random() < 0.1:
            i1 = -i0
        if r.random() < zero:
            dt = 0.
        else:
            amp = max(abs(i0), abs(i1))
            f = float(r.choice([1e-5, 1e-3, 0.01, 0.05, 0.15]))
            dt = f * 3600 * self.q / amp if amp else float(10. ** r.uniform(-2, 5))
            dt = min(max(dt, self.least), 1e6)
            if r.random() < 0.04:  # times which should be the same, but for round-off
                dt = float(r.choice([1e-14, 1e-12, 1e-9])) * max(self.t, 1.)
            if r.random() < 0.3:
                dt = float(np.ceil(dt))
        mean = i0 if self.mode == 'constant' else (i0 + i1) / 2
        if not self.free and not 0.08 < self.soc + mean * dt / 3600 / self.q < 0.92:
            if self.mode == 'constant':
                dt = self.least
            else:
                i1 = -abs(i1) if self.soc > 0.5 else abs(i1)
                dt = min(dt, 20.)
        self.soc += (i0 if self.mode == 'constant' else (i0 + i1) / 2) * dt / 3600 / self.q
        self.t += dt
        self.i = i1
        if r.random() < 0.3:
            self.T = temperature(r)
        return self.input()


def member(a, b):
    """The single cell which is member b of a batch of descriptions"""
    a = a.model_copy(deep=True)

    def cut(o):
        for k in type(o).model_fields:
            v = getattr(o, k)
            if isinstance(v, np.ndarray) and k != 'soc_pinpoints':
                setattr(o, k, v[b % v.shape[0]:b % v.shape[0] + 1].copy())
            elif hasattr(v, 'model_fields'):
                cut(v)
            elif isinstance(v, tuple):
                for e in v:
                    cut(e)
    cut(a)
    return a


def member_state(x, b):
    def row(v):
        return None if v is None else v[b % v.shape[0]:b % v.shape[0] + 1].copy()
    return ECMTransientVector(soc=row(x.soc)[:, 0], q0=None if x.q0 is None else row(x.q0)[:, 0], i_rc=row(x.i_rc), hyst=row(x.hyst)[:, 0])
