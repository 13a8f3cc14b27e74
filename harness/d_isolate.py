"""Whoever works on a cell leaves the objects of the caller alone, and the other way round (C20)"""
import copy

import numpy as np
import pandas as pd
from pydantic import BaseModel

import d_thevenin
from common import THOROUGH, enc, nrng, record
from d_estim import ToyAging, ToyCell, ToyHealth, ToyInput, ToyOutput, ToyState, ToySub
from d_filters import spd
from d_loss import frame
from d_params import only
from ecm_tools import ECM, SMOOTH, Drive, random_asoh, random_state
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.conversions import LinearConversionOperator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import BaseCellWrapper, CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.interface import run_online_estimate
from moirae.models.base import HealthVariable
from moirae.models.ecm.ins_outs import ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninTransient
from moirae.simulator import Simulator


def content(o):
    """Everything an object of the caller says"""
    if isinstance(o, np.ndarray):
        return enc(o)
    if isinstance(o, BaseModel):
        out = []
        for k in type(o).model_fields:
            v = getattr(o, k)
            if k == 'soc_pinpoints' and v is None and o.base_values.shape[1] > 1:
                v = np.linspace(0, 1, o.base_values.shape[1])  # which is what None means
            out.append(content(v))
        return out
    if isinstance(o, (set, frozenset)):
        return [word(x) for x in sorted(o)]
    if isinstance(o, (list, tuple)):
        return [content(x) for x in o]
    if isinstance(o, dict):
        return [content(x) for x in o.values()]
    if o is None:
        return []
    if isinstance(o, str):
        return word(o)
    if isinstance(o, (int, float, np.number)):
        return enc(np.array([float(o)]))
    if hasattr(o, 'raw_data'):
        d = o.raw_data
        return [[word(str(c)) for c in d.columns], [word(str(i)) for i in d.index], enc(d.to_numpy(dtype=float)), [word(t) for t in sorted(o.tables)]]
    if isinstance(o, BaseCellWrapper):
        return []
    raise TypeError(type(o))


def word(s):
    """Text as numbers"""
    return [str(b) for b in str(s).encode()]


def answer(x):
    """What an operation tells"""
    if isinstance(x, (list, tuple)):
        return [answer(y) for y in x]
    if hasattr(x, 'get_mean'):
        return [enc(x.get_mean()), enc(x.get_covariance())]
    if hasattr(x, 'to_numpy'):
        return enc(x.to_numpy())
    if isinstance(x, HealthVariable):
        return enc(x.get_parameters(list(x.all_names)))
    if isinstance(x, np.ndarray):
        return enc(x)
    if isinstance(x, (float, int, np.number)):
        return enc(np.array([float(x)]))
    raise TypeError(type(x))


# ---------------------------------------------------------------- users: how each is made, and what it can do
def make_sim(f, a):
    return Simulator(f['model'], a['asoh'], a['x'], a['u0'], keep_history=f['keep'], **({'degradation_model': f['aging']} if f.get('aging') else {}))


def make_joint(f, a):
    kw = dict(covariance_sensor_noise=a['R'], normalize_asoh=f['norm'])
    if f['blocks']:
        kw.update(covariance_transient=a['Px'], covariance_asoh=a['Ph'], transient_covariance_process_noise=a['Qx'], asoh_covariance_process_noise=a['Qh'])
    else:
        kw.update(covariance_joint=a['P'], joint_covariance_process_noise=a['Q'])
    return JointEstimator.initialize_unscented_kalman_filter(cell_model=f['model'], initial_asoh=a['asoh'], initial_transients=a['x'], initial_inputs=a['u0'], **kw)


def make_dual(f, a):
    return DualEstimator.initialize_unscented_kalman_filter(
        cell_model=f['model'], initial_asoh=a['asoh'], initial_transients=a['x'], initial_inputs=a['u0'], covariance_transient=a['Px'],
        covariance_asoh=a['Ph'], transient_covariance_process_noise=a['Qx'], asoh_covariance_process_noise=a['Qh'], covariance_sensor_noise=a['R'],
        normalize_asoh=f['norm'])


def make_joint_wrapped(f, a):
    return JointEstimator.initialize_ukf_from_wrapper(a['wj'], covariance_joint=a['P'], joint_covariance_process_noise=a['Q'], covariance_sensor_noise=a['R'])


def make_dual_wrapped(f, a):
    return DualEstimator.initialize_ukf_from_wrappers(a['wc'], a['wd'], covariance_transient=a['Px'], covariance_asoh=a['Ph'],
                                                      transient_covariance_process_noise=a['Qx'], asoh_covariance_process_noise=a['Qh'],
                                                      covariance_sensor_noise=a['R'])


def make_ukf(f, a):
    return UnscentedKalmanFilter(a['wc'], a['dist'], a['ctrl'], covariance_process_noise=a['Qx'], covariance_sensor_noise=a['R'])


def make_loss(f, a):
    return MeanSquaredLoss(f['model'], a['asoh'], a['x'], a['data'])


KINDS = {  # how it is made, from what
    'sim': (make_sim, ['asoh', 'x', 'u0']),
    'joint': (make_joint, ['asoh', 'x', 'u0', 'P', 'Q', 'Px', 'Ph', 'Qx', 'Qh', 'R']),
    'dual': (make_dual, ['asoh', 'x', 'u0', 'Px', 'Ph', 'Qx', 'Qh', 'R']),
    'jointw': (make_joint_wrapped, ['wj', 'P', 'Q', 'R']),
    'dualw': (make_dual_wrapped, ['wc', 'wd', 'Px', 'Ph', 'Qx', 'Qh', 'R']),
    'ukf': (make_ukf, ['wc', 'dist', 'ctrl', 'Qx', 'R']),
    'loss': (make_loss, ['asoh', 'x', 'data']),
    'model': (lambda f, a: f['model'], []),
    'wrap': (lambda f, a: a['wj'], ['wj']),
}


def op_est_step(o, f, a):
    return list(o.step(a['u'], a['y']))


def op_run(o, f, a):
    df, _ = run_online_estimate(a['data'], o)
    return df.to_numpy()


def fitted(loss):
    m = ScipyMinimizer(loss, method='Nelder-Mead', options=dict(maxfev=8))
    x, asoh, _ = m.estimate()
    return [x, asoh]


def ops_of(f):
    est = [('step', op_est_step, ['u', 'y']), ('step', op_est_step, ['u', 'y']), ('state', lambda o, f, a: o.state, []),
           ('estimated', lambda o, f, a: list(o.get_estimated_state()), [])]
    if f['ecm']:
        est.append(('run', op_run, ['data']))
    out = dict(
        sim=[('step', lambda o, f, a: list(o.step(a['u'])), ['u']), ('step', lambda o, f, a: list(o.step(a['u'])), ['u']),
             ('evolve', lambda o, f, a: list(o.evolve([a['u'], a['v']])), ['u', 'v']),
             ('look', lambda o, f, a: [o.transient, o.measurement, o.asoh, o.previous_input], [])],
        joint=est, dual=est, jointw=est, dualw=est,
        ukf=[('step', lambda o, f, a: list(o.step(a['uc'], a['yd'])), ['uc', 'yd']), ('hidden', lambda o, f, a: [o.hidden, o.controls], [])],
        loss=[('score', lambda o, f, a: o(a['samples']), ['samples']), ('score', lambda o, f, a: o(a['samples']), ['samples']),
              ('x0', lambda o, f, a: o.get_x0(), []), ('fit', lambda o, f, a: list(fitted(o)), [])],
        model=[('update', lambda o, f, a: o.update_transient_state(previous_inputs=a['u'], new_inputs=a['v'], transient_state=a['x'], asoh=a['asoh']),
                ['u', 'v', 'x', 'asoh']),
               ('voltage', lambda o, f, a: o.calculate_terminal_voltage(new_inputs=a['u'], transient_state=a['x'], asoh=a['asoh']), ['u', 'x', 'asoh'])],
        wrap=[('update', lambda o, f, a: o.update_hidden_states(a['hid'], a['ua'], a['va']), ['hid', 'ua', 'va']),
              ('predict', lambda o, f, a: o.predict_measurement(a['hid'], a['ua']), ['hid', 'ua'])])
    if f['ecm']:
        out['model'] += [('energy', lambda o, f, a: a['asoh'].get_theoretical_energy(temperature=20.), ['asoh']),
                         ('start', lambda o, f, a: ECMTransientVector.from_asoh(a['asoh']), ['asoh']),
                         ('ocv', lambda o, f, a: [a['asoh'].ocv(a['x'].soc, temp=30.), a['asoh'].r0.get_value(a['x'].soc, temp=30.)], ['asoh', 'x'])]
    return out


class World:
    """A caller, what it holds, and who uses it"""

    def __init__(self, s, r, f, objs):
        self.s, self.r, self.f = s, r, f
        self.objs, self.users, self.log_ops, self.snap = {}, [], [], 0
        self.ops = ops_of(f)
        self.used = set()  # what somebody has been given
        for n, o in objs.items():
            self.objs[n] = o
            self.log('hold', n=n, val=content(o))

    def log(self, ev, **k):
        self.s.add(ev, store=[content(o) for o in self.objs.values()], **k)

    def duplicate(self, names):
        """Copies of the objects as they are now, which nobody will touch"""
        out = {}
        for n in names:
            self.snap += 1
            c = f'{n}~{self.snap}'
            self.objs[c] = copy.deepcopy(self.objs[n])
            self.log('duplicate', n=c, of=n)
            out[n] = c
        return out

    def make(self, kind):
        fun, needs = KINDS[kind]
        kept = self.duplicate(needs)
        u = fun(self.f, {n: self.objs[n] for n in needs})
        self.users.append(u)
        self.log_ops.append((kind, kept, []))
        self.used |= set(needs)
        self.log('make', kind=kind, names=needs)

    def operate(self, k):
        kind, _, done = self.log_ops[k]
        ops = self.ops[kind]
        op, fun, needs = ops[int(self.r.integers(len(ops)))]
        if op in ('run', 'fit') and self.r.random() < 0.6:
            op, fun, needs = ops[0]
        kept = self.duplicate(needs)
        a, e = self.s.call(fun, self.users[k], self.f, {n: self.objs[n] for n in needs})
        done.append((op, fun, needs, kept))
        self.used |= set(needs)
        self.log('operate', u=k + 1, op=op, names=needs, a=[['1' if e else '0']] + ([] if e else [answer(a)]))
        return not e

    def alone(self, k):
        """The same again, with nobody else around and nothing that changes"""
        kind, kept, done = self.log_ops[k]
        fun, needs = KINDS[kind]
        u = fun(self.f, {n: self.objs[kept[n]] for n in needs})
        self.users.append(u)
        self.log('make', kind=kind, names=[kept[n] for n in needs])
        for op, fun, needs, kept in done:
            a, e = self.s.call(fun, u, self.f, {n: self.objs[kept[n]] for n in needs})
            self.log('operate', u=len(self.users), op=op, names=[kept[n] for n in needs], a=[['1' if e else '0']] + ([] if e else [answer(a)]))

    def change(self, free=True):
        """The caller changes one of its objects; with free, also which parameters it wants estimated"""
        r = self.r
        free_to = [n for n in self.objs if '~' not in n and n != 'data' and not isinstance(self.objs[n], BaseCellWrapper)]
        used = [n for n in free_to if n in self.used]
        n = str(r.choice(used if used and r.random() < 0.75 else free_to))
        o = self.objs[n]
        g = float(r.uniform(0.93, 1.07))
        if isinstance(o, np.ndarray):
            o *= g
        elif isinstance(o, (MultivariateGaussian, DeltaDistribution)):
            if r.random() < 0.5:
                o.mean *= g
            elif isinstance(o, MultivariateGaussian):
                o.covariance *= g
            else:
                o.mean = o.mean * g
        elif isinstance(o, HealthVariable):
            k = r.random()
            names = list(o.updatable_names)
            if k < 0.3 and names:
                o.update_parameters(o.get_parameters() * g)
            elif k < 0.4 and free:
                o.mark_all_updatable()
            elif k < 0.5 and free:
                o.mark_all_fixed()
            else:  # in place
                ps = dict(o.iter_parameters(updatable_only=False))
                v = ps[str(r.choice(list(ps)))]
                if np.issubdtype(v.dtype, np.floating):
                    v *= g
        else:
            fs = [k for k in type(o).model_fields if getattr(o, k) is not None and getattr(o, k).size and k != 'time']
            k = str(r.choice(fs))
            v = getattr(o, k)
            if r.random() < 0.5:
                setattr(o, k, np.array(v * g, dtype=float))
            elif r.random() < 0.5 and n not in ('u0', 'u', 'v'):
                o.from_numpy(o.to_numpy() * g)
            elif np.issubdtype(v.dtype, np.floating):
                v *= g
        self.log('change', n=n, val=content(o))

    def give(self, n, o):
        """The caller puts something else in the place of an object, in the same object where it can"""
        self.objs[n] = o
        self.log('change', n=n, val=content(o))


def matrices(r, n, m, k):
    Px, Ph, Qx, Qh = (spd(r, d, 1e-6, 1e-4) for d in (n, m, n, m))
    return dict(Px=Px, Ph=Ph, Qx=Qx * 0.1, Qh=Qh * 0.1, P=spd(r, n + m, 1e-6, 1e-4), Q=spd(r, n + m, 1e-7, 1e-5), R=spd(r, k, 1e-4, 1e-2))


def ecm_world(s, r, batched):
    B = int(r.choice([1, 2, 3])) if batched else 1
    a = random_asoh(r, B, styles=SMOOTH)
    a.q_t.base_values = a.q_t.base_values.astype(float)
    a.mark_updatable('q_t.base_values')
    a.mark_updatable('r0.base_values')
    if r.random() < 0.5:
        a.mark_updatable('h0.base_values')
    x = random_state(r, a, B)
    d = Drive(r, a.q_t.base_values.min(), 0.5, 'constant', temp=True)
    f = dict(ecm=True, model=ECM(), keep=bool(r.random() < 0.5), norm=bool(r.random() < 0.5), blocks=bool(r.random() < 0.5))
    us = [d.input() if i == 0 else d.next(zero=0.) for i in range(3)]
    for u in us:
        u.current, u.temperature = u.current.astype(float), u.temperature.astype(float)
    y = ECMMeasurement(terminal_voltage=float(r.uniform(3.2, 3.8)))
    objs = dict(asoh=a, x=x, u0=us[0], u=us[1], v=us[2], y=y)
    n, m = x.to_numpy().shape[1], a.num_updatable
    rows = [(float(t), float(r.normal()), 25., float(r.uniform(3.2, 3.8)), True) for t in np.cumsum(r.choice([1., 2., 5.], size=3))]
    objs['data'] = frame(r, rows, 'all')
    return f, objs, n, m, 1


def toy_world(s, r):
    nw, nv = int(r.integers(0, 3)), int(r.integers(1, 3))
    h = ToyHealth(a=float(r.uniform(0.5, 1.5)), v=np.round(r.uniform(0.3, 1.2, size=(1, nv)), 3), sub=ToySub(b=float(r.uniform(0.5, 1.2))), z=float(r.normal() * 0.3))
    for n in r.permutation(['a', 'v', 'sub.b', 'z'])[:int(r.integers(1, 4))]:
        h.mark_updatable(str(n))
    x = ToyState(s=float(r.normal() * 0.5), q=float(r.normal() * 0.5) if r.random() < 0.5 else None, w=r.normal(size=(1, nw)) * 0.5)
    us = [ToyInput(time=float(t), current=float(r.normal()), temperature=float(r.uniform(10, 30))) for t in (0., 1., 2.5)]
    f = dict(ecm=False, model=ToyCell(0), keep=bool(r.random() < 0.5), norm=bool(r.random() < 0.5), blocks=bool(r.random() < 0.5),
             aging=ToyAging() if r.random() < 0.4 else None)
    y = ToyOutput(terminal_voltage=float(r.uniform(3., 4.)))
    objs = dict(asoh=h, x=x, u0=us[0], u=us[1], v=us[2], y=y)
    return f, objs, len(x), h.num_updatable, 1


def worlds(s, key, first=''):
    r = nrng('C20', key)
    real = bool(r.random() < 0.6) or first == 'loss'
    batched = real and first in ('', 'sim', 'model') and bool(r.random() < 0.6)
    f, objs, n, m, k = ecm_world(s, r, batched) if real else toy_world(s, r)
    single = not batched
    if single:
        objs.update(matrices(r, n, m, k))
        x, a, u0 = objs['x'], objs['asoh'], objs['u0']
        kw = dict(converters={'hidden_conversion_operator': LinearConversionOperator(multiplicative_array=r.uniform(0.5, 2., size=n + m))}) if r.random() < 0.5 else {}
        objs['wj'] = JointCellModelWrapper(f['model'], a, x, u0, **kw)
        objs['wc'] = CellModelWrapper(f['model'], a, x, u0)
        objs['wd'] = DegradationModelWrapper(f['model'], a, x, u0)
        objs['dist'] = MultivariateGaussian(mean=x.to_numpy()[0].copy(), covariance=objs['Px'].copy())
        objs['ctrl'] = DeltaDistribution(mean=u0.to_numpy()[0].copy())
        objs['uc'] = DeltaDistribution(mean=objs['u'].to_numpy()[0].copy())
        objs['yd'] = DeltaDistribution(mean=objs['y'].to_numpy()[0].copy())
        objs['hid'] = np.concatenate([x.to_numpy(), a.get_parameters()], axis=1) * r.uniform(0.95, 1.05, size=(3, 1))
        objs['ua'], objs['va'] = objs['u'].to_numpy()[0].copy(), objs['v'].to_numpy()[0].copy()
    kinds = ['sim', 'model'] + (['joint', 'dual', 'jointw', 'dualw', 'ukf', 'wrap'] if single else []) + (['loss'] if single and real else [])
    if kinds[-1] == 'loss':
        x0 = np.concatenate([objs['x'].to_numpy(), objs['asoh'].get_parameters()], axis=1)
        objs['samples'] = x0 * r.uniform(0.97, 1.03, size=(2, 1))
    w = World(s, r, f, objs)
    chosen = [str(q) for q in r.permutation(kinds)[:int(r.integers(1, 3))]]
    chosen += [str(r.choice(chosen))]  # two of a kind
    if first in kinds:
        chosen = [first] + chosen[1:]
    todo = list(chosen)
    stuck = set()
    t = 0.
    for _ in range(int(r.integers(8, 15))):
        p = r.random()
        if todo and (p < 0.35 or not w.users):
            w.make(todo.pop(0))
        elif p < 0.8 and w.users:
            ks = [i for i in range(len(w.users)) if i not in stuck]
            if not ks:
                break
            i = int(r.choice(ks))
            if not w.operate(i):
                stuck.add(i)
            if r.random() < 0.5:  # time goes on
                t += float(r.choice([1., 2., 10.]))
                for nm in ('u', 'v'):
                    u = w.objs[nm].model_copy(deep=True) if r.random() < 0.5 else w.objs[nm]
                    u.time = u.time + t
                    w.give(nm, u)
        else:
            w.change(free=not todo)
    for i in range(len(w.log_ops)):
        w.alone(i)


def thevenins(s, key):
    """The adapter to the external solver"""
    r = nrng('C20t', key)
    B = int(r.choice([1, 2]))
    a = d_thevenin.describe(r, B, 0.5)
    a.mark_all_updatable()
    x = TheveninTransient(soc=r.uniform(0.3, 0.7, size=B), temp=float(r.uniform(290, 310)), eta=r.normal(size=(1, a.num_rc_elements)))
    us = [TheveninInput(time=float(t), current=float(r.normal()), t_inf=float(r.uniform(290, 310))) for t in (0., 10., 20.)]
    f = dict(ecm=False, model=d_thevenin.TheveninModel(), keep=True, norm=False, blocks=False)
    w = World(s, r, f, dict(asoh=a, x=x, u0=us[0], u=us[1], v=us[2]))
    for kind in ('sim', 'model', 'sim'):
        w.make(kind)
        for _ in range(2):
            w.operate(int(r.integers(len(w.users))))
        w.change()
    for _ in range(3):
        w.operate(int(r.integers(3)))
    for i in range(3):
        w.alone(i)


def c20(res):
    res.model_check('MCIsolate', 'MCIsolateDeep.cfg' if THOROUGH else 'MCIsolate.cfg', workers=8)
    for v in ('Shares', 'Common'):
        res.model_check('MCIsolate', f'MCIsolate{v}.cfg', workers=4, expect='Invariant Alone')
    kinds = list(KINDS)
    named = [(f'world-{i}', lambda s, i=i: worlds(s, i, kinds[i % len(kinds)])) for i in range(1500 if THOROUGH else 150)]
    named += [(f'thevenin-{i}', lambda s, i=i: thevenins(s, i)) for i in range(200 if THOROUGH else 20)]
    res.validate('TraceIsolate', [record(nm, f) for nm, f in only(named)], shards=8)
