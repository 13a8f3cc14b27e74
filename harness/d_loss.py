"""Offline estimation (C17)"""
import numpy as np
import pandas as pd

from common import THOROUGH, enc, nrng, num, record, some
from d_estim import Circuits as Cell, NAMES, ToyCell, ToyHealth, ToyState, ToySub
from d_params import only
from ecm_tools import ECM, Drive, member, member_state, random_asoh, random_state
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer


def frame(r, rows, temps):
    """Data of measured rows, in any layout that means the same"""
    from battdat.data import CellDataset
    d = dict(test_time=[w[0] for w in rows], current=[w[1] for w in rows], voltage=[w[3] for w in rows])
    if temps != 'none':
        d['temperature'] = [w[2] if w[4] else float(r.choice([np.nan, np.inf])) for w in rows]
    if r.random() < 0.4:
        d['cycle_number'] = [k // 3 for k in range(len(rows))]
    cols = list(d)
    if r.random() < 0.5:
        cols = [str(c) for c in r.permutation(cols)]
    df = pd.DataFrame({c: d[c] for c in cols})
    if r.random() < 0.5:
        n = len(rows)
        df.index = [r.permutation(n) + 5, np.zeros(n, dtype=int), np.arange(n)[::-1], [f'r{k}' for k in range(n)]][int(r.integers(4))]
    return CellDataset(raw_data=df)


def series(r, n, amp=1., pauses=(0.5, 1., 1., 2., 0.)):
    temps = str(r.choice(['none', 'all', 'some']))
    t, rows = float(r.choice([0., 10., 3.5])), []
    for _ in range(n):
        has = temps == 'all' or temps == 'some' and r.random() < 0.6
        rows.append((t, float(some(r, r.normal() * amp, 3)), float(some(r, r.uniform(0, 40), 1)) if has else 25., 0., has))
        t += float(r.choice(pauses))
    return temps, rows


class Losses:
    def __init__(self, s, r):
        self.s, self.r = s, r
        self.made = []

    def new(self):
        r = self.r
        lay, base, h, sel, x, cell = self.cell()
        temps, rows = series(r, int(r.choice([1, 2, 3, 4, 5])), *self.pace(h))
        rows = [(*w[:3], float(some(r, 3 + r.normal() * 0.5, 3)), w[4]) for w in rows]
        data = frame(r, rows, temps)
        c = dict(lay=lay, base=base, sel=sel, x=enc(x.to_numpy()[0]), rows=[dict(t=num(w[0]), i=num(w[1]), tp=num(w[2]), v=num(w[3])) for w in rows])
        loss, err = self.s.call(lambda: MeanSquaredLoss(cell, h, x, data))
        if err:
            self.s.add('new', c=c, err=err)
            return
        self.made.append(dict(loss=loss, h=h, x=x, data=data, n=len(rows), names=self.names))
        self.s.add('new', c=c, err='', **self.looks(self.made[-1]))

    # What depends on the cell
    names, widths = NAMES, (0.05, 0.3)

    def pace(self, h):
        """Currents and durations"""
        return 1., [0.5, 1., 1., 2., 0.]

    def cell(self):
        r = self.r
        lay = dict(cell='toy', q=int(r.integers(0, 2)), nw=int(r.integers(0, 3)), nT=1, ne=0)
        nv = int(r.integers(1, 3))
        h = ToyHealth(a=float(r.uniform(0.5, 1.5)), v=np.round(r.uniform(0.3, 1.2, size=(1, nv)), 3), sub=ToySub(b=float(r.uniform(0.5, 1.2))),
                      z=float(np.round(r.normal() * 0.3, 3)))
        sel = [n for n in NAMES if r.random() < 0.5] if r.random() < 0.85 else []
        for n in [str(n) for n in r.permutation(sel)] if sel else []:
            h.mark_updatable(n)
        x = ToyState(s=float(np.round(r.normal() * 0.5, 3)), q=float(np.round(r.normal() * 0.5, 3)) if lay['q'] else None,
                     w=np.round(r.normal(size=(1, lay['nw'])) * 0.5, 3))
        return lay, dict(a=num(h.a.item()), v=enc(h.v[0]), b=num(h.sub.b.item()), z=num(h.z.item())), h, sel, x, ToyCell(0)

    def health(self, h, m):
        return [enc(h.a[0]), enc(h.v[0]), enc(h.sub.b[0]), enc(h.z[0])]

    def looks(self, m):
        loss, df = m['loss'], m['data'].tables['raw_data']
        x0 = loss.get_x0()
        return dict(x0=enc(x0), health=self.health(m['h'], m), state=enc(m['x'].to_numpy()[0]), kept=self.health(loss.asoh, m), keptx=enc(loss.state.to_numpy()[0]),
                    data=[[num(df['test_time'].iloc[k]), num(df['current'].iloc[k]), num(df['voltage'].iloc[k])] for k in range(len(df))],
                    names=self.updatable(loss.asoh, m))

    def updatable(self, h, m):
        """Parameters in the order of the class, each with the subscripts of its elements"""
        out = []
        for n in m['names']:
            if n in h.updatable_names or any(u.startswith(n + '[') for u in h.updatable_names):
                k = h.get_parameters([n]).shape[1]
                out += [n] if k == 1 else [f'{n}[{j}]' for j in range(k)]
        return out

    def eval(self):
        r = self.r
        i = int(r.integers(len(self.made)))
        m = self.made[i]
        x0 = m['loss'].get_x0()
        k = int(r.choice([1, 1, 2, 3, 5]))
        xs = some(r, x0[None] + r.normal(size=(k, len(x0))) * float(r.choice([0.05, 0.3])), 4)
        if r.random() < 0.4:
            xs[int(r.integers(k))] = x0
        if r.random() < 0.2:
            xs[-1] = xs[0]
        arg = xs.copy()
        if r.random() < 0.2:  # a view of a larger array
            big = np.zeros((k, 2 * len(x0)))
            big[:, ::2] = xs
            arg = big[:, ::2]
        v, err = self.s.call(lambda: m['loss'](arg))
        vals = [] if err else enc(np.asarray(v).reshape(-1) if np.ndim(v) == 1 else np.asarray(v))
        scale = 1e-3 if np.abs(xs).max() < 5 else 1.
        self.s.add('eval', i=i + 1, xs=enc(xs), after=enc(arg), values=vals, err=err, scale=num(scale), _w=3 * k * m['n'], **self.looks(m))

    def write(self):
        """The caller goes on using what it handed over"""
        m = self.made[int(self.r.integers(len(self.made)))]
        h, x = m['h'].model_copy(deep=True), m['x'].model_copy(deep=True)
        self.disturb(m['h'], m['x'])
        m['h'].mark_all_updatable()
        x0 = m['loss'].get_x0()
        x0b = x0.copy()
        x0 += 1
        m['h'], m['x'] = h, x
        self.s.add('write', i=self.made.index(m) + 1, x0=enc(x0b))

    def disturb(self, h, x):
        h.a += 1
        h.v[:] += 1
        h.sub.b[:] += 1
        x.s[:] += 1
        x.w[:] += 1

    def minimise(self):
        r = self.r
        i = int(r.integers(len(self.made)))
        m = self.made[i]
        how = str(r.choice(['Nelder-Mead', 'Nelder-Mead', 'BFGS', 'L-BFGS-B', 'Powell']))
        kw = dict(method=how, options=dict(maxiter=dict(Powell=1, BFGS=3).get(how, int(r.integers(1, 15)))))
        out, err = self.s.call(lambda: ScipyMinimizer(m['loss'], **kw).estimate())
        if err:
            self.s.add('min', i=i + 1, err=err, best=[], fun='0', ox=[], oh=[], onames=[], **self.looks(m))
            return
        x, h, res = out
        if np.abs(res.x).max() > 20:
            return
        self.s.add('min', i=i + 1, err='', best=enc(res.x), fun=num(res.fun), ox=enc(x.to_numpy()[0]), oh=self.health(h, m), onames=self.updatable(h, m),
                   _w=4 * m['n'], **self.looks(m))
        self.disturb(h, x)


class Circuits(Losses):
    """The same with the circuit of Ecm.tla"""

    def pace(self, h):
        return h.q_t.base_values.item() * 0.5, [1., 10., 10., 60., 0.]

    def cell(self):
        r = self.r
        f = Cell.__new__(Cell)
        f.r = r
        f.setup()
        self.names = list(f.scales)
        for n in f.chosen:
            f.health.mark_updatable(n)
        sel = f.chosen
        if r.random() < 0.15:
            f.health.mark_all_fixed()
            sel = []
        f.lay['nT'] = 1
        return f.lay, f.base(), f.health, sel, f.state, f.cell

    def health(self, h, m):
        return [enc(h.get_parameters([n])[0]) for n in m['names']]

    def disturb(self, h, x):
        h.r0.base_values[:] += 1
        h.q_t.base_values[:] += 1
        x.soc[:] += 0.1


def losses(s, key, cls=Losses):
    r = nrng('C17', cls.__name__, key)
    f = cls(s, r)
    f.new()
    for _ in range(int(r.integers(4, 9))):
        k = str(r.choice(['eval', 'eval', 'eval', 'write', 'minimise', 'new']))
        if k == 'new' and len(f.made) > 2 or not f.made:
            k = 'new' if not f.made else 'eval'
        getattr(f, k)()


def predictions(model, h, st, ins):
    ps = []
    for j, u in enumerate(ins):
        u = u.model_copy(deep=True)
        if u.temperature is None:
            u = type(u)(time=u.time.item(), current=u.current.item(), temperature=25.)
        if j:
            st = model.update_transient_state(previous_inputs=prev, new_inputs=u, transient_state=st, asoh=h)
        ps.append(model.calculate_terminal_voltage(u, st, h).terminal_voltage.item())
        prev = u
    return ps


def real(s, key):
    """Losses of circuits: predictions of each vector alone come from the model itself"""
    r = nrng('C17r', key)
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r)
    x = random_state(r, a, soc=0.5)
    d = Drive(r, a.q_t.base_values[0, 0], 0.5, mode)
    n = int(r.integers(1, 7))
    ins = [d.input()] + [d.next(0.) for _ in range(n - 1)]
    rows = [(float(u.time.item()), float(u.current.item()), 25. if u.temperature is None else float(u.temperature.item()), float(some(r, r.uniform(3, 4), 3)),
             u.temperature is not None) for u in ins]
    data = frame(r, rows, 'all' if d.temp else 'none')
    names = ['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'r0.base_values'] + [f'rc_elements.{k}.r.base_values' for k in range(len(a.rc_elements))] + ['h0.base_values']
    sel = [nm for nm in names if r.random() < 0.4]
    for nm in sel:
        a.mark_updatable(nm)
    model = ECM(current_behavior=mode) if mode != 'constant' or r.random() < 0.5 else ECM()
    if r.random() < 0.4:  # measurements which the model predicts exactly, all of them or some
        guess = predictions(model, a, x, ins)
        rows = [(*w[:3], guess[k] if r.random() < 0.6 else w[3], w[4]) for k, w in enumerate(rows)]
        data = frame(r, rows, 'all' if d.temp else 'none')
    loss = MeanSquaredLoss(model, a, x, data)
    x0 = loss.get_x0()
    for _ in range(2):
        k = int(r.choice([1, 2, 4]))
        xs = x0[None] * (1 + r.normal(size=(k, len(x0))) * 0.02)
        if r.random() < 0.5:
            xs[int(r.integers(k))] = x0
        vals, err = s.call(lambda: loss(xs.copy()))
        preds = []
        for vec in xs:
            h, st = a.model_copy(deep=True), x.make_copy(vec[None, :len(x)])
            if sel:
                h.update_parameters(vec[None, len(x):].copy(), sel)
            ps = [num(v) for v in predictions(model, h, st, ins)]
            preds.append(ps)
        s.add('real', values=[] if err else enc(np.asarray(vals)), err=err, preds=preds, meas=[num(w[3]) for w in rows], _w=2)


def c17(res):
    res.model_check('MCLoss', 'MCLossDeep.cfg' if THOROUGH else 'MCLoss.cfg', workers=8)
    f = 8 if THOROUGH else 1
    named = [(f'loss-{i}', lambda s, i=i: losses(s, i)) for i in range(120 * f)] + [(f'circuit-{i}', lambda s, i=i: real(s, i)) for i in range(50 * f)]
    named += [(f'loss-circuit-{i}', lambda s, i=i: losses(s, i, Circuits)) for i in range(60 * f)]
    res.validate('TraceLoss', [record(nm, g) for nm, g in only(named)], shards=8)
