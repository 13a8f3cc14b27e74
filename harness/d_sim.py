"""Histories of simulators (C08) and their tables (C09)"""
import json
from typing import Optional

import numpy as np

from common import Broken, SEED, THOROUGH, enc, nrng, record, tlc, tlc_strings
from d_params import only
from moirae.models.base import (CellModel, DegradationModel, GeneralContainer, HealthVariable, InputQuantities, ListParameter, OutputQuantities,
                                ScalarParameter)
from moirae.simulator import Simulator

N = 997


class ToyInput(InputQuantities):
    temperature: Optional[ScalarParameter] = None
    extra: Optional[ListParameter] = None


class ToyState(GeneralContainer):
    s: ScalarParameter
    q: Optional[ScalarParameter] = None
    w: ListParameter


class ToyOut(OutputQuantities):
    e: Optional[ListParameter] = None


class ToyPart(HealthVariable):
    p: ScalarParameter


class ToyHealth(HealthVariable):
    sub: ToyPart


def toy_health(p):
    return ToyHealth(sub=ToyPart(p=p))


def rows(v, n):
    return np.repeat(v, n, 0) if v.shape[0] == 1 and n > 1 else v


class ToyModel(CellModel):
    """The model of the cell in Simulator.tla"""

    def __init__(self, ne):
        self.ne = ne

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        i0, i1 = previous_inputs.current, new_inputs.current
        dt = new_inputs.time - previous_inputs.time
        n = max(asoh.batch_size, transient_state.batch_size, previous_inputs.batch_size, new_inputs.batch_size)
        s = rows((2 * transient_state.s + 3 * asoh.sub.p + 5 * i1 + 7 * i0 + 11 * dt) % N, n)
        q = None if transient_state.q is None else rows((transient_state.q + transient_state.s) % N, n)
        j = np.arange(1, transient_state.w.shape[1] + 1)
        w = (transient_state.w * j + s + i0) % N if j.size else np.zeros((n, 0))
        return ToyState(s=s[:, 0], q=None if q is None else q[:, 0], w=w)

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        n = max(asoh.batch_size, transient_state.batch_size, new_inputs.batch_size)
        j = np.arange(1, transient_state.w.shape[1] + 1)
        v = transient_state.s + 2 * (transient_state.w * j).sum(axis=1, keepdims=True) + asoh.sub.p * new_inputs.current
        if transient_state.q is not None:
            v = v + transient_state.q
        v = rows(v % N, n)
        return ToyOut(terminal_voltage=v[:, 0], **(dict(e=v + np.arange(1, self.ne + 1)) if self.ne else {}))


class Full(DegradationModel):
    def __init__(self, inplace):
        self.inplace = inplace

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        p = (3 * previous_asoh.sub.p + new_measurements.terminal_voltage + new_transients.s + 13 * new_inputs.current) % N
        if self.inplace:  # a model may also give back the object it was given
            if self.inplace == 'array' and previous_asoh.sub.p.shape == p.shape:
                previous_asoh.sub.p[:] = p
            else:
                previous_asoh.sub.p = p
            return previous_asoh
        return toy_health(p[:, 0])


def ints(a):
    return [[int(x) for x in r] for r in a] if a is not None else []


def fields(c):
    return [dict(k=k, v=ints(getattr(c, k))) for k in type(c).model_fields]


def vals(c):
    return [enc(getattr(c, k)) for k in type(c).model_fields]


class Driver:
    def __init__(self, s, p, x, u, ne, kind, inplace=False):
        self.s, self.sims = s, []
        self.p, self.x, self.u, self.ne, self.kind, self.inplace = p, x, u, ne, kind, inplace
        self.sent = []
        self.columns_only = False

    def observe(self):
        out = []
        for S in [] if self.columns_only else self.sims:
            o = dict(p=enc(S.asoh.sub.p), x=vals(S.transient), u=vals(S.previous_input), m=vals(S.measurement))
            if S.keep_history:
                o.update(hp=[enc(h.sub.p) for h in S.asoh_history], hx=[vals(h) for h in S.transient_history],
                         hu=[vals(h) for h in S.input_history], hm=[vals(h) for h in S.measurement_history])
            else:
                o['none'] = S.input_history is None and S.transient_history is None and S.measurement_history is None
            out.append(o)
        return {} if self.columns_only else dict(sims=out)

    def log(self, ev, **f):
        self.s.add(ev, **f, **self.observe())

    def new(self, keep):
        kw = {}
        if self.kind == 'full':
            kw['degradation_model'] = Full(self.inplace)
        self.sims.append(Simulator(ToyModel(self.ne), self.p, self.x, self.u, keep_history=keep, **kw))
        self.log('new', p=ints(self.p.sub.p), x=fields(self.x), u=fields(self.u), ne=self.ne, kind=self.kind, keep=keep)

    def step(self, i, u):
        fu = fields(u)
        x, m = self.sims[i - 1].step(u)
        self.sent.append(u)
        self.log('step', i=i, u=fu, rx=vals(x), rm=vals(m))

    def evolve(self, i, us):
        fu = [fields(u) for u in us]
        ms = self.sims[i - 1].evolve(us)
        self.sent += us
        self.log('evolve', i=i, us=fu, rms=[vals(m) for m in ms])

    def write(self, what):
        """The caller reuses its objects"""
        if what == 'p':
            self.p.sub.p += 1
        elif what == 'x':
            self.x.s += 5
            self.x.w *= 2
        elif what == 'u':
            self.u.current += 9
        elif self.sent:
            self.sent[-1].current += 17
            self.sent[0].time += 3
        self.log('write')

    def table(self, i):
        df, e = self.s.call(self.sims[i - 1].to_dataframe)
        self.log('table', i=i, err=e, cols=[str(c) for c in df.columns] if not e else [], rows=enc(df.to_numpy()) if not e else [])

    def data(self, i, extra):
        sets = self.sims[i - 1].to_batdata(extra_columns=extra) if extra or i % 2 else self.sims[i - 1].to_batdata()
        def known(d):
            sch = d.schemas['raw_data']
            return [str(c) for c in d.tables['raw_data'].columns if c in sch.extra_columns or c in type(sch).model_fields]
        self.log('data', i=i, extra=extra, sets=[dict(cols=[str(c) for c in d.tables['raw_data'].columns], rows=enc(d.tables['raw_data'].to_numpy()),
                                                      known=known(d)) for d in sets])


def container(cls, fs):
    kw = {f['k']: np.array(f['v'], dtype=float) if f['k'] in ('w', 'extra') else np.array(f['v'], dtype=float).reshape(-1) for f in fs if f['v']}
    return cls(**kw)


def toy_input(fs):
    return container(ToyInput, fs)


def generated(s, hist):
    o = hist[0]
    d = Driver(s, toy_health(np.array(o['p'], dtype=float)[:, 0]), container(ToyState, o['x']), toy_input(o['u']), o['ne'], o['kind'], inplace=[False, 'array', True][len(hist) % 3])
    for c in hist[1:]:
        if c['op'] == 'new':
            d.new(c['keep'])
        elif c['op'] == 'step':
            d.step(c['i'], toy_input(c['u']))
        elif c['op'] == 'evolve':
            d.evolve(c['i'], [toy_input(u) for u in c['us']])
        elif c['op'] == 'write':
            d.write(c['what'])
        else:
            raise Broken(c['op'])


def setup(s, r, keep=None):
    B = int(r.choice([1, 1, 2, 3, 4]))

    def col(lo, hi, pb=0.4):
        return r.integers(lo, hi, size=B if r.random() < pb else 1).astype(float)
    nw = int(r.integers(0, 4))
    x = ToyState(s=col(0, 50), q=col(0, 50) if r.random() < 0.5 else None, w=r.integers(0, 50, size=(B if r.random() < 0.3 else 1, nw)).astype(float))
    d = Driver(s, toy_health(col(1, 9)), x, None, int(r.choice([0, 0, 1, 2])), str(r.choice(['none', 'full'])), inplace=[False, True, 'array'][int(r.integers(3))])
    temp, extra, bi = bool(r.random() < 0.5), int(r.choice([0, 0, 1, 2])), bool(r.random() < 0.3)
    t = [0]
    rest = r.random() < 0.2
    if rest:  # a state which does not change while nothing happens
        p, i = int(r.integers(1, 9)), int(r.integers(-5, 5))
        x = ToyState(s=float(-(3 * p + 12 * i) % N), q=None, w=np.zeros((1, 0)))
        d.p, d.x, d.kind = toy_health([float(p)]), x, 'none'
        temp = extra = bi = False
    back = r.random() < 0.1  # clocks may be set back

    def u():
        if rest:
            t[0] += int(r.integers(1, 5)) if r.random() < 0.2 else 0
            return ToyInput(time=float(t[0]), current=float(i))
        t[0] += int(r.integers(1, 5)) if r.random() < 0.85 else 0
        if back:
            t[0] -= int(r.integers(0, 5))
        return ToyInput(time=float(t[0]), current=col(-9, 9) if bi else float(r.integers(-9, 9)), **(dict(temperature=float(r.integers(0, 40))) if temp else {}),
                        **(dict(extra=r.integers(0, 9, size=(1, extra)).astype(float)) if extra else {}))
    d.u = u()
    return d, u


def random_history(s, key):
    r = nrng('C08', key)
    d, u = setup(s, r)
    for _ in range(int(r.integers(1, 3))):
        d.new(bool(r.random() < 0.75))
    for _ in range(int(r.integers(4, 10))):
        op = str(r.choice(['step', 'step', 'evolve', 'write', 'table']))
        i = int(r.integers(len(d.sims))) + 1
        if op == 'step':
            d.step(i, u())
        elif op == 'evolve':
            d.evolve(i, [u() for _ in range(int(r.integers(0, 4)))])
        elif op == 'write':
            d.write(str(r.choice(['p', 'x', 'u', 'sent'])))
        elif r.random() < 0.5:  # reading the history does not alter it
            d.s.call(d.sims[i - 1].to_dataframe)
            d.log('look')


def random_table(s, key):
    r = nrng('C09', key)
    d, u = setup(s, r)
    d.columns_only = True
    d.new(bool(r.random() < 0.93))
    for _ in range(int(r.integers(0, 4))):
        if r.random() < 0.5:
            d.step(1, u())
        else:
            d.evolve(1, [u() for _ in range(int(r.integers(1, 4)))])
        if r.random() < 0.4:
            d.table(1)
    d.table(1)
    if d.sims[0].keep_history:
        d.data(1, bool(r.random() < 0.5))
        d.table(1)


def ecm_table(s, key):
    """The tables of a real circuit say what its history holds"""
    from ecm_tools import ECM, Drive, random_asoh, random_state
    r = nrng('C09e', key)
    B = int(r.choice([1, 1, 2, 3]))
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r, B)
    x = random_state(r, a, B)
    d = Drive(r, float(np.min(a.q_t.base_values)), float(np.mean(x.soc)), mode)
    sim = Simulator(ECM(mode), a, x, d.input(), keep_history=True)
    u = None
    for _ in range(int(r.integers(0, 6))):
        u = d.next() if u is None or r.random() < 0.7 else u
        sim.step(u)
    D = Driver(s, None, None, None, 0, 'none')
    D.columns_only = True
    D.sims = [sim]

    def f(c):
        return [dict(k=k, v=[] if getattr(c, k) is None else enc(getattr(c, k))) for k in type(c).model_fields]
    s.add('given', sim=dict(keep=True, m=f(sim.measurement), hu=[f(c) for c in sim.input_history], hx=[f(c) for c in sim.transient_history],
                            hm=[f(c) for c in sim.measurement_history]))
    D.table(1)
    D.data(1, bool(r.random() < 0.5))
    D.table(1)


def histories(n, key):
    r = tlc('MCSim', 'GenSim.cfg', args=['-simulate', f'num={n}', '-depth', '9', '-seed', str(SEED * 1000 + key)], timeout=300)
    seen, out = set(), []
    for h in tlc_strings(r['out'], 'HIST'):
        h = json.loads(h)
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            out.append(h)
    if not out:
        raise Broken('no history was generated: ' + r['out'][-800:])
    return out[:n]


def ecm_sim(s, key):
    """The simulator of a real circuit does what calling the model step by step does"""
    from ecm_tools import ECM, Drive, enc_input, enc_state, random_asoh, random_state
    r = nrng('C08e', key)
    B = int(r.choice([1, 1, 2, 3]))
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r, B)
    x = random_state(r, a, B)
    d = Drive(r, float(np.min(a.q_t.base_values)), float(np.mean(x.soc)), mode)
    u0 = d.input()
    us = [d.next() for _ in range(int(r.integers(2, 6)))]
    model = ECM(mode)

    class Fade(DegradationModel):
        def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
            b = previous_asoh.model_copy(deep=True)
            b.r0.base_values = b.r0.base_values * (1 + 0.01 * abs(float(new_inputs.current[0, 0])))
            b.q_t.base_values = b.q_t.base_values * (1 - 0.001 * float(np.mean(new_measurements.terminal_voltage)) * abs(float(np.mean(new_transients.soc))))
            return b
    fade = bool(r.random() < 0.6)
    kw = dict(degradation_model=Fade()) if fade else {}
    sim = Simulator(model, a, x, u0, keep_history=True, **kw)
    sim2 = Simulator(model, a, x, u0, **kw)
    ax, xx, uu = a.model_copy(deep=True), x.model_copy(deep=True), u0.model_copy(deep=True)

    def rec(ax, xx, uu, m):
        y = enc_state(xx)
        return {**{k: v for k, v in y.items() if k != 'q0'}, 'q0': y['q0'] or [['0']], 'v': enc(m.terminal_voltage), 'i': enc(uu.current), 't': enc(uu.time),
                'r0': enc(ax.r0.base_values), 'qt': enc(ax.q_t.base_values)}
    s.add('start', B=1)

    def pair(expected, got, last=True):
        s.add('alone', result=expected)
        s.add('together', table={k: [v] for k, v in got.items()}, names=sorted(expected), tol='1e-12', last=last)
    m = model.calculate_terminal_voltage(uu, xx, ax)
    expected = [rec(ax, xx, uu, m)]
    half = int(r.integers(0, len(us) + 1))
    for u in us[:half]:
        sim.step(u)
    sim.evolve(us[half:])
    for k, u in enumerate(us):
        xn = model.update_transient_state(uu, u, xx, ax)
        m = model.calculate_terminal_voltage(u, xn, ax)
        an = Fade().update_asoh(ax, u, xn, m) if fade else ax
        uu, xx, ax = u, xn, an
        expected.append(rec(ax, xx, uu, m))
        _, m2 = sim2.step(u)
        pair(expected[-1], rec(sim2.asoh, sim2.transient, sim2.previous_input, sim2.measurement))
    for k, e in enumerate(expected):
        pair(e, rec(sim.asoh_history[k], sim.transient_history[k], sim.input_history[k], sim.measurement_history[k]))
    pair(expected[-1], rec(sim.asoh, sim.transient, sim.previous_input, sim.measurement))


def c08(res):
    res.model_check('MCSim', 'MCSimDeep.cfg' if THOROUGH else 'MCSim.cfg', workers=8)
    named = [(f'model-{i}', lambda s, h=h: generated(s, h)) for i, h in enumerate(histories(400 if THOROUGH else 60, 8))]
    named += [(f'random-{i}', lambda s, i=i: random_history(s, i)) for i in range(2000 if THOROUGH else 200)]
    todo = only(named)
    if todo:
        res.validate('TraceSim', [record(nm, f) for nm, f in todo], shards=8)
    todo = only([(f'circuit-{i}', lambda s, i=i: ecm_sim(s, i)) for i in range(500 if THOROUGH else 60)])
    if todo:
        res.validate('TraceBatch', [record(nm, f) for nm, f in todo], shards=4)


def c09(res):
    res.model_check('MCSim', 'MCSim.cfg', workers=8)
    named = [(f'table-{i}', lambda s, i=i: random_table(s, i)) for i in range(3000 if THOROUGH else 400)]
    named += [(f'circuit-{i}', lambda s, i=i: ecm_table(s, i)) for i in range(800 if THOROUGH else 100)]
    res.validate('TraceSim', [record(nm, f) for nm, f in only(named)], shards=8)
