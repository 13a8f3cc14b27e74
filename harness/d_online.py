"""Running estimators over datasets (C15) and storing what they estimate (C16)"""
import json
import shutil
import tempfile
from pathlib import Path

import h5py
import numpy as np
import pandas as pd
from battdat.data import BatteryDataset
from pydantic import Field
from typing import Optional

from common import Broken, SCRATCH, SEED, THOROUGH, enc, nrng, num, record, tlc, tlc_strings
from d_filters import spd
from d_params import only
from moirae.estimators.online import OnlineEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
from moirae.estimators.online.joint import JointEstimator
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.base import CellModel, GeneralContainer, HealthVariable, ListParameter, OutputQuantities, ScalarParameter


# ---------------------------------------------------------------- the estimator of Online.tla
class PHealth(HealthVariable):
    a: ScalarParameter = 1.
    v: ListParameter = Field(default=1.)


class PState(GeneralContainer):
    s: ScalarParameter = 0.
    w: ListParameter = Field(default=())


class POut(OutputQuantities):
    e: Optional[ListParameter] = None


class PCell(CellModel):
    def __init__(self, ne):
        self.ne = ne

    def update_transient_state(self, *a, **k):
        raise NotImplementedError

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        return POut(terminal_voltage=1., **(dict(e=np.zeros((1, self.ne))) if self.ne else {}))


class Failure(Exception):
    pass


class Probe(OnlineEstimator):
    """Integer arithmetic in which everything influences everything"""

    def __init__(self, r, kind='Gaussian', fixed=None):
        from moirae.models.base import InputQuantities
        self.nw, self.nv, self.ne = (int(r.integers(0, 3)), int(r.integers(1, 3)), int(r.integers(0, 3))) if fixed is None else fixed
        h = PHealth(a=float(r.integers(1, 9)), v=r.integers(1, 9, size=(1, self.nv)).astype(float))
        self.sel = [['a'], ['v'], ['v', 'a'], ['a', 'v']][int(r.integers(4))] if r.random() < 0.8 else []
        if fixed is not None:
            self.sel = []
        self.h, self.x_init = h, PState(s=float(r.integers(0, 9)), w=r.integers(0, 9, size=(1, self.nw)).astype(float))
        super().__init__(PCell(self.ne), h, self.x_init, InputQuantities(time=0., current=0.), updatable_asoh=list(self.sel))
        self.n = 1 + self.nw + sum(dict(a=1, v=self.nv)[k] for k in self.sel)
        self.no = 1 + self.ne
        self.x = [int(v) for v in r.integers(0, 900, size=self.n)]
        self.count, self.fail_at, self.kind = 0, None, kind

    def fields(self):
        return dict(sfields=[dict(k='s', n=1), dict(k='w', n=self.nw)] + [dict(k=k, n=1 if k == 'a' else self.nv) for k in self.sel],
                    ofields=[dict(k='terminal_voltage', n=1), dict(k='e', n=self.ne)])

    def dist(self, m, sd):
        if self.kind == 'Delta':
            return DeltaDistribution(mean=np.array(m, dtype=float))
        sd = np.array(sd, dtype=float)
        c = np.outer(sd, sd) / 2
        np.fill_diagonal(c, sd ** 2)
        return MultivariateGaussian(mean=np.array(m, dtype=float), covariance=c)

    def sds(self):
        return [2 * ((v % 7) + j + 1) for j, v in enumerate(self.x)]

    @property
    def state(self):
        return self.dist(self.x, self.sds())

    def step(self, inputs, measurements):
        if self.fail_at is not None and self.count >= self.fail_at:
            raise Failure()
        t, i, T, v = (int(q) for q in (inputs.time.item(), inputs.current.item(), inputs.temperature.item(), measurements.terminal_voltage.item()))
        x = self.x
        self.x = [(2 * x[j - 1] + j * (t + 3 * i + 5 * T + 7 * v) + (x[-1] if j == 1 else x[j - 2]) + 1000 * j) % 997 for j in range(1, self.n + 1)]
        self.count += 1
        s = sum(self.x)
        return self.state, self.dist([(s + k * i + 1000 * k) % 997 for k in range(1, self.no + 1)], [2 * (k + self.x[0] % 5) for k in range(1, self.no + 1)])


def enc_dist(d):
    if isinstance(d, DeltaDistribution):
        return dict(kind='Delta', mean=enc(d.get_mean()), cov=[])
    return dict(kind='Gaussian' if isinstance(d, MultivariateGaussian) else type(d).__name__, mean=enc(d.get_mean()), cov=enc(d.get_covariance()))


# ---------------------------------------------------------------- files
KINDS = dict(MultivariateGaussian='Gaussian', DeltaDistribution='Delta')


class Files:
    """Writers, readers and what is on disk"""

    def __init__(self, s, r):
        self.s, self.r = s, r
        self.dir = Path(tempfile.mkdtemp(dir=SCRATCH))
        self.ws, self.metas, self.handles = [], [], {}

    def done(self):
        for h in self.handles.values():
            h.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def create(self, file, key, step, cycle, resizable, again=False, **kw):
        """file: f (a path) or g (a group in a file which is open all the time)"""
        target = self.target(file)
        k = {} if key == 'state_estimates' and self.r.random() < 0.5 else dict(storage_key=key)
        if step != 'mean' or self.r.random() < 0.5:
            k['per_timestep'] = step
        if cycle != 'full' or self.r.random() < 0.5:
            k['per_cycle'] = cycle
        if not resizable or self.r.random() < 0.5:
            k['resizable'] = resizable
        idle = [x['w'] for x in self.ws if not x['w'].is_ready]
        if again and idle and self.r.random() < 0.35:  # a writer which has been used before gets other settings
            w = idle[-1]
            for name, value in dict(hdf5_output=target, storage_key=key, per_timestep=step, per_cycle=cycle, resizable=resizable, **kw).items():
                setattr(w, name, value)
        else:
            w = HDF5Writer(hdf5_output=target, **k, **kw)
        self.ws.append(dict(w=w, file=file, key=key, o=dict(step=step, cycle=cycle, resizable=resizable)))
        self.s.add('create', file=file, key=key, o=self.ws[-1]['o'])
        return len(self.ws)

    def target(self, file):
        if file.startswith('g'):
            if file not in self.handles:
                self.handles[file] = h5py.File(self.dir / f'{file}.h5', 'w')
                self.handles[file].create_group('cell')
            return self.handles[file]['cell']
        p = self.dir / f'{file}.h5'
        return p if self.r.random() < 0.6 else str(p)

    def open(self, i):
        w = self.ws[i - 1]['w']
        w.__enter__()
        self.s.add('open', w=i, ready=w.is_ready)

    def close(self, i, exc=None):
        w = self.ws[i - 1]['w']
        w.__exit__(*((type(exc), exc, None) if exc else (None, None, None)))
        self.s.add('close', w=i, ready=w.is_ready)

    def meta(self, i, est):
        o = self.ws[i - 1]
        return dict(**(est.fields() if isinstance(est, Probe) else dict(sfields=[dict(k=n, n=1) for n in est.state_names], ofields=[dict(k=n, n=1) for n in est.output_names])),
                    estimator=type(est).__name__, distribution=KINDS[type(est.state).__name__], model=type(est.cell_model).__name__,
                    asoh=self.health(est.asoh), transients=enc(est.transients.to_numpy()[0]),
                    settings=[o['key'], str(o['o']['resizable']), o['o']['step'], o['o']['cycle']])

    def health(self, h):
        return [enc(v) for v in h.get_parameters(h.all_names)[0]]

    def prepare(self, i, est, steps, cycles):
        kw = {}
        if steps is not None or self.r.random() < 0.3:
            kw['expected_steps'] = steps
        if cycles is not None or self.r.random() < 0.3:
            kw['expected_cycles'] = cycles
        meta = self.meta(i, est)
        _, e = self.s.call(self.ws[i - 1]['w'].prepare, est, **kw)
        self.s.add('prepare', w=i, steps=-1 if steps is None else steps, cycles=-1 if cycles is None else cycles, meta=meta, err=e)
        if not e:
            self.ws[i - 1]['est'] = est
        return not e

    def entry(self, t, c, x, y):
        return dict(t=num(t), c=int(c), s=enc_dist(x), o=enc_dist(y))

    def append(self, i, t, c, x, y):
        _, e = self.s.call(self.ws[i - 1]['w'].append_step, t, c, x, y)
        self.s.add('append', w=i, e=self.entry(t, c, x, y), o1=0, err=e)
        return e

    def append_many(self, i, steps):
        for st in steps:
            self.ws[i - 1]['w'].append_step(*st)
        self.s.add('append', w=i, e=[self.entry(*st) for st in steps], o1=1, err='', _w=len(steps))

    def busy(self, file):
        return any(w['file'] == file and w['w'].is_ready for w in self.ws)

    def read(self, file, key, tag, kind):
        if file.startswith('f') and (self.busy(file) or not (self.dir / f'{file}.h5').exists()):
            return
        cls = DeltaDistribution if kind == 'Delta' else MultivariateGaussian
        kw = {} if kind == 'Gaussian' and self.r.random() < 0.5 else dict(dist_type=cls)
        if tag == 'cycle' or self.r.random() < 0.5:
            kw['per_timestep'] = tag == 'step'

        def get(what):
            return [dict(t=num(t), s=enc_dist(x), o=enc_dist(y)) for t, x, y in read_state_estimates(what, **kw)]
        if file.startswith('g'):
            g = self.handles[file]['cell']
            if key not in g:
                return
            got, e = self.s.call(get, g[key])
        elif key == 'state_estimates' and self.r.random() < 0.6:
            got, e = self.s.call(get, self.dir / f'{file}.h5' if self.r.random() < 0.5 else str(self.dir / f'{file}.h5'))
        else:
            with h5py.File(self.dir / f'{file}.h5', 'r') as f:
                if key not in f:
                    return
                got, e = self.s.call(get, f[key])
        self.s.add('read', file=file, key=key, tag=tag, kind=kind, err=e, got=got or [])

    def part(self, g, name):
        if name not in g:
            return dict(keys=[], n=0, at=[], time=[], state=[], output=[])
        p = g[name]
        a = {k: p[k][()] for k in p}
        n = max(v.shape[0] for v in a.values())
        used = np.zeros(n, dtype=bool)
        for v in a.values():
            used[:len(v)] |= ~np.isnan(v.reshape(len(v), -1)).all(axis=1) if v.size else False
        at = np.flatnonzero(used)

        def take(k):
            v = a[k]
            return [enc(v[j]) if j < len(v) else 'missing' for j in at]
        return dict(keys=sorted(p), n=int(a['time'].shape[0]), at=[int(j) for j in at], time=take('time'), state=take('state_mean'), output=take('output_mean'))

    def group(self, g):
        if 'write_settings' not in g.attrs:
            return dict(step=self.part(g, 'per_timestep'), cycle=self.part(g, 'per_cycle'), meta=[])
        a = g.attrs
        ws = json.loads(a['write_settings'])
        w = next(w for w in self.ws if w.get('est') is not None and w['key'] == g.name.split('/')[-1])
        est = w['est']
        m = dict(state_names=[str(x) for x in a['state_names']], output_names=[str(x) for x in a['output_names']], estimator=str(a['estimator_name']),
                 distribution=KINDS.get(str(a['distribution_type']), 'unknown'), model=str(a['cell_model']),
                 asoh=self.health(type(est.asoh).model_validate_json(a['initial_asoh'])),
                 transients=enc(type(est.transients).model_validate_json(a['initial_transient_state']).to_numpy()[0]),
                 settings=[str(ws['storage_key']), str(ws['resizable']), ws['per_timestep'], ws['per_cycle']])
        return dict(step=self.part(g, 'per_timestep'), cycle=self.part(g, 'per_cycle'), meta=m)

    def look(self, file, key):
        if file.startswith('g'):
            if file not in self.handles:
                return
            g = self.handles[file]['cell']
            self.s.add('look', file=file, key=key, there=key in g, **(self.group(g[key]) if key in g else {}))
        elif not self.busy(file) and (self.dir / f'{file}.h5').exists():
            with h5py.File(self.dir / f'{file}.h5', 'r') as g:
                self.s.add('look', file=file, key=key, there=key in g, **(self.group(g[key]) if key in g else {}))

    def survey(self):
        for file, key in sorted({(w['file'], w['key']) for w in self.ws}):
            self.look(file, key)
            for tag in ('step', 'cycle'):
                self.read(file, key, tag, 'Gaussian')
                if self.r.random() < 0.4:
                    self.read(file, key, tag, 'Delta')


WHATS = ['full', 'mean_cov', 'mean_var', 'mean', 'none']
OPTS = [{}, {}, {}, dict(dataset_options={}), dict(dataset_options=dict(compression='gzip')), dict(dataset_options=dict(compression='lzf', shuffle=True))]


def distribution(r, n, kind):
    m = r.normal(size=n) * 10.
    return DeltaDistribution(mean=m) if kind == 'Delta' else MultivariateGaussian(mean=m, covariance=spd(r, n, 0.1, 4.))


class Cycles:
    """Cycle numbers in many styles"""

    def __init__(self, r):
        self.r, self.style, self.c = r, str(r.choice(['regular', 'gaps', 'jumps', 'any', 'back', 'same'])), int(r.choice([0, 0, 1, 5]))

    def next(self):
        r = self.r
        if self.style == 'regular' and r.random() < 0.4:
            self.c += 1
        elif self.style == 'gaps' and r.random() < 0.5:
            self.c += int(r.integers(1, 4))
        elif self.style == 'jumps' and r.random() < 0.4:
            self.c += int(r.integers(1, 400))
        elif self.style == 'any':
            self.c = int(r.integers(0, 8))
        elif self.style == 'back':
            self.c = max(0, self.c + int(r.integers(-2, 3)))
        return self.c

    def cast(self, c):
        return [int, float, np.int64, np.float64][int(self.r.integers(4))](c)


def writers(s, key):
    """Histories of writers"""
    r = nrng('C16', key)
    f = Files(s, r)
    try:
        kind = 'Delta' if r.random() < 0.15 else 'Gaussian'
        est = Probe(r, kind)
        file = str(r.choice(['f', 'f', 'g']))
        t = [0.]
        cyc = Cycles(r)

        def nxt():
            t[0] += float(r.choice([0., 0.1, 1., 10., -3.]) if r.random() < 0.2 else r.uniform(0, 5))
            c = cyc.next()
            return t[0], cyc.cast(c), distribution(r, est.n, kind), distribution(r, est.no, kind)
        for session in range(int(r.integers(1, 4))):
            k = str(r.choice(['state_estimates', 'state_estimates', 'state_estimates', 'other']))
            resizable = bool(r.random() < 0.65)
            # (the library stores outputs as Gaussians if they are stored in full)
            whats = WHATS if kind == 'Gaussian' else WHATS[1:]
            i = f.create(file, k, str(r.choice(whats)), str(r.choice(whats)), resizable, again=True, **OPTS[int(r.integers(len(OPTS)))])
            if r.random() < 0.15:
                f.append(i, *nxt())
            if r.random() < 0.1:
                f.prepare(i, est, 3, 3)
            old = [w for w in f.ws[:-1] if w['file'] == file and w['key'] == k and 'est' in w]
            new = f.ws[i - 1]['o']
            if old and not any(w['o'][p] != 'none' and new[p] != 'none' for w in old for p in ('step', 'cycle')):
                continue  # adding a part to a group with another one is not a use of the library
            f.open(i)
            ready = False
            for _ in range(int(r.integers(1, 3))):
                n, m = (None if r.random() < (0.4 if resizable else 0.15) else int(r.choice([1, 2, 3, 5, 8, 130])) for _ in range(2))
                ready = f.prepare(i, Probe(r, kind, (est.nw, est.nv, est.ne)) if ready else est, n, m) or ready
                if ready and r.random() < 0.8:
                    break
            if ready:
                for _ in range(int(r.integers(0, 8))):
                    f.append(i, *nxt())
                if resizable and r.random() < 0.25:
                    f.append_many(i, [nxt() for _ in range(int(r.integers(100, 320)))])
                    for _ in range(2):
                        f.append(i, *nxt())
                if file == 'g' and r.random() < 0.3:
                    f.survey()
            f.close(i, Failure() if r.random() < 0.3 else None)
            if r.random() < 0.1:
                f.append(i, *nxt())
            if r.random() < 0.5 or session == 0:
                f.survey()
        f.survey()
    finally:
        f.done()


def generated(s, hist, key):
    """A history taken from the specification"""
    r = nrng('C16g', key)
    f = Files(s, r)
    try:
        est = Probe(r)
        t = 0.
        ops = {'op'}
        for h in hist:
            if h['op'] == 'create':
                f.create('f' if key % 3 else 'g', dict(a='state_estimates', b='other')[h['key']], h['o']['step'], h['o']['cycle'], h['o']['resizable'])
            elif h['op'] == 'open':
                f.open(h['w'])
            elif h['op'] == 'close':
                f.close(h['w'], Failure() if r.random() < 0.3 else None)
            elif h['op'] == 'prepare':
                f.prepare(h['w'], est, None if h['steps'] < 0 else h['steps'], None if h['cycles'] < 0 else h['cycles'])
            elif h['op'] == 'append':
                t += 1.5
                f.append(h['w'], t, h['c'], distribution(r, est.n, 'Gaussian'), distribution(r, est.no, 'Gaussian'))
            else:
                raise Broken(str(ops))
        for i, w in enumerate(f.ws):
            if w['w'].is_ready:
                f.close(i + 1, Failure())
        f.survey()
    finally:
        f.done()


# ---------------------------------------------------------------- datasets
def dataset(r, n=None, ints=True, streamed=False):
    """Rows of data and the dataset which has them"""
    n = int(r.integers(0 if not streamed else 1, 9)) if n is None else n
    temp = str(r.choice(['none', 'all', 'some']))
    cyc = Cycles(r) if r.random() < 0.75 else None
    rows, t = [], int(r.integers(0, 50))
    back = not streamed and r.random() < 0.2  # clocks may be set back: rows come in the order they are stored in
    for k in range(n):
        t += int(r.integers(-9 if back else 0, 9))
        T = [] if temp == 'none' or temp == 'some' and r.random() < 0.4 else [int(r.integers(0, 50))]
        rows.append(dict(t=t, i=int(r.integers(-9, 10)), v=int(r.integers(0, 9)), T=T, c=[cyc.next()] if cyc else []))
    d = dict(test_time=np.array([float(w['t']) for w in rows]), current=np.array([float(w['i']) for w in rows]), voltage=np.array([float(w['v']) for w in rows]))
    if temp != 'none':
        bad = [np.nan, np.inf, -np.inf] if not streamed and r.random() < 0.5 else [np.nan]
        d['temperature'] = np.array([float(w['T'][0]) if w['T'] else float(r.choice(bad)) for w in rows])
    if cyc:
        d['cycle_number'] = np.array([w['c'][0] for w in rows], dtype=int if r.random() < 0.7 else float)
    if r.random() < 0.3:
        d['other'] = np.arange(n) * 1.5
    cols = [str(c) for c in r.permutation(list(d))] if r.random() < 0.5 else list(d)
    df = pd.DataFrame({c: d[c] for c in cols})
    if n and not streamed and r.random() < 0.5:  # labels of rows have no meaning
        df.index = [r.permutation(n) + 5, np.zeros(n, dtype=int), np.arange(n)[::-1], [f'r{k}' for k in range(n)]][int(r.integers(4))]
    return rows, BatteryDataset(raw_data=df) if False else _dataset(df)


def _dataset(df):
    from battdat.data import CellDataset
    return CellDataset(raw_data=df)


def runs(s, key, tag='C15'):
    """Histories of an estimator which is stepped by hand and run over datasets"""
    r = nrng(tag, key)
    f = Files(s, r)
    try:
        es = []
        for _ in range(int(r.integers(1, 3))):
            e = Probe(r)
            es.append(e)
            s.add('est', x=e.x, no=e.no)
        for _ in range(int(r.integers(2, 6))):
            i = int(r.integers(len(es)))
            e = es[i]
            what = str(r.choice(['run', 'run', 'run', 'hand', 'input']))
            if what == 'input':
                rows, d = dataset(r, n=1)
                default = int(r.integers(0, 60))
                row = next(d.raw_data.iterrows())[1]
                if r.random() < 0.4:
                    row = dict(row)
                a, b = row_to_inputs(row, default) if default != 25 else row_to_inputs(row)
                s.add('input', row=rows[0], default=default, input=enc(a.to_numpy()[0]), output=enc(b.to_numpy()[0]))
            elif what == 'hand':
                rows, d = dataset(r, n=1)
                a, b = e.step(*row_to_inputs(next(d.raw_data.iterrows())[1]))
                s.add('hand', i=i + 1, row=rows[0], s=enc_dist(a), o=enc_dist(b))
            else:
                run(s, r, f, i, e, tag)
        if tag == 'C16':
            f.survey()
    finally:
        f.done()


def run(s, r, f, i, e, tag):
    streamed = bool(r.random() < 0.4)
    rows, d = dataset(r, streamed=streamed)
    table = bool(r.random() < (0.8 if tag == 'C15' else 0.5))
    stop = len(rows)
    if rows and r.random() < (0.15 if tag == 'C15' else 0.35):
        stop = int(r.integers(0, len(rows)))
    w, out = 0, None
    if r.random() < (0.35 if tag == 'C15' else 1.) and rows:
        how = str(r.choice(['path', 'group', 'writer', 'writer', 'writer']))
        fresh = [n for n in ['f1', 'f2', 'f3', 'f4', 'f5', 'f6'] if not any(x['file'] in (n, 'g' + n) for x in f.ws)][0]
        file = fresh if how != 'group' else 'g' + fresh
        if how == 'writer':
            if r.random() < 0.3:
                file = 'g' + fresh
            w = f.create(file, 'state_estimates', str(r.choice(WHATS)), str(r.choice(WHATS)), bool(r.random() < 0.6), again=True, **OPTS[int(r.integers(len(OPTS)))])
            out = f.ws[w - 1]['w']
        else:
            w = f.create(file, 'state_estimates', 'mean', 'full', True)
            out = f.target(file)
        f.ws[w - 1]['est'] = e
    meta = f.meta(w, e) if w else e.fields()
    source = d
    if streamed:
        p = f.dir / f'data{len(s.lines)}.h5'
        d.to_hdf(p)
        source = p if r.random() < 0.5 else str(p)
    count = e.count
    e.fail_at = count + stop if stop < len(rows) else None
    kw = {}
    if not table or r.random() < 0.3:
        kw['output_states'] = table
    if w:
        kw['hdf5_output'] = out
    got, err = s.call(run_online_estimate, source, e, **kw)
    e.fail_at = None
    df = got[0] if got else None
    s.add('run', i=i + 1, rows=rows, stop=stop, streamed=streamed, w=w, meta=meta, table=table, err=err, same=bool(got and got[1] is e), after=e.x, count=e.count,
          cols=[str(c) for c in df.columns] if df is not None else [], out=enc(df.to_numpy()) if df is not None else [])
    if w and tag == 'C16':
        f.look(f.ws[w - 1]['file'], 'state_estimates')


# ---------------------------------------------------------------- real estimators
def real(s, key, tag):
    """Joint and dual estimators of real circuits"""
    from ecm_tools import ECM, Drive, random_asoh, random_state
    r = nrng(tag + 'r', key)
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r, 1, nrc=int(r.integers(0, 3)), styles=['linear', 'cubic'])
    names = [n for n in ['r0.base_values', 'q_t.base_values', 'ce'] if r.random() < 0.5] or ['r0.base_values']
    for n in names:
        a.mark_updatable(n)
    x = random_state(r, a, 1)
    d = Drive(r, float(np.min(a.q_t.base_values)), float(np.mean(x.soc)), mode, temp=True)
    u0 = d.input()
    us = [d.next() for _ in range(int(r.integers(3, 9)))]
    model = ECM(mode)
    nx, nh = x.to_numpy().shape[1], a.get_parameters(names).shape[1]
    kw = dict(covariance_transient=spd(r, nx, 1e-4, 1e-3), covariance_asoh=spd(r, nh, 1e-5, 1e-4), transient_covariance_process_noise=np.eye(nx) * 1e-6,
              asoh_covariance_process_noise=np.eye(nh) * 1e-8, covariance_sensor_noise=np.eye(1) * 1e-2)
    cls = JointEstimator if r.random() < 0.5 else DualEstimator

    def make():
        return cls.initialize_unscented_kalman_filter(model, a, x, u0, normalize_asoh=False, **kw)
    cyc = Cycles(r)
    df = pd.DataFrame(dict(test_time=[u.time.item() for u in us], current=[u.current.item() for u in us],
                           voltage=[3.5 + 0.2 * r.normal() for _ in us], temperature=[u.temperature.item() for u in us], cycle_number=[cyc.next() for _ in us]))
    data = _dataset(df)
    return r, make, data, df


def real_runs(s, key):
    """A driver of a real estimator does what stepping it by hand does"""
    r, make, data, df = real(s, key, 'C15')
    hand = make()
    want = []
    for k, (_, row) in enumerate(df.iterrows()):
        a, b = hand.step(*row_to_inputs(row))
        want.append(dict(mean=enc(a.get_mean()), sd=enc(np.sqrt(np.diag(a.get_covariance()))), out=enc(b.get_mean()), outsd=enc(np.sqrt(np.diag(b.get_covariance())))))
    n, m = hand.num_state_dimensions, hand.num_output_dimensions
    f = Files(s, r)
    try:
        p = f.dir / 'data.h5'
        data.to_hdf(p)
        s.add('start', B=1)
        for source, kw in [(data, {}), (p, {}), (str(p), dict(hdf5_output=f.dir / 'a.h5')), (data, dict(output_states=False))]:
            e = make()
            tab, back = run_online_estimate(source, e, **kw)
            st = back.state
            if tab is not None:
                o = tab.to_numpy()
                if o.shape != (len(df), 2 * n + 2 * m):
                    s.add('crash', what=f'shape of the table {o.shape}', where='')
                    return
                for k, w in enumerate(want):
                    s.add('alone', result=w)
                    s.add('together', table=dict(mean=[enc(o[k, :n])], sd=[enc(o[k, n:2 * n])], out=[enc(o[k, 2 * n:2 * n + m])], outsd=[enc(o[k, 2 * n + m:])]),
                          names=sorted(w), tol='1e-7', last=True)
            s.add('alone', result=dict(mean=enc(hand.state.get_mean()), cov=enc(hand.state.get_covariance())))
            s.add('together', table=dict(mean=[enc(st.get_mean())], cov=[enc(st.get_covariance())]), names=['mean', 'cov'], tol='1e-7', last=True)
    finally:
        f.done()


def real_store(s, key):
    """What a driver of a real estimator stores is what the estimator gave"""
    r, make, data, df = real(s, key, 'C16')
    f = Files(s, r)
    try:
        est = make()
        w = f.create('f', 'state_estimates', str(r.choice(WHATS)), str(r.choice(WHATS)), bool(r.random() < 0.5))
        f.ws[w - 1]['est'] = est
        meta = f.meta(w, est)
        said = []
        step = est.step

        def spy(*a, **k):
            out = step(*a, **k)
            said.append((df.test_time.iloc[len(said)], df.cycle_number.iloc[len(said)], *out))
            return out
        est.step = spy
        run_online_estimate(data, est, hdf5_output=f.ws[w - 1]['w'], output_states=False)
        s.add('open', w=w, ready=True)
        s.add('prepare', w=w, steps=len(df), cycles=int(df.cycle_number.max()) + 1, meta=meta, err='')
        s.add('append', w=w, e=[f.entry(*x) for x in said], o1=1, err='')
        s.add('close', w=w, ready=f.ws[w - 1]['w'].is_ready)
        f.survey()
    finally:
        f.done()


def histories(n, key):
    r = tlc('MCStore', 'GenStore.cfg', args=['-simulate', f'num={n * 2}', '-depth', '13', '-seed', str(SEED * 1000 + key)], timeout=300)
    seen, out = set(), []
    for h in tlc_strings(r['out'], 'HIST'):
        k = json.loads(h)
        if h not in seen and any(x['op'] == 'open' for x in k):
            seen.add(h)
            out.append(k)
    if not out:
        raise Broken('no history was generated: ' + r['out'][-800:])
    return out[:n]


def c15(res):
    res.model_check('MCOnline', 'MCOnlineDeep.cfg' if THOROUGH else 'MCOnline.cfg', workers=8)
    T = THOROUGH
    todo = only([(f'run-{i}', lambda s, i=i: runs(s, i)) for i in range(3000 if T else 300)])
    if todo:
        res.validate('TraceOnline', [record(nm, f) for nm, f in todo], shards=8)
    todo = only([(f'real-{i}', lambda s, i=i: real_runs(s, i)) for i in range(200 if T else 20)])
    if todo:
        res.validate('TraceBatch', [record(nm, f) for nm, f in todo], shards=4)


def c16(res):
    T = THOROUGH
    res.model_check('MCStore', 'MCStoreDeep.cfg' if T else 'MCStore.cfg', workers=8)
    res.model_check('MCOnline', 'MCOnlineDeep.cfg' if THOROUGH else 'MCOnline.cfg', workers=8)
    named = [(f'model-{i}', lambda s, h=h, i=i: generated(s, h, i)) for i, h in enumerate(histories(600 if T else 100, 16))]
    named += [(f'writer-{i}', lambda s, i=i: writers(s, i)) for i in range(2500 if T else 200)]
    named += [(f'run-{i}', lambda s, i=i: runs(s, i, 'C16')) for i in range(1000 if T else 80)]
    named += [(f'real-{i}', lambda s, i=i: real_store(s, i)) for i in range(150 if T else 12)]
    res.validate('TraceOnline', [record(nm, f) for nm, f in only(named)], shards=8)
