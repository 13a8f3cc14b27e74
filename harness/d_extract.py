"""Extraction of parameters from measurements (C18)"""
import numpy as np
import pandas as pd
from battdat.data import CellDataset

from common import THOROUGH, enc, nrng, num, record, some
from d_params import only
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity


class Sets:
    """Datasets and what is extracted from them"""

    def __init__(self, s, r):
        self.s, self.r, self.sets = s, r, []

    def sweep(self, cap, ncyc=1):
        """Slow cycles: charge, rest, discharge"""
        r = self.r
        rows, t = [], float(r.choice([0., 500.]))
        zero = float(r.choice([0., 1e-7, 1e-3, 1e-2]))
        for c in range(ncyc):
            n = int(r.integers(10, 18))
            grid = np.sort(r.uniform(0, 1, size=n)) if r.random() < 0.7 else np.linspace(0, 1, n)
            grid[0], grid[-1] = r.uniform(0, 0.03), r.uniform(0.97, 1.02)
            scale = cap * float(r.choice([1., 1., 0.6]))
            rate = float(r.choice([0.05, 0.5, 1.])) * cap
            qs = list(grid * scale)
            up = len(qs)
            if r.random() < 0.6:
                qs += qs[::-1][int(r.integers(1, 3))::int(r.integers(1, 3))]
            for k, q in enumerate(qs):
                if rows and rows[-1][5] == c:
                    t += 3600 * abs(q - rows[-1][4]) / rate + 1e-3
                elif rows:
                    t += 10.
                i = rate if k < up else -rate
                if r.random() < 0.15:
                    i = i * float(r.uniform(0.2, 3))
                if r.random() < 0.12:
                    i = zero * float(r.choice([-1, 1]))
                x = q / cap
                v = 3 + 0.6 * x - 0.3 * np.sin(5 * x) + (0.05 * i / rate if rate else 0) + r.normal() * 0.01
                rows.append((t, float(some(r, i, 6)), float(some(r, v, 4)), None, float(some(r, q, 5)), c))
        return rows

    def noise(self):
        """Cycles of any kind, of which only the capacity matters"""
        r = self.r
        rows, t, c = [], 0., int(r.choice([0, 1, 5]))
        for _ in range(int(r.integers(1, 4))):
            n = int(r.integers(1, 9))
            sign = r.choice([-1, 1, 0])
            for _ in range(n):
                t += float(some(r, r.uniform(10, 2000), 1))
                i = r.normal() * 2 if sign == 0 else sign * abs(r.normal())
                rows.append((t, float(some(r, i, 3)), float(some(r, r.uniform(3, 4), 3)), None, 0., c))
            c += int(r.integers(1, 3))
        return rows

    def load(self, kind):
        r = self.r
        self.cap = float(np.round(r.uniform(0.5, 12), 2))
        tables, d, usable = {}, dict(raw=[], cycles=[]), True
        missing = None
        if kind != 'none':
            rows = self.sweep(self.cap) if kind == 'sweep' else self.noise()
            f = dict(test_time=[w[0] for w in rows], current=[w[1] for w in rows], voltage=[w[2] for w in rows], cycle_number=[w[5] for w in rows])
            if kind == 'sweep':
                f['cycle_capacity'] = [w[4] for w in rows]
                if r.random() < 0.25:
                    missing = str(r.choice(['cycle_capacity', 'voltage', 'current']))
            cols = [str(c) for c in r.permutation(list(f))] if r.random() < 0.5 else list(f)
            df = pd.DataFrame({c: f[c] for c in cols if c != missing})
            perm, usable = np.arange(len(rows)), kind == 'noise' or missing is None
            if kind == 'sweep' and r.random() < 0.3:  # any order of rows
                perm, usable = r.permutation(len(rows)), False
                df = df.iloc[perm]
                if r.random() < 0.5:
                    df = df.reset_index(drop=True)
            elif r.random() < 0.3 and kind == 'sweep':
                df.index = df.index + 100
            tables['raw_data'] = df
            d['raw'] = [[dict(c=int(rows[k][5]), t=num(rows[k][0]), i=num(rows[k][1]), v=num(rows[k][2]), q=num(rows[k][4])) for k in perm]]
        if r.random() < 0.5 or kind == 'none' and r.random() < 0.6:
            q = [float(v) for v in np.round(self.cap * r.uniform(0.5, 1.2, size=int(r.integers(1, 6))), 3)]
            if r.random() < 0.3:
                q[int(r.integers(len(q)))] = float('nan')
            tables['cycle_stats'] = pd.DataFrame(dict(cycle_number=np.arange(len(q)), capacity_charge=q))
            if r.random() < 0.4:
                tables['cycle_stats']['capacity_discharge'] = 3 * self.cap
            d['cycles'] = [[num(v) for v in q]]
        elif r.random() < 0.3 and kind == 'noise':  # a table without capacities
            tables['cycle_stats'] = pd.DataFrame(dict(cycle_number=sorted(set(tables['raw_data']['cycle_number']))))
        data = CellDataset(**tables)
        self.sets.append(dict(data=data, kind=kind, cap=self.cap, missing=missing is not None, usable=usable))
        self.s.add('load', d=d)

    def look(self, m):
        """The measurements, and tables which were there"""
        return {k: v.copy(deep=True) for k, v in m['data'].tables.items() if v is not None}

    def same(self, m, before):
        """Measurements and tables are as they were; derived columns and tables may be added"""
        now = m['data'].tables
        return bool(all(k in now and all(c in now[k].columns for c in v.columns) and now[k][v.columns].equals(v) and (k != 'raw_data' or list(now[k].columns) == list(v.columns))
                        for k, v in before.items()) and (now.get('raw_data') is not None) == ('raw_data' in before))

    def curve(self, m, i):
        r = self.r
        n = int(r.integers(2, 8))
        if r.random() < 0.4:
            pts, arg = np.linspace(0, 1, n), n
        else:
            pts = np.linspace(0, 1, n)
            pts[1:-1] += r.uniform(-0.3, 0.3, size=n - 2) / (n - 1)
            if r.random() < 0.3:
                pts[0], pts[-1] = 0.04, 0.95
            arg = pts.copy() if r.random() < 0.6 else [float(p) for p in pts]
        style = str(r.choice(['cubic' if n > 3 else 'linear', 'linear']))
        kw = {} if n > 3 and style == 'cubic' and r.random() < 0.5 else dict(interpolation_style=style)
        if n != 11 or r.random() < 0.5:
            kw['soc_points'] = arg
        cap = m['cap']
        e = OCVExtractor(MaxTheoreticalCapacity(base_values=cap) if r.random() < 0.4 else cap, **kw)
        for again in range(2):
            before = self.look(m)
            out, err = self.s.call(lambda: e.extract(m['data']))
            line = dict(i=i, cap=num(cap), pts=enc(pts), missing=m['missing'], style=style, err=err, same=self.same(m, before), tol=num(self.accuracy(m, cap, pts)), _w=15)
            if err:
                self.s.add('curve', pins=[], got=[], gotstyle='', at=[], **line)
                return
            f = out.ocv_ref
            self.s.add('curve', pins=enc(np.array(f.soc_pinpoints)), got=enc(np.ravel(f.base_values)), gotstyle=str(f.interpolation_style),
                       at=enc(np.array([np.ravel(out(float(p)))[0] for p in pts])), **line)
            if r.random() < 0.6:
                return
            f.base_values += 1  # what the caller does to a result is of no importance to the next one

    def accuracy(self, m, cap, pts):
        """How well double precision can solve this problem"""
        from scipy.interpolate import BSpline
        df = m['data'].tables.get('raw_data')
        if df is None or m['missing']:
            return 1e-6
        x = np.sort(df['cycle_capacity'].to_numpy() / cap)
        w = 1 / np.clip(np.abs(df['current'].to_numpy()[np.argsort(df['cycle_capacity'].to_numpy())]), 1e-6, None)
        t = np.concatenate([[x[0]] * 4, pts[1:-1], [x[-1]] * 4])
        try:
            A = BSpline.design_matrix(x, t, 3).toarray() * w[:, None]
            y = w * df['voltage'].to_numpy()[np.argsort(df['cycle_capacity'].to_numpy())]
            c, _, _, sv = np.linalg.lstsq(A, y, rcond=None)
            k = sv[0] / sv[-1] if sv[-1] else np.inf
            err = 1e-16 * (k * np.abs(c).max() + k ** 2 * np.linalg.norm(y - A @ c) / sv[0])
            return float(np.clip(1000 * err, 1e-9, 1e3))
        except ValueError:
            return 1e-6

    def capacity(self, m, i):
        before = self.look(m)
        out, err = self.s.call(lambda: MaxCapacityExtractor().extract(m['data']))
        self.s.add('capacity', i=i, err=err, got='0' if err else num(out.base_values.item()), same=self.same(m, before), _w=3)

    def check(self, m, i):
        r = self.r
        cap = m['cap'] * float(r.choice([1., 1., 0.5, 2.]))
        kw = {}
        if r.random() < 0.5:
            kw['soc_requirement'] = float(np.round(r.uniform(0.1, 1.1), 4))
        e = OCVExtractor(cap, **kw)
        before = self.look(m)
        _, err = self.s.call(lambda: e.check_data(m['data']))
        self.s.add('check', i=i, cap=num(cap), req=num(kw.get('soc_requirement', 0.95)), err=err, same=self.same(m, before), _w=3)


def extractions(s, key):
    r = nrng('C18', key)
    f = Sets(s, r)
    for _ in range(int(r.integers(1, 3))):
        f.load(str(r.choice(['sweep', 'sweep', 'noise', 'none'])))
    for _ in range(int(r.integers(3, 7))):
        i = int(r.integers(len(f.sets)))
        m = f.sets[i]
        if m['kind'] == 'sweep' and not (m['usable'] and r.random() < 0.3):
            f.curve(m, i + 1)
        else:
            getattr(f, str(r.choice(['capacity', 'check'])) if m['kind'] != 'none' or r.random() < 0.7 else 'curve')(m, i + 1)


def c18(res):
    res.model_check('MCExtract', 'MCExtractDeep.cfg' if THOROUGH else 'MCExtract.cfg', workers=8)
    named = [(f'data-{i}', lambda s, i=i: extractions(s, i)) for i in range(4000 if THOROUGH else 300)]
    res.validate('TraceExtract', [record(nm, f) for nm, f in only(named)], shards=8)
