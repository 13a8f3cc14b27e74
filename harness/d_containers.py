"""Histories of containers and arrays (C03)"""
import json
from typing import Optional

import numpy as np
from pydantic import create_model

from common import Broken, THOROUGH, SEED, enc, nrng, record, rng, some, tlc, tlc_strings
from d_params import only
from moirae.models.base import GeneralContainer, InputQuantities, ListParameter, OutputQuantities, ScalarParameter
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector

_n = [0]


def make_class(layout):
    """layout: (name, 's' or 'l', optional)"""
    fields = {}
    for k, t, opt in layout:
        a = ScalarParameter if t == 's' else ListParameter
        fields[k] = (Optional[a], None) if opt else (a, ...)
    _n[0] += 1
    return create_model(f'Box{_n[0]}', __base__=GeneralContainer, **fields)


class Driver:
    def __init__(self, s):
        self.s, self.cs, self.as_ = s, [], []

    def log(self, ev, **f):
        cs = []
        for c in self.cs:
            ks = list(type(c).model_fields)
            cs.append(dict(vals=[enc(getattr(c, k)) for k in ks], names=list(c.all_names), len=len(c), batch=int(c.batch_size), fields=list(c.all_fields),
                           lens=[int(c.length_field(k)) for k in ks], rev=list(c.expand_names(ks[::-1]))))
        self.s.add(ev, cs=cs, **{'as': [enc(a) for a in self.as_]}, **f)

    def start(self, cls, layout, values):
        c = cls(**{k: v for k, v in values.items() if v is not None})
        self.cs.append(c)
        fs = []
        for k, t, _ in layout:
            v = values.get(k)
            if v is None:
                fs.append(dict(k=k, v=[]))
            else:
                v = np.array(v, dtype=float)
                v = v.reshape(-1, 1) if t == 's' else np.atleast_2d(v)
                fs.append(dict(k=k, v=enc(v)))
        for k, v in values.items():  # the caller may reuse what it passed in
            if isinstance(v, np.ndarray):
                v *= -3
        self.log('new', c=fs)

    def array(self, a):
        self.as_.append(np.array(a, dtype=float))
        self.log('array', a=enc(self.as_[-1]))

    def pack(self, i):
        self.as_.append(self.cs[i - 1].to_numpy())
        self.log('pack', i=i)

    def unpack(self, i, j, flat=False):
        a = self.as_[j - 1]
        self.cs[i - 1].from_numpy(a[0] if flat and len(a) == 1 else a)
        self.log('unpack', i=i, j=j)

    def copy(self, i, j, flat=False):
        a = self.as_[j - 1]
        self.cs.append(self.cs[i - 1].make_copy(a[0] if flat and len(a) == 1 else a))
        self.log('copy', i=i, j=j)

    def clone(self, i):
        self.cs.append(self.cs[i - 1].model_copy(deep=True))
        self.log('clone', i=i)

    def reread(self, i):
        c = self.cs[i - 1]
        self.cs.append(type(c).model_validate_json(c.model_dump_json()))
        self.log('clone', i=i)

    def write(self, j, a):
        self.as_[j - 1][:] = a
        self.log('write', j=j, a=enc(self.as_[j - 1]))

    def poke(self, i, k, a):
        c = self.cs[i - 1]
        name = list(type(c).model_fields)[k - 1]
        getattr(c, name)[:] = a
        self.log('poke', i=i, k=k, v=enc(np.array(a, dtype=float)))


LAY = [('a', 's', False), ('b', 's', True), ('c', 'l', False), ('d', 's', True)]


def generated(s, hist):
    d = Driver(s)
    for c in hist:
        if c['op'] == 'new':
            vals = {f['k']: (np.array(f['v'], dtype=float) if f['k'] == 'c' else np.array(f['v'], dtype=float).reshape(-1)) if f['v'] else None for f in c['c']}
            d.start(make_class(LAY), LAY, vals)
        elif c['op'] == 'array':
            d.array(c['a'])
        elif c['op'] == 'pack':
            d.pack(c['i'])
        elif c['op'] in ('unpack', 'copy'):
            getattr(d, c['op'])(c['i'], c['j'])
        elif c['op'] == 'write':
            d.write(c['j'], c['a'])
        else:
            raise Broken(c['op'])


REAL = [
    (ECMInput, [('time', 's', False), ('current', 's', False), ('temperature', 's', True)]),
    (InputQuantities, [('time', 's', False), ('current', 's', False)]),
    (OutputQuantities, [('terminal_voltage', 's', False)]),
    (ECMMeasurement, [('terminal_voltage', 's', False)]),
    (ECMTransientVector, [('soc', 's', False), ('q0', 's', True), ('i_rc', 'l', False), ('hyst', 's', False)]),
]


def random_history(s, key, reread=False):
    r = nrng('C03', key)
    d = Driver(s)
    B = int(r.choice([1, 2, 3, 5]))
    nmax = 3
    for _ in range(int(r.integers(1, 3))):
        if r.random() < 0.5:
            cls, layout = REAL[int(r.integers(len(REAL)))]
        else:
            names = list(r.permutation(['a', 'b', 'ab', 'x', 'time', 'z9']))[:int(r.integers(1, 6))]
            layout = [(str(k), str(r.choice(['s', 'l'])), bool(r.random() < 0.4)) for k in names]
            cls = make_class(layout)
        values = {}
        for n, (k, t, opt) in enumerate(layout):
            if opt and r.random() < 0.5 and (n or len(layout) > 1) and not all(x[2] for x in layout):
                values[k] = None
                continue
            rows = B if r.random() < 0.5 else 1
            w = 1 if t == 's' else int(r.choice([0, 1, 2, 3, 4])) if len(layout) > 1 and rows == 1 else int(r.integers(1, 4))
            v = some(r, r.normal(size=(rows, w)) * 10, 3)
            if r.random() < 0.15:  # sizes and types
                v = (np.round(v * 1e9) if r.random() < 0.7 else v * float(r.choice([1e-12, 1e12])))
                v = v.astype(int) if r.random() < 0.5 and np.abs(v).max(initial=1) > 1 else v
            if t == 's':
                v = v[0, 0].item() if rows == 1 and r.random() < 0.4 else v[:, 0] if r.random() < 0.7 else v
            elif rows == 1 and r.random() < 0.5:
                v = v[0]
            if r.random() < 0.2 and isinstance(v, np.ndarray) and v.size:
                v = v.tolist()
            values[k] = v
        d.start(cls, layout, values)
    for _ in range(int(r.integers(5, 10))):
        op = str(r.choice(['pack', 'array', 'unpack', 'unpack', 'copy', 'write', 'write', 'clone', 'poke'] + ['clone'] * (4 * reread)))
        i = int(r.integers(len(d.cs))) + 1
        w = len(d.cs[i - 1])
        fits = [j + 1 for j, a in enumerate(d.as_) if a.shape[1] == w and w]
        if op == 'pack' and len(d.as_) < 4 and w:
            d.pack(i)
        elif op == 'array' and len(d.as_) < 4 and w:
            d.array(some(r, r.normal(size=(int(r.choice([1, B])), w)) * 10, 3))
        elif op in ('unpack', 'copy') and fits and (op == 'unpack' or len(d.cs) < 4):
            getattr(d, op)(i, int(r.choice(fits)), flat=bool(r.random() < 0.4))
        elif op == 'clone' and len(d.cs) < 4:
            d.reread(i) if reread else d.clone(i)
        elif op == 'write' and d.as_:
            j = int(r.integers(len(d.as_)))
            d.write(j + 1, np.round(r.normal(size=d.as_[j].shape) * 10, 0 if d.as_[j].dtype.kind == 'i' else 3))
        elif op == 'poke':
            c = d.cs[i - 1]
            ks = [k + 1 for k, n in enumerate(type(c).model_fields) if getattr(c, n) is not None and getattr(c, n).size]
            if ks:
                k = int(r.choice(ks))
                sh = getattr(c, list(type(c).model_fields)[k - 1]).shape
                d.poke(i, k, np.round(r.normal(size=sh) * 10, 0 if getattr(c, list(type(c).model_fields)[k - 1]).dtype.kind == 'i' else 3))


def c03(res):
    res.model_check('MCContainers', 'MCContainersDeep.cfg' if THOROUGH else 'MCContainers.cfg', workers=8)
    r = tlc('MCContainers', 'GenContainers.cfg', args=['-simulate', f'num={300 if THOROUGH else 60}', '-depth', '8', '-seed', str(SEED * 1000 + 3)], timeout=300)
    found = {}
    for h in tlc_strings(r['out'], 'HIST'):
        h = json.loads(h)
        found.setdefault(json.dumps(h[:-1]), []).append(h)
    if not found:
        raise Broken('no history was generated')
    q = rng('C03h')
    hs = [h for group in found.values() for h in q.sample(group, 1)]
    named = [(f'model-{i}', lambda s, h=h: generated(s, h)) for i, h in enumerate(hs)]
    named += [(f'random-{i}', lambda s, i=i: random_history(s, i)) for i in range(1500 if THOROUGH else 250)]
    res.validate('TraceContainers', [record(nm, f) for nm, f in only(named)], shards=8)
