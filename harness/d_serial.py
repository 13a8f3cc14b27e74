"""Writing descriptions, states, inputs and outputs as JSON and reading them back (C19)"""
import json
from typing import Dict, Tuple

import numpy as np
from pydantic import create_model

import d_containers
import d_thevenin  # (installs the stand-in of the external solver)
from common import Broken, SEED, THOROUGH, enc, nrng, num, record, rng, tlc, tlc_strings
from d_params import SMALL, clean, only, paths, random_tree, tree
from ecm_tools import ECM, STYLES, Drive, ECMInput, random_asoh, random_state
from moirae.models.base import HealthVariable, InputQuantities, ListParameter, OutputQuantities, ScalarParameter
from moirae.models.ecm.components import Resistance
from moirae.models.ecm.ins_outs import ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient

_classes = {}
UNUSUAL = ['0', '1e-300', '1e300', '5e-324', '0.30000000000000004', '0.3333333333333333', '1e22', '123456789012345680', '-1e-7', '9007199254740991']


def scalar(f):
    return f.get('scalar', len(f['v'][0]) == 1)


def shape(nd):
    return [[f['k'], f['t'], f['t'] == 'p' and scalar(f), f.get('note', False), shape(f['m']) if f['t'] == 'm' else [],
             [[e['k'], shape(e['m'])] for e in f['ms']] if f['t'] == 's' else [shape(f['ms'][0]['m'])] if f['t'] == 'd' else []] for f in nd['fs']]


def class_of(nd):
    """The class of a node, which says of what classes its members are"""
    key = json.dumps(shape(nd))
    if key not in _classes:
        fields = {}
        for f in nd['fs']:
            if f['t'] == 'p':
                t = ScalarParameter if scalar(f) else ListParameter
            elif f['t'] == 'm':
                t = class_of(f['m'])
            elif f['t'] == 's':
                t = Tuple[tuple(class_of(e['m']) for e in f['ms'])] if f['ms'] else Tuple[HealthVariable, ...]
            else:
                t = Dict[str, class_of(f['ms'][0]['m'])]
            fields[f['k']] = (t, ...)
            if f.get('note'):
                fields['note_' + f['k']] = (str, 'text')
        _classes[key] = create_model(f'Written{len(_classes)}', __base__=HealthVariable, **fields)
    return _classes[key]


def build(nd):
    values = {}
    for f in nd['fs']:
        if f['t'] == 'p':
            arr = np.array([[float(x) for x in r] for r in f['v']])
            values[f['k']] = arr[:, 0] if scalar(f) else arr
        elif f['t'] == 'm':
            values[f['k']] = build(f['m'])
        elif f['t'] == 's':
            values[f['k']] = tuple(build(e['m']) for e in f['ms'])
        else:
            values[f['k']] = {e['k']: build(e['m']) for e in f['ms']}
        if f.get('note') and len(f['k']) == 1:
            values['note_' + f['k']] = 'other "text"'
    return class_of(nd)(updatable=set(nd['upd']), **values)


def alike(r, nd):
    """Members of a dictionary have the same fields, but values and marks of their own"""
    def other(n):
        out = []
        for f in n['fs']:
            g = dict(f)
            if f['t'] == 'p':
                g['v'] = enc(np.round(r.normal(size=np.shape(f['v'])), 3))
            elif f['t'] == 'm':
                g['m'] = other(f['m'])
            else:
                g['ms'] = [dict(k=e['k'], m=other(e['m'])) for e in f['ms']]
            out.append(g)
        return dict(fs=out, upd=[f['k'] for f in out if r.random() < 0.5])
    for f in nd['fs']:
        if f['t'] == 'm':
            alike(r, f['m'])
        for e in f['ms']:
            alike(r, e['m'])
        if f['t'] == 'd':
            f['ms'] = f['ms'][:1] + [dict(k=e['k'], m=other(f['ms'][0]['m'])) for e in f['ms'][1:]]
    return nd


def unusual(r, nd):
    """Some values with many digits, very large or very small ones"""
    for f in nd['fs']:
        if f['t'] == 'p':
            f['v'] = [[str(r.choice(UNUSUAL)) if r.random() < 0.3 else x for x in row] for row in f['v']]
        if f['t'] == 'm':
            unusual(r, f['m'])
        for e in f['ms']:
            unusual(r, e['m'])
    return nd


def options(obj):
    """Whatever is not a parameter, and the class of each node"""
    out = [dict(k='class', txt=type(obj).__name__, v=[])]
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        if k == 'updatable':
            continue
        if k == 'soc_pinpoints':
            out.append(dict(k=k, txt='', v=[] if v is None else enc(np.array(v))))
        elif isinstance(v, np.ndarray):
            continue
        elif isinstance(v, HealthVariable):
            out += options(v)
        elif isinstance(v, (tuple, list)):
            for e in v:
                out += options(e)
        elif isinstance(v, dict):
            for e in v.values():
                out += options(e)
        elif v is None or isinstance(v, str):
            out.append(dict(k=k, txt=str(v), v=[]))
        else:
            out.append(dict(k=k, txt='', v=num(v)))
    return out


def marks(obj):
    """Every mark, those of absent parts included"""
    out = [sorted(obj.updatable)]
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        for e in [v] if isinstance(v, HealthVariable) else v if isinstance(v, (tuple, list)) else v.values() if isinstance(v, dict) else []:
            if isinstance(e, HealthVariable):
                out += marks(e)
    return out


def through(o):
    return type(o).model_validate_json(o.model_dump_json())


class Driver:
    def __init__(self, s, r=None):
        self.s, self.r, self.objs, self.texts, self.count = s, r, [], [], 0

    def log(self, ev, **f):
        self.s.add(ev, objs=[dict(tree=tree(o), opts=options(o)) for o in self.objs], **f)

    def new(self, obj, nd=None):
        self.objs.append(obj)
        self.count += 1
        self.log('new', tree=nd if nd is not None else tree(obj), opts=options(obj), tag=f'new {self.count}')

    def write(self, i):
        o = self.objs[i - 1]
        k = self.r.random() if self.r is not None else 0
        txt = o.model_dump_json() if k < 0.5 else o.model_dump_json(indent=1) if k < 0.75 else json.dumps(o.model_dump(mode='json'))
        again = o.model_dump_json() if k < 0.5 else o.model_dump_json(indent=1) if k < 0.75 else json.dumps(o.model_dump(mode='json'))
        self.texts.append((txt, type(o), marks(o)))
        self.log('write', i=i, err='', again=bool(json.loads(txt) == json.loads(again)))

    def read(self, j):
        txt, cls, ms = self.texts[j - 1]
        if self.r is not None and self.r.random() < 0.3:
            o = cls.model_validate(json.loads(txt))
        else:
            o = cls.model_validate_json(txt)
        self.objs.append(o)
        self.log('read', j=j, err='', marks=ms, got=marks(o))

    def do(self, c):
        """Carry out a command of the specification"""
        op = c['op']
        if op == 'write':
            return self.write(c['i'])
        if op == 'read':
            return self.read(c['j'])
        i, o = c['i'], self.objs[c['i'] - 1]
        tag = json.dumps(c)
        if op == 'mark':
            _, e = self.s.call(o.mark_updatable, '.'.join(c['path']))
            self.log('mark', err=e, i=i, path=c['path'], tag=tag)
        elif op in ('mark_all', 'mark_none'):
            _, e = self.s.call(o.mark_all_updatable if op == 'mark_all' else o.mark_all_fixed, recurse=c['rec'])
            self.log(op, err=e, i=i, rec=c['rec'], tag=tag)
        elif op in ('update', 'update_marked'):
            ps = 'marked' if op == 'update_marked' else c['paths']
            vals = np.array([[float(x) for x in row] for row in c['vals']])
            _, e = self.s.call(o.update_parameters, vals, None if ps == 'marked' else ['.'.join(p) for p in ps])
            self.log('update', err=e, i=i, paths=ps, vals=c['vals'], tag=tag)
        else:
            raise Broken(op)

    def ask(self, i, q, fun):
        a, e = self.s.call(fun, self.objs[i - 1])
        self.log('ask', i=i, q=q, ans=[['1' if e else '0']] + ([] if e else [enc(x) for x in a]))

    def alter(self, i):
        """Some change of description i"""
        r = self.r
        o = self.objs[i - 1]
        ps, _ = paths(tree(o))
        k = r.random()
        if k < 0.35:
            return dict(op='mark', i=i, path=ps[int(r.integers(len(ps)))][0])
        if k < 0.45:
            return dict(op='mark_all', i=i, rec=True)
        if k < 0.5:
            return dict(op='mark_none', i=i, rec=bool(r.random() < 0.5))
        names = set(o.updatable_names)
        ok = [(p, w) for p, w in ps if '.'.join(p) in names]
        if not ok:
            return dict(op='mark_all', i=i, rec=True)
        chosen = [ok[int(j)] for j in r.permutation(len(ok))[:int(r.integers(1, 4))]]
        got = o.get_parameters(['.'.join(p) for p, _ in chosen])
        B = o.batch_size
        vals = got[:1] * r.uniform(0.9, 1.1, size=(int(r.choice([1, B])), got.shape[1]))
        return dict(op='update', i=i, paths=[p for p, _ in chosen], vals=enc(vals))


def generated(s, hist):
    d = Driver(s)
    nd = json.loads(json.dumps(SMALL))
    # the specification explores a smaller description with the same kinds of fields
    nd['fs'][1]['m']['fs'] = nd['fs'][1]['m']['fs'][:1]
    nd['fs'][2]['ms'][1]['m']['fs'] = nd['fs'][2]['ms'][1]['m']['fs'][:1]
    for f in nd['fs']:
        f.setdefault('m', dict(fs=[], upd=[]))
    d.new(build(nd), clean(nd))
    for c in hist:
        if 'vals' in c:
            c = dict(c, vals=enc(c['vals']))
        d.do(c)


def random_trees(s, key):
    r = nrng('C19', key)
    d = Driver(s, r)
    nd = alike(r, random_tree(r, depth=int(r.integers(1, 4)), B=int(r.choice([1, 1, 2, 3])), upd=float(r.choice([0, 0.5, 0.9]))))
    if r.random() < 0.4:
        nd = unusual(r, nd)
    d.new(build(nd), clean(nd))
    history(d, lambda i: d.ask(i, 'values', lambda o: [o.get_parameters(list(o.all_names)), o.get_parameters()]) if d.objs[i - 1].num_updatable else None)


def history(d, ask):
    r = d.r
    for _ in range(int(r.integers(6, 11))):
        k = r.random()
        i = int(r.integers(len(d.objs))) + 1
        if k < 0.25 and len(d.texts) < 4 or not d.texts and k < 0.6:
            d.write(i)
        elif k < 0.5 and len(d.objs) < 4 and d.texts:
            d.read(int(r.integers(len(d.texts))) + 1)
        elif k < 0.7:
            ask(i)
        else:
            c = d.alter(i)
            for j in range(1, len(d.objs) + 1):  # the same with each of them, sometimes
                if j == i or r.random() < 0.5:
                    d.do(dict(c, i=j) if j == i else dict(c, i=j))
    for i in range(1, len(d.objs) + 1):
        ask(i)


def circuits(s, key):
    """Circuits which simulate before they are written, and after they are read"""
    r = nrng('C19c', key)
    d = Driver(s, r)
    B = int(r.choice([1, 1, 2, 3]))
    a = random_asoh(r, B, styles=STYLES)
    if r.random() < 0.25:  # a long table
        k = int(r.choice([30, 110, 1100], p=[0.5, 0.4, 0.1]))
        a.r0 = Resistance(base_values=r.uniform(0.01, 0.1, size=(1 if k > 200 else int(r.choice([1, B])), k)), temperature_dependence_factor=0.01, interpolation_style='linear')
    for part in [a, a.r0, a.ocv, a.ocv.ocv_ref, a.h0, *a.rc_elements]:
        part.updatable |= {k for k in type(part).model_fields if k != 'updatable' and r.random() < 0.4}
    d.new(a)
    x = random_state(r, a, B)
    drive = Drive(r, a.q_t.base_values.min(), 0.5, 'constant', temp=bool(r.random() < 0.7))
    us = [drive.input()] + [drive.next() for _ in range(2)]
    m = ECM(current_behavior=str(r.choice(['constant', 'linear'])))

    def simulate(o):
        y, ins = x, us
        if r.random() < 0.5:  # whatever else takes part may have been written and read too
            y, ins = through(x), [through(u) for u in us]
        out = []
        for u0, u1 in zip(ins, ins[1:]):
            y = m.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=y, asoh=o)
            v = m.calculate_terminal_voltage(new_inputs=u1, transient_state=y, asoh=o)
            if r.random() < 0.5:
                y, v = through(y), through(v)
            out += [y.to_numpy(), v.to_numpy()]
        return out

    def energy(o):
        return [np.atleast_2d(o.get_theoretical_energy(temperature=30.))]

    def start(o):
        return [ECMTransientVector.from_asoh(o).to_numpy()]

    def ask(i):
        k = r.random()
        d.ask(i, *(('simulate', simulate) if k < 0.7 else ('energy', energy) if k < 0.85 else ('start', start)))
    history(d, ask)


def thevenins(s, key):
    r = nrng('C19t', key)
    d = Driver(s, r)
    B = int(r.choice([1, 1, 2, 3]))
    a = d_thevenin.describe(r, B, 0.5)
    for part in [a, a.ocv, *a.r, *a.c]:
        part.updatable |= {k for k in type(part).model_fields if k != 'updatable' and r.random() < 0.4}
    d.new(a)
    socs, temps = r.uniform(0, 1, size=3), r.uniform(280, 320, size=3)
    x = TheveninTransient(soc=r.uniform(0.2, 0.8, size=int(r.choice([1, B]))), temp=float(r.uniform(290, 310)), eta=r.normal(size=(1, a.num_rc_elements)))
    us = [TheveninInput(time=0., current=float(r.normal()), t_inf=float(r.uniform(290, 310))), TheveninInput(time=10., current=float(r.normal()), t_inf=300.)]

    def evaluate(o):
        return [np.array([[o.ocv(q, batch_id=b), *(f(q, t, batch_id=b) for f in (*o.r, *o.c))] for q, t in zip(socs, temps)]) for b in range(B)]

    def simulate(o):
        y, ins = (through(x), [through(u) for u in us]) if r.random() < 0.5 else (x, us)
        m = d_thevenin.TheveninModel()
        y = m.update_transient_state(ins[0], ins[1], y, o)
        if r.random() < 0.5:
            y = through(y)
        return [y.to_numpy(), m.calculate_terminal_voltage(ins[1], y, o).to_numpy()]

    history(d, lambda i: d.ask(i, *(('evaluate', evaluate) if r.random() < 0.5 else ('simulate', simulate))))


def boxes(s, key):
    """States, inputs and outputs: histories of C03 in which copies are made by writing and reading"""
    d_containers.random_history(s, ('json', key), reread=True)


def c19(res):
    res.model_check('MCSerial', 'MCSerialDeep.cfg' if THOROUGH else 'MCSerial.cfg', workers=8)
    r = tlc('MCSerial', 'GenSerial.cfg', args=['-simulate', f'num={400 if THOROUGH else 60}', '-depth', '10', '-seed', str(SEED * 1000 + 19)], timeout=300)
    hs = {}
    for h in tlc_strings(r['out'], 'HIST'):
        h = json.loads(h)
        hs.setdefault(json.dumps(h[:-1]), []).append(h)
    if not hs:
        raise Broken('no history was generated')
    q = rng('C19h')
    named = [(f'model-{i}', lambda s, h=q.choice(g): generated(s, h)) for i, g in enumerate(hs.values())]
    n = 500 if THOROUGH else 60
    named += [(f'tree-{i}', lambda s, i=i: random_trees(s, i)) for i in range(n)]
    named += [(f'circuit-{i}', lambda s, i=i: circuits(s, i)) for i in range(n)]
    named += [(f'thevenin-{i}', lambda s, i=i: thevenins(s, i)) for i in range(n // 3)]
    res.validate('TraceSerial', [record(nm, f) for nm, f in only(named)], shards=8)
    named = [(f'box-{i}', lambda s, i=i: boxes(s, i)) for i in range(n * 2)]
    res.validate('TraceContainers', [record(nm, f) for nm, f in only(named)], shards=8)
