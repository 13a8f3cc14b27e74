"""Histories of parameter descriptions: reading and marking (C01), writing (C02)"""
import json
import os
from typing import Dict, Tuple

import numpy as np
from pydantic import create_model

from common import Broken, THOROUGH, enc, nrng, record, tlc, tlc_strings
from moirae.models.base import HealthVariable, ListParameter, ScalarParameter

_n = [0]


def build(nd):
    """A real description with a fresh class for every node of a tree"""
    fields, values = {}, {}
    for f in nd['fs']:
        k = f['k']
        if f['t'] == 'p':
            arr = np.array([[float(x) for x in r] for r in f['v']])
            arr = arr.astype(int) if f.get('int') else arr
            scalar = f.get('scalar', arr.shape[1] == 1)
            fields[k] = (ScalarParameter if scalar else ListParameter, ...)
            values[k] = arr[:, 0] if scalar else arr
        elif f['t'] == 'm':
            fields[k] = (HealthVariable, ...)
            values[k] = build(f['m'])
        elif f['t'] == 's':
            fields[k] = (Tuple[HealthVariable, ...], ...)
            values[k] = tuple(build(e['m']) for e in f['ms'])
        else:
            fields[k] = (Dict[str, HealthVariable], ...)
            values[k] = {e['k']: build(e['m']) for e in f['ms']}
        if f.get('note'):  # an attribute which is not a parameter
            fields['note_' + k] = (str, 'text')
    _n[0] += 1
    cls = create_model(f'Health{_n[0]}', __base__=HealthVariable, **fields)
    return cls(updatable=set(nd['upd']), **values)


def skip(obj, key):
    return key == 'soc_pinpoints'


def tree(obj):
    """The tree of an existing description, read attribute by attribute"""
    fs = []
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        f = dict(k=k, t='p', v=[], m={'fs': [], 'upd': []}, ms=[])
        if isinstance(v, np.ndarray):
            if skip(obj, k):
                continue
            f['v'] = enc(v)
        elif isinstance(v, HealthVariable):
            f['t'], f['m'] = 'm', tree(v)
        elif isinstance(v, (tuple, list)):
            f['t'], f['ms'] = 's', [dict(k=str(i), m=tree(e)) for i, e in enumerate(v)]
        elif isinstance(v, dict):
            f['t'], f['ms'] = 'd', [dict(k=i, m=tree(e)) for i, e in v.items()]
        else:
            continue
        fs.append(f)
    return dict(fs=fs, upd=sorted(x for x in obj.updatable))


def leaves(obj):
    out = []
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        if isinstance(v, np.ndarray):
            if not skip(obj, k):
                out.append(enc(v))
        elif isinstance(v, HealthVariable):
            out.extend(leaves(v))
        elif isinstance(v, (tuple, list)):
            for e in v:
                out.extend(leaves(e))
        elif isinstance(v, dict):
            for e in v.values():
                out.extend(leaves(e))
    return out


def paths(nd, onlyparam=True):
    """(path, width, scalar) of each parameter of a tree, and the paths of nested nodes"""
    ps, groups = [], []
    for f in nd['fs']:
        if f['t'] == 'p':
            ps.append(([f['k']], len(f['v'][0])))
        elif f['t'] == 'm':
            groups.append([f['k']])
            p, g = paths(f['m'])
            ps += [([f['k']] + x, w) for x, w in p]
            groups += [[f['k']] + x for x in g]
        else:
            groups.append([f['k']])
            for e in f['ms']:
                groups.append([f['k'], e['k']])
                p, g = paths(e['m'])
                ps += [([f['k'], e['k']] + x, w) for x, w in p]
                groups += [[f['k'], e['k']] + x for x in g]
    return ps, groups


KEYS = ['a', 'b', 'ab', 'ba', 'c', 'r', 'x1', 'x', 'q_t', 'q']


def random_tree(r, depth=2, B=1, upd=0.5, nmin=1, top=True):
    n = int(r.integers(nmin, 5))
    keys = [KEYS[i] for i in r.permutation(len(KEYS))[:n]]
    fs = []
    for i, k in enumerate(keys):
        t = 'p' if depth == 0 else str(r.choice(['p', 'p', 'm', 's', 'd']))
        f = dict(k=k, t=t, v=[], m={'fs': [], 'upd': []}, ms=[])
        if t == 'p':
            w = int(r.choice([1, 1, 2, 3]))
            b = B if r.random() < 0.4 else 1
            f['v'] = enc(np.round(r.normal(size=(b, w)) * 10, 3))
            if r.random() < 0.15:  # integers, and numbers of other sizes
                f['int'] = bool(r.random() < 0.5)
                f['v'] = enc(np.round(r.normal(size=(b, w)) * 1e9) if f['int'] or r.random() < 0.5 else np.round(r.normal(size=(b, w)), 3) * 1e-12)
            f['scalar'] = bool(w == 1 and r.random() < 0.7)
            f['note'] = bool(r.random() < 0.2)
        elif t == 'm':
            f['m'] = random_tree(r, depth - 1, B, upd, top=False)
        elif t == 's':
            f['ms'] = [dict(k=str(j), m=random_tree(r, depth - 1, B, upd, top=False)) for j in range(int(r.integers(0 if i else 1, 4)))]
        else:
            names = [str(x) for x in r.permutation(['x', 'k0', '1', 'b'])][:int(r.integers(1, 3))]
            f['ms'] = [dict(k=j, m=random_tree(r, depth - 1, B, upd, top=False)) for j in names]
        fs.append(f)
    if top and not any(f['t'] == 'p' for f in fs):  # at least one number somewhere
        fs.append(dict(k='zz', t='p', v=[['1.5']], m={'fs': [], 'upd': []}, ms=[]))
    return dict(fs=fs, upd=[f['k'] for f in fs if r.random() < upd])


def clean(nd):
    """The tree without the hints used to build the object"""
    return dict(fs=[dict(k=f['k'], t=f['t'], v=f['v'], m=clean(f['m']) if f['t'] == 'm' else {'fs': [], 'upd': []},
                         ms=[dict(k=e['k'], m=clean(e['m'])) for e in f['ms']]) for f in nd['fs']], upd=list(nd['upd']))


class Driver:
    def __init__(self, s, watch):
        self.s, self.watch, self.objs = s, watch, []

    def observe(self):
        out = []
        for o in self.objs:
            if self.watch == 'leaves':
                out.append(dict(leaves=leaves(o)))
            else:
                names = o.all_names
                out.append(dict(names=list(names), upd=list(o.updatable_names), num=int(o.num_updatable), batch=int(o.batch_size),
                                exp=list(o.expand_names(names)), expu=list(o.expand_names(o.updatable_names)),
                                vec=enc(o.get_parameters()), vals=enc(o.get_parameters(names))))
        return out

    def log(self, ev, err, **f):
        self.s.add(ev, err=err, objs=self.observe(), **f)

    def new(self, obj, nd=None):
        self.objs.append(obj)
        self.log('new', '', tree=nd if nd is not None else tree(obj))

    def do(self, c):
        """Carry out a command of the specification"""
        op, o = c['op'], self.objs[c['i'] - 1]
        vals = None
        if 'vals' in c:
            vals = np.array([[float(x) for x in row] for row in c['vals']])
            arg = vals[0].tolist() if c.get('flat') else vals
        if op == 'mark':
            _, e = self.s.call(o.mark_updatable, '.'.join(c['path']))
            self.log('mark', e, i=c['i'], path=c['path'])
        elif op == 'mark_all':
            _, e = self.s.call(o.mark_all_updatable, **({} if c['rec'] and len(self.s.lines) % 2 else dict(recurse=c['rec'])))
            self.log('mark_all', e, i=c['i'], rec=c['rec'])
        elif op == 'mark_none':
            _, e = self.s.call(o.mark_all_fixed, **({} if c['rec'] and len(self.s.lines) % 2 else dict(recurse=c['rec'])))
            self.log('mark_none', e, i=c['i'], rec=c['rec'])
        elif op in ('update', 'update_marked'):
            ps = 'marked' if op == 'update_marked' else c['paths']
            names = None if ps == 'marked' else ['.'.join(p) for p in ps]
            _, e = self.s.call(o.update_parameters, arg, names)
            vals *= -7  # the caller may reuse its array
            self.log('update', e, i=c['i'], paths=ps, vals=c['vals'])
        elif op == 'copy':
            names = None if c['paths'] == 'marked' else ['.'.join(p) for p in c['paths']]
            new, e = self.s.call(o.make_copy, arg, names)
            vals *= -7
            if not e:
                self.objs.append(new)
            self.log('copy', e, i=c['i'], paths=c['paths'], vals=c['vals'])
        elif op == 'set':
            val = c['val']
            arr = np.array(val, dtype=float)
            py = float(arr) if c['form'] == 'num' else arr
            _, e = self.s.call(o.set_value, '.'.join(c['path']), py)
            arr *= 3
            self.log('set', e, i=c['i'], path=c['path'], form=c['form'], val=c['val'])
        elif op == 'get':
            names = None if c['paths'] == 'marked' else ['.'.join(p) for p in c['paths']]
            got, e = self.s.call(o.get_parameters, names)
            g = enc(got) if not e else []
            if not e and got.size:
                got *= 0  # what is read is the reader's own
            self.log('get', e, i=c['i'], paths=c['paths'], got=g)
        elif op == 'expand':
            names = ['.'.join(p) for p in c['paths']]
            got, e = self.s.call(o.expand_names, names)
            self.log('expand', e, i=c['i'], paths=c['paths'], got=list(got) if not e else [])
        else:
            raise Broken('command ' + op)


SMALL = dict(fs=[
    dict(k='a', t='p', v=[['1']], ms=[]), dict(k='b', t='m', v=[], ms=[], m=dict(upd=[], fs=[
        dict(k='c', t='p', v=[['2', '3']], ms=[]), dict(k='d', t='p', v=[['4']], ms=[])])),
    dict(k='e', t='s', v=[], ms=[dict(k='0', m=dict(upd=[], fs=[dict(k='f', t='p', v=[['5']], ms=[])])),
                                 dict(k='1', m=dict(upd=[], fs=[dict(k='f', t='p', v=[['6']], ms=[]), dict(k='g', t='p', v=[['7']], ms=[])]))]),
    dict(k='h', t='d', v=[], ms=[dict(k='x', m=dict(upd=[], fs=[dict(k='f', t='p', v=[['8']], ms=[])]))])], upd=[])


def generated(s, hist, watch):
    """A history found by TLC in the state graph of the specification"""
    d = Driver(s, watch)
    d.new(build(SMALL), clean(SMALL))
    for c in hist:
        if 'vals' in c:
            c = dict(c, vals=enc(c['vals']))
        d.do(c)


def template(r):
    """A real ECM description"""
    from moirae.models.ecm.advancedSOH import ECMASOH
    nrc = int(r.integers(0, 4))
    kw = {}
    if r.random() < 0.6:
        kw['OCV'] = np.sort(r.uniform(3, 4, size=(int(r.choice([1, 2])), 5)), axis=1)
    if r.random() < 0.6:
        kw['R0'] = r.uniform(0.01, 0.1, size=(1, int(r.integers(1, 4))))
    if r.random() < 0.6:
        kw['H0'] = r.uniform(0.01, 0.1, size=(1, int(r.integers(1, 4))))
    if nrc and r.random() < 0.5:
        kw['RC'] = [(r.uniform(0.01, 0.1, size=int(r.integers(1, 3))), r.uniform(1000, 3000, size=int(r.integers(1, 3)))) for _ in range(nrc)]
    return ECMASOH.provide_template(has_C0=bool(r.random() < 0.5), num_RC=nrc, **kw)


def random_reads(s, key):
    """Marking and reading of a random description"""
    r = nrng('C01', key)
    d = Driver(s, 'names')
    if r.random() < 0.35:
        obj = template(r)
        nd = tree(obj)
        d.new(obj, nd)
    else:
        nd = random_tree(r, depth=int(r.integers(1, 4)), B=int(r.choice([1, 1, 2, 3])), upd=float(r.choice([0, 0.5, 0.9])))
        d.new(build(nd), clean(nd))
    ps, groups = paths(nd)
    for _ in range(int(r.integers(4, 9))):
        op = str(r.choice(['mark', 'mark', 'mark', 'mark_all', 'mark_none', 'get', 'get', 'expand', 'expand']))
        c = dict(op=op, i=1)
        if op == 'mark':
            c['path'] = ps[int(r.integers(len(ps)))][0]
        elif op in ('mark_all', 'mark_none'):
            c['rec'] = bool(r.random() < 0.5)
        elif op == 'get':
            k = int(r.integers(1, min(5, len(ps)) + 1))
            c['paths'] = 'marked' if r.random() < 0.3 else [ps[int(j)][0] for j in r.permutation(len(ps))[:k]]
            if c['paths'] != 'marked' and r.random() < 0.2:  # a name may be given more than once
                c['paths'] = c['paths'] + [c['paths'][int(r.integers(k))]]
        else:
            c['paths'] = [(ps[int(r.integers(len(ps)))][0] if not groups or r.random() < 0.4 else groups[int(r.integers(len(groups)))])
                          for _ in range(int(r.integers(1, 4)))]
        d.do(c)


def random_writes(s, key):
    """Writing to a random description and its copies"""
    r = nrng('C02', key)
    d = Driver(s, 'leaves')
    B = int(r.choice([1, 1, 2, 3]))
    if r.random() < 0.3:
        obj = template(r)
        obj.mark_all_updatable(recurse=True)
        for m in [obj, obj.r0, obj.h0]:
            m.updatable -= {'ce', 'gamma', 'soc_pinpoints'} if r.random() < 0.5 else set()
        nd = tree(obj)
        d.new(obj, nd)
        B = max(len(x) for x in leaves(obj))
    else:
        nd = random_tree(r, depth=int(r.integers(1, 4)), B=B, upd=float(r.choice([0.5, 0.8, 1., 1.])))
        d.new(build(nd), clean(nd))
        B = max([len(x) for x in leaves(d.objs[0])])
    ps, _ = paths(nd)
    count = 0
    for _ in range(int(r.integers(4, 9))):
        op = str(r.choice(['update', 'update', 'update', 'set', 'copy']))
        i = int(r.integers(len(d.objs)))
        c = dict(op=op, i=i + 1)
        count += 1
        if op == 'set':
            p, w = ps[int(r.integers(len(ps)))]
            form = str(r.choice(['num', 'vec', 'mat']))
            rows = int(r.choice([1, B]))
            if w > 1:
                form = 'mat' if form == 'num' else form
                if r.random() < 0.2:
                    w += 1  # lists may take another length
                    ps = [(q, v + 1 if q == p else v) for q, v in ps] if len(d.objs) == 1 else ps
                    if len(d.objs) > 1:
                        w -= 1
                val = r.normal(size=w) if form == 'vec' else r.normal(size=(rows, w))
            else:
                val = r.normal() if form == 'num' else r.normal(size=rows) if form == 'vec' else r.normal(size=(rows, 1))
            c.update(path=p, form=form, val=enc(np.round(val, 4)))
        else:
            k = int(r.integers(1, min(5, len(ps)) + 1))
            chosen = [ps[int(j)] for j in r.permutation(len(ps))[:k]]
            if r.random() < 0.15:  # a name may be given more than once: the last of its values stays
                chosen.append(chosen[int(r.integers(k))])
            n = sum(w for _, w in chosen)
            c['paths'] = [p for p, _ in chosen]
            if r.random() < 0.35:
                c['paths'] = 'marked'
                n = d.objs[i].num_updatable
            n += int(r.choice([0, 0, 0, 0, 0, 0, -1, 1]))
            if n < 1:
                continue
            if op == 'copy' and len(d.objs) > 2:
                continue
            rows = int(r.choice([1, B]))
            c['vals'] = enc(np.round(r.normal(size=(rows, n)) * 5, 4) + 100 * count)
            c['flat'] = bool(rows == 1 and r.random() < 0.5)
        d.do(c)


def histories(num, depth, key):
    """Histories from the state graph (random walks of TLC over MCParams)"""
    from common import SEED, rng
    r = tlc('MCParams', 'GenParams.cfg', args=['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(SEED * 1000 + key)], timeout=300)
    found = {}
    for h in tlc_strings(r['out'], 'HIST'):
        h = json.loads(h)
        found.setdefault(json.dumps(h[:-1]), []).append(h)
    if not found:
        raise Broken('no history was generated: ' + r['out'][-1500:])
    q = rng('hist', key)
    out = []
    for hs in found.values():
        out += q.sample(hs, min(len(hs), 3))
    return out


def only(named):
    want = os.environ.get('VERIF_ONLY')
    return [(n, f) for n, f in named if not want or n == want]


def c01(res):
    res.model_check('MCParams', 'MCParamsDeep.cfg' if THOROUGH else 'MCParams.cfg', workers=8)
    n = 600 if THOROUGH else 90
    named = [(f'model-{i}', lambda s, h=h: generated(s, h, 'names')) for i, h in enumerate(histories(100 if THOROUGH else 14, 8, 1))]
    named += [(f'reads-{i}', lambda s, i=i: random_reads(s, i)) for i in range(n)]
    res.validate('TraceParams', [record(nm, f) for nm, f in only(named)], shards=8)


def shared_templates(s, key):
    """Every element of a template is its own: writing one leaves the others"""
    r = nrng('C02t', key)
    from moirae.models.ecm.advancedSOH import ECMASOH
    from moirae.models.ecm.transient import ECMTransientVector  # noqa: F401
    d = Driver(s, 'leaves')
    nrc = int(r.integers(1, 4))
    made = []
    for _ in range(2):
        kw = {}
        if r.random() < 0.4:
            kw['RC'] = [(np.array([0.01 * (j + 1)]), np.array([2000.])) for j in range(nrc)]
        made.append(ECMASOH.provide_template(has_C0=bool(key % 2), num_RC=nrc, **kw))
    if r.random() < 0.5:  # defaults of a second description built without naming them
        made.append(ECMASOH(q_t=made[0].q_t.model_copy(deep=True), ocv=made[0].ocv.model_copy(deep=True), r0=made[0].r0.model_copy(deep=True)))
        made.append(ECMASOH(q_t=made[0].q_t.model_copy(deep=True), ocv=made[0].ocv.model_copy(deep=True), r0=made[0].r0.model_copy(deep=True)))
    for o in made:
        o.mark_all_updatable()
        d.new(o)
    for _ in range(5):
        i = int(r.integers(len(made)))
        ps, _ = paths(tree(made[i]))
        p, w = ps[int(r.integers(len(ps)))]
        if r.random() < 0.5:
            d.do(dict(op='set', i=i + 1, path=p, form='mat', val=enc(np.round(r.normal(size=(1, w)), 4))))
        else:
            d.do(dict(op='update', i=i + 1, paths=[p], vals=enc(np.round(r.normal(size=(1, w)), 4))))


def c02(res):
    res.model_check('MCParams', 'MCParamsDeep.cfg' if THOROUGH else 'MCParams.cfg', workers=8)
    n = 600 if THOROUGH else 110
    named = [(f'model-{i}', lambda s, h=h: generated(s, h, 'leaves')) for i, h in enumerate(histories(100 if THOROUGH else 14, 8, 2))]
    named += [(f'writes-{i}', lambda s, i=i: random_writes(s, i)) for i in range(n)]
    named += [(f'templates-{i}', lambda s, i=i: shared_templates(s, i)) for i in range(100 if THOROUGH else 16)]
    res.validate('TraceParams', [record(nm, f) for nm, f in only(named)], shards=8)
