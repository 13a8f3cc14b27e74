"""Histories of the circuit model: charge (C04), relaxation (C05), voltage (C06), batches (C07)"""
import json

import numpy as np

from common import Broken, SEED, THOROUGH, enc, nrng, num, record, tlc, tlc_strings
from d_params import only
from ecm_tools import (ECM, ECMASOH, ECMInput, ECMTransientVector, Drive, STYLES, enc_asoh, enc_input, enc_res, enc_state, enc_table, random_asoh, random_state, temperature)


def start(s, mode, a, B, x, u):
    s.add('cell', mode=mode, a=enc_asoh(a), B=B, x=enc_state(x), p=enc_input(u))


def run(s, mode, a, B, x, p, inputs, watch):
    """Steps of the real model"""
    model = ECM(mode) if mode == 'linear' or len(inputs) % 2 else ECM()
    start(s, mode, a, B, x, p)
    for u in inputs:
        new = model.update_transient_state(p, u, x, a)
        line = dict(u=enc_input(u), o=enc_state(new), watch=watch)
        if 'volts' in watch:
            line['v'] = enc(model.calculate_terminal_voltage(u, new, a).terminal_voltage)
        s.add('step', _w=B * 3, **line)
        x, p = new, u


def random_run(s, key, watch):
    r = nrng('ecm', watch[0], key)
    B = int(r.choice([1, 1, 1, 2, 3]))
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r, B)
    x = random_state(r, a, B)
    d = Drive(r, float(np.min(a.q_t.base_values)), float(np.mean(x.soc)), mode)
    p = d.input()
    run(s, mode, a, B, x, p, [d.next() for _ in range(int(r.integers(3, 8)))], watch)


def generated(s, h, watch):
    """A history of currents and durations found by TLC, applied to the circuit of the specification"""
    from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity, OpenCircuitVoltage, RCComponent,
                                              ReferenceOCV, Resistance)

    def res(v):
        return Resistance(base_values=v, temperature_dependence_factor=0.002)
    a = ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ce=0.9, r0=res(0.1), c0=Capacitance(base_values=10000.),
                ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.]), ocv_ent=EntropicOCV(base_values=0.001)),
                rc_elements=(RCComponent(r=res([0.05, 0.02]), c=Capacitance(base_values=1000.)), RCComponent(r=res(0.01), c=Capacitance(base_values=100.))),
                h0=HysteresisParameters(base_values=[0.05, 0.02], gamma=2.))
    x = ECMTransientVector(soc=0.5, q0=0., i_rc=[0., 2.], hyst=0.01)
    t, ins = 0., []
    for st in h['steps']:
        t += st['dt']
        ins.append(ECMInput(time=t, current=st['i'] - 5., temperature=30.))
    p = ECMInput(time=0., current=float(h['first']) - 5., temperature=30.)
    run(s, h['mode'], a, 1, x, p, ins, watch)


def histories(n, key, module='MCEcm', cfg='GenEcm.cfg', depth=8):
    r = tlc(module, cfg, args=['-simulate', f'num={n}', '-depth', str(depth), '-seed', str(SEED * 1000 + key)], timeout=300)
    seen, out = set(), []
    for h in tlc_strings(r['out'], 'HIST'):
        h = json.loads(h)
        k = json.dumps([h['mode'], h['steps'] if 'mine' in h else h['steps'][:-1], h.get('first'), h.get('mine')])
        if k not in seen:
            seen.add(k)
            out.append(h)
    if not out:
        raise Broken('no history was generated: ' + r['out'][-800:])
    return out[:n]


def circuits(res, key, watch, nmodel, nrandom):
    res.model_check('MCEcm', 'MCEcmDeep.cfg' if THOROUGH else 'MCEcm.cfg', workers=8)
    named = [(f'model-{i}', lambda s, h=h: generated(s, h, watch)) for i, h in enumerate(histories(nmodel, key))]
    named += [(f'run-{i}', lambda s, i=i: random_run(s, i, watch)) for i in range(nrandom)]
    return named


def c04(res):
    named = circuits(res, 4, ['charge'], 200 if THOROUGH else 30, 2500 if THOROUGH else 250)
    res.validate('TraceEcm', [record(nm, f) for nm, f in only(named)], shards=8)


def c05(res):
    named = circuits(res, 5, ['relax'], 200 if THOROUGH else 30, 2500 if THOROUGH else 250)
    res.validate('TraceEcm', [record(nm, f) for nm, f in only(named)], shards=8)


def values(s, key):
    """Components evaluated on their own"""
    r = nrng('values', key)
    B = int(r.choice([1, 1, 2, 3]))
    a = random_asoh(r, B, styles=STYLES)
    inside = True

    def socs(f=None):
        d = int(r.integers(1, 5))
        sb = int(r.choice([1, 1, 2, 4]))
        v = r.uniform(*((0., 1.) if inside else (-0.3, 1.3) if r.random() < 0.6 else (-2., 3.)), size=(sb, d))
        if r.random() < 0.2:
            v[0, 0] = float(r.choice([0., 1.]))
        if f is not None and f.soc_pinpoints is not None and r.random() < 0.5:  # the tabulated points themselves
            pins = np.array(f.soc_pinpoints)
            v[:, 0] = r.choice(pins, size=sb)
        form = str(r.choice(['2d', '2d', '1d', '0d']))
        if form == '1d':
            v = v[:1]
            return v, (v[0] if r.random() < 0.6 else v[0].tolist())
        if form == '0d':
            v = v[:1, :1]
            return v, float(v[0, 0])
        return v, v

    def temps():
        if r.random() < 0.3:
            return None, []
        T = temperature(r, -10, 60)
        return (T if r.random() < 0.5 else np.array([[T]])), [num(T)]

    for _ in range(7):
        inside = bool(r.random() < 0.6)
        kind = str(r.choice(['table', 'table', 'ohm', 'ocv', 'tau', 'capacity']))
        if kind == 'table':
            f = [a.ocv.ocv_ref, a.ocv.ocv_ent, a.h0] + [e.c for e in a.rc_elements] + ([a.c0] if a.c0 is not None else [])
            f = f[int(r.integers(len(f)))]
            v, arg = socs(f)
            e = enc_table(f)
            s.add('value', kind=kind, f=e, socs=enc(v), got=enc(f.get_value(arg)))
        elif kind == 'ohm':
            f = [a.r0] + [e.r for e in a.rc_elements]
            f = f[int(r.integers(len(f)))]
            v, arg = socs(f)
            T, te = temps()
            if np.all(f.temperature_dependence_factor == 0):
                T, te = None, []  # the size of a factor of zero is of no importance
            e = enc_res(f)
            s.add('value', kind=kind, f=e, socs=enc(v), temp=te, got=enc(f.get_value(arg, T) if T is not None or r.random() < 0.5 else f.get_value(arg)))
        elif kind == 'ocv':
            v, arg = socs(a.ocv.ocv_ref)
            T, te = temps()
            e = dict(ocv=enc_table(a.ocv.ocv_ref), ent=enc_table(a.ocv.ocv_ent), tref=enc(a.ocv.ocv_ref.reference_temperature))
            s.add('value', kind=kind, f=e, socs=enc(v), temp=te, got=enc(a.ocv.get_value(arg, T) if r.random() < 0.5 else a.ocv(arg, T)))
        elif kind == 'tau' and a.rc_elements:
            f = a.rc_elements[0]
            v, arg = socs(f.r)
            T, te = temps()
            e = dict(r=enc_res(f.r), c=enc_table(f.c))
            got = f.time_constant(arg, T)
            n = max(f.r.base_values.shape[0], f.c.base_values.shape[0], f.r.temperature_dependence_factor.shape[0] if te and np.any(f.r.temperature_dependence_factor != 0) else 1)
            s.add('value', kind=kind, f=e, socs=enc(v), temp=te, rows=n, got=enc(got))
        elif kind == 'capacity':
            s.add('value', kind=kind, f=enc(a.q_t.base_values), got=enc(a.q_t.value))
            new = r.uniform(1000, 9000, size=(B, 1))
            q = a.q_t.model_copy(deep=True)
            q.value = new
            s.add('value', kind=kind, f=enc(q.amp_hour), got=enc(new))


def voltages(s, key):
    """Voltage and energy of arbitrary states"""
    r = nrng('volts', key)
    B = int(r.choice([1, 1, 2, 3]))
    mode = str(r.choice(['constant', 'linear']))
    if r.random() < 0.2:
        B = 1
        a = ECMASOH.provide_template(has_C0=bool(r.random() < 0.5), num_RC=int(r.integers(0, 4)))
    else:
        a = random_asoh(r, B, styles=STYLES)
    model = ECM(mode)
    x = random_state(r, a, B)
    p = ECMInput(time=0., current=0.)
    start(s, mode, a, B, x, p)
    steps = [f for f in [a.ocv.ocv_ref, a.ocv.ocv_ent, a.r0, a.h0, a.c0] + [y for e in a.rc_elements for y in (e.r, e.c)]
             if f is not None and f.interpolation_style in ('previous', 'next')]
    for _ in range(6):
        x = random_state(r, a, B)
        if not steps and r.random() < 0.2:  # beyond the tabulated range
            x.soc = x.soc * 1.4 - 0.2 if r.random() < 0.5 else x.soc * 4 - 1.5
        u = ECMInput(time=float(r.uniform(0, 100)), current=float(np.round(r.normal() * 5, 3)) if r.random() < 0.8 else 0.,
                     **(dict(temperature=temperature(r, -10, 60)) if r.random() < 0.6 else {}))
        s.add('volts', _w=B * 3, x=enc_state(x), u=enc_input(u), v=enc(model.calculate_terminal_voltage(u, x, a).terminal_voltage))
    lo, hi = (0., 1.) if r.random() < 0.5 else [float(z) for z in np.sort(np.round(r.uniform(0, 1, size=2), 3))]
    if any(f.interpolation_style in ('previous', 'next', 'nearest', 'nearest-up', 'zero') for f in (a.ocv.ocv_ref, a.ocv.ocv_ent)):
        return
    T = None if r.random() < 0.4 else temperature(r, 0, 50)
    lim = (lo, hi) if r.random() < 0.7 else (hi, lo)
    got = a.get_theoretical_energy(lim, T) if T is not None else a.get_theoretical_energy(lim) if (lo, hi) != (0., 1.) else a.get_theoretical_energy()
    s.add('energy', _w=40 * B, lo=num(lo), hi=num(hi), temp=[] if T is None else [num(T)], got=enc(np.reshape(got, (-1, 1)) if np.size(got) == B or np.size(got) == 1 else got))


def c06(res):
    named = circuits(res, 6, ['volts'], 200 if THOROUGH else 15, 1000 if THOROUGH else 60)
    named += [(f'values-{i}', lambda s, i=i: values(s, i)) for i in range(2500 if THOROUGH else 250)]
    named += [(f'volts-{i}', lambda s, i=i: voltages(s, i)) for i in range(1500 if THOROUGH else 180)]
    res.validate('TraceEcm', [record(nm, f) for nm, f in only(named)], shards=8)


def batches(s, key):
    """A batch and each of its members alone"""
    from ecm_tools import member, member_state
    r = nrng('C07', key)
    B = int(r.choice([2, 2, 3, 4]))
    pb = float(r.choice([0.08, 0.2, 0.5, 0.95]))
    mode = str(r.choice(['constant', 'linear']))
    a = random_asoh(r, B, pb=pb, nrc=B if r.random() < 0.25 else None)
    x = random_state(r, a, B, pb=float(r.choice([0., 0.3, 0.9])))
    model = ECM(mode)
    d = Drive(r, float(np.min(a.q_t.base_values)), float(np.mean(x.soc)), mode)
    p = d.input()
    cells = [member(a, b) for b in range(B)]
    s.add('start', B=B)

    def result(y, v):
        out = enc_state(y)
        out['volts'] = enc(v.terminal_voltage)
        return {k: w for k, w in out.items() if w or k != 'q0'}
    names = ['soc', 'irc', 'hyst', 'volts'] + (['q0'] if a.c0 is not None else [])
    for _ in range(int(r.integers(2, 5))):
        u = d.next()
        for b in range(B):
            y = model.update_transient_state(p, u, member_state(x, b), cells[b])
            s.add('alone', result={k: w[0] for k, w in result(y, model.calculate_terminal_voltage(u, y, cells[b])).items()})
        new = model.update_transient_state(p, u, x, a)
        v = model.calculate_terminal_voltage(u, new, a)
        again = r.random() < 0.5
        s.add('together', table=result(new, v), names=names, tol='1e-9', last=not again)
        if again:  # another member changes; the others do not notice
            b = int(r.integers(B))
            soc = np.array(np.broadcast_to(x.soc, (B, 1)))
            soc[b] = r.uniform(0.2, 0.8)
            x2 = ECMTransientVector(soc=soc[:, 0], q0=None if x.q0 is None else x.q0.copy()[:, 0], i_rc=x.i_rc.copy(), hyst=x.hyst.copy()[:, 0])
            y = model.update_transient_state(p, u, member_state(x2, b), cells[b])
            s.add('renew', b=b + 1, result={k: w[0] for k, w in result(y, model.calculate_terminal_voltage(u, y, cells[b])).items()})
            n2 = model.update_transient_state(p, u, x2, a)
            s.add('together', table=result(n2, model.calculate_terminal_voltage(u, n2, a)), names=names, tol='1e-9', last=True)
        x, p = new, u
    # quantities of the description itself
    T = temperature(r, 0, 50)
    socs = np.array(r.uniform(0.1, 0.9, size=(1, 2)))
    for b in range(B):
        c = cells[b]
        s.add('alone', result=dict(energy=enc(np.ravel(c.get_theoretical_energy((0.1, 0.8), T))), ocv=enc(c.ocv(socs, T)[0]), r0=enc(c.r0.get_value(socs, T)[0])))
    s.add('together', table=dict(energy=enc(np.reshape(a.get_theoretical_energy((0.1, 0.8), T), (-1, 1))), ocv=enc(a.ocv(socs, T)), r0=enc(a.r0.get_value(socs, T))),
          names=['energy', 'ocv', 'r0'], tol='1e-9', last=True)


def generated_batch(s, h):
    """A batch of the specification (which quantities are given per member, and which currents pass), on the real model"""
    from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity, OpenCircuitVoltage, RCComponent,
                                              ReferenceOCV, Resistance)
    from ecm_tools import member, member_state
    B, mine = h['size'], h['mine']

    def rows(q, f):
        return np.array([f(b) for b in range(1, (B if q in mine else 1) + 1)])

    def res(q, f):
        return Resistance(base_values=rows(q, f), temperature_dependence_factor=rows('g', lambda b: b / 500))
    a = ECMASOH(q_t=MaxTheoreticalCapacity(base_values=rows('qt', lambda b: 1 + b / 2)), ce=rows('ce', lambda b: 0.9 + 0.03 * b),
                r0=res('r0', lambda b: [b / 10]), c0=Capacitance(base_values=rows('c0', lambda b: [b * 1e4])),
                ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=rows('ocv', lambda b: [3., 4 + b / 10]), reference_temperature=rows('tref', lambda b: 25. + b)),
                                       ocv_ent=EntropicOCV(base_values=rows('ent', lambda b: [b / 1000]))),
                rc_elements=(RCComponent(r=res('rcr', lambda b: [b / 20, 0.02]), c=Capacitance(base_values=rows('rcc', lambda b: [b * 1e3]))),),
                h0=HysteresisParameters(base_values=rows('h0', lambda b: [b / 20, 0.02]), gamma=rows('gamma', lambda b: 2 + 0.7 * b)))
    x = ECMTransientVector(soc=rows('soc', lambda b: 0.3 + 0.1 * b) if 'soc' in mine else 0.3, q0=rows('q0', lambda b: 10. * b) if 'q0' in mine else 0.,
                           i_rc=rows('irc', lambda b: [1. * b]) if 'irc' in mine else np.array([[0.]]), hyst=rows('hyst', lambda b: 0.01 * b) if 'hyst' in mine else 0.)
    model = ECM(h['mode'])
    cells = [member(a, b) for b in range(B)]
    ins = [ECMInput(time=200. * k, current=i - 5., temperature=30.) for k, i in enumerate(h['steps'])]
    own = [member_state(x, b) for b in range(B)]
    s.add('start', B=B)
    for p, u in zip(ins[:-1], ins[1:]):
        for b in range(B):
            own[b] = model.update_transient_state(p, u, own[b], cells[b])
            out = enc_state(own[b])
            s.add('alone', result={k: w[0] for k, w in dict(out, volts=enc(model.calculate_terminal_voltage(u, own[b], cells[b]).terminal_voltage)).items()})
        x = model.update_transient_state(p, u, x, a)
        s.add('together', table=dict(enc_state(x), volts=enc(model.calculate_terminal_voltage(u, x, a).terminal_voltage)),
              names=['soc', 'q0', 'irc', 'hyst', 'volts'], tol='1e-9', last=True)


def c07(res):
    res.model_check('MCEcm', 'MCEcm.cfg', workers=8)
    res.model_check('MCBatch', 'MCBatchDeep.cfg' if THOROUGH else 'MCBatch.cfg', workers=8)
    res.model_check('MCBatch', 'MCBatchDefect.cfg', expect='Action property Independent')
    named = [(f'batch-{i}', lambda s, i=i: batches(s, i)) for i in range(3000 if THOROUGH else 350)]
    named += [(f'model-{i}', lambda s, h=h: generated_batch(s, h)) for i, h in enumerate(histories(1000 if THOROUGH else 80, 7, 'MCBatch', 'GenBatch.cfg', 5))]
    res.validate('TraceBatch', [record(nm, f) for nm, f in only(named)], shards=8)
