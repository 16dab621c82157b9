"""desc -> flixOpt objects, through the public API only."""
import datetime
import random

import numpy as np

import flixOpt as fx
from flixOpt.elements import Component


class Built:
    pass


def _dtarr(start, steps_h, unit):
    t = [np.datetime64(start, 'm')]
    for h in steps_h:
        t.append(t[-1] + np.timedelta64(int(round(h * 60)), 'm'))
    return np.array(t)


def build(D, time_unit=None, extra_before=0, extra_after=0):
    """Builds the flow system of D; returns Built with .fs and element lookups"""
    rng = random.Random(D['seed'])
    T = D['T']
    B = Built()
    starts = _dtarr('2021-03-01T00:00', D['dt'][:-1], 'm')
    unit = rng.choice(['m', 's', 'us']) if time_unit is None else time_unit
    unit = D.get('tunit', unit)
    ts = starts.astype('datetime64[%s]' % unit)
    B.time = ts
    B.fs = fx.FlowSystem(ts, last_time_step_hours=None if D.get('nolast') and T > 1 and D['dt'][-1] == D['dt'][-2] else D['dt'][-1],
                         previous_dt_in_hours=np.array(D['prevdt'], dtype=float) if isinstance(D['prevdt'], list) else D['prevdt'])

    def val(v, tsd=True, n=T):
        """scalars stay scalars; lists become arrays, TimeSeriesData, or arrays of one value"""
        if v is None:
            return None
        if isinstance(v, list):
            a = np.array(v, dtype=float)
            return fx.TimeSeriesData(a) if (tsd and rng.random() < 0.3) else a
        return v

    def meta():
        # more information, not used in calculations
        return dict(meta_data={'note': 'text', 'code': [1, 2.5, 3], 'part': {'x': rng.randint(1, 9)}}) if D.get('meta') and rng.random() < 0.5 else {}

    B.effects, B.shared = [], {}
    for i, e in enumerate(D['effs']):
        B.effects.append(fx.Effect(
            e['label'], 'u%d' % i, 'effect %d' % i, is_standard=(i == D['std']), is_objective=(i == D['obj']),
            minimum_operation=e.get('minop'), maximum_operation=e.get('maxop'), minimum_invest=e.get('mininv'), maximum_invest=e.get('maxinv'),
            minimum_total=e.get('mintot'), maximum_total=e.get('maxtot'),
            minimum_operation_per_hour=val(e.get('minph')), maximum_operation_per_hour=val(e.get('maxph')), **meta()))
    for i, e in enumerate(D['effs']):
        if e['so']:
            B.effects[i].specific_share_to_other_effects_operation = {B.effects[t]: val(v) for t, v in e['so']}
        if e['si']:
            B.effects[i].specific_share_to_other_effects_invest = {B.effects[t]: v for t, v in e['si']}

    def eff(ev, ts=True):
        if not ev:
            return None
        d = {}
        for e, v in ev:
            d[None if e is None else B.effects[e]] = val(v) if ts else v
        if D.get('shareddicts') and ts:
            # the same dictionary, given to all that have equal effects
            return B.shared.setdefault(repr(ev), d)
        if list(d) == [None] and rng.random() < 0.6:
            return d[None]      # a plain number / series: the standard effect
        return d

    def inv(iv):
        kw = {}
        if iv['fixed'] is not None:
            kw['fixed_size'] = iv['fixed']
        if iv['min'] is not None:
            kw['minimum_size'] = iv['min']
        if iv['max'] is not None:
            kw['maximum_size'] = iv['max']
        for k, n in (('fix', 'fix_effects'), ('spec', 'specific_effects'), ('div', 'divest_effects')):
            if iv[k]:
                kw[n] = eff(iv[k], False)
        if iv['seg']:
            xs, ys = iv['seg']
            d = {B.effects[e]: [tuple(p) for p in y] for e, y in ys}
            kw['effects_in_segments'] = ([tuple(p) for p in xs], d)
        return fx.InvestParameters(optional=bool(iv['opt']), **kw)

    def onoff(oo):
        if oo is None:
            return None
        return fx.OnOffParameters(
            effects_per_switch_on=eff(oo.get('esw')), effects_per_running_hour=eff(oo.get('erun')),
            on_hours_total_min=oo.get('hmin'), on_hours_total_max=oo.get('hmax'),
            consecutive_on_hours_min=val(oo.get('runmin')), consecutive_on_hours_max=val(oo.get('runmax')),
            consecutive_off_hours_min=val(oo.get('offmin')), consecutive_off_hours_max=val(oo.get('offmax')),
            switch_on_total_max=oo.get('swmax'), force_switch_on=bool(oo.get('force')))

    B.buses = []
    for b in D['buses']:
        if b['pen'] == 'default':
            B.buses.append(fx.Bus(b['label']))
        else:
            B.buses.append(fx.Bus(b['label'], excess_penalty_per_flow_hour=val(b['pen']), **meta()))

    B.flows, B.comps, B.flow_of = [], [], []

    def mkflow(fl):
        s = fl['size']
        kw = {}
        if s is not None:
            kw['size'] = s['v'] if s['kind'] == 'num' else inv(s)
        if fl['prof'] is not None:
            kw['fixed_relative_profile'] = val(fl['prof'])
        pv = fl['prev']
        if pv is not None:
            kw['previous_flow_rate'] = np.array(pv, dtype=float) if isinstance(pv, list) else pv
        e = eff(fl['eff'])
        if e is not None:
            kw['effects_per_flow_hour'] = e
        return fx.Flow(fl['label'], bus=B.buses[fl['bus']], relative_minimum=val(fl['rmin']), relative_maximum=val(fl['rmax']),
                       on_off_parameters=onoff(fl['onoff']), flow_hours_total_max=fl['fhmax'], flow_hours_total_min=fl['fhmin'],
                       load_factor_min=fl['lfmin'], load_factor_max=fl['lfmax'], **kw, **meta())

    for comp in D['comps']:
        F = [mkflow(fl) for fl in comp['flows']]
        k, lab = comp['cls'], comp['label']
        oo = onoff(comp.get('onoff'))
        if k == 'Source':
            C = fx.Source(lab, source=F[0], **meta())
        elif k == 'Sink':
            C = fx.Sink(lab, sink=F[0])
        elif k == 'SourceAndSink':
            C = fx.SourceAndSink(lab, sink=F[0], source=F[1], prevent_simultaneous_flows=comp['excl'])
        elif k == 'Boiler':
            C = fx.linear_converters.Boiler(lab, val(comp['par'][0]), Q_fu=F[0], Q_th=F[1], on_off_parameters=oo, **meta())
        elif k == 'Power2Heat':
            C = fx.linear_converters.Power2Heat(lab, val(comp['par'][0]), P_el=F[0], Q_th=F[1], on_off_parameters=oo)
        elif k == 'HeatPump':
            C = fx.linear_converters.HeatPump(lab, val(comp['par'][0]), P_el=F[0], Q_th=F[1], on_off_parameters=oo)
        elif k == 'CoolingTower':
            C = fx.linear_converters.CoolingTower(lab, val(comp['par'][0], False), P_el=F[0], Q_th=F[1], on_off_parameters=oo)
        elif k == 'CHP':
            C = fx.linear_converters.CHP(lab, eta_th=val(comp['par'][0], False), eta_el=val(comp['par'][1], False), Q_fu=F[0], Q_th=F[1], P_el=F[2], on_off_parameters=oo)
        elif k == 'HPSource':
            C = fx.linear_converters.HeatPumpWithSource(lab, COP=val(comp['par'][0], False), P_el=F[0], Q_ab=F[1], Q_th=F[2], on_off_parameters=oo)
        elif k == 'Linear':
            C = fx.LinearConverter(lab, inputs=F[:comp['nin']], outputs=F[comp['nin']:], on_off_parameters=oo,
                                   conversion_factors=[{F[fi]: val(v) for fi, v in eq} for eq in comp['eqs']])
        elif k == 'Piecewise':
            C = fx.LinearConverter(lab, inputs=F[:1], outputs=F[1:], on_off_parameters=oo,
                                   segmented_conversion_factors={f: [(val(row[i][0], False), val(row[i][1], False)) for row in comp['seg']] for i, f in enumerate(F)})
        elif k == 'Transmission':
            C = fx.Transmission(lab, in1=F[0], out1=F[1], in2=F[2] if comp['two'] else None, out2=F[3] if comp['two'] else None,
                                relative_losses=val(comp['rel']), absolute_losses=val(comp['abs']), on_off_parameters=oo,
                                prevent_simultaneous_flows_in_both_directions=comp['excl'])
        elif k == 'Storage':
            C = fx.Storage(lab, charging=F[0], discharging=F[1],
                           capacity_in_flow_hours=inv(comp['cap']) if isinstance(comp['cap'], dict) else comp['cap'],
                           relative_minimum_charge_state=val(comp['rmin'], False), relative_maximum_charge_state=val(comp['rmax'], False),
                           initial_charge_state='lastValueOfSim' if comp['init'] == 'cyc' else comp['init'],
                           minimal_final_charge_state=comp['fmin'], maximal_final_charge_state=comp['fmax'],
                           eta_charge=val(comp['etac']), eta_discharge=val(comp['etad']), relative_loss_per_hour=val(comp['loss']),
                           prevent_simultaneous_charge_and_discharge=comp['excl'])
        elif k == 'Component':
            C = Component(lab, inputs=F[:comp['nin']], outputs=F[comp['nin']:], on_off_parameters=oo,
                          prevent_simultaneous_flows=[F[i] for i in comp['group']])
        else:
            raise ValueError(k)
        B.flows += F
        B.comps.append(C)
    els = B.effects + B.comps
    eo = list(B.effects)
    rng.shuffle(eo)
    if rng.random() < 0.5:
        B.fs.add_elements(*eo, *B.comps)
    else:
        B.fs.add_effects(*eo)
        B.fs.add_components(*B.comps)
    return B
