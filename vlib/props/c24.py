"""C24: a cleanup operation removes what it was asked to, while it is active, and no more than is there."""
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, T0, grid, when

MASS = {'kg': 1.0, 'lb': 0.45359237, 'metric ton': 1000.0}
VOL = {'m^3': 1.0, 'bbl': 0.158987294928, 'gal': 0.003785411784}


@st.composite
def op(draw, span, dt):
    kind = draw(st.sampled_from(['skim', 'burn', 'disp', 'beach']))
    a = draw(st.sampled_from([0, dt, dt // 2, dt + dt // 3, 2 * dt + 7, span // 2, 3]))
    d = draw(st.sampled_from([dt // 4, dt // 2, dt, 2 * dt, 2 * dt + dt // 3, span, 5 * dt + 1]))
    o = {'kind': kind, 'from': a, 'to': a + max(d, 2), 'eff': draw(st.sampled_from([0.0, 0.3, 0.75, 1.0])),
         'amount': draw(st.sampled_from([0.0, 1.0, 40.0, 300.0])), 'units': draw(st.sampled_from(sorted(MASS) + sorted(VOL))),
         'area': draw(st.sampled_from([10.0, 2000.0])), 'thick': draw(st.sampled_from([0.003, 0.01, 0.02])), 'imp': draw(st.booleans()),
         'frac': draw(st.sampled_from([0.1, 0.5, 1.0]))}
    if kind == 'beach':
        k = draw(st.integers(1, 3))
        o['ts'] = [(a + (i + 1) * max(d, dt + 1), draw(st.sampled_from([0.0, 1.0, 30.0]))) for i in range(k)]
        o['to'] = o['ts'][-1][0]
    return o


@st.composite
def case(draw):
    dt = draw(st.sampled_from([60, 600, 900, 3600]))
    n = draw(st.integers(2, 9))
    return {'dt': dt, 'n': n, 'op': draw(op(dt * n, dt)), 'oil': draw(st.sampled_from(OILS)), 'els': draw(st.one_of(st.integers(1, 2), st.integers(1, 25))),
            'kg': draw(st.sampled_from([100.0, 3e4, 1e6, 1e8])), 'sub': draw(st.sampled_from([1, 1, 3])), 'temp': draw(grid(275, 305, 6)),
            'under': draw(st.booleans()), 'weather': draw(st.sampled_from([(), (), ('evaporation',), ('evaporation', 'emulsification')])),
            'on': draw(st.sampled_from([True, True, True, False])), 'rewind': draw(st.booleans())}


def make_op(o, water, wind, waves, on):
    import numpy as np
    from gnome.basic_types import datetime_value_1d
    from gnome.weatherers import Beaching, Burn, ChemicalDispersion, Skimmer
    ar = (when(o['from']), when(o['to']))
    if o['kind'] == 'skim':
        return Skimmer(amount=o['amount'], units=o['units'], efficiency=o['eff'], active_range=ar, water=water, on=on)
    if o['kind'] == 'burn':
        a, t = o['area'], o['thick']
        if o['imp']:
            return Burn(area=a / 0.09290304, thickness=t / 0.0254, area_units='ft^2', thickness_units='in', efficiency=o['eff'],
                        active_range=ar, wind=wind, water=water, on=on)
        return Burn(area=a, thickness=t, area_units='m^2', thickness_units='m', efficiency=o['eff'], active_range=ar, wind=wind, water=water, on=on)
    if o['kind'] == 'disp':
        return ChemicalDispersion(fraction_sprayed=o['frac'], efficiency=o['eff'], active_range=ar, waves=waves, on=on)
    ts = np.zeros((len(o['ts']),), dtype=datetime_value_1d)
    for i, (t, v) in enumerate(o['ts']):
        ts[i]['time'] = np.datetime64(when(t))
        ts[i]['value'] = v
    return Beaching(active_range=ar, units=o['units'], timeseries=ts, water=water, on=on)


KEY = {'skim': 'skimmed', 'burn': 'burned', 'disp': 'chem_dispersed', 'beach': 'observed_beached'}


@facet('C24', case(), quick=320, budget=60,
       rule="one cleanup operation of each kind over a generated active range (also inside one step, off the step grid, with substeps) on ample or scarce oil, with and without weathering; non-trivial: the operation was active with oil on the water")
def removal(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    o, dt = c['op'], c['dt']
    model = gs.Model(start_time=T0, duration=timedelta(seconds=dt * c['n']), time_step=dt, weathering_substeps=c['sub'])
    wind = gs.constant_wind(6, 90)
    water = gs.Water(c['temp'])
    waves = gs.Waves(wind, water)
    model.environment += [wind, water, waves]
    sub = gs.GnomeOil(c['oil'])
    model.spills += gs.point_line_spill(num_elements=c['els'], start_position=(0, 0, 0), release_time=T0, amount=c['kg'], units='kg', substance=sub)
    if c['under']:
        model.spills += gs.point_line_spill(num_elements=3, start_position=(0, 0, 5.0), release_time=T0, amount=70.0, units='kg', substance=sub)
    if c['weather']:
        model.add_weathering(list(c['weather']))
    w = make_op(o, water, wind, waves, c['on'])
    model.weatherers += w
    rho = sub.standard_density

    def kg(v):
        return v * MASS[o['units']] if o['units'] in MASS else v * VOL[o['units']] * rho

    def over(t, a, b):
        return max(0.0, min(t, b) - a)
    if o['kind'] == 'burn':
        end = o['from'] + (o['thick'] - 0.002) / 0.000058
        if not c['weather']:
            ctx.close((w.active_range[1] - T0).total_seconds(), end, "end of the burn", rtol=1e-6, atol=1e-4)
        asked = lambda t: over(t, o['from'], end) * 0.000058 * o['area'] * rho * o['eff']     # noqa: E731
        total = o['eff'] * o['area'] * o['thick'] * rho
    elif o['kind'] == 'skim':
        asked = lambda t: kg(o['amount']) * o['eff'] * over(t, o['from'], o['to']) / (o['to'] - o['from'])  # noqa: E731
        total = kg(o['amount']) * o['eff']
    elif o['kind'] == 'disp':
        all_kg = c['kg'] + (70.0 if c['under'] else 0)
        asked = lambda t: all_kg * o['frac'] * o['eff'] * over(t, o['from'], o['to']) / (o['to'] - o['from'])   # noqa: E731
        total = all_kg * o['frac'] * o['eff']
    else:
        def asked(t):
            s, last = 0.0, o['from']
            for e, v in o['ts']:
                s += kg(v) * over(t, last, e) / (e - last)
                last = e
            return s
        total = sum(kg(v) for _, v in o['ts'])
    key = KEY[o['kind']]
    exact = not c['weather']
    if c['rewind']:
        model.step(), model.step()
        model.rewind()
    acted = False
    for k in range(c['n'] + 1):
        model.step()
        sc = model.spills.items()[0]
        # weathering of a step covers the time up to the step's end
        t = k * dt
        got = float(sc.mass_balance.get(key, 0.0))
        if not c['on']:
            ctx.equal(got, 0.0, "step %d: %s by an operation that is off" % (k, key))
            continue
        want = asked(t)
        acted |= want > 0
        tol = 1e-7 * c['kg'] + 1e-9
        ctx.check(got <= want * (1 + 1e-6) + tol, "step %d: %s kg %s, but only %s kg were asked for by then", k, got, key, want)
        ctx.check(got <= c['kg'] + tol, "step %d: more %s than was spilled", k, key)
        top = sc['positions'][:, 2] == 0
        under = float(sc['mass'][~top].sum())
        if c['under']:
            ctx.close(under, 70.0, "step %d: mass of the submerged oil" % k, rtol=1e-9)
        ctx.check((sc['mass_components'] >= 0).all(), "step %d: negative mass", k)
        if exact:
            ctx.close(sc['mass'][top].sum(), c['kg'] - got, "step %d: mass left on the water" % k, rtol=1e-6, atol=3e-6 * c["kg"])
            m = sc['mass'] > 1e-6 * c['kg'] / c['els']
            ctx.close(sc['mass_components'][m] / sc['mass'][m][:, None], np.broadcast_to(sub.mass_fraction, sc['mass_components'][m].shape),
                      "step %d: composition of what is left" % k, rtol=1e-6)
            ample = c['kg'] >= total
            # elements marked once for a burn or dispersal hold at least what will be removed
            if ample or o['kind'] in ('skim', 'beach'):
                ctx.close(got, min(want, c['kg']), "step %d: %s in the budget" % (k, key), rtol=1e-6, atol=tol)
            elif o['kind'] == 'burn':
                ctx.close(got, min(want, c['kg']), "step %d: %s in the budget, scarce oil" % (k, key), rtol=1e-6, atol=tol)
    ctx.nontrivial(acted and c['on'])
    ctx.label(o['kind'], 'in one step' if o['to'] - o['from'] < dt else 'longer')


# ---------------------------------------------------------------- emulsions: only the oil in them is removed
@st.composite
def emulsion_case(draw):
    return {'dt': draw(st.sampled_from([20, 60, 300, 900])), 'n': draw(st.integers(3, 9)), 'kind': draw(st.sampled_from(['skim', 'burn'])), 'oil': draw(st.sampled_from(OILS)),
            'els': draw(st.lists(st.tuples(st.sampled_from([1.0, 50.0, 400.0, 3000.0]), st.sampled_from([0.0, 0.0, 0.2, 0.5, 0.75, 0.9]), st.integers(1, 4)), min_size=1, max_size=4)),
            'from': draw(st.sampled_from([2, 2, 3])), 'off': draw(st.sampled_from([0.0, 0.25, 0.5])), 'len': draw(st.sampled_from([0.3, 2.5, 8.0, 40.0, 100.0])), 'eff': draw(st.sampled_from([0.4, 1.0])),
            'fold': draw(st.sampled_from([1.0, 1.3, 6.0])), 'units': draw(st.sampled_from(sorted(MASS) + sorted(VOL))), 'thick': draw(st.sampled_from([0.003, 0.01, 0.03]))}


@facet('C24', emulsion_case(), quick=250,
       rule="skimming and burning of elements of different mass and water content, none left out; non-trivial: at least two water contents")
def emulsions(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.weatherers import Burn, Skimmer
    dt = c['dt']
    model = gs.Model(start_time=T0, duration=timedelta(seconds=dt * c['n']), time_step=dt)
    wind, water = gs.constant_wind(6, 90), gs.Water(290.0)
    model.environment += [wind, water, gs.Waves(wind, water)]
    sub = gs.GnomeOil(c['oil'])
    total = 0.0
    for kg, _, n in c['els']:
        model.spills += gs.point_line_spill(num_elements=n, start_position=(0, 0, 0), release_time=T0, amount=kg, units='kg', substance=sub)
        total += kg
    rho = sub.standard_density
    frac = sum(kg * (1 - w) for kg, w, _ in c['els']) / total
    a = (c['from'] + c['off']) * dt
    ask = sum(kg / (1 - w) for kg, w, _ in c['els']) * c['fold'] * 1.01        # at least all of the emulsion, so that no element is left out
    if c['kind'] == 'skim':
        b = a + c['len'] * dt
        asked_kg = ask / c['eff']
        amount = asked_kg / MASS[c['units']] if c['units'] in MASS else asked_kg / rho / VOL[c['units']]
        op = Skimmer(amount=amount, units=c['units'], efficiency=c['eff'], active_range=(when(a), when(b)), water=water)
        rate = asked_kg * frac * c['eff'] / (b - a)
    else:
        area = ask / (rho * c['thick'] * c['eff'])
        b = a + (c['thick'] - 0.002) / (0.000058 * frac)
        op = Burn(area=area, thickness=c['thick'], area_units='m^2', thickness_units='m', efficiency=c['eff'], active_range=(when(a), when(a + 1)), wind=wind, water=water)
        rate = 0.000058 * frac ** 2 * area * rho * c['eff']
    model.weatherers += op
    w = np.concatenate([[w] * n for _, w, n in c['els']])
    acted = False
    for k in range(c['n'] + 1):
        model.step()
        sc = model.spills.items()[0]
        sc['frac_water'][:] = w
        got = float(sc.mass_balance.get(KEY[c['kind']], 0.0))
        want = min(total, rate * max(0.0, min(k * dt, b) - a))
        ctx.close(got, want, "step %d: %s of emulsions with %s of oil on average" % (k, KEY[c['kind']], frac), rtol=1e-6, atol=1e-6 * total)
        ctx.close(sc['mass'].sum(), total - want, "step %d: mass left" % k, rtol=1e-6, atol=3e-6 * total)
        acted |= want > 0
    if c['kind'] == 'burn' and acted:
        ctx.close((op.active_range[1] - T0).total_seconds(), b, "end of the burn", rtol=1e-6, atol=1e-3)
    ctx.nontrivial(acted and len({x for _, x, _ in c['els']}) > 1)
    ctx.label(c['kind'])
