"""Whole-model scenarios: a plain-data description and the builder that turns it
into a gnome Model through the public API."""
import math
from datetime import timedelta

from hypothesis import strategies as st

from .gen import (T0, OILS, grid, make_spill, make_substance, make_wind, spill_spec, when, wind_spec, write_bna)  # noqa: F401

BOX = (-2.0, 2.0)


@st.composite
def mover_kinds(draw):
    """which implementations move the elements, and their uncertainty parameters"""
    return {'wk': draw(st.sampled_from(['point', 'point', 'py'])), 'ck': draw(st.sampled_from(['simple', 'simple', 'current'])),
            'delay': draw(st.sampled_from([0, 0, 0.5])), 'udur': draw(st.sampled_from([3, 0.5])),
            'num': draw(st.sampled_from(['RK2', 'Euler', 'RK4']))}


@st.composite
def weathering_scenario(draw, cleanup=True, maps=('none', 'bounds', 'land'), unc=True, max_steps=10,
                        max_spills=3, max_n=20, zmax=0):
    oil = draw(st.sampled_from(OILS))
    dt = draw(st.sampled_from([300, 600, 900, 1800, 3600]))
    n = draw(st.integers(2, max_steps))
    span = dt * n
    lonlat = (grid(-0.02, 0.02, 8), grid(-0.02, 0.02, 8))
    c = {'oil': oil, 'dt': dt, 'n': n, 'unc': draw(st.booleans()) if unc else False,
         'wind': draw(wind_spec()), 'temp': draw(grid(275, 305, 10)),
         'sal': draw(st.sampled_from([0.0, 15.0, 32.0])), 'sed': draw(st.sampled_from([0.0, 5.0, 150.0])),
         'cur': (draw(grid(-1, 1, 8)), draw(grid(-1, 1, 8)), 0.0),
         'diff': draw(st.sampled_from([0.0, 1e4, 1e5])),
         'map': draw(st.sampled_from(maps)),
         'halflife': draw(st.sampled_from([-1, 0, 0.25, 1, 6])),
         'spills': draw(st.lists(spill_spec(oil=oil, lonlat=lonlat, max_n=max_n, span=span, zmax=zmax),
                                 min_size=1, max_size=max_spills)),
         'weather': draw(st.lists(st.sampled_from(['evaporation', 'dispersion', 'emulsification']),
                                  unique=True, min_size=1, max_size=3)),
         'clean': []}
    c.update(draw(mover_kinds()))
    wr, wp = c['spills'][0]['windage'], c['spills'][0]['wpersist']
    for s in c['spills']:
        s['windage'], s['wpersist'] = wr, wp
        if s.get('dur'):        # required: at least one element per time step of the release
            s['n'] = max(s['n'], s['dur'] // dt + 2)
    if cleanup:
        for kind in draw(st.lists(st.sampled_from(['skim', 'burn', 'disp', 'beach']), unique=True, max_size=3)):
            a = draw(st.integers(0, 4 * n))
            b = draw(st.integers(1, 4 * n))
            d = {'kind': kind, 'from': a * dt // 4, 'to': (a + b) * dt // 4,
                 'eff': draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])),
                 'amount': draw(st.sampled_from([0.0, 0.5, 5.0, 50.0, 2000.0])),
                 'units': draw(st.sampled_from(['kg', 'm^3', 'bbl']))}
            if kind == 'beach':      # documented: the record interval is larger than the step
                d['from'] = (a // 4) * dt
                d['to'] = d['from'] + dt * draw(st.integers(1, n))
            c['clean'].append(d)
    return c


def make_map(c, tmpdir):
    import gnome.scripting as gs
    from gnome.maps import GnomeMap
    kind = c['map']
    if kind == 'none':
        return None
    if kind == 'bounds':
        b = 0.05
        return GnomeMap(map_bounds=((-b, -b), (b, -b), (b, b), (-b, b)))
    if kind == 'land':
        path = tmpdir + '/land.bna'
        b = 0.2
        write_bna(path, [('map', [(-b, -b), (b, -b), (b, b), (-b, b)]),
                         ('1', [(0.05, -0.15), (0.15, -0.15), (0.15, 0.15), (0.05, 0.15)]),
                         ('1', [(-0.06, -0.15), (-0.05, -0.15), (-0.05, 0.15), (-0.06, 0.15)])])
        return gs.MapFromBNA(path, refloat_halflife=c['halflife'], raster_size=64 * 64)
    raise ValueError(kind)


def make_cleanup(d, wind, water, waves):
    import numpy as np
    from gnome.basic_types import datetime_value_1d
    from gnome.weatherers import Skimmer, Burn, ChemicalDispersion, Beaching
    ar = (when(d['from']), when(d['to']))
    if d['kind'] == 'skim':
        return Skimmer(amount=d['amount'], units=d['units'], efficiency=d['eff'], active_range=ar, water=water)
    if d['kind'] == 'burn':
        return Burn(area=max(d['amount'], 0.5) * 10, thickness=0.02, active_range=(ar[0], ar[1]),
                    area_units='m^2', thickness_units='m', efficiency=d['eff'], wind=wind, water=water)
    if d['kind'] == 'disp':
        return ChemicalDispersion(fraction_sprayed=0.3, active_range=ar, efficiency=d['eff'], waves=waves)
    ts = np.zeros((1,), dtype=datetime_value_1d)
    ts[0]['time'] = np.datetime64(ar[1])
    ts[0]['value'] = d['amount']
    return Beaching(active_range=(ar[0], ar[1]), units=d['units'], timeseries=ts, water=water)


def make_model(c, tmpdir, **kw):
    import gnome.scripting as gs
    from gnome.environment import SteadyUniformCurrent
    from gnome.movers import CurrentMover, SimpleMover, WindMover
    wind = make_wind(c['wind'])
    water = gs.Water(temperature=c['temp'], salinity=c['sal'])
    water.sediment = c['sed']
    waves = gs.Waves(wind, water)
    gmap = make_map(c, tmpdir)
    model = gs.Model(start_time=T0, duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'],
                     uncertain=c['unc'], map=gmap, run_backwards=c.get('back', False), **kw)
    model.environment += [wind, water, waves]
    if c.get('wk') == 'py':
        model.movers += WindMover(wind, uncertain_duration=c['udur'] * 3600, uncertain_time_delay=c['delay'] * 3600,
                                  default_num_method=c['num'])
    else:
        model.movers += gs.PointWindMover(wind, uncertain_duration=c.get('udur', 3), uncertain_time_delay=c.get('delay', 0))
    if any(c['cur']):
        if c.get('ck') == 'current':
            model.movers += CurrentMover(SteadyUniformCurrent(speed=math.hypot(*c['cur'][:2]),
                                                              direction=math.degrees(math.atan2(c['cur'][0], c['cur'][1])) % 360),
                                         uncertain_duration=c['udur'] * 3600, uncertain_time_delay=c['delay'] * 3600,
                                         default_num_method=c['num'])
        else:
            model.movers += SimpleMover(velocity=tuple(c['cur']))
    if c['diff']:
        model.movers += gs.RandomMover(diffusion_coef=c['diff'])
    sub = make_substance(c['spills'][0])
    for s in c['spills']:
        model.spills += make_spill(s, sub)
    if c['weather']:
        model.add_weathering(c['weather'])
    for d in c['clean']:
        model.weatherers += make_cleanup(d, wind, water, waves)
    return model


LOSSES = ('evaporated', 'natural_dispersion', 'sedimentation', 'off_maps',
          'skimmed', 'burned', 'chem_dispersed', 'observed_beached')


def snapshot(model):
    """copies of every element array of every container, as plain numpy arrays"""
    import numpy as np
    out = []
    for sc in model.spills.items():
        out.append({k: np.array(sc[k], copy=True) for k in sorted(sc.array_types)})
    return out


def budget_of(model):
    return [{k: float(v) for k, v in sc.mass_balance.items() if isinstance(v, (int, float)) or hasattr(v, 'dtype')}
            for sc in model.spills.items()]


def run_all(model, n=None):
    """step to the end (or n steps); list of (time, snapshot, budget)"""
    res = []
    while n is None or len(res) < n:
        try:
            model.step()
        except StopIteration:
            break
        res.append((model.model_time, snapshot(model), budget_of(model)))
    return res


def same_runs(ctx, a, b, what):
    import numpy as np
    ctx.equal(len(a), len(b), what + ": number of steps")
    for i, ((t1, s1, m1), (t2, s2, m2)) in enumerate(zip(a, b)):
        ctx.equal(t1, t2, what + ": time of step %d" % i)
        ctx.equal(len(s1), len(s2), what + ": number of containers")
        for j, (x, y) in enumerate(zip(s1, s2)):
            ctx.equal(sorted(x), sorted(y), what + ": arrays at step %d" % i)
            for k in x:
                ctx.check(x[k].shape == y[k].shape and np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == 'f'),
                          "%s: step %d container %d array %r differs: %s vs %s", what, i, j, k, x[k][:5], y[k][:5])
        for j, (x, y) in enumerate(zip(m1, m2)):
            for k in x:
                ctx.check(k in y and (x[k] == y[k] or (x[k] != x[k] and y[k] != y[k])),
                          "%s: step %d container %d mass balance %r: %r vs %r", what, i, j, k, x[k], y.get(k))


@st.composite
def transport_scenario(draw, max_steps=8, max_spills=3, max_n=15, maps=('none', 'bounds', 'land'), backward=False):
    dt = draw(st.sampled_from([300, 600, 900, 1800, 3600]))
    n = draw(st.integers(2, max_steps))
    back = draw(st.booleans()) if backward else False
    types = ('point',) if back else ('point', 'line', 'cont')
    lonlat = (grid(-0.02, 0.02, 8), grid(-0.02, 0.02, 8))
    c = {'oil': None, 'dt': dt, 'n': n, 'unc': draw(st.booleans()), 'wind': draw(wind_spec()),
         'temp': 290.0, 'sal': 32.0, 'sed': 5.0, 'back': back,
         'cur': (draw(grid(-1, 1, 8)), draw(grid(-1, 1, 8)), 0.0),
         'diff': draw(st.sampled_from([0.0, 1e4, 1e5])), 'map': draw(st.sampled_from(maps)),
         'halflife': draw(st.sampled_from([-1, 0, 0.25, 1, 6])),
         'spills': draw(st.lists(spill_spec(lonlat=lonlat, max_n=max_n, span=dt * n, types=types),
                                 min_size=1, max_size=max_spills)),
         'weather': [], 'clean': []}
    c.update(draw(mover_kinds()))
    wr, wp = c['spills'][0]['windage'], c['spills'][0]['wpersist']
    for s in c['spills']:
        s['windage'], s['wpersist'] = wr, wp
        if s.get('dur'):
            s['n'] = max(s['n'], s['dur'] // dt + 2)
        if back:
            s['rel'] = -s['rel']
    return c
