"""C13: saving, loading, serializing and updating keep every setting."""
import copy
import json
import math
import os
import zipfile
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib import scen
from vlib.gen import OILS, grid, when, wind_spec, write_bna

NAMES = st.one_of(st.none(), st.sampled_from(['a', 'Spill #1', 'x/y\\z', 'a:b*?"<>|', 'räksmörgås', '{0}', '{', 'a.b.json', 'x' * 60, '100%', "it's", ' ']),
                  st.text(alphabet='abcXYZ 019_-.{}()[]%&#é', min_size=1, max_size=12))

frac = st.integers(0, 20).map(lambda i: i / 20)
pos = st.one_of(st.integers(1, 1000).map(lambda i: i / 8), st.sampled_from([0.1, 1 / 3, 12345.678, 1e-3]))
sgn = st.integers(-400, 400).map(lambda i: i / 8)
sec = st.one_of(st.integers(-100, 100).map(lambda i: i * 900), st.integers(-10**6, 10**6))
tm = sec.map(lambda s: ('t', s))
rng = st.one_of(st.just(('range', None, None)), st.tuples(st.just('range'), st.one_of(st.none(), st.integers(0, 100).map(lambda i: i * 60)),
                                                        st.one_of(st.none(), st.integers(101, 300).map(lambda i: i * 60))))
lonlat3 = st.tuples(grid(-170, 170, 300), grid(-80, 80, 300), grid(0, 50, 10)).map(list)
tz = st.tuples(st.just('tz'), st.one_of(st.none(), st.integers(-24, 24).map(lambda i: i / 2)), st.sampled_from(['', 'somewhere', 'PST']))
wind_v = wind_spec().map(lambda w: ('ts', w))
units_dict = st.just(None)


def fd(**kw):
    return st.fixed_dictionaries(kw)


PROC = dict(on=st.booleans(), active_range=rng)
UNC = dict(uncertain_duration=st.integers(1, 1000).map(lambda i: i / 8), uncertain_time_delay=st.integers(0, 1000).map(lambda i: i / 8))
OUT = dict(on=st.booleans(), output_zero_step=st.booleans(), output_last_step=st.booleans(), output_single_step=st.booleans(),
           output_timestep=st.one_of(st.none(), st.integers(1, 100).map(lambda i: ('td', i * 300))), output_start_time=st.one_of(st.none(), tm))

# kind -> (class path, fields, options)
KINDS = {}


def kind(name, path, fields, **opt):
    KINDS[name] = (path, fields, opt)


def ref(name):
    return st.deferred(lambda: spec_of(name)).map(lambda s: ('ref', name, s))


def opt_ref(name):
    return st.one_of(st.none(), ref(name))


@st.composite
def spec_of(draw, name):
    path, fields, opt = KINDS[name]
    d = {k: draw(v) for k, v in fields.items()}
    if opt.get('adjust'):
        opt['adjust'](d)
    d['name'] = draw(NAMES)
    return d


kind('SimpleMover', 'gnome.movers.SimpleMover', dict(PROC, velocity=st.tuples(sgn, sgn, sgn).map(lambda v: ('arr', list(v))), uncertainty_scale=frac))
kind('RandomMover', 'gnome.movers.RandomMover', dict(PROC, diffusion_coef=pos, uncertain_factor=pos.map(lambda x: 1 + x)))
kind('RandomMover3D', 'gnome.movers.RandomMover3D',
     dict(PROC, vertical_diffusion_coef_above_ml=pos, vertical_diffusion_coef_below_ml=pos, horizontal_diffusion_coef_above_ml=pos,
          horizontal_diffusion_coef_below_ml=pos, mixed_layer_depth=pos, surface_is_allowed=st.booleans()))
kind('RiseVelocityMover', 'gnome.movers.RiseVelocityMover', dict(PROC))
kind('PointWindMover', 'gnome.movers.PointWindMover', dict(PROC, **UNC, uncertain_speed_scale=frac, uncertain_angle_scale=frac, wind=ref('Wind')))
kind('WindMover', 'gnome.movers.WindMover', dict(PROC, **UNC, uncertain_speed_scale=frac, uncertain_angle_scale=frac, scale_value=pos,
                                                  default_num_method=st.sampled_from(['Euler', 'RK2', 'RK4']), wind=ref('Wind')))
kind('CurrentMover', 'gnome.movers.CurrentMover', dict(PROC, **UNC, uncertain_along=frac, uncertain_cross=frac, scale_value=pos,
                                                        default_num_method=st.sampled_from(['Euler', 'RK2', 'RK4']), current=ref('SteadyUniformCurrent')))
kind('SteadyUniformCurrent', 'gnome.environment.SteadyUniformCurrent', dict(speed=pos, direction=grid(0, 360, 90)))
kind('Wind', 'gnome.environment.Wind',
     dict(timeseries=wind_v, speed_uncertainty_scale=frac.map(lambda x: x / 2), extrapolation_is_allowed=st.booleans(),
          latitude=st.one_of(st.none(), sgn), longitude=st.one_of(st.none(), sgn), source_id=st.sampled_from(['undefined', 'KSEA', '46029']),
          description=st.sampled_from(['Wind Object', 'buoy é']), source_type=st.sampled_from(['undefined', 'manual', 'buoy', 'nws']), timezone_offset=tz))


def water_units(d):
    d['units'] = dict(WU)
    d['units'].update({k: v for k, v in d.pop('u').items()})


WU = {'temperature': 'K', 'salinity': 'psu', 'sediment': 'mg/l', 'wave_height': 'm', 'fetch': 'm', 'kinematic_viscosity': 'm^2/s', 'density': 'kg/m^3'}
kind('Water', 'gnome.environment.Water',
     dict(temperature=grid(275, 305, 30), salinity=grid(0, 40, 40), sediment=grid(0, 50, 10),
          wave_height=st.one_of(st.none(), grid(0, 5, 10)), fetch=st.one_of(st.none(), grid(0, 5000, 10)),
          u=fd(temperature=st.sampled_from(['K', 'C', 'F']), wave_height=st.sampled_from(['m', 'ft', 'km']),
               fetch=st.sampled_from(['m', 'km', 'mi']), sediment=st.sampled_from(['mg/l', 'kg/m^3', 'part per thousand']))),
     adjust=water_units, late=('sediment', 'wave_height', 'fetch'))
kind('Waves', 'gnome.environment.Waves', dict(water=ref('Water'), wind=ref('Wind')))
kind('RunningAverage', 'gnome.environment.RunningAverage', dict(wind=ref('Wind'), past_hours_to_average=st.integers(1, 12)), noser=True)

ring = st.sampled_from([[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(10, 10), (12, 10.5), (11, 12)], [(170, -10), (190, -10), (190, 10), (170, 10)],
                        [(-0.5, -0.25), (0.125, -0.25), (0.3333333333, 0.7), (0, 0.1)]])
kind('GnomeMap', 'gnome.maps.GnomeMap', dict(map_bounds=ring.map(lambda r: ('arr2', r)), spillable_area=st.one_of(st.none(), st.lists(ring, min_size=1, max_size=3).map(lambda r: ('polys', r)))))
kind('MapFromBNA', 'gnome.maps.MapFromBNA', dict(filename=st.lists(st.integers(0, 3), min_size=1, max_size=3).map(lambda l: ('bna', l)), refloat_halflife=grid(0, 10, 20),
                                                 raster_size=st.sampled_from([1024, 4096, 65536])), noupdate=('filename', 'raster_size'))


def release_sched(d):
    d['end_release_time'] = ('t', d['release_time'][1] + d.pop('dur'))


kind('PointLineRelease', 'gnome.spills.release.PointLineRelease',
     dict(release_time=tm, dur=st.sampled_from([0, 900, 3600, 86400]), num_elements=st.integers(1, 1000), start_position=lonlat3.map(lambda p: ('arr', p)),
          end_position=lonlat3.map(lambda p: ('arr', p)), release_mass=st.one_of(st.just(0.0), pos)), adjust=release_sched)
kind('PerStepRelease', 'gnome.spills.release.PointLineRelease',
     dict(release_time=tm, dur=st.sampled_from([900, 3600, 86400]), num_per_timestep=st.integers(1, 100), start_position=lonlat3.map(lambda p: ('arr', p)),
          release_mass=st.one_of(st.just(0.0), pos)), adjust=release_sched)
kind('Release', 'gnome.spills.release.Release',
     dict(release_time=tm, dur=st.sampled_from([0, 900, 3600]), custom_positions=st.lists(lonlat3, min_size=1, max_size=6).map(lambda p: ('arr2', p)),
          num_elements=st.integers(1, 30), release_mass=st.one_of(st.just(0.0), pos)), adjust=release_sched)
kind('PolygonRelease', 'gnome.spills.release.PolygonRelease',
     dict(release_time=tm, dur=st.sampled_from([0, 900, 3600]), num_elements=st.integers(1, 300), polygons=st.lists(ring, min_size=1, max_size=3).map(lambda r: ('shapes', r)),
          release_mass=st.one_of(st.just(0.0), pos)), adjust=release_sched)
kind('NonWeatheringSubstance', 'gnome.spills.NonWeatheringSubstance',
     dict(windage_range=st.tuples(frac, frac).map(lambda r: ('tup', sorted(r))), windage_persist=st.sampled_from([-1, 900, 60, 3600]), standard_density=grid(700, 1100, 40)))
kind('GnomeOil', 'gnome.spills.GnomeOil',
     dict(oil_name=st.sampled_from(OILS), windage_range=st.tuples(frac, frac).map(lambda r: ('tup', sorted(r))), windage_persist=st.sampled_from([-1, 900, 60, 3600]),
          bullwinkle_fraction=frac, bullwinkle_time=st.one_of(st.just(-999.0), pos)), late=('bullwinkle_fraction', 'bullwinkle_time'), noname=True, oil=True, noeqfield=('oil_name',), noupdate=('oil_name',))
kind('Spill', 'gnome.spills.Spill',
     dict(on=st.booleans(), release=st.one_of(ref('PointLineRelease'), ref('PerStepRelease'), ref('Release'), ref('PolygonRelease')),
          substance=st.one_of(ref('NonWeatheringSubstance'), ref('GnomeOil')), amount=st.one_of(st.just(0.0), pos),
          units=st.sampled_from(['kg', 'm³', 'bbl', 'gal', 'ton']), amount_uncertainty_scale=frac), adjust=lambda d: d['release'][2].pop('release_mass'))

kind('Evaporation', 'gnome.weatherers.Evaporation', dict(PROC, wind=ref('Wind'), water=ref('Water')))
kind('NaturalDispersion', 'gnome.weatherers.NaturalDispersion', dict(PROC, waves=ref('Waves'), water=ref('Water'), algorithm=st.sampled_from(['D&S1988', 'Li2017'])))
kind('Emulsification', 'gnome.weatherers.Emulsification', dict(PROC, waves=ref('Waves')))
kind('Dissolution', 'gnome.weatherers.Dissolution', dict(PROC, waves=ref('Waves'), wind=ref('Wind')))
kind('Biodegradation', 'gnome.weatherers.Biodegradation', dict(PROC, waves=ref('Waves')))
kind('Langmuir', 'gnome.weatherers.Langmuir', dict(PROC, water=ref('Water'), wind=ref('Wind')))
kind('FayGravityViscous', 'gnome.weatherers.FayGravityViscous', dict(PROC, water=ref('Water'), thickness_limit=st.one_of(st.none(), pos)))
kind('HalfLifeWeatherer', 'gnome.weatherers.HalfLifeWeatherer', dict(PROC, half_lives=st.lists(pos, min_size=1, max_size=4).map(lambda l: ('arr', l))))
fin = st.tuples(st.integers(0, 100), st.integers(101, 300)).map(lambda r: ('range', r[0] * 60, r[1] * 60))
kind('Skimmer', 'gnome.weatherers.Skimmer', dict(on=st.booleans(), active_range=fin, amount=pos, units=st.sampled_from(['kg', 'm^3', 'bbl', 'gal', 'ton']), efficiency=frac, water=ref('Water')))
kind('Burn', 'gnome.weatherers.Burn', dict(on=st.booleans(), active_range=fin, area=pos, thickness=frac.map(lambda x: x + 0.5), area_units=st.sampled_from(['m^2', 'ft^2']),
                                           thickness_units=st.sampled_from(['m', 'in', 'cm']), efficiency=frac, wind=ref('Wind'), water=ref('Water')))
kind('ChemicalDispersion', 'gnome.weatherers.ChemicalDispersion', dict(on=st.booleans(), active_range=fin, fraction_sprayed=frac.filter(bool), efficiency=frac, waves=ref('Waves')))
kind('Beaching', 'gnome.weatherers.Beaching', dict(on=st.booleans(), active_range=fin, units=st.sampled_from(['kg', 'm^3', 'bbl']),
                                                   timeseries=st.lists(pos, min_size=1, max_size=3).map(lambda l: ('ts1', l)), water=ref('Water')),
     adjust=lambda d: d.update(active_range=('range', d['active_range'][1], 20000 + 3600 * (len(d['timeseries'][1]) - 1))))

for n_ in ('TrajectoryGeoJsonOutput', 'WeatheringOutput', 'SpillJsonOutput'):
    kind(n_, 'gnome.outputters.' + n_, dict(OUT))
KINDS['TrajectoryGeoJsonOutput'][1].update(round_data=st.booleans(), round_to=st.integers(0, 8))
kind('NetCDFOutput', 'gnome.outputters.NetCDFOutput', dict(OUT, filename=st.just(('file', 'o.nc')), which_data=st.sampled_from(['standard', 'most', 'all']), compress=st.booleans(), zip_output=st.booleans()),
     noupdate=('filename',), noname=True)
kind('KMZOutput', 'gnome.outputters.KMZOutput', dict(OUT, filename=st.just(('file', 'o.kmz'))))
kind('ShapeOutput', 'gnome.outputters.ShapeOutput', dict(OUT, filename=st.just(('file', 'o.zip')), include_certain_boundary=st.booleans(), certain_boundary_separate_by_spill=st.booleans(),
                                                         certain_boundary_hull_ratio=frac, include_uncertain_boundary=st.booleans(), uncertain_boundary_hull_ratio=frac))
kind('WeibullDistribution', 'gnome.utilities.distributions.WeibullDistribution', dict(alpha=grid(0.5, 4, 7), lambda_=grid(1, 20, 19), min_=st.sampled_from([None, 0.1]), max_=st.just(None)))
kind('NormalDistribution', 'gnome.utilities.distributions.NormalDistribution', dict(mean=sgn, sigma=pos))
kind('LogNormalDistribution', 'gnome.utilities.distributions.LogNormalDistribution', dict(mean=sgn, sigma=pos))
kind('UniformDistribution', 'gnome.utilities.distributions.UniformDistribution', dict(low=sgn, high=sgn))


def cls_of(name):
    import importlib
    import gnome.scripting  # noqa: F401  (resolves the package's import cycles)
    mod, cn = KINDS[name][0].rsplit('.', 1)
    return getattr(importlib.import_module(mod), cn)


def bna(tmp, squares):
    path = os.path.join(tmp, 'm%s.bna' % ''.join(map(str, squares)))
    write_bna(path, [('map', [(-5, -5), (5, -5), (5, 5), (-5, 5)])] +
              [('1', [(i - 2, j), (i - 1.5, j), (i - 1.5, j + 0.5)]) for j, i in enumerate(squares)])
    return path


def dec(v, tmp):
    import numpy as np
    if not isinstance(v, (tuple, list)) or not v or not isinstance(v[0], str):
        return v
    t = v[0]
    if t == 't':
        return when(v[1])
    if t == 'td':
        return timedelta(seconds=v[1])
    if t == 'range':
        from gnome.utilities.inf_datetime import InfDateTime
        return (InfDateTime('-inf') if v[1] is None else when(v[1]), InfDateTime('inf') if v[2] is None else when(v[2]))
    if t == 'tz':
        from gnome.utilities.time_utils import TZOffset
        return TZOffset(v[1], v[2])
    if t == 'ref':
        return build(v[1], v[2], tmp)
    if t in ('arr', 'arr2'):
        return np.array(v[1], dtype=float)
    if t == 'tup':
        return tuple(v[1])
    if t == 'polys':
        return [[tuple(p) for p in r] for r in v[1]]
    if t == 'shapes':
        from shapely.geometry import Polygon
        return [Polygon(r) for r in v[1]]
    if t == 'bna':
        return bna(tmp, v[1])
    if t == 'file':
        return os.path.join(tmp, v[1])
    if t == 'ts1':
        from gnome.basic_types import datetime_value_1d
        ts = np.zeros((len(v[1]),), dtype=datetime_value_1d)
        for i, x in enumerate(v[1]):
            ts[i]['time'] = np.datetime64(when(20000 + 3600 * i))
            ts[i]['value'] = x
        return ts
    return v


def build(name, spec, tmp):
    cls = cls_of(name)
    opt = KINDS[name][2]
    kw = {k: dec(v, tmp) for k, v in spec.items() if k != 'name' and k not in opt.get('late', ())}
    if name == 'Wind':
        from vlib.gen import make_wind
        w = kw.pop('timeseries')[1]
        o = make_wind(w, **{k: v for k, v in kw.items()})
    elif name == 'Water':
        o = cls(temperature=kw['temperature'], salinity=kw['salinity'])
        o.units = dict(spec['units'])
    else:
        if KINDS[name][0].endswith('.PolygonRelease'):
            kw['polygons'] = kw['polygons']
        o = cls(**{k: v for k, v in kw.items() if v is not None})
    for k in opt.get('late', ()):
        if spec[k] is not None:
            setattr(o, k, spec[k])
    if name == 'Water':
        o.temperature, o.salinity = spec['temperature'], spec['salinity']
        o.sediment = spec['sediment']
    if spec['name'] is not None and not opt.get('noname'):
        o.name = spec['name']
    return o


def num_close(a, b):
    return a == b or math.isclose(float(a), float(b), rel_tol=2e-7, abs_tol=1e-12)


def fields_of(name, spec, skip=()):
    opt = KINDS[name][2]
    return [k for k in spec if k not in skip and k != 'name' and not (opt.get('oil') and k == 'oil_name')]


def agree(ctx, name, spec, obj, what, tmp, skip=(), names=True, depth=0):
    """every setting of spec is found on obj"""
    import numpy as np
    ctx.check(type(obj) is cls_of(name), "%s: a %s became a %s", what, name, type(obj).__name__)
    if names and spec['name'] is not None and not KINDS[name][2].get('noname'):
        ctx.equal(obj.name, spec['name'], what + ': name')
    if KINDS[name][2].get('oil'):
        import gnome.scripting as gs
        o = gs.GnomeOil(spec['oil_name'])
        for a in ('oil_name', 'api', 'pour_point', 'emulsion_water_fraction_max', 'adios_oil_id', 'solubility', 'num_components'):
            x, y = getattr(o, a), getattr(obj, a)
            ctx.check(x == y or num_close(x, y), "%s: %s.%s is %r, was %r", what, name, a, y, x)
        for a in ('densities', 'density_ref_temps', 'kvis', 'kvis_ref_temps', 'mass_fraction', 'boiling_point', 'molecular_weight', 'component_density'):
            x, y = np.asarray(getattr(o, a), float), np.asarray(getattr(obj, a), float)
            ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=2e-7), "%s: %s.%s is %r, was %r", what, name, a, y, x)
    for k in fields_of(name, spec, skip):
        v = spec[k]
        if k == 'polygons':
            got = [np.array(p.exterior.coords)[:-1] for g in obj.polygons for p in (g.geoms if hasattr(g, 'geoms') else [g])]
            want = [np.array(r, float) for r in v[1]]
            ctx.check(len(got) == len(want) and all(a.shape == b.shape and np.allclose(a, b, atol=1e-6) for a, b in zip(got, want)),
                      "%s: polygons %r, were %r", what, got, want)
            continue
        got = getattr(obj, k)
        w = "%s: %s.%s is %r, was set to %r"
        if isinstance(v, (tuple, list)) and v and isinstance(v[0], str):
            t = v[0]
            if t == 'ref':
                agree(ctx, v[1], v[2], got, what + '.' + k, tmp, names=names, depth=depth + 1)
            elif t == 'raw':
                ctx.check(tuple(got) == tuple(v[1]), w, what, name, k, got, v[1])
            elif t in ('t', 'td', 'range', 'tz'):
                x = dec(v, tmp)
                if t == 'tz':
                    ctx.check((got.offset, got.title) == (x.offset, x.title), w, what, name, k, got, x)
                else:
                    ctx.check((tuple(got) if t == 'range' else got) == x, w, what, name, k, got, x)
            elif t in ('arr', 'arr2', 'tup'):
                x = np.array(v[1], dtype=float)
                g = np.array(got, dtype=float)
                ctx.check(x.shape == g.shape and np.allclose(x, g, rtol=2e-7, atol=1e-12), w, what, name, k, got, v[1])
            elif t == 'polys':
                g = [np.array(p, float) for p in got]
                ctx.check(len(g) == len(v[1]) and all(a.shape == np.shape(b) and np.allclose(a, b) for a, b in zip(g, v[1])), w, what, name, k, g, v[1])
            elif t == 'bna':
                with open(got) as f1, open(bna(tmp, v[1])) as f2:
                    ctx.check(f1.read() == f2.read(), "%s: the map file's content changed", what)
            elif t == 'file':
                ctx.check(os.path.basename(got).split('.')[0] == v[1].split('.')[0], w, what, name, k, got, v[1])
            elif t == 'ts':
                ts = got
                want = v[1]
                ctx.check(obj.units == want['units'], "%s: wind units %r, were %r", what, obj.units, want['units'])
                tt = [x.astype('datetime64[s]').astype(object) for x in ts['time']]
                ctx.equal(tt, [when(x) for x in want['t']], what + ': wind times')
                for row, r, d in zip(ts['value'], want['r'], want['d']):
                    e = (r * math.sin(math.radians(d)), r * math.cos(math.radians(d)))
                    g = (row[0] * math.sin(math.radians(row[1])), row[0] * math.cos(math.radians(row[1])))
                    ctx.check(math.hypot(e[0] - g[0], e[1] - g[1]) <= 1e-5 * max(1, r), "%s: wind record %r was (%r, %r)", what, row, r, d)
            elif t == 'ts1':
                x = dec(v, tmp)
                ctx.check(len(got) == len(x) and all(a['time'] == b['time'] and num_close(a['value'], b['value']) for a, b in zip(got, x)), w, what, name, k, got, x)
            else:
                raise ValueError(t)
        elif isinstance(v, bool) or v is None or isinstance(v, str):
            if v is None and KINDS[name][1].get(k) is not None and k in ('spillable_area', 'thickness_limit', 'latitude', 'longitude'):
                continue
            ctx.check(got == v and (got is None) == (v is None), w, what, name, k, got, v)
        elif isinstance(v, (int, float)):
            ctx.check(got is not None and num_close(v, got), w, what, name, k, got, v)
        elif isinstance(v, dict):
            ctx.check({x: got[x] for x in v if x in got} == {x: v[x] for x in v if x in got}, w, what, name, k, got, v)
        else:
            ctx.check(list(got) == list(v), w, what, name, k, got, v)


def path_case():
    return st.sampled_from(['json', 'file', 'zip', 'dir', 'mem', 'odict', 'jsonfile', 'named', 'update', 'self', 'deepcopy'])


NOCOPY = ('MapFromBNA', 'NetCDFOutput', 'RiseVelocityMover', 'PointWindMover', 'RandomMover3D', 'RandomMover')


@st.composite
def object_case(draw):
    name = draw(st.sampled_from(sorted(KINDS)))
    return {'kind': name, 'spec': draw(spec_of(name)), 'other': draw(spec_of(name)), 'how': draw(path_case())}


def do_save_load(obj, how, tmp, ctx):
    cls = type(obj)
    if how == 'file':
        f = os.path.join(tmp, 'saved')
        _, loc, _ = obj.save(f)
        ctx.check(loc == f + '.gnome' and zipfile.is_zipfile(loc), "save() returned %r", loc)
        return cls.load(loc)
    if how == 'zip':
        f = os.path.join(tmp, 'saved.zip')
        obj.save(f)
        return cls.load(f)
    if how == 'dir':
        d = os.path.join(tmp, 'dir')
        os.makedirs(d, exist_ok=True)
        _, loc, _ = obj.save(d)
        ctx.check(os.path.dirname(loc) == d, "saved in a directory, the file is %r", loc)
        return cls.load(loc)
    if how == 'mem':
        _, z, _ = obj.save(None)
        try:
            return cls.load(z)
        finally:
            z.close()
    if how in ('odict', 'jsonfile', 'named'):         # an extracted archive
        f = os.path.join(tmp, 'saved.zip')
        obj.save(f)
        d = os.path.join(tmp, 'extracted')
        os.makedirs(d, exist_ok=True)
        with zipfile.ZipFile(f) as z:
            z.extractall(d)
        if how != 'odict':
            mine = [n for n in sorted(os.listdir(d)) if n.endswith('.json')
                    and json.load(open(os.path.join(d, n))).get('obj_type', '').split('.')[-1] == cls.__name__]
            if len(mine) == 1:
                return cls.load(os.path.join(d, mine[0])) if how == 'jsonfile' else cls.load(d, filename=mine[0])
        return cls.load(d)
    raise ValueError(how)


@facet('C13', object_case(), quick=900, rule="non-trivial: an object with at least two settings that are not the defaults")
def objects(case, ctx):
    name, spec, how = case['kind'], case['spec'], case['how']
    tmp = ctx.tmpdir()
    opt = KINDS[name][2]
    obj = build(name, spec, tmp)
    ctx.label(name)
    ctx.label('by ' + how)
    ctx.nontrivial(len(spec) >= 3)
    if name == 'Burn':       # ends when the oil is burned
        ctx.equal(obj.active_range[0], when(spec['active_range'][1]), 'start of the burn')
        spec = dict(spec, active_range=('raw', tuple(obj.active_range)))
    agree(ctx, name, spec, obj, 'as built', tmp)
    noup = opt.get('noupdate', ())
    if name == 'RunningAverage' and how in ('self', 'update'):     # has no settable time series
        return
    if how == 'json':
        new = type(obj).deserialize(json.loads(json.dumps(obj.serialize())))
        agree(ctx, name, spec, new, 'deserialized', tmp)
        ctx.check(new == obj, "the deserialized object does not equal the original: %s", new._diff(obj)[:2])
    elif how == 'update':
        oth = dict(case['other'])
        if name == 'Wind':       # setting a wind's time zone shifts its times: an update between zones is ambiguous
            oth['timezone_offset'] = spec['timezone_offset']
        other = build(name, oth, tmp)
        js = json.loads(json.dumps(obj.serialize()))
        for k in [k for k, v in js.items() if v is None]:
            del js[k]
        other.update_from_dict(js)
        skip = set(noup) | {k for k, v in spec.items() if v is None} | {'oil_name'}
        if opt.get('oil'):
            spec = dict(spec, oil_name=case['other']['oil_name'])
            return
        agree(ctx, name, spec, other, 'updated', tmp, skip=skip)
    elif how == 'self':
        js = json.loads(json.dumps(obj.serialize()))
        obj.update_from_dict(js)
        agree(ctx, name, spec, obj, 'updated with its own description', tmp)
    elif how == 'deepcopy':
        if name in NOCOPY:
            return
        new = copy.deepcopy(obj)
        ctx.check(new.id != obj.id, "a copy has the original's id")
        agree(ctx, name, spec, new, 'deep copy', tmp)
        ctx.check(new == obj, "a deep copy does not equal the original")
    else:
        before = json.dumps(obj.serialize(), sort_keys=True, default=str)
        new = do_save_load(obj, how, tmp, ctx)
        agree(ctx, name, spec, new, 'saved and loaded (%s)' % how, tmp)
        ctx.check(new == obj, "the loaded object does not equal the original: %s", new._diff(obj)[:2])
        ctx.check(json.dumps(obj.serialize(), sort_keys=True, default=str) == before, "saving changed the object")


def nearly_same_runs(ctx, a, b, what):
    """as scen.same_runs, up to the eight digits oil data are written with"""
    import numpy as np
    ctx.equal(len(a), len(b), what + ": number of steps")
    spent = False        # hardly anything is left of some element: what is left of it is roundoff
    for i, ((t1, s1, m1), (t2, s2, m2)) in enumerate(zip(a, b)):
        ctx.equal(t1, t2, what + ": time of step %d" % i)
        ctx.equal(len(s1), len(s2), what + ": number of containers")
        for j, (x, y) in enumerate(zip(s1, s2)):
            ctx.equal(sorted(x), sorted(y), what + ": arrays at step %d" % i)
            if 'init_mass' in x and (x['mass'] < 1e-3 * x['init_mass']).any():
                spent = True
            for k in x:
                if spent and k not in ('positions', 'age', 'id', 'spill_num', 'status_codes', 'windages'):
                    continue
                ctx.check(x[k].shape == y[k].shape, "%s: step %d container %d array %r has shape %s, was %s", what, i, j, k, y[k].shape, x[k].shape)
                if x[k].dtype.kind != 'f':
                    ctx.check(np.array_equal(x[k], y[k]), "%s: step %d container %d array %r is %s, was %s", what, i, j, k, y[k][:5], x[k][:5])
                    continue
                ok = np.isfinite(x[k])
                scale = float(np.max(np.abs(x[k][ok]))) if ok.any() else 0.0
                if k == 'positions':
                    scale = 1e-3
                ctx.check(np.allclose(x[k], y[k], rtol=3e-5, atol=1e-6 * scale, equal_nan=True),
                          "%s: step %d container %d array %r is %s, was %s", what, i, j, k, y[k][:5], x[k][:5])
        for j, (x, y) in enumerate(zip(m1, m2)):
            top = max([abs(v) for v in x.values() if v == v] or [0.0])
            for k in x:
                if spent and k in ('avg_density', 'avg_viscosity', 'area_covered', 'water_content'):
                    continue
                ctx.check(k in y and (x[k] != x[k] and y[k] != y[k] or math.isclose(x[k], y[k], rel_tol=3e-5, abs_tol=1e-6 * top)),
                          "%s: step %d container %d mass balance %r: %r, was %r", what, i, j, k, y.get(k), x[k])


SC = st.one_of(scen.weathering_scenario(max_steps=5, max_n=8, max_spills=2), scen.transport_scenario(max_steps=6))


@st.composite
def model_case(draw):
    c = draw(SC)
    if not c['clean']:
        c['sub'] = draw(st.sampled_from([1, 1, 1, 2, 3])) if c['weather'] else 1
    return {'c': c, 'how': draw(st.sampled_from(['file', 'zip', 'dir', 'mem', 'odict', 'json'])), 'names': draw(st.lists(NAMES, min_size=6, max_size=6)),
            'off': draw(st.integers(0, 20)), 'twice': draw(st.booleans()), 'ar': draw(st.sampled_from([None, (0, 1), (1, 3), (1, None)]))}


def built_model(case, tmp):
    c = case['c']
    m = scen.make_model(c, tmp, weathering_substeps=c.get('sub', 1))
    for o, n in zip(list(m.movers) + list(m.spills) + list(m.weatherers) + list(m.environment) + [m], case['names']):
        if n is not None:
            o.name = n
    ms = list(m.movers)
    if case['off'] < len(ms):
        ms[case['off']].on = False
    if case['ar'] and ms:
        a, b = case['ar']
        from gnome.utilities.inf_datetime import InfDateTime
        ms[-1].active_range = (when(a * c['dt']), InfDateTime('inf') if b is None else when(b * c['dt']))
    return m


def refs_shape(m):
    """which objects of the model are the same object: positions of first occurrence"""
    seen, out = {}, []

    def visit(o):
        out.append(seen.setdefault(id(o), len(seen)))
    for coll in (m.environment, m.movers, m.weatherers):
        for o in coll:
            visit(o)
            for a in ('wind', 'water', 'waves', 'current'):
                x = getattr(o, a, None)
                if x is not None:
                    visit(x)
                    for b in ('wind', 'water'):
                        if getattr(x, b, None) is not None and type(x).__name__ == 'Waves':
                            visit(getattr(x, b))
    for s in m.spills:
        visit(s)
        visit(s.substance)
    return out


@facet('C13', model_case(), quick=130, rule="non-trivial: the run has elements in at least two steps")
def models(case, ctx):
    """a model saved and loaded (or serialized) is wired the same way and runs the same run"""
    tmp = ctx.tmpdir()
    a = built_model(case, tmp)
    ctx.label('by ' + case['how'])
    shape = refs_shape(a)
    def again(m):
        if case['how'] == 'json':
            return type(m).deserialize(json.loads(json.dumps(m.serialize())))
        return do_save_load(m, case['how'], tmp, ctx)
    b = again(a)
    ctx.equal(refs_shape(b), shape, "sharing of objects after the round trip")
    if case['twice']:
        b = again(b)
        ctx.equal(refs_shape(b), shape, "sharing of objects after two round trips")
    for coll in ('environment', 'movers', 'weatherers', 'spills'):
        x, y = list(getattr(a, coll)), list(getattr(b, coll))
        ctx.equal([type(o).__name__ for o in y], [type(o).__name__ for o in x], coll)
        ctx.equal([o.name for o in y], [o.name for o in x], 'names of the ' + coll)
    for k in ('time_step', 'start_time', 'duration', 'uncertain', 'cache_enabled', 'run_backwards', 'num_time_steps', 'weathering_substeps', 'name', 'mode'):
        ctx.equal(getattr(b, k), getattr(a, k), 'Model.' + k)
    ctx.check(b == a, "the loaded model does not equal the saved one")
    a.rewind()
    ra = scen.run_all(a)
    b.rewind()
    ctx.nontrivial(len(ra) > 1 and len(ra[-2][1][0]['mass']) > 0)
    nearly_same_runs(ctx, ra, scen.run_all(b), 'run of the loaded model')


@facet('C13', st.tuples(model_case(), st.integers(0, 5)), quick=60, rule="non-trivial: saved after a step with elements")
def saved_during_a_run(case, ctx):
    """saving in the middle of a run neither changes the rest of it nor what is loaded"""
    c, k = case
    tmp = ctx.tmpdir()
    ref_m = built_model(c, tmp)
    ref_m.rewind()
    ref = scen.run_all(ref_m)
    m = built_model(c, tmp)
    m.rewind()
    head = scen.run_all(m, k)
    ctx.nontrivial(bool(head) and len(head[-1][1][0]['mass']) > 0)
    cwd = os.getcwd()
    wd = os.path.join(tmp, 'cwd')
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    try:
        how = c['how']
        if how == 'json':
            js = json.loads(json.dumps(m.serialize()))
        else:
            m.save(os.path.join(tmp, 'midrun.gnome'))
        left = os.listdir(wd)
    finally:
        os.chdir(cwd)
    ctx.check(not left, "saving left files behind: %s", left)
    rest = scen.run_all(m)
    b = type(m).deserialize(js) if how == 'json' else type(m).load(os.path.join(tmp, 'midrun.gnome'))
    scen.same_runs(ctx, ref, head + rest, 'run saved after step %d' % k)
    b.rewind()
    nearly_same_runs(ctx, ref, scen.run_all(b), 'run of the model loaded from a save after step %d' % k)


@st.composite
def files_case(draw):
    """data files in folders of their own, some of them with the same name"""
    return {'files': draw(st.lists(fd(base=st.sampled_from(['tide.txt', 'data.txt', 'Model.json.txt', 'a b.txt', '.hidden']),
                                      values=st.lists(st.integers(-90, 90).map(lambda i: i / 8), min_size=1, max_size=5),
                                      scale=st.sampled_from([0.5, 1.0, 2.0]), name=st.one_of(st.none(), NAMES)), min_size=1, max_size=5)),
            'map': draw(st.booleans()), 'mapbase': draw(st.sampled_from(['land.bna', 'tide.txt', 'data.txt'])),
            'how': draw(st.sampled_from(['file', 'zip', 'dir', 'mem'])), 'twice': draw(st.booleans())}


@facet('C13', files_case(), quick=120, rule="non-trivial: two files with the same name and different contents")
def data_files(case, ctx):
    """each object comes back with its own data file's contents"""
    import gnome.scripting as gs
    from gnome.environment import Tide
    from gnome.maps import MapFromBNA
    tmp = ctx.tmpdir()
    m = gs.Model(start_time=scen.T0, duration=timedelta(hours=2), time_step=900)
    contents = []
    for i, f in enumerate(case['files']):
        d = os.path.join(tmp, 'd%d' % i)
        os.makedirs(d)
        p = os.path.join(d, f['base'])
        lines = ['Station\n', '1.0,2.0\n', 'mps\n'] + ['%d,%d,2020,%d,0,%g,0.0\n' % (1 + j // 24, 1, j % 24, v) for j, v in enumerate(f['values'])]
        with open(p, 'w') as fp:
            fp.writelines(lines)
        contents.append(''.join(lines))
        kw = {} if f['name'] is None else {'name': f['name']}
        m.environment += Tide(p, scale_factor=f['scale'], **kw)
        ctx.equal(m.environment[-1].name, f['name'] if f['name'] is not None else f['base'], 'name of the tide')
    if case['map']:
        p = os.path.join(tmp, case['mapbase'])
        scen.write_bna(p, [('map', [(-1, -1), (1, -1), (1, 1), (-1, 1)]), ('1', [(0.5, 0.5), (0.75, 0.5), (0.75, 0.75)])])
        m.map = MapFromBNA(p, raster_size=1024)
    bases = [f['base'] for f in case['files']]
    ctx.nontrivial(any(bases[i] == bases[j] and contents[i] != contents[j] for i in range(len(bases)) for j in range(i)))
    b = m
    for k in range(1 + case['twice']):
        b = do_save_load(b, case['how'], tmp, ctx)
        ctx.equal(len(b.environment), len(contents), 'number of tides')
        for i, (f, t) in enumerate(zip(case['files'], b.environment)):
            with open(t.filename) as fp:
                ctx.equal(fp.read(), contents[i], 'contents of the file of tide %d' % i)
            ctx.equal(t.scale_factor, f['scale'], 'scale of tide %d' % i)
            ctx.equal(t.name, m.environment[i].name, 'name of tide %d' % i)
            ctx.equal(list(t.cy_obj.timeseries['value']['u']), list(m.environment[i].cy_obj.timeseries['value']['u']), 'values of tide %d' % i)
        if case['map']:
            with open(b.map.filename) as fp, open(m.map.filename) as fq:
                ctx.equal(fp.read(), fq.read(), 'contents of the map file')


@st.composite
def edit_case(draw):
    c = draw(model_case())
    c['c']['clean'] = []
    return {'m': c, 'steps': draw(st.integers(0, 3)), 'order': draw(st.permutations(list(range(6)))), 'keep': draw(st.lists(st.booleans(), min_size=6, max_size=6)),
            'set': draw(st.lists(st.tuples(st.sampled_from(['movers', 'weatherers', 'spills', 'environment', 'model']), st.integers(0, 5),
                                           st.sampled_from(['on', 'name', 'velocity', 'diffusion_coef', 'amount', 'time_step', 'uncertain', 'duration', 'wind_ts',
                                                            'active_range', 'temperature']),
                                           st.integers(0, 7)), max_size=4)),
            'same': draw(st.integers(0, 3)) == 0}


def described(m):
    """what the model says of itself, with objects as ids"""
    return json.loads(json.dumps(m.serialize(), sort_keys=True, default=str))


def differ(a, b, path=''):
    """first place where two descriptions differ by more than rounding, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if (k in a) != (k in b):
                return path + '.' + k
            d = differ(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s has %d, had %d items' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9):
        return None
    return None if a == b else '%s is %r, was %r' % (path, b, a)


def everywhere(x, who, attr, val):
    """the same edit in each place where the object is described"""
    if isinstance(x, dict):
        if x.get('id') == who:
            x[attr] = val
        for v in x.values():
            everywhere(v, who, attr, val)
    elif isinstance(x, list):
        for v in x:
            everywhere(v, who, attr, val)


@facet('C13', edit_case(), quick=150, rule="non-trivial: at least one setting or the order of a collection is changed")
def updates(case, ctx):
    """a model updated with an edited description of itself matches the edited description, with the same objects"""
    tmp = ctx.tmpdir()
    m = built_model(case['m'], tmp)
    dt = case['m']['c']['dt']
    scen.run_all(m, case['steps'])
    js = described(m)
    by_id = {o.id: o for coll in ('movers', 'weatherers', 'spills', 'environment') for o in getattr(m, coll)}
    if case['same']:
        cur, n = m.current_time_step, m.num_time_steps
        changed = m.update_from_dict(js)
        d = differ(js, described(m))
        ctx.check(d is None, "a model updated with its own description: %s", d)
        ctx.check(all(o is by_id[o.id] for coll in ('movers', 'weatherers', 'spills', 'environment') for o in getattr(m, coll)),
                  "an update with the model's own description replaced an object")
        ctx.equal((m.num_time_steps), n, 'steps')
        return
    ctx.label('edited')
    ctx.nontrivial(bool(case['set']) or len(js['movers']) > 1)
    js['movers'] = [js['movers'][i] for i in case['order'] if i < len(js['movers']) and case['keep'][i]]
    want = {}          # (id or 'model', attribute) -> value
    used = set()
    for coll, i, attr, v in case['set']:
        objs = [js] if coll == 'model' else js[coll]
        if i >= len(objs):
            continue
        d = objs[i]
        o = m if coll == 'model' else by_id[d['id']]
        key = (coll == 'model' and 'model' or d['id'], attr)
        if key in used:
            continue
        used.add(key)
        if attr == 'on' and 'on' in d and coll != 'model':
            val = d['on'] = bool(v % 2)
        elif attr == 'name' and coll != 'model':
            val = d['name'] = ['renamed', 'é', 'a/b', 'Spill'][v % 4]
        elif attr == 'velocity' and 'velocity' in d:
            d['velocity'] = val = [v / 8, -v / 4, 0.0] if v < 5 else [x + 2.0 ** -22 for x in d['velocity'][:2]] + [0.0]
        elif attr == 'diffusion_coef' and 'diffusion_coef' in d:
            val = d['diffusion_coef'] = 1000.0 * (v + 1) if v < 4 else d['diffusion_coef'] * (1 + 2.0 ** -19)
        elif attr == 'amount' and coll == 'spills':
            val = d['amount'] = 10.0 * (v + 1) if v < 5 else d['amount'] * (1 + 2.0 ** -19)
        elif attr == 'active_range' and coll == 'movers':
            d['active_range'] = [when(v * dt).isoformat(), 'inf']
            val = when(v * dt)
        elif attr == 'temperature' and 'salinity' in d:
            val = d['temperature'] = 280.0 + v if v < 5 else d['temperature'] + 2.0 ** -12
        elif coll == 'model' and attr == 'uncertain':
            val = d['uncertain'] = bool(v % 2)
        elif coll == 'model' and attr == 'duration':
            val = timedelta(seconds=dt * (v + 2))
            d['duration'] = dt * (v + 2)
        else:
            used.discard(key)
            continue
        want[key] = (attr, val, o)
        if coll != 'model':
            everywhere(js, d['id'], attr, d[attr])
    others = {o.id: described(o) for coll in ('movers', 'weatherers', 'spills', 'environment') for o in getattr(m, coll)}
    m.update_from_dict(json.loads(json.dumps(js)))
    for coll in ('movers', 'weatherers', 'spills', 'environment'):
        ctx.equal([o.id for o in getattr(m, coll)], [d['id'] for d in js[coll]], 'objects in ' + coll)
        ctx.check(all(o is by_id[o.id] for o in getattr(m, coll)), "the update replaced an object of %s", coll)
    edited = {}
    for (who, attr), (a, val, o) in want.items():
        if who != 'model':
            if all(o is not x for coll in ('movers', 'weatherers', 'spills', 'environment') for x in getattr(m, coll)):
                continue
            edited.setdefault(who, set()).add(attr)
        got = getattr(o, a)
        if a == 'velocity':
            got = [float(x) for x in got]
        elif a == 'active_range':
            got = got[0]
        ctx.equal(got, val, '%s of %s after the update' % (a, type(o).__name__))
    for coll in ('movers', 'weatherers', 'spills', 'environment'):
        for o in getattr(m, coll):
            now = described(o)
            for k, v in others[o.id].items():
                if k in edited.get(o.id, ()) or isinstance(v, (dict, list)):
                    continue
                d = differ(v, now.get(k))
                ctx.check(d is None, '%s of %s, which was not edited%s', k, type(o).__name__, d)
    m.rewind()
    scen.run_all(m, 2)
