"""Strategies for plain-data scenario descriptions, and builders that turn them
into real PyGnome objects through the public API."""
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

T0 = datetime(2012, 9, 15, 12, 0)


def when(sec):
    return T0 + timedelta(seconds=sec)


def grid(lo, hi, n):
    """finite set of evenly spread floats (short reprs, easy shrinking)"""
    return st.integers(0, n).map(lambda i: round(lo + (hi - lo) * i / n, 6))


OILS = ['oil_gas', 'oil_jetfuels', 'oil_diesel', 'oil_4', 'oil_crude', 'oil_6',
        'oil_benzene', 'oil_ans_mp', 'oil_bahia']

DTS = st.sampled_from([60, 300, 600, 900, 1800, 3600, 7, 450, 1000])


@st.composite
def wind_spec(draw, max_speed=25, span=40 * 3600):
    n = draw(st.integers(1, 4))
    # Wind records are stored with one-second resolution and must be increasing
    times = sorted(draw(st.lists(st.integers(-20, 40), min_size=n, max_size=n, unique=True)))
    return {'t': [3600 * t for t in times],
            'r': [draw(grid(0, max_speed, 50)) for _ in times],
            'd': [draw(grid(0, 360, 36)) for _ in times],
            'units': draw(st.sampled_from(['m/s', 'knots', 'mph']))}


def make_wind(w, **kw):
    import numpy as np
    from gnome.basic_types import datetime_value_2d
    from gnome.environment import Wind
    ts = np.zeros((len(w['t']),), dtype=datetime_value_2d)
    for i, t in enumerate(w['t']):
        ts[i]['time'] = np.datetime64(when(t))
        ts[i]['value'] = (w['r'][i], w['d'][i])
    kw.setdefault('extrapolation_is_allowed', True)
    return Wind(timeseries=ts, units=w['units'], coord_sys='r-theta', **kw)


MASS_UNITS = ['kg', 'ton', 'metric ton', 'lb', 'g']
VOL_UNITS = ['m^3', 'bbl', 'gal', 'L', 'liter', 'cubic meter', 'ft^3']


@st.composite
def spill_spec(draw, oil=None, lonlat=None, zmax=0, max_n=40, span=6 * 3600, types=('point', 'line', 'cont')):
    ty = draw(st.sampled_from(types))
    lon = draw(lonlat[0]) if lonlat else draw(grid(-170, 170, 68))
    lat = draw(lonlat[1]) if lonlat else draw(grid(-60, 60, 48))
    s = {'type': ty, 'n': draw(st.integers(1, max_n)), 'pos': (lon, lat, draw(grid(0, zmax, 20)) if zmax else 0.0),
         'rel': draw(st.integers(0, 12)) * span // 12,
         'amount': draw(st.sampled_from([0.0, 1.0, 17.5, 300.0, 12345.0]) if oil is None
                        else st.sampled_from([1.0, 17.5, 300.0, 12345.0])),
         'units': draw(st.sampled_from(['kg', 'm^3', 'bbl', 'gal', 'ton'])),
         'windage': draw(st.sampled_from([None, (0.01, 0.04), (0.03, 0.03), (0.0, 0.1)])),
         'wpersist': draw(st.sampled_from([None, 900, -1, 1800])),
         'oil': oil}
    if ty in ('cont', 'line'):
        s['dur'] = draw(st.integers(1, 12)) * span // 12
    if ty == 'line':
        s['end'] = (lon + draw(grid(-0.05, 0.05, 10)), lat + draw(grid(-0.05, 0.05, 10)), s['pos'][2])
    return s


def make_substance(s):
    import gnome.scripting as gs
    kw = {}
    if s.get('windage') is not None:
        kw['windage_range'] = tuple(s['windage'])
    if s.get('wpersist') is not None:
        kw['windage_persist'] = s['wpersist']
    return gs.GnomeOil(s['oil'], **kw) if s.get('oil') else gs.NonWeatheringSubstance(**kw)


def make_spill(s, substance=None):
    import gnome.scripting as gs
    kw = dict(num_elements=s['n'], start_position=tuple(s['pos']), release_time=when(s['rel']),
              amount=s['amount'], units=s['units'])
    if s.get('dur'):
        kw['end_release_time'] = when(s['rel'] + s['dur'])
    if s.get('end'):
        kw['end_position'] = tuple(s['end'])
    if substance is None:
        substance = make_substance(s)
    return gs.point_line_spill(substance=substance, **kw)


def write_bna(path, polys):
    """polys: list of (kind, [(lon, lat), ...]); kind '1' land, '2' lake, 'MAP BOUNDS', 'SPILLABLE AREA'"""
    with open(path, 'w') as fd:
        for i, (kind, pts) in enumerate(polys):
            pts = list(pts)
            if pts[0] != pts[-1]:
                pts = pts + [pts[0]]
            if kind == 'map':
                fd.write('"Map Bounds","1",%d\n' % len(pts))
            elif kind == 'spill':
                fd.write('"SpillableArea","1",%d\n' % len(pts))
            else:
                fd.write('"land%d","%s",%d\n' % (i, kind, len(pts)))
            for x, y in pts:
                fd.write('%.8f,%.8f\n' % (x, y))
