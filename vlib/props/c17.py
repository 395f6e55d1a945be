"""C17: point winds give the wind that was entered."""
import copy
import math
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import T0, grid, when

F = {'m/s': 1.0, 'meters per second': 1.0, 'meter per second': 1.0, 'knots': 1852 / 3600, 'knot': 1852 / 3600, 'mph': 0.44704, 'miles per hour': 0.44704,
     'km/h': 1 / 3.6, 'kilometer per hour': 1 / 3.6, 'cm/s': 0.01, 'ft/s': 0.3048}
UNITS = ['m/s', 'knots', 'mph', 'miles per hour', 'km/h', 'cm/s', 'ft/s', 'meters per second']


def uv_of(r, d):
    a = math.radians(d)
    return -r * math.sin(a), -r * math.cos(a)


def rd_of(u, v):
    return math.hypot(u, v), math.degrees(math.atan2(-u, -v)) % 360


def same_dir(a, b, tol):
    d = abs(a - b) % 360
    return min(d, 360 - d) <= tol


def lookup(rec, sec):
    """rec: [(t, u, v)]"""
    if sec <= rec[0][0]:
        return rec[0][1:]
    if sec >= rec[-1][0]:
        return rec[-1][1:]
    for (t0, u0, v0), (t1, u1, v1) in zip(rec, rec[1:]):
        if t0 <= sec <= t1:
            f = (sec - t0) / (t1 - t0)
            return (u0 + f * (u1 - u0), v0 + f * (v1 - v0))


@st.composite
def series(draw, max_n=9):
    n = draw(st.integers(1, max_n))
    t = sorted(draw(st.lists(st.integers(-2000, 2000), min_size=n, max_size=n, unique=True)))
    k = draw(st.sampled_from([1, 60, 997, 3600]))
    return {'t': [x * k for x in t], 'r': [draw(grid(0, 40, 80)) for _ in t], 'd': [draw(st.one_of(grid(0, 360, 72), st.sampled_from([0.0, 90.0, 360.0, 359.9])))
                                                                                   for _ in t]}


def array(s, cs='r-theta'):
    import numpy as np
    from gnome.basic_types import datetime_value_2d
    a = np.zeros((len(s['t']),), dtype=datetime_value_2d)
    for i, t in enumerate(s['t']):
        a[i]['time'] = np.datetime64(when(t))
        a[i]['value'] = (s['r'][i], s['d'][i]) if cs == 'r-theta' else uv_of(s['r'][i], s['d'][i])
    return a


def refs(s, units):
    k = F[units]
    return [(t,) + uv_of(r * k, d) for t, r, d in zip(s['t'], s['r'], s['d'])]


def probe(rec, q):
    """turn a generated (record, where) pair into a time"""
    i, f = q
    if f < 0:
        return rec[0][0] + int(f * 5000)
    if f > 1:
        return rec[-1][0] + int((f - 1) * 5000)
    a = rec[i % len(rec)][0]
    b = rec[min(i % len(rec) + 1, len(rec) - 1)][0]
    return a + int((b - a) * f)


Q = st.tuples(st.integers(0, 20), st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.77, 1.0, -1.0, -0.0002, 1.0002, 2.0]))


def check_uv(ctx, got, want, msg):
    ctx.close(got, want, msg, rtol=3e-6, atol=3e-5)


def check_rd(ctx, got, want, msg, k=1.0):
    r, d = rd_of(*want)
    ctx.close(got[0], r / k, msg + " speed", rtol=3e-6, atol=5e-5 / k)
    if r > 0.01:
        ctx.check(same_dir(float(got[1]), d, 0.02 + 0.01 / r), "%s direction: got %s, expected %s", msg, float(got[1]), d)
        ctx.check(0 <= got[1] <= 360, "%s: direction %s", msg, got[1])


def verify(ctx, w, s, rec, units, qs, extrap, pts=None):
    """everything a user can ask a Wind for, against the reference records (seconds, u, v in m/s)"""
    import numpy as np
    ctx.equal(len(w), len(rec), "number of records")
    ctx.equal((w.data_start, w.data_stop), (when(rec[0][0]), when(rec[-1][0])), "time span of the data")
    ctx.equal(w.units, units, "units")
    ts = w.timeseries
    ctx.equal(len(ts), len(rec), "timeseries length")
    for i, row in enumerate(ts):
        ctx.equal(row['time'].astype(object), when(rec[i][0]), "time of record %d" % i)
        check_rd(ctx, row['value'], rec[i][1:], "timeseries record %d (%s)" % (i, units), F[units])
    for q in qs:
        sec = probe(rec, q)
        inside = rec[0][0] <= sec <= rec[-1][0] or len(rec) == 1
        if not inside and not extrap:
            ctx.raises((ValueError, IndexError, RuntimeError), lambda: w.at(None, when(sec)), "time outside the data")
            ctx.equal(bool(w.extrapolation_is_allowed), False, "extrapolation flag")
            got = w.at(None, when(sec), extrapolate=True)
            check_uv(ctx, got[0], lookup(rec, sec), "extrapolated wind")
            ctx.equal(bool(w.extrapolation_is_allowed), False, "extrapolation flag after one extrapolated query")
            continue
        want = lookup(rec, sec)
        check_uv(ctx, w.at(None, when(sec))[0][:2], want, "wind at %d s" % sec)
        check_uv(ctx, w.at(None, when(sec), coord_sys='u')[0], want[0], "u")
        check_uv(ctx, w.at(None, when(sec), coord_sys='v')[0], want[1], "v")
        check_rd(ctx, w.at(None, when(sec), coord_sys='r-theta')[0], want, "wind at %d s" % sec)
        check_uv(ctx, w.at(None, when(sec), coord_sys='r')[0], math.hypot(*want), "speed")
        check_rd(ctx, w.get_value(when(sec)), want, "get_value")
        for u in ('m/s', 'knots', 'mph'):
            d = w.get_wind_data(when(sec), u, 'uv')
            check_uv(ctx, np.array(d[0]['value']) * F[u], want, "get_wind_data in " + u)
            check_rd(ctx, w.get_wind_data(when(sec), u, 'r-theta')[0]['value'], want, "get_wind_data in " + u, F[u])
            check_uv(ctx, w.at(None, when(sec), units=u)[0] * F[u], want, "at(units=%s)" % u)
        if pts:
            g = np.asarray(w.at(np.array(pts), when(sec)))
            ctx.check(g.shape[0] == len(pts), "wind at %d points has shape %s", len(pts), g.shape)
            for row in g:
                check_uv(ctx, row[:2], want, "wind at points")
    allv = w.get_wind_data(coord_sys='uv', units='m/s')
    for i, row in enumerate(allv):
        check_uv(ctx, row['value'], rec[i][1:], "stored record %d" % i)
    many = [when(x[0]) for x in rec]
    d = w.get_wind_data(many, 'm/s', 'uv')
    for i in range(len(rec)):
        check_uv(ctx, d[i]['value'], rec[i][1:], "wind at the time of record %d" % i)


@st.composite
def wind_case(draw):
    return {'s': draw(series()), 'units': draw(st.sampled_from(UNITS)), 'cs': draw(st.sampled_from(['r-theta', 'r-theta', 'uv'])),
            'form': draw(st.sampled_from(['array', 'array', 'list', 'values'])), 'ext': draw(st.booleans()), 'q': draw(st.lists(Q, min_size=1, max_size=5)),
            'pts': draw(st.sampled_from([None, [(0.0, 1.0)], [(0.0, 1.0, 0.0), (5.0, 50.0, 3.0), (170.0, -30.0, 0.0)]]))}


@facet('C17', wind_case(), quick=500,
       rule="winds from arrays, lists and value tuples in all units and both coordinate systems, queried everywhere; non-trivial: more than one record and a query between records")
def entered_winds(c, ctx):
    import numpy as np
    from gnome.environment.wind import Wind, wind_from_values
    s, units = c['s'], c['units']
    a = array(s, c['cs'])
    if c['form'] == 'values':
        vals = [(when(t), r, d) for t, r, d in zip(s['t'], s['r'], s['d'])]
        w = wind_from_values(vals, units=units)
        w.extrapolation_is_allowed = c['ext']
    else:
        data = a if c['form'] == 'array' else [(x['time'].astype(object), tuple(x['value'])) for x in a]
        before = copy.deepcopy(data)
        w = Wind(timeseries=data, units=units, coord_sys=c['cs'], extrapolation_is_allowed=c['ext'])
        ctx.check(all(x[0] == y[0] and tuple(x[1]) == tuple(y[1]) for x, y in zip(before, data)), "creating a Wind changed the caller's data")
    rec = refs(s, units)
    verify(ctx, w, s, rec, units, c['q'], c['ext'], c['pts'])
    ctx.nontrivial(len(rec) > 1 and any(0 < q[1] < 1 for q in c['q']))
    ctx.label(c['form'], c['cs'], units)


@st.composite
def edits(draw):
    op = st.one_of(st.tuples(st.just('ts'), series(5)), st.tuples(st.just('data'), series(5), st.sampled_from(UNITS), st.sampled_from(['r-theta', 'uv'])),
                   st.tuples(st.just('tz'), st.sampled_from([-8.0, 0.0, 5.5, None])), st.tuples(st.just('ext'), st.booleans()),
                   st.tuples(st.just('bad'), st.sampled_from(['order', 'dup', 'units', 'value', 'csys'])),
                   st.tuples(st.just('dict'), series(4), st.sampled_from(UNITS)))
    return {'s': draw(series(5)), 'units': draw(st.sampled_from(UNITS)), 'tz': draw(st.sampled_from([None, 0.0, -8.0])),
            'ops': draw(st.lists(op, min_size=1, max_size=5)), 'q': draw(st.lists(Q, min_size=1, max_size=2))}


@facet('C17', edits(), quick=300,
       rule="histories of new data, new units, time zone changes and refused inputs; non-trivial: at least two accepted changes")
def edited_winds(c, ctx):
    import numpy as np
    from gnome.environment.wind import Wind
    from gnome.utilities.time_utils import TZOffset
    s, units, tz, ext = c['s'], c['units'], c['tz'], False
    w = Wind(timeseries=array(s), units=units, timezone_offset=TZOffset(tz, 'x') if tz is not None else None)
    rec = refs(s, units)
    n = 0
    for op in c['ops']:
        if op[0] == 'ts':
            a = array(op[1])
            b = a.copy()
            w.timeseries = a
            ctx.check((a == b).all(), "assigning the timeseries changed the caller's array")
            s, rec = op[1], refs(op[1], units)
            n += 1
        elif op[0] == 'data':
            units = op[2]
            a = array(op[1], op[3])
            b = a.copy()
            w.set_wind_data(a, units, op[3])
            ctx.check((a == b).all(), "set_wind_data changed the caller's array")
            s, rec = op[1], refs(op[1], units)
            n += 1
        elif op[0] == 'dict':
            units = op[2]
            w.update_from_dict({'units': units, 'timeseries': [(when(t).isoformat(), (r, d)) for t, r, d in zip(op[1]['t'], op[1]['r'], op[1]['d'])]})
            s, rec = op[1], refs(op[1], units)
            n += 1
        elif op[0] == 'tz':
            w.timezone_offset = TZOffset(op[1], 'x') if op[1] is not None else None
            if tz is not None and op[1] is not None:
                off = int((op[1] - tz) * 3600)
                rec = [(t + off, u, v) for t, u, v in rec]
                n += 1
            tz = op[1]
        elif op[0] == 'ext':
            ext = op[1]
            w.extrapolation_is_allowed = ext
        elif op[1] == 'order' or op[1] == 'dup':
            a = array({'t': [0, 60 if op[1] == 'dup' else 100, 60], 'r': [1, 2, 3], 'd': [0, 0, 0]})
            ctx.raises(Exception, lambda: setattr(w, 'timeseries', a), "times out of order")
        elif op[1] == 'units':
            ctx.raises(Exception, lambda: w.set_wind_data(array(s), 'furlong', 'r-theta'), "unknown units")
            ctx.raises(Exception, lambda: setattr(w, 'units', 'kg'), "units that are not a velocity")
        elif op[1] == 'csys':
            ctx.raises(Exception, lambda: w.at(None, when(rec[0][0]), coord_sys='xy'), "unknown coordinate system")
        else:
            ctx.raises(Exception, lambda: setattr(w, 'timeseries', [(1, 2, 3)]), "data that is no timeseries")
        verify(ctx, w, s, rec, units, c['q'], ext)
    ctx.nontrivial(n >= 2)


CARD = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]


@st.composite
def file_case(draw):
    n = draw(st.integers(1, 8))
    mins = sorted(draw(st.lists(st.integers(0, 60000), min_size=n, max_size=n, unique=True)))
    return {'min': mins, 'year': draw(st.sampled_from([1971, 1999, 2000, 2013, 2024])), 'yy': draw(st.booleans()),
            'r': [draw(grid(0, 40, 400)) for _ in mins],
            'd': [draw(st.one_of(grid(0, 360, 72), st.sampled_from(CARD))) for _ in mins],
            'name': draw(st.sampled_from(['Station', 'Some, name', '', 'Åland'])),
            'loc': draw(st.sampled_from(['', 'Position', '47.5,-122.5', '-10.25, 130', '0,0'])),
            'units': draw(st.sampled_from(['knots', 'm/s', 'mps', 'meters per second', 'miles per hour', 'mph'])),
            'head': draw(st.sampled_from([3, 4, 5])), 'tz': draw(st.sampled_from(['-8, PST', '0', 'GMT', 'utc', '5.5,IST', 'LTime', '-8,'])),
            'blank': draw(st.booleans()), 'sp': draw(st.booleans()), 'nl': draw(st.booleans()),
            'cls': draw(st.sampled_from(['from_file', 'filename'])), 'q': draw(st.lists(Q, min_size=1, max_size=3)),
            'bad': draw(st.sampled_from([None] * 9 + ['month', 'fields', 'text', 'units', 'empty', 'hour', 'dir', 'header', 'binary']))}


def write_ossm(path, c):
    lines = [c['name'], c['loc'], c['units']]
    if c['head'] >= 4:
        lines.append(c['tz'])
    if c['head'] == 5:
        lines.append('0,0,0,0,0,0,0,0')
    base = datetime(c['year'], 1, 1)
    sep = ', ' if c['sp'] else ','
    recs = []
    body = []
    for m, r, d in zip(c['min'], c['r'], c['d']):
        t = base + timedelta(minutes=m)
        deg = CARD.index(d) * 22.5 if isinstance(d, str) else d
        recs.append((t, r, deg))
        body.append(sep.join([str(t.day), str(t.month), '%02d' % (t.year % 100) if c['yy'] else str(t.year), str(t.hour), str(t.minute), repr(r), str(d)]))
    k = len(body) // 2
    if c['bad'] == 'month':
        body[k] = '3,13,2013,0,0,1,1'
    elif c['bad'] == 'hour':
        body[k] = '3,1,2013,25,0,1,1'
    elif c['bad'] == 'fields':
        body.append('3,1,2030,0,0,1')
    elif c['bad'] == 'dir':
        body.append('3,1,2030,0,0,1,XYZ')
    elif c['bad'] == 'text':
        body.append('this is not data')
    elif c['bad'] == 'units':
        lines[2] = ''
    elif c['bad'] == 'empty':
        body = []
    elif c['bad'] == 'header':
        lines = lines[:1]
    if c['blank']:
        body.insert(k + 1, '')
        body.append('')
    with open(path, 'wb') as f:
        if c['bad'] == 'binary':
            f.write(bytes(range(256)) * 20)
        else:
            f.write(('\r\n' if c['nl'] else '\n').join(lines + body + ['']).encode('utf-8'))
    return recs


@facet('C17', file_case(), quick=600,
       rule="OSSM wind files with 3, 4 or 5 header lines, all units, locations, time zones, cardinal directions, two-digit years, and malformed ones; non-trivial: a well-formed file with several records")
def wind_files(c, ctx):
    from gnome.environment.wind import Wind
    p = ctx.tmpdir() + '/w.wnd'
    recs = write_ossm(p, c)
    load = (lambda: Wind.from_file(p)) if c['cls'] == 'from_file' else (lambda: Wind(filename=p))
    if c['bad']:
        ctx.raises(Exception, load, "malformed wind file (%s)" % c['bad'])
        ctx.label('malformed')
        return
    w = load()
    units = 'm/s' if c['units'] == 'mps' else c['units']
    s = {'t': [int((t - T0).total_seconds()) for t, _, _ in recs], 'r': [r for _, r, _ in recs], 'd': [d for _, _, d in recs]}
    verify(ctx, w, s, refs(s, units), units, c['q'], False)
    try:
        lat, lon = [float(x) for x in c['loc'].split(',')]
        ctx.equal((w.latitude, w.longitude), (lat, lon), "station location")
    except ValueError:
        ctx.check(w.latitude is None and w.longitude is None, "station location %s of a file without one", (w.latitude, w.longitude))
    if c['name']:
        ctx.equal(w.name, c['name'], "station name")
    off = None
    if c['head'] >= 4:
        off = {'-8, PST': -8.0, '0': 0.0, 'GMT': 0.0, 'utc': 0.0, '5.5,IST': 5.5, 'LTime': None, '-8,': -8.0}[c['tz']]
    ctx.equal(w.timezone_offset.offset, off, "time zone offset")
    ctx.nontrivial(len(recs) > 1)
    ctx.label('header%d' % c['head'], c['cls'])


@facet('C17', file_case(), quick=300,
       rule="a wind written to an OSSM file and read again, also by the native reader, is the same within the written precision; non-trivial: several records")
def written_winds(c, ctx):
    import numpy as np
    from gnome.environment.wind import Wind
    from gnome.cy_gnome.cy_ossm_time import CyTimeseries
    from gnome.basic_types import ts_format
    c = dict(c, bad=None)
    p = ctx.tmpdir() + '/w.wnd'
    recs = write_ossm(p, c)
    w = Wind.from_file(p)
    o = ctx.tmpdir() + '/o.wnd'
    w._write_timeseries_to_file(o)
    v = Wind.from_file(o)
    ctx.equal(len(v), len(recs), "records")
    for a, b in zip(w.get_wind_data(units='m/s'), v.get_wind_data(units='m/s')):
        ctx.equal(a['time'], b['time'], "time")
        k = F[w.units] if w.units in F else 1
        ctx.close(b['value'][0], a['value'][0], "speed", rtol=1e-4, atol=0.006)
        if a['value'][0] > 0.1:
            ctx.check(same_dir(float(a['value'][1]), float(b['value'][1]), 0.006), "direction %s became %s", a['value'][1], b['value'][1])
    # the native reader understands its own units and 3 or 5 header lines
    cy = CyTimeseries(o, file_format=int(ts_format.magnitude_direction))
    got = cy.timeseries
    ctx.equal(len(got), len(recs), "records read natively")
    for i, a in enumerate(v.get_wind_data(units='m/s', coord_sys='uv')):
        ctx.close((got[i]['value']['u'], got[i]['value']['v']), a['value'], "record %d read natively" % i, rtol=1e-4, atol=2e-4)
    ctx.equal(cy.user_units, w.units if w.units in ('knots', 'meters per second', 'miles per hour') else 'meters per second', "units read natively")
    ctx.nontrivial(len(recs) > 1)


@facet('C17', st.fixed_dictionaries({'s': series(5), 'units': st.sampled_from(UNITS), 'scale': st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.6, -0.1]),
                                     'dir': st.sampled_from(['up', 'down', None])}), quick=200,
       rule="speed uncertainty shifts every speed to the Rayleigh quantile and keeps times, directions and units; non-trivial: a valid scale and direction")
def speed_uncertainty(c, ctx):
    from gnome.environment.wind import Wind
    s, units = c['s'], c['units']
    w = Wind(timeseries=array(s), units=units, speed_uncertainty_scale=c['scale'])
    r = w.set_speed_uncertainty(c['dir'])
    valid = c['dir'] is not None and 0 < c['scale'] < 0.5 or (c['scale'] == 0.5 and c['dir'] == 'down')
    if c['scale'] == 0.5 and c['dir'] == 'up':
        return
    ctx.equal(bool(r), bool(valid), "speed uncertainty applied")
    s2 = dict(s)
    if valid:
        q = 0.5 + c['scale'] * (1 if c['dir'] == 'up' else -1)
        f = math.sqrt(2 / math.pi) * math.sqrt(-2 * math.log(1 - q))
        s2['r'] = [x * f for x in s['r']]
        ctx.nontrivial()
    # the direction of a calm is not defined
    verify(ctx, w, s2, refs(s2, units), units, [(0, 0.5)], False)


# ---------------------------------------------------------------- series derived from and beside winds
@st.composite
def average_case(draw):
    s = draw(series(8))
    k = draw(st.sampled_from([600, 1800, 3600, 3 * 3600, 24 * 3600]))
    t = [0]
    for _ in s['t'][1:]:
        t.append(t[-1] + k * draw(st.integers(1, 4)))
    s['t'] = t
    return {'s': s, 'hours': draw(st.sampled_from([1, 2, 3, 6, 24])), 'extra': draw(st.booleans()), 'given': draw(st.booleans()),
            'units': draw(st.sampled_from(['m/s', 'knots', 'cm/s'])), 'frac': draw(st.lists(grid(0, 1, 40), min_size=1, max_size=4)),
            'starts': draw(st.lists(grid(0, 1, 12), max_size=3))}


@facet('C17', average_case(), quick=200,
       rule="running averages of the speed of generated winds over the past hours, also restarted in long series; non-trivial: more than one record")
def averaged_winds(c, ctx):
    from gnome.environment import RunningAverage
    from gnome.environment.wind import Wind
    s, h = c['s'], c['hours']
    kw = dict(timeseries=array(s), units=c['units'], coord_sys='r-theta', extrapolation_is_allowed=c['extra'])
    f = F[c['units']]
    if c['given']:                   # the records themselves, in m/s
        f = 1.0
        ra = RunningAverage(timeseries=array(s, 'uv'), past_hours_to_average=h)
        wind = ra.wind
    else:
        wind = Wind(**kw)
        ra = RunningAverage(wind, past_hours_to_average=h)
    rec = [(t, *uv_of(r * f, d)) for t, r, d in zip(s['t'], s['r'], s['d'])]
    first, last = rec[0][0], rec[-1][0]
    step = min([3600] + [b - a for a, b in zip(s['t'], s['t'][1:])])

    def average(t):
        sp = [math.hypot(*lookup(rec, t - 3600 * j)) for j in range(h + 1)]
        return sum((a + b) / 2 for a, b in zip(sp, sp[1:])) / h

    def examine(lo, hi, what):
        ts = ra.timeseries
        n = (hi - lo) // step + 1
        ctx.equal(len(ts), n, "number of averages of %s" % what)
        for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
            if 0 <= i < n:
                t = lo + i * step
                ctx.equal(ts[i]['time'].astype(datetime), when(t), "time %d of the averages of %s" % (i, what))
                ctx.close(ts[i]['value'][0], average(t), "average of the past %d h at %d s, %s" % (h, t, what), rtol=1e-4, atol=1e-6)
                ctx.check(ts[i]['value'][1] == 0, "averages are speeds")
        top = lo + (n - 1) * step
        for q in c['frac']:
            t = lo + round(q * (top - lo))
            i = (t - lo) // step
            w = (t - lo) % step / step
            want = average(lo + i * step) * (1 - w) + (average(lo + (i + 1) * step) * w if w else 0)
            got = ra.get_value(when(t))
            ctx.close(got[0], want, "value of the running average at %d s, %s" % (t, what), rtol=1e-4, atol=1e-6)
    long = last - first > 48 * 3600
    examine(first, first + 48 * 3600 if long else last, 'a new running average')
    for q in c['starts']:
        t = first + round(q * (last - first) / 3600) * 3600
        ra.prepare_for_model_run(when(t))
        hi = min(t + 48 * 3600, last) if long else last
        examine(t if long else first, hi, 'a run from %d s' % t)
        lo = t if long else first
        for q2 in c['starts']:       # steps within what was averaged change nothing, later ones go on from there
            t2 = first + round(q2 * (last - first) / 3600) * 3600
            if len(rec) > 1 and t2 >= lo:
                top = lo + (hi - lo) // step * step
                ra.prepare_for_model_step(when(t2))
                if t2 > top:
                    lo = t2 if long else first
                    hi = min(t2 + 48 * 3600, last) if long else last
                examine(lo, hi, 'a step at %d s after a run from %d s' % (t2, t))
    ctx.nontrivial(len(rec) > 1)
    ctx.label('long' if long else 'short')


@st.composite
def env_series_case(draw):
    n = draw(st.integers(1, 6))
    kind = draw(st.sampled_from(['speed', 'speed', 'temperature', 'salinity']))
    units = {'speed': ['m/s', 'knots', 'cm/s'], 'temperature': ['K', 'C', 'F'], 'salinity': ['ppt']}[kind]
    t = sorted(draw(st.lists(st.integers(0, 400), min_size=n, max_size=n, unique=True)))
    val = grid(-20, 40, 120) if kind != 'temperature' else grid(275, 310, 70)
    return {'kind': kind, 't': [x * 450 for x in t], 'cols': [[draw(val) for _ in t] for _ in range(draw(st.sampled_from([1, 2, 2, 3])))],
            'units': draw(st.sampled_from(units)), 'ask': [draw(st.sampled_from(units + [None])) for _ in range(3)], 'extra': draw(st.booleans()),
            'q': draw(st.lists(st.integers(-40, 440), min_size=1, max_size=5)), 'pts': draw(st.sampled_from([None, 1, 3])), 'arr': draw(st.booleans())}


def convert(v, a, b):
    if a == b or a is None or b is None:
        return v
    if a in F:
        return v * F[a] / F[b]
    k = {'K': lambda x: x, 'C': lambda x: x + 273.15, 'F': lambda x: (x - 32) / 1.8 + 273.15}[a](v)
    return {'K': k, 'C': k - 273.15, 'F': (k - 273.15) * 1.8 + 32}[b]


@facet('C17', env_series_case(), quick=200,
       rule="scalar and vector environment series of generated records, units and queries, copied to other units; non-trivial: more than one record and a query between records")
def environment_series(c, ctx):
    import numpy as np
    from gnome.environment.timeseries_objects_base import TimeseriesData, TimeseriesVector
    from gnome.environment.gridded_objects_base import Time
    times = [when(t) for t in c['t']]
    cols = [[convert(v, 'K', c['units']) for v in col] if c['kind'] == 'temperature' else col for col in c['cols']]
    tobj = Time(times)
    mk = lambda i: TimeseriesData(data=np.array(cols[i]) if c['arr'] else list(cols[i]), time=tobj if i % 2 or len(cols) > 1 else list(times),
                                  units=c['units'], extrapolate=c['extra'], name='v%d' % i)
    series_ = [mk(i) for i in range(len(cols))]
    vec = TimeseriesVector(variables=[mk(i) for i in range(len(cols))], units=c['units']) if len(cols) > 1 and c['kind'] != 'salinity' else None
    pts = None if c['pts'] is None else np.array([(0.1 * i, 0.2, 0.0) for i in range(c['pts'])])
    inside = False
    copied = series_[0].in_units(c['ask'][0]) if c['ask'][0] and c['arr'] and c['kind'] != 'salinity' else None
    for k, q in enumerate(c['q']):
        sec = q * 450 + (k * 97) % 450
        ask = c['ask'][k % 3]
        t = when(sec)
        out = len(times) > 1 and not (c['t'][0] <= sec <= c['t'][-1]) and not c['extra']
        want = [convert(float(np.interp(sec, c['t'], col)), c['units'], ask or c['units']) for col in cols]
        for s, w in zip(series_, want):
            if out:
                ctx.raises(ValueError, lambda: s.at(pts, t, units=ask), "a time outside the records")
                continue
            got = np.asarray(s.at(pts, t, units=ask))
            ctx.equal(got.size, 1 if pts is None else len(pts), "number of values")
            ctx.close(got.reshape(-1), np.full(got.size, w), "series %s at %s s in %s (%s records)" % (s.name, sec, ask, len(times)), rtol=1e-6, atol=1e-6)
        if vec is not None and not out:
            got = np.asarray(vec.at(pts, t, units=ask))
            if pts is not None:
                ctx.equal(got.shape, (len(pts), len(cols)), "shape of a vector's values")
            ctx.close(got.reshape(-1, len(cols)), np.tile(want, (1 if pts is None else len(pts), 1)), "vector at %s s in %s" % (sec, ask), rtol=1e-6, atol=1e-6)
        if copied is not None and not out:
            got = np.asarray(copied.at(pts, t)).reshape(-1)
            w = convert(float(np.interp(sec, c['t'], cols[0])), c['units'], c['ask'][0])
            ctx.close(got, np.full(got.size, w), "copy in %s of a series in %s" % (c['ask'][0], c['units']), rtol=1e-6, atol=1e-6)
            got = np.asarray(copied.at(pts, t, units=c['units'])).reshape(-1)
            ctx.close(got, np.full(got.size, convert(w, c['ask'][0], c['units'])), "copy in %s asked for in %s" % (c['ask'][0], c['units']), rtol=1e-6, atol=1e-6)
        inside = inside or c['t'][0] < sec < c['t'][-1]
    s = series_[0]
    ctx.equal([(a, float(b)) for a, b in s.timeseries], list(zip(times, map(float, cols[0]))), "records given back")
    ctx.raises(ValueError, lambda: setattr(s, 'data', list(cols[0]) + [1.0]), "more values than times")
    ctx.raises(ValueError, lambda: setattr(s, 'time', times + [when(c['t'][-1] + 9)]), "more times than values")
    ctx.equal(s.is_constant(), len(times) == 1, "a series of one record is constant")
    k = TimeseriesData.constant('k', c['units'], cols[0][0])
    ctx.close(float(np.asarray(k.at(None, when(c['q'][0] * 450))).reshape(-1)[0]), cols[0][0], "constant series")
    ctx.nontrivial(inside)


# ---------------------------------------------------------------- plain series: what is accepted, and when two are equal
@st.composite
def plain_case(draw):
    n = draw(st.integers(1, 7))
    gaps = draw(st.lists(st.sampled_from([60, 600, 3600, 5400, 86400]), min_size=n, max_size=n))
    return {'gaps': gaps, 'vals': draw(st.lists(st.tuples(grid(0, 20, 80), grid(0, 359, 359)), min_size=n, max_size=n)),
            'given': draw(st.sampled_from(['array', 'list'])), 'spoil': draw(st.sampled_from([None, None, None, 'swap', 'double', 'first', 'value', 'none'])),
            'at': draw(st.integers(0, 6)), 'edit': draw(st.sampled_from(['none', 'none', 'speed', 'direction', 'time', 'shorter', 'extrapolate', 'name'])), 'by': draw(st.sampled_from([0.25, 1.0, 1e-3])),
            'extrap': draw(st.booleans())}


@facet('C17', plain_case(), quick=300,
       rule="series entered as arrays and lists, in order or not, and compared with an edited one; non-trivial: a series out of order, or one that was edited")
def plain_series(c, ctx):
    import numpy as np
    from gnome.basic_types import datetime_value_2d
    from gnome.utilities.timeseries import Timeseries, TimeseriesError
    rows, t = [], T0
    for g, (r, d) in zip(c['gaps'], c['vals']):
        rows.append((t, (r, d)))
        t = t + timedelta(seconds=g)
    k, n = c['at'] % len(rows), len(rows)

    def make(rows, extrap, **kw):
        x = (np.array([(a, list(b)) for a, b in rows], dtype=datetime_value_2d) if c['given'] == 'array' else list(rows))
        return Timeseries(timeseries=x, coord_sys='r-theta', extrapolation_is_allowed=extrap, **kw)
    bad = list(rows)
    if c['spoil'] in ('swap', 'double') and n > 1:
        j = (k + 1) % n
        if c['spoil'] == 'swap':
            bad[k], bad[j] = bad[j], bad[k]
        else:
            bad[j] = (bad[k][0], bad[j][1])
        ctx.raises(TimeseriesError, lambda: make(bad, c['extrap']), "times that do not ascend")
        ctx.nontrivial()
        return
    if c['spoil'] in ('first', 'value', 'none') and c['given'] != 'array':
        bad[k] = {'first': (3.5, bad[k][1]), 'value': (bad[k][0], (1.0, 2.0, 3.0)), 'none': None}[c['spoil']]
        if n != 2 or c['spoil'] == 'value':      # two bad records could pass for one
            ctx.raises(TimeseriesError, lambda: make(bad, c['extrap']), "a record that is not a time and a pair of values")
            ctx.nontrivial()
            return
    a, b = make(rows, c['extrap']), make(rows, c['extrap'])
    ctx.equal(len(a), n, "number of records")
    got = a.get_timeseries(coord_sys='r-theta')
    ctx.check([x.astype(object) for x in got['time']] == [x[0] for x in rows], "times given back: %s", got['time'])
    check_uv(ctx, np.array([uv_of(*x) for x in got['value']]), np.array([uv_of(*x[1]) for x in rows]), "values given back")
    ctx.check(a == b and not a != b, "two series with the same records are not equal")
    new, extrap, kw, e = list(rows), c['extrap'], {}, c['edit']
    if e == 'speed':
        new[k] = (new[k][0], (new[k][1][0] + c['by'], new[k][1][1]))
    elif e == 'direction' and new[k][1][0] > 0:
        new[k] = (new[k][0], (new[k][1][0], (new[k][1][1] + 1) % 360))
    elif e == 'time':
        new[-1] = (new[-1][0] + timedelta(seconds=60), new[-1][1])
    elif e == 'shorter' and n > 1:
        new = new[:-1]
    else:
        e = 'none'
    if e != 'none':
        other = make(new, extrap, **kw)
        ctx.check(not a == other and a != other, "series that differ in %s are equal: %s, %s", e, rows, new)
        ctx.nontrivial()
    else:
        ctx.check(a == make(new, extrap), "equal series are not equal")


