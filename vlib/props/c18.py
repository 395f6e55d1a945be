"""C18: tides predicted from harmonic constituents are those of the constituents, whatever was asked before."""
import math
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid

# speeds of the 37 standard constituents, degrees per hour, in the order of the file
SPEED = [28.9841042, 30.0, 28.4397295, 15.0410686, 57.9682084, 13.9430356, 86.9523127, 44.0251729, 60.0, 57.4238337, 28.5125831, 90.0,
         27.9682084, 27.8953548, 16.1391017, 29.4556253, 15.0, 14.4966939, 15.5854433, 0.5443747, 0.0821373, 0.0410686, 1.0158958,
         1.0980331, 13.4715145, 13.3986609, 29.9589333, 30.0410667, 12.8542862, 14.9589314, 31.0158958, 43.4761563, 29.5284789,
         42.9271398, 30.0821373, 115.9364169, 58.9841042]
KNOT = 0.5144
_years = {}


def nodes(year):
    """node factors and equilibrium arguments of a year, from the program's data"""
    if year not in _years:
        from vlib.bootstrap import REPO
        txt = open(os.path.join(REPO, 'py_gnome', 'gnome', 'data', 'yeardata', '#%d' % year)).read()
        w = [float(x) for x in txt.split()]
        _years[year] = list(zip(w[::2], w[1::2]))[:37]
    return _years[year]


@st.composite
def tide_case(draw, kinds='C'):
    semi = draw(st.sampled_from([0, 0, 0, 3, 5]))
    main = draw(grid(0.75, 4.0, 13))
    comp = {semi: (main, draw(grid(0, 350, 35)))}
    for k in draw(st.lists(st.integers(0, 36), max_size=8)):
        if k not in comp:                     # over-tides are small: the program fits curves between the high and low waters
            comp[k] = (draw(grid(0.01, (0.15 if semi == 0 else 0.05) if SPEED[k] < 32 else 0.015, 10)) * main, draw(grid(0, 350, 35)))
    year = draw(st.one_of(st.sampled_from([1989, 1990, 2000, 2006, 2007, 2012, 2025]), st.integers(1981, 2025)))
    if draw(st.booleans()):
        day = draw(st.sampled_from([10, 25, 50]) if draw(st.booleans()) else st.sampled_from([325, 340]))
        summer = False
    else:
        day = draw(st.integers(115, 270))
        summer = True
    q = draw(st.lists(st.one_of(st.integers(0, 6 * 1440), st.integers(0, 36 * 16).map(lambda i: 10 * i)), min_size=1, max_size=8))
    return {'kind': draw(st.sampled_from(list(kinds))), 'comp': sorted((k, a, p) for k, (a, p) in comp.items()), 'year': year, 'day': day, 'summer': summer,
            'query': q, 'datum': draw(st.sampled_from([0.0, 0.0, 0.1, -0.1, 0.5])) * main, 'dst_off': draw(st.booleans()), 'scale': draw(st.sampled_from([None, 1.0, 0.5, 2.0, -1.0])),
            'tail': draw(st.sampled_from(['', ' ', '\t', '  '])), 'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])), 'short': draw(st.booleans()), 'last': draw(st.booleans()),
            'shift': draw(st.sampled_from([0, 0, 30, -90])), 'mult': draw(st.sampled_from([1.0, 1.0, 0.5, 1.5])), 'add': draw(st.sampled_from([0.0, 0.0, 0.25]))}


def write(c, tmp):
    h, k = [0.0] * 37, [0.0] * 37
    for i, a, p in c['comp']:
        h[i], k[i] = a, p
    cur = c['kind'] == 'C'
    L = ['[StationInfo]', 'Type=' + c['kind'], 'Name=SOME PLACE', 'Latitude=18.5', 'Longitude=-66.1', '[Constituents]']
    if not (c['short'] and c['kind'] == 'H'):
        L += ['DatumControls.datum=%f' % c['datum'], 'DatumControls.FDir=0', 'DatumControls.EDir=180', 'DatumControls.L2Flag=0', 'DatumControls.HFlag=0', 'DatumControls.RotFlag=0']
    L += ['H=' + ' '.join('%f' % x for x in h) + c['tail'], 'kPrime=' + ' '.join('%f' % x for x in k) + c['tail'], '[Offset]']
    if cur:
        L += ['MinBefFloodTime=0.0 1', 'FloodTime=0.0 1', 'MinBefEbbTime=0.0 1', 'EbbTime=0.0 1', 'FloodSpdRatio=1.0 1', 'EbbSpdRatio=1.0 1', 'MinBFloodSpd=0.0 0', 'MinBFloodDir=0.0 0',
              'MaxFloodSpd=0.0 0', 'MaxFloodDir=0.0 0', 'MinBEbbSpd=0.0 0', 'MinBEbbDir=0.0 0', 'MaxEbbSpd=0.0 0', 'MaxEbbDir=0.0 0']
    else:
        L += ['HighTime=%f 1' % (c['shift'] / 60.0), 'LowTime=%f 1' % (c['shift'] / 60.0), 'HighHeight_Mult=%f 1' % c['mult'], 'HighHeight_Add=%f 1' % c['add'],
              'LowHeight_Mult=%f 1' % c['mult'], 'LowHeight_Add=%f 1' % c['add']]
    path = os.path.join(tmp, 'tide.shio')
    with open(path, 'w', newline='') as fd:
        fd.write(c['eol'].join(L) + (c['eol'] if c['last'] else ''))
    return path


def harmonic(c):
    n = nodes(c['year'])
    y0 = datetime(c['year'], 1, 1)
    d = 1 if c['summer'] and not c['dst_off'] else 0
    datum = 0.0 if c['short'] and c['kind'] == 'H' else c['datum']

    def f(t):
        hrs = (t - y0).total_seconds() / 3600.0 - d
        return datum + sum(n[i][0] * a * math.cos(math.radians(SPEED[i] * hrs + n[i][1] - p)) for i, a, p in c['comp'])
    return f


def values(c, path, ctx, times=None):
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    kw = {} if c['scale'] is None else {'scale_factor': c['scale']}
    t = Tide(path, **kw)
    t.cy_obj.daylight_savings_off = c['dst_off']
    base = datetime(c['year'], 1, 1) + timedelta(days=c['day'])
    out = []
    for q in c['query'] if times is None else times:
        when = base + timedelta(minutes=q) if times is None else q
        v, err = t.cy_obj.get_time_value(date_to_sec(when))
        ctx.check(err == 0, "error %s for %s" % (err, when))
        out.append((when, float(v['u'][0])))
    return out


def sampled(f, t):
    t0 = t.replace(minute=t.minute // 10 * 10, second=0)
    w = (t - t0).total_seconds() / 600.0
    return (1 - w) * f(t0) + w * f(t0 + timedelta(minutes=10)) if w else f(t)


@facet('C18', tide_case('C').filter(lambda c: abs(c['datum']) <= 0.2 * max(a for _, a, _ in c['comp'])), quick=400, rule="non-trivial: two constituents or more, and moments of more than one window of the prediction")
def current_tides(c, ctx):
    path = write(c, ctx.tmpdir())
    f = harmonic(c)
    # the program fits cubics between slack water and the strongest currents, which differ from the harmonics by a tenth of them (more with diurnal tides)
    size = KNOT * (0.22 if max(c['comp'], key=lambda x: x[1])[0] == 0 else 0.3) * sum(a for _, a, _ in c['comp'])
    for t, got in values(c, path, ctx):
        ctx.close(got, KNOT * sampled(f, t), "tidal current at %s" % t, rtol=0, atol=size)
    # the strongest currents of ebb and flood are those of the harmonics
    base = datetime(c['year'], 1, 1) + timedelta(days=c['day'])
    peaks = []
    for q in c['query'][:3]:
        ts = [base + timedelta(minutes=10 * (q // 10) + m) for m in range(0, 1500, 10)]
        h = [f(x) for x in ts]
        peaks += [ts[i] for i in range(1, len(h) - 1) if (h[i] - h[i - 1]) * (h[i + 1] - h[i]) < 0 and abs(h[i]) > 0.5 * max(a for _, a, _ in c['comp'])][:2]
    for t, got in values(c, path, ctx, peaks):
        ctx.close(got, KNOT * f(t), "strongest tidal current at %s" % t, rtol=0.05, atol=0)
    ctx.nontrivial(len(c['comp']) >= 2 and max(c['query']) - min(c['query']) > 3 * 1440)
    ctx.label('daylight saving' if c['summer'] and not c['dst_off'] else 'standard time')


@facet('C18', tide_case('PH'), quick=400, rule="non-trivial: two constituents or more, and moments of more than one window of the prediction")
def height_tides(c, ctx):
    path = write(c, ctx.tmpdir())
    f = harmonic(c)
    s = 1.0 if c['scale'] is None else c['scale']
    amp = sum(a for _, a, _ in c['comp'])
    sh = timedelta(minutes=c['shift'])
    for t, got in values(c, path, ctx):
        if c['kind'] == 'P':
            ctx.close(got, s * 2.54 * (c['mult'] * sampled(f, t - sh) + c['add']), "tide at %s" % t, rtol=0, atol=5e-3 * amp + 5e-3)
            continue
        # the high and low waters around the moment
        ts = [t - sh + timedelta(minutes=m) for m in range(-1200, 1201, 2)]
        h = [f(x) for x in ts]
        ext = [i for i in range(1, len(h) - 1) if (h[i] - h[i - 1]) * (h[i + 1] - h[i]) <= 0]
        a, b = [i for i in ext if i <= 600], [i for i in ext if i > 600]
        if not a or not b or 600 - a[-1] < 3 or b[0] - 600 < 3 or abs(h[a[-1]] - h[b[0]]) < 0.2 * amp:
            continue
        a, b = a[-1], b[0]
        dt = (b - a) * 2 / 60.0
        x = (600 - a) / float(b - a)
        want = 6 * x * (h[a] - h[b]) * c['mult'] * (x - 1) / dt * 3048 / 3600.0 * s
        ctx.close(got, want, "tide at %s" % t, rtol=0.03, atol=0.03 * amp)
    ctx.nontrivial(len(c['comp']) >= 2 and max(c['query']) - min(c['query']) > 3 * 1440)
    ctx.label(c['kind'], 'daylight saving' if c['summer'] and not c['dst_off'] else 'standard time')


# ---- files that do not have the expected lines ---------------------------------------------------------------------
@st.composite
def broken_case(draw):
    c = draw(tide_case('CHP'))
    c['damage'] = draw(st.sampled_from(['drop', 'drop', 'key', 'number', 'empty', 'cut', 'type', 'few', 'swap', 'flag']))
    c['which'] = draw(st.integers(0, 200))
    c['junk'] = draw(st.sampled_from(['abc', '', '--1', 'x1', '?', '\u00e9']))
    return c


@facet('C18', broken_case(), quick=250, rule="non-trivial: the damage is after the four lines that tell the kind of file")
def broken_files(c, ctx):
    from gnome.environment import Tide
    path = write(c, ctx.tmpdir())
    lines = open(path, newline='').read().split(c['eol'])
    lines = [s for s in lines if s]
    optional = [i for i, s in enumerate(lines) if s.startswith('DatumControls')] if c['kind'] == 'H' else []
    keyed = [i for i in range(len(lines)) if i not in optional]
    i = keyed[c['which'] % len(keyed)]
    d = c['damage']
    if d == 'number':
        num = [k for k in keyed if '=' in lines[k] and not lines[k].startswith(('Type', 'Name'))]
        i = num[c['which'] % len(num)]
        head, _, tail = lines[i].partition('=')
        w = tail.split()
        w[0] = c['junk']
        if not c['junk'] and len(w) > 1:
            w = []
        lines[i] = head + '=' + ' '.join(w)
    elif d == 'flag':
        num = [k for k in keyed if k > [s.startswith('[Offset]') for s in lines].index(True)]
        i = num[c['which'] % len(num)]
        lines[i] = lines[i].split()[0]
    elif d == 'drop':
        del lines[i]
    elif d == 'key':
        lines[i] = 'X' + lines[i]
    elif d == 'empty':
        lines[i] = ''
    elif d == 'cut':
        lines = lines[:i]
    elif d == 'type':
        i = 1
        lines[1] = 'Type=' + c['junk'].upper().strip('-')
    elif d == 'few':
        i = [s.startswith(('H=', 'kPrime=')) for s in lines].index(True) + c['which'] % 2
        lines[i] = ' '.join(lines[i].split()[:c['which'] % 9])
    elif d == 'swap':
        i = min(i, len(lines) - 2)
        if i in optional or i + 1 in optional:
            return
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    with open(path, 'w', newline='', encoding='utf-8') as fd:
        fd.write(c['eol'].join(lines) + c['eol'])
    try:
        Tide(path)
    except (ValueError, IOError, IndexError):
        pass
    else:
        ctx.check(False, "a tide file damaged in line %d (%s) is accepted: %r" % (i + 1, d, lines[i] if i < len(lines) else None))
    ctx.nontrivial(i >= 4)
    ctx.label(d, c['kind'])


# ---- series of values ----------------------------------------------------------------------------------------------
UNIT = {'knots': KNOT, 'KNOTS': KNOT, 'm/s': 1.0, 'mps': 1.0, 'km/h': 1 / 3.6, 'kph': 1 / 3.6, 'MilesPerHour': 0.44704, 'meters per second': 1.0, 'mph': 0.44704, 'miles per hour': 0.44704}


@st.composite
def series_case(draw):
    n = draw(st.integers(1, 8))
    mins = [0]
    for _ in range(n - 1):
        mins.append(mins[-1] + draw(st.sampled_from([1, 10, 30, 60, 61, 600, 1440, 50000])))
    vals = [(draw(grid(-3, 3, 48)), draw(st.sampled_from([0.0, 0.0, 0.5]))) for _ in mins]
    span = mins[-1] * 60
    q = draw(st.lists(st.one_of(st.integers(-100, span + 100), st.sampled_from(mins).map(lambda m: 60 * m), st.sampled_from([-10 ** 6, span + 10 ** 6])), min_size=1, max_size=8))
    return {'mins': mins, 'vals': vals, 'query': q, 'unit': draw(st.sampled_from(sorted(UNIT))), 'start': draw(st.sampled_from([(1998, 12, 31, 22, 30), (2004, 2, 28, 23, 0), (2024, 2, 29, 0, 0), (2010, 6, 15, 12, 1)])),
            'two': draw(st.booleans()), 'zeros': draw(st.booleans()), 'sep': draw(st.sampled_from([',', ', '])), 'eol': draw(st.sampled_from(['\n', '\r\n'])), 'blank': draw(st.booleans()),
            'last': draw(st.booleans())}


@facet('C18', series_case(), quick=250, rule="non-trivial: two values or more and a moment strictly between two of them")
def series_tides(c, ctx):
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    t0 = datetime(*c['start'])
    L = ['Some place', '-66.1,18.5', c['unit']]
    for m, (u, v) in zip(c['mins'], c['vals']):
        t = t0 + timedelta(minutes=m)
        L.append(c['sep'].join(str(x) for x in (t.day, t.month, t.year % 100 if c['two'] else t.year, t.hour, t.minute, u, v)))
    if c['zeros']:
        L.append(c['sep'].join('0000000'))
    if c['blank']:
        L.append('')
    path = os.path.join(ctx.tmpdir(), 'tide.ossm')
    with open(path, 'w', newline='') as fd:
        fd.write(c['eol'].join(L) + (c['eol'] if c['last'] else ''))
    tide = Tide(path)
    ctx.check(tide.data_start == t0 and tide.data_stop == t0 + timedelta(minutes=c['mins'][-1]), "the series is said to run from %s to %s" % (tide.data_start, tide.data_stop))
    f = UNIT[c['unit']]
    secs = [60 * m for m in c['mins']]
    for q in c['query']:
        x = min(max(q, 0), secs[-1])
        k = max(i for i in range(len(secs)) if secs[i] <= x)
        if k == len(secs) - 1:
            want = c['vals'][k]
        else:
            w = (x - secs[k]) / float(secs[k + 1] - secs[k])
            want = [(1 - w) * a + w * b for a, b in zip(c['vals'][k], c['vals'][k + 1])]
        try:
            got, err = tide.cy_obj.get_time_value(date_to_sec(t0 + timedelta(seconds=q)))
        except IndexError:
            ctx.check(not tide.cy_obj.extrapolation_is_allowed, "no value %d s after the first" % q)
            ctx.check(q != x, "no value within the series, %d s after the first" % q)
            continue
        ctx.check(q == x or len(secs) == 1 or tide.cy_obj.extrapolation_is_allowed, "a value outside the series, which may not be extended")
        ctx.close((float(got['u'][0]), float(got['v'][0])), tuple(f * y for y in want), "tide %d s after the first value" % q, rtol=1e-4, atol=1e-6)
    ctx.nontrivial(len(secs) > 1 and any(0 < q < secs[-1] and q not in secs for q in c['query']))
    ctx.label(c['unit'], 'extended' if tide.cy_obj.extrapolation_is_allowed else 'not extended')
