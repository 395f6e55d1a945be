"""C20: times: seconds, offsets, infinities and the machine's time zone."""
import contextlib
import os
import time
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib import scen
from vlib.gen import T0


DST = "a datetime with a FixedOffset cannot be converted (astimezone, timetuple): its dst() is the number 0, which test_time_utils requires"


def fd(**kw):
    return st.fixed_dictionaries(kw)


# rules that hold for all years, with and without daylight saving, east and west, northern and southern
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'PST8PDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
         'NST3:30NDT,M3.2.0,M11.1.0', 'IST-5:30', 'NPT-5:45', 'HST10', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


@contextlib.contextmanager
def zone(tz):
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


LO, HI = datetime(1970, 1, 3), datetime(2037, 12, 30)
# hours around the changes of the clock
CHANGES = [datetime(y, m, d, h) for y in (2012, 2016, 2021) for m, d in ((3, 8), (3, 13), (3, 27), (3, 28), (4, 4), (10, 2), (10, 30), (10, 31), (11, 6), (11, 7), (9, 26)) for h in (0, 1, 2, 3)]
# (small ranges: hypothesis draws mostly small numbers from large ones)
moments = st.one_of(st.tuples(st.integers(1970, 2037), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)
                              ).map(lambda t: min(max(datetime(*t), LO), HI)),
                    st.sampled_from([LO, HI, datetime(2000, 2, 29, 23, 59, 59), datetime(2001, 9, 9, 1, 46, 40), datetime(2004, 12, 31)]),
                    st.tuples(st.sampled_from(CHANGES), st.integers(-7200, 7200)).map(lambda t: t[0] + timedelta(seconds=t[1])))


@facet('C20', fd(tz=st.sampled_from(ZONES), t=st.lists(moments, min_size=1, max_size=8), back=st.booleans()),
       quick=900, rule="non-trivial: a time zone with daylight saving")
def seconds(case, ctx):
    """date_to_sec and sec_to_date, in Python and in the C++ library, are inverse and count every second, in any machine time zone"""
    import numpy as np
    from gnome.cy_gnome.cy_helpers import CyDateTime
    from gnome.basic_types import date_rec
    from gnome.utilities import time_utils as tu
    ts = case['t']
    ctx.nontrivial(',' in case['tz'])
    with zone(case['tz']):
        secs = [tu.date_to_sec(t) for t in ts]
        for t, s in zip(ts, secs):
            ctx.equal(tu.sec_to_date(s), t, "sec_to_date(date_to_sec(t))")
            ctx.equal(float(s) - float(secs[0]), (t - ts[0]).total_seconds(), "seconds between %s and %s" % (ts[0], t))
            ctx.equal(tu.date_to_sec(np.datetime64(t, 's')), s, "date_to_sec of a datetime64")
        arr = np.array(ts, dtype='datetime64[s]')
        keep = arr.copy()
        got = tu.date_to_sec(arr)
        ctx.equal(got.tolist(), [int(s) for s in secs], "date_to_sec of an array")
        ctx.equal(tu.date_to_sec(list(ts)).tolist(), [int(s) for s in secs], "date_to_sec of a list")
        back = np.asarray(tu.sec_to_date(got), dtype='datetime64[s]').reshape(-1)
        ctx.check((back == arr).all() and (arr == keep).all(), "sec_to_date of an array: %s, expected %s", back, arr)
        cy = CyDateTime()
        for t, s in zip(ts, secs):
            rec = np.empty((1,), dtype=date_rec)
            rec['year'], rec['month'], rec['day'] = t.year, t.month, t.day
            rec['hour'], rec['minute'], rec['second'] = t.hour, t.minute, t.second
            rec['dayOfWeek'] = t.isoweekday() % 7 + 1
            ctx.equal(int(cy.DateToSeconds(rec)), int(s), "C++ seconds of %s" % t)
            r = cy.SecondsToDate(int(s))
            g = tuple(int(r[k][0] if hasattr(r[k], '__len__') else r[k]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second'))
            ctx.equal(g, (t.year, t.month, t.day, t.hour, t.minute, t.second), "C++ date of %d" % s)


@facet('C20', fd(minutes=st.one_of(st.none(), st.integers(-14 * 60, 14 * 60)), title=st.sampled_from(['', 'here', 'Seattle time']), td=st.booleans(), t=moments),
       quick=500, rule="non-trivial: an offset of other than whole hours")
def offsets(case, ctx):
    """a TZOffset is the offset it was given, as a timedelta, in ISO format, and saved and loaded"""
    from gnome.utilities.time_utils import FixedOffset, TZOffset, TZOffsetSchema
    m = case['minutes']
    ctx.nontrivial(m is not None and m % 60)
    td = timedelta(minutes=m or 0)
    o = TZOffset(None if m is None else td if case['td'] else m / 60, case['title'])
    ctx.equal(o.as_timedelta(), td, "as_timedelta of %r" % o.offset)
    iso = o.as_iso_string()
    if m is None:
        ctx.equal(iso, '', "ISO string without an offset")
        ctx.equal(o.offset, None, "offset")
    else:
        ctx.equal(iso, '%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60), "ISO string of %d minutes" % m)
        ctx.equal(datetime.fromisoformat('2020-01-01T00:00:00' + iso).utcoffset(), td, "ISO string read back")
        ctx.close(o.offset, m / 60, "offset", rtol=1e-12)
        f = FixedOffset(m, 'x')
        t = case['t'].replace(tzinfo=f)
        ctx.equal(t.utcoffset(), td, "FixedOffset")
        try:
            same, tup = t.astimezone(FixedOffset(0, 'utc')).replace(tzinfo=None), t.timetuple()[:6]
        except TypeError as e:
            if 'dst() must return' not in str(e):
                raise
            ctx.known(DST)
        else:
            ctx.equal(same, case['t'] - td, "FixedOffset: the same moment in UTC")
            ctx.equal(tup, case['t'].timetuple()[:6], "FixedOffset: timetuple")
    ctx.equal(o.title, case['title'] or ("No Timezone Specified" if m is None else iso), "title")
    s = TZOffsetSchema()
    ctx.equal(s.deserialize(s.serialize(o)), o, "serialized and read back")


@facet('C20', fd(t=st.lists(moments, min_size=1, max_size=5), inf=st.lists(st.sampled_from(['inf', '-inf']), min_size=1, max_size=3), perm=st.randoms(use_true_random=False)),
       quick=400, rule="non-trivial: both infinities")
def infinities(case, ctx):
    """infinite times are ordered before or after every date, on either side of a comparison, and survive saving"""
    from gnome.persist.extend_colander import LocalDateTime
    from gnome.utilities.inf_datetime import InfDateTime, InfTime, MinusInfTime
    ctx.nontrivial(len(set(case['inf'])) == 2)
    items = [(1, t) for t in case['t']] + [((2, None) if i == 'inf' else (0, None)) for i in case['inf']]
    items = [((k, t), t if t is not None else InfDateTime('inf' if k == 2 else '-inf')) for k, t in items]
    case['perm'].shuffle(items)

    def rank(key):
        return (key[0], key[1] or datetime.min)
    for ka, a in items:
        for kb, b in items:
            ra, rb = rank(ka), rank(kb)
            for name, want, got in (('<', ra < rb, a < b), ('<=', ra <= rb, a <= b), ('==', ra == rb, a == b), ('!=', ra != rb, a != b), ('>', ra > rb, a > b), ('>=', ra >= rb, a >= b)):
                ctx.check(got is want, "%r %s %r is %r", a, name, b, got)
    ctx.equal([k for k, _ in sorted(items, key=lambda i: rank(i[0]))], [k for k, v in sorted(items, key=lambda i: i[1])] if len(items) < 2 else
              [next(k for k, w in items if w is v or (w == v and type(w) is type(v))) for v in sorted(v for _, v in items)], "sorted times")
    for (k, t), v in items:
        n = LocalDateTime()
        ctx.equal(n.deserialize(None, n.serialize(None, v)), v, "serialized and read back")
        ctx.equal(-(-v) == v if t is None else True, True, "double negation")
        if t is not None:
            ctx.equal(InfDateTime(t.year, t.month, t.day, t.hour, t.minute, t.second), t, "InfDateTime of a date")
    ctx.check(isinstance(-InfTime(), MinusInfTime) and isinstance(-MinusInfTime(), InfTime), "negation")
    for y in (1969, 2038, 2039, 1):
        ctx.raises(ValueError, lambda: InfDateTime(y, 12, 31), "InfDateTime outside its range")


@facet('C20', fd(t=st.lists(moments, min_size=1, max_size=5), to=st.sampled_from([1, 2, 5, 10, 30, 60, 300, 600, 900, 1800, 3600, 7200, 21600, 43200]), form=st.sampled_from(['one', 'list', 'array', 'array64'])),
       quick=400, rule="non-trivial: an interval of more than a minute")
def rounding(case, ctx):
    """round_time gives the nearest multiple, counted from midnight, and leaves its argument alone"""
    import numpy as np
    from gnome.utilities.time_utils import asdatetime, round_time
    ts, to = case['t'], case['to']
    ctx.nontrivial(to > 60)
    form = case['form']
    arg = ts[0] if form == 'one' else list(ts) if form == 'list' else np.array(ts, dtype=object) if form == 'array' else np.array(ts, dtype='datetime64[s]')
    keep = np.array(arg, dtype='datetime64[s]').reshape(-1).copy()
    got = np.array(round_time(arg, to), dtype='datetime64[s]').reshape(-1)
    ctx.check((np.array(arg, dtype='datetime64[s]').reshape(-1) == keep).all(), "round_time changed the times it was given")
    for g, t in zip(got, keep):
        g, t = g.astype(object), t.astype(object)
        d = (g - t).total_seconds()
        ctx.check(abs(d) <= to / 2, "%s rounded to %d s is %s", t, to, g)
        ctx.check(d != -to / 2 or to % 2, "%s rounded to %d s is %s: halves go up", t, to, g)
        ctx.equal((g - datetime(g.year, g.month, g.day)).total_seconds() % to, 0, "%s rounded to %d s is %s" % (t, to, g))
    for t in ts:
        ctx.equal(asdatetime(t.isoformat()), t, "asdatetime")
        ctx.equal(asdatetime(t.isoformat() + '+05:00'), t, "asdatetime ignores the time zone")
        ctx.equal(asdatetime(t), t, "asdatetime of a datetime")
        ctx.equal(asdatetime(t.strftime('%Y-%m-%d %H:%M:%S')), t, "asdatetime")


def close_runs(ctx, a, b, what):
    """equal up to the rounding of interpolation in seconds since another moment"""
    import numpy as np
    ctx.equal(len(a), len(b), what + ": number of steps")
    for i, ((t1, s1, m1), (t2, s2, m2)) in enumerate(zip(a, b)):
        ctx.equal(t1, t2, what + ": time of step %d" % i)
        for j, (x, y) in enumerate(zip(s1, s2)):
            for k in x:
                same = x[k].shape == y[k].shape and (
                    np.allclose(x[k], y[k], rtol=1e-6, atol=1e-9, equal_nan=True) if x[k].dtype.kind == 'f' else np.array_equal(x[k], y[k]))
                ctx.check(same, "%s: step %d container %d array %r differs: %s vs %s", what, i, j, k, x[k][:5], y[k][:5])
        for j, (x, y) in enumerate(zip(m1, m2)):
            for k in x:
                ctx.close(y.get(k), x[k], "%s: step %d mass balance %r" % (what, i, k), rtol=1e-6, atol=1e-6)


@st.composite
def zone_run(draw):
    c = draw(st.one_of(scen.transport_scenario(max_steps=8, max_spills=2, max_n=6, maps=('none', 'bounds'), backward=True),
                       scen.weathering_scenario(max_steps=6, max_spills=2, max_n=6, maps=('none', 'bounds'))))
    if c['oil']:
        # an interpolated wind is rounded differently in another zone, and the spreading may then stop a step earlier or later
        c['wind'] = dict(c['wind'], r=[c['wind']['r'][0]] * len(c['wind']['r']), d=[c['wind']['d'][0]] * len(c['wind']['d']))
    start = draw(st.one_of(st.sampled_from(CHANGES), moments.map(lambda t: t.replace(minute=0, second=0)).filter(lambda t: datetime(1971, 1, 1) < t < datetime(2037, 6, 1))))
    return {'c': c, 'tz': draw(st.sampled_from(ZONES[1:])), 'start': start - timedelta(seconds=draw(st.integers(0, c['n'])) * c['dt'])}


@facet('C20', zone_run(), quick=60, rule="non-trivial: the run, moved in time, crosses a change of the clock of the machine's time zone")
def machine_time_zone(case, ctx):
    """a run does not depend on the time zone of the machine, nor on whether clocks change during it"""
    import vlib.gen as gen
    c = case['c']
    runs = []
    shift = case['start'] - T0
    for tz in ('UTC0', case['tz']):
        with zone(tz):
            off = {time.localtime(time.mktime((case['start'] + timedelta(seconds=k * c['dt'])).timetuple())).tm_isdst for k in range(c['n'] + 1)}
            ctx.nontrivial(len(off) > 1)
            old = gen.T0, scen.T0
            gen.T0 = scen.T0 = T0 + shift
            try:
                m = scen.make_model(c, ctx.tmpdir())
                runs.append(scen.run_all(m))
            finally:
                gen.T0, scen.T0 = old
    close_runs(ctx, runs[0], runs[1], "run in time zone %s" % case['tz'])


@st.composite
def moved(draw):
    quarter = st.integers(-4 * 12, 4 * 14).map(lambda q: q / 4)
    return {'kind': draw(st.sampled_from(['release', 'wind'])), 'first': draw(st.one_of(quarter, quarter, quarter, st.none())),
            'ops': draw(st.lists(st.one_of(quarter, quarter, quarter, st.none()), min_size=1, max_size=4)),
            't': draw(moments.map(lambda t: t.replace(second=0))), 'dur': draw(st.sampled_from([0, 600, 3600, 86400])),
            'ws': draw(st.lists(st.tuples(st.integers(1, 20), st.integers(0, 359)), min_size=1, max_size=4))}


@facet('C20', moved(), quick=300, rule="a release or a wind given another time-zone offset once or several times; non-trivial: two different known offsets in a row")
def moved_offsets(case, ctx):
    """changing the offset of a release or a wind from a known one to another moves all its times by the difference, keeping durations and values"""
    import gnome.scripting as gs
    from gnome.spills.release import PointLineRelease
    from gnome.utilities.time_utils import TZOffset
    t0, dur = case['t'], timedelta(seconds=case['dur'])
    if not datetime(1971, 1, 1) < t0 < datetime(2036, 1, 1):
        return
    shift = timedelta(0)
    cur = case['first']
    if case['kind'] == 'release':
        o = PointLineRelease(release_time=t0, end_release_time=t0 + dur, start_position=(0, 0, 0), num_elements=10, timezone_offset=TZOffset(cur))
    else:
        o = gs.Wind(timeseries=[(t0 + timedelta(hours=i), w) for i, w in enumerate(case['ws'])], units='m/s', timezone_offset=TZOffset(cur))
        want = o.timeseries['value'].copy()
    for new in case['ops']:
        o.timezone_offset = None if new is None else TZOffset(new)
        if cur is not None and new is not None:
            shift += timedelta(hours=new - cur)
            ctx.nontrivial(new != cur)
        cur = new
        ctx.equal(o.timezone_offset.offset, new, "offset")
        if case['kind'] == 'release':
            ctx.equal(o.release_time, t0 + shift, "release time after changes of the offset by %s" % shift)
            ctx.equal(o.end_release_time, t0 + shift + dur, "end of the release after changes of the offset by %s" % shift)
            ctx.equal(o.release_duration, case['dur'], "duration of the release")
        else:
            ctx.equal([x.astype(datetime) for x in o.timeseries['time'].astype('datetime64[s]')], [t0 + shift + timedelta(hours=i) for i in range(len(case['ws']))],
                      "times of the wind after changes of the offset by %s" % shift)
            ctx.close(o.timeseries['value'], want, "values of the wind", rtol=1e-9, atol=1e-9)
            for i, (s, d) in enumerate(case['ws']):
                v = o.get_value(t0 + shift + timedelta(hours=i))
                ctx.close(v[0], s, "wind speed at the moved time", rtol=1e-6)
    ctx.raises(ValueError, lambda: setattr(o, 'timezone_offset', 5), "an offset that is a number")
