"""C11: windage stays in its range and persists as prescribed."""
import math
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid, when, wind_spec, make_wind


@st.composite
def windage(draw):
    lo = draw(st.sampled_from([0.0, 0.01, 0.03]))
    return {'lo': lo, 'hi': lo + draw(st.sampled_from([0.0, 0.01, 0.05])),
            'persist': draw(st.sampled_from([900, 900, 60, 300, 1, -1, 1800, 7200]))}


@st.composite
def case(draw):
    dt = draw(st.sampled_from([60, 300, 900, 1800, 3600]))
    n = draw(st.integers(1, 6))
    return {'dt': dt, 'n': n, 'unc': draw(st.booleans()),
            'kind': draw(st.sampled_from(['point', 'py', 'off', 'point'])),
            'subs': [draw(windage())], 'spills': draw(st.integers(1, 2)),
            'els': draw(st.integers(1, 40)), 'rel': draw(st.integers(0, n)), 'z': draw(st.sampled_from([0.0, 0.0, 2.0]))}


@facet('C11', case(), quick=220,
       rule="runs with generated windage ranges and persistence; non-trivial: at least two steps with elements and a range that is not a point")
def windage_runs(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.environment.wind import constant_wind
    from gnome.movers import PointWindMover, WindMover
    model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], uncertain=c['unc'])
    subs = c['subs'][:1]       # a model has one substance
    s = subs[0]
    sub = gs.NonWeatheringSubstance(windage_range=(s['lo'], s['hi']), windage_persist=s['persist'])
    for _ in range(c['spills']):
        model.spills += gs.point_line_spill(num_elements=c['els'], start_position=(0, 0, c['z']),
                                            release_time=when(min(c['rel'], c['n']) * c['dt']), substance=sub)
    w = constant_wind(5, 90)
    model.movers += (WindMover(w) if c['kind'] == 'py' else PointWindMover(w, on=c['kind'] != 'off'))
    hist = {}
    seen = 0
    changed = 0
    for k in range(c['n'] + 1):
        model.step()
        for j, sc in enumerate(model.spills.items()):
            if not len(sc):
                continue
            seen += 1
            for i in range(len(sc)):
                s = subs[0]
                key = (j, int(sc['id'][i]))
                val = float(sc['windages'][i])
                ctx.close(sc['windage_range'][i], (s['lo'], s['hi']), "windage range of an element of spill %d" % sc['spill_num'][i])
                ctx.equal(int(sc['windage_persist'][i]), s['persist'], "windage persistence")
                half, mean = (s['hi'] - s['lo']) / 2, (s['hi'] + s['lo']) / 2
                f = 1.0
                redraw = 0 < s['persist'] <= 900 and c['kind'] != 'off'
                if redraw:
                    f = max(1.0, math.sqrt(s['persist'] / c['dt']))
                    if key in hist and math.sqrt(s['persist'] / c['dt']) < 1:
                        f = math.sqrt(s['persist'] / c['dt'])
                ctx.check(abs(val - mean) <= half * f * 1.000001 + 1e-12, "step %d: windage %.5f outside %.5f +- %.5f", k, val, mean, half * f)
                if key in hist:
                    if not redraw:
                        ctx.equal(val, hist[key], "step %d: windage of element %s (persistence %s)" % (k, key, s['persist']))
                    elif half and val != hist[key]:
                        changed += 1
                hist[key] = val
    ctx.nontrivial(seen >= 2 and any(s['hi'] > s['lo'] for s in subs))
    ever = [s for s in subs if s['hi'] > s['lo'] and 0 < s['persist'] <= 900]
    if ever and c['kind'] != 'off' and seen >= 4 * (2 if c['unc'] else 1):
        ctx.check(changed > 0, "windages with persistence %s were never drawn again", ever[0]['persist'])
    if c['els'] >= 20 and hist:
        for n, s in enumerate(subs):
            if s['hi'] > s['lo']:
                vals = {v for kk, v in hist.items()}
                ctx.check(len(vals) > 5, "windages of many elements take only the values %s", list(vals)[:5])
    ctx.label(c['kind'])


@st.composite
def fn_case(draw):
    n = draw(st.integers(1, 8))
    rows = []
    for _ in range(n):
        lo = draw(grid(-1, 1, 8))
        rows.append((lo, lo + draw(st.sampled_from([0.0, 0.5, 2.0])), draw(st.sampled_from([-1, 0, 1, 60, 899, 900, 901, 3600]))))
    return {'rows': rows, 'dt': draw(st.sampled_from([1, 60, 900, 1800, -900])), 'seed': draw(st.integers(0, 1000)),
            'none': draw(st.booleans()), 'bad': draw(st.sampled_from([None, None, None, 'order', 'len']))}


@facet('C11', fn_case(), quick=1500,
       rule="the random draw itself for generated bounds, persistences and time steps, and refused inputs; non-trivial: an element with a range and finite persistence")
def draw_function(c, ctx):
    import numpy as np
    from gnome.utilities import rand
    rand.seed(c['seed'])
    lo = np.array([r[0] for r in c['rows']])
    hi = np.array([r[1] for r in c['rows']])
    p = np.array([r[2] for r in c['rows']])
    old = (lo + hi) / 2 + 0.125 * (hi - lo)
    arr = old.copy()
    if c['bad'] == 'order':
        ctx.raises(ValueError, lambda: rand.random_with_persistance(hi + 1, lo, arr, p, c['dt']), "low > high accepted")
        return
    if c['bad'] == 'len':
        ctx.raises(ValueError, lambda: rand.random_with_persistance(lo, np.append(hi, 9.0), arr, p, c['dt']), "unequal lengths accepted")
        return
    lo0, hi0, p0 = lo.copy(), hi.copy(), p.copy()
    got = rand.random_with_persistance(lo, hi, arr, None if c['none'] else p, c['dt'])
    ctx.check(np.array_equal(lo, lo0) and np.array_equal(hi, hi0) and np.array_equal(p, p0), "inputs were changed")
    ctx.check(got is arr, "the array passed in is the one returned")
    for i, (a, b, q) in enumerate(c['rows']):
        mean, half = (a + b) / 2, (b - a) / 2
        if c['none']:
            f = 1.0
        elif 0 < q <= 900:
            f = math.sqrt(q / abs(c['dt']))
        elif not (lo == hi).all():
            ctx.equal(float(got[i]), float(old[i]), "value with persistence %s" % q)
            continue
        else:
            f = 1.0
        ctx.check(abs(got[i] - mean) <= half * f * 1.000001 + 1e-12, "value %s outside %s +- %s", got[i], mean, half * f)
    ctx.nontrivial(any(b > a and 0 < q <= 900 for a, b, q in c['rows']))
