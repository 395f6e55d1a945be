"""C23: oil, water and wave properties follow the measurements and units given."""
import math

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, grid, make_wind, when, wind_spec

G = 9.80665


@st.composite
def oil_spec(draw):
    nd = draw(st.integers(1, 4))
    temps = sorted(draw(st.lists(st.integers(260, 330), min_size=nd, max_size=nd, unique=True)))
    rho = draw(grid(700, 1000, 60))
    dens = []
    for i, t in enumerate(temps):
        rho -= draw(grid(0, 1.2, 12)) * (t - temps[i - 1] if i else 0)
        dens.append(round(rho, 4))
    order = draw(st.permutations(list(range(nd))))
    dw = [0.0] * nd
    nk = draw(st.integers(1, 4))
    vt = draw(st.lists(st.integers(260, 330), min_size=nk, max_size=nk, unique=True))
    a, b = draw(grid(1, 12, 22)), draw(grid(500, 9000, 34))
    fit = draw(st.booleans())
    kv = [math.exp(-a - 6 + b * (1 / t - 1 / 288.15)) * (1 if fit else draw(st.sampled_from([1.0, 0.8, 1.3]))) for t in vt]
    nc = draw(st.integers(1, 6))
    fr = [draw(st.integers(1, 20)) for _ in range(nc)]
    extra = draw(st.booleans())
    return {'dens': [dens[i] for i in order], 'dt': [float(temps[i]) for i in order], 'dw': dw, 'kv': kv, 'vt': [float(t) for t in vt],
            'kw': [0.0] * nk, 'fit': fit, 'line': (a, b), 'mf': [f / sum(fr) for f in fr],
            'bp': sorted(draw(st.integers(300, 1000)) for _ in range(nc)), 'mw': sorted(draw(st.integers(50, 600)) for _ in range(nc)),
            'cd': [draw(grid(650, 1050, 40)) for _ in range(nc)], 'pour': draw(st.sampled_from([200.0, 250.0, 270.0, 300.0, 340.0])),
            'api': draw(st.sampled_from([10.0, 29.9, 30.0, 30.1, 45.0])), 'extra': extra}


def make_oil(o):
    import gnome.scripting as gs
    from gnome.spills.gnome_oil import GnomeOil
    d, dt, dw, kv, vt, kw = (list(o[k]) for k in ('dens', 'dt', 'dw', 'kv', 'vt', 'kw'))
    if o['extra']:     # measurements of weathered oil describe another liquid
        d.insert(0, 1111.0), dt.insert(0, 288.15), dw.insert(0, 0.3)
        kv.append(7.0), vt.append(288.0), kw.append(0.2)
    return GnomeOil(api=o['api'], pour_point=o['pour'], solubility=0, bullwinkle_fraction=0.1, bullwinkle_time=None,
                    emulsion_water_fraction_max=0.5, densities=d, density_ref_temps=dt, density_weathering=dw,
                    kvis=kv, kvis_ref_temps=vt, kvis_weathering=kw, mass_fraction=o['mf'], boiling_point=o['bp'],
                    molecular_weight=o['mw'], component_density=o['cd'], num_components=len(o['mf']))


@st.composite
def density_case(draw):
    return {'oil': draw(oil_spec()), 'temps': draw(st.lists(grid(200, 360, 640), min_size=1, max_size=8)),
            'shape': draw(st.sampled_from(['scalar', 'list', 'array', '2d']))}


def ref_density(o, t):
    pts = sorted(zip(o['dt'], o['dens']))
    t = max(t, min([p[0] for p in pts] + [o['pour']]))
    k = 0.0009 if o['api'] > 30 else 0.0008
    if t < pts[0][0]:
        return pts[0][1] / (1 + k * (t - pts[0][0]))
    if t > pts[-1][0]:
        return pts[-1][1] / (1 + k * (t - pts[-1][0]))
    for (t0, r0), (t1, r1) in zip(pts, pts[1:]):
        if t0 <= t < t1:
            return r0 / (1 + (r0 - r1) / (r0 * (t1 - t0)) * (t - t0))
    return pts[-1][1]


@facet('C23', density_case(), quick=700,
       rule="generated oils (1-4 densities in any order, pour points, weathered measurements to ignore) at generated temperatures, one by one and as arrays; non-trivial: at least two densities")
def densities(c, ctx):
    import numpy as np
    o = c['oil']
    oil = make_oil(o)
    for t, r in zip(o['dt'], o['dens']):
        ctx.close(float(oil.density_at_temp(t)), r, "density at %s K, where it was measured" % t, rtol=1e-9)
    want = [ref_density(o, t) for t in c['temps']]
    if c['shape'] == 'scalar':
        got = [float(oil.density_at_temp(t)) for t in c['temps']]
    elif c['shape'] == 'list':
        got = np.atleast_1d(oil.density_at_temp(list(c['temps'])))
    elif c['shape'] == 'array':
        arr = np.array(c['temps'])
        got = np.atleast_1d(oil.density_at_temp(arr))
        ctx.check(np.array_equal(arr, c['temps']), "temperatures passed in were changed")
    else:
        arr = np.array([c['temps'], c['temps']])
        got = oil.density_at_temp(arr)
        ctx.equal(np.shape(got), arr.shape, "shape of the densities")
        ctx.check(np.array_equal(got[0], got[1]), "same temperatures, different densities")
        got = got[0]
    ctx.close(got, want, "density at %s" % c['temps'], rtol=1e-9)
    ctx.close(oil.standard_density, ref_density(o, 288.15), "standard density", rtol=1e-9)
    pts = sorted(zip(o['dt'], o['dens']))
    for t, g in zip(c['temps'], got):
        if pts[0][0] <= t <= pts[-1][0]:
            ctx.check(pts[-1][1] - 1e-6 <= g <= pts[0][1] + 1e-6, "density %s at %s K outside the measured ones", g, t)
    ctx.nontrivial(len(o['dt']) > 1)
    ctx.label('%d densities' % len(o['dt']), c['shape'])


@st.composite
def visc_case(draw):
    return {'oil': draw(oil_spec()), 'temps': sorted(draw(st.lists(grid(255, 340, 340), min_size=2, max_size=6, unique=True)))}


@facet('C23', visc_case(), quick=700,
       rule="generated viscosity measurements and temperatures; non-trivial: at least two measurements")
def viscosities(c, ctx):
    import warnings
    import numpy as np
    o = c['oil']
    oil = make_oil(o)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [float(oil.kvis_at_temp(t)) for t in c['temps']]
    arr = oil.kvis_at_temp(np.array(c['temps']))
    ctx.close(arr, got, "array of temperatures", rtol=1e-12)
    ctx.check(all(v > 0 for v in got), "viscosities %s", got)
    if len(o['kv']) == 1:
        ctx.close(got, [o['kv'][0] * math.exp(2100 * (1 / t - 1 / o['vt'][0])) for t in c['temps']], "viscosity from one measurement", rtol=1e-9)
    else:
        if o['fit']:
            a, b = o['line']
            ctx.close(got, [math.exp(-a - 6 + b * (1 / t - 1 / 288.15)) for t in c['temps']], "viscosity on the curve of the measurements", rtol=1e-6)
        # least squares in log v over 1/T: residuals are orthogonal to 1 and 1/T
        x = np.array([1 / t for t in o['vt']])
        r = np.log(o['kv']) - np.log(oil.kvis_at_temp(np.array(o['vt'])))
        ctx.check(abs(r.sum()) < 1e-6 and abs((r * (x - x.mean())).sum()) < 1e-6 * abs(x).max(), "fit is not the least-squares one: residuals %s", r)
        if len(o['kv']) == 2:
            ctx.close(np.exp(r), 1, "two measurements are reproduced", rtol=1e-6)
    ctx.nontrivial(len(o['kv']) > 1)


@st.composite
def vp_case(draw):
    return {'oil': draw(oil_spec()), 'temps': sorted(draw(st.lists(grid(260, 330, 70), min_size=1, max_size=5, unique=True))),
            'edit': draw(st.booleans()), 'newbp': draw(st.integers(310, 900))}


@facet('C23', vp_case(), quick=500,
       rule="generated component boiling points and temperatures, and boiling points edited afterwards; non-trivial: two components")
def vapor_pressures(c, ctx):
    import numpy as np
    o = c['oil']
    oil = make_oil(o)

    def ref(bp, t):
        ds = 8.75 + 1.987 * math.log(bp)
        c2 = 0.19 * bp - 18
        return 101325.0 * math.exp(ds * (bp - c2) ** 2 / (0.97 * 1.987 * bp) * (1 / (bp - c2) - 1 / (t - c2)))
    last = None
    for t in c['temps']:
        vp = np.array(oil.vapor_pressure(t))
        ctx.close(vp, [ref(b, t) for b in o['bp']], "vapor pressures at %s K" % t, rtol=1e-9)
        ctx.check((vp > 0).all(), "vapor pressure %s", vp)
        for b, v in zip(o['bp'], vp):
            ctx.check((v <= 101325 * (1 + 1e-9)) == (t <= b) or abs(t - b) < 1e-9, "pressure %s at %s K of a component boiling at %s K", v, t, b)
        if last is not None:
            ctx.check((vp >= last).all(), "vapor pressure falls with temperature")
        last = vp
    if c['edit']:
        t = c['temps'][0]
        oil.vapor_pressure(t)
        oil.boiling_point = np.array([float(c['newbp'])] * len(o['bp']))
        ctx.close(oil.vapor_pressure(t), ref(c['newbp'], t), "vapor pressure after editing the boiling points", rtol=1e-9)
        kv = float(oil.kvis_at_temp(t))
        oil.kvis = [10 * k for k in oil.kvis]
        ctx.close(float(oil.kvis_at_temp(t)), 10 * kv, "viscosity after editing the measurements", rtol=1e-6)
    ctx.nontrivial(len(o['bp']) > 1)


# ---------------------------------------------------------------- water
TEMP = {'K': lambda k: k, 'C': lambda k: k - 273.15, 'F': lambda k: (k - 273.15) * 1.8 + 32}
LEN = {'m': 1.0, 'ft': 0.3048, 'km': 1000.0, 'meter': 1.0, 'feet': 0.3048}


@st.composite
def water_case(draw):
    return {'k': draw(st.one_of(grid(272, 310, 76), st.just(273.15))), 'tu': draw(st.sampled_from(sorted(TEMP))), 'sal': draw(st.sampled_from([0.0, 10.0, 35.0, 34.96])),
            'sed': draw(st.sampled_from([0.0, 0.005, 0.5])), 'su': draw(st.sampled_from(['kg/m^3', 'mg/l'])),
            'wh': draw(st.sampled_from([None, 0.0, 0.5, 3.0])), 'wu': draw(st.sampled_from(['m', 'ft'])),
            'fetch': draw(st.sampled_from([None, 1000.0, 8e4])), 'fu': draw(st.sampled_from(['m', 'ft', 'km'])),
            'edits': draw(st.lists(st.tuples(st.sampled_from(['temperature', 'wave_height', 'fetch', 'sediment', 'salinity']), st.integers(0, 3),
                                             st.sampled_from(['set', 'set', 'unit', 'value', 'none'])), max_size=4)),
            'two': draw(st.booleans())}


@facet('C23', water_case(), quick=500,
       rule="water objects in generated units, edited by set(), by unit and by value, read back in every unit, beside a second water object; non-trivial: a unit other than the default")
def water_units(c, ctx):
    import warnings
    import gsw
    import numpy as np
    from gnome.environment import Water
    warnings.simplefilter('ignore')
    units = {'temperature': c['tu'], 'sediment': c['su'], 'wave_height': c['wu'], 'fetch': c['fu']}
    given = dict(units)
    sedf = {'kg/m^3': 1.0, 'mg/l': 1000.0}
    w = Water(temperature=TEMP[c['tu']](c['k']), salinity=c['sal'], sediment=c['sed'] * sedf[c['su']],
              wave_height=None if c['wh'] is None else c['wh'] / LEN[c['wu']],
              fetch=None if c['fetch'] is None else c['fetch'] / LEN[c['fu']], units=units)
    ctx.equal(units, given, "units passed in")
    other = Water(temperature=290.0, salinity=33.0) if c['two'] else None
    si = {'temperature': c['k'], 'sediment': c['sed'], 'wave_height': c['wh'], 'fetch': c['fetch'], 'salinity': c['sal']}

    def conv(attr, v, unit):
        if v is None:
            return None
        if attr == 'temperature':
            return TEMP[unit](v)
        if attr == 'sediment':
            return v * sedf[unit]
        if attr == 'salinity':
            return v
        return v / LEN[unit]
    choice = {'temperature': ['K', 'C', 'F', 'K'], 'sediment': ['kg/m^3', 'mg/l'] * 2, 'wave_height': ['m', 'ft', 'm', 'ft'],
              'fetch': ['m', 'km', 'ft', 'm'], 'salinity': ['psu'] * 4}
    news = {'temperature': [280.0, 273.15, 300.0, 275.0], 'sediment': [0.0, 0.01, 0.1, 1.0], 'wave_height': [0.0, 1.0, 2.0, 9.0],
            'fetch': [10.0, 1e3, 1e5, 5e3], 'salinity': [0.0, 5.03, 20.0, 36.0]}

    def verify(where):
        for attr, v in si.items():
            got = w.get(attr)
            if v is None:
                ctx.check(got is None, "%s: %s is %s", where, attr, got)
                continue
            ctx.close(got, v, "%s: %s in gnome's units" % (where, attr), rtol=1e-9)
            for u in choice[attr]:
                ctx.close(w.get(attr, u), conv(attr, v, u), "%s: %s in %s" % (where, attr, u), rtol=1e-9, atol=1e-9)
        ctx.close(w.density, gsw.rho(si['salinity'], si['temperature'] - 273.15, 10.1325), "%s: density of the water" % where, rtol=1e-9)
        pts = np.zeros((3, 3))
        ctx.close(w.Temperature.at(pts, when(0), units='K'), si['temperature'], where + ": Temperature.at", rtol=1e-9)
        ctx.close(w.Salinity.at(pts, when(0)), si['salinity'], where + ": Salinity.at", rtol=1e-9)
        if other is not None:
            ctx.close(other.get('temperature', 'K'), 290.0, where + ": temperature of the other water")
            ctx.equal(other.units['temperature'], 'K', where + ": units of the other water")
            ctx.equal(Water().units['temperature'], 'K', where + ": units of a new water")
    verify("as made")
    for attr, i, how in c['edits']:
        u = choice[attr][i]
        v = news[attr][i]
        if how == 'set':
            w.set(attr, conv(attr, v, u), u)
            si[attr] = v
        elif how == 'none':
            if attr not in ('wave_height', 'fetch'):
                continue
            w.set(attr, None, u)        # no longer given
            si[attr] = None
        elif how == 'value':
            setattr(w, attr, conv(attr, v, w.units[attr]))
            si[attr] = v
        else:       # the number stays, its unit is another one
            raw = getattr(w, attr)
            w.units = {attr: u}
            if raw is not None:
                if attr == 'temperature':
                    si[attr] = {'K': raw, 'C': raw + 273.15, 'F': (raw - 32) / 1.8 + 273.15}[u]
                elif attr == 'sediment':
                    si[attr] = raw / sedf[u]
                elif attr != 'salinity':
                    si[attr] = raw * LEN[u]
        if not 255 < si['temperature'] < 330:
            return
        verify("after %s of %s" % (how, attr))
    from nucos import InvalidUnitError
    ctx.raises(InvalidUnitError, lambda: w.get('temperature', 'kg'), "temperature in kg")
    ctx.raises(InvalidUnitError, lambda: w.set('temperature', 5, 'm'), "temperature set in m")
    verify("after refused units")
    ctx.nontrivial(c['tu'] != 'K' or c['wu'] != 'm' or c['fu'] != 'm')


# ---------------------------------------------------------------- waves
@st.composite
def wave_case(draw):
    return {'wind': draw(wind_spec(max_speed=40)), 't': draw(st.integers(-10, 30)), 'sal': draw(st.sampled_from([0.0, 20.0, 35.0])),
            'wh': draw(st.sampled_from([None, None, 0.0, 0.1, 0.5, 2.0, 8.0])), 'vary': draw(st.booleans()), 'wu': draw(st.sampled_from(['m', 'ft'])),
            'fetch': draw(st.sampled_from([None, 100.0, 5e3, 1e6])), 'fu': draw(st.sampled_from(['m', 'ft', 'km'])),
            'how': draw(st.sampled_from(['given', 'set', 'later'])), 'n': draw(st.integers(1, 4)), 'k': draw(grid(274, 305, 10))}


@facet('C23', wave_case(), quick=400,
       rule="waves for generated winds, fetches and given wave heights; non-trivial: a fetch or a wave height")
def waves(c, ctx):
    import numpy as np
    from gnome.environment import Water, Waves
    w = make_wind(c['wind'])
    if c['vary']:
        plain = w.at

        def at(points, time, *args, **kw):
            # a wind that is stronger further east
            v = plain(points, time, *args, **kw)
            f = 1 + np.asarray(points, float).reshape(-1, 3)[:, 0]
            return v * (f if np.ndim(v) == 1 else f[:, None])
        w.at = at
    wh = None if c['wh'] is None else c['wh'] / LEN[c['wu']]
    fetch = None if c['fetch'] is None else c['fetch'] / LEN[c['fu']]
    if c['how'] == 'given':
        water = Water(temperature=c['k'], salinity=c['sal'], wave_height=wh, fetch=fetch, units={'wave_height': c['wu'], 'fetch': c['fu']})
        wv = Waves(w, water)
    else:
        # the values set afterwards: before or after the waves use this water
        water = Water(temperature=c['k'], salinity=c['sal'])
        if c['how'] == 'later':
            wv = Waves(w, water)
            wv.get_value(np.zeros((1, 3)), when(0))
        if wh is not None:
            water.set('wave_height', wh, c['wu'])
        if fetch is not None:
            water.set('fetch', fetch, c['fu'])
        if c['how'] == 'set':
            wv = Waves(w, water)
    pts = np.zeros((c['n'], 3))
    pts[:, 0] = np.arange(c['n']) * 0.7
    t = when(3600 * c['t'])
    U = np.asarray(w.at(pts, t, coord_sys='r'), float).reshape(-1)
    H, T, W, E = (np.asarray(x, float).reshape(-1) for x in wv.get_value(pts, t))
    cut = 4.433049525859078

    def pseudo(h):
        u = math.sqrt(G * h / 0.243)
        return (u / 0.71) ** 0.813008 if u < cut else u
    if c['wh'] is None:
        ws = np.where(U < cut, 0.71 * U ** 1.23, U)
        full = 0.243 * ws ** 2 / G
        h = full if c['fetch'] is None else np.where(c['fetch'] < 2268 * ws ** 2, 0.0016 * np.sqrt(c['fetch'] / G) * ws, full)
        h = np.minimum(0.707 * h, 30)
        V = U
        em = U
        # a wave height that unlimited wind makes leads back to that wind
        if c['fetch'] is None and (h < 30).all():
            ctx.close(wv.pseudo_wind(h / 0.707), U, "wind from the wave height", rtol=2e-3, atol=1e-6)
    else:
        h = np.full(c['n'], 0.707 * c['wh'])
        V = np.full(c['n'], pseudo(c['wh']))
        em = np.maximum(U, V)
        ctx.close(T, 7.508 * math.sqrt(c['wh']), "wave period for a given height", rtol=1e-9)
    ctx.close(H, h, "rms wave height", rtol=1e-9)
    if c['wh'] is None:
        si = Waves(w, Water(temperature=c['k'], salinity=c['sal'], fetch=c['fetch']))
        ctx.close(T, np.asarray(si.get_value(pts, t)[1], float).reshape(-1), "wave period with the fetch in %s, against metres" % c['fu'], rtol=1e-9)
    tm = 0.03742857 * c['sal'] + 2.54
    ctx.close(W, np.minimum(0.5 * np.where(V < 4, 0.0125 * V, 0.01 * V + 0.01) / tm, 1), "breaking fraction", rtol=1e-9)
    ctx.close(E, 0.0034 * float(water.density) * G * h ** 2, "dissipated energy", rtol=1e-9)
    ctx.close(np.asarray(wv.get_emulsification_wind(pts, t), float).reshape(-1), em, "emulsification wind", rtol=1e-9)
    ctx.close(np.asarray(wv.peak_wave_period(pts, t), float).reshape(-1), 0.75 * U, "peak period", rtol=1e-9)
    ctx.nontrivial(c['wh'] is not None or c['fetch'] is not None)
