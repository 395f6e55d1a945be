"""C12: floating oil weathers by the documented equations, element by element."""
import math
from contextlib import contextmanager
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, T0, grid, make_spill, make_substance, make_wind, spill_spec, when, wind_spec
from vlib.scen import make_map

G = 9.80665


@st.composite
def run_case(draw, kinds=('point', 'cont')):
    dt = draw(st.sampled_from([60, 300, 600, 900, 1800, 3600]))
    n = draw(st.integers(2, 8))
    span = dt * n
    oil = draw(st.sampled_from(OILS))
    ll = (grid(-0.02, 0.02, 8), grid(-0.02, 0.02, 8))
    sp = draw(st.lists(spill_spec(oil=oil, lonlat=ll, max_n=12, span=span, zmax=draw(st.sampled_from([0, 0, 0, 3])), types=kinds),
                       min_size=1, max_size=3))
    for s in sp:
        s['windage'] = s['wpersist'] = None
        if s.get('dur'):
            s['n'] = max(s['n'], s['dur'] // dt + 2)
    # shore: spills close to land, a current that carries them ashore and then off again
    shore = draw(st.integers(0, 3)) == 0
    if shore:
        for s in sp:
            s['pos'] = (draw(st.sampled_from([0.045, 0.048, 0.049])),) + tuple(s['pos'][1:])
            s['rel'] = draw(st.sampled_from([0, 0, dt]))
    return {'shore': shore, 'oil': oil, 'dt': dt, 'n': n, 'spills': sp, 'wind': draw(wind_spec()), 'temp': draw(grid(273.5, 308, 23)),
            'tunit': draw(st.sampled_from(['K', 'C', 'F'])), 'sal': draw(st.sampled_from([0.0, 15.0, 35.0])),
            'sed': draw(st.sampled_from([0.0, 0.005, 0.05, 0.5])), 'sunit': draw(st.sampled_from(['kg/m^3', 'mg/l'])),
            'wh': draw(st.sampled_from([None, None, 0.0, 0.5, 2.0, 6.0])), 'fetch': draw(st.sampled_from([None, 500.0, 5e4])),
            'bull': draw(st.sampled_from([None, None, 0.0, 0.02, 0.3])), 'btime': draw(st.sampled_from([None, None, 0.0, 0.5, 2.0])),
            'ymax': draw(st.sampled_from([None, None, 0.0, 0.5, 0.9])),
            'alg': draw(st.sampled_from(['D&S1988', 'D&S1988', 'Li2017'])),
            'weather': draw(st.lists(st.sampled_from(['evaporation', 'dispersion', 'emulsification']), unique=True, min_size=1, max_size=3)),
            'map': 'land' if shore else draw(st.sampled_from(['none', 'none', 'land', 'bounds'])),
            'halflife': draw(st.sampled_from([0.01, 0.05, 0.2] if shore else [1, 0.2, -1])), 'diff': draw(st.sampled_from([0.0, 1e5])),
            'sub': draw(st.sampled_from([1, 1, 2, 5]))}


def build(c, tmpdir, **kw):
    import gnome.scripting as gs
    from gnome.movers import SimpleMover
    from gnome.weatherers import NaturalDispersion
    wind = make_wind(c['wind'])
    t = {'K': c['temp'], 'C': c['temp'] - 273.15, 'F': (c['temp'] - 273.15) * 1.8 + 32}[c['tunit']]
    water = gs.Water(temperature=t, salinity=c['sal'], sediment=c['sed'] * (1000 if c['sunit'] == 'mg/l' else 1),
                     wave_height=c['wh'], fetch=c['fetch'],
                     units={'temperature': c['tunit'], 'sediment': c['sunit']})
    waves = gs.Waves(wind, water)
    model = gs.Model(start_time=T0, duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], map=make_map(c, tmpdir),
                     weathering_substeps=c.get('sub', 1), **kw)
    model.environment += [wind, water, waves]
    model.movers += gs.PointWindMover(wind)
    if c.get('shore'):
        half = T0 + timedelta(seconds=c['dt'] * (c['n'] // 2))
        v = 800.0 / c['dt']
        model.movers += SimpleMover((v, 0, 0), active_range=(T0, half))
        model.movers += SimpleMover((-v, 0, 0), active_range=(half, T0 + timedelta(days=9)))
    if c['diff']:
        model.movers += gs.RandomMover(diffusion_coef=c['diff'])
    sub = make_substance(c['spills'][0])
    if c['bull'] is not None:
        sub.bullwinkle_fraction = c['bull']
    if c['btime'] is not None:
        sub.bullwinkle_time = c['btime']
    if c['ymax'] is not None:
        sub.emulsion_water_fraction_max = c['ymax']
    for s in c['spills']:
        model.spills += make_spill(s, sub)
    if c.get('first'):
        from gnome.weatherers import FayGravityViscous, Langmuir
        model.weatherers += [Langmuir(), FayGravityViscous()]
    model.add_weathering(c['weather'])
    for w in model.weatherers:
        if isinstance(w, NaturalDispersion):
            w.algorithm = c['alg']
    return model, sub, wind, water, waves


@contextmanager
def watching(classes, before_after):
    """call before_after(kind, sc, time_step, model_time, before, balance) after every weather_elements"""
    olds = {}
    try:
        for cls in classes:
            old = olds[cls] = cls.weather_elements

            def wrapped(self, sc, time_step, model_time, _old=old, _kind=cls.__name__):
                before = {k: sc[k].copy() for k in sc.data_arrays}
                bal = dict(sc.mass_balance)
                r = _old(self, sc, time_step, model_time)
                before_after(_kind, self, sc, time_step, model_time, before, bal)
                return r
            cls.weather_elements = wrapped
        yield
    finally:
        for cls, old in olds.items():
            cls.weather_elements = old


def ref_vapor_pressure(bp, temp):
    import numpy as np
    bp = np.asarray(bp, float)
    ds = 8.75 + 1.987 * np.log(bp)
    c2 = 0.19 * bp - 18
    return 101325.0 * np.exp(ds * (bp - c2) ** 2 / (0.97 * 1.987 * bp) * (1 / (bp - c2) - 1 / (temp - c2)))


CHANGES = {'Evaporation': {'mass_components', 'mass', 'frac_evap', 'frac_lost', 'evap_decay_constant'},
           'NaturalDispersion': {'mass_components', 'mass', 'droplet_avg_size'},
           'Emulsification': {'frac_water', 'interfacial_area', 'bulltime'},
           'FayGravityViscous': {'fay_area', 'area', 'max_area_le'},
           'Langmuir': {'frac_coverage', 'area'}}


def ref_waves(c, U, rho_w):
    """rms wave height, breaking fraction, energy for wind speeds U"""
    import numpy as np
    U = np.asarray(U, float)
    if c['wh'] is None:
        ws = np.where(U < 4.433049525859078, 0.71 * U ** 1.23, U)
        H = 0.243 * ws * ws / G
        if c['fetch'] is not None:
            H = np.where(c['fetch'] < 2268 * ws ** 2, 0.0016 * np.sqrt(c['fetch'] / G) * ws, H)
        H = np.minimum(0.707 * H, 30)
        V = U
    else:
        V = np.full_like(U, pseudo(c['wh']))
        H = np.full_like(U, 0.707 * c['wh'])
    tm = 0.03742857 * c['sal'] + 2.54
    fw = 0.5 * np.where(V < 4, 0.0125 * V, 0.01 * V + 0.01) / tm
    return H, np.minimum(fw, 1), 0.0034 * rho_w * G * H ** 2


def pseudo(h):
    u = math.sqrt(G * h / 0.243)
    return (u / 0.71) ** 0.813008 if u < 4.433049525859078 else u


def check_run(c, ctx, only=None):
    import numpy as np
    from gnome.basic_types import oil_status
    from gnome.weatherers import Emulsification, Evaporation, FayGravityViscous, Langmuir, NaturalDispersion
    model, sub, wind, water, waves = build(c, ctx.tmpdir())
    rho_w, visc_w = float(water.density), 1e-6
    seen = {}

    def speeds(sc, t, m):
        return np.asarray(wind.at(sc['positions'][m], t, coord_sys='r'), float).reshape(-1)

    def after(kind, w, sc, dt, t, b, bal):
        # floating: in the water (not on land, not gone over the edge) at the surface
        m = (b['status_codes'] == oil_status.in_water) & (b['positions'][:, 2] == 0) & (b['mass'] > 0)
        for k in sc.data_arrays:
            if k not in CHANGES[kind]:
                ctx.check(np.array_equal(sc[k], b[k], equal_nan=b[k].dtype.kind == 'f'), "%s changed the array %s", kind, k)
            else:
                ctx.check(np.array_equal(sc[k][~m], b[k][~m], equal_nan=True), "%s changed %s of elements that do not float", kind, k)
        if not m.any():
            return
        if not b['mass'][m].sum() > 0:
            return
        seen[kind] = seen.get(kind, 0) + 1
        n = int(m.sum())
        if kind == 'Evaporation':
            K = 0.0048 * np.maximum(speeds(sc, t, m), 1.0) ** 0.78
            vp = ref_vapor_pressure(sub.boiling_point, c['temp'])
            mw = np.asarray(sub.molecular_weight) / 1000.0
            mc = b['mass_components'][m]
            moles = (mc / mw).sum(1)
            with np.errstate(all='ignore'):
                X = np.maximum(2 * np.sqrt(b['area'][m] / b['vol_frac_le_st'][m] / np.pi), 1.0) ** (-1 / 9)
                rate = (b['area'][m] * (1 - b['frac_water'][m]) * K * X / (8.314 * c['temp'] * moles))[:, None] * vp \
                    * 1.380277 * (0.018 / mw) ** (1 / 3)
                want = mc * np.exp(-rate * dt)
            ok = (moles > 0) & np.isfinite(rate).all(1)
            ctx.close(sc['mass_components'][m][ok], want[ok], "masses after evaporation at %s" % t, rtol=1e-6, atol=1e-9 * b['init_mass'].max())
            ctx.check((sc['mass_components'] <= b['mass_components']).all(), "evaporation added mass")
            lost = mc - sc['mass_components'][m]
            ctx.close(sc.mass_balance['evaporated'] - bal['evaporated'], lost.sum(), "evaporated mass of the budget", rtol=1e-6,
                      atol=1e-9 * max(1e-9, bal['amount_released']))
            ctx.close(sc['frac_evap'][m], b['frac_evap'][m] + lost.sum(1) / b['init_mass'][m], "frac_evap", rtol=1e-7, atol=1e-12)
            ctx.close(sc['mass'][m], sc['mass_components'][m].sum(1), "mass", rtol=1e-9)
            ctx.close(sc['frac_lost'][m], 1 - sc['mass'][m] / b['init_mass'][m], "frac_lost", rtol=1e-7, atol=1e-12)
        elif kind == 'NaturalDispersion':
            H, fw, De = ref_waves(c, speeds(sc, t, m), rho_w)
            rho, Y, A, mass = b['density'][m], b['frac_water'][m], b['area'][m], b['mass'][m]
            th = np.where(A > 0, mass / rho / (1 - Y) / np.where(A > 0, A, 1), 0)
            Cd = De ** 0.57 * fw
            Roy = 2400 * np.exp(-73.682 * np.sqrt(b['viscosity'][m]))
            if c['alg'] == 'D&S1988':
                disp = Roy * Cd * 3.9e-8 * (1 - Y) * A * dt
            else:
                if not ((A > 0).all() and (rho < rho_w).all()):
                    return
                s = 3.5e-2
                d = 4 * np.sqrt(s / (G * (rho_w - rho)))
                we = rho_w * G * (H / 0.707) * d / s
                oh = b['viscosity'][m] * rho / np.sqrt(rho * s * d)
                disp = 0.11 * rho * th * fw * 4.604e-10 * we ** 1.805 * oh ** -1.023 * (1 - Y) * A * dt
            sp = (0.613 * th) ** 2 * G * (1 - rho / rho_w) / (18 * visc_w)
            ref = Roy * Cd * np.maximum(0.588 * (th ** 1.7 - 5e-8), 0) * A
            den = sp * dt + 1.5 * H
            with np.errstate(all='ignore'):
                q = 1.6 * 1e-4 * np.sqrt(H * De * fw / (rho_w * visc_w)) * (ref * dt / den) * c['sed']
            sed = np.where((c['sed'] > 0) & (th >= 1e-4) & (den > 0), (1 - Y) * q * dt, 0)
            tot = disp + sed
            over = tot > mass
            disp = np.where(over, disp / np.where(over, tot, 1) * mass, disp)
            sed = np.where(over, mass - disp, sed)
            atol = 1e-9 * max(1e-9, bal['amount_released'])
            ctx.close(sc.mass_balance['natural_dispersion'] - bal['natural_dispersion'], disp.sum(), "dispersed mass", rtol=1e-6, atol=atol)
            ctx.close(sc.mass_balance['sedimentation'] - bal['sedimentation'], sed.sum(), "sedimented mass", rtol=1e-6, atol=atol)
            f = (mass.sum() - disp.sum() - sed.sum()) / mass.sum()
            ctx.close(sc['mass_components'][m], b['mass_components'][m] * max(f, 0), "masses after dispersion", rtol=1e-6,
                      atol=atol + 1e-6 * b['mass_components'][m].max())
            ctx.close(sc['mass'][m], sc['mass_components'][m].sum(1), "mass", rtol=1e-9)
        elif kind == 'Emulsification':
            ymax, bt, bf = sub.emulsion_water_fraction_max, sub.bullwinkle_time, sub.bullwinkle_fraction
            if ymax <= 0:
                ctx.check(np.array_equal(sc['frac_water'], b['frac_water']), "an oil that cannot emulsify took up water")
                return
            U = speeds(sc, t, m)
            if c['wh'] is not None:
                U = np.maximum(U, pseudo(c['wh']))
            k = 6 * 2.02e-6 * U * U / 1e-5
            smax = 6 / 1e-6 * ymax / (1 - ymax)
            age = b['age'][m].astype(float)
            if bt >= 0:
                on = age >= bt * 3600
            else:
                on = (b['frac_evap'][m] >= bf) & (bf >= 0)
            first = np.where(b['bulltime'][m] < 0, age, b['bulltime'][m])
            start = np.full(n, bt * 3600.0) if bt > 0 else first
            S = np.where(on, np.minimum(b['interfacial_area'][m] + k * dt * np.exp(-k / smax * (age - start)), smax), 0)
            Y = np.where(S < 6 / 1e-5 * ymax / (1 - ymax), S * 1e-5 / (6 + S * 1e-5), ymax)
            ctx.close(sc['interfacial_area'][m], S, "interfacial area at %s" % t, rtol=1e-7)
            ctx.close(sc['frac_water'][m], Y, "water fraction at %s" % t, rtol=1e-7)
            ctx.check((sc['frac_water'] <= ymax * (1 + 1e-12)).all() and (sc['frac_water'] >= 0).all(), "water fraction outside [0, %s]", ymax)
            mass = b['mass'][m]
            ctx.close(sc.mass_balance['water_content'], (mass * Y).sum() / mass.sum(), "water content of the budget", rtol=1e-7)
            if (Y > 0).any():
                ctx.label('emulsified')
        elif kind == 'FayGravityViscous':
            v0 = float(sub.kvis_at_temp(c['temp']))
            lim = 1e-4 if v0 >= 1e-4 else (1e-5 if v0 < 1e-6 else 1e-5 + 0.9091 * (v0 - 1e-6))
            mx = b['init_mass'][m] / b['density'][m] / lim
            ctx.close(sc['max_area_le'][m], mx, "largest area of an element", rtol=1e-7)
            buoy = (rho_w - sub.standard_density) / rho_w
            a, vf, vol = b['fay_area'][m], b['vol_frac_le_st'][m], b['bulk_init_volume'][m]
            age = b['age'][m] + dt
            t0 = (1.21 / 1.53) ** 4 * (vol / (visc_w * G * buoy)) ** (1 / 3)
            spn = b['spill_num'][m]
            lo = np.zeros(n)
            hi = np.zeros(n)
            for s in np.unique(spn):
                lo[spn == s], hi[spn == s] = t0[spn == s].min(), t0[spn == s].max()
            grow = (a < mx) & (a > 0)
            with np.errstate(all='ignore'):
                C = math.pi * w.spreading_const[2] ** 2 * (vol ** 2 * G * buoy / math.sqrt(visc_w)) ** (1 / 3)
                Kd = 8 * math.pi * .033
                B = a / vf
                new = np.minimum(a + vf * (0.5 * C * C / B + 7 / 6 * Kd * (B / Kd) ** (1 / 7)) * dt, mx)
            got = sc['fay_area'][m]
            ctx.check((got >= a).all(), "an element's area shrank while spreading")
            late, early = age > hi * 1.000001, age < lo * 0.999999
            ctx.close(got[late & grow], new[late & grow], "spreading area at %s" % t, rtol=1e-6)
            ctx.check(np.array_equal(got[early | ~grow], a[early | ~grow]), "the area grew before the first phase was over, or beyond its limit")
            ctx.check(np.array_equal(sc['area'][m], got), "area differs from the Fay area before Langmuir")
        elif kind == 'Langmuir':
            fc = sc['frac_coverage'][m]
            ctx.check(((fc >= 0.1) & (fc <= 1)).all(), "fraction covered %s outside [0.1, 1]", fc)
            ctx.close(sc['area'][m], sc['fay_area'][m] * fc, "area of the covered fraction", rtol=1e-9)
            vmax = 0.005 * speeds(sc, t, m).max()
            for s in np.unique(b['spill_num'][m]):
                q = b['spill_num'][m] == s
                vols = b['bulk_init_volume'][m][q]
                if (vols == vols[0]).all() and b['fay_area'][m][q].sum() > 0:
                    th = vols[0] / b['fay_area'][m][q].sum()
                    rb = (rho_w - b['density'][m][q]) / rho_w
                    with np.errstate(all='ignore'):
                        want = np.clip(np.nan_to_num((4 * th * rb * G / (vmax ** 2 * math.pi ** 2)) ** (1 / 3), nan=0.1), 0.1, 1)
                    pos = rb > 1e-9
                    ctx.close(fc[q][pos], want[pos], "fraction covered by Langmuir cells at %s" % t, rtol=1e-6)

    prev = None
    kr = float(sub.density_at_temp(c['temp'])) / float((sub.component_density * sub.mass_fraction).sum())
    v0 = float(sub.kvis_at_temp(c['temp']))
    kv1 = min(max(1500 * math.sqrt(v0), 1), 10)
    with watching((Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Langmuir), after):
        for k in range(c['n'] + 1):
            model.step()
            sc = model.spills.items()[0]
            if not len(sc):
                continue
            for name in ('mass', 'density', 'viscosity', 'frac_evap', 'frac_water', 'area', 'fay_area'):
                if name in sc:
                    ctx.check(np.isfinite(sc[name]).all(), "step %d: %s is not finite: %s", k, name, sc[name])
            # state properties follow composition and water content
            m = (sc['status_codes'] == oil_status.in_water) & (sc['positions'][:, 2] == 0) & (sc['mass'] > 1e-250)
            if m.any() and k:
                oil = kr * (sub.component_density * sc['mass_components'][m]).sum(1) / sc['mass'][m]
                ctx.close(sc['density'][m], np.minimum(sc['frac_water'][m] * rho_w + (1 - sc['frac_water'][m]) * oil, rho_w),
                          "density after step %d" % k, rtol=1e-7)
                y = sc['frac_water'] / 0.84
                ctx.close(sc['viscosity'], v0 * np.exp(kv1 * sc['frac_evap']) * (1 + y / (1.187 - y)) ** 2.49,
                          "viscosity after step %d" % k, rtol=1e-7)
            tot = sc['mass'].sum()
            if tot > 1e-250:      # (less is rounding)
                ctx.close(sc.mass_balance['avg_density'], (sc['mass'] * sc['density']).sum() / tot, "avg_density", rtol=1e-7)
                ctx.close(sc.mass_balance['avg_viscosity'], (sc['mass'] * sc['viscosity']).sum() / tot, "avg_viscosity", rtol=1e-7)
            fl = (sc['status_codes'] == oil_status.in_water) & (sc['positions'][:, 2] == 0)
            ctx.close(sc.mass_balance['floating'], sc['mass'][fl].sum(), "floating", rtol=1e-7, atol=1e-12)
    for k in seen:
        ctx.label(k)
    ctx.nontrivial(len(seen) >= 3)


@facet('C12', run_case(), quick=200, budget=60,
       rule="runs of 2-8 steps; every call of a weathering process is compared with an independent computation from the state before it; non-trivial: three processes acted on floating oil")
def equations(c, ctx):
    check_run(c, ctx)


# ---------------------------------------------------------------- relations between runs
@st.composite
def pair_case(draw):
    c = draw(run_case(kinds=('point',)))
    c['spills'] = c['spills'][:draw(st.integers(1, 2))]
    for s in c['spills']:
        s['pos'] = s['pos'][:2] + (0.0,)
        s['n'] = draw(st.integers(1, 6))
    c['map'], c['diff'] = 'none', 0.0
    c['rel'] = draw(st.sampled_from(['elements', 'elements', 'order', 'wind', 'temperature', 'twice', 'alone', 'place', 'clock']))
    c['k'] = draw(st.sampled_from([2, 3, 7]))
    c['perm'] = draw(st.permutations([0, 1, 2]))
    c['const'] = draw(grid(0, 20, 20))
    c['more'] = draw(st.sampled_from([0.5, 2.0, 8.0]))
    return c


def budgets(c, ctx, shift=0):
    import numpy as np
    model = build(c, ctx.tmpdir())[0]
    if shift:
        d = timedelta(seconds=shift)
        model.start_time = model.start_time + d
        for s in model.spills:
            s.release_time = s.release_time + d
    out = []
    for k in range(c['n'] + 1):
        model.step()
        sc = model.spills.items()[0]
        b = {q: float(v) for q, v in sc.mass_balance.items()}
        b['area'] = float(sc['area'].sum()) if 'area' in sc else 0.0
        b['wet'] = float((sc['frac_water'] * sc['mass']).sum()) if 'frac_water' in sc else 0.0
        out.append(b)
    return out


@facet('C12', pair_case(), quick=130, budget=60,
       rule="pairs of runs that must agree (more elements for the same oil, processes added in another order, the same spill twice, alone or beside another, elsewhere, at another date) or be ordered (more wind, warmer water); non-trivial: oil was weathered")
def relations(c, ctx):
    import copy
    import numpy as np
    a = budgets(c, ctx)
    rel = c['rel']
    d = copy.deepcopy(c)
    keys = [k for k in a[-1] if k not in ('standard_density',)]
    factor = 1.0
    shift = 0
    ctx.label(rel)
    ctx.nontrivial(a[-1].get('evaporated', 0) + a[-1].get('natural_dispersion', 0) > 0)
    if rel == 'elements':
        for s in d['spills']:
            s['n'] *= c['k']
    elif rel == 'order':
        d['weather'] = [c['weather'][i] for i in c['perm'] if i < len(c['weather'])]
        d['first'] = 'evaporation' in c['weather'] or 'dispersion' in c['weather']      # (emulsification alone needs no area)
    elif rel == 'twice':
        d['spills'] = d['spills'] + copy.deepcopy(d['spills'])
        factor = 2.0
    elif rel == 'place':
        for s in d['spills']:
            s['pos'] = (s['pos'][0] + 37.0, s['pos'][1] + 11.0, 0.0)
    elif rel == 'clock':
        d['wind'] = dict(c['wind'], t=[0], r=c['wind']['r'][:1], d=c['wind']['d'][:1])
        a = budgets(d, ctx)
        shift = 86400 * 137
    elif rel == 'alone':
        if 'dispersion' in c['weather']:
            return        # dispersed oil is taken from all floating elements alike
        # other spills do not change how a spill spreads and evaporates
        if len(c['spills']) < 2:
            return
        parts = [budgets(dict(c, spills=[s]), ctx) for s in c['spills']]
        for k in range(c['n'] + 1):
            for q in ('amount_released', 'evaporated', 'area', 'wet'):
                ctx.close(a[k].get(q, 0.0), sum(p[k].get(q, 0.0) for p in parts), "%s of spills together and alone, step %d" % (q, k), rtol=1e-6, atol=1e-9)
        return
    else:
        base = dict(c, wind={'t': [0], 'r': [c['const']], 'd': [90.0], 'units': 'm/s'}, weather=['evaporation'], wh=None)
        more = copy.deepcopy(base)
        if rel == 'wind':
            more['wind']['r'] = [c['const'] + c['more']]
        else:
            more['temp'] = base['temp'] + c['more']
        x, y = budgets(base, ctx), budgets(more, ctx)
        for k in range(c['n'] + 1):
            if rel == 'wind' and any(y[j]['area'] < x[j]['area'] for j in range(k + 1)):
                break      # Langmuir cells gather the oil: less area to evaporate from
            if rel == 'temperature' and y[k]['area'] != x[k]['area']:
                break      # warmer oil has another thickness limit and density
            ctx.check(y[k].get('evaporated', 0) >= x[k].get('evaporated', 0) * (1 - 1e-9), "step %d: %s kg evaporated, but %s kg with more %s", k, x[k].get('evaporated'), y[k].get('evaporated'), rel)
        return
    b = budgets(d, ctx, shift)
    gone = False
    for k in range(c['n'] + 1):
        # the composition of what is left of nearly no oil is rounding
        gone = gone or k > 0 and a[k]['floating'] < 1e-3 * a[k]['amount_released']
        for q in keys:
            if gone and q in ('avg_density', 'avg_viscosity', 'water_content', 'area', 'wet'):
                continue
            f = 1.0 if q in ('avg_density', 'avg_viscosity', 'water_content') else factor
            if q in a[k] or q in b[k]:
                ctx.close(b[k].get(q, 0.0), f * a[k].get(q, 0.0), "%s at step %d (%s)" % (q, k, rel), rtol=1e-6, atol=1e-7 * a[-1]['amount_released'] if q not in ('avg_density', 'avg_viscosity', 'water_content') else 1e-12)


@st.composite
def half_case(draw):
    return {'hl': draw(st.sampled_from([60.0, 900.0, 3600.0, 1e5])), 'dt': draw(st.sampled_from([60, 900, 3600])),
            'n': draw(st.integers(1, 10)), 'els': draw(st.integers(1, 5)), 'oil': draw(st.sampled_from(OILS)), 'sub': draw(st.sampled_from([1, 2, 7])),
            'amount': draw(st.sampled_from([1.0, 500.0])), 'hl2': draw(st.sampled_from([None, 1800.0]))}


@facet('C12', half_case(), quick=120, budget=30,
       rule="runs with half-life decay for generated half-lives, steps and substeps; non-trivial: all")
def half_lives(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.weatherers import HalfLifeWeatherer
    model = gs.Model(start_time=T0, duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], weathering_substeps=c['sub'])
    w = gs.constant_wind(3, 90)
    model.environment += [w, gs.Water(290.0)]
    model.spills += gs.point_line_spill(num_elements=c['els'], start_position=(0, 0, 0), release_time=T0, amount=c['amount'], units='kg',
                                        substance=gs.GnomeOil(c['oil']))
    hls = [c['hl']] + ([c['hl2']] if c['hl2'] else [])
    for h in hls:
        model.weatherers += HalfLifeWeatherer(half_lives=[h])
    model.step()
    sc = model.spills.items()[0]
    comp0 = sc['mass_components'].copy()
    for k in range(1, c['n'] + 1):
        model.step()
        t = c['dt'] * k
        f = np.prod([0.5 ** (t / h) for h in hls])
        sc = model.spills.items()[0]
        # the first step's elements are already there: they decay from the first whole step on
        ctx.close(sc['mass_components'] / (comp0 + (comp0 == 0)), np.where(comp0 > 0, f, 0) if k else 1, "share left after %d s with half-lives %s" % (t, hls), rtol=1e-6)
        ctx.close(sc['mass'], sc['mass_components'].sum(1), "mass", rtol=1e-9)
    ctx.nontrivial()
