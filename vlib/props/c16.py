"""C16: outputs are written at the scheduled steps and hold the elements of those steps."""
import csv
import glob
import json
import math
import os
import re
import struct
import zipfile
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vlib.gen import grid
from vlib.engine import facet
from vlib import scen
from vlib.gen import T0, when


def fd(**kw):
    return st.fixed_dictionaries(kw)


def schedule_spec(dt, n, back=False):
    """start: offset of output_start_time in units of half steps (>= 0), or None"""
    return fd(zero=st.booleans(), last=st.booleans(), single=st.sampled_from([False, False, True]),
              every=st.one_of(st.none(), st.sampled_from([dt // 2 or 1, dt, dt + dt // 2, 2 * dt, 2 * dt + 7, 3 * dt, 5 * dt, n * dt])),
              start=st.one_of(st.none(), st.none(), st.integers(0, 2 * n + 2)), on=st.sampled_from([True, True, True, True, False]))


def sched_kw(s, dt, back=False):
    kw = dict(output_zero_step=s['zero'], output_last_step=s['last'], output_single_step=s['single'], on=s['on'])
    if s['every'] is not None:
        kw['output_timestep'] = timedelta(seconds=s['every'])
    if s['start'] is not None:
        off = s['start'] * dt // 2
        kw['output_start_time'] = when(-off if back else off)
    return kw


def expected(s, dt, nsteps):
    """the steps (0 .. nsteps-1) at which an outputter with schedule s writes"""
    if not s['on']:
        return []
    first = 0        # the step output starts with
    if s['start'] is not None:
        first = -(-(s['start'] * dt // 2) // dt)
    out = set()
    for k in range(nsteps):
        if k == 0:
            if s['zero'] or (s['single'] and first == 0):
                out.add(0)
        elif k == nsteps - 1 and s['last']:
            out.add(k)
        elif k < first:
            pass
        elif first > 0 and k == first:
            out.add(k)
        elif s['single']:
            pass
        elif s['every'] is None:
            out.add(k)
        elif (k - first) * dt // s['every'] > (k - 1 - first) * dt // s['every']:
            out.add(k)
    return sorted(out)


@st.composite
def schedule_case(draw):
    dt = draw(st.sampled_from([60, 300, 600, 900, 1000, 3600]))
    n = draw(st.integers(1, 12))
    return {'dt': dt, 'n': n, 'back': draw(st.booleans()), 'outs': draw(st.lists(schedule_spec(dt, n), min_size=1, max_size=4)),
            'stop': draw(st.one_of(st.none(), st.integers(0, 8))), 'unc': draw(st.booleans())}


def recorder():
    from gnome.outputters import Outputter

    class Recorder(Outputter):
        def write_output(self, step_num, islast_step=False):
            super().write_output(step_num, islast_step)
            if self.on and self._write_step:
                sc = self.cache.load_timestep(step_num).items()[0]
                self.log.append((step_num, sc.current_time_stamp))
                return {'n': step_num}
            return None

        def rewind(self):
            super().rewind()
            self.log = []
    return Recorder


@facet('C16', schedule_case(), quick=500, rule="non-trivial: an outputter that skips some steps and writes others")
def schedule(case, ctx):
    import gnome.scripting as gs
    R = recorder()
    dt, n, back = case['dt'], case['n'], case['back']
    m = gs.Model(start_time=T0, duration=timedelta(seconds=dt * n), time_step=dt, run_backwards=back, uncertain=case['unc'])
    outs = [R(**sched_kw(s, dt, back)) for s in case['outs']]
    m.outputters += outs
    want = [expected(s, dt, n + 1) for s in case['outs']]
    ctx.nontrivial(any(0 < len(w) < n + 1 for w in want))
    sign = -1 if back else 1

    def verify(what):
        for s, o, w in zip(case['outs'], outs, want):
            ctx.equal([k for k, _ in o.log], w, "%s: steps written by an outputter with %s" % (what, s))
            for k, t in o.log:
                ctx.equal(t, when(sign * k * dt), "time of step %d" % k)
    if case['stop'] is not None:         # a run that is given up and started over
        scen.run_all(m, case['stop'])
        m.rewind()
    scen.run_all(m)
    verify('run')
    m.rewind()
    scen.run_all(m)
    verify('second run')


@facet('C16', schedule_case(), quick=250, rule="non-trivial: an outputter that skips some steps and writes others")
def post_run(case, ctx):
    """output written afterwards from the cache is the output of the run"""
    import gnome.scripting as gs
    R = recorder()
    dt, n, back = case['dt'], case['n'], case['back']
    m = gs.Model(start_time=T0, duration=timedelta(seconds=dt * n), time_step=dt, run_backwards=back, uncertain=case['unc'], cache_enabled=True)
    scen.run_all(m)
    sign = -1 if back else 1
    for s in case['outs']:
        if not s['on']:
            continue
        w = expected(s, dt, n + 1)
        ctx.nontrivial(0 < len(w) < n + 1)
        o = R(**sched_kw(s, dt, back))
        o.write_output_post_run(model_start_time=m.start_time, model_time_step=m.time_step, num_time_steps=m.num_time_steps,
                                cache=m._cache, uncertain=m.uncertain, spills=m.spills)
        ctx.equal([k for k, _ in o.log], w, "steps written after the run by an outputter with %s" % s)
        for k, t in o.log:
            ctx.equal(t, when(sign * k * dt), "time of step %d" % k)


SC = st.one_of(scen.weathering_scenario(max_steps=5, max_n=8, max_spills=2), scen.transport_scenario(max_steps=6, max_n=10))


@st.composite
def output_case(draw, **kw):
    c = draw(SC)
    return {'c': c, 's': draw(schedule_spec(c['dt'], c['n']).map(lambda s: dict(s, on=True))), 'o': draw(fd(**kw)),
            'before': draw(st.sampled_from([None, None, 1, 1, 2, 3, 99]))}


def run_with(case, ctx, outs, **kw):
    """run the scenario with the outputters; -> model, per step (time, snapshot, budget), returned infos"""
    tmp = ctx.tmpdir()
    m = scen.make_model(case['c'], tmp, **kw)
    m.outputters += outs
    if case.get('before') is not None:      # an earlier run, given up after some steps or complete
        scen.run_all(m, case['before'])
        m.rewind()
        ctx.label('second run')
    res, infos = [], []
    while True:
        try:
            info = m.step()
        except StopIteration:
            break
        infos.append(info)
        res.append((m.model_time, scen.snapshot(m), scen.budget_of(m)))
    return m, res, infos


def surface(sn):
    """surface concentration of the elements of a snapshot"""
    import warnings
    from gnome.utilities.surface_concentration import compute_surface_concentration
    sc = {k: v.copy() for k, v in sn.items()}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compute_surface_concentration(sc, 'kde')
    return sc['surface_concentration']


def same_num(a, b, tol=0.0):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


@facet('C16', output_case(which=st.sampled_from(['standard', 'most', 'all']), compress=st.booleans(), zip=st.booleans(),
                          conc=st.sampled_from([None, 'kde'])), quick=90, rule="non-trivial: at least two steps with elements are written")
def netcdf(case, ctx):
    import netCDF4
    import numpy as np
    from gnome.outputters import NetCDFOutput
    tmp = ctx.tmpdir()
    c, s, o = case['c'], case['s'], case['o']
    path = os.path.join(tmp, 'out.nc')
    out = NetCDFOutput(path, which_data=o['which'], compress=o['compress'], zip_output=o['zip'], surface_conc=o['conc'], **sched_kw(s, c['dt']))
    m, res, infos = run_with(case, ctx, [out])
    steps = expected(s, c['dt'], len(res))
    ctx.equal([k for k, i in enumerate(infos) if 'NetCDFOutput' in i], steps, "steps reported as written")
    ctx.nontrivial(sum(len(res[k][1][0]['mass']) > 0 for k in steps) >= 2)
    files = ['out.nc'] + (['out_uncertain.nc'] if c['unc'] else [])
    if o['zip']:
        with zipfile.ZipFile(os.path.join(tmp, 'out.zip')) as z:
            ctx.equal(sorted(z.namelist()), files, "members of the zip file")
            z.extractall(os.path.join(tmp, 'x'))
        ctx.check(not os.path.exists(path), "the file is left beside the zip file")
        tmp = os.path.join(tmp, 'x')
    for j, f in enumerate(files):
        p = os.path.join(tmp, f)
        with netCDF4.Dataset(p) as d:
            d.set_auto_mask(False)
            v = d.variables
            times = [t for t in netCDF4.num2date(v['time'][:], v['time'].units, v['time'].calendar)] if len(v['time']) else []
            ctx.equal([datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) for t in times], [res[k][0] for k in steps], "times in " + f)
            counts = [len(res[k][1][j]['mass']) for k in steps]
            ctx.equal([int(x) for x in v['particle_count'][:]], counts, "element counts in " + f)
            names = set(v) - {'time', 'particle_count'}
            must = {'latitude', 'longitude', 'depth', 'status_codes', 'spill_num', 'id', 'mass', 'age'}
            have = set(res[-1][1][j])
            if o['which'] == 'all':
                must |= have - {'positions'}
            must |= {'density', 'viscosity', 'frac_water'} & have
            ctx.check(must <= names, "arrays missing in %s: %s", f, sorted(must - names))
            at = 0
            for k, cnt in zip(steps, counts):
                snap = res[k][1][j]
                for name in sorted(names):
                    got = v[name][at:at + cnt]
                    if name in ('longitude', 'latitude', 'depth'):
                        want = snap['positions'][:, ('longitude', 'latitude', 'depth').index(name)]
                    elif name == 'surface_concentration':
                        if j == 0 and o['conc']:
                            ctx.check(same_num(got, surface(snap), 1e-6 * max(1e-9, abs(got).max(initial=0))), "surface concentration in %s for step %d is %s, should be %s", f, k, got[:5], surface(snap)[:5])
                        continue
                    else:
                        want = snap[name]
                    ctx.check(got.shape == want.shape and np.array_equal(got, want.astype(got.dtype), equal_nan=got.dtype.kind == 'f'),
                              "%s in %s for step %d is %s, should be %s", name, f, k, got[:5], want[:5])
                at += cnt
            for name in sorted(names):
                ctx.equal(len(v[name]), at, "length of %s in %s" % (name, f))
            if 'mass_balance' in d.groups:
                g = d.groups['mass_balance'].variables
                for i, k in enumerate(steps):
                    for key, val in res[k][2][j].items():
                        ctx.check(key in g, "mass balance %s is missing in %s", key, f)
                        ctx.check(same_num(g[key][i], val), "mass balance %s in %s for step %d is %r, should be %r", key, f, k, float(g[key][i]), val)
        for i, k in enumerate(steps):
            a1, w1 = NetCDFOutput.read_data(p, index=i, which_data='all')
            a2, w2 = NetCDFOutput.read_data(p, time=res[k][0], which_data='standard')
            for a in (a1, a2):
                ctx.check(np.array_equal(a['positions'], res[k][1][j]['positions']), "read_data: positions of step %d are %s", k, a['positions'][:3])
                ctx.check(np.array_equal(a['id'], res[k][1][j]['id']), "read_data: ids of step %d are %s", k, a['id'][:5])
                t = a['current_time_stamp'].item()
                ctx.equal(datetime(t.year, t.month, t.day, t.hour, t.minute, t.second), res[k][0], "read_data: time of step %d" % k)


def boundary(sns, separate, ratio):
    """the boundary around the elements of the snapshots"""
    from gnome.utilities.hull import calculate_hull
    return calculate_hull(list(sns), ratio=ratio, separate_by_spill=separate)['hulls']


def same_shape(ctx, a, b, what, tol=1e-9):
    ctx.check(a.symmetric_difference(b).area <= tol * b.area, "%s is %s, should be %s", what, a.wkt[:200], b.wkt[:200])


def dec(x, n):
    import numpy as np
    return np.around(np.asarray(x, dtype=float), n)


@facet('C16', output_case(kinds=st.sets(st.sampled_from(['geojson', 'spilljson', 'weathering', 'budget', 'binary', 'kmz']), min_size=1),
                          round_to=st.integers(1, 5), zip=st.booleans(), conc=st.sampled_from([None, None, 'kde']),
                          extra=st.sets(st.sampled_from(['age', 'depth', 'windages', 'surface_concentration', 'viscosity', 'density', 'frac_water'])), bounds=st.booleans()),
       quick=130, rule="non-trivial: at least two steps with elements are written")
def formats(case, ctx):
    """geojson, json, weathering, oil budget, binary and kmz outputs of one run"""
    import numpy as np
    from gnome.outputters import BinaryOutput, KMZOutput, OilBudgetOutput, SpillJsonOutput, TrajectoryGeoJsonOutput, WeatheringOutput
    tmp = ctx.tmpdir()
    c, s, o = case['c'], case['s'], case['o']
    kw = dict(sched_kw(s, c['dt']), surface_conc=o['conc'])
    outs = []
    d = {}
    for k in sorted(o['kinds']):
        d[k] = os.path.join(tmp, k)
        os.makedirs(d[k])
        if k == 'geojson':
            outs.append(TrajectoryGeoJsonOutput(round_to=o['round_to'], output_dir=d[k], **kw))
        elif k == 'spilljson':
            has = {'age', 'depth', 'windages'} | ({'surface_concentration'} if o['conc'] else set()) | ({'viscosity', 'density'} if 'weather' in c else set()) | ({'frac_water'} if 'emulsification' in c.get('weather', ()) else set())
            extra = sorted(o['extra'] & has)
            outs.append(SpillJsonOutput(_additional_data=extra, include_uncertain_bounds=o['bounds'], **kw))
        elif k == 'weathering':
            outs.append(WeatheringOutput(output_dir=d[k], **kw))
        elif k == 'budget':
            bkw = {'output_timestep': kw['output_timestep']} if 'output_timestep' in kw else {}
            outs.append(OilBudgetOutput(os.path.join(d[k], 'budget.csv'), **bkw))
        elif k == 'binary':
            outs.append(BinaryOutput(os.path.join(d[k], 'bin.dat'), zip_output=o['zip'], **kw))
        elif k == 'kmz':
            outs.append(KMZOutput(os.path.join(d[k], 'out.kmz'), **kw))
        ctx.label(k)
    m, res, infos = run_with(case, ctx, outs)
    steps = expected(s, c['dt'], len(res))
    ctx.nontrivial(sum(len(res[k][1][0]['mass']) > 0 for k in steps) >= 2)
    nsc = 2 if c['unc'] else 1
    if 'geojson' in d:
        ctx.equal([k for k, i in enumerate(infos) if 'TrajectoryGeoJsonOutput' in i], steps, "geojson: steps")
        for k in steps:
            info = infos[k]['TrajectoryGeoJsonOutput']
            ctx.equal(info['time_stamp'], res[k][0].isoformat(), "geojson: time")
            filed = []
            for nm in ('geojson_%06d.geojson', 'geojson_uncertain_%06d.geojson'):
                nm = os.path.join(d['geojson'], nm % k)
                if os.path.exists(nm):
                    with open(nm) as fp:
                        filed.append(json.load(fp))
            for j, what in enumerate(['certain', 'uncertain']):
                if j < nsc and len(res[k][1][j]['mass']):
                    ctx.check(len(filed) > j, "geojson: no file of the %s elements of step %d", what, k)
                fc = [json.loads(json.dumps(info[what]))] + filed[j:j + 1]
                if j >= nsc:
                    ctx.equal(len(fc[0]['features']), 0, "geojson: uncertain elements of a certain run")
                    continue
                sn = res[k][1][j]
                for x in fc:
                    ft = x['features']
                    ctx.equal(len(ft), len(sn['mass']), "geojson: number of %s elements in step %d" % (what, k))
                    ctx.equal([f['geometry']['coordinates'] for f in ft], dec(sn["positions"][:, :2], o["round_to"]).tolist(),
                              "geojson: %s positions in step %d" % (what, k))
                    ctx.equal([f['properties']['status_code'] for f in ft], sn['status_codes'].tolist(), "geojson: status")
                    ctx.equal([f['properties']['spill_num'] for f in ft], sn['spill_num'].tolist(), "geojson: spill")
                    ctx.equal([f['properties']['mass'] for f in ft], dec(sn['mass'], o['round_to']).tolist(), "geojson: mass")
        ctx.equal(len(glob.glob(os.path.join(d['geojson'], '*_??????.geojson'))) >= len(steps), True, "geojson: files")
    if 'spilljson' in d:
        ctx.equal([k for k, i in enumerate(infos) if 'SpillJsonOutput' in i], steps, "spill json: steps")
        for k in steps:
            info = json.loads(json.dumps(infos[k]['SpillJsonOutput']))
            ctx.equal(info['step_num'], k, "spill json: step")
            ctx.equal(info['time_stamp'], res[k][0].isoformat(), "spill json: time")
            ctx.equal(len(info['uncertain']), nsc - 1, "spill json: uncertain")
            for j, x in enumerate([info['certain'][0]] + info['uncertain']):
                sn = res[k][1][j]
                ctx.equal(x['length'], len(sn['mass']), "spill json: length")
                ctx.equal(x['longitude'], dec(sn['positions'][:, 0], 5).tolist(), "spill json: longitude")
                ctx.equal(x['latitude'], dec(sn['positions'][:, 1], 5).tolist(), "spill json: latitude")
                ctx.equal(x['status'], sn['status_codes'].tolist(), "spill json: status")
                ctx.equal(x['mass'], dec(sn['mass'], 4).tolist(), "spill json: mass")
                ctx.equal(x['spill_num'], sn['spill_num'].tolist(), "spill json: spill")
                for e in extra:
                    want = sn['positions'][:, 2] if e == 'depth' else surface(sn) if e == 'surface_concentration' else sn[e]
                    if e == 'surface_concentration':
                        if j == 0:
                            ctx.check(same_num(x[e], want, 2e-8), "spill json: surface concentration of step %d is %s, should be %s", k, x[e][:5], want[:5])
                    else:
                        ctx.equal(x[e], dec(want, 8 if e == 'viscosity' else 4).tolist(), "spill json: " + e)
            if o['bounds'] and nsc == 2:
                got = info['uncertain_bounds'][0]
                want = boundary(res[k][1], True, 0.8)
                ctx.equal((got['length'], len(got['bounds'])), (len(want), len(want)), "spill json: number of bounds of step %d" % k)
                from shapely.geometry import shape
                for a, b in zip(got['bounds'], want):
                    same_shape(ctx, shape(a), b, "spill json: bounds of step %d" % k)
            else:
                ctx.equal(info['uncertain_bounds'], [], "spill json: bounds")
    if 'weathering' in d:
        ctx.equal([k for k, i in enumerate(infos) if 'WeatheringOutput' in i], steps, "weathering: steps")
        ctx.equal(sorted(os.listdir(d['weathering'])), ['mass_balance_%06d.json' % k for k in steps], "weathering: files")
        for k in steps:
            with open(os.path.join(d['weathering'], 'mass_balance_%06d.json' % k)) as fp:
                filed = json.load(fp)
            for x in (filed, infos[k]['WeatheringOutput']):
                ctx.equal(x['time_stamp'], res[k][0].isoformat(), "weathering: time")
                for key, val in res[k][2][0].items():
                    ctx.check(key in x and (x[key] == val or val != val), "weathering: %s of step %d is %r, should be %r", key, k, x.get(key), val)
    if 'budget' in d:
        want = expected(dict(s, zero=True, last=True, single=False, start=None), c['dt'], len(res))
        import gc
        gc.collect()
        with open(os.path.join(d['budget'], 'budget.csv'), newline='') as fp:
            rows = list(csv.reader(fp))
        ctx.equal(len(rows) - 1, len(want), "budget: number of rows")
        for row, k in zip(rows[1:], want):
            ctx.equal(row[0], res[k][0].strftime("%Y-%m-%d %H:%M"), "budget: time")
            ctx.check(abs(float(row[1]) - (res[k][0] - T0).total_seconds() / 3600) < 1 / 60, "budget: hours of step %d are %s", k, row[1])
            for x, cat in zip(row[2:], ['amount_released', 'evaporated', 'natural_dispersion', 'sedimentation', 'beached', 'floating', 'off_maps']):
                val = res[k][2][0].get(cat)
                if val is None:
                    ctx.equal(x, '', "budget: " + cat)
                else:
                    ctx.check(math.isclose(float(x), val, rel_tol=1e-7, abs_tol=1e-300) or val != val, "budget: %s of step %d is %s, should be %r", cat, k, x, val)
    if 'binary' in d:
        folder = d['binary']
        if o['zip']:
            with zipfile.ZipFile(os.path.join(folder, 'bin.zip')) as z:
                z.extractall(os.path.join(folder, 'x'))
            ctx.equal(sorted(os.listdir(folder)), ['bin.zip', 'x'] if z.namelist() else ['bin.zip'], "binary: files left beside the zip file")
            folder = os.path.join(folder, 'x')
        names = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
        ctx.equal(names, sorted(['binFORCST.%03d' % i for i in range(len(steps))] + (['binUNCRTN.%03d' % i for i in range(len(steps))] if nsc == 2 else [])), "binary: files")
        for i, k in enumerate(steps):
            for j, pre in enumerate(['binFORCST', 'binUNCRTN'][:nsc]):
                with open(os.path.join(folder, '%s.%03d' % (pre, i)), 'rb') as fp:
                    raw = fp.read()
                sn, t = res[k][1][j], res[k][0]
                name, dd, mm, yy, hh, mi, cur, ver, cnt = struct.unpack('>10s5hffi', raw[:32])
                ctx.equal((dd, mm, yy, hh, mi, cnt), (t.day, t.month, t.year, t.hour, t.minute, len(sn['mass'])), "binary: header of step %d" % k)
                ref = datetime(t.year - t.year % 4, 1, 1)
                hours = (t - ref).total_seconds() / 3600
                ctx.check(abs(cur - hours) <= 1e-6 * hours, "binary: time of step %d is %s h, should be %s", k, cur, hours)
                ctx.equal(len(raw), 32 + 32 * cnt, "binary: length of the file")
                for e in range(cnt):
                    lat, lon, rel, age, beach, nmap, pol, key = struct.unpack('>5f3i', raw[32 + 32 * e:64 + 32 * e])
                    ctx.check(math.isclose(lat, sn['positions'][e, 1], rel_tol=1e-6, abs_tol=1e-9) and math.isclose(-lon, sn['positions'][e, 0], rel_tol=1e-6, abs_tol=1e-9),
                              "binary: element %d of step %d is at %s, should be at %s", e, k, (-lon, lat), sn['positions'][e])
                    ctx.check(abs(rel - (hours - sn['age'][e] / 3600)) <= 3e-7 * hours, "binary: element %d of step %d released at %s h, should be %s", e, k, rel, hours - sn['age'][e] / 3600)
                    ctx.equal(beach, -50.0 if sn['status_codes'][e] == 3 else 0.0, "binary: beach height")
    if 'kmz' in d:
        with zipfile.ZipFile(os.path.join(d['kmz'], 'out.kmz')) as z:
            kml = [z.read(x).decode() for x in z.namelist() if x.endswith('.kml')][0]
        import xml.dom.minidom
        xml.dom.minidom.parseString(kml)
        got = []
        for fold in re.findall(r'<Folder>(.*?)</Folder>', kml, re.S):
            nm = re.search(r'<name>(.*?)</name>', fold).group(1)
            stamp, cert = nm.rsplit(':', 1)
            for pm in re.findall(r'<Placemark>(.*?)</Placemark>', fold, re.S):
                title = re.search(r'<name>(.*?)</name>', pm).group(1)
                begin = re.search(r'<begin>(.*?)</begin>', pm).group(1) + ' to ' + re.search(r'<end>(.*?)</end>', pm).group(1)
                pts = [tuple(x.split(',')[:2]) for x in re.findall(r'<coordinates>(.*?)</coordinates>', pm)]
                got.append((stamp, begin, cert, 'Beached' in title, pts))
        want = []
        for k in steps:
            for j in range(nsc):
                sn = res[k][1][j]
                for beached in (False, True):
                    p = sn['positions'][sn['status_codes'] == (3 if beached else 2)]
                    iso = res[k][0].isoformat()
                    end = (res[k][0] + timedelta(seconds=s['every'] if s['every'] else c['dt'])).isoformat()
                    want.append((iso, iso + ' to ' + end, 'Uncertainty' if j else 'Best Guess', beached, [('%.6f' % x[0], '%.6f' % x[1]) for x in p]))
        ctx.equal(len(got), len(want), "kmz: groups of points")
        for g, w in zip(got, want):
            ctx.equal(g, w, "kmz: step")


@facet('C16', output_case(zip=st.booleans(), conc=st.sampled_from([None, 'kde']), cb=st.booleans(), ub=st.booleans(), sep=st.booleans(), both=st.booleans(), off=st.sampled_from([None, -7.5, 3.0])),
       quick=45, rule="non-trivial: at least two steps with elements are written")
def shapefiles(case, ctx):
    import geopandas as gpd
    import numpy as np
    from gnome.outputters import ShapeOutput
    tmp = ctx.tmpdir()
    c, s, o = case['c'], case['s'], case['o']
    out = ShapeOutput(os.path.join(tmp, 'out.zip' if o['zip'] else 'out.shp'), zip_output=o['zip'] or c['unc'], surface_conc=o['conc'], timeoffset=o['off'],
                      include_certain_boundary=o['cb'] and (o['zip'] or c['unc']), certain_boundary_separate_by_spill=o['sep'],
                      include_uncertain_boundary=o['ub'] and (o['zip'] or c['unc']), uncertain_boundary_separate_by_spill=o['sep'],
                      include_certain_in_uncertain_boundary=o['both'], **sched_kw(s, c['dt']))
    m, res, infos = run_with(case, ctx, [out])
    steps = expected(s, c['dt'], len(res))
    ctx.equal([k for k, i in enumerate(infos) if 'ShapeOutput' in i], steps, "steps reported")
    ctx.nontrivial(sum(len(res[k][1][0]['mass']) > 0 for k in steps) >= 2)
    tot = [sum(len(res[k][1][j]['mass']) for k in steps) for j in range(2 if c['unc'] else 1)]
    if c['unc'] or (o['zip'] and o['cb']):
        with zipfile.ZipFile(os.path.join(tmp, 'out.zip')) as z:
            names = sorted(z.namelist())
            z.extractall(os.path.join(tmp, 'x'))
        want = ['out_certain.zip'] + ['out_certain_boundary.zip'] * o['cb'] + ['out_uncertain.zip'] * c['unc'] + ['out_uncertain_boundary.zip'] * (c['unc'] and o['ub'])
        ctx.equal(names, sorted(want), "members of the bundle")
        files = [os.path.join(tmp, 'x', f) for f in (['out_certain.zip', 'out_uncertain.zip'] if c['unc'] else ['out_certain.zip'])]
        for on, f, parts, ratio in ((o['cb'], 'out_certain_boundary.zip', slice(0, 1), 0.5), (c['unc'] and o['ub'], 'out_uncertain_boundary.zip', slice(0, 2) if o['both'] else slice(1, 2), 0.5)):
            if not on:
                continue
            g = gpd.read_file(os.path.join(tmp, 'x', f))
            want = [(k, h) for k in steps for h in boundary(res[k][1][parts], o['sep'], ratio)]
            ctx.equal(len(g), len(want), "boundaries in " + f)
            for i, (k, h) in enumerate(want):
                same_shape(ctx, g.iloc[i].geometry, h, "boundary of step %d in %s" % (k, f), 1e-6)
                ctx.equal(str(g.iloc[i]['time'])[:19].replace(' ', 'T'), res[k][0].strftime('%Y-%m-%dT%H:%M:%S'), "time of the boundary of step %d in %s" % (k, f))
                if o['off'] is not None:
                    ctx.equal(str(g.iloc[i]['time_utc'])[:19].replace(' ', 'T'), (res[k][0] - timedelta(hours=o['off'])).strftime('%Y-%m-%dT%H:%M:%S'), "UTC time of the boundary of step %d in %s" % (k, f))
    else:
        files = [os.path.join(tmp, 'out.zip' if o['zip'] else 'out.shp')]
    for j, f in enumerate(files):
        g = gpd.read_file(f)
        ctx.equal(len(g), tot[j], "elements in %s" % os.path.basename(f))
        if not len(g):
            continue
        tcol = g['Time']
        stamps = [str(x)[:19].replace(' ', 'T') for x in tcol]
        rows = {}
        for i in range(len(g)):
            r = g.iloc[i]
            rows[(stamps[i], int(r['LE_id']))] = r
        for k in steps:
            sn = res[k][1][j]
            iso = res[k][0].strftime('%Y-%m-%dT%H:%M:%S')
            conc = surface(sn) if o['conc'] and j == 0 else None
            for e in range(len(sn['mass'])):
                r = rows.get((iso, int(sn['id'][e])))
                ctx.check(r is not None, "element %d of step %d is not in %s", int(sn['id'][e]), k, os.path.basename(f))
                p = r.geometry
                ctx.check(same_num([p.x, p.y], sn['positions'][e, :2], 1e-12), "element %d of step %d is at %s, should be at %s", e, k, (p.x, p.y), sn['positions'][e])
                for col, want in (('Depth', sn['positions'][e, 2]), ('Mass', sn['mass'][e]), ('Age', sn['age'][e]), ('StatusCode', sn['status_codes'][e]), ('Spill_id', sn['spill_num'][e])):
                    ctx.check(math.isclose(float(r[col]), float(want), rel_tol=1e-6, abs_tol=1e-9), "%s of element %d in step %d is %s, should be %s", col, e, k, r[col], want)
                for col, name in (('Viscosity', 'viscosity'), ('FracWater', 'frac_water'), ('Density', 'density')):
                    if name in sn:
                        ctx.check(math.isclose(float(r[col]), float(sn[name][e]), rel_tol=1e-6, abs_tol=1e-9), "%s of element %d in step %d is %s, should be %s", col, e, k, r[col], sn[name][e])
                if o['conc'] and j == 0:
                    ctx.check(abs(float(r['Surf_Conc']) - conc[e]) <= 1e-6 * conc[e] + 1e-15, "surface concentration of element %d in step %d is %s, should be %s", e, k, r['Surf_Conc'], conc[e])
                if o['off'] is not None:
                    utc = str(r['Time_UTC'])[:19].replace(' ', 'T')
                    ctx.equal(utc, (res[k][0] - timedelta(hours=o['off'])).strftime('%Y-%m-%dT%H:%M:%S'), "UTC time of step %d" % k)


@facet('C16', output_case(conc=st.sampled_from([None, 'kde']), back=st.booleans(), every=st.booleans()), quick=60,
       rule="non-trivial: the run has elements")
def outputs_do_not_change_the_run(case, ctx):
    from gnome.outputters import BinaryOutput, KMZOutput, NetCDFOutput, SpillJsonOutput, TrajectoryGeoJsonOutput, WeatheringOutput
    import numpy as np
    tmp = ctx.tmpdir()
    c = case['c']
    ref = scen.run_all(scen.make_model(c, tmp))
    kw = dict(sched_kw(case['s'], c['dt']), surface_conc=case['o']['conc'])
    outs = [NetCDFOutput(os.path.join(tmp, 'a.nc'), which_data='all', **kw), BinaryOutput(os.path.join(tmp, 'b.dat'), **kw), KMZOutput(os.path.join(tmp, 'k.kmz'), **kw),
            SpillJsonOutput(**kw), TrajectoryGeoJsonOutput(**kw), WeatheringOutput(**kw)]
    off = [NetCDFOutput(os.path.join(tmp, 'off.nc'), on=False), KMZOutput(os.path.join(tmp, 'off.kmz'), on=False), SpillJsonOutput(on=False, name='off'),
           BinaryOutput(os.path.join(tmp, 'off.dat'), on=False)]
    m, res, infos = run_with(case, ctx, outs + off)
    ctx.equal([f for f in os.listdir(tmp) if f.startswith('off')], [], "files written by outputters that are off")
    ctx.equal(len(res), len(ref), "number of steps")
    ctx.nontrivial(len(ref[-1][1][0]['mass']) > 0)
    for k, (a, b) in enumerate(zip(ref, res)):
        for x, y in zip(a[1], b[1]):
            for name in x:
                ctx.check(name in y and np.array_equal(x[name], y[name], equal_nan=x[name].dtype.kind == 'f'), "step %d: array %s changed by outputs: %s became %s", k, name, x[name][:4],
                          y.get(name, [])[:4])
        ctx.equal([{n: v for n, v in x.items() if v == v} for x in a[2]], [{n: v for n, v in x.items() if v == v} for x in b[2]], "step %d: mass balance" % k)


@st.composite
def cloud_case(draw):
    dt, n = draw(st.sampled_from([600, 900, 1800, 3600])), draw(st.integers(1, 6))
    return {'dt': dt, 'n': n, 'unc': draw(st.booleans()), 'back': draw(st.booleans()), 'runs': draw(st.integers(1, 2)),
            'spills': draw(st.lists(fd(n=st.integers(1, 12), seed=st.integers(0, 10 ** 6), dur=st.sampled_from([0, 0, dt, 3 * dt]), mass=st.sampled_from([0.0, 5.0, 200.0]),
                                       at=st.tuples(st.integers(-60, 60), st.integers(-60, 60))), min_size=1, max_size=3)),
            'outs': draw(st.lists(schedule_spec(dt, n).map(lambda s: dict(s, on=True)), min_size=1, max_size=2)), 'cur': draw(st.tuples(grid(-1, 1, 4), grid(-1, 1, 4)))}


@facet('C16', cloud_case(), quick=120, rule="non-trivial: the first step written has the concentration of elements just released")
def concentrations(case, ctx):
    """the surface concentration is written at every step written, the first one too"""
    import warnings
    import numpy as np
    import gnome.scripting as gs
    from gnome.movers import RandomMover, SimpleMover
    from gnome.outputters import SpillJsonOutput
    from gnome.spills import Release, Spill
    dt, n = case['dt'], case['n']
    m = gs.Model(start_time=T0, duration=timedelta(seconds=dt * n), time_step=dt, uncertain=case['unc'], run_backwards=case['back'])
    for k in case['spills']:
        r = np.random.RandomState(k['seed'])
        num = max(k['n'], 5 if k['dur'] else 1)
        pos = [(k['at'][0] + float(x), k['at'][1] + float(y), 0.0) for x, y in r.uniform(0, 0.1, (num, 2))]
        kw = {} if case['back'] or not k['dur'] else {'end_release_time': T0 + timedelta(seconds=k['dur'])}
        m.spills += Spill(release=Release(custom_positions=pos, release_time=T0, num_elements=num, release_mass=k['mass'], **kw), amount=k['mass'], units='kg')
    m.movers += [SimpleMover(velocity=case['cur'] + (0.0,)), RandomMover(diffusion_coef=1e5)]
    outs = [SpillJsonOutput(_additional_data=['surface_concentration'], surface_conc='kde', name='out%d' % i, **sched_kw(s, dt, case['back'])) for i, s in enumerate(case['outs'])]
    m.outputters += outs[:1]
    for run in range(case['runs']):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for k in range(n + 1):
                info = m.step().get('SpillJsonOutput')
                ctx.equal(info is not None, k in expected(case['outs'][0], dt, n + 1), "step %d is written" % k)
                if info is None:
                    continue
                sn = scen.snapshot(m)[0]
                want, got = surface(sn), info['certain'][0]['surface_concentration']
                ctx.check(same_num(got, want, 2e-8), "run %d, step %d: surface concentrations are %s, should be %s", run, k, got[:6], want[:6])
                if k == 0 and np.any(want > 1e-7):
                    ctx.nontrivial(True)
        m.rewind()


@facet('C16', fd(year=st.integers(1976, 2036), hour=st.integers(0, 8783), minute=st.integers(0, 59), dt=st.sampled_from([600, 3600, 5400, 21600, 86400]), n=st.integers(1, 12),
                 back=st.booleans(), every=st.integers(1, 4)), quick=100, rule="non-trivial: the run goes over the end of a month or takes longer than a day")
def dates(case, ctx):
    """the times written by runs at any date and of any length"""
    import gc
    import netCDF4
    import gnome.scripting as gs
    from gnome.outputters import BinaryOutput, KMZOutput, NetCDFOutput, OilBudgetOutput
    tmp = ctx.tmpdir()
    dt, n = case['dt'], case['n']
    start = datetime(case['year'], 1, 1) + timedelta(hours=case['hour'], minutes=case['minute'])
    sign = -1 if case['back'] else 1
    m = gs.Model(start_time=start, duration=timedelta(seconds=dt * n), time_step=dt, run_backwards=case['back'])
    m.spills += gs.point_line_spill(num_elements=2, start_position=(0.0, 0.0, 0.0), release_time=start, amount=10, units='kg')
    kw = {'output_timestep': timedelta(seconds=dt * case['every']), 'output_last_step': False}
    m.outputters += [BinaryOutput(os.path.join(tmp, 'b.dat'), zip_output=False, **kw), NetCDFOutput(os.path.join(tmp, 'a.nc'), **kw), KMZOutput(os.path.join(tmp, 'k.kmz'), **kw),
                     OilBudgetOutput(os.path.join(tmp, 'o.csv'), output_timestep=kw['output_timestep'])]
    m.full_run()
    steps = list(range(0, n + 1, case['every']))
    times = [start + timedelta(seconds=sign * dt * k) for k in steps]
    ctx.nontrivial(n * dt > 86400 or (start + timedelta(seconds=sign * dt * n)).month != start.month)
    with netCDF4.Dataset(os.path.join(tmp, 'a.nc')) as d:
        v = d.variables['time']
        got = [datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) for t in netCDF4.num2date(v[:], v.units, v.calendar)]
    ctx.equal(got, times, "netcdf: times")
    with zipfile.ZipFile(os.path.join(tmp, 'k.kmz')) as z:
        kml = [z.read(x).decode() for x in z.namelist() if x.endswith('.kml')][0]
    ctx.equal(re.findall(r'<begin>(.*?)</begin>', kml)[::2], [t.isoformat() for t in times], "kmz: times")
    for i, (k, t) in enumerate(zip(steps, times)):
        with open(os.path.join(tmp, 'bFORCST.%03d' % i), 'rb') as fp:
            name, dd, mm, yy, hh, mi, cur, ver, cnt = struct.unpack('>10s5hffi', fp.read(32))
            lat, lon, rel = struct.unpack('>3f', fp.read(12))
        ctx.equal((dd, mm, yy, hh, mi, cnt), (t.day, t.month, t.year, t.hour, t.minute, 2), "binary: header of step %d" % k)
        ref = datetime(t.year - t.year % 4, 1, 1)
        hours = (t - ref).total_seconds() / 3600
        ctx.check(abs(cur - hours) <= 1e-6 * hours + 1e-9, "binary: time of step %d is %s h since %s, should be %s", k, cur, ref, hours)
    gc.collect()
    with open(os.path.join(tmp, 'o.csv'), newline='') as fp:
        rows = list(csv.reader(fp))[1:]
    every = sorted(set(steps) | {n})
    ctx.equal([r[0] for r in rows], [(start + timedelta(seconds=sign * dt * k)).strftime("%Y-%m-%d %H:%M") for k in every], "budget: times")
    for r, k in zip(rows, every):
        ctx.check(abs(float(r[1]) - sign * k * dt / 3600) < 1 / 60, "budget: hours of step %d are %s", k, r[1])
