"""C28: save archives: checked, extracted inside their folder, and upgraded from older versions."""
import io
import json
import os
import zipfile
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import when, grid


# ---------------------------------------------------------------- what an archive may do to the disk
BASE = st.sampled_from(['a.json', 'b.json', 'coast.bna', 'model.json', 'v?.json', 'Spill #1.json', 'wind<2>.json', 'x*.nc', 'data:1.txt', 'n|.json', 'räksmörgås.json', '..a', 'c d.txt'])
DIRS = st.sampled_from(['', '', '', 'top/', 'top/', 'other/', 'top/sub/', '__MACOSX/', '../', '../../', '/ABS/', 'top/../../', './', '__MACOSX/top/', 'other/top/', 'atop/'])


@st.composite
def extract_case(draw):
    return {'members': draw(st.lists(st.tuples(DIRS, BASE, st.binary(max_size=20)), min_size=1, max_size=7, unique_by=lambda m: m[:2])),
            'folders': draw(st.lists(st.sampled_from(['top/', 'other/', '__MACOSX/', 'top/sub/']), max_size=2, unique=True)),
            'isopen': draw(st.booleans()), 'which': draw(st.sampled_from(['updater', 'updater', 'save_load'])),
            'refs': draw(st.booleans()), 'prefix': draw(st.sampled_from(['', '', 'top/']))}


def clean(name):
    return ''.join(ch for ch in name if ch not in '\\/*?:"<>|')


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d) + '/'] = None
    return out


@facet('C28', extract_case(), quick=600,
       rule="archives with generated member names (folders, '..', absolute, characters that are not allowed) extracted; non-trivial: a member that would leave the folder, or a name that is not allowed")
def extraction(c, ctx):
    from gnome.persist import save_load
    from gnome.utilities import save_updater
    outer = ctx.tmpdir()
    deep = os.path.join(outer, '1', '2', '3', '4')         # whatever leaves the folder stays in here
    dest = os.path.join(deep, 'dest')
    os.makedirs(dest)
    arch = os.path.join(outer, 'saved.zip')
    names = [(d.replace('/ABS/', deep + '/abs/'), b) for d, b, _ in c['members']]
    want, last = {}, {}
    folders = [f for f in c['folders'] if not f.startswith('__MACOSX')]
    prefix = c['prefix'] if c['which'] == 'save_load' else (folders[0] if len(folders) == 1 else '')
    fix = clean if c['which'] == 'updater' else (lambda n: n)
    members = [(d + b, data) for (d, b), (_, _, data) in zip(names, c['members'])]
    inside = sorted({b for (d, b) in names if (d + b).startswith(prefix)})
    if c['refs']:        # a description that names the files of the archive
        members.append((prefix + 'refs.json', json.dumps({'files': inside}, ensure_ascii=False).encode('utf-8')))
    members = [(n, data if not n.endswith('.json') or n.endswith('refs.json') else json.dumps({'data': list(data)}).encode()) for n, data in members]
    with zipfile.ZipFile(arch, 'w') as z:
        for f in c['folders']:
            z.writestr(f, b'')
        for n, data in members:
            z.writestr(n, data)
    for n, data in members:
        if n.startswith(prefix):
            want[fix(os.path.basename(n))] = data
    if c['refs'] and c['which'] == 'updater':
        want['refs.json'] = json.dumps({'files': [clean(b) for b in inside]}, ensure_ascii=False).encode('utf-8')
    before = tree(outer)
    fn = save_updater.extract_zipfile if c['which'] == 'updater' else save_load.extract_zipfile
    if c['isopen'] or c['which'] == 'save_load':
        with zipfile.ZipFile(arch) as z:
            fn(z, dest, c['prefix']) if c['which'] == 'save_load' else fn(z, dest)
    else:
        fn(arch, dest)
    after = tree(outer)
    rel = os.path.relpath(dest, outer) + '/'
    out = {k: v for k, v in after.items() if not k.startswith(rel)}
    ctx.check(out == {k: v for k, v in before.items() if not k.startswith(rel)}, "extracting %s changed the disk outside the folder: %s",
              [n for n, _ in members], sorted(k for k in set(out) | set(before) if out.get(k, 0) != before.get(k, 0)))
    got = {k[len(rel):]: v for k, v in after.items() if k.startswith(rel) and k != rel}
    ctx.equal(sorted(got), sorted(want), "files extracted from %s" % [n for n, _ in members])
    for k in want:
        if k.endswith('.json'):
            ctx.equal(json.loads(got[k].decode('utf-8')), json.loads(want[k].decode('utf-8')), "contents of %s" % k)
        else:
            ctx.check(got[k] == want[k], "contents of %s: %r, expected %r", k, got[k], want[k])
    ctx.nontrivial(any('..' in n or n.startswith('/') for n, _ in members) or any(clean(b) != b for b in inside))
    ctx.label(c['which'])


# ---------------------------------------------------------------- which archives are accepted
@st.composite
def valid_case(draw):
    m = st.tuples(st.sampled_from(['a.json', 'b.json', 'coast.bna', 'd/c.json', 'x..y.txt', '../e.txt', 'f/../g.json', 'json', 'h.JSON', 'i.json.txt', 'j..json']),
                  st.integers(0, 60), st.integers(1, 30), st.booleans())
    return {'members': draw(st.lists(m, max_size=5, unique_by=lambda t: t[0])), 'json': draw(st.sampled_from([10, 50, 100, 200, 400, 1024 * 1024])),
            'ratio': draw(st.sampled_from([1, 2, 5, 10, 54])), 'damage': draw(st.sampled_from(['no', 'no', 'no', 'flip', 'cut', 'text'])),
            'at': draw(st.integers(0, 10 ** 6)), 'edge': draw(st.sampled_from([None, None, 'json'])), 'mem': draw(st.booleans())}


@facet('C28', valid_case(), quick=600,
       rule="archives of generated members with generated sizes, names and damage against generated limits; non-trivial: an archive to reject")
def acceptance(c, ctx):
    import random
    from gnome.persist import is_savezip_valid
    rnd = random.Random(7)
    d = ctx.tmpdir()
    p = os.path.join(d, 'x.zip')
    with zipfile.ZipFile(p, 'w') as z:
        for name, n, rep, deflate in c['members']:
            z.writestr(name, bytes(rnd.randrange(256) for _ in range(n)) * rep, zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED)
    raw = bytearray(open(p, 'rb').read())
    limit, bad = c['json'], []
    with zipfile.ZipFile(p) as z:
        infos = z.infolist()
    sizes = [i.file_size for i in infos if os.path.splitext(i.filename)[1] == '.json']
    if c['edge'] and sizes:         # exactly the largest is allowed
        limit = max(sizes)
    for i in infos:
        if os.path.splitext(i.filename)[1] == '.json' and i.file_size > limit:
            bad.append('large ' + i.filename)
        if i.compress_size and i.file_size > c['ratio'] * i.compress_size:
            bad.append('ratio ' + i.filename)
        if '..' in i.filename:
            bad.append('path ' + i.filename)
    if c['damage'] == 'flip':
        data = [i for i in infos if i.compress_size]
        if data:
            i = data[c['at'] % len(data)]
            start = i.header_offset + 30 + len(i.filename.encode())
            k = start + c['at'] % i.compress_size
            if i.compress_type == zipfile.ZIP_STORED:
                raw[k] ^= 1 << (c['at'] % 8)
                bad.append('damaged ' + i.filename)
            else:                     # what the damaged stream gives, by zlib itself
                raw[k] ^= 1 << (c['at'] % 8)
                import zlib
                try:
                    o = zlib.decompressobj(-15)
                    r = o.decompress(bytes(raw[start:start + i.compress_size])) + o.flush()
                    if zlib.crc32(r[:i.file_size]) != i.CRC or len(r) < i.file_size:
                        bad.append('damaged ' + i.filename)
                    elif not o.eof or len(r) != i.file_size:
                        return
                except zlib.error:
                    bad.append('damaged ' + i.filename)
    elif c['damage'] == 'cut':
        raw = raw[:c['at'] % max(1, len(raw) - 22)]       # no directory at its end any more
        bad.append('cut')
    elif c['damage'] == 'text':
        raw = bytearray(b'not an archive ' * (c['at'] % 9))
        bad.append('text')
    open(p, 'wb').write(raw)
    arg = io.BytesIO(bytes(raw)) if c['mem'] else p
    got = is_savezip_valid(arg, max_json_filesize=limit, max_compress_ratio=c['ratio'])
    ctx.equal(bool(got), not bad, "archive %s accepted (limits %s, %s), reasons against it: %s" % ([(i.filename, i.file_size, i.compress_size) for i in infos], limit, c['ratio'], bad))
    ctx.nontrivial(bool(bad))
    ctx.label(bad[0].split()[0] if bad else 'valid')


# ---------------------------------------------------------------- saved by older versions
@st.composite
def old_case(draw):
    mover = st.sampled_from(['pointwind', 'pointwind', 'wind', 'current', 'current', 'simple', 'random'])
    return {'version': draw(st.integers(1, 5)), 'movers': draw(st.lists(mover, max_size=4)), 'oil': draw(st.booleans()),
            'wr': draw(st.sampled_from([(0.01, 0.04), (0.0, 0.0), (0.02, 0.03)])), 'wp': draw(st.sampled_from([900, 600, -1])),
            'spills': draw(st.lists(st.tuples(st.integers(1, 6), grid(-1, 1, 16), st.sampled_from(['point', 'point', 'polygon'])), min_size=1, max_size=3)),
            'weatherers': draw(st.lists(st.sampled_from(['evap', 'emul', 'disp']), unique=True)), 'wdata': draw(st.integers(0, 2)), 'wpos': draw(st.integers(0, 3)),
            'uncertain': draw(st.booleans()), 'twice': draw(st.booleans()), 'folder': draw(st.booleans())}


def downgrade(d, version, c):
    """rewrites a folder with a current save the way the given version wrote it"""
    files = {f: json.load(open(os.path.join(d, f), encoding='utf-8')) for f in sorted(os.listdir(d)) if f.endswith('.json')}
    new = {}
    for f, js in files.items():
        t = js.get('obj_type', '')
        if version < 5:
            if t.endswith('c_wind_movers.PointWindMover'):
                t = t.replace('PointWindMover', 'WindMover')
            elif t.endswith('.WindMover'):
                t = t.replace('.WindMover', '.PyWindMover')
            elif t.endswith('.CurrentMover'):
                t = t.replace('.CurrentMover', '.PyCurrentMover')
        if version < 3:
            t = t.replace('gnome.spills.', 'gnome.spill.').replace('PolygonRelease', 'SpatialRelease')
            t = t.replace('c_current_movers.', 'current_movers.').replace('c_wind_movers.', 'wind_movers.')
        js['obj_type'] = t
        if version < 2 and 'windage_range' in js:
            g = 'InitWindages_%d.json' % len(new)
            new[g] = {'windage_range': js.pop('windage_range'), 'windage_persist': js.pop('windage_persist'),
                      'obj_type': 'gnome.spill.initializers.InitWindages', 'name': g[:-5], 'id': g}
            js['initializers'] = [g]
        if version < 4 and t.endswith('model.Model'):
            for k in range(c['wdata']):
                g = 'WeatheringData_%d.json' % k
                new[g] = {'obj_type': 'gnome.weatherers.weathering_data.WeatheringData', 'name': g[:-5], 'on': True}
                js['weatherers'].insert(min(c['wpos'] + k * 2, len(js['weatherers'])), g)
    for f, js in list(files.items()) + list(new.items()):
        json.dump(js, open(os.path.join(d, f), 'w', encoding='utf-8'), indent=1)
    open(os.path.join(d, 'version.txt'), 'w').write('%d\n' % version)


@facet('C28', old_case(), quick=220,
       rule="models saved, written back the way older versions wrote them, and loaded; non-trivial: an older version with a mover or weatherer that was named differently")
def upgrades(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.environment import SteadyUniformCurrent
    from gnome.environment.wind import constant_wind
    from gnome.movers import CurrentMover, PointWindMover, SimpleMover, WindMover
    from gnome.model import Model
    from gnome.weatherers import Emulsification, Evaporation, NaturalDispersion
    wind, water = constant_wind(4.0, 60.0), gs.Water(temperature=288.0)
    waves = gs.Waves(wind, water)
    oil = c['oil'] and c['version'] >= 2        # oils were described differently before
    m = gs.Model(start_time=when(0), duration=timedelta(hours=1), time_step=900, uncertain=c['uncertain'], name='old model')
    m.environment += [wind, water, waves]
    sub = (gs.GnomeOil('oil_ans_mp', windage_range=c['wr'], windage_persist=c['wp']) if oil
           else gs.NonWeatheringSubstance(windage_range=c['wr'], windage_persist=c['wp']))
    for i, (n, lon, kind) in enumerate(c['spills']):
        if kind == 'polygon':
            rel = gs.PolygonRelease(features=poly(lon), num_elements=n, release_time=when(0), name='p%d' % i)
            m.spills += gs.Spill(release=rel, substance=sub, amount=5.0, units='kg', name='Spill #%d' % i)
        else:
            m.spills += gs.point_line_spill(num_elements=n, start_position=(lon, 0.0, 0.0), release_time=when(0), substance=sub, amount=5.0, units='kg', name='Spill #%d' % i)
    for i, k in enumerate(c['movers']):
        m.movers += {'pointwind': lambda: PointWindMover(wind, name='pw%d' % i), 'wind': lambda: WindMover(wind, name='w%d' % i),
                     'current': lambda: CurrentMover(SteadyUniformCurrent(speed=0.1 + i, direction=30.0), name='c%d' % i),
                     'simple': lambda: SimpleMover((0.1, 0.2, 0.0), name='s%d' % i), 'random': lambda: gs.RandomMover(name='r%d' % i)}[k]()
    for k in c['weatherers']:
        m.weatherers += {'evap': lambda: Evaporation(wind=wind, water=water), 'emul': lambda: Emulsification(waves=waves),
                         'disp': lambda: NaturalDispersion(waves=waves, water=water)}[k]()
    tmp = ctx.tmpdir()
    arch = os.path.join(tmp, 'm.zip')
    m.save(arch)
    d = os.path.join(tmp, 'dir')
    os.makedirs(d)
    with zipfile.ZipFile(arch) as z:
        z.extractall(d)
    downgrade(d, c['version'], c)
    if c['folder']:
        src = d
    else:
        src = os.path.join(tmp, 'old.gnome')
        with zipfile.ZipFile(src, 'w') as z:
            for f in sorted(os.listdir(d)):
                z.write(os.path.join(d, f), f)
    cwd = os.getcwd()
    new = Model.load_savefile(src) if not c['twice'] else None
    if c['twice']:        # the folder or archive can be loaded again
        Model.load(src, filename='old model.json')
        new = Model.load(src, filename='old model.json')
    ctx.equal(os.getcwd(), cwd, "working directory after loading")
    for coll in ('environment', 'movers', 'weatherers', 'outputters', 'spills'):
        ctx.equal([(type(o).__name__, o.name) for o in getattr(new, coll)], [(type(o).__name__, o.name) for o in getattr(m, coll)], "%s of the model from version %d" % (coll, c['version']))
    s = [x.substance for x in new.spills]
    ctx.check(all(x is s[0] for x in s), "the spills do not share their substance any more")
    ctx.equal((type(s[0]).__name__, tuple(s[0].windage_range), s[0].windage_persist), (type(sub).__name__, tuple(c['wr']), c['wp']), "substance from version %d" % c['version'])
    for a, b in zip(new.movers, m.movers):
        ctx.check(a == b, "mover %s from version %d differs: %s", b.name, c['version'], a._diff(b)[:2])
        if hasattr(b, 'wind'):
            ctx.check(a.wind is new.environment[0], "mover %s does not share the model's wind any more", a.name)
    ctx.check(new == m, "the model from version %d differs from the one saved: %s", c['version'], new._diff(m)[:3])
    run = []
    for x in (m, new):
        x.rewind()
        x.step()
        x.step()
        run.append({k: np.array(x.get_spill_property(k)) for k in ('positions', 'mass', 'windages')})
    if not oil:          # oil data are written with eight digits
        for k in run[0]:
            ctx.check(np.array_equal(run[0][k], run[1][k]), "%s of the run of the model from version %d: %s, expected %s", k, c['version'], run[1][k][:2], run[0][k][:2])
    else:
        for k in run[0]:
            ctx.close(run[1][k], run[0][k], "%s of the run" % k, rtol=1e-6, atol=1e-9)
    ctx.nontrivial(c['version'] < 5 and (bool(c['movers']) or c['version'] < 4 and c['wdata'] > 0))
    ctx.label('version %d' % c['version'])


def poly(lon):
    import geojson
    return geojson.FeatureCollection([geojson.Feature(geometry=geojson.Polygon([[(lon, 0.0), (lon + 0.1, 0.0), (lon + 0.1, 0.1), (lon, 0.1), (lon, 0.0)]]), properties={})])
