import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import bug

PRE = '''import sys
from datetime import datetime, timedelta
import numpy as np
import gnome.scripting as gs
T0 = datetime(2020, 1, 1)


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)

'''

bug('c01_sediment_order', 'C01',
    [('gnome/weatherers/natural_dispersion.py', """            sc.mass_balance['sedimentation'] += np.sum(sed[:])

            if data['mass'].sum() > 0:
                sed_mass_frac = np.sum(sed[:]) / data['mass'].sum()
""", """            sc.mass_balance['sedimentation'] += np.sum(sed[:])

            if data['mass'].sum() > 0:
                sed_mass_frac = np.sum(sed[:]) / data['init_mass'].sum()
""")],
    PRE + '''
from gnome.weatherers import NaturalDispersion, Evaporation, Emulsification
from gnome.environment import Water, Waves
from gnome.environment.wind import constant_wind
model = gs.Model(start_time=T0, duration=timedelta(hours=6), time_step=900)
water = Water(temperature=300.0)
water.set('sediment', 500, 'mg/l') if False else None
water.sediment = 0.5
water.units['sediment'] = 'kg/m^3'
wind = constant_wind(15, 0)
waves = Waves(wind, water)
model.environment += [water, wind, waves]
model.weatherers += [Evaporation(wind=wind, water=water), NaturalDispersion(waves=waves, water=water)]
model.spills += gs.point_line_spill(num_elements=10, start_position=(0, 0, 0), release_time=T0,
                                    substance=gs.GnomeOil('oil_gas'), amount=1000, units='kg')
for s in model:
    sc = list(model.spills.items())[0]
    mb = sc.mass_balance
    total = sc['mass'].sum() + sum(mb.get(k, 0) for k in ('evaporated', 'natural_dispersion', 'sedimentation', 'off_maps'))
    if abs(total - mb['amount_released']) > 1e-6 * 1000:
        fail("budget %r of %r: %s" % (total, mb['amount_released'], dict(mb)))
''',
    "sediment in the water and an oil that has already lost mass to other processes",
    "the mass sedimented is reported in full but only part of it is taken off the elements: the budget no longer adds up")

bug('c02_wind_uncertainty_kept', 'C02',
    [('gnome/movers/py_wind_movers.py', """        self.is_first_step = True
        self.uncertainty_list = np.zeros((0,) + self.shape, dtype=np.float64)
        self.time_uncertainty_was_set = 0

        return
""", """        self.is_first_step = True
        self.time_uncertainty_was_set = 0

        return
""")],
    PRE + '''
from gnome.movers import WindMover
from gnome.environment.wind import constant_wind
model = gs.Model(start_time=T0, duration=timedelta(hours=3), time_step=900, uncertain=True)
model.movers += WindMover(constant_wind(10, 45))
model.spills += gs.point_line_spill(num_elements=5, start_position=(0, 0, 0), release_time=T0,
                                    substance=gs.NonWeatheringSubstance())
runs = []
for r in range(2):
    model.rewind()
    model.full_run()
    runs.append([np.array(sc['positions']) for sc in model.spills.items()])
for a, b in zip(*runs):
    if not np.array_equal(a, b):
        fail("second run differs: %s %s" % (a[:2], b[:2]))
''',
    "uncertainty on, the Python wind mover, an instantaneous release and a second run after a rewind",
    "a rewound uncertainty run does not reproduce the first one")

bug('c03_ragged_release_end', 'C03',
    [('gnome/spills/release.py', """                      for step in range(0, num_ts + 1)])
            t.data[-1] = self.end_release_time
        
        if self.release_duration == 0:""", """                      for step in range(0, num_ts + 1)])

        if self.release_duration == 0:""")],
    PRE + '''
model = gs.Model(start_time=T0, duration=timedelta(hours=3), time_step=900)
end = T0 + timedelta(seconds=900 * 4 + 60)
model.spills += gs.point_line_spill(num_elements=100, start_position=(0, 0, 0), release_time=T0, end_release_time=end,
                                    substance=gs.NonWeatheringSubstance())
r = list(model.spills)[0].release
for _ in range(13):
    model.step()
sp = list(model.spills)[0]
if sp.release.num_elements_after_time(end) != 100:
    fail("only %s elements at the end of the release" % sp.release.num_elements_after_time(end))
model.rewind()
for _ in range(6):
    model.step()
n = len(list(model.spills.items())[0]['id'])
if n != 100:
    fail("%d elements one step after the end of the release" % n)
''',
    "a continuous release whose duration is not a multiple of the time step",
    "the release goes on past its end time")

bug('c04_spill_num_off_spills', 'C04',
    [('gnome/spills/spill.py', "        idx = sc.spills.index(self)\n", "        idx = [s for s in sc.spills if s.on].index(self)\n")],
    PRE + '''
model = gs.Model(start_time=T0, duration=timedelta(hours=1), time_step=900)
for k in range(2):
    model.spills += gs.point_line_spill(num_elements=5, start_position=(k, 0, 0), release_time=T0,
                                        substance=gs.NonWeatheringSubstance())
model.spills[0].on = False
model.full_run()
sc = list(model.spills.items())[0]
if set(sc['spill_num']) != {1}:
    fail("spill numbers %s" % set(sc['spill_num']))
''',
    "a spill that is switched off before another one in the collection",
    "elements are attributed to the wrong spill")

bug('c05_substep_remainder', 'C05',
    [('gnome/model.py', "            res.append((sum(res[-1]), time_step % sub_step))", "            res.append((sum(res[-1]), time_step % self.weathering_substeps))")],
    PRE + '''
model = gs.Model(start_time=T0, duration=timedelta(hours=1), time_step=11)
model.weathering_substeps = 4
parts = model._split_into_substeps()
t = model.model_time
for start, d in parts:
    if start != t:
        fail("gap at %s in %s" % (start, parts))
    t = start + timedelta(seconds=d)
if t != model.model_time + timedelta(seconds=11):
    fail("substeps cover until %s" % t)
''',
    "a time step whose remainder after the substeps is at least one substep long",
    "the weathering substeps no longer add up to the time step")

bug('c06_param_halflife', 'C06',
    [('gnome/maps/map.py', """            r_idx = r_idx[np.where(rnd <= refloat_probability)[0]]
        elif self._refloat_halflife < 0.0:
            # fake for nothing gets refloated.
            r_idx = np.array((), bool)

        if r_idx.size > 0:
            # check is not required, but why do this operation if no particles
            # need to be refloated
            spill_container['positions'][r_idx] = \\
                spill_container['last_water_positions'][r_idx]
            spill_container['status_codes'][r_idx] = oil_status.in_water

    def _check_land_layers(""", """            r_idx = r_idx[np.where(rnd <= refloat_probability)[0]]
        elif self._refloat_halflife < 0.0:
            # fake for nothing gets refloated.
            r_idx = np.array((), bool)

        if r_idx.size > 0:
            # check is not required, but why do this operation if no particles
            # need to be refloated
            lwp = spill_container['last_water_positions'][r_idx]
            spill_container['positions'][r_idx[0]:r_idx[0] + len(lwp)] = lwp
            spill_container['status_codes'][r_idx] = oil_status.in_water

    def _check_land_layers(""")],
    PRE + '''
from gnome.maps import MapFromBNA
from gnome.movers import SimpleMover
open('coast.bna', 'w').write("""Map Bounds","1",4
-1.0,-1.0
1.0,-1.0
1.0,1.0
-1.0,1.0
"1","1",5
0.2,-0.9
0.9,-0.9
0.9,0.9
0.2,0.9
0.2,-0.9
""".replace('Map Bounds', '"Map Bounds', 1))
m = MapFromBNA('coast.bna', refloat_halflife=2.0, raster_size=128 * 128)
model = gs.Model(start_time=T0, duration=timedelta(hours=6), time_step=900, map=m)
model.movers += SimpleMover(velocity=(5.0, 0, 0))
model.spills += gs.point_line_spill(num_elements=40, start_position=(0.12, -0.4, 0), end_position=(0.12, 0.4, 0), release_time=T0,
                                    substance=gs.NonWeatheringSubstance())
lat = None
for _ in range(20):
    model.step()
    sc = list(model.spills.items())[0]
    if not len(sc):
        continue
    y = np.array(sc['positions'][:, 1])
    if lat is not None and np.abs(y - lat).max() > 0.05:
        fail("an eastward current moved an element from latitude %s to %s" % (lat[np.abs(y - lat).argmax()], y[np.abs(y - lat).argmax()]))
    lat = y
''',
    "refloating of a subset of the beached elements that is not contiguous",
    "refloated elements (and elements still beached) are put at other elements' last water positions")

bug('c07_diagonal_leak', 'C07',
    [('gnome/cy_gnome/cy_land_check.pyx', "                if was_on_grid and (e2 > -dy) and (e2 < dx):", "                if was_on_grid and (e2 > -dy) and (e2 < dx) and dx >= dy:")],
    PRE + '''
from gnome.cy_gnome.cy_land_check import find_first_pixel
g = np.zeros((20, 20), dtype=np.uint8)
for i in range(20):
    g[i, 19 - i] = 1
n = 0
for x in range(0, 8):
    for y in range(0, 8):
        for X in range(12, 20):
            for Y in range(12, 20):
                if g[x, y] or g[X, Y]:
                    continue
                if find_first_pixel(g, (x, y), (X, Y)) is None:
                    n += 1
if n:
    fail("%d moves crossed a closed diagonal shoreline" % n)
''',
    "a one pixel wide diagonal shoreline and a move that is not exactly diagonal",
    "elements slip through diagonal land")

bug('c08_fixed_lat', 'C08',
    [('lib_gnome/WindMover_c.cpp', "	dLong = ((timeValue.u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3(refPoint.pLat);\n	dLat = (timeValue.v / METERSPERDEGREELAT) * timeStep;\n\n	deltaPoint.p.pLong = dLong * 1000000;",
      "	dLat = (timeValue.v / METERSPERDEGREELAT) * timeStep;\n	refPoint.pLat += dLat * 1000000;\n	dLong = ((timeValue.u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3(refPoint.pLat);\n\n	deltaPoint.p.pLong = dLong * 1000000;")],
    PRE + '''
from gnome.movers import PointWindMover
from gnome.environment.wind import constant_wind
for lat in (0.0, 60.0):
    for direction in (225.0, 315.0):
        model = gs.Model(start_time=T0, duration=timedelta(hours=2), time_step=3600)
        model.movers += PointWindMover(constant_wind(30, direction))
        model.spills += gs.point_line_spill(num_elements=1, start_position=(0, lat, 0), release_time=T0,
                                            substance=gs.NonWeatheringSubstance(windage_range=(0.04, 0.04)))
        model.step()
        model.step()
        p = list(model.spills.items())[0]['positions'][0]
        want = 30 * 0.04 * np.sin(np.radians(45)) * 3600 * 8.9992801e-06 / np.cos(np.radians(lat))
        if abs(p[0] / want - 1) > 2e-4:
            fail("latitude %s: moved %s, expected %s" % (lat, p[0], want))
''',
    "high latitude, strong wind with a north-south component and a long time step",
    "the longitude displacement is converted at the new latitude instead of the element's")

bug('c09_windage_when_inactive', 'C09',
    [('gnome/movers/c_wind_movers.py', """            return

        if self.active:
            random_with_persistance(""", """            return

        if self.on:
            random_with_persistance(""")],
    PRE + '''
from gnome.movers import PointWindMover
from gnome.environment.wind import constant_wind
out = []
for extra in (False, True):
    model = gs.Model(start_time=T0, duration=timedelta(hours=2), time_step=900)
    model.movers += gs.RandomMover()
    model.movers += PointWindMover(constant_wind(5, 0))
    if extra:
        model.movers += PointWindMover(constant_wind(5, 0), active_range=(T0 + timedelta(days=2), T0 + timedelta(days=3)))
    model.spills += gs.point_line_spill(num_elements=5, start_position=(0, 0, 0), release_time=T0,
                                        substance=gs.NonWeatheringSubstance())
    model.full_run()
    out.append(np.array(list(model.spills.items())[0]['positions']))
if not np.array_equal(*out):
    fail("an inactive wind mover changed the run: %s %s" % (out[0][0], out[1][0]))
''',
    "a wind mover that is on but outside its active range, next to other movers, and a windage persistence of up to 15 minutes",
    "an inactive mover redraws the windages and so changes the run")

bug('c10_below_ml', 'C10',
    [('lib_gnome/Random_c.cpp', "	this -> fOptimize.uncertaintyValue = sqrt(fUncertaintyFactor*6.*(fDiffusionCoefficient/10000.)*fabs(time_step))/METERSPERDEGREELAT; // in deg lat",
      "	this -> fOptimize.uncertaintyValue = fUncertaintyFactor*this -> fOptimize.value; // in deg lat")],
    PRE + '''
var = []
for unc in (0, 1):
    model = gs.Model(start_time=T0, duration=timedelta(hours=2), time_step=900, uncertain=True)
    model.movers += gs.RandomMover(diffusion_coef=100000, uncertain_factor=4)
    model.spills += gs.point_line_spill(num_elements=2000, start_position=(0, 0, 0), release_time=T0,
                                        substance=gs.NonWeatheringSubstance(windage_range=(0, 0)))
    model.full_run()
    var.append(list(model.spills.items())[unc]['positions'][:, 1].var())
if abs(var[1] / var[0] / 4 - 1) > 0.3:
    fail("uncertain / forecast variance %s, expected 4" % (var[1] / var[0]))
''',
    "an uncertainty run with random diffusion and a factor other than 1",
    "uncertain elements diffuse with the factor squared")

bug('c11_narrowed_range', 'C11',
    [('gnome/utilities/rand.py', "    low = np.copy(low)\n    high = np.copy(high)\n", "    low = np.asarray(low, dtype=float)\n    high = np.asarray(high, dtype=float)\n")],
    PRE + '''
from gnome.movers import PointWindMover
from gnome.environment.wind import constant_wind
model = gs.Model(start_time=T0, duration=timedelta(hours=10), time_step=3600)
model.movers += PointWindMover(constant_wind(5, 0))
model.spills += gs.point_line_spill(num_elements=50, start_position=(0, 0, 0), release_time=T0,
                                    substance=gs.NonWeatheringSubstance(windage_range=(0.01, 0.04), windage_persist=900))
model.full_run()
sc = list(model.spills.items())[0]
if not np.allclose(sc['windage_range'], (0.01, 0.04)):
    fail("the windage range became %s" % sc['windage_range'][0])
''',
    "a windage persistence that differs from the time step, over several steps",
    "every redraw narrows (or widens) the element's windage range further")

bug('c14_index_by_equality', 'C14',
    [('gnome/utilities/orderedcollection.py', "        self._elems[self._d_index[obj_id]] = None\n        del self._d_index[obj_id]\n\n        # fire remove", "        self._elems[self._elems.index(item)] = None\n        del self._d_index[obj_id]\n\n        # fire remove")],
    PRE + '''
from gnome.movers import SimpleMover
from gnome.utilities.orderedcollection import OrderedCollection
a, b, c = [SimpleMover(velocity=(1, 0, 0)) for _ in range(3)]
oc = OrderedCollection([a, b, c])
oc.remove(b.id)
if [x.id for x in oc] != [a.id, c.id]:
    fail("removed the wrong object: %s" % [x.id for x in oc])
''',
    "removing an object that compares equal to an earlier one",
    "another object than the one named disappears from the collection")
