import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import bug
from pre import PRE

M = 'gnome/model.py'

bug('c12_refloated_inert', 'C12',
    [(M, "            w_mask = ((sc['status_codes'] == oil_status.in_water)\n",
      "            w_mask = ((sc['status_codes'] == oil_status.in_water)\n                      & (sc['fate_status'] != fate.non_weather)\n")],
    PRE + '''
from gnome.basic_types import oil_status
model = gs.Model(start_time=T0, duration=timedelta(hours=4), time_step=900)
wind = gs.constant_wind(8, 0)
water = gs.Water(temperature=300.0)
model.environment += [wind, water, gs.Waves(wind, water)]
model.spills += gs.point_line_spill(num_elements=4, start_position=(0, 0, 0), release_time=T0,
                                    substance=gs.GnomeOil('oil_ans_mp'), amount=1000, units='kg')
from gnome.weatherers import Evaporation
model.weatherers += Evaporation(wind=wind, water=water)
for i in range(3):
    model.step()
sc = list(model.spills.items())[0]
sc['status_codes'][0] = oil_status.on_land
for i in range(2):
    model.step()
sc['status_codes'][0] = oil_status.in_water
model.step()
before = sc['mass'].copy()
for i in range(3):
    model.step()
if not (sc['mass'] < before).all():
    fail("a refloated element does not evaporate: %s -> %s" % (before, sc['mass']))
''',
    "an element that beached and was refloated",
    "oil that comes off the shore again never weathers any more")

bug('c15_rewind_keeps_recent', 'C15',
    [('gnome/utilities/cache.py', """        # clean out the in-memory cache
        self.recent = {}

        # clean out the disk cache
        if os.path.isdir(self._cache_dir):
            shutil.rmtree(self._cache_dir)
        self._create_new_dir()
""", """        if not self.enabled:
            # nothing was written
            return
        # clean out the in-memory cache
        self.recent = {}

        # clean out the disk cache
        if os.path.isdir(self._cache_dir):
            shutil.rmtree(self._cache_dir)
        self._create_new_dir()
""")],
    PRE + '''
from gnome.utilities.cache import CacheError
model = gs.Model(start_time=T0, duration=timedelta(hours=4), time_step=900, cache_enabled=False)
model.spills += gs.point_line_spill(num_elements=4, start_position=(0, 0, 0), release_time=T0)
from gnome.movers import SimpleMover
model.movers += SimpleMover((1, 0, 0))
for i in range(3):
    model.step()
model.rewind()
try:
    model._cache.load_timestep(2)
except CacheError:
    pass
else:
    fail("step 2 is still in the cache after a rewind")
''',
    "a rewind while the cache is switched off", "the last step of the previous run can still be read back after a rewind")

bug('c16_single_step_later', 'C16',
    [('gnome/outputters/outputter.py', """            if self._is_first_output:
                self._write_step = True
                self._is_first_output = False
                return
""", """            if self._is_first_output:
                self._write_step = True
                self._is_first_output = False
                self._dt_since_lastoutput += time_step
                return
""")],
    PRE + '''
from gnome.outputters import Outputter


class Out(Outputter):
    got = []

    def write_output(self, step_num, islast_step=False):
        super().write_output(step_num, islast_step)
        if self._write_step:
            self.got.append(step_num)


model = gs.Model(start_time=T0, duration=timedelta(hours=4), time_step=900)
model.spills += gs.point_line_spill(num_elements=1, start_position=(0, 0, 0), release_time=T0)
o = Out(output_timestep=timedelta(minutes=45), output_start_time=T0 + timedelta(hours=1), output_zero_step=False, output_last_step=False)
model.outputters += o
model.full_run()
want = [4, 7, 10, 13, 16]
if o.got != want:
    fail("written at steps %s, expected %s" % (o.got, want))
''',
    "an output start time after the start of the run and an output interval longer than the time step",
    "from the second output on, output is written one step early")

bug('c20_wind_offset_hours', 'C20',
    [('gnome/environment/wind.py', "                off = np.timedelta64(off, 's')\n", "                off = np.timedelta64(off // 3600, 'h')\n")],
    PRE + '''
from gnome.utilities.time_utils import TZOffset
w = gs.Wind(timeseries=[(T0, (5, 0)), (T0 + timedelta(hours=1), (7, 0))], units='m/s', timezone_offset=TZOffset(0))
w.timezone_offset = TZOffset(-3.5)
got = w.timeseries['time'][0].astype('datetime64[s]').astype(datetime)
if got != T0 - timedelta(hours=3.5):
    fail("first record moved to %s" % got)
''',
    "time zone offsets that are not whole hours apart", "the records of a wind are moved by whole hours only")

bug('c23_fetch_units', 'C23',
    [('gnome/environment/waves.py', """        return Adios2.wave_height(U, self.water.get('fetch'))
""", """        return Adios2.wave_height(U, self.water.fetch)
""")],
    PRE + '''
wind = gs.constant_wind(10, 0)
h = []
for f, u in ((20000.0, 'm'), (20.0, 'km')):
    water = gs.Water(temperature=290.0)
    water.set('fetch', f, u)
    h.append(gs.Waves(wind, water).get_value(np.zeros((1, 3)), T0)[0][0])
if abs(h[0] - h[1]) > 1e-6:
    fail("wave height for 20 km of fetch is %s, for 20000 m %s" % (h[1], h[0]))
''',
    "a fetch given in other units than metres", "the wave height ignores the units of the fetch")

bug('c24_range_inside_step', 'C24',
    [('gnome/weatherers/cleanup.py', """        if self.active_range[1] < stop:
            stop = self.active_range[1]
""", """        elif self.active_range[1] < stop:
            stop = self.active_range[1]
""")],
    PRE + '''
from gnome.weatherers import Skimmer
model = gs.Model(start_time=T0, duration=timedelta(hours=2), time_step=1800)
wind = gs.constant_wind(2, 0)
water = gs.Water(temperature=290.0)
model.environment += [wind, water, gs.Waves(wind, water)]
model.spills += gs.point_line_spill(num_elements=4, start_position=(0, 0, 0), release_time=T0,
                                    substance=gs.GnomeOil('oil_ans_mp'), amount=1000, units='kg')
model.weatherers += Skimmer(amount=100, units='kg', efficiency=1.0, water=water,
                            active_range=(T0 + timedelta(minutes=40), T0 + timedelta(minutes=50)))
model.full_run()
got = list(model.spills.items())[0].mass_balance['skimmed']
if abs(got - 100) > 1e-3:
    fail("skimmed %s kg, asked for 100 kg" % got)
''',
    "a cleanup that starts and ends within one time step", "it goes on to the end of the step and removes more than asked for")

bug('c26_total_mass', 'C26',
    [('gnome/utilities/surface_concentration.py', """                        c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                    else:""", """                        c[id[id_bin]] = kernel(xy[:, id_bin]) * mass.sum()
                    else:""")],
    PRE + '''
from gnome.utilities.surface_concentration import surface_conc_kde
rs = np.random.RandomState(1)
n = 20
sc = {'spill_num': np.zeros(n, int), 'positions': np.c_[rs.rand(n) * 0.1, rs.rand(n) * 0.1, np.zeros(n)],
      'mass': np.ones(n), 'age': np.array([0] * 10 + [20000] * 10)}
surface_conc_kde(sc)
a = sc['surface_concentration'][:10].copy()
sc2 = {k: v[:10].copy() for k, v in sc.items()}
surface_conc_kde(sc2)
if not np.allclose(a, sc2['surface_concentration'], rtol=1e-9):
    fail("the concentration of young elements depends on older ones")
''',
    "elements of very different ages in one spill", "the concentration of the younger elements counts the mass of the older ones")

bug('c22_weibull_retry', 'C22',
    [('gnome/utilities/distributions.py', """                while np_array[x] < self.min_ or np_array[x] > self.max_:
                    np_array[x] = self.lambda_ * np.random.weibull(self.alpha)
""", """                if np_array[x] < self.min_ or np_array[x] > self.max_:
                    np_array[x] = np.clip(self.lambda_ * np.random.weibull(self.alpha), self.min_, self.max_)
""")],
    PRE + '''
from gnome.utilities.distributions import WeibullDistribution
a = np.zeros(4000)
np.random.seed(1)
WeibullDistribution(alpha=1.8, lambda_=0.0005, min_=0.0004, max_=0.0006).set_values(a)
if len(np.unique(a)) < 3900:
    fail("%d values lie on the bounds" % (4000 - len(np.unique(a))))
''',
    "a distribution with both bounds, cutting off a good part of it", "values pile up on the bounds instead of following the truncated distribution")
