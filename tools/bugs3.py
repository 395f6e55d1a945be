import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import bug
from pre import PRE

bug('c17_shared_guess', 'C17',
    [('lib_gnome/OSSMTimeValue_c.cpp', """	startIndex = 0;
	endIndex = n - 1;

	while(endIndex - startIndex > 3) {
		midIndex = (startIndex + endIndex) / 2;
""", """	// time mostly goes forward: start where the last search ended
	static long lastIndex = 0;
	static Seconds lastTime = 0;

	startIndex = (forTime >= lastTime && lastIndex < n - 1) ? lastIndex : 0;
	endIndex = n - 1;

	while(endIndex - startIndex > 3) {
		midIndex = (startIndex + endIndex) / 2;
"""), ('lib_gnome/OSSMTimeValue_c.cpp', """	for (long i = startIndex; i < n; i++) {
		if (forTime <= INDEXH(timeValues, i).time) {
			dt = INDEXH(timeValues, i).time - forTime;
""", """	lastIndex = startIndex;
	lastTime = forTime;

	for (long i = startIndex; i < n; i++) {
		if (forTime <= INDEXH(timeValues, i).time) {
			dt = INDEXH(timeValues, i).time - forTime;
""")],
    PRE + '''
from gnome.environment.wind import Wind
def series(hours):
    return Wind(timeseries=[(T0 + timedelta(hours=h), (1.0 + k * k, 90.0)) for k, h in enumerate(hours)], units='m/s')
fine, coarse = series(range(0, 24)), series(range(0, 240, 10))
fine.get_value(T0 + timedelta(hours=20))
got = coarse.get_value(T0 + timedelta(hours=25))[0]
if abs(got - 7.5)  > 1e-6:
    fail("wind at 25 h is %s, expected 7.5" % got)
''',
    "two series with different spacing (or one edited in between), the second asked for a later time than the first",
    "a series is interpolated in an interval that does not contain the time asked for")

bug('c18_year_slot', 'C18',
    [('lib_gnome/ShioTimeValue_c.cpp', "	short yearMinus1990 = year-1990;\n", "	short yearMinus1990 = (year-1990) & 31;	// slots are used again\n")],
    PRE + '''
L = ['[StationInfo]', 'Type=H', 'Name=SOME PLACE', 'Latitude=18.5', 'Longitude=-66.1', '[Constituents]',
     'DatumControls.datum=1.0', 'DatumControls.FDir=0', 'DatumControls.EDir=180', 'DatumControls.L2Flag=0', 'DatumControls.HFlag=0', 'DatumControls.RotFlag=0',
     'H=0.9 0.3 0.2 0.1 0.1' + ' 0.0' * 32, 'kPrime=100 120 80 200 190' + ' 0.0' * 32, '[Offset]',
     'HighTime=0.0 1', 'LowTime=0.0 1', 'HighHeight_Mult=1.0 1', 'HighHeight_Add=0.0 1', 'LowHeight_Mult=1.0 1', 'LowHeight_Add=0.0 1']
text = '\\n'.join(L) + '\\n'
open('shio.txt', 'w').write(text)
import subprocess
code = """
import sys
from datetime import datetime
from gnome.environment import Tide
t = Tide('shio.txt')
from gnome.utilities.time_utils import date_to_sec
for y in map(int, sys.argv[1:]):
    v = t.cy_obj.get_time_value([date_to_sec(datetime(y, 3, 5, 7))])
print(repr(float(v[0]['u'][0])))
"""
def ask(*years):
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code] + [str(y) for y in years], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-800:])
        sys.exit(1 if 'value' in r.stderr else 2)
    return float(r.stdout)
a, b = ask(2024), ask(1992, 2024)
if abs(a - b) > 1e-9:
    fail("the tide of 2024 is %s, but %s once 1992 was asked for" % (a, b))
''',
    "a tide asked for two years that are 32 years apart",
    "the node factors of one year are used for another")

bug('c27_merge_names', 'C27',
    [('gnome/model.py', """            for item in new_oc:
                if item not in my_oc:
                    my_oc += item
""", """            have = [(type(item), item.name) for item in my_oc]
            for item in new_oc:
                if (type(item), item.name) not in have:
                    my_oc += item
""")],
    PRE + '''
from gnome.movers import SimpleMover
a, b = (gs.Model(start_time=T0, duration=timedelta(hours=1), time_step=900) for i in range(2))
a.movers += SimpleMover((1, 0, 0), name='mover')
b.movers += SimpleMover((0, 1, 0), name='mover')
a.merge(b)
if len(a.movers) != 2:
    fail("a mover of the other model is lost: %s" % [m.velocity for m in a.movers])
''',
    "two models with different objects of one class that have the same name",
    "objects of the other model are dropped when it is merged")

bug('c24_average_water', 'C24',
    [('gnome/weatherers/cleanup.py', """            avg_frac_water = ((data['mass'] * data['frac_water']).
                              sum())/data['mass'].sum()
""", """            avg_frac_water = np.mean(data['frac_water'])
""")],
    PRE + '''
from gnome.weatherers import Skimmer
class W(Skimmer):
    pass
s = Skimmer(10, 'kg', efficiency=1, active_range=(T0, T0 + timedelta(hours=2)))
got = s._avg_frac_oil({'mass': np.array([3.0, 1.0]), 'frac_water': np.array([0.8, 0.0])})
if abs(got - 0.4) > 1e-9:
    fail("average fraction of oil %s, expected 0.4" % got)
''',
    "elements of different mass with different water content",
    "a skimmer removes too much or too little oil")

bug('c16_second_run_start', 'C16',
    [('gnome/outputters/outputter.py', "        self._write_step = True\n        self._is_first_output = True\n        self._surf_conc_computed = True\n",
      "        self._write_step = True\n        self._is_first_output = self.output_start_time is None\n        self._surf_conc_computed = True\n")],
    PRE + '''
from gnome.outputters import TrajectoryGeoJsonOutput
model = gs.Model(start_time=T0, duration=timedelta(hours=8), time_step=3600)
model.spills += gs.point_line_spill(num_elements=2, start_position=(0, 0, 0), release_time=T0)
out = TrajectoryGeoJsonOutput(output_start_time=T0 + timedelta(hours=3), output_timestep=timedelta(hours=2), output_zero_step=False, output_last_step=False)
model.outputters += out
def steps():
    got = []
    model.rewind()
    while True:
        try:
            r = model.step()
        except StopIteration:
            return got
        if any('TrajectoryGeoJsonOutput' in str(k) for k in r):
            got.append(model.current_time_step)
first = steps()
second = steps()
if first != second or first[:1] != [3]:
    fail("output of the first run at steps %s, of the second at %s" % (first, second))
''',
    "an outputter with a start time that is not a multiple of its interval",
    "output is written at other times than asked for")

bug('c28_mac_folder', 'C28',
    [('gnome/utilities/save_updater.py', "            if (prefix and name.find(prefix) != 0) or name.endswith('/'):\n", "            if (prefix and name.find(prefix) < 0) or name.endswith('/'):\n")],
    PRE + '''
import os, zipfile
from gnome.utilities.save_updater import extract_zipfile
with zipfile.ZipFile('a.zip', 'w') as z:
    z.writestr('model/', '')
    z.writestr('model/a.txt', 'mine')
    z.writestr('__MACOSX/model/a.txt', 'resource fork')
os.makedirs('out')
extract_zipfile('a.zip', 'out')
if open('out/a.txt').read() != 'mine':
    fail("a.txt is %r" % open('out/a.txt').read())
''',
    "an archive with one top-level folder and a resource folder that repeats its path",
    "a file of the save is overwritten by one outside its top-level folder")

bug('c25_earlier_interval', 'C25',
    [('lib_gnome/TimeGridVel_c.cpp', """		if(indexOfStart == fEndData.timeIndex) // passing into next interval
		{
			fStartData = fEndData;
			ClearLoadedData(&fEndData);
		}
		else
		{
			DisposeLoadedData(&fEndData);
		}
		
		//////////////////
		
		if(fStartData.dataHdl == 0 && indexOfStart >= 0) 
		{ // start data is not loaded
			err = this -> ReadTimeData(indexOfStart,&fStartData.dataHdl,errmsg);
			if(err) goto done;
			fStartData.timeIndex = indexOfStart;
		}	
		
		if(indexOfEnd < numTimesInFile && indexOfEnd""", """		if(indexOfStart >= 0 && indexOfStart + 1 >= fEndData.timeIndex && fEndData.timeIndex > indexOfStart - 2 && fEndData.dataHdl != 0) // still in use
		{
			fStartData = fEndData;
			ClearLoadedData(&fEndData);
		}
		else
		{
			DisposeLoadedData(&fEndData);
		}
		
		//////////////////
		
		if(fStartData.dataHdl == 0 && indexOfStart >= 0) 
		{ // start data is not loaded
			err = this -> ReadTimeData(indexOfStart,&fStartData.dataHdl,errmsg);
			if(err) goto done;
			fStartData.timeIndex = indexOfStart;
		}	
		
		if(indexOfEnd < numTimesInFile && indexOfEnd""")],
    PRE + '''
import netCDF4
from gnome.movers import c_GridCurrentMover
d = netCDF4.Dataset('cur.nc', 'w', format='NETCDF3_CLASSIC')
d.grid_type = 'REGULAR'
for n, k in (('time', None), ('lat', 5), ('lon', 5)):
    d.createDimension(n, k)
t = d.createVariable('time', 'f8', ('time',))
t.units = 'hours since 2020-01-01 00:00:00'
d.createVariable('lat', 'f8', ('lat',))[:] = 0.1 * np.arange(5)
d.createVariable('lon', 'f8', ('lon',))[:] = 0.1 * np.arange(5)
for n in ('water_u', 'water_v'):
    v = d.createVariable(n, 'f8', ('time', 'lat', 'lon'), fill_value=-9999.0)
    v.units = 'm/s'
    for k in range(8):
        v[k] = np.full((5, 5), float(k * k))
t[:] = np.arange(8.0)
d.close()


def asked(*hours):
    """how far an element moves in the step at the last of the hours, once those before were asked for"""
    m = c_GridCurrentMover('cur.nc')
    model = gs.Model(start_time=T0, duration=timedelta(hours=7), time_step=60)
    model.spills += gs.point_line_spill(num_elements=1, start_position=(0.15, 0.15, 0), release_time=T0)
    model.movers += m
    model.step()
    sc = list(model.spills.items())[0]
    for h in hours:
        when = T0 + timedelta(hours=h)
        m.prepare_for_model_step(sc, 60, when)
        r = m.get_move(sc, 60, when)[0][0]
        m.model_step_is_done(sc)
    return r
for other in (0.5, 1.5, 2.5, 3.5, 4.5, 5.5):
    a, b = asked(2.5), asked(other, 2.5)
    if abs(a - b) > 1e-12:
        fail("the move at 2.5 h is %s, but %s once %s h was asked for" % (a, b, other))
''',
    "an element moved in an interval of the data other than the next one after the interval asked for before (time steps longer than the data interval, or a rewind)",
    "the current of another data time is used as the start of the interval")
