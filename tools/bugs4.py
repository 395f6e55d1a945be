import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import bug
from pre import PRE

bug('c13_close_enough', 'C13',
    [('gnome/gnomeobject.py', """                if not updated and self._attr_changed(getattr(self, k),
                                                      attrs[k]):
                    updated = True
                if not getattr(self, k) is attrs[k] or getattr(self, k) != attrs[k]:
                    try:
""", """                # nothing to do for a number that only went through text
                if (isinstance(getattr(self, k), float) and
                        isinstance(attrs[k], float) and
                        np.isclose(getattr(self, k), attrs[k], atol=0)):
                    attrs.pop(k)
                    continue

                if not updated and self._attr_changed(getattr(self, k),
                                                      attrs[k]):
                    updated = True
                if not getattr(self, k) is attrs[k] or getattr(self, k) != attrs[k]:
                    try:
""")],
    PRE + '''
m = gs.Model(start_time=T0)
m.movers += gs.RandomMover(diffusion_coef=100000.0)
m.movers[0].update_from_dict({'diffusion_coef': 100000.5})
if m.movers[0].diffusion_coef != 100000.5:
    fail("diffusion coefficient is %s after it was edited to 100000.5" % m.movers[0].diffusion_coef)
''',
    "an edit of a number by less than one part in 100000",
    "updating an object with an edited description does not apply the edit")

bug('c19_same_shape', 'C19',
    [('gnome/utilities/projections.py', """        bb = np.asarray(bounding_box, dtype=np.float64)

        self.center = np.mean(bb, axis=0)
        self.offset = np.array(image_size, dtype=np.float64) / 2.0

        lon_scale = np.cos(np.deg2rad(self.center[1]))
""", """        bb = np.asarray(bounding_box, dtype=np.float64)

        panned = (self.scale is not None and
                  np.allclose(np.diff(bb, axis=0), self._extent) and
                  tuple(image_size) == tuple(self.image_size))

        self.center = np.mean(bb, axis=0)
        self.offset = np.array(image_size, dtype=np.float64) / 2.0
        self._extent = np.diff(bb, axis=0)

        if panned:
            # same zoom, only another part of the map
            self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
                              self.to_lonlat((float(image_size[0]), 0.0)))
            return

        lon_scale = np.cos(np.deg2rad(self.center[1]))
""")],
    PRE + '''
from gnome.utilities.projections import FlatEarthProjection
a = FlatEarthProjection(((0, 0), (10, 5)), (500, 500))
a.set_scale(((20, 60), (30, 65)), (500, 500))
b = FlatEarthProjection(((20, 60), (30, 65)), (500, 500))
x, y = a.to_pixel([(21.0, 61.0, 0.0)])[0], b.to_pixel([(21.0, 61.0, 0.0)])[0]
if abs(x - y).max() > 1e-6:
    fail("a projection set to another box gives %s, a new one %s" % (x, y))
''',
    "a flat-earth projection set to a box of the same extent at another latitude, with the same image size",
    "longitudes are scaled with the cosine of the former middle latitude")

bug('c21_nearly_closed', 'C21',
    [('gnome/utilities/file_tools/haz_files.py', """        if (points[0, 0] == points[-1, 0] and
                points[0, 1] == points[-1, 1]):
""", """        if np.allclose(points[0], points[-1]):
""")],
    PRE + '''
import os, tempfile
from gnome.utilities.file_tools.haz_files import ReadBNA
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.bna')
with open(p, 'w') as f:
    f.write('"a","1",4\\n-120.0,40.0\\n-119.9,40.0\\n-119.9,40.1\\n-120.0005,40.0003\\n')
n = len(ReadBNA(p)[0][0])
os.remove(p)
os.rmdir(d)
if n != 4:
    fail("%d of the 4 points of the polygon are read" % n)
''',
    "a polygon in a coast file that is not closed and whose last point is within a few hundred metres of its first, far from longitude 0",
    "the last point of the polygon is lost")

bug('c16_kept_rows', 'C16',
    [('gnome/utilities/shapefile_builder.py', """    def rewind(self):
        self.data_frames = []
""", """    def rewind(self):
        # nothing has been collected yet but the zero step
        if len(self.data_frames) > 1:
            self.data_frames = []
""")],
    PRE + '''
import os, tempfile, shutil
import geopandas as gpd
d = tempfile.mkdtemp()
m = gs.Model(start_time=T0, duration=timedelta(hours=1), time_step=900)
m.spills += gs.point_line_spill(num_elements=3, start_position=(0, 0, 0), release_time=T0, amount=100, units='kg')
m.outputters += gs.ShapeOutput(os.path.join(d, 'a.zip'))
m.step()
m.rewind()
m.full_run()
n = len(gpd.read_file(os.path.join(d, 'a.zip')))
shutil.rmtree(d)
if n != 15:
    fail("%d records of 3 elements in 5 steps" % n)
''',
    "a run given up after its first step and started over",
    "the shapefile holds the elements of the first step twice")
