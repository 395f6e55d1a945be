import numpy as np


class GridBase(object):
    def __init__(self, filename=None, grid_topology=None, *args, **kwargs):
        self.filename = filename
        self.grid_topology = grid_topology
        self._cell_tree = None
        super(GridBase, self).__init__(*args, **kwargs)

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, grid_type=None,
                    grid_topology=None, data_file=None, grid_file=None,
                    _default_types=None, **kwargs):
        from .utilities import get_dataset
        ds = dataset if dataset is not None else get_dataset(
            filename or grid_file or data_file)
        gt = grid_topology or {}
        lon = gt.get('node_lon', 'lon')
        lat = gt.get('node_lat', 'lat')
        kwargs.pop('obj_type', None)
        kwargs.pop('id', None)
        return cls(node_lon=np.array(ds[lon][:]), node_lat=np.array(ds[lat][:]),
                   filename=filename, grid_topology=grid_topology, **kwargs)


class Grid_R(GridBase):
    """rectangular grid: 1-d node_lon, node_lat"""
    def __init__(self, node_lon=None, node_lat=None, node_mask=None,
                 node_dimensions=None, node_coordinates=None,
                 center_lon=None, center_lat=None, *args, **kwargs):
        self.node_lon = np.asarray(node_lon, dtype=float)
        self.node_lat = np.asarray(node_lat, dtype=float)
        self.center_mask = None
        super(Grid_R, self).__init__(*args, **kwargs)

    @property
    def nodes(self):
        return np.stack(np.meshgrid(self.node_lon, self.node_lat), axis=-1)

    @property
    def centers(self):
        lon = (self.node_lon[:-1] + self.node_lon[1:]) / 2
        lat = (self.node_lat[:-1] + self.node_lat[1:]) / 2
        return np.stack(np.meshgrid(lon, lat), axis=-1)

    def _axes(self):
        return self.node_lon, self.node_lat

    def infer_location(self, variable):
        return 'node'

    def interpolate_var_to_points(self, points, variable, fill_value=0,
                                  **kwargs):
        """bilinear; masked outside of the grid"""
        lon, lat = self._axes()
        data = np.asarray(variable, dtype=float)
        pts = np.asarray(points, dtype=float)
        x, y = pts[:, 0], pts[:, 1]
        slon, slat = 1, 1
        if lon[0] > lon[-1]:
            lon, data = lon[::-1], data[:, ::-1]
        if lat[0] > lat[-1]:
            lat, data = lat[::-1], data[::-1, :]
        inside = ((x >= lon[0]) & (x <= lon[-1]) &
                  (y >= lat[0]) & (y <= lat[-1]))
        i = np.clip(np.searchsorted(lon, x, side='right') - 1, 0, len(lon) - 2)
        j = np.clip(np.searchsorted(lat, y, side='right') - 1, 0, len(lat) - 2)
        a = (x - lon[i]) / (lon[i + 1] - lon[i])
        b = (y - lat[j]) / (lat[j + 1] - lat[j])
        val = (data[j, i] * (1 - a) * (1 - b) + data[j, i + 1] * a * (1 - b) +
               data[j + 1, i] * (1 - a) * b + data[j + 1, i + 1] * a * b)
        return np.ma.MaskedArray(np.where(inside, val, fill_value),
                                 mask=~inside)


class Grid_S(Grid_R):
    """'curvilinear' grid; this stand-in only supports rectilinear ones"""
    def __init__(self, node_lon=None, node_lat=None,
                 use_masked_boundary=False, *args, **kwargs):
        GridBase.__init__(self, *args, **kwargs)
        self.node_lon = np.asarray(node_lon, dtype=float)
        self.node_lat = np.asarray(node_lat, dtype=float)
        self.center_lon = self.center_lat = None
        self.center_mask = None
        self.use_masked_boundary = use_masked_boundary

    def _axes(self):
        return self.node_lon[0, :], self.node_lat[:, 0]

    @property
    def nodes(self):
        return np.stack((self.node_lon, self.node_lat), axis=-1)

    def _get_geo_mask(self, name):
        return None

    def build_celltree(self, use_mask=False):
        ny, nx = self.node_lon.shape
        nodes = self.nodes.reshape(-1, 2)
        faces = np.array([[j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1,
                           (j + 1) * nx + i]
                          for j in range(ny - 1) for i in range(nx - 1)])
        self._cell_tree = (None, nodes, faces)


class Grid_U(GridBase):
    def __init__(self, nodes=None, faces=None, *args, **kwargs):
        self.nodes = np.asarray(nodes, dtype=float)
        self.faces = np.asarray(faces)
        self.face_coordinates = None
        super(Grid_U, self).__init__(*args, **kwargs)

    def build_face_coordinates(self):
        self.face_coordinates = self.nodes[self.faces].mean(axis=1)


class Grid(object):
    @staticmethod
    def _get_grid_type(dataset, grid_topology=None, _default_types=None,
                       **kwargs):
        types = dict(_default_types or (('ugrid', Grid_U), ('sgrid', Grid_S),
                                        ('rgrid', Grid_R)))
        gt = getattr(dataset, 'grid_type', '').lower()
        if gt in types:
            return types[gt]
        lon = (grid_topology or {}).get('node_lon', 'lon')
        return types['rgrid' if dataset[lon].ndim == 1 else 'sgrid']

    @staticmethod
    def from_netCDF(filename=None, dataset=None, grid_type=None,
                    grid_topology=None, _default_types=None, **kwargs):
        from .utilities import get_dataset
        ds = dataset if dataset is not None else get_dataset(filename)
        cls = Grid._get_grid_type(ds, grid_topology, _default_types)
        return cls.from_netCDF(filename=filename, dataset=ds,
                               grid_topology=grid_topology, **kwargs)
