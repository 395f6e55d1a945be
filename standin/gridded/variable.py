import hashlib
from collections import OrderedDict
import numpy as np

from .utilities import _reorganize_spatial_data
from .time import Time
from .grids import Grid
from .depth import Depth


class _Memo(object):
    def _get_hash(self, points, time):
        return (hashlib.sha1(np.ascontiguousarray(points)).hexdigest(),
                hash(time))

    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
        if _hash is None:
            _hash = self._get_hash(points, time)
        if D is None:
            return
        if len(D) > 4:
            D.popitem(last=False)
        if _copy:
            result = result.copy()
        D[_hash] = result

    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
        if _hash is None:
            _hash = self._get_hash(points, time)
        if D is not None and _hash in D:
            return D[_hash].copy() if _copy else D[_hash]
        return None


class Variable(_Memo):
    default_names = []
    cf_names = []
    _default_component_types = {'time': Time, 'grid': Grid, 'depth': Depth}

    def __init__(self, name=None, units=None, time=None, data=None, grid=None,
                 depth=None, data_file=None, grid_file=None, dataset=None,
                 varname=None, fill_value=0, location=None, attributes=None,
                 surface_boundary_condition='extrapolate',
                 bottom_boundary_condition='mask', *args, **kwargs):
        T = self._default_component_types['time']
        self._units = units
        if time is None:
            time = T.constant_time()
        elif not isinstance(time, Time):
            time = T(time)
        self._time = time
        self.data = data
        self.grid = grid
        self.depth = depth
        self.data_file = data_file
        self.grid_file = grid_file
        self.varname = varname
        self.fill_value = fill_value
        self.location = location
        self.attributes = attributes
        self.surface_boundary_condition = surface_boundary_condition
        self.bottom_boundary_condition = bottom_boundary_condition
        self._result_memo = OrderedDict()
        super(Variable, self).__init__(name=name, *args, **kwargs)

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, u):
        self._units = u

    @property
    def time(self):
        return self._time

    @time.setter
    def time(self, t):
        self._time = t

    @classmethod
    def _gen_varname(cls, filename=None, dataset=None, names_list=None,
                     std_names_list=None):
        from .utilities import get_dataset
        df = dataset if dataset is not None else get_dataset(filename)
        for n in (names_list or cls.default_names):
            if n in df.variables:
                return n
        for n in (std_names_list or cls.cf_names):
            for v in df.variables.values():
                if getattr(v, 'standard_name', None) == n:
                    return v.name
        raise ValueError('Default names not found')

    def _at_time_index(self, i, pts):
        d = np.ma.filled(np.ma.masked_invalid(np.asarray(self.data[i])), 0.)
        if d.ndim == 3:
            d = d[getattr(self.depth, 'surface_index', -1)]
        return self.grid.interpolate_var_to_points(pts, d,
                                                   fill_value=self.fill_value)

    def at(self, points, time, units=None, extrapolate=False, _hash=None,
           _mem=True, _auto_align=True, unmask=False, **kwargs):
        pts = _reorganize_spatial_data(points)
        if len(self.time) == 1:
            d = np.asarray(self.data)
            while d.ndim > 2:
                d = d[0]
            value = self.grid.interpolate_var_to_points(
                pts, d, fill_value=self.fill_value)
        else:
            if not extrapolate:
                self.time.valid_time(time)
            if time <= self.time.min_time:
                value = self._at_time_index(0, pts)
            elif time >= self.time.max_time:
                value = self._at_time_index(len(self.time) - 1, pts)
            else:
                i = self.time.index_of(time, extrapolate)
                a = self.time.interp_alpha(time, extrapolate)
                v0 = self._at_time_index(i - 1, pts)
                v1 = self._at_time_index(i, pts)
                value = v0 + (v1 - v0) * a
        if unmask:
            value = np.ma.filled(value, self.fill_value)
        return value.reshape(-1, 1)

    def is_constant(self):
        return len(self.time) == 1


class VectorVariable(_Memo):
    default_names = {}
    cf_names = {}
    comp_order = []
    _default_component_types = {'time': Time, 'grid': Grid, 'depth': Depth,
                                'variable': Variable}

    def __init__(self, name=None, units=None, time=None, variables=None,
                 grid=None, depth=None, grid_file=None, data_file=None,
                 dataset=None, varnames=None, filename=None,
                 grid_topology=None, load_all=False,
                 surface_boundary_condition='extrapolate',
                 bottom_boundary_condition='mask', *args, **kwargs):
        self.variables = variables
        self._units = units
        self._time = time if time is not None else (
            variables[0].time if variables else None)
        self._grid = grid if grid is not None else (
            variables[0].grid if variables else None)
        self._depth = depth
        self.grid_file = grid_file
        self.data_file = data_file
        self._result_memo = OrderedDict()
        super(VectorVariable, self).__init__(name=name, *args, **kwargs)

    @classmethod
    def _gen_varnames(cls, filename=None, dataset=None, names_dict=None,
                      std_names_dict=None):
        from .utilities import get_dataset
        df = dataset if dataset is not None else get_dataset(filename)
        out = []
        for c in cls.comp_order:
            for n in cls.default_names.get(c, []):
                if n in df.variables:
                    out.append(n)
                    break
        return out

    @property
    def varnames(self):
        return [getattr(v, 'varname', None) for v in self.variables]

    @property
    def units(self):
        if self._units is not None:
            return self._units
        us = [v.units for v in self.variables]
        return us[0] if all(u == us[0] for u in us) else us

    @units.setter
    def units(self, u):
        self._units = u
        for v in self.variables:
            v.units = u

    @property
    def time(self):
        return self._time

    @time.setter
    def time(self, t):
        self._time = t
        for v in self.variables:
            v.time = t

    @property
    def grid(self):
        return self._grid

    @grid.setter
    def grid(self, g):
        self._grid = g
        for v in self.variables:
            v.grid = g

    @property
    def depth(self):
        return self._depth

    @property
    def is_data_on_nodes(self):
        return True

    @property
    def dimension_ordering(self):
        return ['time', 'lat', 'lon']

    @property
    def data_shape(self):
        return np.asarray(self.variables[0].data).shape

    def is_constant(self):
        return len(self.time) == 1

    def at(self, points, time, units=None, extrapolate=False, memoize=True,
           _hash=None, _mem=True, _auto_align=True, unmask=False, **kwargs):
        pts = _reorganize_spatial_data(points)
        if _hash is None:
            _hash = self._get_hash(pts, time)
        cols = []
        for v in self.variables:
            cols.append(np.ma.asarray(v.at(pts, time, units=units,
                                           extrapolate=extrapolate,
                                           unmask=unmask)).reshape(-1))
        if unmask:
            return np.column_stack([np.asarray(c) for c in cols])
        return np.ma.column_stack(cols)
