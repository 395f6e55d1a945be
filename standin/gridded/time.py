from datetime import datetime, timedelta
import numpy as np


class OutOfTimeRangeError(ValueError):
    pass


class Time(object):
    _const_time = None

    def __init__(self, data=None, filename=None, varname=None,
                 tz_offset=None, tz_offset_name=None, origin=None,
                 displacement=None, *args, **kwargs):
        if data is None:
            data = [datetime(2000, 1, 1)]
        if isinstance(data, Time):
            data = data.data
        if origin is not None:
            data = np.asarray(list(data), dtype=object)
            data = data + (origin - data[0])
        if displacement is not None:
            data = np.asarray(list(data), dtype=object) + displacement
        self._data = None
        self.data = data
        self.filename = filename
        self.varname = varname
        self.tz_offset = tz_offset
        self.tz_offset_name = (tz_offset_name if tz_offset_name is not None
                               else 'No Timezone Specified')
        super(Time, self).__init__(*args, **kwargs)

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, d):
        arr = np.empty((len(list(d)),), dtype=object)
        for i, v in enumerate(d):
            if isinstance(v, np.datetime64):
                v = v.astype('datetime64[us]').astype(datetime)
            if isinstance(v, datetime) and v.tzinfo is not None:
                v = v.replace(tzinfo=None)
            arr[i] = v
        for a, b in zip(arr[:-1], arr[1:]):
            if not b > a:
                raise ValueError('Time sequence is not ascending or has '
                                 'duplicate entries')
        self._data = arr

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, varname=None,
                    datavar=None, tz_offset=None, **kwargs):
        import netCDF4
        from .utilities import get_dataset
        if dataset is None:
            dataset = get_dataset(filename)
        if datavar is not None:
            if hasattr(datavar, 'time') and datavar.time in dataset.dimensions:
                varname = datavar.time
            else:
                varname = (datavar.dimensions[0]
                           if 'time' in datavar.dimensions[0] else None)
        if varname is None:
            return cls.constant_time()
        v = dataset[varname]
        data = [datetime(d.year, d.month, d.day, d.hour, d.minute, d.second)
                for d in netCDF4.num2date(v[:], units=v.units)]
        return cls(data=data, filename=filename, varname=varname,
                   tz_offset=tz_offset)

    @classmethod
    def constant_time(cls):
        # one shared instance: constant things compare equal
        if cls.__dict__.get('_const_time') is None:
            cls._const_time = cls(data=[datetime(2000, 1, 1)])
        return cls._const_time

    @property
    def min_time(self):
        return self.data[0]

    @property
    def max_time(self):
        return self.data[-1]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def get_time_array(self):
        return self.data.copy()

    def time_in_bounds(self, time):
        return not (time < self.min_time or time > self.max_time)

    def valid_time(self, time):
        if time < self.min_time or time > self.max_time:
            raise OutOfTimeRangeError(
                'time specified ({0}) is not within the bounds of the time '
                '({1} to {2})'.format(time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(time)
        n = int(sum(1 for t in self.data if t < time))
        if extrapolate:
            if n == 0 and time <= self.min_time:
                return 0
            if n == len(self.data):
                return len(self.data) - 1 if False else n
        return n

    def interp_alpha(self, time, extrapolate=False):
        if not extrapolate:
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 > len(self.data) - 1:
            return 1
        if i0 == 0:
            return 0
        t0, t1 = self.data[i0 - 1], self.data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()
