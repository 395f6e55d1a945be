class DepthBase(object):
    _default_component_types = {'time': None, 'grid': None, 'variable': None}

    def __init__(self, surface_index=-1, bottom_index=0, *args, **kwargs):
        self.surface_index = surface_index
        self.bottom_index = bottom_index
        self.filename = kwargs.pop('filename', None)
        super(DepthBase, self).__init__(*args, **kwargs)

    @classmethod
    def from_netCDF(cls, surface_index=-1, **kwargs):
        return cls(surface_index=surface_index)


class L_Depth(DepthBase):
    pass


class S_Depth(DepthBase):
    pass


class ROMS_Depth(S_Depth):
    pass


class FVCOM_Depth(S_Depth):
    pass


class Depth(object):
    @classmethod
    def from_netCDF(cls, **kwargs):
        return cls.surf_types[0]()
