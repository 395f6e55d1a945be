import os
import numpy as np


def get_dataset(ncfile, dataset=None):
    import netCDF4
    if dataset is not None:
        return dataset
    if isinstance(ncfile, netCDF4.Dataset):
        return ncfile
    if isinstance(ncfile, (list, tuple)):
        if len(ncfile) == 1:
            return netCDF4.Dataset(os.fspath(ncfile[0]))
        return netCDF4.MFDataset([os.fspath(f) for f in ncfile])
    return netCDF4.Dataset(os.fspath(ncfile))


def _reorganize_spatial_data(points):
    """(N, 2or3) array from a point, a Nx2/Nx3 array or a tuple of columns"""
    if points is None:
        return None
    points = np.array(points)
    shp = points.shape
    if points.dtype == object:
        raise TypeError('points must be an array-like of points')
    if len(shp) == 1:
        if shp[0] > 3:
            raise ValueError('point must be of length 2 or 3')
        return points.reshape(1, shp[0])
    return points


def _align_results_to_spatial_data(result, points):
    return result


def gen_celltree_mask_from_center_mask(center_mask, sl):
    m = np.asarray(center_mask[sl]).astype(bool)
    return m


def convert_mask_to_numpy_mask(mask_var):
    return np.asarray(mask_var[:]).astype(bool)
