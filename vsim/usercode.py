"""Statistics and helpers as a user of the library would write them."""
import numpy as np
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base as loader_base
from weatherbenchX.metrics import base
import xarray as xr


class RawP(base.PerVariableStatistic):
  """Hands out the predictions themselves, not a copy."""

  def _compute_per_variable(self, predictions, targets):
    return predictions


class RawT(base.PerVariableStatistic):
  """Hands out the targets themselves, not a copy."""

  def _compute_per_variable(self, predictions, targets):
    return targets


class Archive(loader_base.DataLoader):
  """A forecast archive with its own loader, dense or sparse (one row per
  observation).  fail[0] counts down to one failing read."""

  def __init__(self, spec, **kw):
    super().__init__(**kw)
    self.spec = spec

  def _load_chunk_from_source(self, init_times, lead_times=None):
    spec = self.spec
    if spec['fail'][0] > 0:
      spec['fail'][0] -= 1
      if spec['fail'][0] == 0:
        spec['fail'][0] = -1
        raise OSError('injected read error')
    it = np.asarray(init_times).astype('datetime64[ns]')
    lt = np.asarray(lead_times).astype('timedelta64[ns]')
    if spec['kind'] == 'dense':
      ds = spec['ds'].sel(init_time=it, lead_time=lt)
      ds = ds.assign_coords(valid_time=ds['init_time'] + ds['lead_time'])
      return {k: v.copy() for k, v in ds.items()}
    rows = [r for a in it for r in spec['rows'] if r[0] == a and r[1] in lt]
    coords = dict(
        init_time=('index', np.array([r[0] for r in rows], 'datetime64[ns]')),
        lead_time=('index', np.array([r[1] for r in rows], 'timedelta64[ns]')),
        valid_time=('index', np.array([r[0] + r[1] for r in rows],
                                      'datetime64[ns]')),
        station=('index', np.array([r[2] for r in rows], int)),
        latitude=('index', np.array([r[3] for r in rows], float)))
    return {v: xr.DataArray(np.array([r[4][j] for r in rows], float),
                            dims='index', coords=coords)
            for j, v in enumerate(spec['vars'])}


def nearest(grid, x):
  return int(np.abs(np.asarray(grid) - float(x)).argmin())


class AtObservations(interpolations.Interpolation):
  """Nearest grid point at the time and place of every observation."""

  def interpolate_data_array(self, da, reference=None):
    idx = {}
    for dim in ('latitude', 'longitude'):
      idx[dim] = xr.DataArray(np.array([
          nearest(da[dim].values, x) for x in reference[dim].values], int), dims='index')
    for dim in ('init_time', 'lead_time'):
      at = {x: i for i, x in enumerate(da[dim].values.astype(np.int64))}
      unit = da[dim].dtype
      idx[dim] = xr.DataArray(np.array([
          at[x] for x in reference[dim].values.astype(unit).astype(np.int64)],
                                       int), dims='index')
    return da.isel(idx).assign_coords(index=reference['index'].values)
