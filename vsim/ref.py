"""Plain reference for weighted, binned, masked means of simple statistics.

Written from the documentation, in scalar Python over single evaluation units;
shares no code with the repository.
"""
import datetime
import math

import numpy as np

from vsim import gen

STATS = {
    'Error': lambda p, t: p - t,
    'AbsoluteError': lambda p, t: abs(p - t),
    'SquaredError': lambda p, t: (p - t) ** 2,
    'PredictionPassthrough': lambda p, t: p,
    'TargetPassthrough': lambda p, t: t,
    'RMSE': lambda p, t: (p - t) ** 2,
}


def area_weights(lats):
  order = sorted(range(len(lats)), key=lambda i: lats[i])
  x = [math.radians(lats[i]) for i in order]
  mids = [(a + b) / 2 for a, b in zip(x, x[1:])]
  lo = max(x[0] - (x[1] - x[0]) / 2, -math.pi / 2)
  hi = min(x[-1] + (x[-1] - x[-2]) / 2, math.pi / 2)
  edges = [lo] + mids + [hi]
  w = [0.0] * len(lats)
  for k, i in enumerate(order):
    w[i] = math.sin(edges[k + 1]) - math.sin(edges[k])
  mean = sum(w) / len(w)
  return {lats[i]: w[i] / mean for i in range(len(lats))}


def _in_lon(lon, lo, hi):
  lon, lo, hi = lon % 360, lo % 360, hi % 360
  if hi > lo:
    return lo <= lon <= hi
  return lon <= hi or lon >= lo


def _dt(ns):
  return datetime.datetime.fromtimestamp(int(ns) // 10**9,
                                         datetime.timezone.utc)


def labels(name, d, unit, land):
  """Bin labels the unit belongs to."""
  lat, lon = unit['latitude'], unit['longitude']
  init, lead = unit['init_time'], unit['lead_time']
  if name in ('regions', 'regions_land'):
    out = [k for k, (a, o) in gen.REGIONS.items()
           if a[0] <= lat <= a[1] and _in_lon(lon, *o)]
    if name == 'regions_land' and land[(lat, lon)]:
      out += [f'{k}_land' for k in out]
    return out
  if name in ('landsea', 'landsea_global'):
    out = ['land' if land[(lat, lon)] else 'sea']
    return out + (['global'] if name == 'landsea_global' else [])
  if name == 'latbins':
    return [s for s in (-90, -30, 30) if s <= lat <= s + 60]
  if name == 'lonbins':
    return [s for s in (0, 90, 180, 270) if _in_lon(lon, s, s + 90)]
  if name == 'sets_lon':
    out = ['global']
    for k, s in (('a', d['lon'][:1]), ('b', d['lon'][:2])):
      out.append(k if lon in s else f'not_in_{k}')
    return out
  if name == 'init_hour':
    return [_dt(init).hour]
  if name == 'init_hour_global':
    return [str(_dt(init).hour), 'global']
  if name == 'init_day':
    return [_dt(init).timetuple().tm_yday]
  if name == 'lead_hour':
    return [float(lead // (3600 * 10**9))]
  if name == 'valid_hour':
    return [_dt(init + lead).hour]
  if name == 'init_sets':
    h = _dt(init).hour
    return ['global'] + (['am'] if h in (0, 6) else []) + (
        ['pm'] if h in (12, 18) else [])
  if name == 'lead_sets':
    h = lead // (3600 * 10**9)
    return (['short'] if h in (0, 6, 12) else []) + (['d1'] if h == 24 else [])
  raise KeyError(name)


def mean(stat, var, d, agg, mask=None):
  """{(kept coords ..., bin labels ...): mean} for one statistic, one variable.

  Kept dims come in sorted order of name, then bins in the given order.
  """
  p, t = gen.make_data(d)
  p, t = p[var], t[var]
  init, lead = gen.times_of(d)
  init = [int(x) for x in init.astype('datetime64[ns]').astype('int64')]
  lead = [int(x) for x in lead.astype('timedelta64[ns]').astype('int64')]
  pi = {int(x): i for i, x in enumerate(p.init_time.values.astype('int64'))}
  pl = {int(x): i for i, x in enumerate(p.lead_time.values.astype('int64'))}
  tv = {int(x): i for i, x in enumerate(t.valid_time.values.astype('int64'))}
  extra = [x for x in ('level', 'number') if x in p.dims]
  order = ['init_time', 'lead_time'] + extra + ['latitude', 'longitude']
  pv = p.transpose(*order).values
  tt = t.transpose('valid_time', *[x for x in extra if x in t.dims],
                   'latitude', 'longitude').values
  frac = gen.land_fraction(d).values
  land = {(la, lo): frac[i, j] >= 0.5 for i, la in enumerate(d['lat'])
          for j, lo in enumerate(d['lon'])}
  areas = area_weights(d['lat']) if agg['weights'] else None
  fn = STATS[stat]
  kept = sorted(set(order) - set(agg['reduce']))
  has_level = 'level' in extra
  sums = {}
  levels = range(p.sizes['level']) if has_level else [None]
  members = range(p.sizes['number']) if 'number' in extra else [None]
  for it in init:
    for lt in lead:
      for lev in levels:
        for mem in members:
          for i, la in enumerate(d['lat']):
            for j, lo in enumerate(d['lon']):
              ip = (pi[it], pl[lt])
              iq = (tv[it + lt],)
              if lev is not None:
                ip, iq = ip + (lev,), iq + (lev,)
              if mem is not None:
                ip = ip + (mem,)
              x, y = float(pv[ip + (i, j)]), float(tt[iq + (i, j)])
              s = fn(x, y)
              unit = dict(init_time=it, lead_time=lt, latitude=la, longitude=lo,
                          level=lev, number=mem)
              use = True
              if agg['masked'] and mask is not None and not mask(x, y, unit):
                use = False
              if agg['skipna'] and s != s:
                use = False
              w = areas[la] if areas else 1.0
              keys = [tuple(unit[k] for k in kept)]
              for b in agg['bins']:
                keys = [k + (l,) for k in keys for l in labels(b, d, unit, land)]
              for k in keys:
                a = sums.setdefault(k, [0.0, 0.0])
                if use:
                  a[0] += w * s
                  a[1] += w
  out = {}
  for k, (a, b) in sums.items():
    out[k] = a / b if b else float('nan')
  return kept, out


def lookup(da, kept, agg):
  """{key: value} view of a result DataArray with the same keys."""
  dims = kept + [gen.BIN_DIM[b] for b in agg['bins']]
  if set(dims) != set(da.dims):
    return None
  da = da.transpose(*dims)
  cols = []
  for dim in dims:
    c = da[dim].values
    if dim in ('init_time', 'lead_time'):
      c = [int(x) for x in c.astype('int64')]
    elif dim in ('level', 'number'):
      c = list(range(len(c)))
    else:
      c = [x.item() if hasattr(x, 'item') else x for x in c]
    cols.append(c)
  out = {}
  for idx in np.ndindex(*da.shape):
    out[tuple(cols[k][i] for k, i in enumerate(idx))] = float(da.values[idx])
  return out


def check(da, stat, var, d, agg, mask=None, rtol=1e-8, atol=1e-8):
  """Text describing a deviation of a result from the definition, or None."""
  kept, want = mean(stat, var, d, agg, mask)
  got = lookup(da, kept, agg)
  if got is None:
    return f'{stat}.{var}: dims {da.dims}, expected {kept} + bins {agg["bins"]}'
  for k, v in want.items():
    if k not in got:
      return f'{stat}.{var}: no entry {k}'
    v2 = math.sqrt(v) if stat == 'RMSE' and v == v else v
    g = got[k]
    if (g != g) != (v2 != v2) or (g == g and abs(g - v2) > atol + rtol * abs(v2)):
      return f'{stat}.{var}: {g!r} instead of {v2!r} at {k}'
  for k, g in got.items():
    if k not in want and g == g:
      return f'{stat}.{var}: unexpected value {g!r} at {k}'
  return None
