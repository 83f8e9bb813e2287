"""The two worlds a property harness runs in: SymEnv (symbolic execution of
the rewritten source) and ConcEnv (the real, unmodified code and libraries)."""
import importlib
import logging
import math
import os
import random
import shutil
import sys
import tempfile
from fractions import Fraction

import numpy as np
import z3

from . import REPO
from . import arr as A
from . import core
from . import fakes
from . import geo
from . import load
from . import mashim
from . import npshim as N
from . import vals as V
from .core import Unsupported, ctx
from .vals import is_sym

TOL_SYM = Fraction(1, 10 ** 5)
TOL_CONC = 3e-6
WGS84 = ('GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,'
         '298.257223563,AUTHORITY["EPSG","7030"]],AUTHORITY["EPSG","6326"]],'
         'PRIMEM["Greenwich",0,AUTHORITY["EPSG","8901"]],UNIT["degree",'
         '0.0174532925199433,AUTHORITY["EPSG","9122"]],AXIS["Latitude",NORTH]'
         ',AXIS["Longitude",EAST],AUTHORITY["EPSG","4326"]]')


def log_handlers():
    d = logging.root.manager.loggerDict
    return {h: o for o in [logging.root] + [
        x for x in list(d.values()) if isinstance(x, logging.Logger)]
        for h in o.handlers}


class AssumeFailed(Exception):
    pass


class Mismatch(Exception):
    """the harness no longer fits the code (renamed entry point ...)"""


class EnvBase:
    sym = False

    def __init__(self):
        self.patches = []
        self.undo = []
        self.tmp = None
        self.cwd0 = None
        self.environ0 = None

    def setup(self):
        self.cwd0 = os.getcwd()
        self.tmp = tempfile.mkdtemp(prefix='sxv_')
        os.chdir(self.tmp)
        self.environ0 = dict(os.environ)
        self.log0 = log_handlers()

    def teardown(self):
        for o, k, v, had in reversed(self.patches):
            if had:
                setattr(o, k, v)
            else:
                delattr(o, k)
        self.patches = []
        for f in reversed(self.undo):
            f()
        self.undo = []
        for h, o in log_handlers().items():
            if h not in self.log0:
                o.removeHandler(h)
                h.close()
        os.environ.clear()
        os.environ.update(self.environ0)
        os.chdir(self.cwd0)
        t = self.tmp
        if t and os.path.basename(t).startswith('sxv_'):
            shutil.rmtree(t, ignore_errors=True)

    def patch(self, o, k, v):
        had = k in vars(o) if hasattr(o, '__dict__') else hasattr(o, k)
        self.patches.append((o, k, getattr(o, k, None), had))
        setattr(o, k, v)

    def provide(self, name, mod):
        """import of a library that is not installed"""
        if self.sym:
            self.stub(name, mod)
            return
        old = sys.modules.get(name)
        sys.modules[name] = mod
        self.undo.append(lambda: sys.modules.pop(name) if old is None else
                         sys.modules.__setitem__(name, old))

    def path(self, *p):
        f = os.path.join(self.tmp, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f

    def mkdir(self, *p):
        f = os.path.join(self.tmp, *p)
        os.makedirs(f, exist_ok=True)
        return f

    def fn(self, mod, name):
        m = self.load(mod) if isinstance(mod, str) else mod
        if not hasattr(m, name):
            raise self.mismatch('%s has no %s' % (m.__name__, name))
        return getattr(m, name)

    def config(self, sections, choose=True):
        p = self.path('conf', 'conf.cfg')
        with open(p, 'w') as f:
            for s, kv in sections.items():
                f.write('[%s]\n' % s)
                for k, v in kv.items():
                    f.write('%s = %s\n' % (k, v))
        if choose:
            self.fn('utilities.config', 'configparser').set_config_file(p)
        return p

    def base_config(self, table=None, more=None, choose=True, **extra):
        d = {'root': self.tmp, 'upwind_length': '0.01',
             'terrain_data': 'lc.img', 'dem_data': 'dem.img',
             'terrain_table': table or os.path.join(self.tmp, 'none.csv')}
        d.update(extra)
        return self.config(dict({'inputValues': d,
                                 'Logging': {'LogFile': 'x.log',
                                             'LogLevel': 'INFO',
                                             'Verbose': 'False'}},
                                **(more or {})), choose)

    # logic on both worlds
    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def close(self, a, b, scale=1.0):
        """a, b equal up to rounding (no nan)"""
        return self.nanclose(a, b, scale, nanok=False)

    def eqseq(self, a, b):
        return self.And(*[x == y for x, y in zip(a, b)]) if \
            len(a) == len(b) else False


class SymEnv(EnvBase):
    sym = True
    mismatch = Unsupported

    def __init__(self, bounds=None):
        super().__init__()
        self.nc = {}
        self.vectors = {}
        self.on_reproject = None
        self.csv_syms = {}
        self.commands = []
        self.git_ok = True
        self.g = fakes.FakeGdal(self)
        stubs = _static_stubs()
        stubs = dict(stubs, osgeo=self.g.osgeo, gdal=self.g.gdal,
                     netCDF4=fakes.make_netcdf(self, self.g),
                     pandas=fakes.make_pandas(self),
                     shapely=geo.make_shapely(), fiona=geo.make_fiona(self),
                     subprocess=fakes.make_subprocess(self), mpi4py=None)
        self.world = load.World(stubs)
        self.hits = {}

    def stub(self, name, mod):
        self.world.stubs[name] = mod

    def load(self, name):
        try:
            return self.world.load(name)
        except ModuleNotFoundError as ex:
            raise Unsupported('cannot load %s: %s' % (name, ex))

    def restart(self):
        """the repository's modules as in a new process"""
        self.world.mods.clear()

    def modules(self):
        """those of the process at work"""
        return dict(self.world.mods)

    def set_modules(self, mods):
        self.world.mods.clear()
        self.world.mods.update(mods)

    def main(self, name):
        """the module as a script"""
        try:
            return self.world.main(name)
        except ModuleNotFoundError as ex:
            raise Unsupported('cannot run %s: %s' % (name, ex))

    @property
    def np(self):
        return N.MODULE

    # -- inputs
    def _reg(self, name, kind, val):
        c = ctx()
        if name in c.inputs:
            raise Unsupported('input %s declared twice' % name)
        c.inputs[name] = (kind, val)

    def _range(self, v, lo, hi):
        ctx().ranges[v.get_id()] = (
            None if lo is None else core.frac(lo),
            None if hi is None else core.frac(hi), v)

    def real(self, name, lo=None, hi=None, py=True, nan=False):
        c = ctx()
        v = z3.Real(name)
        n = z3.Bool(name + '!nan') if nan else False
        if lo is not None:
            c.add(v >= V.rv(core.frac(lo)))
        if hi is not None:
            c.add(v <= V.rv(core.frac(hi)))
        self._range(v, lo, hi)
        x = V.SFlt(v, n, py)
        self._reg(name, 'real', x)
        return x

    def int(self, name, lo=None, hi=None, py=True):
        c = ctx()
        v = z3.Int(name)
        if lo is not None:
            c.add(v >= int(lo))
        if hi is not None:
            c.add(v <= int(hi))
        self._range(v, lo, hi)
        x = V.SInt(v, py)
        self._reg(name, 'int', x)
        return x

    def bool(self, name):
        x = V.SBool(z3.Bool(name))
        self._reg(name, 'bool', x)
        return x

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    def farray(self, name, shape, lo=None, hi=None, nan=False,
               dtype='float64'):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            o[ix] = self.real(name + str(list(ix)), lo, hi, False, nan)
        return A.make(o, np.dtype(dtype))

    def iarray(self, name, shape, lo=None, hi=None, dtype='int32'):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            o[ix] = self.int(name + str(list(ix)), lo, hi, False)
        return A.make(o, np.dtype(dtype))

    def const(self, x, dtype=None):
        return N.array(x, dtype)

    def assume(self, cond):
        e = V.bexpr(cond)
        if e is False:
            raise core.PathInfeasible()
        if e is True:
            return
        c = ctx()
        c.add(e)
        if not c.feasible(z3.BoolVal(True)):
            raise core.PathInfeasible()

    def fix(self, cond):
        """fork on a condition (same as bool(), documents the intent)"""
        return bool(cond)

    # -- outputs
    def check(self, label, cond):
        ctx().obls.append((label, V.bexpr(cond)))

    def observe(self, name, v):
        ctx().observed.append((name, v))

    # -- logic
    def And(self, *a):
        e = True
        for x in a:
            e = V.zand(e, V.bexpr(x))
        return V.norm_bool(e)

    def Or(self, *a):
        e = False
        for x in a:
            e = V.zor(e, V.bexpr(x))
        return V.norm_bool(e)

    def Not(self, a):
        return V.norm_bool(V.znot(V.bexpr(a)))

    def If(self, c, a, b):
        return V.ite(c, a, b)

    def isnan(self, x):
        return V.isnan_(x)

    def nanclose(self, a, b, scale=1.0, nanok=True):
        a, b = V.unwrap0(a), V.unwrap0(b)
        if not (is_sym(a) or is_sym(b)):
            return conc_close(a, b, scale, nanok)
        if V.isinfc(a) or V.isinfc(b):
            return V.scalar_cmp('eq', a, b)
        x, y = V.to_flt(a), V.to_flt(b)
        t = V.rv(TOL_SYM * core.frac(scale))
        d = core.simp(x.v - y.v)
        ok = z3.And(d <= t, d >= -t)
        if x.n is False and y.n is False:
            return V.norm_bool(ok)
        if nanok:
            return V.norm_bool(z3.And(
                V.zb(x.n) == V.zb(y.n), z3.Or(V.zb(x.n), ok)))
        return V.norm_bool(V.zand(V.znot(V.zor(x.n, y.n)), ok))

    def floor(self, x):
        return V.to_int(V.floor_(V.to_flt(x)))

    def sqrt(self, x):
        return V.sqrt_(x)

    def hypot(self, x, y):
        return V.hypot_(x, y)

    def log(self, x):
        return V.log_(x)

    def arctan(self, x):
        return V.arctan_(x)

    def arctan2(self, y, x):
        return V.arctan2_(y, x)

    def abs(self, x):
        return V.absolute(x)

    def max(self, *a):
        return V.py_max(list(a)) if any(is_sym(x) for x in a) else max(a)

    def min(self, *a):
        return V.py_min(list(a)) if any(is_sym(x) for x in a) else min(a)

    def sum(self, it):
        r = 0
        for x in it:
            r = r + x
        return r

    def real_of(self, x):
        return V.to_flt(x)

    # -- world
    def raster(self, rel, array, gt, nodata=None, dtype=None, proj=WGS84,
               driver='HFA', checksum=None, size=None):
        p = self.path(rel)
        if array is None:
            w, h = size
            dt = np.dtype(dtype or 'float32')
            ds = fakes.FakeDataset(self.g, w, h, [fakes.RGDT[dt]],
                                   fakes.FakeDriver(self.g, driver), p)
        else:
            a = N.from_any(array)
            dt = np.dtype(dtype or a.dtype)
            bands = [a] if a.ndim == 2 else list(a)
            h, w = bands[0].shape
            ds = fakes.FakeDataset(self.g, w, h,
                                   [fakes.RGDT[dt]] * len(bands),
                                   fakes.FakeDriver(self.g, driver), p)
            for i, b in enumerate(bands):
                ds.data[i] = b.astype(dt)
                ds.bands[i].nodata = nodata
        ds.gt = tuple(gt)
        ds.proj = proj
        if checksum is not None:
            ds.checksum = checksum
        self.g.files[os.path.abspath(p)] = ds
        fakes.touch(p)
        return p

    def ncgrid(self, rel, name, array, gt):
        """a multiplier file as the pipeline writes it"""
        p = self.raster(rel, array, gt, nodata=-9999.0, dtype='float32',
                        driver='netCDF', proj='')
        return p

    def dataset(self, p):
        """an open data set"""
        ds = self.g.files.get(os.path.abspath(p))
        if ds is None:
            raise Mismatch('no raster ' + p)
        return ds

    def read_raster(self, p):
        ds = self.g.files.get(os.path.abspath(p))
        if ds is None or not os.path.exists(p):
            return None
        return dict(bands=[b.ReadAsArray() for b in ds.bands],
                    nodata=[b.nodata for b in ds.bands], gt=ds.gt,
                    desc=[b.desc for b in ds.bands], proj=ds.proj,
                    dtype=[np.dtype(fakes.GDT[t]) for t in ds.types])

    def raster_info(self, p):
        ds = self.g.files.get(os.path.abspath(p))
        if ds is None or not os.path.exists(p):
            return None
        return dict(w=ds.RasterXSize, h=ds.RasterYSize, gt=ds.gt,
                    n=ds.RasterCount, dtype=np.dtype(fakes.GDT[ds.types[0]]))

    def read_nc(self, p):
        nc = self.nc.get(os.path.abspath(p))
        if nc is None or not os.path.exists(p):
            return None
        if not nc.closed:
            return dict(vars={}, attrs={}, dims={}, vatts={}, closed=False)
        return dict(vars={k: v.arr for k, v in nc.vars.items()},
                    attrs=dict(nc.attrs), dims=dict(nc.dims),
                    vatts={k: dict(v.attrs) for k, v in nc.vars.items()},
                    vdims={k: v.dimensions for k, v in nc.vars.items()},
                    closed=True)

    def table(self, rows, comment=True):
        p = self.path('tables', 'table.csv')
        with open(p, 'w') as f:
            if comment:
                f.write('# terrain table used by a check\n')
            f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
            for i, r in enumerate(rows):
                f.write(','.join([self._tok(r[0]), 'class %d' % i,
                                  self._tok(r[1]), self._tok(r[2])]) + '\n')
        return p

    def _tok(self, v):
        if is_sym(v):
            t = fakes.TOK % len(self.csv_syms)
            self.csv_syms[t] = v
            return t
        return repr(v)

    def vector(self, rel, props, rows):
        """a shapefile of boxes: rows of ([(x0, x1), ...] or None, values);
        y from 0 to 1"""
        p = self.path(rel)
        self.vectors[os.path.abspath(p)] = dict(
            driver='ESRI Shapefile', crs=WGS84, schema=dict(
                geometry='Polygon', properties=dict(props)), rows=[
                (None if b is None else geo.Geom(b), dict(v))
                for b, v in rows])
        fakes.touch(p)
        return p

    def read_vector(self, p):
        d = self.vectors.get(os.path.abspath(p))
        if d is None or not os.path.exists(p):
            return None
        return dict(props=dict(d['schema']['properties']), rows=[
            (g and g.area, g and g.bounds, dict(v)) for g, v in d['rows']])

    def boxes(self, bs):
        return geo.Geom(bs)

    def git(self, ok):
        self.git_ok = ok

    def vrts(self):
        return list(self.g.vrts)


_STUBS = {}


def _static_stubs():
    if not _STUBS:
        import numexpr
        _STUBS.update(
            numpy=N.MODULE, math=fakes.make_math(),
            numexpr=fakes.Mod('numexpr', numexpr,
                              evaluate=fakes.ne_evaluate,
                              set_num_threads=lambda *a: 1),
            scipy=fakes.make_scipy(), concurrent=fakes.make_concurrent())
    return _STUBS


def conc_close(a, b, scale, nanok):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return bool(nanok and a != a and b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= TOL_CONC * float(scale)


class ConcEnv(EnvBase):
    """inputs: dict name -> value, or None to draw them with rng"""
    sym = False
    mismatch = Mismatch

    def __init__(self, inputs=None, rng=None):
        super().__init__()
        self.given = inputs
        self.rng = rng or random.Random(0)
        self.used = {}
        self.failed = []
        self.checked = 0
        self.observed = []

    def setup(self):
        super().setup()
        self.restart()
        ps = [REPO, os.path.join(REPO, 'utilities'),
              os.path.join(REPO, 'topographic')]
        sys.path[:] = ps + [p for p in sys.path if p not in ps]

    def restart(self):
        for k in [k for k, m in list(sys.modules.items())
                  if repo_module(m)]:
            del sys.modules[k]

    def modules(self):
        return {k: m for k, m in list(sys.modules.items())
                if repo_module(m)}

    def set_modules(self, mods):
        self.restart()
        sys.modules.update(mods)

    def load(self, name):
        return importlib.import_module(name)

    def main(self, name):
        import runpy
        p = os.path.join(REPO, *name.split('.')) + '.py'
        if not os.path.exists(p):
            raise Mismatch('no script ' + p)
        return runpy.run_path(p, run_name='__main__')

    @property
    def np(self):
        return np

    # -- inputs
    def _in(self, name, draw):
        if self.given is not None:
            if name not in self.given:
                raise Mismatch('no value for input ' + name)
            v = self.given[name]
        else:
            v = draw()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, py=True, nan=False):
        def draw():
            r = self.rng
            if nan and r.random() < 0.15:
                return None
            a = -10.0 if lo is None else float(lo)
            b = a + 1000.0 if hi is None else float(hi)
            t = r.random()
            if t < 0.15:
                return Fraction(a)
            if t < 0.3:
                return Fraction(b)
            if t < 0.6 and b - a >= 2:
                return Fraction(r.randint(math.ceil(a), math.floor(b)))
            return Fraction(min(max(round(
                r.uniform(a, b) * 1024) / 1024, a), b))
        v = self._in(name, draw)
        v = float('nan') if v is None else float(v)
        return v if py else np.float64(v)

    def int(self, name, lo=None, hi=None, py=True):
        def draw():
            r = self.rng
            a = -5 if lo is None else int(lo)
            b = a + 50 if hi is None else int(hi)
            t = r.random()
            return a if t < 0.12 else b if t < 0.24 else r.randint(a, b)
        v = int(self._in(name, draw))
        return v if py else np.int64(v)

    def bool(self, name):
        return bool(self._in(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def farray(self, name, shape, lo=None, hi=None, nan=False,
               dtype='float64'):
        o = np.zeros(shape, dtype='float64')
        for ix in np.ndindex(*o.shape):
            o[ix] = self.real(name + str(list(ix)), lo, hi, False, nan)
        return o.astype(dtype)

    def iarray(self, name, shape, lo=None, hi=None, dtype='int32'):
        o = np.zeros(shape, dtype='int64')
        for ix in np.ndindex(*o.shape):
            o[ix] = self.int(name + str(list(ix)), lo, hi)
        return o.astype(dtype)

    def const(self, x, dtype=None):
        return np.array(x, dtype)

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def fix(self, cond):
        return bool(cond)

    def check(self, label, cond):
        self.checked += 1
        if not bool(cond):
            self.failed.append(label)

    def observe(self, name, v):
        self.observed.append((name, v))

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def If(self, c, a, b):
        return a if bool(c) else b

    def isnan(self, x):
        return bool(x != x)

    def nanclose(self, a, b, scale=1.0, nanok=True):
        return conc_close(a, b, scale, nanok)

    def floor(self, x):
        return int(math.floor(x))

    def sqrt(self, x):
        return math.sqrt(x)

    def hypot(self, x, y):
        return math.hypot(x, y)

    def log(self, x):
        return math.log(x) if x > 0 else float('nan')

    def arctan(self, x):
        return math.atan(x)

    def arctan2(self, y, x):
        return math.atan2(y, x)

    def abs(self, x):
        return abs(x)

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def sum(self, it):
        r = 0
        for x in it:
            r = r + x
        return r

    def real_of(self, x):
        return float(x)

    # -- world
    def raster(self, rel, array, gt, nodata=None, dtype=None, proj=WGS84,
               driver='HFA', checksum=None, size=None):
        from osgeo import gdal, gdal_array
        p = self.path(rel)
        if array is None:
            w, h = [int(s) for s in size]
            bands = []
            dt = np.dtype(dtype or 'float32')
        else:
            a = np.asarray(array)
            dt = np.dtype(dtype or a.dtype)
            bands = [a] if a.ndim == 2 else list(a)
            h, w = bands[0].shape
        code = gdal_array.NumericTypeCodeToGDALTypeCode(dt.type)
        ds = gdal.GetDriverByName(driver).Create(
            p, w, h, max(1, len(bands)), code)
        ds.SetGeoTransform([float(x) for x in gt])
        ds.SetProjection(proj)
        for i, b in enumerate(bands):
            ds.GetRasterBand(i + 1).WriteArray(b.astype(dt))
            if nodata is not None:
                ds.GetRasterBand(i + 1).SetNoDataValue(float(nodata))
        ds.FlushCache()
        del ds
        return p

    def ncgrid(self, rel, name, array, gt):
        from netCDF4 import Dataset
        p = self.path(rel)
        h, w = array.shape
        nc = Dataset(p, 'w', format='NETCDF3_CLASSIC')
        nc.createDimension('lat', h)
        nc.createDimension('lon', w)
        la = nc.createVariable('lat', 'd', ('lat',))
        la[:] = [gt[3] + gt[5] * (i + 0.5) for i in range(h)]
        la.setncatts({'standard_name': 'latitude', 'units': 'degrees_north',
                      'axis': 'Y'})
        lo = nc.createVariable('lon', 'd', ('lon',))
        lo[:] = [gt[0] + gt[1] * (i + 0.5) for i in range(w)]
        lo.setncatts({'standard_name': 'longitude', 'units': 'degrees_east',
                      'axis': 'X'})
        v = nc.createVariable(name, 'f', ('lat', 'lon'), fill_value=-9999)
        v.set_auto_maskandscale(False)
        v[:] = np.asarray(array, dtype='f')
        nc.close()
        return p

    def dataset(self, p):
        from osgeo import gdal
        return gdal.Open(p)

    def read_raster(self, p):
        from osgeo import gdal, gdal_array
        if not os.path.exists(p):
            return None
        ds = gdal.Open(p)
        bs = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
        return dict(bands=[b.ReadAsArray() for b in bs],
                    nodata=[b.GetNoDataValue() for b in bs],
                    gt=ds.GetGeoTransform(),
                    desc=[b.GetDescription() for b in bs],
                    proj=ds.GetProjection(),
                    dtype=[np.dtype(gdal_array.GDALTypeCodeToNumericTypeCode(
                        b.DataType)) for b in bs])

    def raster_info(self, p):
        from osgeo import gdal, gdal_array
        if not os.path.exists(p):
            return None
        ds = gdal.Open(p)
        return dict(w=ds.RasterXSize, h=ds.RasterYSize,
                    gt=ds.GetGeoTransform(), n=ds.RasterCount,
                    dtype=np.dtype(gdal_array.GDALTypeCodeToNumericTypeCode(
                        ds.GetRasterBand(1).DataType)))

    def read_nc(self, p):
        import netCDF4
        if not os.path.exists(p):
            return None
        try:
            nc = netCDF4.Dataset(p)
        except OSError:
            return dict(vars={}, attrs={}, dims={}, vatts={}, closed=False)
        nc.set_auto_mask(False)
        r = dict(vars={k: np.asarray(v[...]) for k, v in
                       nc.variables.items()},
                 attrs={k: nc.getncattr(k) for k in nc.ncattrs()},
                 dims={k: len(d) for k, d in nc.dimensions.items()},
                 vatts={k: {a: v.getncattr(a) for a in v.ncattrs()}
                        for k, v in nc.variables.items()},
                 vdims={k: v.dimensions for k, v in nc.variables.items()},
                 closed=True)
        nc.close()
        return r

    def table(self, rows, comment=True):
        p = self.path('tables', 'table.csv')
        with open(p, 'w') as f:
            if comment:
                f.write('# terrain table used by a check\n')
            f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
            for i, r in enumerate(rows):
                f.write('%r,class %d,%r,%r\n' % (
                    num(r[0]), i, num(r[1]), num(r[2])))
        return p

    def vector(self, rel, props, rows):
        import fiona
        from shapely.geometry import mapping
        p = self.path(rel)
        with fiona.open(p, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                        schema=dict(geometry='Polygon',
                                    properties=dict(props))) as f:
            for b, v in rows:
                f.write(dict(properties=dict(v), geometry=None if b is None
                             else mapping(self.boxes(b))))
        return p

    def read_vector(self, p):
        import fiona
        from shapely.geometry import shape
        if not os.path.exists(p):
            return None
        rows = []
        with fiona.open(p) as f:
            props = dict(f.schema['properties'])
            for x in f:
                g = x['geometry'] and shape(x['geometry'])
                rows.append((g and g.area, g and g.bounds,
                             dict(x['properties'])))
        return dict(props=props, rows=rows)

    def boxes(self, bs):
        from shapely.geometry import box
        from shapely.ops import unary_union
        gs = [box(float(a), 0, float(b), 1) for a, b in bs]
        return gs[0] if len(gs) == 1 else unary_union(gs)

    def git(self, ok):
        d = self.mkdir('bin')
        p = os.path.join(d, 'git')
        if os.path.exists(p):
            os.remove(p)
        if ok is None:              # no such program
            os.environ['PATH'] = d
            return
        with open(p, 'w') as f:
            f.write('#!/bin/sh\n' + ('echo v1.0-3-gabc\n' if ok else
                                     'echo fatal >&2\nexit 128\n'))
        os.chmod(p, 0o755)
        os.environ['PATH'] = d + ':/usr/bin:/bin'

    def vrts(self):
        """(vrt path, [source files]) of every .vrt below the scratch dir"""
        import xml.etree.ElementTree as ET
        out = []
        for root, _, files in os.walk(self.tmp):
            for f in files:
                if f.endswith('.vrt'):
                    p = os.path.join(root, f)
                    t = ET.parse(p)
                    src = []
                    for e in t.iter('SourceFilename'):
                        s = e.text
                        if e.get('relativeToVRT') == '1':
                            s = os.path.join(root, s)
                        s = os.path.abspath(s)
                        if s not in src:
                            src.append(s)
                    out.append((p, src))
        return sorted(out)


def num(x):
    return x.item() if isinstance(x, np.generic) else x


def repo_module(m):
    f = getattr(m, '__file__', None)
    return bool(f) and os.path.abspath(f).startswith(REPO + os.sep)
