"""Stand-ins for the native libraries (GDAL, netCDF4, numexpr, scipy...)."""
import ast
import functools
import math
import os
import subprocess as _subprocess
import sys
import types

import numpy as np
import z3

from . import arr as A
from . import npshim as N
from . import vals as V
from .core import Unsupported, ctx
from .vals import is_sym


class Mod(types.ModuleType):
    """module whose constants come from the real one; calls are explicit"""

    def __init__(self, name, real=None, allow=(), **members):
        super().__init__(name)
        d = self.__dict__
        d['_real'] = real
        d['_allow'] = set(allow)
        d.update(members)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        r = self.__dict__['_real']
        if r is None or not hasattr(r, k):
            if r is not None:
                raise AttributeError(k)
            raise Unsupported('%s.%s' % (self.__name__, k))
        v = getattr(r, k)
        if not callable(v) or k in self._allow or '*' in self._allow or (
                isinstance(v, type) and issubclass(v, BaseException)):
            return v
        raise Unsupported('%s.%s' % (self.__name__, k))


def touch(path):
    if path and not os.path.exists(path):
        with open(path, 'w') as f:
            f.write('placeholder\n')


# -- GDAL ---------------------------------------------------------------------
GDT = {1: 'uint8', 2: 'uint16', 3: 'int16', 4: 'uint32', 5: 'int32',
       6: 'float32', 7: 'float64', 12: 'uint64', 13: 'int64', 14: 'int8'}
RGDT = {np.dtype(v): k for k, v in GDT.items()}


def swig_int(x, what='int'):
    if isinstance(x, V.SInt):
        return x
    if isinstance(x, (V.SFlt, float, np.floating)) or isinstance(
            x, (str, type(None))):
        raise TypeError("in method, argument of type 'int'")
    return int(x)


PRIMES = (7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43)


def checksum(a):
    """what GDALChecksumImage computes"""
    n = 0
    for k, v in enumerate(a.reshape(-1)):
        p = PRIMES[k % 11]
        if a.dtype.kind == 'f':
            if not is_sym(v) and not math.isfinite(v):
                v = -2 ** 31
            else:
                x = V.to_int(V.floor_(V.to_flt(v) + 0.5))
                v = V.ite(V.isnan_(v), -2 ** 31, x)
        if is_sym(v):
            v = V.ite(v >= 0, v % p, -((-v) % p))
            n = (n + v) % 65536
        else:
            v = int(v)
            n = (n + (v % p if v >= 0 else -(-v % p))) % 65536
    return n


def resample(x, sg, nodata, dst, i, old, dg, alg, same):
    """nearest neighbour: the source cell that contains the centre of the
    destination cell; other methods: something between the values there are.
    Cells outside the source, and no data, leave the destination alone"""
    if not same:
        raise Unsupported('values of a reprojection')
    if any(is_sym(g) or g for g in (sg[2], sg[4], dg[2], dg[4])):
        raise Unsupported('rotated raster')
    if callable(old):
        old = old()
    dt = np.dtype(GDT[dst.types[i]])
    h, w = int(dst.RasterYSize), int(dst.RasterXSize)
    out = N.full_((h, w), 0, dt) if old is None else old.copy()
    if alg != 0:
        lo, hi = [f([v for v in x.reshape(-1)]) for f in (V.py_min, V.py_max)]

    def index(k, o0, ostep, s0, sstep, n):
        """(condition, source index) pairs"""
        p = (o0 + (k + 0.5) * ostep - s0) / sstep
        if not is_sym(p):
            j = math.floor(p + 1e-10)
            return [(True, j)] if 0 <= j < n else []
        r = []
        for j in range(n):
            c = V.norm_bool(V.zand(V.bexpr(p >= j), V.bexpr(p < j + 1)))
            if c is not False:
                r.append((c, j))
        return r
    cols = [index(c, dg[0], dg[1], sg[0], sg[1], x.shape[1])
            for c in range(w)]
    rows = [index(r, dg[3], dg[5], sg[3], sg[5], x.shape[0])
            for r in range(h)]
    for r in range(h):
        for c in range(w):
            v = out[r, c]
            for cr, jr in rows[r]:
                for cc, jc in cols[c]:
                    s = x[jr, jc]
                    if alg != 0:
                        s = V.SFlt(ctx().fresh('mix', z3.RealSort()), False)
                        ctx().add(V.bexpr(V.norm_bool(V.zand(
                            V.bexpr(s >= lo), V.bexpr(s <= hi)))))
                    ok = V.zand(V.bexpr(cr), V.bexpr(cc))
                    if nodata is not None:
                        ok = V.zand(ok, V.znot(V.bexpr(
                            x[jr, jc] == nodata)))
                    ok = V.norm_bool(ok)
                    if dt.kind in 'iu' and s is not x[jr, jc]:
                        s = V.to_int(V.rint_(s))
                    v = V.ite(ok, A.cast_elem(s, dt), v) if is_sym(ok) \
                        else A.cast_elem(s, dt) if ok else v
            out[r, c] = v
    return out


class FakeBand:
    def __init__(self, ds, i):
        self.ds, self.i = ds, i
        self.nodata = None
        self.desc = ''

    @property
    def XSize(self):
        return self.ds.RasterXSize

    @property
    def YSize(self):
        return self.ds.RasterYSize

    @property
    def DataType(self):
        return self.ds.types[self.i]

    def _data(self):
        d = self.ds.data[self.i]
        if callable(d):
            d = self.ds.data[self.i] = d()
        if d is None:
            h, w = int(self.YSize), int(self.XSize)
            d = N.full_((h, w), 0, GDT[self.DataType])
            self.ds.data[self.i] = d
        return d

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None,
                    buf_xsize=None, buf_ysize=None, buf_type=None,
                    buf_obj=None, resample_alg=0, **k):
        d = self._data()
        h, w = d.shape
        xoff, yoff = int(xoff), int(yoff)
        nx = w - xoff if win_xsize is None else int(win_xsize)
        ny = h - yoff if win_ysize is None else int(win_ysize)
        if buf_xsize not in (None, nx) or buf_ysize not in (None, ny):
            raise Unsupported('resampled ReadAsArray')
        if xoff < 0 or yoff < 0 or xoff + nx > w or yoff + ny > h:
            if self.ds.gdal.exc:
                raise RuntimeError('Access window out of range in RasterIO()')
            return None
        r = d[yoff:yoff + ny, xoff:xoff + nx].copy()
        if self.ds.driver.ShortName == 'netCDF' and self.nodata is not None and \
                r.dtype.kind == 'f':
            # the netCDF driver reads nan as no data
            for ix in np.ndindex(*r.shape):
                n = V.isnan_(r[ix])
                if n is not False:
                    r[ix] = V.ite(n, float(self.nodata), r[ix])
        if buf_obj is not None:
            buf_obj[...] = r
            return buf_obj
        return r

    def WriteArray(self, array, xoff=0, yoff=0, **k):
        if isinstance(array, (A.MaskedSel,)):
            array = array.materialize()
        if hasattr(array, '_sx_sym'):
            array = array.data_arr
        if array is None or np.ndim(array) != 2:
            raise ValueError('expected array of dim 2')
        a = N.from_any(array)
        h, w = int(self.YSize), int(self.XSize)
        xoff, yoff = int(xoff), int(yoff)
        if a.shape[0] + yoff > h or a.shape[1] + xoff > w or \
                xoff < 0 or yoff < 0:
            raise ValueError('array larger than output file, or offset off '
                             'edge')
        dt = np.dtype(GDT[self.DataType])
        if dt.kind in 'iu' and a.dtype.kind == 'f':
            a = N.HANDLERS['around'](a)
        if dt.kind in 'iu' and dt.itemsize < 8:
            a = A.clamped(a, dt)
        d = self._data()
        d[yoff:yoff + a.shape[0], xoff:xoff + a.shape[1]] = a.astype(dt)
        return 0

    def Fill(self, v, im=0.0):
        self._data()[...] = v
        return 0

    def GetNoDataValue(self):
        return self.nodata

    def SetNoDataValue(self, v):
        self.nodata = None if v is None else (v if is_sym(v) else float(v))
        return 0

    def DeleteNoDataValue(self):
        self.nodata = None
        return 0

    def Checksum(self, *a):
        if self.ds.checksum is not None:
            return self.ds.checksum
        return checksum(self.ReadAsArray())

    def FlushCache(self):
        return 0

    def GetStatistics(self, *a):
        return [0.0, 0.0, 0.0, 0.0]

    def ComputeStatistics(self, *a, **k):
        return [0.0, 0.0, 0.0, 0.0]

    def SetDescription(self, d):
        self.desc = d

    def GetDescription(self):
        return self.desc

    def SetMetadata(self, *a):
        return 0

    def SetMetadataItem(self, *a):
        return 0

    def GetMetadata(self, *a):
        return {}

    def GetDataset(self):
        return self.ds

    def GetBand(self):
        return self.i + 1

    def GetBlockSize(self):
        return [self.ds.RasterXSize, 1]


class FakeDriver:
    def __init__(self, gdal, name):
        self.gdal = gdal
        self.ShortName = name
        self.LongName = {'HFA': 'Erdas Imagine Images (.img)',
                         'GTiff': 'GeoTIFF',
                         'MEM': 'In Memory Raster'}.get(name, name)

    def Create(self, path, xsize=0, ysize=0, bands=1, eType=1, options=None,
               **k):
        xsize = k.pop('xsize', xsize)
        ds = FakeDataset(self.gdal, swig_int(xsize), swig_int(ysize),
                         [int(eType)] * int(bands), self, path)
        if self.ShortName != 'MEM':
            if not os.path.isdir(os.path.dirname(os.path.abspath(path))):
                if self.gdal.exc:
                    raise RuntimeError('cannot create ' + path)
                return None
            self.gdal.files[os.path.abspath(path)] = ds
            touch(path)
        return ds

    def CreateCopy(self, path, src, strict=1, options=None, **k):
        ds = src.clone(self, path)
        if self.ShortName != 'MEM':
            self.gdal.files[os.path.abspath(path)] = ds
            touch(path)
        return ds

    def Delete(self, path):
        self.gdal.files.pop(os.path.abspath(path), None)
        if os.path.exists(path):
            os.remove(path)
        return 0

    def GetDescription(self):
        return self.ShortName


class FakeDataset:
    def __init__(self, gdal, w, h, types_, driver, path=''):
        self.gdal = gdal
        self.RasterXSize, self.RasterYSize = w, h
        self.types = list(types_)
        self.data = [None] * len(types_)
        self.bands = [FakeBand(self, i) for i in range(len(types_))]
        self.driver = driver
        self.path = path
        self.gt = (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        self.proj = ''
        self.checksum = None
        self.reprojected = []

    def clone(self, driver, path):
        d = FakeDataset(self.gdal, self.RasterXSize, self.RasterYSize,
                        self.types, driver, path)
        d.data = [None if x is None else b._data().copy()
                  for x, b in zip(self.data, self.bands)]
        for a, b in zip(d.bands, self.bands):
            a.nodata, a.desc = b.nodata, b.desc
        d.gt, d.proj, d.checksum = self.gt, self.proj, self.checksum
        return d

    @property
    def RasterCount(self):
        return len(self.bands)

    def GetDriver(self):
        return self.driver

    def GetGeoTransform(self, **k):
        return tuple(self.gt)

    def SetGeoTransform(self, gt):
        if len(gt) != 6:
            raise TypeError('geotransform')
        self.gt = tuple(V.to_py(V.unwrap0(x)) for x in gt)
        return 0

    def GetProjection(self):
        return self.proj
    GetProjectionRef = GetProjection

    def SetProjection(self, p):
        if not isinstance(p, str):
            raise TypeError('projection')
        self.proj = p
        return 0

    def GetSpatialRef(self):
        from osgeo import osr
        s = osr.SpatialReference()
        s.ImportFromWkt(self.proj)
        return s

    def GetRasterBand(self, i):
        i = int(i)
        if not 1 <= i <= len(self.bands):
            if self.gdal.exc:
                raise RuntimeError('illegal band #%d' % i)
            return None
        return self.bands[i - 1]

    def AddBand(self, datatype=1, options=None):
        self.types.append(int(datatype))
        self.data.append(None)
        self.bands.append(FakeBand(self, len(self.bands)))
        return 0

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None, **k):
        r = [b.ReadAsArray(xoff, yoff, xsize, ysize) for b in self.bands]
        if len(r) == 1:
            return r[0]
        return N.struct(np.stack, (r,), {})

    def WriteArray(self, a, xoff=0, yoff=0, **k):
        if np.ndim(a) == 2:
            return self.bands[0].WriteArray(a, xoff, yoff)
        for b, x in zip(self.bands, a):
            b.WriteArray(x, xoff, yoff)
        return 0

    def FlushCache(self):
        return 0

    def GetDescription(self):
        return self.path

    def GetMetadata(self, *a):
        return {}

    def SetMetadata(self, *a):
        return 0

    def SetMetadataItem(self, *a):
        return 0

    def GetFileList(self):
        return [self.path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class TransOpt:
    def __init__(self, opts):
        self.opts = opts


def within(g, gt, i, j, touched):
    """the centre (or any part) of cell (i, j) lies in the geometry, whose
    boxes reach from 0 to 1 in y"""
    x, y = [gt[0] + j * gt[1], gt[0] + (j + 1) * gt[1]], \
        [gt[3] + i * gt[5], gt[3] + (i + 1) * gt[5]]
    if not touched:
        x, y = [sum(x) / 2] * 2, [sum(y) / 2] * 2
    if max(y) < 0 or min(y) > 1:
        return False
    r = False
    for a, b in g.boxes:
        r = V.zor(r, V.zand(V.bexpr(a <= max(x)), V.bexpr(b >= min(x))))
    return V.norm_bool(r)


class VectorLayer:
    def __init__(self, d, name):
        self.d, self.name = d, name

    def GetName(self):
        return self.name

    def GetFeatureCount(self, force=1):
        return len(self.d['rows'])

    def ResetReading(self):
        pass

    def __len__(self):
        return len(self.d['rows'])

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('layer method ' + k)


class VectorSource:
    def __init__(self, d, name):
        self.d, self.name = d, name

    def GetLayer(self, i=0):
        return VectorLayer(self.d, self.name) if i in (0, self.name) else \
            None

    GetLayerByIndex = GetLayerByName = __getitem__ = GetLayer

    def GetLayerCount(self):
        return 1

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('vector data source method ' + k)


class FakeGdal:
    """one file store per path"""

    def __init__(self, world_env):
        from osgeo import gdal, gdal_array, gdalconst, osr, ogr
        self.files = {}
        self.exc = False
        self.vrts = []
        self.reprojections = []
        self.env = world_env
        self.gdal = Mod(
            'osgeo.gdal', gdal,
            allow=('GetDataTypeName', 'GetDataTypeSize', 'ParseCommandLine',
                   'VersionInfo', 'GetConfigOption'),
            Open=self.Open, OpenEx=self.OpenEx,
            GetDriverByName=self.GetDriverByName,
            AllRegister=lambda: None, UseExceptions=self.UseExceptions,
            DontUseExceptions=self.DontUseExceptions,
            GetUseExceptions=lambda: int(self.exc),
            SetConfigOption=lambda *a: None, PushErrorHandler=lambda *a: 0,
            PopErrorHandler=lambda *a: 0,
            ReprojectImage=self.ReprojectImage, Translate=self.Translate,
            TranslateOptions=self.TranslateOptions,
            RasterizeLayer=self.RasterizeLayer,
            BuildVRT=self.BuildVRT, Dataset=FakeDataset, Band=FakeBand,
            Unlink=self.Unlink)
        self.gdal_array = Mod(
            'osgeo.gdal_array', gdal_array,
            allow=('NumericTypeCodeToGDALTypeCode',
                   'GDALTypeCodeToNumericTypeCode'),
            BandReadAsArray=self.BandReadAsArray,
            BandWriteArray=lambda b, a, xoff=0, yoff=0, **k:
            b.WriteArray(a, xoff, yoff))
        self.osgeo = Mod('osgeo', None, gdal=self.gdal,
                         gdal_array=self.gdal_array, gdalconst=gdalconst,
                         osr=osr, ogr=Mod('osgeo.ogr', ogr,
                                          Open=self.OpenVector,
                                          UseExceptions=lambda: None,
                                          DontUseExceptions=lambda: None))

    def UseExceptions(self):
        self.exc = True

    def DontUseExceptions(self):
        self.exc = False

    def Open(self, path, access=0):
        if isinstance(path, os.PathLike):
            path = os.fspath(path)
        p = os.path.abspath(path) if isinstance(path, str) else path
        ds = self.files.get(p)
        if ds is None or not os.path.exists(p):
            if self.exc:
                raise RuntimeError('%s: No such file or directory' % path)
            return None
        return ds

    def OpenEx(self, path, flags=0, *a, **k):
        if os.path.abspath(str(path)) in self.env.vectors:
            return self.OpenVector(path)
        return self.Open(path)

    def OpenVector(self, path, update=0):
        p = os.path.abspath(str(path))
        d = self.env.vectors.get(p)
        if d is None or not os.path.exists(p):
            if self.exc:
                raise RuntimeError('%s: No such file or directory' % path)
            return None
        return VectorSource(d, os.path.splitext(os.path.basename(p))[0])

    def RasterizeLayer(self, dataset, bands, layer, pfnTransformer=None,
                       pTransformArg=None, burn_values=(), options=None,
                       callback=None, callback_data=None):
        """a cell takes the value of the last feature that holds its
        centre"""
        if pfnTransformer or pTransformArg:
            raise Unsupported('RasterizeLayer with a transformer')
        o = {}
        for x in options or []:
            k, _, v = x.partition('=')
            o[k.upper()] = v
        attr = o.pop('ATTRIBUTE', None)
        touched = o.pop('ALL_TOUCHED', 'FALSE').upper() in ('TRUE', 'YES',
                                                            '1')
        add = o.pop('MERGE_ALG', 'REPLACE').upper() == 'ADD'
        if o:
            raise Unsupported('RasterizeLayer options %s' % sorted(o))
        d = layer.d
        if attr is not None and attr.upper() not in [
                k.upper() for k in d['schema']['properties']]:
            if self.exc:
                raise RuntimeError('no attribute ' + attr)
            return 3
        if attr is None and len(burn_values) != len(bands):
            raise RuntimeError('Did not get the expected number of burn '
                               'values')
        gt = [float(x) for x in dataset.gt]
        if gt[2] or gt[4] or (dataset.proj and d['crs'] and
                              dataset.proj != d['crs']):
            raise Unsupported('RasterizeLayer on another grid')
        for n, bi in enumerate(bands):
            b = dataset.GetRasterBand(bi)
            a = b._data()
            dt = a.dtype
            for g, p in d['rows']:
                if g is None:
                    continue
                v = burn_values[n] if attr is None else [
                    p[k] for k in p if k.upper() == attr.upper()][0]
                if v is None:
                    v = 0
                if isinstance(v, str):
                    raise Unsupported('a text attribute in RasterizeLayer')
                for i, j in np.ndindex(*a.shape):
                    c = within(g, gt, i, j, touched)
                    if c is False:
                        continue
                    w = a[i, j] + v if add else v
                    if dt.kind in 'iu':
                        q = np.iinfo(dt)
                        if is_sym(w):
                            w = V.ite(w < int(q.min), int(q.min), V.ite(
                                w > int(q.max), int(q.max), w))
                        else:
                            w = min(max(int(round(float(w))), int(q.min)),
                                    int(q.max))
                    a[i, j] = V.ite(c, w, a[i, j]) if is_sym(c) else w
        return 0

    def Unlink(self, p):
        self.files.pop(os.path.abspath(p), None)
        if os.path.exists(p):
            os.remove(p)
        return 0

    def GetDriverByName(self, name):
        if name not in ('HFA', 'GTiff', 'MEM', 'VRT', 'netCDF'):
            raise Unsupported('GDAL driver %r' % name)
        return FakeDriver(self, name)

    def BandReadAsArray(self, band, xoff=0, yoff=0, win_xsize=None,
                        win_ysize=None, **k):
        return band.ReadAsArray(xoff, yoff, win_xsize, win_ysize)

    def ReprojectImage(self, src, dst, src_wkt=None, dst_wkt=None,
                       eResampleAlg=0, *a, **k):
        self.reprojections.append((src, dst, src_wkt, dst_wkt, eResampleAlg))
        if self.env.on_reproject is not None:
            self.env.on_reproject(src, dst, src_wkt, dst_wkt, eResampleAlg)
        a, b = src_wkt or src.proj, dst_wkt or dst.proj
        sg, dg = tuple(src.gt), tuple(dst.gt)
        for i in range(min(src.RasterCount, dst.RasterCount)):
            if src.data[i] is None:
                continue
            x, old = src.bands[i]._data().copy(), dst.data[i]
            args = (x, sg, src.bands[i].nodata, dst, i, old, dg,
                    int(eResampleAlg), a == b)
            dst.data[i] = functools.partial(resample, *args)
        return 0

    def TranslateOptions(self, options=None, **k):
        bad = set(k) - {'creationOptions', 'format'}
        opts = list(options or [])
        if isinstance(options, str):
            opts = self.gdal.ParseCommandLine(options)
        i = 0
        while i < len(opts):
            if opts[i] in ('-co', '-of', '-f'):
                i += 2
            else:
                bad.add(opts[i])
                i += 1
        if bad:
            raise Unsupported('gdal.Translate options %s' % sorted(bad))
        return TransOpt(opts)

    def Translate(self, dst, src, options=None, **k):
        if isinstance(src, str):
            src = self.Open(src)
        if not isinstance(options, TransOpt):
            options = self.TranslateOptions(options, **k)
        d = src.clone(FakeDriver(self, 'GTiff'), dst)
        if dst:
            if not os.path.isdir(os.path.dirname(os.path.abspath(dst))):
                raise RuntimeError('cannot create ' + dst)
            self.files[os.path.abspath(dst)] = d
            touch(dst)
        return d

    def BuildVRT(self, dst, srcs, options=None, **k):
        if not srcs:
            raise RuntimeError('No input dataset specified.')
        self.vrts.append((os.path.abspath(dst), [
            s if not isinstance(s, str) else os.path.abspath(s)
            for s in ([srcs] if isinstance(srcs, str) else srcs)]))
        touch(dst)
        return FakeDataset(self, 1, 1, [6], FakeDriver(self, 'VRT'), dst)


# -- netCDF4 --------------------------------------------------------------------
class FakeVar:
    def __init__(self, ds, name, dt, dims, fill):
        d = self.__dict__
        d['ds'], d['name'], d['dimensions'] = ds, name, tuple(dims)
        d['dt'] = np.dtype(dt)
        d['attrs'] = {}
        if fill is not None:
            d['attrs']['_FillValue'] = fill
        shape = tuple(ds.dims[x] for x in dims)
        d['arr'] = N.full_(shape, 0 if fill is None else fill, d['dt']) \
            if shape else N.full_((), 0, d['dt'])
        d['written'] = False

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.dt

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def size(self):
        return self.arr.size

    def __len__(self):
        return len(self.arr)

    def __setitem__(self, idx, v):
        self.ds.ensure_open()
        if hasattr(v, '_sx_sym'):
            fv = self.attrs.get('_FillValue', 9.96921e+36)
            v = v.filled(fv)
        v = N.from_any(v)
        if isinstance(idx, slice) and idx == slice(None) or idx is Ellipsis:
            tgt = self.arr.shape
            if v.shape != tgt and v.size != 1:
                if v.ndim == len(tgt) or v.ndim > len(tgt):
                    raise IndexError('size of data array does not conform to '
                                     'slice')
        self.arr[idx] = v
        self.__dict__['written'] = True

    def __getitem__(self, idx):
        self.ds.ensure_open()
        return self.arr[idx]

    def set_auto_maskandscale(self, *a):
        pass
    set_auto_mask = set_auto_scale = set_auto_maskandscale

    def setncatts(self, d):
        self.ds.ensure_open()
        for k, v in d.items():
            self.setncattr(k, v)

    def setncattr(self, k, v):
        self.ds.ensure_open()
        check_att(k, v)
        if k == '_FillValue':
            raise AttributeError('_FillValue attribute must be set when '
                                 'variable is created')
        self.attrs[k] = v

    def getncattr(self, k):
        return self.attrs[k]

    def ncattrs(self):
        return list(self.attrs)

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def __getattr__(self, k):
        a = self.__dict__.get('attrs', {})
        if k in a:
            return a[k]
        raise AttributeError(k)


def check_att(k, v):
    if v is None or isinstance(v, dict):
        raise TypeError('illegal data type for attribute %r' % k)


class FakeNC:
    """netCDF4.Dataset"""

    store = None

    def __init__(self, filename, mode='r', clobber=True, format='NETCDF4',
                 **k):
        d = self.__dict__
        path = os.path.abspath(os.fspath(filename))
        d['path'] = path
        d['isopen_'] = True
        if mode.startswith('w'):
            if not os.path.isdir(os.path.dirname(path)):
                raise PermissionError(13, 'Permission denied', path)
            if not clobber and os.path.exists(path):
                raise PermissionError(13, 'Permission denied', path)
            d['format'] = format
            d['dims'] = {}
            d['vars'] = {}
            d['attrs'] = {}
            d['closed'] = False
            self.env_store()[path] = self
            touch(path)
        else:
            o = self.env_store().get(path)
            if o is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
            for key in ('format', 'dims', 'vars', 'attrs'):
                d[key] = o.__dict__[key]
            d['closed'] = True

    @property
    def variables(self):
        return self.vars

    @property
    def dimensions(self):
        class D(int):
            size = property(lambda s: int(s))
        return {k: D(v) for k, v in self.dims.items()}

    def ensure_open(self):
        if not self.isopen_:
            raise RuntimeError('NetCDF: Not a valid ID')

    def createDimension(self, name, size=None):
        self.ensure_open()
        if name in self.dims:
            raise RuntimeError('NetCDF: String match to name in use')
        self.dims[name] = int(size)
        return size

    def createVariable(self, varname, datatype, dimensions=(), zlib=False,
                       complevel=4, least_significant_digit=None,
                       fill_value=None, **k):
        self.ensure_open()
        if isinstance(dimensions, str):
            dimensions = (dimensions,)
        if varname in self.vars:
            raise RuntimeError('NetCDF: String match to name in use')
        for x in dimensions:
            if x not in self.dims:
                raise ValueError('cannot find dimension %s' % x)
        if least_significant_digit is not None:
            raise Unsupported('least_significant_digit')
        v = FakeVar(self, varname, datatype, dimensions,
                    None if fill_value in (None, False) else fill_value)
        self.vars[varname] = v
        return v

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def setncattr(self, k, v):
        self.ensure_open()
        check_att(k, v)
        self.attrs[k] = v

    def getncattr(self, k):
        return self.attrs[k]

    def ncattrs(self):
        return list(self.attrs)

    def sync(self):
        pass

    def filepath(self):
        return self.path

    def isopen(self):
        return self.isopen_

    def close(self):
        self.ensure_open()
        self.__dict__['isopen_'] = False
        self.__dict__['closed'] = True
        self.on_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getitem__(self, k):
        return self.vars[k]

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def __getattr__(self, k):
        a = self.__dict__.get('attrs', {})
        if k in a:
            return a[k]
        raise AttributeError(k)


def make_netcdf(env, gdal):
    import netCDF4

    class Dataset(FakeNC):
        def env_store(self):
            return env.nc

        def on_close(self):
            register_nc(env, gdal, self)
    return Mod('netCDF4', netCDF4, Dataset=Dataset, Variable=FakeVar)


def register_nc(env, gdal, nc):
    """make a closed netCDF grid readable through GDAL"""
    main = [v for v in nc.vars.values() if len(v.dimensions) == 2]
    if len(main) != 1:
        return
    v = main[0]
    if v.arr.size == 0:
        return
    h, w = v.arr.shape
    ds = FakeDataset(gdal, w, h, [RGDT.get(v.dt, 6)],
                     FakeDriver(gdal, 'netCDF'), nc.path)
    ds.data[0] = v.arr
    ds.bands[0].nodata = v.attrs.get('_FillValue')
    try:
        la, lo = (nc.vars[d].arr for d in v.dimensions)
        dx = lo[1] - lo[0] if w > 1 else 1.0
        dy = la[1] - la[0] if h > 1 else -1.0
        ds.gt = (lo[0] - dx / 2, dx, 0.0, la[0] - dy / 2, 0.0, dy)
        if dy > 0:          # read from north to south
            ds.data[0] = v.arr[::-1]
            ds.gt = (ds.gt[0], dx, 0.0, la[h - 1] + dy / 2, 0.0, -dy)
    except Exception:
        pass
    gdal.files[os.path.abspath(nc.path)] = ds


# -- numexpr ----------------------------------------------------------------------
class NE(ast.NodeVisitor):
    FUN = {'where': N.where, 'arctan': 'arctan', 'arctan2': 'arctan2',
           'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'sin': 'sin',
           'cos': 'cos', 'tan': 'tan', 'abs': 'absolute', 'floor': 'floor',
           'ceil': 'ceil', 'arcsin': 'arcsin', 'arccos': 'arccos'}
    OPS = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply',
           ast.Div: 'true_divide', ast.Pow: 'power', ast.Mod: 'fmod',
           ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or'}
    CMP = {ast.Lt: 'less', ast.LtE: 'less_equal', ast.Gt: 'greater',
           ast.GtE: 'greater_equal', ast.Eq: 'equal',
           ast.NotEq: 'not_equal'}

    def __init__(self, names):
        self.names = names

    def visit(self, n):
        if isinstance(n, ast.Expression):
            return self.visit(n.body)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return self.names(n.id)
        if isinstance(n, ast.BinOp):
            a, b = self.visit(n.left), self.visit(n.right)
            if type(n.op) not in self.OPS:
                raise Unsupported('numexpr operator')
            if isinstance(n.op, ast.Div) and not any(
                    isinstance(x, np.ndarray) or is_sym(x) or
                    isinstance(x, float) for x in (a, b)):
                raise Unsupported('numexpr integer division')
            return getattr(N.MODULE, self.OPS[type(n.op)])(a, b)
        if isinstance(n, ast.UnaryOp):
            a = self.visit(n.operand)
            if isinstance(n.op, ast.USub):
                return N.MODULE.negative(a)
            if isinstance(n.op, ast.Invert):
                return N.MODULE.logical_not(a)
            return a
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            return getattr(N.MODULE, self.CMP[type(n.ops[0])])(
                self.visit(n.left), self.visit(n.comparators[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = self.FUN.get(n.func.id)
            if f is None:
                raise Unsupported('numexpr function ' + n.func.id)
            args = [self.visit(a) for a in n.args]
            return f(*args) if callable(f) else getattr(N.MODULE, f)(*args)
        raise Unsupported('numexpr syntax')


def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, **k):
    fr = sys._getframe(1)
    loc = fr.f_locals if local_dict is None else local_dict
    glo = fr.f_globals if global_dict is None else global_dict

    def names(i):
        v = loc[i] if i in loc else glo[i]
        if isinstance(v, (int, float)) or is_sym(v):
            return v
        return N.from_any(v)
    r = N.from_any(NE(names).visit(ast.parse(ex.strip(), mode='eval')))
    if out is not None:
        out[...] = r
        return out
    return r


# -- scipy ------------------------------------------------------------------------
def _mode_index(i, n, mode):
    """source index for position i, None = constant"""
    if 0 <= i < n:
        return i
    if mode in ('constant', 'grid-constant'):
        return None
    if mode == 'nearest':
        return min(max(i, 0), n - 1)
    if mode in ('reflect', 'grid-mirror'):
        p = 2 * n
        i %= p
        return i if i < n else p - 1 - i
    if mode == 'mirror':
        if n == 1:
            return 0
        p = 2 * (n - 1)
        i %= p
        return i if i < n else p - i
    if mode in ('wrap', 'grid-wrap'):
        return i % n
    raise Unsupported('ndimage mode %r' % mode)


def nd_correlate(x, w, output=None, mode='reflect', cval=0.0, origin=0,
                 flip=False, zeros=False):
    x = N.from_any(x)
    w = N.from_any(w)
    if output is not None:
        if not isinstance(output, (np.ndarray,)):
            pass
    if origin not in (0, (0, 0), [0, 0]):
        raise Unsupported('ndimage origin')
    if w.ndim != x.ndim:
        raise RuntimeError('filter weights array has incorrect shape.')
    wp = A.plain(w)
    if flip:
        wp = wp[tuple(slice(None, None, -1) for _ in range(w.ndim))]
    half = [s // 2 for s in wp.shape]
    if flip:
        half = [h - (0 if s & 1 else 1) for h, s in zip(half, wp.shape)]
    xp = A.plain(x)
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        acc = None
        for jx in np.ndindex(*wp.shape):
            ww = wp[jx]
            none = not is_sym(ww) and abs(ww) <= 2.220446049250313e-16
            if none and not zeros:
                continue
            src = tuple(_mode_index(i + j - h, n, mode) for i, j, h, n in
                        zip(ix, jx, half, x.shape))
            v = cval if None in src else xp[src]
            if none and not (v.n is not False if isinstance(v, V.SFlt)
                             else V.isnanc(v)):
                continue
            t = V.scalar_binop('mul', v, ww)
            acc = t if acc is None else V.scalar_binop('add', acc, t)
        out[ix] = A.norm(np.float64(0.0) if acc is None else acc)
    dt = x._dt
    if output is not None and not isinstance(output, np.ndarray):
        dt = A.dt_of(output)
    if dt.kind in 'iu':
        out2 = A.make(out, np.dtype('float64')).astype(dt)
    else:
        out2 = A.make(out, dt)
    if isinstance(output, np.ndarray):
        output[...] = out2
        return output
    return out2


def nd_convolve(x, w, output=None, mode='reflect', cval=0.0, origin=0,
                **k):
    return nd_correlate(x, w, output, mode, cval, origin, flip=True)


def nd_correlate_(x, w, output=None, mode='reflect', cval=0.0, origin=0,
                  **k):
    return nd_correlate(x, w, output, mode, cval, origin)


def nd_correlate1d(x, w, axis=-1, output=None, mode='reflect', cval=0.0,
                   origin=0):
    x = N.from_any(x)
    w = N.from_any(w)
    shape = [1] * x.ndim
    shape[axis] = w.size
    return nd_correlate(x, w.reshape(shape), output, mode, cval, origin,
                        zeros=True)


def nd_convolve1d(x, w, axis=-1, output=None, mode='reflect', cval=0.0,
                  origin=0):
    w = N.from_any(w)
    x = N.from_any(x)
    shape = [1] * x.ndim
    shape[axis] = w.size
    return nd_correlate(x, w.reshape(shape), output, mode, cval, origin,
                        True, True)


def edge_filter(side):
    def f(x, axis=-1, output=None, mode='reflect', cval=0.0, **k):
        x = N.from_any(x)
        axis = axis % x.ndim
        r = nd_correlate1d(x, [-1, 0, 1], axis, output, mode, cval)
        for a in range(x.ndim):
            if a != axis:
                r = nd_correlate1d(r, side, a, output, mode, cval)
        return r
    return f


def nd_uniform(x, size=3, output=None, mode='reflect', cval=0.0, origin=0,
               **k):
    x = N.from_any(x)
    s = [int(size)] * x.ndim if np.isscalar(size) else [int(v) for v in size]
    w = np.full(s, 1.0 / np.prod(s))
    return nd_correlate(x, w, output, mode, cval, origin)


def sig_conv2(a, b, mode='full', boundary='fill', fillvalue=0, method=None):
    a, b = N.from_any(a), N.from_any(b)
    if a.ndim == 1 and b.ndim == 1:
        return N.convolve(a, b, mode)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported('signal.convolve dimensions')
    m = {'fill': None, 'pad': None, 'wrap': 'wrap', 'circular': 'wrap',
         'symm': 'reflect', 'symmetric': 'reflect'}[boundary]
    ap, bp = A.plain(a), A.plain(b)
    if mode == 'valid' and any(x < y for x, y in zip(a.shape, b.shape)):
        ap, bp = bp, ap
    n = [x + y - 1 for x, y in zip(ap.shape, bp.shape)]
    if mode == 'full':
        lo, sz = [0, 0], n
    elif mode == 'same':
        sz = list(ap.shape)
        lo = [(k - s) // 2 for k, s in zip(n, sz)]
    else:
        sz = [x - y + 1 for x, y in zip(ap.shape, bp.shape)]
        lo = [y - 1 for y in bp.shape]
    out = np.empty(sz, dtype=object)
    for ix in np.ndindex(*sz):
        acc = np.float64(0.0)
        for jx in np.ndindex(*bp.shape):
            src = [i + l - j for i, l, j in zip(ix, lo, jx)]
            ok = all(0 <= s < t for s, t in zip(src, ap.shape))
            if not ok:
                if m is None:
                    if V.is_sym(fillvalue) or fillvalue != 0:
                        acc = V.scalar_binop('add', acc, V.scalar_binop(
                            'mul', fillvalue, bp[jx]))
                    continue
                src = [_mode_index(s, t, m) for s, t in zip(src, ap.shape)]
            acc = V.scalar_binop('add', acc, V.scalar_binop(
                'mul', ap[tuple(src)], bp[jx]))
        out[ix] = A.norm(acc)
    return A.make(out, np.dtype('float64'))


def make_scipy():
    import scipy
    import scipy.ndimage
    import scipy.signal
    nd = Mod('scipy.ndimage', scipy.ndimage, convolve=nd_convolve,
             correlate=nd_correlate_, correlate1d=nd_correlate1d,
             convolve1d=nd_convolve1d, sobel=edge_filter([1, 2, 1]),
             prewitt=edge_filter([1, 1, 1]), uniform_filter=nd_uniform)
    sg = Mod('scipy.signal', scipy.signal,
             convolve=lambda a, b, mode='full', method='auto':
             sig_conv2(a, b, mode),
             fftconvolve=lambda a, b, mode='full', axes=None:
             sig_conv2(a, b, mode),
             convolve2d=sig_conv2)
    return Mod('scipy', None, ndimage=nd, signal=sg)


# -- math ---------------------------------------------------------------------------
def make_math():
    def m1(name, sym):
        real = getattr(math, name)

        def f(*a):
            a = [x._scalar() if isinstance(x, A.SArr) else x for x in a]
            if any(is_sym(x) for x in a):
                r = sym(*a)
                return V.to_py(r)
            return real(*a)
        f.__name__ = name
        return f

    def sqrt_(x):
        x = V.to_flt(x)
        if bool(V.scalar_cmp('lt', x, 0)):
            raise ValueError('math domain error')
        return V.sqrt_(x)

    def log_(x, base=None):
        if base is not None:
            raise Unsupported('math.log base')
        if bool(V.scalar_cmp('le', x, 0)):
            raise ValueError('math domain error')
        return V.log_(x)

    def nanint(f):
        def g(x):
            x = V.to_flt(x)
            if x.n is not False and ctx().decide(V.zb(x.n)):
                raise ValueError('cannot convert float NaN to integer')
            return V.to_int(f(V.SFlt(x.v)))
        return g
    d = dict(
        floor=m1('floor', nanint(V.floor_)), ceil=m1('ceil', nanint(V.ceil_)),
        trunc=m1('trunc', lambda x: V.to_int(x)),
        sqrt=m1('sqrt', sqrt_), log=m1('log', log_), exp=m1('exp', V.exp_),
        atan=m1('atan', V.arctan_), atan2=m1('atan2', V.arctan2_),
        sin=m1('sin', V.trig('sin')), cos=m1('cos', V.trig('cos')),
        tan=m1('tan', V.trig('tan')), hypot=m1('hypot', V.hypot_),
        fabs=m1('fabs', lambda x: V.to_flt(V.absolute(x))),
        isnan=m1('isnan', V.isnan_), isfinite=m1('isfinite', V.isfinite_),
        isinf=m1('isinf', V.isinf_), fmod=m1('fmod', V.fmod_),
        radians=m1('radians', A.deg2rad), degrees=m1('degrees', A.rad2deg),
        pow=m1('pow', lambda a, b: V.power(V.to_flt(a), b)),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: _isclose(
            a, b, rel_tol, abs_tol))
    return Mod('math', math, allow=('*',) if False else
               ('asin', 'acos', 'sinh', 'cosh', 'tanh', 'gcd', 'lcm', 'prod',
                'fsum', 'copysign', 'log10', 'log2', 'log1p', 'isqrt',
                'expm1', 'dist', 'modf', 'frexp', 'ldexp'), **d)


def _isclose(a, b, rt, at):
    if not (is_sym(a) or is_sym(b)):
        return math.isclose(a, b, rel_tol=rt, abs_tol=at)
    d = V.absolute(V.scalar_binop('sub', a, b))
    m = V.np_max(V.absolute(a), V.absolute(b))
    lim = V.np_max(V.scalar_binop('mul', m, rt), at)
    return V.scalar_cmp('le', d, lim)


# -- pandas ---------------------------------------------------------------------------
TOK = 'SXSYM%d'


def make_pandas(env):
    import pandas as pd
    from . import npshim

    def lst(x):
        return npshim.from_list(list(x), None)

    class SymSeries(pd.Series):
        """a column that may hold symbolic numbers (as objects)"""
        @property
        def _constructor(self):
            return SymSeries

        @property
        def _constructor_expanddim(self):
            return SymFrame

        def _sym(self):
            return pd.Series.dtype.fget(self) == object and any(
                is_sym(v) for v in pd.Series.tolist(self))

        def to_numpy(self, dtype=None, copy=False, **k):
            if not self._sym():
                return pd.Series.to_numpy(self, dtype, copy, **k)
            r = lst(pd.Series.tolist(self))
            return r if dtype is None else r.astype(npshim.dt_of(dtype))

        @property
        def values(self):
            return self.to_numpy()

        def astype(self, dtype, *a, **k):
            if not self._sym():
                return pd.Series.astype(self, dtype, *a, **k)
            return SymSeries(list(self.to_numpy(dtype)), dtype=object,
                             index=self.index)

    class SymFrame(pd.DataFrame):
        @property
        def _constructor(self):
            return SymFrame

        @property
        def _constructor_sliced(self):
            return SymSeries

        def _sym(self):
            return any(is_sym(v) for c in self.columns
                       for v in pd.Series.tolist(pd.DataFrame.__getitem__(
                           self, c)))

        def to_numpy(self, dtype=None, copy=False, **k):
            if not self._sym():
                return pd.DataFrame.to_numpy(self, dtype, copy, **k)
            cols = [pd.Series.tolist(pd.DataFrame.__getitem__(self, c))
                    for c in self.columns]
            r = npshim.from_list([list(t) for t in zip(*cols)], None)
            return r if dtype is None else r.astype(npshim.dt_of(dtype))

        @property
        def values(self):
            return self.to_numpy()

        def astype(self, dtype, *a, **k):
            if not self._sym():
                return pd.DataFrame.astype(self, dtype, *a, **k)
            r = self.copy()
            for c in self.columns:
                d = dtype.get(c) if isinstance(dtype, dict) else dtype
                if d is not None:
                    r[c] = self[c].astype(d)
            return r

    def read_csv(path, *a, **k):
        df = pd.read_csv(path, *a, **k)
        syms = env.csv_syms
        if not syms:
            return df
        for c in df.columns:
            col = df[c]
            vals = list(col)
            if not any(isinstance(v, str) and v.strip() in syms
                       for v in vals):
                continue
            new = []
            for v in vals:
                if isinstance(v, str):
                    s = v.strip()
                    if s in syms:
                        new.append(syms[s])
                        continue
                    try:
                        new.append(int(s))
                    except ValueError:
                        try:
                            new.append(float(s))
                        except ValueError:
                            new.append(v)
                else:
                    new.append(v)
            df[c] = pd.Series(new, dtype=object, index=df.index)
        return SymFrame(df)
    return Mod('pandas', pd, allow=('*',), read_csv=read_csv)


# -- subprocess -------------------------------------------------------------------------
def make_subprocess(env):
    CPE = _subprocess.CalledProcessError

    def out(cmd):
        env.commands.append((cmd, os.getcwd()))
        ok = env.git_ok
        if ok is None:
            raise FileNotFoundError(2, 'No such file or directory: git')
        return bool(ok)

    def check_output(cmd, *a, **k):
        if not out(cmd):
            raise CPE(128, cmd)
        r = b'v1.0-3-gabc\n'
        if k.get('text') or k.get('universal_newlines') or k.get('encoding'):
            r = r.decode()
        return r

    def run(cmd, *a, **k):
        ok = out(cmd)
        if not ok and k.get('check'):
            raise CPE(128, cmd)
        r = b'v1.0-3-gabc\n' if ok else b''
        if k.get('text') or k.get('universal_newlines') or k.get('encoding'):
            r = r.decode()
        return _subprocess.CompletedProcess(cmd, 0 if ok else 128, r, None)

    def getoutput(cmd):
        return 'v1.0-3-gabc' if out(cmd) else 'fatal: no names found'

    def getstatusoutput(cmd):
        return (0, 'v1.0-3-gabc') if out(cmd) else (128, 'fatal')
    return Mod('subprocess', _subprocess, check_output=check_output, run=run,
               getoutput=getoutput, getstatusoutput=getstatusoutput,
               call=lambda c, *a, **k: 0 if out(c) else 128)


# -- concurrent.futures (serial) ----------------------------------------------------------
class SerialExecutor:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, *its, **k):
        return iter([f(*x) for x in zip(*its)])

    def submit(self, f, *a, **k):
        from concurrent.futures import Future
        fu = Future()
        try:
            fu.set_result(f(*a, **k))
        except Exception as ex:
            fu.set_exception(ex)
        return fu

    def shutdown(self, *a, **k):
        pass


def make_concurrent():
    import concurrent.futures as cf
    m = Mod('concurrent.futures', cf, ThreadPoolExecutor=SerialExecutor,
            ProcessPoolExecutor=SerialExecutor,
            as_completed=lambda fs, timeout=None: iter(list(fs)))
    m.__dict__['wait'] = lambda fs, **k: (set(fs), set())
    return Mod('concurrent', None, futures=m)
