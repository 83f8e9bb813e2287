"""Stand-ins for shapely and fiona in the symbolic world. A geometry is a set
of boxes [a, b] x [0, 1] with symbolic ends: every combination of
intersection areas of one polygon with disjoint others is among them. What is
not modelled raises Unsupported."""
import os
import types

import numpy as np
import z3

from . import npshim as N
from . import vals as V
from .core import Unsupported
from .fakes import Mod, touch
from .vals import is_sym


def lo(a, b):
    return V.py_min([a, b]) if is_sym(a) or is_sym(b) else min(a, b)


def hi(a, b):
    return V.py_max([a, b]) if is_sym(a) or is_sym(b) else max(a, b)


def pos(x):
    return V.ite(x > 0, x, 0.0) if is_sym(x) else max(x, 0.0)


class Geom:
    is_valid = True
    is_simple = True
    has_z = False

    def __init__(self, boxes):
        self.boxes = list(boxes)

    @property
    def geom_type(self):
        return 'Polygon' if len(self.boxes) == 1 else 'MultiPolygon'

    type = geom_type

    @property
    def geoms(self):
        return [Geom([b]) for b in self.boxes]

    @property
    def area(self):
        s = 0.0
        for a, b in self.boxes:
            s = s + pos(b - a)
        return s

    @property
    def is_empty(self):
        return not self.solid()

    def solid(self):
        """the boxes that are there (forks)"""
        self.boxes = [(a, b) for a, b in self.boxes if bool(b >= a)]
        return self.boxes

    @property
    def bounds(self):
        s = self.solid()
        if not s:
            return (float('nan'),) * 4
        a, b = s[0]
        for c, d in s[1:]:
            a, b = lo(a, c), hi(b, d)
        return (a, 0.0, b, 1.0)

    def buffer(self, d, *a, **k):
        if is_sym(d) or d != 0:
            raise Unsupported('buffer of a geometry')
        return Geom(self.boxes)

    def intersection(self, o, *a, **k):
        o = geom(o)
        return Geom([(hi(a, c), lo(b, d)) for a, b in self.boxes
                     for c, d in o.boxes])

    __and__ = intersection

    def intersects(self, o):
        r = False
        for a, b in self.boxes:
            for c, d in geom(o).boxes:
                r = V.norm_bool(V.zor(V.bexpr(r), V.bexpr(V.norm_bool(V.zand(
                    V.bexpr(a <= d), V.bexpr(c <= b))))))
        return r

    def disjoint(self, o):
        return V.norm_bool(V.znot(V.bexpr(self.intersects(o))))

    def contains(self, o):
        return geom(o).within(self)

    covers = contains

    def within(self, o):
        """true for boxes that are each in one box of the other"""
        r = True
        for a, b in self.solid():
            s = False
            for c, d in geom(o).solid():
                s = V.zor(s, V.zand(V.bexpr(c <= a), V.bexpr(b <= d)))
            r = V.zand(r, s)
        return V.norm_bool(r)

    def overlaps(self, o):
        """common area, and more on both sides"""
        s = self.intersection(o).area
        return V.norm_bool(V.zand(V.bexpr(s > 0), V.zand(
            V.bexpr(s < self.area), V.bexpr(s < geom(o).area))))

    def touches(self, o):
        return V.norm_bool(V.zand(
            V.bexpr(self.intersects(o)),
            V.bexpr(self.intersection(o).area <= 0)))

    @property
    def __geo_interface__(self):
        return {'type': self.geom_type, 'boxes': tuple(self.solid())}

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('geometry attribute ' + k)


def geom(x):
    if not isinstance(x, Geom):
        raise Unsupported('another kind of geometry')
    return x


def shape(d):
    if isinstance(d, Geom):
        return d
    if 'boxes' not in d:
        raise Unsupported('shape of other coordinates')
    return Geom(d['boxes'])


def mapping(g):
    return geom(g).__geo_interface__


class Pt:
    def __init__(self, *a):
        if len(a) == 1:
            a = tuple(a[0])
        self.x, self.y = a


def same(a, b):
    if is_sym(a) or is_sym(b):
        return bool(V.norm_bool(V.bexpr(a == b)))
    return a == b


def polygon(pts, *a):
    ps = [(p.x, p.y) if isinstance(p, Pt) else tuple(p) for p in pts]
    if a or len(ps) not in (4, 5):
        raise Unsupported('a polygon of another form')
    ys = sorted({float(p[1]) for p in ps if not is_sym(p[1])})
    if len(ys) != 2 or ys[0] > 0 or ys[1] < 1 or any(
            is_sym(p[1]) for p in ps):
        raise Unsupported('a polygon of another form')
    row = [[x for x, y in ps[:4] if float(y) == yy] for yy in ys]
    if len(row[0]) != 2 or len(row[1]) != 2:
        raise Unsupported('a polygon of another form')
    (a, b), (c, d) = row
    if not (same(a, c) and same(b, d) or same(a, d) and same(b, c)):
        raise Unsupported('a polygon of another form')
    return Geom([(lo(a, b), hi(a, b))])


def box(x0, y0, x1, y1, ccw=True):
    if is_sym(y0) or is_sym(y1) or y0 > 0 or y1 < 1:
        raise Unsupported('a box of another form')
    return Geom([(lo(x0, x1), hi(x0, x1))])


def unary_union(gs, *a):
    """of polygons that do not overlap"""
    return Geom([b for g in gs for b in geom(g).boxes])


class Tree:
    PRED = dict(intersects=Geom.intersects, within=Geom.within,
                contains=Geom.contains, covers=Geom.contains,
                covered_by=Geom.within, overlaps=Geom.overlaps,
                touches=Geom.touches)

    def __init__(self, geoms, *a, **k):
        self._g = [geom(g) for g in geoms]

    @property
    def geometries(self):
        o = np.empty(len(self._g), dtype=object)
        o[:] = self._g
        return o

    def __len__(self):
        return len(self._g)

    def one(self, g, predicate):
        if predicate is not None:
            if predicate not in self.PRED:
                raise Unsupported('predicate %r' % (predicate,))
            f = self.PRED[predicate]
            return [i for i, o in enumerate(self._g) if bool(f(g, o))]
        q = geom(g).bounds
        r = []
        for i, o in enumerate(self._g):
            b = o.bounds
            if bool(q[0] <= b[2]) and bool(b[0] <= q[2]):
                r.append(i)
        return r

    def query(self, g, predicate=None, distance=None):
        if distance is not None:
            raise Unsupported('query with a distance')
        if isinstance(g, (list, tuple, np.ndarray)):
            p = [(i, j) for i, x in enumerate(g)
                 for j in self.one(x, predicate)]
            return N.array([[i for i, _ in p], [j for _, j in p]], 'int64')
        return N.array(self.one(g, predicate), 'int64')


def make_shapely():
    m = Mod('shapely')
    g = Mod('shapely.geometry', None, shape=shape, mapping=mapping, Point=Pt,
            Polygon=polygon, box=box)
    ops = Mod('shapely.ops', None, unary_union=unary_union,
              cascaded_union=unary_union)
    st = Mod('shapely.strtree', None, STRtree=Tree)
    m.__dict__.update(
        geometry=g, ops=ops, strtree=st, STRtree=Tree, box=box,
        Polygon=polygon, Point=Pt, unary_union=unary_union,
        intersection=lambda a, b: vec(Geom.intersection, a, b),
        intersects=lambda a, b: vec(Geom.intersects, a, b),
        area=lambda a: a.area if isinstance(a, Geom) else N.array(
            [x.area for x in a]),
        prepared=Mod('shapely.prepared', None, prep=lambda x: x))
    return m


def vec(f, a, b):
    if isinstance(a, Geom) and isinstance(b, Geom):
        return f(a, b)
    raise Unsupported('array form of a geometry function')


class Feature(dict):
    @property
    def geometry(self):
        return self['geometry']

    @property
    def properties(self):
        return self['properties']

    @property
    def id(self):
        return self['id']


def typename(t):
    return t.split(':')[0]


class Collection:
    """a shapefile; written files are kept when closed"""

    def __init__(self, env, path, mode, kw):
        self.env, self.path, self.mode = env, os.path.abspath(path), mode
        self.closed = False
        if mode == 'r':
            d = env.vectors.get(self.path)
            if d is None or not os.path.exists(self.path):
                import fiona.errors
                raise fiona.errors.DriverError('%s: No such file or directory'
                                               % path)
            self.d = d
        else:
            if mode != 'w' or 'schema' not in kw or not kw.get('driver'):
                raise Unsupported('fiona.open(%r)' % (mode,))
            s = kw['schema']
            self.d = dict(driver=kw['driver'], crs=kw.get('crs'), schema=dict(
                geometry=s['geometry'], properties=dict(s['properties'])),
                rows=[])

    @property
    def meta(self):
        return dict(driver=self.d['driver'], crs=self.d['crs'],
                    crs_wkt=self.d['crs'], schema=dict(
                        geometry=self.d['schema']['geometry'],
                        properties=dict(self.d['schema']['properties'])))

    profile = meta

    @property
    def schema(self):
        return self.meta['schema']

    @property
    def crs(self):
        return self.d['crs']

    @property
    def driver(self):
        return self.d['driver']

    def __iter__(self):
        for i, (g, p) in enumerate(self.d['rows']):
            yield Feature(type='Feature', id=str(i), properties=dict(p),
                          geometry=None if g is None else mapping(g))

    def __len__(self):
        return len(self.d['rows'])

    def write(self, f):
        g, p = f['geometry'], f['properties']
        want = self.d['schema']['properties']
        if set(p) != set(want):
            raise ValueError('Record does not match collection schema: %r != '
                             '%r' % (list(want), list(p)))
        row = {}
        for k, t in want.items():
            v = p[k]
            if v is not None and typename(t).startswith('int'):
                v = V.to_int(v) if is_sym(v) else int(v)
            elif v is not None and typename(t) == 'str' and not isinstance(
                    v, str):
                v = str(v)
            row[k] = v
        self.d['rows'].append((None if g is None else shape(g), row))

    def writerecords(self, fs):
        for f in fs:
            self.write(f)

    def close(self):
        if not self.closed and self.mode == 'w':
            self.env.vectors[self.path] = self.d
            touch(self.path)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def make_fiona(env):
    def open_(fp, mode='r', **kw):
        return Collection(env, str(fp), mode, kw)
    return Mod('fiona', None, open=open_)


# -- thread pools whose tasks run in either order ---------------------------
class Pool:
    backwards = False

    def __init__(self, *a, **k):
        self.todo = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False

    def submit(self, f, *a, **k):
        t = Job(self, f, a, k)
        self.todo.append(t)
        return t

    def map(self, f, *its, **k):
        ts = [self.submit(f, *x) for x in zip(*its)]
        return (t.result() for t in ts)

    def shutdown(self, *a, **k):
        ts, self.todo = self.todo, []
        for t in ts[::-1] if self.backwards else ts:
            t.run()


class Job:
    def __init__(self, pool, f, a, k):
        self.pool, self.f, self.a, self.k = pool, f, a, k
        self.ran, self.res, self.ex = False, None, None

    def run(self):
        self.ran = True
        try:
            self.res = self.f(*self.a, **self.k)
        except Exception as ex:
            self.ex = ex

    def result(self, timeout=None):
        self.pool.shutdown()
        if self.ex is not None:
            raise self.ex
        return self.res

    def exception(self, timeout=None):
        self.pool.shutdown()
        return self.ex

    def done(self):
        return self.ran


def completed(fs, timeout=None):
    fs = list(fs)
    if fs:
        fs[0].pool.shutdown()
    return iter(fs[::-1] if fs and fs[0].pool.backwards else fs)


def waitall(fs, **k):
    return set(completed(fs)), set()


def schedule(env, backwards):
    """thread pools run their tasks in the order of submission, or in the
    opposite one"""
    import concurrent.futures as cf
    P = type('Pool', (Pool,), dict(backwards=backwards))
    new = dict(ThreadPoolExecutor=P, ProcessPoolExecutor=P,
               as_completed=completed, wait=waitall)
    if env.sym:
        m = Mod('concurrent.futures', cf, **new)
        env.stub('concurrent', Mod('concurrent', None, futures=m))
    else:
        for k, v in new.items():
            env.patch(cf, k, v)
