"""P12: GeoTIFF and ASCII grid round trips."""
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If
from vf import npshim as NP
from contracts.rast import Grid

ASSUME = ["GDAL by an assumed contract: a file keeps the size, the type, the transform, the projection, the nodata value and the cells it is given, "
          "and gives back any block inside the raster",
          "grids of floating point cells in one or two SimpleBands; the storage of a band is by P01"]

SRS = {"utm": ("+proj=utm +zone=7 +north +datum=WGS84", "+proj=utm +zone=7 +datum=WGS84", 6378137.0, 298.25, "UTM 7N"),
       "lonlat": ("+proj=lonlat +a=6378137.0", "+proj=longlat +a=6378137.0", 6378137.0, 298.25, None),
       "sphere": ("+proj=lonlat +a=6371000.0 +f=0", "+proj=longlat +a=6371000.0", 6371000.0, 0.0, None),
       "none": ("", "", 0.0, 0.0, None)}


class CRS(object):
    """the coordinate system of the grid written"""
    def __init__(self, kind):
        self.kind = kind

    def get_proj4(self):
        return SRS[self.kind][0]


class SpatialReference(object):
    def __init__(self):
        self.kind = None

    def ImportFromProj4(self, s):
        for k, v in SRS.items():
            if v[0].replace("lonlat", "latlong") == s:
                self.kind = k
                return 0
        raise RuntimeError("projection " + s)

    def ImportFromWkt(self, s):
        self.kind = s.split(":")[1]

    def ExportToWkt(self):
        return "wkt:" + self.kind

    def ExportToProj4(self):
        return SRS[self.kind][1]

    def GetSemiMajor(self):
        return SRS[self.kind][2]

    def GetInvFlattening(self):
        return SRS[self.kind][3]

    def GetAttrValue(self, name):
        return SRS[self.kind][4]


class RasterBand(object):
    def __init__(self, ds):
        self.ds, self.nod, self.cells = ds, None, None
        self.XSize, self.YSize, self.DataType = ds.RasterXSize, ds.RasterYSize, ds.type

    def SetNoDataValue(self, v):
        self.nod = v

    def GetNoDataValue(self):
        return self.nod

    def WriteArray(self, a):
        self.ds.E.prove("a whole band is written", And(a.ndim == 2, a.shape[0] == self.YSize, a.shape[1] == self.XSize))
        self.cells = a.copy()

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_obj=None):
        nx = self.XSize - xoff if win_xsize is None else win_xsize
        ny = self.YSize - yoff if win_ysize is None else win_ysize
        self.ds.E.prove("the block read lies in the raster", And(0 <= xoff, 0 <= yoff, 0 <= nx, 0 <= ny, xoff + nx <= self.XSize, yoff + ny <= self.YSize))
        a = self.cells[yoff:yoff + ny, xoff:xoff + nx].copy()
        if buf_obj is None:
            return a
        self.ds.E.prove("the buffer has the size of the block", And(buf_obj.shape[0] == ny, buf_obj.shape[1] == nx))
        buf_obj[:, :] = a
        return buf_obj


class Dataset(object):
    def __init__(self, E, nx, ny, n, t):
        self.E, self.RasterXSize, self.RasterYSize, self.RasterCount, self.type = E, nx, ny, n, t
        self.bands = [RasterBand(self) for k in range(n)]
        self.T = self.proj = None

    def SetGeoTransform(self, T):
        self.T = tuple(T)

    def GetGeoTransform(self):
        return self.T

    def SetProjection(self, s):
        self.proj = s

    def GetProjectionRef(self):
        return self.proj

    def GetRasterBand(self, i):
        self.E.prove("the band exists", 1 <= i <= self.RasterCount)
        return self.bands[i - 1]

    def FlushCache(self):
        pass


class Gdal(object):
    GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64, GDT_CFloat64 = 1, 2, 3, 4, 5, 6, 7, 11
    NAMES = {1: "Byte", 2: "UInt16", 3: "Int16", 4: "UInt32", 5: "Int32", 6: "Float32", 7: "Float64", 11: "CFloat64"}

    def __init__(self, E):
        self.E, self.files = E, {}

    def GetDataTypeName(self, k):
        return self.NAMES[k]

    def GetDriverByName(self, s):
        return self

    def Create(self, fnm, nx, ny, n, t, co=()):
        self.files[fnm] = d = Dataset(self.E, nx, ny, n, t)
        return d

    def Open(self, fnm, mode=0):
        return self.files[fnm]


class Space(object):
    pass


def gdal(env):
    m = env.mod("karta.raster._gdal")
    o = Space()
    o.gdal, o.osr = Gdal(env.E), Space()
    o.osr.SpatialReference = SpatialReference
    m.osgeo = o
    m.gc = Space()
    m.gc.GA_ReadOnly = 0
    return m


def reader(env):
    r = env.mod("karta.raster.read")
    r.GeographicalCRS = lambda s, name=None: ("geographical", s, name)
    r.ProjectedCRS = lambda s, name=None: ("projected", s, name)
    r.Cartesian = "cartesian"
    return r


def expected_crs(kind):
    w, p, a, rf, name = SRS[kind]
    if kind == "none":
        return "cartesian"
    if kind == "utm":
        return ("projected", p, name)
    return ("geographical", "+a=%s +f=%s" % (a, 1.0 / rf if rf else 0.0), name)


TYPES = ["float64", "float32", "int32", "int16", "uint16", "uint8"]


def written(env, kind, dt="float64"):
    """a grid of any size with one or two bands, written"""
    E = env.E
    gdal(env)
    G = Grid(env)
    t = NP.dtype(dt)
    if t.kind != "f":
        G.nod = E.int("whole_nodata")
        G.g._nodata = G.nod
    for k, b in enumerate(G.bands):
        b.dtype = t
        if dt != "float64":
            G.vals[k] = NP.symbolic("typed%d" % k, (G.ny, G.nx), dt)
            b._array = G.vals[k].copy()
    G.g.crs = CRS(kind)
    E.prove("the grid written is returned", G.g.to_geotiff("f.tif") is G.g)
    G.unchanged()
    return G


@contract("karta.raster._gdal.write, karta.raster.read.read_geotiff: a GeoTIFF reads back, in memory and from disk, with the size, transform, cells, nodata and type written, and gives any block of it")
def geotiff(env):
    E = env.E
    dt = TYPES[E.choose(len(TYPES))]
    G = written(env, "utm", dt)
    mem = E.choose(2) == 1
    r = reader(env).read_geotiff("f.tif", in_memory=mem, bandclass=env.mod("karta.raster.band").SimpleBand)
    G.structure(r)
    E.prove("nodata", r.nodata == G.nod)
    E.prove("type", all(NP.dtype(b.dtype) == NP.dtype(dt) for b in r.bands))
    E.prove("cells", G.now(r) == G.old())
    # any block of it
    y, x, n, w = (E.int(v, 0) for v in ("by", "bx", "bn", "bw"))
    E.assume(And(y + n <= G.ny, x + w <= G.nx, y <= G.I, G.I < y + n, x <= G.J, G.J < x + w))
    b = r.bands[G.K].getblock(y, x, n, w)
    E.prove("the size of a block", And(b.shape[0] == n, b.shape[1] == w))
    E.prove("cells of a block", b.at(G.I - y, G.J - x) == G.old())


@contract("karta.raster._gdal.write, karta.raster.read.read_geotiff: a GeoTIFF reads back with the ellipsoid and the projection written")
def geotiff_crs(env):
    E = env.E
    kind = list(SRS)[E.choose(len(SRS))]
    G = written(env, kind)
    rd = reader(env)
    r = rd.read_geotiff("f.tif", in_memory=E.choose(2) == 1, bandclass=env.mod("karta.raster.band").SimpleBand)
    E.prove("projection and ellipsoid", r.crs == expected_crs(kind))
    G.structure(r)


@contract("karta.raster.read.read_geotiff: the bands asked for, in the order asked for")
def geotiff_bands(env):
    E = env.E
    G = written(env, "utm")
    E.assume(G.nb == 2)
    if G.nb != 2:
        return
    want = [1, 2, [1], [2], [2, 1], [1, 2]][E.choose(6)]
    r = reader(env).read_geotiff("f.tif", in_memory=E.choose(2) == 1, ibands=want, bandclass=env.mod("karta.raster.band").SimpleBand)
    ks = want if isinstance(want, list) else [want]
    E.prove("as many", len(r.bands) == len(ks))
    for b, k in zip(r.bands, ks):
        E.prove("band %d" % k, b.getblock(0, 0, G.ny, G.nx).at(G.I, G.J) == G.old(k - 1))


@contract("karta.raster._aai.check_header: both references, half a cell apart, and what is missing refused")
def header(env):
    E = env.E
    m = env.mod("karta.raster._aai")
    h = {"ncols": E.int("nc", 1), "nrows": E.int("nr", 1), "cellsize": E.real("d")}
    rx, ry = ("center", "corner")[E.choose(2)], ("center", "corner")[E.choose(2)]
    x, y = E.real("x"), E.real("y")
    h["xll" + rx], h["yll" + ry] = x, y
    if E.choose(2):
        # as aairead gives it
        for k in ("xllcenter", "xllcorner", "yllcenter", "yllcorner"):
            h.setdefault(k, None)
    miss = E.choose(6)
    if miss:
        del h[("ncols", "nrows", "cellsize", "xll" + rx, "yll" + ry)[miss - 1]]
        try:
            m.check_header(h)
        except ValueError:
            return
        E.prove("refused", False)
    d = h["cellsize"]
    r = m.check_header(h)
    E.prove("the given references", And(r["xll" + rx] == x, r["yll" + ry] == y))
    E.prove("half a cell apart", And(r["xllcenter"] - r["xllcorner"] == d / 2, r["yllcenter"] - r["yllcorner"] == d / 2))
    E.prove("the rest unchanged", And(r["ncols"] == h["ncols"], r["nrows"] == h["nrows"], r["cellsize"] == d))


@contract("karta.raster.read.from_geotiffs: one band per file, and files that disagree in size, transform or projection refused")
def stacked(env):
    E = env.E
    err = env.mod("karta.errors").GridError
    kind = ("utm", "lonlat")[E.choose(2)]
    G = written(env, kind)
    E.assume(G.nb == 1)
    if G.nb != 1:
        return
    how = E.choose(4)
    # a second file of any size and transform
    ny, nx = E.int("ny2", 1), E.int("nx2", 1)
    T = tuple(E.real(n + "2") for n in ("x0", "y0", "dx", "dy", "sx", "sy"))
    if how != 1:
        E.assume(And(ny == G.ny, nx == G.nx, *[a == b for a, b in zip(T, G.T)]))
        ny, nx, T = G.ny, G.nx, G.T
    b = env.mod("karta.raster.band").SimpleBand((ny, nx), NP.dtype("float64"))
    v = NP.symbolic("second", (ny, nx))
    b._array = v.copy()
    g2 = G.m.RegularGrid(T, bands=[b], nodata_value=E.real("nod2"))
    g2.crs = CRS("none" if how == 2 else kind)
    g2.to_geotiff("h.tif")
    rd = reader(env)
    kw = {"in_memory": E.choose(2) == 1, "bandclass": env.mod("karta.raster.band").SimpleBand}
    same = And(how != 2, ny == G.ny, nx == G.nx, *[p == q for p, q in zip(T, G.T)])
    try:
        r = rd.from_geotiffs("f.tif", "h.tif", "f.tif", **kw) if how == 3 else rd.from_geotiffs("f.tif", "h.tif", **kw)
    except err:
        E.prove("refused only when they disagree", Not(same))
        return
    # the corners of the files as GDAL has them are what is compared
    k = Or(how == 2, ny != G.ny, nx != G.nx, T[2] != G.T[2], T[3] != G.T[3], T[4] != G.T[4], T[5] != G.T[5],
           T[0] + ny * T[4] != G.T[0] + G.ny * G.T[4], T[1] + ny * T[3] != G.T[1] + G.ny * G.T[3])
    E.prove("files that disagree are refused", Not(k))
    E.prove("georeferencing", And(r.size[0] == G.ny, r.size[1] == G.nx, *[p == q for p, q in zip(r.transform, G.T)]))
    E.prove("a band per file", len(r.bands) == (3 if how == 3 else 2))
    at = lambda k: r.bands[k].getblock(0, 0, G.ny, G.nx).at(G.I, G.J)
    E.prove("cells of the first", at(0) == G.old(0))
    E.prove("cells of the second", at(1) == v.at(G.I, G.J))
    if how == 3:
        E.prove("cells of the third", at(2) == G.old(0))
    E.prove("nodata of the first", r.nodata == G.nod)
    E.prove("projection", r.crs == expected_crs(kind))
    G.unchanged()


@contract("karta.raster.read.read_aai: the corner, the cell size and the rows from the bottom")
def read_ascii(env):
    E = env.E
    G = Grid(env, nb=1)
    rd = env.mod("karta.raster.read")
    x, y, d = E.real("x"), E.real("y"), E.real("d")
    nod = E.real("nod")
    v = NP.symbolic("file", (G.ny, G.nx))

    class Aai(object):
        @staticmethod
        def aairead(f):
            return v.copy(), {"ncols": G.nx, "nrows": G.ny, "xllcorner": x, "yllcorner": y, "xllcenter": x + d / 2,
                              "yllcenter": y + d / 2, "cellsize": d, "nodata_value": nod}
    rd._aai = Aai
    r = rd.read_aai("f")
    E.prove("georeferencing", And(r.size[0] == G.ny, r.size[1] == G.nx, *[p == q for p, q in zip(r.transform, (x, y, d, d, 0, 0))]))
    E.prove("one band", len(r.bands) == 1)
    w = v.at(G.ny - 1 - G.I, G.J)
    E.prove("cells", Implies(w != nod, G.now(r, 0) == w))
