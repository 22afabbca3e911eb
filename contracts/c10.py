"""C10: pixel indices and sky positions map to each other consistently.

The specification is the affine map: pixel (x, y) = (column, row) of an image has the sky position
(ra0 + T00 x + T01 y, dec0 + T10 x + T11 y); everything else (grids, sub-pixels, shifts, rotations,
sub-frames, point sources, rebinned frames) follows from it."""
import numpy as np
from lv.world import contract
from contracts.common import swap

CT = "Data/coord_transforms.py::Coordinates."
PG = "Data/pixel_grid.py::PixelGrid."
GR = "ImSim/Numerics/grid.py::"
UU = "Util/util.py::"
IU = "Util/image_util.py::"
BND = "frame sizes as listed (loops and reshapes over pixels are unrolled); all transformations, zero points and values"


def trans(W, n="T"):
    t = [[W.real(n + "00", None, None, (-0.08, -0.02)), W.real(n + "01", None, None, (-0.03, 0.03))],
         [W.real(n + "10", None, None, (-0.03, 0.03)), W.real(n + "11", None, None, (0.02, 0.08))]]
    W.assume(abs(t[0][0] * t[1][1] - t[0][1] * t[1][0]) > 1e-5)
    return W.mat(t)


def zero(W):
    return W.real("ra0", None, None, (-3, 3)), W.real("dec0", None, None, (-3, 3))


def spec(T, z, x, y):
    return z[0] + T[0, 0] * x + T[0, 1] * y, z[1] + T[1, 0] * x + T[1, 1] * y


def check_system(W, lab, c, T, z, x, y):
    """c (Coordinates) implements the affine map with transformation T and zero point z"""
    ra, dec = spec(T, z, x, y)
    a, b = c.map_pix2coord(x, y)
    W.eq(lab + ": ra of a pixel", a, ra)
    W.eq(lab + ": dec of a pixel", b, dec)
    px, py = c.map_coord2pix(ra, dec)
    W.eq(lab + ": column of a position", px, x)
    W.eq(lab + ": row of a position", py, y)
    W.eq(lab + ": zero point", c.radec_at_xy_0[0], z[0])
    W.eq(lab + ": zero point dec", c.radec_at_xy_0[1], z[1])
    x0, y0 = c.xy_at_radec_0
    r0, d0 = spec(T, z, x0, y0)
    W.eq(lab + ": origin of the sky in pixels", r0, 0 * r0)
    W.eq(lab + ": origin of the sky in pixels (dec)", d0, 0 * d0)
    for i in range(2):
        for j in range(2):
            W.eq(lab + ": transform %d%d" % (i, j), c.transform_pix2angle[i, j], T[i, j])
            W.eq(lab + ": inverse transform %d%d" % (i, j),
                 c.transform_angle2pix[i, 0] * T[0, j] + c.transform_angle2pix[i, 1] * T[1, j], 1 if i == j else 0)
    det = T[0, 0] * T[1, 1] - T[0, 1] * T[1, 0]
    W.eq(lab + ": pixel area", c.pixel_area, abs(det))
    W.eq(lab + ": pixel width squared", c.pixel_width ** 2, abs(det))
    W.true(lab + ": pixel width is not negative", c.pixel_width >= 0)


def check_grid(W, lab, g, T, z, nx, ny, flat=False):
    """image coordinates: value [row, column] belongs to pixel (column, row)"""
    a, b = g
    if flat:
        a, b = a.reshape(ny, nx), b.reshape(ny, nx)
    W.shape(lab + ": shape", a, (ny, nx))
    W.shape(lab + ": shape dec", b, (ny, nx))
    for j in range(ny):
        for i in range(nx):
            ra, dec = spec(T, z, i, j)
            W.eq(lab + ": ra[%d,%d]" % (j, i), a[j, i], ra)
            W.eq(lab + ": dec[%d,%d]" % (j, i), b[j, i], dec)


@contract("C10", "coordinates", [CT + n for n in ("__init__", "map_pix2coord", "map_coord2pix", "pixel_area", "pixel_width", "xy_at_radec_0", "radec_at_xy_0", "transform_angle2pix", "transform_pix2angle")] + [UU + "map_coord2pix"], samples=30)
def _co(W):
    from lenstronomy.Data.coord_transforms import Coordinates

    T, z = trans(W), zero(W)
    x, y = W.array("x", 2, None, None, (-20, 60)), W.array("y", 2, None, None, (-20, 60))
    check_system(W, "coordinates", Coordinates(T, z[0], z[1]), T, z, x, y)


@contract("C10", "coordinates.scalar", [CT + n for n in ("map_pix2coord", "map_coord2pix")], samples=20)
def _cos(W):
    from lenstronomy.Data.coord_transforms import Coordinates

    T, z = trans(W), zero(W)
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    check_system(W, "coordinates", Coordinates(T, z[0], z[1]), T, z, x, y)


SIZES = [(1, 1), (3, 3), (2, 3), (4, 2), (1, 3)]


@contract("C10", "coordinate_grid", [CT + "coordinate_grid", "Data/coord_transforms.py::Coordinates1D.coordinate_grid", UU + "grid_from_coordinate_transform", UU + "array2image"], samples=8, bounded=BND)
def _cg(W):
    from lenstronomy.Data.coord_transforms import Coordinates, Coordinates1D

    T, z = trans(W), zero(W)
    for nx, ny in SIZES:
        check_grid(W, "grid %dx%d" % (nx, ny), Coordinates(T, *z).coordinate_grid(nx, ny), T, z, nx, ny)
        check_grid(W, "1d grid %dx%d" % (nx, ny), Coordinates1D(T, *z).coordinate_grid(nx, ny), T, z, nx, ny, flat=True)


@contract("C10", "pixel_grid", [PG + n for n in ("__init__", "num_pixel", "num_pixel_axes", "width", "center", "pixel_coordinates")], samples=8, bounded=BND)
def _pg(W):
    from lenstronomy.Data.pixel_grid import PixelGrid

    T, z = trans(W), zero(W)
    for nx, ny in SIZES:
        g = PixelGrid(nx, ny, T, *z)
        lab = "%dx%d " % (nx, ny)
        check_grid(W, lab, g.pixel_coordinates, T, z, nx, ny)
        W.same(lab + "pixels", g.num_pixel, nx * ny)
        W.same(lab + "axes", tuple(g.num_pixel_axes), (nx, ny))
        W.eq(lab + "width", g.width[0], nx * g.pixel_width)
        W.eq(lab + "height", g.width[1], ny * g.pixel_width)
        ra, dec = spec(T, z, (nx - 1) / 2, (ny - 1) / 2)
        W.eq(lab + "centre", g.center[0], ra)
        W.eq(lab + "centre dec", g.center[1], dec)


def rot(W, T, phi):
    c, s = W.cos(phi), W.sin(phi)
    return W.mat([[T[0, 0] * c + T[0, 1] * s, -T[0, 0] * s + T[0, 1] * c], [T[1, 0] * c + T[1, 1] * s, -T[1, 0] * s + T[1, 1] * c]])


UPD = [[("ra_shift",)], [("dec_shift",)], [("phi_rot",)], [("ra_shift", "dec_shift", "phi_rot")], [("ra_shift", "dec_shift"), ("phi_rot",)],
       [("phi_rot",), ("ra_shift",), ("dec_shift",)], [("ra_shift", "phi_rot"), ("ra_shift", "dec_shift")], [("phi_rot",), ("phi_rot",)], [()]]

for _k, _seq in enumerate(UPD):
    @contract("C10", "update.%s" % "+".join("_".join(s) or "none" for s in _seq), [PG + "update_coordinate_grid", CT + "update_coord_transform"], samples=10, bounded=BND + "; the listed sequences of updates")
    def _up(W, seq=_seq):
        """an update sets the quantities it names relative to the initial frame and keeps the others"""
        from lenstronomy.Data.pixel_grid import PixelGrid

        T, z = trans(W), zero(W)
        g = PixelGrid(2, 3, T, *z)
        cur = dict(ra_shift=0, dec_shift=0, phi_rot=0)
        x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
        for n, s in enumerate(seq):
            new = {q: W.real("%s%d" % (q, n), None, None, (-1, 1)) for q in s}
            r = g.update_coordinate_grid(**new)
            cur.update(new)
            if not s:
                W.same("nothing to update", r, False)
            t2 = rot(W, T, cur["phi_rot"])
            z2 = (z[0] + cur["ra_shift"], z[1] + cur["dec_shift"])
            check_system(W, "after update %d" % n, g, t2, z2, x, y)
            check_grid(W, "after update %d" % n, g.pixel_coordinates, t2, z2, 2, 3)


@contract("C10", "update.back", [PG + "update_coordinate_grid", CT + "update_coord_transform"], samples=10, bounded=BND)
def _ub(W):
    """updating with zero shifts and rotation restores the initial frame"""
    from lenstronomy.Data.pixel_grid import PixelGrid

    T, z = trans(W), zero(W)
    g = PixelGrid(2, 2, T, *z)
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    g.update_coordinate_grid(W.real("a", None, None, (-1, 1)), W.real("b", None, None, (-1, 1)), W.real("p", None, None, (-1, 1)))
    g.update_coordinate_grid(0, 0, 0)
    check_system(W, "restored", g, T, z, x, y)
    check_grid(W, "restored", g.pixel_coordinates, T, z, 2, 2)


@contract("C10", "shift", [CT + "shift_coordinate_system", CT + "_shift_coordinates", PG + "shift_coordinate_system"], samples=20, bounded=BND)
def _sh(W):
    from lenstronomy.Data.pixel_grid import PixelGrid

    T, z = trans(W), zero(W)
    g = PixelGrid(3, 2, T, *z)
    a, b = W.real("a", None, None, (-5, 5)), W.real("b", None, None, (-5, 5))
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    pu = W.choice("pixel_unit", [False, True])
    g.shift_coordinate_system(a, b, pixel_unit=pu)
    if pu:
        z2 = z[0] + T[0, 0] * a + T[0, 1] * b, z[1] + T[1, 0] * a + T[1, 1] * b
    else:
        z2 = z[0] + a, z[1] + b
    check_system(W, "shifted", g, T, z2, x, y)
    check_grid(W, "shifted", g.pixel_coordinates, T, z2, 3, 2)
    g.shift_coordinate_system(-a, -b, pixel_unit=pu)
    check_system(W, "shifted back", g, T, z, x, y)


@contract("C10", "image_data", ["Data/imaging_data.py::ImageData.__init__"], samples=20, bounded=BND)
def _im(W):
    """the frame of imaging data: the last axis is x; shifts add to the zero point, rotations turn the pixels about it"""
    from lenstronomy.Data.imaging_data import ImageData

    T, z = trans(W), zero(W)
    s = (W.real("a", None, None, (-1, 1)), W.real("b", None, None, (-1, 1)))
    phi = W.real("phi", None, None, (-3, 3))
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    for ny, nx in ((2, 2), (3, 2), (2, 4)):
        d = ImageData(np.zeros((ny, nx)), exposure_time=100.0, background_rms=1.0, ra_at_xy_0=z[0], dec_at_xy_0=z[1], transform_pix2angle=T,
                      ra_shift=s[0], dec_shift=s[1], phi_rot=phi)
        t2, z2 = rot(W, T, phi), (z[0] + s[0], z[1] + s[1])
        check_system(W, "data %dx%d" % (nx, ny), d, t2, z2, x, y)
        check_grid(W, "data %dx%d" % (nx, ny), d.pixel_coordinates, t2, z2, nx, ny)
        W.same("axes", tuple(d.num_pixel_axes), (nx, ny))


@contract("C10", "image_data.default", ["Data/imaging_data.py::ImageData.__init__"], samples=3, bounded=BND)
def _imd(W):
    from lenstronomy.Data.imaging_data import ImageData

    d = ImageData(np.zeros((2, 3)), exposure_time=100.0, background_rms=1.0)
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    check_system(W, "default frame", d, W.mat([[1.0, 0.0], [0.0, 1.0]]), (0, 0), x, y)


@contract("C10", "image_data.update", ["Data/imaging_data.py::ImageData.update_data"], samples=3, bounded=BND)
def _imu(W):
    from lenstronomy.Data.imaging_data import ImageData

    d = ImageData(np.zeros((2, 3)), exposure_time=100.0, background_rms=1.0)
    for shp in ((3, 3), (2, 2), (3, 2), (1, 1)):
        W.raises("data of shape %s do not fit the frame" % (shp,), lambda: d.update_data(np.zeros(shp)), ValueError)
    new = np.ones((2, 3))
    d.update_data(new)
    W.same("new data", d.data, new)


# ---------------------------------------------------------------- grids
@contract("C10", "make_grid", [UU + "make_grid", UU + "make_grid_transformed", UU + "get_axes"], samples=8, bounded=BND)
def _mg(W):
    from lenstronomy.Util import util

    d = W.real("d", 0, None, (0.02, 1))
    T = trans(W)
    for n in (1, 2, 3, (2, 3), (4, 1), [3, 2]):
        nx, ny = (n, n) if isinstance(n, int) else n
        for s in (1, 2, 3):
            x, y = util.make_grid(n, d, subgrid_res=s)
            check_grid(W, "centred grid %s/%d" % (n, s), (x, y), W.mat([[d / s, 0], [0, d / s]]), (-(nx * s - 1) / 2 * d / s, -(ny * s - 1) / 2 * d / s), nx * s, ny * s, flat=True)
        x, y = util.make_grid(n, d, left_lower=True)
        check_grid(W, "grid from the corner %s" % (n,), (x, y), W.mat([[d, 0], [0, d]]), (0, 0), nx, ny, flat=True)
        ra, dec = util.make_grid_transformed(n, T)
        check_grid(W, "transformed grid %s" % (n,), (ra, dec), T, spec(T, (0, 0), -(nx - 1) / 2, -(ny - 1) / 2), nx, ny, flat=True)
    x, y = util.make_grid(3, d)
    ax, ay = util.get_axes(x, y)
    for i in range(3):
        W.eq("x axis", ax[i], (i - 1) * d)
        W.eq("y axis", ay[i], (i - 1) * d)


@contract("C10", "make_grid_with_coordtransform", [UU + "make_grid_with_coordtransform", UU + "map_coord2pix"], samples=8, bounded=BND)
def _mgc(W):
    from lenstronomy.Util import util

    d = W.real("d", 0.001, None, (0.02, 1))
    c = W.real("c_ra", None, None, (-1, 1)), W.real("c_dec", None, None, (-1, 1))
    for n in (1, 2, 3):
        for ll in (True, False):
            for inv in (True, False):
                lab = "n=%d corner=%s east left=%s" % (n, ll, inv)
                ra, dec, ra0, dec0, x0, y0, T, Ti = util.make_grid_with_coordtransform(n, d, 1, c[0], c[1], ll, inv)
                sx = -d if inv else d
                want = (c[0], c[1]) if ll else (c[0] - (n - 1) / 2 * sx, c[1] - (n - 1) / 2 * d)
                check_grid(W, lab, (ra, dec), W.mat([[sx, 0], [0, d]]), want, n, n, flat=True)
                check_grid(W, lab + ": returned transform", (ra, dec), T, (ra0, dec0), n, n, flat=True)
                px, py = util.map_coord2pix(ra, dec, x0, y0, Ti)
                for k in range(n * n):
                    W.eq(lab + ": returned inverse x", px[k], k % n)
                    W.eq(lab + ": returned inverse y", py[k], k // n)
    # with sub-sampling the returned transformation still describes the returned grid
    for s in (2, 3):
        ra, dec, ra0, dec0, x0, y0, T, Ti = util.make_grid_with_coordtransform(2, d, s, c[0], c[1])
        check_grid(W, "sub-sampled by %d" % s, (ra, dec), T, (ra0, dec0), 2 * s, 2 * s, flat=True)
        px, py = util.map_coord2pix(ra, dec, x0, y0, Ti)
        for k in range(4 * s * s):
            W.eq("sub-sampled by %d: inverse x" % s, px[k], k % (2 * s))
            W.eq("sub-sampled by %d: inverse y" % s, py[k], k // (2 * s))


@contract("C10", "centered_coordinate_system", [UU + "centered_coordinate_system"], samples=8, bounded=BND)
def _cc(W):
    from lenstronomy.Util import util
    from lenstronomy.Data.pixel_grid import PixelGrid

    T = trans(W)
    for n in (1, 2, 5):
        k = util.centered_coordinate_system(n, T)
        g = PixelGrid(nx=n, ny=n, **k)
        W.eq("centre ra", g.center[0], 0 * T[0, 0], atol=1e-12)
        W.eq("centre dec", g.center[1], 0 * T[0, 0], atol=1e-12)
        ra, dec = g.map_pix2coord((n - 1) / 2, (n - 1) / 2)
        W.eq("central pixel at the origin", ra, 0 * ra, atol=1e-12)
        W.eq("central pixel at the origin (dec)", dec, 0 * dec, atol=1e-12)
        W.eq("orientation", g.transform_pix2angle, T)


def sub_spec(T, z, i, j, s):
    """sky position of sub-pixel (column i, row j) of a frame divided into s x s sub-pixels per pixel"""
    return spec(T, z, (i + 0.5) / s - 0.5, (j + 0.5) / s - 0.5)


@contract("C10", "make_subgrid", [UU + "make_subgrid", UU + "averaging", IU + "re_size"], samples=8, bounded=BND)
def _ms(W):
    from lenstronomy.Util import util, image_util

    T, z = trans(W), zero(W)
    for n in (2, 3):
        ra, dec = util.grid_from_coordinate_transform(n, n, T, *z)
        for s in (1, 2, 3):
            a, b = util.make_subgrid(ra, dec, s)
            a, b = a.reshape(n * s, n * s), b.reshape(n * s, n * s)
            for j in range(n * s):
                for i in range(n * s):
                    p, q = sub_spec(T, z, i, j, s)
                    W.eq("sub-pixel ra %d/%d" % (n, s), a[j, i], p)
                    W.eq("sub-pixel dec %d/%d" % (n, s), b[j, i], q)
            for nm, v, w in (("ra", a, ra), ("dec", b, dec)):
                W.eq("mean of the sub-pixels %s" % nm, image_util.re_size(v, s).flatten(), w)
                W.eq("averaging %s" % nm, util.averaging(v.flatten(), n * s, n).flatten(), w)


def masks(n):
    out = {"all": None}
    m = np.zeros((n, n), bool)
    m[0, 1] = m[n - 1, n - 1] = m[1, 0] = True
    out["three"] = m
    m = np.zeros((n, n), bool)
    m[1, 0] = True
    out["one"] = m
    return out


@contract("C10", "regular_grid", [GR + "RegularGrid." + q for q in ("__init__", "coordinates_evaluate", "_subgrid_index", "_array2image", "flux_array2image_low_high", "num_grid_points_axes", "grid_points_spacing", "supersampling_factor")] + [UU + "make_subgrid"],
          samples=4, bounded=BND)
def _rg(W):
    """an arbitrary brightness evaluated on the grid of a frame ends in the pixels it was evaluated for"""
    from lenstronomy.ImSim.Numerics.grid import RegularGrid

    T, z = trans(W), zero(W)
    f = W.uf("f", 2)
    for n, s in ((2, 1), (2, 2), (3, 2), (2, 3)):
        for key, m in masks(n).items():
            lab = "frame %d factor %d, %s: " % (n, s, key)
            g = RegularGrid(n, n, T, z[0], z[1], s, m)
            sel = np.ones((n, n), bool) if m is None else m
            x, y = g.coordinates_evaluate
            W.same(lab + "number of sub-pixels", len(x), int(sel.sum()) * s * s)
            lo, hi = g.flux_array2image_low_high(f(x, y))
            W.same(lab + "axes", tuple(g.num_grid_points_axes), (n * s, n * s))
            W.same(lab + "factor", g.supersampling_factor, s)
            W.eq(lab + "spacing", g.grid_points_spacing * s, g.pixel_width)
            W.shape(lab + "image", lo, (n, n))
            W.same(lab + "no high resolution image without super-sampling", hi is None, s == 1)
            for j in range(n):
                for i in range(n):
                    sub = [f(*sub_spec(T, z, i * s + a, j * s + b, s)) if sel[j, i] else 0 for b in range(s) for a in range(s)]
                    W.eq(lab + "pixel [%d,%d]" % (j, i), lo[j, i], sum(sub) / s ** 2)
                    if s > 1:
                        for k, v in enumerate(sub):
                            W.eq(lab + "sub-pixel of [%d,%d]" % (j, i), hi[j * s + k // s, i * s + k % s], v)


@contract("C10", "adaptive_grid", [GR + "AdaptiveGrid." + q for q in ("__init__", "coordinates_evaluate", "_high_res_coordinates", "_subpixel_coordinates", "flux_array2image_low_high", "_merge_low_high_res", "_high_res_image", "_average_subgrid", "_array2image_subset")],
          samples=4, bounded=BND)
def _ag(W):
    from lenstronomy.ImSim.Numerics.grid import AdaptiveGrid

    T, z = trans(W), zero(W)
    f = W.uf("f", 2)
    for n, s in ((2, 2), (3, 2), (2, 3), (3, 1)):
        hm = np.zeros((n, n), bool)
        hm[1, 0] = hm[0, 0] = hm[n - 1, n - 1] = True
        for key, m in masks(n).items():
            for two_d in ((True, False) if m is not None else (True,)):
                lab = "frame %d factor %d, %s%s: " % (n, s, key, "" if two_d else " (1d)")
                g = AdaptiveGrid(n, n, T, z[0], z[1], hm, s, m if two_d else m.flatten())
                sel = np.ones((n, n), bool) if m is None else m
                x, y = g.coordinates_evaluate
                W.same(lab + "number of positions", len(x), int((sel & ~hm).sum() + (sel & hm).sum() * s * s))
                lo, hi = g.flux_array2image_low_high(f(x, y))
                W.shape(lab + "image", lo, (n, n))
                for j in range(n):
                    for i in range(n):
                        if not sel[j, i]:
                            want = 0
                        elif not hm[j, i]:
                            want = f(*spec(T, z, i, j))
                        else:
                            want = sum(f(*sub_spec(T, z, i * s + a, j * s + b, s)) for b in range(s) for a in range(s)) / s ** 2
                        W.eq(lab + "pixel [%d,%d]" % (j, i), lo[j, i], want)
                        for b in range(s):
                            for a in range(s):
                                W.eq(lab + "sub-pixel of [%d,%d]" % (j, i), hi[j * s + b, i * s + a],
                                     f(*sub_spec(T, z, i * s + a, j * s + b, s)) if (sel & hm)[j, i] else 0)
                lo2, none = g.flux_array2image_low_high(f(x, y), high_res_return=False)
                W.same(lab + "high resolution image only if asked for", none is None, True)


SUB = "ImSim/Numerics/numerics_subframe.py::NumericsSubFrame."


@contract("C10", "numerics", ["ImSim/Numerics/numerics.py::Numerics." + q for q in ("__init__", "re_size_convolve", "coordinates_evaluate", "grid_supersampling_factor", "grid_class")] +
          [SUB + q for q in ("__init__", "_init_sub_frame", "_cut_frame", "_complete_frame", "_sub_pixel_grid", "re_size_convolve", "coordinates_evaluate")], samples=3, bounded=BND)
def _nu(W):
    """an arbitrary surface brightness evaluated through the numerics classes is the pixel area times the mean over sub-pixels, in the pixel it belongs to"""
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF

    T, z = trans(W), zero(W)
    f = W.uf("f", 2)
    psf = PSF(psf_type="NONE")
    n = 4
    pg = PixelGrid(n, n, T, *z)
    det = abs(T[0, 0] * T[1, 1] - T[0, 1] * T[1, 0])
    mm = {"all": None}
    m = np.zeros((n, n), bool)
    m[0, 1] = m[1, 2] = True
    mm["upper"] = m
    m = np.zeros((n, n), bool)
    m[1, 0] = m[3, 1] = m[2, 2] = m[3, 0] = True
    mm["lower"] = m
    hm = np.zeros((n, n), bool)
    hm[0, 1] = hm[3, 1] = True
    for key, m in mm.items():
        sel = np.ones((n, n), bool) if m is None else m
        for cls in (Numerics, NumericsSubFrame):
            for mode, s in (("regular", 1), ("regular", 2), ("adaptive", 2)):
                lab = "%s %s %d %s: " % (cls.__name__, mode, s, key)
                num = cls(pg, psf, supersampling_factor=s, compute_mode=mode, flux_evaluate_indexes=m, supersampled_indexes=hm)
                if mode == "regular":
                    W.same(lab + "factor", num.grid_supersampling_factor, s)
                x, y = num.coordinates_evaluate
                im = num.re_size_convolve(f(x, y))
                W.shape(lab + "image", im, (n, n))
                for j in range(n):
                    for i in range(n):
                        if not sel[j, i]:
                            want = 0
                        elif s == 1 or (mode == "adaptive" and not hm[j, i]):
                            want = f(*spec(T, z, i, j))
                        else:
                            want = sum(f(*sub_spec(T, z, i * s + a, j * s + b, s)) for b in range(s) for a in range(s)) / s ** 2
                        W.eq(lab + "pixel [%d,%d]" % (j, i), im[j, i], want * det)


PI = "ImSim/Numerics/partial_image.py::PartialImage."


@contract("C10", "partial_image", [PI + q for q in ("__init__", "partial_array", "index_array", "array_from_partial", "image_from_partial", "num_partial")], samples=5, bounded=BND)
def _pi(W):
    from lenstronomy.ImSim.Numerics.partial_image import PartialImage

    for n, m in ((2, np.array([[True, False], [True, True]])), (3, masks(3)["three"]), (3, np.ones((3, 3), bool)), (2, np.array([[0, 1], [1, 0]]) > 0)):
        im = W.array("im%d%d" % (n, m.sum()), n * n, None, None, (-3, 3)).reshape(n, n)
        p = PartialImage(m)
        a = p.partial_array(im)
        W.same("number", p.num_partial, int(m.sum()))
        W.shape("selected", a, (int(m.sum()),))
        back = p.image_from_partial(a)
        W.shape("image", back, (n, n))
        idx = p.index_array
        W.eq("1d", p.array_from_partial(a).reshape(n, n), back)
        for j in range(n):
            for i in range(n):
                W.eq("pixel", back[j, i], im[j, i] if m[j, i] else 0)
                if m[j, i]:
                    W.eq("index", a[int(idx[j, i])], im[j, i])
                else:
                    W.same("no index", int(idx[j, i]), -1)


@contract("C10", "rebin_coord_transform", [IU + "rebin_coord_transform"], samples=8, bounded=BND)
def _rb(W):
    """the rebinned frame: big pixel (i, j) sits at the mean position of its pixels"""
    from lenstronomy.Util import image_util
    from lenstronomy.Data.coord_transforms import Coordinates

    T, z = trans(W), zero(W)
    c = Coordinates(T, *z)
    x, y = W.real("x", None, None, (-20, 60)), W.real("y", None, None, (-20, 60))
    for f in (1, 2, 3):
        ra, dec, x0, y0, T2, Ti2 = image_util.rebin_coord_transform(f, c.xy_at_radec_0[0], c.xy_at_radec_0[1], c.transform_pix2angle, c.transform_angle2pix)
        c2 = Coordinates(T2, ra, dec)
        a, b = c2.map_pix2coord(x, y)
        p, q = spec(T, z, x * f + (f - 1) / 2, y * f + (f - 1) / 2)
        W.eq("ra by %d" % f, a, p)
        W.eq("dec by %d" % f, b, q)
        W.eq("x0 by %d" % f, c2.xy_at_radec_0[0], x0)
        W.eq("y0 by %d" % f, c2.xy_at_radec_0[1], y0)
        for i in range(2):
            for j in range(2):
                W.eq("inverse by %d" % f, Ti2[i, j], c2.transform_angle2pix[i, j])


@contract("C10", "rebin_image", [IU + "rebin_image", IU + "re_size"], samples=8, bounded=BND)
def _ri(W):
    from lenstronomy.Util import image_util

    T, z = trans(W), zero(W)
    for n, b in ((4, 2), (5, 2), (3, 1), (6, 3)):
        k = n // b
        im = W.array("im%d" % n, n * n, None, None, (-3, 3)).reshape(n, n)
        wht = W.array("w%d" % n, n * n, 0, None, (0.1, 3)).reshape(n, n)
        sig = W.real("sig", 0, None, (0.1, 2))
        from lenstronomy.Data.coord_transforms import Coordinates

        ra, dec = Coordinates(T, *z).coordinate_grid(n, n)
        msk = np.ones((n, n))
        msk[0, :] = 0
        im0 = im.copy()
        i2, w2, s2, ra2, dec2, m2 = image_util.rebin_image(b, im.copy(), wht, sig, ra, dec, msk)
        W.eq("noise %d/%d" % (n, b), s2, b * sig)
        for j in range(k):
            for i in range(k):
                sl = (slice(j * b, (j + 1) * b), slice(i * b, (i + 1) * b))
                W.eq("flux %d/%d" % (n, b), i2[j, i], im0[sl].sum())
                W.eq("weight %d/%d" % (n, b), w2[j, i], wht[sl].sum() / b ** 2)
                p, q = spec(T, z, i * b + (b - 1) / 2, j * b + (b - 1) / 2)
                W.eq("ra %d/%d" % (n, b), ra2[j, i], p)
                W.eq("dec %d/%d" % (n, b), dec2[j, i], q)
                W.same("mask %d/%d" % (n, b), float(m2[j, i]), float(msk[sl].max()))


@contract("C10", "interpol pixels", ["LightModel/Profiles/interpolation.py::Interpol.coord2image_pixel", UU + "rotate"], samples=30)
def _ip(W):
    """the image of an INTERPOL light component is centred, rotated and scaled as documented: moving by scale along the rotated axis is one pixel"""
    from lenstronomy.LightModel.Profiles.interpolation import Interpol

    cx, cy, phi, s = W.real("cx", None, None, (-2, 2)), W.real("cy", None, None, (-2, 2)), W.real("phi", None, None, (-3, 3)), W.real("s", 0.001, None, (0.02, 2))
    p, q = W.real("p", None, None, (-9, 9)), W.real("q", None, None, (-9, 9))
    ra, dec = cx + s * (p * W.cos(phi) - q * W.sin(phi)), cy + s * (p * W.sin(phi) + q * W.cos(phi))
    x, y = Interpol.coord2image_pixel(ra, dec, cx, cy, phi, s)
    W.eq("x", x, p)
    W.eq("y", y, q)


@contract("C10", "interpol image", ["LightModel/Profiles/interpolation.py::Interpol.function", "LightModel/Profiles/interpolation.py::Interpol.image_interp"], samples=12, sym=False, bounded="sampled images and frames")
def _ii(W):
    """at the pixel centres of the interpolated image the component returns the pixel values (row = y, column = x), zero outside"""
    from lenstronomy.LightModel.Profiles.interpolation import Interpol

    cx, cy, phi, s, amp = W.real("cx", None, None, (-2, 2)), W.real("cy", None, None, (-2, 2)), W.real("phi", None, None, (-3, 3)), W.real("s", 0.001, None, (0.02, 2)), W.real("amp", 0, None, (0.5, 2))
    for ny, nx in ((3, 3), (4, 4), (2, 5)):
        im = W.array("im%d%d" % (ny, nx), nx * ny, None, None, (0, 3)).reshape(ny, nx)
        I = Interpol()
        for j in range(ny):
            for i in range(nx):
                p, q = i - (nx - 1) / 2, j - (ny - 1) / 2
                ra, dec = cx + s * (p * np.cos(phi) - q * np.sin(phi)), cy + s * (p * np.sin(phi) + q * np.cos(phi))
                W.eq("pixel", I.function(np.array([ra]), np.array([dec]), image=im, amp=amp, center_x=cx, center_y=cy, phi_G=phi, scale=s)[0], amp * im[j, i], atol=1e-6)
        far = s * (max(nx, ny) + 3)
        W.eq("outside", I.function(np.array([cx + far]), np.array([cy]), image=im, amp=amp, center_x=cx, center_y=cy, phi_G=phi, scale=s)[0], 0)


PS = "ImSim/Numerics/point_source_rendering.py::PointSourceRendering."


@contract("C10", "point source position", [PS + "point_source_rendering", IU + "add_layer2image", IU + "add_layer2image_int"], samples=15, sym=False, bounded="sampled frames, positions and kernels")
def _ps(W):
    """a rendered point source is the kernel placed at its sky position with bilinear weights, at any sub-sampling, with its amplitude as flux"""
    from lenstronomy.ImSim.Numerics.point_source_rendering import PointSourceRendering
    from lenstronomy.Data.pixel_grid import PixelGrid
    from lenstronomy.Data.psf import PSF

    T, z = trans(W), zero(W)
    n = 15
    pg = PixelGrid(n, n, T, *z)
    px, py = W.real("px", None, None, (5, 9)), W.real("py", None, None, (5, 9))
    amp = W.real("amp", 0, None, (0.5, 3))
    ra, dec = spec(T, z, px, py)
    for s in (1, 3, 5):
        k = np.zeros((5 * s, 5 * s))
        c = 5 * s // 2
        k[c - 1:c + 2, c - 1:c + 2] = [[1, 2, 1], [2, 4, 2], [1, 2, 1]]
        psf = PSF(psf_type="PIXEL", kernel_point_source=k / 16, point_source_supersampling_factor=s)
        r = PointSourceRendering(pg, s, psf)
        for un in (False, True):
            im = r.point_source_rendering(np.array([ra]), np.array([dec]), [amp], unconvolved=un)
            W.shape("image", im, (n, n))
            want = np.zeros((n, n))
            kk = np.array([[1.0]]) if un else k[c - 1:c + 2, c - 1:c + 2] / 16
            h = len(kk) // 2
            for a in range(len(kk)):
                for b in range(len(kk)):
                    u, v = px * s + (s - 1) / 2 + b - h, py * s + (s - 1) / 2 + a - h  # position in sub-pixels
                    for du in (0, 1):
                        for dv in (0, 1):
                            i, j = int(np.floor(u)) + du, int(np.floor(v)) + dv
                            want[j // s, i // s] += amp * kk[a, b] * (1 - abs(u - i)) * (1 - abs(v - j))
            W.eq("flux (factor %d, %s)" % (s, un), im.sum(), amp, rtol=1e-6)
            W.eq("image (factor %d, %s)" % (s, un), im, want, atol=1e-6)


@contract("C10", "add_layer2image_int", [IU + "add_layer2image_int"], samples=5, bounded="frame sizes, kernel sizes and integer positions as listed; all pixel values")
def _al(W):
    from lenstronomy.Util import image_util

    ny, nx = 4, 5
    g = W.array("g", nx * ny, None, None, (-1, 1)).reshape(ny, nx)
    for kr, kc in ((1, 1), (3, 3), (3, 5), (5, 1), (7, 7)):
        k = W.array("k%d%d" % (kr, kc), kr * kc, None, None, (-1, 1)).reshape(kr, kc)
        for x in (-4, -1, 0, 2, 4, 5, 9):
            for y in (-4, -1, 0, 1, 3, 4, 9):
                r = image_util.add_layer2image_int(g, x, y, k)
                W.shape("shape", r, (ny, nx))
                for j in range(ny):
                    for i in range(nx):
                        a, b = j - y + kr // 2, i - x + kc // 2
                        W.eq("kernel %dx%d at (%d, %d)" % (kr, kc, x, y), r[j, i], g[j, i] + (k[a, b] if 0 <= a < kr and 0 <= b < kc else 0))
    for bad in ((2, 3), (3, 2)):
        W.raises("even kernels", lambda: image_util.add_layer2image_int(g, 1, 1, np.zeros(bad)), ValueError)
