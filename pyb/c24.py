"""C24: the Python bindings do what the C library does, for every layout, history and failure explored here."""
import os, gc, ctypes, itertools, shutil, warnings
import numpy as np
from explore import mc, scenario, Violation
warnings.simplefilter("ignore")
from optv.parameters import MultimediaParams, TrackingParams, SequenceParams, VolumeParams, ControlParams, TargetParams
from optv.calibration import Calibration
from optv.transforms import convert_arr_pixel_to_metric, convert_arr_metric_to_pixel, correct_arr_brown_affine, distort_arr_brown_affine, distorted_to_flat
from optv.imgcoord import image_coordinates, flat_image_coordinates
from optv.correspondences import MatchedCoords, correspondences
from optv.orientation import match_detection_to_ref, point_positions, external_calibration, full_calibration, dumbbell_target_func
from optv.epipolar import epipolar_curve
from optv.image_processing import preprocess_image
from optv.segmentation import target_recognition
from optv.tracking_framebuf import Target, TargetArray, Frame, read_targets
from optv.tracker import Tracker

L = ctypes.CDLL(os.environ["VERIF_SHIM"]); L.sh_dumbbell.restype = ctypes.c_double
D = ctypes.c_double; P = ctypes.c_void_p
class A(ctypes.c_void_p):
    """a contiguous copy passed to the shim, kept alive during the call"""
    def __init__(self, v, t=float): self.a = np.array(v, dtype=t, order="C").copy() if np.size(v) else np.zeros(1, t); ctypes.c_void_p.__init__(self, self.a.ctypes.data)

# ------------------------------------------------------------------ descriptions of the objects, as flat numbers
CAL = [[105.2632, 102.7458, 403.8822, -0.2383291, 0.2442810, 0.0552577, -2.4742, 3.2567, 100.0, 0.0001, 0.00001, 150.0, 0, 0, 0, 0, 0, 1, 0],
       [-105.2632, 102.7458, 403.8822, -0.2383291, -0.2442810, 0.0552577, 0.4742, -1.2567, 95.0, 0.0001, 0.00001, 150.0, 1e-4, -1e-7, 1e-10, 2e-5, -3e-5, 1.02, 0.01],
       [105.2632, -102.7458, 403.8822, 0.2383291, 0.2442810, -0.0552577, 0.1, 0.2, 98.0, 1.0, 2.0, 150.0, 1e-4, 0, 0, 0, 0, 1, -0.01],
       [-105.2632, -102.7458, 403.8822, 0.2383291, -0.2442810, -0.0552577, 0, 0, 102.0, 0.0001, 0.00001, 150.0, 0, 0, 0, 1e-4, 0, 1, 0]]
WATER = [1, 1.0, 1.49, 0, 0, 5.0, 0, 0, 1.33]; AIR = [1, 1.0, 1.0, 0, 0, 1.0, 0, 0, 1.0]; LAYERS = [2, 1.0, 1.49, 1.6, 0, 5.0, 3.0, 0, 1.33]
def CP(cams=4, imx=1280, imy=1024, px=0.017, py=0.018, ch=0, mm=WATER, allcam=0, hp=0, tiff=0): return [cams, imx, imy, px, py, ch, allcam, hp, tiff] + mm
VP = [-40, 40, -30, -25, 30, 25, 0.1, 0.2, 0.3, 0.01, 0.5, 33]
def pycal(d): return Calibration(pos=np.r_[d[0:3]], angs=np.r_[d[3:6]], prim_point=np.r_[d[6:9]], rad_dist=np.r_[d[12:15]], decent=np.r_[d[15:17]], affine=np.r_[d[17:19]], glass=np.r_[d[9:12]])
def calnum(c): return list(c.get_pos()) + list(c.get_angles()) + list(c.get_primary_point()) + list(c.get_glass_vec()) + list(c.get_radial_distortion()) + list(c.get_decentering()) + list(c.get_affine())
def pymm(m): x = MultimediaParams(n1=m[1], n2=m[2:2 + m[0]], d=m[5:5 + m[0]], n3=m[8]); return x
def pycpar(p):
    f = [n for n, i in (("hp", 7), ("allcam", 6), ("headers", 8)) if p[i]]; m = p[9:]
    c = ControlParams(p[0], flags=f, image_size=(p[1], p[2]), pixel_size=(p[3], p[4]), cam_side_n=m[1], wall_ns=m[2:2 + m[0]], wall_thicks=m[5:5 + m[0]], object_side_n=m[8]); c.set_chfield(p[5]); return c
def pyvpar(v): return VolumeParams(x_span=(v[0], v[1]), z_spans=[(v[2], v[4]), (v[3], v[5])], pixels_tot=v[6], pixels_x=v[7], pixels_y=v[8], ref_gray=v[9], epipolar_band=v[10], min_correlation=v[11])
def pytargs(rows):
    t = TargetArray(len(rows))
    for i, r in enumerate(rows): x = t[i]; x.set_pnr(int(r[0])); x.set_pos((r[1], r[2])); x.set_pixel_counts(int(r[3]), int(r[4]), int(r[5])); x.set_sum_grey_value(int(r[6])); x.set_tnr(int(r[7]))
    return t
def targnum(t): return [[x.pnr()] + list(x.pos()) + list(x.count_pixels()) + [x.sum_grey_value(), x.tnr()] for x in (t[i] for i in range(len(t)))]
def same(a, b): a, b = np.asarray(a), np.asarray(b); return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
def fails(f, *a, **k):
    """the exception that a call raises, or None"""
    try: f(*a, **k)
    except Exception as e: return e
    return None
def throws(what, f, *a, **k): mc.check(fails(f, *a, **k) is not None, "no-error", "%s: was accepted without an exception", what)
def conv(kind, cal, cp, tol, pts):
    pts = np.asarray(pts, float); out = np.zeros((max(len(pts), 1), 2)); L.sh_conv(kind, A(cal), A(cp), D(tol), A(pts), P(out.ctypes.data), len(pts)); return out[:len(pts)]

# ------------------------------------------------------------------ memory layouts
LAYOUTS = ["C", "fortran", "row stride", "row reversed", "column slice", "column stride", "moved axes", "offset"]
def lay(a, how, guard=7.0):
    """the same values in memory laid out differently; returns (array, whole block, mask of its own elements)"""
    a = np.asarray(a); n = a.ndim
    if how == "C": b = a.copy(order="C"); v = b
    elif how == "fortran": b = a.copy(order="F"); v = b
    elif how == "row stride": b = np.full((2 * a.shape[0] + 1,) + a.shape[1:], guard, a.dtype); v = b[1::2]; v[...] = a
    elif how == "row reversed": b = np.full((a.shape[0] + 2,) + a.shape[1:], guard, a.dtype); v = b[1:-1][::-1]; v[...] = a
    elif how == "column slice": b = np.full(a.shape[:-1] + (a.shape[-1] + 3,), guard, a.dtype); v = b[..., 2:2 + a.shape[-1]]; v[...] = a
    elif how == "column stride": b = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), guard, a.dtype); v = b[..., 1::2]; v[...] = a
    elif how == "moved axes": b = np.ascontiguousarray(np.moveaxis(a, 0, -1)); v = np.moveaxis(b, -1, 0)
    elif how == "offset": b = np.full((a.shape[0] + 3,) + a.shape[1:], guard, a.dtype); v = b[2:-1]; v[...] = a
    assert same(v, a); return v, b
def unharmed(v, b, want, guard=7.0):
    """the block still holds the wanted values and its guards"""
    w = b.copy(); x = np.full(b.shape, guard, b.dtype)
    return same(v, want) and int(np.sum(b != guard)) <= int(np.sum(np.asarray(want) != guard)) + 0

PTS2 = np.array([[610.0, 500.5], [0.0, 1023.0], [1279.0, 3.25]]); MET2 = np.array([[3.5, -2.25], [0.0, 0.0], [-9.75, 8.5]]); PTS3 = np.array([[10.0, -5.0, 2.0], [0.0, 0.0, 0.0], [-20.0, 15.0, -8.0]])
CALLS = [lambda i, c, p, o, t: convert_arr_pixel_to_metric(i, p, o), lambda i, c, p, o, t: convert_arr_metric_to_pixel(i, p, out=o), lambda i, c, p, o, t: correct_arr_brown_affine(i, c, o),
         lambda i, c, p, o, t: distort_arr_brown_affine(i, c, out=o), lambda i, c, p, o, t: distorted_to_flat(i, c, o, t) if t is not None else distorted_to_flat(i, c, o),
         lambda i, c, p, o, t: flat_image_coordinates(i, c, p.get_multimedia_params(), o), lambda i, c, p, o, t: image_coordinates(i, c, p.get_multimedia_params(), output=o)]
@scenario
def conversions():
    """pixel, metric, distorted and flat coordinates and projections, over layouts of the input and the output"""
    kind = mc.choose(7); cal = mc.pick(CAL[:3] if mc.thorough else CAL[:2]); cp = mc.pick([CP(), CP(imx=33, imy=20, ch=1, mm=LAYERS), CP(ch=2, mm=AIR)]); n = mc.pick([0, 1, 3]); hi = mc.pick(LAYOUTS); ho = mc.pick([None] + LAYOUTS + (["same"] if kind < 5 else []))
    tol = mc.pick([None, 1e-9, 5.0]) if kind == 4 else None
    mc.own("kind %d, %d points, input %s, output %s" % (kind, n, hi, ho)); src = (PTS2 if kind == 0 else PTS3 if kind >= 5 else MET2)[:n]
    want = conv(kind, cal, cp, 1e-5 if tol is None else tol, src); i, ib = lay(src, hi); snap = ib.copy(); c, p = pycal(cal), pycpar(cp)
    if ho is None: o = None
    elif ho == "same": o = i
    else: o, ob = lay(np.full((n, 2), 5.0), ho)
    r = CALLS[kind](i, c, p, o, tol); mc.step(n + 1)
    mc.check(same(r, want), "values", "got %s in place of %s", np.asarray(r).tolist(), want.tolist())
    if o is not None: mc.check(same(o, want), "output-array", "the output array holds %s, and %s was due", o.tolist(), want.tolist())
    if ho is None: mc.check(not np.shares_memory(r, i), "shared", "the result shares memory with the input")
    if ho != "same": mc.check(same(ib, snap), "input-changed", "the input or its surroundings changed")
    else: x = snap.copy(); mc.check(int(np.sum(ib != x)) <= i.size, "surroundings", "memory around the array changed")
    if ho not in (None, "same"): mc.check(int(np.sum(ob == 7.0)) >= ob.size - o.size, "surroundings", "memory around the output array changed")
    mc.check(calnum(c) == cal, "object-changed", "the calibration changed"); mc.state(kind, n, hi, ho)

@scenario
def conversion_shapes():
    """arrays that do not fit raise, and leave the output as it was"""
    kind = mc.choose(7); ci = mc.pick([1, 2, 3, 4]); ro, co = mc.pick([0, 1, 2, 3]), mc.pick([1, 2, 3]); give = mc.choose(2); mc.own("kind %d, input (2,%d), output (%d,%d)" % (kind, ci, ro, co))
    need = 3 if kind >= 5 else 2; i = np.ones((2, ci)); o = np.full((ro, co), 5.0); ok = ci == need and (not give or (ro, co) == (2, 2))
    e = fails(CALLS[kind], i, pycal(CAL[0]), pycpar(CP()), o if give else None, None)
    mc.check((e is None) == ok, "shape", "input (2,%d), output %s: %s", ci, (ro, co) if give else None, "was accepted" if e is None else "raised %r" % e)
    if not ok: mc.check(bool(np.all(o == 5.0)), "output-array", "a refused call wrote to the output array")
    mc.state(kind, ci, ro, co, give)

# ------------------------------------------------------------------ correspondences
def pixels(cal, cp, p3): return conv(1, cal, cp, 0, conv(6, cal, cp, 0, p3))
WORLD = np.array([[10.0, 5.0, -8.0], [-12.0, 9.0, 4.0], [3.0, -14.0, 10.0], [20.0, -3.0, 1.0]])
@scenario
def matched():
    """flat coordinates kept with their target numbers"""
    n = mc.pick([0, 1, 2, 4]); cal = mc.pick(CAL[:2]); reset = mc.choose(2); tol = mc.pick([None, 1e-9]); perm = mc.pick([[0, 1, 2, 3], [3, 1, 0, 2]]); numbers = mc.pick([[0, 1, 2, 3], [9, 4, 7, 2], [-1, 5, -1, 6]]); mc.own("%d targets, numbers %s, reset %d" % (n, numbers[:n], reset))
    cp = CP(); px = pixels(cal, cp, WORLD)[perm]; rows = [[numbers[i], px[i][0], px[i][1], 5, 2, 3, 40, -1] for i in range(n)]; out = np.zeros((n + 1, 3))
    L.sh_matched(A(rows), n, A(cal), A(cp), D(1e-5 if tol is None else tol), reset, P(out.ctypes.data)); t = pytargs(rows); k = dict(reset_numbers=bool(reset)) if not reset or tol else {}
    if tol: k["tol"] = tol
    m = MatchedCoords(t, pycpar(cp), pycal(cal), **k); pos, pnr = m.as_arrays(); out = out[:n]; mc.step(n)
    mc.check(same(pos, out[:, :2]) and list(pnr) == [int(x) for x in out[:, 2]], "values", "got %s %s in place of %s", pos.tolist(), list(pnr), out.tolist())
    mc.check([x[0] for x in targnum(t)] == (list(range(n)) if reset else numbers[:n]), "numbers", "target numbers %s", [x[0] for x in targnum(t)])
    if len(set(pnr)) == len(pnr):
        for q in itertools.permutations(list(pnr) + [77], min(2, n + 1)):
            g = m.get_by_pnrs(np.array(q, dtype=np.int_)); w = [list(out[list(pnr).index(x), :2]) if x in pnr else [-1e10, -1e10] for x in q]
            mc.check(same(g, np.reshape(w, (len(q), 2))), "by-number", "points %s: got %s in place of %s", q, g.tolist(), w)
    del t; gc.collect(); mc.check(same(m.as_arrays()[0], out[:, :2]), "lifetime", "the coordinates changed with the targets gone"); mc.state(n, reset, numbers[0])

@scenario
def matched_many():
    """as many targets as a busy image holds, in every kind of order"""
    n = mc.pick([63, 64, 70, 300, 3000 if mc.thorough else 1100]); order = mc.choose(4); cal = mc.pick(CAL[:2]); mc.own("%d targets, order %d" % (n, order)); cp = CP(); i = np.arange(n)
    if order == 1: i = i[::-1]
    if order == 2: i = (i * 37 + 5) % n if n % 37 else i ^ 1
    if order == 3: i = np.r_[i[1::2], i[::2]]
    rows = [[k, 3.25 + 1270.0 * i[k] / n, (997.0 * k) % 1020, 5, 2, 3, 40, -1] for k in range(n)]; out = np.zeros((n, 3)); L.sh_matched(A(rows), n, A(cal), A(cp), D(1e-5), 0, P(out.ctypes.data)); m = MatchedCoords(pytargs(rows), pycpar(cp), pycal(cal)); pos, pnr = m.as_arrays(); mc.step(n)
    mc.check(same(pos, out[:, :2]) and list(pnr) == [int(x) for x in out[:, 2]], "values", "the coordinates of %d targets differ from the C ones", n); mc.check(bool(np.all(np.diff(pos[:, 0]) >= 0)), "sorted", "%d targets are not sorted by x", n); q = pnr[[n - 1, 0, n // 2]]; mc.check(same(m.get_by_pnrs(np.array(q, dtype=np.int_)), pos[[n - 1, 0, n // 2]]), "by-number", "points by number differ"); mc.state(n, order)
@scenario
def cliques():
    """correspondences of one to four cameras against the C call"""
    nc = mc.pick([1, 2, 3, 4]); n = mc.pick([0, 1, 2, 3]); drop = [mc.choose(3 if mc.thorough else 2) if n else 0 for _ in range(nc)]; allcam = mc.choose(2) if nc > 1 else 0; rev = mc.choose(2); mc.own("%d cameras, %d points, missing %s, all cameras %d" % (nc, n, drop, allcam))
    cp = CP(nc, allcam=allcam); cals = CAL[:nc]; rows = []
    for k in range(nc):
        px = pixels(cals[k], cp, WORLD[:n]); keep = [i for i in range(n) if i != drop[k] - 1]; keep = keep[::-1] if (rev + k) % 2 else keep; rows.append([[j, px[i][0], px[i][1], 25, 5, 5, 500 + i, -1] for j, i in enumerate(keep)])
    t = [pytargs(r) for r in rows]; pc = [pycal(c) for c in cals]; c, v = pycpar(cp), pyvpar(VP); m = [MatchedCoords(t[k], c, pc[k]) for k in range(nc)]
    pos, ids, tot = correspondences(t, m, pc, v, c); mc.step(n * nc); counts = np.zeros(4, np.int32); nt = np.array([len(r) for r in rows] + [0], np.int32)
    if nc == 1:
        out = np.zeros((len(rows[0]) + 1, 3)); L.sh_matched(A(rows[0]), len(rows[0]), A(cals[0]), A(cp), D(1e-5), 1, P(out.ctypes.data)); nums = [int(x) for x in out[:len(rows[0]), 2]]
        mc.check(tot == len(nums) and len(pos) == len(ids) == 1 and ids[0].shape == (1, len(nums)) and ids[0][0].tolist() == nums, "single", "targets %s in place of %s", [x.tolist() for x in ids], nums)
        mc.check(same(pos[0][0], np.reshape([rows[0][i][1:3] for i in nums], (-1, 2))), "single-positions", "positions %s", pos[0].tolist())
        mc.check([x[7] for x in targnum(t[0])] == [nums.index(i) for i in range(len(nums))], "marks", "target marks %s", [x[7] for x in targnum(t[0])])
    else:
        flat = [x for r in rows for x in r]; out = np.zeros((101, 4), np.int32); tnr = np.zeros(len(flat) + 1, np.int32)
        r = L.sh_corresp(A(flat), P(nt.ctypes.data), A([x for q in cals for x in q]), A(cp), A(VP), D(1e-5), P(out.ctypes.data), 100, P(counts.ctypes.data), P(tnr.ctypes.data)); at = 0
        mc.check(tot == r, "total", "the total is %d in place of %d", tot, r); mc.check(len(pos) == len(ids) == nc - 1, "sizes", "%d clique sizes", len(ids))
        for q in range(nc - 1):
            num = int(counts[4 - nc + q]); w = out[at:at + num, :nc].T; at += num
            mc.check(ids[q].shape == (nc, num) and np.array_equal(ids[q], w), "cliques", "cliques of %d: %s in place of %s", nc - q, ids[q].tolist(), w.tolist())
            wp = np.array([[(rows[k][int(w[k][i])][1:3] if w[k][i] >= 0 else [-999, -999]) for i in range(num)] for k in range(nc)], float).reshape(nc, num, 2)
            mc.check(same(pos[q], wp), "clique-positions", "positions %s in place of %s", pos[q].tolist(), wp.tolist())
        mc.check([x[7] for tt in t for x in targnum(tt)] == [int(x) for x in tnr[:len(flat)]], "marks", "target marks differ")
        mc.state(nc, n, tuple(drop), tuple(counts))
    mc.check([[x[:7] for x in targnum(t[k])] for k in range(nc)] == [[x[:7] for x in r] for r in rows], "targets", "targets changed")

# ------------------------------------------------------------------ positions, orientation
LAY3 = LAYOUTS + ["camera stride"]
def lay3(a, how):
    if how == "camera stride": b = np.full((a.shape[0], 2 * a.shape[1] + 1, 2), 7.0); v = b[:, 1::2]; v[...] = a; return v, b
    return lay(a, how)
@scenario
def positions():
    """3D positions of points from one to four cameras"""
    nc = mc.pick([1, 2, 3, 4]); n = mc.pick([0, 1, 3]); how = mc.pick(LAY3); cp = mc.pick([CP(), CP(mm=LAYERS)]); gone = mc.choose(nc + 1) if n and nc > 2 else 0; mc.own("%d cameras, %d points, %s, %d unseen" % (nc, n, how, gone))
    t = np.array([conv(4, CAL[k], cp, 1e-5, conv(6, CAL[k], cp, 0, WORLD[:n])) for k in range(nc)]).reshape(nc, n, 2).transpose(1, 0, 2).copy()
    if gone: t[0, gone - 1] = -1e10
    res, rcm = np.zeros((n + 1, 3)), np.zeros(n + 1); a, b = lay3(t, how); snap = b.copy()
    if nc > 1: L.sh_point(A(t), n, nc, A([x for q in CAL[:nc] for x in q]), A(cp), P(res.ctypes.data), P(rcm.ctypes.data))
    else: L.sh_epi(A(t), n, A(CAL[0]), A(cp), A(VP), P(res.ctypes.data))
    r, m = point_positions(a, pycpar(cp), [pycal(c) for c in CAL[:nc]], pyvpar(VP)); mc.step(n)
    mc.check(same(r, res[:n]) and same(m, rcm[:n]), "values", "got %s %s in place of %s %s", r.tolist(), m.tolist(), res[:n].tolist(), rcm[:n].tolist()); mc.check(same(b, snap), "input-changed", "the targets changed"); mc.state(nc, n, how, gone)
@scenario
def position_shapes():
    nc = mc.pick([0, 1, 2, 3]); kc = mc.pick([0, 1, 2, 3]); co = mc.pick([1, 2, 3]); f = mc.choose(2); mc.own("%d cameras in the targets, %d calibrations, %d columns" % (nc, kc, co)); t = np.ones((2, nc, co)); c = [pycal(x) for x in CAL[:kc]]
    if f: ok = nc == kc and co == 2 and kc > 1; e = fails(dumbbell_target_func, t, pycpar(CP()), c, 35.0, 0.0) if kc != 1 or not ok else None; ok = ok or e is None and nc == kc and co == 2
    else: ok = nc == kc and co == 2 and kc > 0; e = fails(point_positions, t, pycpar(CP()), c, pyvpar(VP))
    mc.check((e is None) == ok, "shape", "targets (2,%d,%d) with %d calibrations: %s", nc, co, kc, "accepted" if e is None else repr(e)); mc.state(nc, kc, co)
@scenario
def dumbbells():
    """the dumbbell measure; targets in memory order other than C are a recorded finding"""
    nc = mc.pick([2, 3, 4]); n = mc.pick([2, 4, 3, 1]); how = mc.pick(["C", "row stride", "row reversed", "offset", "column slice", "column stride", "moved axes", "camera stride"]); ln = mc.pick([35.0, 20.0]); w = mc.pick([0.0, 0.5]); mc.own("%d cameras, %d targets, %s" % (nc, n, how))
    t = np.array([conv(4, CAL[k], CP(), 1e-5, conv(6, CAL[k], CP(), 0, WORLD[:n])) for k in range(nc)]).transpose(1, 0, 2).copy() + 0.01 * np.arange(n * nc * 2).reshape(n, nc, 2) ** 1.3
    want = L.sh_dumbbell(A(t), n, nc, A([x for q in CAL[:nc] for x in q]), A(CP()), int(ln), D(w)); a, b = lay3(t, how); r = dumbbell_target_func(a, pycpar(CP()), [pycal(c) for c in CAL[:nc]], ln, w); mc.step(n)
    inner = a.strides[1:] == (16, 8)
    mc.check(same(r, want), "values" if inner else "dumbbell-layout", "a target array with strides %s gives %r in place of %r", a.strides, r, want); mc.state(nc, n, how)

GRID = np.array([[x, y, z] for x, y, z in [(-20, -15, 0), (20, -15, 2), (20, 15, -3), (-20, 15, 5), (0, 0, 8), (-10, 6, -6), (12, -4, 4), (4, 11, 9), (-5, -9, -8)]], float)
@scenario
def rough():
    """external_calibration against the C call"""
    n = mc.pick([4, 5, 6, 9]); k = mc.choose(2); hr = mc.pick(LAYOUTS); hi = mc.pick(LAYOUTS); off = mc.pick([0.0, 3.0]); bad = mc.choose(4); mc.own("%d points, %s, %s, start off by %g, variant %d" % (n, hr, hi, off, bad)); cp = CP(); ref = GRID[:n]; img = pixels(CAL[k], cp, ref)
    if bad == 1: img = img[::-1].copy()           # nothing fits: does not converge, or converges to nonsense
    if bad == 3:
        c = pycal(CAL[k]); b = calnum(c); e = fails(external_calibration, c, lay(ref, hr)[0], lay(img[:-1], hi)[0], pycpar(cp)); mc.check(isinstance(e, ValueError), "no-error", "%d image points for %d references: %r", n - 1, n, e); mc.check(calnum(c) == b, "kept", "a refused call changed the calibration"); return
    extra = 2 if bad == 2 else 0; img = np.vstack([img, np.full((extra, 2), 3.0)]); start = list(CAL[k]); start[0] += off; start[2] -= 2 * off; start[3] += 0.01 * off
    w = A(start + [0] * 9); ok = L.sh_raw(w, A(cp), n, A(ref), A(img)); c = pycal(start); a, ab = lay(ref, hr); b, bb = lay(img, hi); sa, sb = ab.copy(), bb.copy(); r = external_calibration(c, a, b, pycpar(cp)); mc.step(n)
    mc.check(r is bool(ok), "success", "returned %r in place of %r", r, bool(ok)); mc.check(same(calnum(c), w.a[:19]), "values", "got %s in place of %s", calnum(c), w.a[:19].tolist()); mc.check(same(c.get_rotation_matrix().ravel(), w.a[19:]), "rotation", "the rotation matrix is not the one that C leaves")
    mc.check(same(ab, sa) and same(bb, sb), "input-changed", "the points changed"); mc.state(n, k, off, bad, ok)
FLAGS = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scale", "shear"]
@scenario
def fine():
    """full_calibration against the C call: values, used points, residuals, error estimates"""
    fl = mc.pick([[], ["k1"], ["p2", "cc"], ["xh", "yh"], ["scale", "shear"], ["cc", "k1", "k2", "k3", "p1", "p2", "shear"]] + [[f] for f in FLAGS if f != "k1"]); how = mc.pick(LAYOUTS); off = mc.pick([0.0, 0.5, 80.0]); use = mc.choose(5); mc.own("flags %s, %s, off by %g, unmatched variant %d" % (fl, how, off, use))
    cp = CP(); n = 9; px = pixels(CAL[1], cp, GRID) + 0.01 * (np.arange(18).reshape(9, 2) % 5 - 2); rows = [[i, px[i][0], px[i][1], 5, 2, 2, 30, -1] for i in range(n)]
    if use == 1: rows[0][0] = -999
    if use == 2: rows[4][0] = -999; rows[7][0] = 3
    if use == 3:
        for i in range(7): rows[i][0] = -999
    if use == 4:
        c = pycal(CAL[1]); b = calnum(c); e = fails(full_calibration, c, lay(GRID, how)[0], pytargs(rows[:-1]), pycpar(cp), fl); mc.check(isinstance(e, ValueError), "no-error", "%d targets for %d references: %r", n - 1, n, e); mc.check(calnum(c) == b, "kept", "a refused call changed the calibration"); return
    start = list(CAL[1]); start[0] += off; start[8] *= 1 + off / 1000; w = A(start + [0] * 9); sig = np.zeros(40); rs = np.zeros((n, 2)); ok = L.sh_orient(w, A(cp), n, A(GRID), A(rows), A([int(f in fl) for f in FLAGS], np.int32), P(sig.ctypes.data), P(rs.ctypes.data))
    c = pycal(start); t = pytargs(rows); a, ab = lay(GRID, how); sa = ab.copy(); mc.step(n)
    try: r, used, err = full_calibration(c, a, t, pycpar(cp), fl)
    except ValueError: mc.check(not ok, "raised", "raised although the orientation succeeds"); mc.check(calnum(c) == start, "kept", "a failed calibration changed the object"); mc.state(use, 0); return
    idx = [i for i in range(n) if rows[i][0] == i]
    mc.check(ok, "not-raised", "did not raise although the orientation fails"); mc.check(same(calnum(c), w.a[:19]), "values", "got %s in place of %s", calnum(c), w.a[:19].tolist()); mc.check(same(c.get_rotation_matrix().ravel(), w.a[19:]), "rotation", "the rotation matrix is not the one that C leaves")
    mc.check(list(used) == idx, "used", "points used %s in place of %s", list(used), idx); mc.check(same(r, rs[:len(idx)]), "residuals", "residuals %s in place of %s", r.tolist(), rs[:len(idx)].tolist()); mc.check(len(err) >= 19 and same(err[:19], sig[:19]), "errors", "error estimates %s in place of %s", err.tolist(), sig[:19].tolist())
    mc.check(same(ab, sa) and targnum(t) == rows, "input-changed", "the points changed"); mc.state(use, len(fl), off)
@scenario
def references():
    """match_detection_to_ref against the C call"""
    nr = mc.pick([0, 1, 3, 5]); nt = mc.pick([0, 1, 3, 6]); eps = mc.pick([None, 5, 300]); how = mc.pick(LAYOUTS); sh = mc.pick([0.0, 4.0]); mc.own("%d references, %d targets, %s, within %s" % (nr, nt, how, eps)); cp = CP(); px = pixels(CAL[0], cp, GRID)[[2, 0, 4, 1, 3, 5]] + sh
    rows = [[i, px[i][0], px[i][1], 5, 2, 3, 30 + i, -1] for i in range(nt)]; out = np.zeros((nr + 1, 8)); L.sh_sortgrid(A(CAL[0]), A(cp), nr, A(GRID[:nr]), nt, 25 if eps is None else eps, A(rows), P(out.ctypes.data)); t = pytargs(rows); a, b = lay(GRID[:nr], how)
    r = match_detection_to_ref(pycal(CAL[0]), a, t, pycpar(cp), **({} if eps is None else dict(eps=eps))); mc.step(nr)
    w = out[:nr].tolist(); g = [[float(x) for x in y] for y in targnum(r)]
    mc.check([x[0] for x in g] == [x[0] for x in w], "numbers", "numbers %s in place of %s", [x[0] for x in g], [x[0] for x in w]); mc.check(all(x == y for x, y in zip(g, w) if y[0] != -999), "values", "got %s in place of %s", g, w); mc.check(targnum(t) == rows, "input-changed", "targets changed"); del t; gc.collect(); mc.check([x[0] for x in targnum(r)] == [x[0] for x in w], "lifetime", "the result changed with the targets gone"); mc.state(nr, nt, eps, sh)
@scenario
def curves():
    n = mc.pick([2, 3, 5]); i = mc.choose(3); j = mc.choose(3); how = mc.pick(["C", "row stride", "row reversed"]); cp = mc.pick([CP(), CP(mm=LAYERS)]); q = mc.choose(3); mc.own("%d points, camera %d to %d" % (n, i, j)); pt = PTS2[q]; a, _ = lay(pt, how); v = pyvpar(VP)
    want = np.zeros((n, 2)); L.sh_curve(D(pt[0]), D(pt[1]), A(CAL[i]), A(CAL[j]), A(cp), A(np.linspace(VP[2], VP[4], n)), n, P(want.ctypes.data)); r = epipolar_curve(a, pycal(CAL[i]), pycal(CAL[j]), n, pycpar(cp), v); mc.step(n)
    mc.check(same(r, want), "values", "got %s in place of %s", r.tolist(), want.tolist()); mc.state(n, i, j)

# ------------------------------------------------------------------ images
def image(seed, h, w):
    a = np.zeros((h, w), np.uint8)
    if seed == 0: a[:] = (np.arange(h * w) * 37 % 251).reshape(h, w)
    elif seed == 1: a[2:5, 3:6] = 200; a[h - 3:h - 1, 1:3] = 90; a[1, w - 2] = 255
    elif seed == 2: a[::2, ::2] = 250
    elif seed == 3: a[:] = 255
    return a
@scenario
def preprocess():
    """preprocess_image over layouts of the input and the output"""
    h, w = mc.pick([(8, 8), (9, 12), (12, 7)]); sd = mc.choose(3); lp = mc.pick([0, 1, 2]); hp = mc.pick([0, 1, 2]); ff = mc.choose(2) if hp == 2 else 0; hi = mc.pick(LAYOUTS); ho = mc.pick([None, "C", "fortran", "column slice", "row reversed", "same"]); mc.own("%dx%d, lowpass %d, highpass %d, input %s, output %s" % (h, w, lp, hp, hi, ho)); img = image(sd, h, w); cp = CP(imx=w, imy=h)
    fn = os.path.join(mc.scratch, "filter"); open(fn, "w").write("0 1 0\n1 4 1\n0 1 2\n"); want = np.zeros((h, w), np.uint8); ok = L.sh_prepare(P(img.ctypes.data), P(want.ctypes.data), lp, hp, fn.encode() if hp == 2 else b"", A(cp)); a, ab = lay(img, hi, 7); sa = ab.copy(); o = None
    if ho == "same": o = a
    elif ho: o, ob = lay(np.full((h, w), 5, np.uint8), ho, 7)
    assert ok == 1; r = preprocess_image(a, hp, pycpar(cp), lowpass_dim=lp, filter_file=(fn if ff else fn.encode()) if hp == 2 else None, output_img=o); mc.step(h)
    mc.check(same(r, want), "values", "got %s in place of %s", r.tolist(), want.tolist())
    if o is not None: mc.check(same(o, want), "output-array", "the output array holds %s in place of %s", o.tolist(), want.tolist())
    if ho != "same": mc.check(same(ab, sa), "input-changed", "the input changed")
    mc.state(h, w, sd, lp, hp)
@scenario
def preprocess_refused():
    k = mc.choose(6); mc.own("variant %d" % k); cp = pycpar(CP(imx=8, imy=9)); img = image(0, 9, 8); o = np.full((9, 8), 5, np.uint8); f = os.path.join(mc.scratch, "nofilter")
    if k == 5: open(f, "w").write("1 2 3\n4 5\n")
    if k == 0: throws("an image of another size", preprocess_image, image(0, 9, 9), 0, cp)
    elif k == 1: throws("transposed image", preprocess_image, image(0, 8, 9), 0, cp)
    elif k == 2: throws("output of another size", preprocess_image, img, 0, cp, output_img=np.zeros((9, 9), np.uint8))
    elif k == 3: throws("no filter file", preprocess_image, img, 2, cp)
    else: throws("missing or cut filter file", preprocess_image, img, 2, cp, 1, f.encode(), o); mc.check(bool(np.all(o == 5)), "output-array", "a failed call wrote to the output")
@scenario
def recognition():
    """target_recognition over layouts, images, search ranges, cameras"""
    h, w = mc.pick([(10, 12), (12, 9), (40, 48)]); sd = mc.choose(5); how = mc.pick(LAYOUTS); cam = mc.choose(4); sx = mc.pick([None, (0, w), (2, w - 2)]); sy = mc.pick([None, (3, h), (0, h - 3)]); nmin = mc.pick([1, 4]); mc.own("%dx%d, image %d, %s, camera %d, range %s %s" % (h, w, sd, how, cam, sx, sy)); img = image(sd, h, w); cp = CP(imx=w, imy=h)
    tp = [100, 60, 100, 240, 20, nmin, 500, 1, 50, 1, 50, 1, 2]; xr = sx or (0, w); yr = sy or (0, h); out = np.zeros((h * w + 1, 8)); n = L.sh_targ_rec(P(img.ctypes.data), A(tp, np.int32), xr[0], xr[1], yr[0], yr[1], A(cp), cam, P(out.ctypes.data))
    t = TargetParams(discont=tp[0], gvthresh=tp[1:5], pixel_count_bounds=(tp[5], tp[6]), xsize_bounds=(tp[7], tp[8]), ysize_bounds=(tp[9], tp[10]), min_sum_grey=tp[11], cross_size=tp[12]); a, ab = lay(img, how, 7); sa = ab.copy(); r = target_recognition(a, t, cam, pycpar(cp), sx, sy); mc.step(n + 1)
    mc.check(targnum(r) == out[:n].tolist(), "values", "%d targets %s in place of %d %s", len(r), targnum(r)[:4], n, out[:min(n, 4)].tolist()); mc.check(same(ab, sa), "input-changed", "the image changed"); del t, a; gc.collect(); mc.check(targnum(r) == out[:n].tolist(), "lifetime", "targets changed"); mc.state(h, w, sd, n)
@scenario
def recognition_refused():
    k = mc.choose(7); mc.own("variant %d" % k); c = pycpar(CP(imx=8, imy=9)); t = TargetParams(discont=10, gvthresh=[5] * 4); i = image(1, 9, 8)
    a = [(image(1, 8, 9), t, 0, c), (image(1, 9, 9), t, 0, c), (i, t, 4, c), (i, t, -1, c), (i, t, 0, c, (0, 9), None), (i, t, 0, c, None, (-1, 9)), (i, t, 0, c, (-1, 8), (0, 10))][k]; throws("a search that does not fit", target_recognition, *a)

# ------------------------------------------------------------------ parameter objects: histories of sets and gets
def lst(x): return [float(v) for v in np.asarray(x).ravel()]
def F(n, *v): return (n, lambda o, x, n=n: getattr(o, "set_" + n)(x), lambda o, n=n: getattr(o, "get_" + n)(), v)
def FL(n, *v): return (n, lambda o, x, n=n: getattr(o, "set_" + n)(x), lambda o, n=n: lst(getattr(o, "get_" + n)()), v)
def FN(n, cam, *v): return ("%s %d" % (n, cam), lambda o, x, n=n: getattr(o, "set_" + n)(cam, x), lambda o, n=n: getattr(o, "get_" + n)(cam).decode("UTF-8"), v)
def FT(n, *v): return (n, lambda o, x, n=n: getattr(o, "set_" + n)(x), lambda o, n=n: tuple(getattr(o, "get_" + n)()), v)
LONG = "n" * 239; UNI = u"\u05e9" * 119 + "x"
CLASSES = {
 "TrackingParams": (lambda: TrackingParams(), [F(n, 1.5, -2.25, 0.0) for n in "dacc dangle dvxmax dvxmin dvymax dvymin dvzmax dvzmin".split()] + [F(n, 3, 1) for n in "dsumg dn dnx dny add".split()]),
 "VolumeParams": (lambda: VolumeParams(), [FL(n, [1.5, -2.5], [0.0, 9.0]) for n in ("X_lay", "Zmin_lay", "Zmax_lay")] + [F(n, 1.5, 0.0) for n in "cn cnx cny csumg eps0 corrmin".split()]),
 "SequenceParams": (lambda: SequenceParams(num_cams=3), [F("first", 5, -1), F("last", 9, 100000)] + [FN("img_base_name", c, "dir/cam.", LONG, "", UNI) for c in range(3)]),
 "ControlParams": (lambda: ControlParams(2), [F(n, True, False) for n in ("hp_flag", "allCam_flag", "tiff_flag")] + [FT("image_size", (10, 20), (1280, 1024)), FT("pixel_size", (0.5, 0.25), (1.0, 3.0)), F("chfield", 1, 2)] + [FN("img_base_name", c, "a", LONG, UNI) for c in range(2)] + [FN("cal_img_base_name", c, "b", LONG, UNI) for c in range(2)]
   + [("mm n1", lambda o, x: o.get_multimedia_params().set_n1(x), lambda o: o.get_multimedia_params().get_n1(), (1.5, 1.0)), ("mm n3", lambda o, x: o.get_multimedia_params().set_n3(x), lambda o: o.get_multimedia_params().get_n3(), (1.33, 1.0))]),
 "MultimediaParams": (lambda: MultimediaParams(), [F("n1", 1.0, 1.5), F("n3", 1.33, 2.0), ("layers", lambda o, x: o.set_layers(*x), lambda o: (lst(o.get_n2())[:o.get_nlay()], lst(o.get_d())[:o.get_nlay()]), (([1.5], [2.0]), ([1.5, 1.6], [2.0, 3.0]), ([1.1, 1.2, 1.3], [4.0, 5.0, 6.0])))]),
 "TargetParams": (lambda: TargetParams(), [F("max_discontinuity", 5, 9), FL("grey_thresholds", [1, 2, 3, 4], [9, 8, 7, 6]), FT("pixel_count_bounds", (3, 30), (5, 6), (8, 4)), FT("xsize_bounds", (1, 9), (2, 8), (7, 3)), FT("ysize_bounds", (1, 7), (2, 5), (9, 3)), F("min_sum_grey", 5, 50), F("cross_size", 1, 3)]),
 "Calibration": (lambda: Calibration(), [FL(n, np.r_[1.5, 0.25, 3.0], np.r_[0.0, -2.0, 1.0], lay(np.r_[5.5, 6.5, 7.5], "row reversed")[0]) for n in ("pos", "primary_point", "radial_distortion", "glass_vec")] + [("angles", lambda o, x: o.set_angles(x), lambda o: (lst(o.get_angles()), rotation(o)), (np.r_[1.5, 0.25, 3.0], np.r_[0.0, 0.0, 0.0], np.r_[0.3, 0.0, -1.0], lay(np.r_[0.5, -2.5, 7.5], "row reversed")[0]))] + [FL("decentering", np.r_[1.5, 2.5], np.r_[0.0, 1.0]), ("affine", lambda o, x: o.set_affine_trans(x), lambda o: lst(o.get_affine()), (np.r_[1.25, 0.5], np.r_[1.0, -1.0]))])}
def rotation(o): return lst(o.get_rotation_matrix())
def rotated(a): x = A([0, 0, 0] + list(a) + [0] * 9); L.rotation_matrix(x); return x.a[6:].tolist()
def val(x): return lst(x) if isinstance(x, (list, np.ndarray)) else x
def getall(o, fields): return [g(o) for _, _, g, _ in fields]
@scenario
def histories():
    """set, then everything read back, then set again: every pair (thorough: triple) of fields and values, every class"""
    name = mc.pick(sorted(CLASSES)); make, fields = CLASSES[name]; depth = 3 if mc.thorough else 2; ops = []
    for _ in range(depth): i = mc.choose(len(fields)); ops.append((i, mc.choose(len(fields[i][3]))))
    mc.own("%s: %s" % (name, [(fields[i][0], j) for i, j in ops])); o = make(); model = getall(o, fields); other = make(); om = getall(other, fields); mc.check(model == om, "defaults", "two fresh objects differ: %s and %s", model, om)
    eq = name != "Calibration"
    for i, j in ops:
        v = fields[i][3][j]; fields[i][1](o, v); model[i] = (lst(v), rotated(v)) if fields[i][0] == "angles" else tuple(val(x) for x in v) if isinstance(v, tuple) and isinstance(v[0], list) else val(v); mc.step()
        got = getall(o, fields); mc.check(got == model, "fields", "after setting %s to %s the object gives %s in place of %s", fields[i][0], str(v)[:60], str(got)[:300], str(model)[:300]); mc.check(getall(other, fields) == om, "shared", "another object changed")
        if eq:
            mc.check(bool(o == o) and not (o != o), "equality", "an object differs from itself"); e, n = o == other, o != other
            mc.check(bool(e) == (model == om) and bool(n) == (model != om), "equality", "== gives %r and != gives %r for objects with %s", e, n, "equal fields" if model == om else "different fields: %s" % [fields[k][0] for k in range(len(model)) if model[k] != om[k]])
    mc.state(name, tuple(ops))
MADE = {  # keyword: value, the setters it stands for
 "TrackingParams": dict(accel_lim=(1.5, lambda o, x: o.set_dacc(x)), angle_lim=(70.5, lambda o, x: o.set_dangle(x)), velocity_lims=([[-1.5, 2.5], [-3.5, 4.5], [-5.5, 6.5]], lambda o, x: [o.set_dvxmin(-1.5), o.set_dvxmax(2.5), o.set_dvymin(-3.5), o.set_dvymax(4.5), o.set_dvzmin(-5.5), o.set_dvzmax(6.5)]), add_particle=(1, lambda o, x: o.set_add(x))),
 "SequenceParams": dict(frame_range=((7, 19), lambda o, x: [o.set_first(7), o.set_last(19)]), image_base=(["a", LONG, "c/d."], lambda o, x: [o.set_img_base_name(k, n) for k, n in enumerate(x)])),
 "VolumeParams": dict(x_span=((-1.5, 2.5), lambda o, x: o.set_X_lay([-1.5, 2.5])), z_spans=([(-3.5, 4.5), (-5.5, 6.5)], lambda o, x: [o.set_Zmin_lay([-3.5, -5.5]), o.set_Zmax_lay([4.5, 6.5])]), pixels_tot=(0.1, lambda o, x: o.set_cn(x)), pixels_x=(0.2, lambda o, x: o.set_cnx(x)), pixels_y=(0.3, lambda o, x: o.set_cny(x)), ref_gray=(0.4, lambda o, x: o.set_csumg(x)), epipolar_band=(0.5, lambda o, x: o.set_eps0(x)), min_correlation=(33, lambda o, x: o.set_corrmin(x))),
 "ControlParams": dict(flags=(["hp", "allcam", "headers"], lambda o, x: [o.set_hp_flag("hp" in x), o.set_allCam_flag("allcam" in x), o.set_tiff_flag("headers" in x)]), image_size=((1280, 1024), lambda o, x: o.set_image_size(x)), pixel_size=((0.25, 0.5), lambda o, x: o.set_pixel_size(x)), cam_side_n=(1.1, lambda o, x: o.get_multimedia_params().set_n1(x)), walls=(None, lambda o, x: o.get_multimedia_params().set_layers([1.4, 1.5], [5.0, 6.0])), object_side_n=(1.33, lambda o, x: o.get_multimedia_params().set_n3(x))),
 "MultimediaParams": dict(n1=(1.1, lambda o, x: o.set_n1(x)), walls=(None, lambda o, x: o.set_layers([1.4, 1.5], [5.0, 6.0])), n3=(1.33, lambda o, x: o.set_n3(x))),
 "TargetParams": dict(discont=(9, lambda o, x: o.set_max_discontinuity(x)), gvthresh=([9, 8, 7, 6], lambda o, x: o.set_grey_thresholds(x)), pixel_count_bounds=((3, 30), lambda o, x: o.set_pixel_count_bounds(x)), xsize_bounds=((1, 9), lambda o, x: o.set_xsize_bounds(x)), ysize_bounds=((2, 8), lambda o, x: o.set_ysize_bounds(x)), min_sum_grey=(50, lambda o, x: o.set_min_sum_grey(x)), cross_size=(3, lambda o, x: o.set_cross_size(x))),
 "Calibration": dict((k, (np.array(v), s)) for k, v, s in (("pos", [1.5, 2.5, 3.5], lambda o, x: o.set_pos(x)), ("angs", [0.5, 0.0, -1.5], lambda o, x: o.set_angles(x)), ("prim_point", [0.1, 0.2, 99.0], lambda o, x: o.set_primary_point(x)), ("rad_dist", [0.01, 0.02, 0.03], lambda o, x: o.set_radial_distortion(x)), ("decent", [0.04, 0.05], lambda o, x: o.set_decentering(x)), ("affine", [1.5, 0.5], lambda o, x: o.set_affine_trans(x)), ("glass", [1.0, 2.0, 50.0], lambda o, x: o.set_glass_vec(x))))}
@scenario
def made():
    """every set of keywords: the object made with them has the values that setters give it"""
    name = mc.pick(sorted(MADE)); kw = MADE[name]; ks = sorted(k for k in kw if mc.choose(2)); mc.own("%s(%s)" % (name, ", ".join(ks))); k = dict((x, kw[x][0]) for x in ks if x != "walls");
    if "flags" in k: k["flags"] = [[], ["hp"], ["allcam"], ["headers"], ["hp", "allcam", "headers"]][mc.choose(5)]
    if "walls" in ks: k.update(dict(wall_ns=[1.4, 1.5], wall_thicks=[5.0, 6.0]) if name == "ControlParams" else dict(n2=[1.4, 1.5], d=[5.0, 6.0]))
    if name == "SequenceParams" and ("image_base" not in ks or mc.choose(2)): k["num_cams"] = 3
    cls = globals()[name]; o = cls(2, **k) if name == "ControlParams" else cls(**k); w = CLASSES[name][0]()
    if name in ("SequenceParams", "ControlParams"): mc.check(o.get_num_cams() == (2 if name == "ControlParams" else 3), "values", "made for %d cameras", o.get_num_cams()) if hasattr(o, "get_num_cams") else None
    for x in ks: kw[x][1](w, k.get(x))
    fields = CLASSES[name][1]; a, b = getall(o, fields), getall(w, fields); mc.step(len(ks)); mc.check(a == b, "values", "%s(%s) gives %s in place of %s", name, ", ".join(ks), [x for x, y in zip(a, b) if x != y], [y for x, y in zip(a, b) if x != y]); mc.state(name, tuple(ks))
    if name == "Calibration": mc.check(o.get_rotation_matrix().tolist() == w.get_rotation_matrix().tolist() and (rotation(o) == rotated(o.get_angles())), "rotation", "the rotation matrix is not the one of the angles")
@scenario
def setters_refused():
    """values that do not fit raise and change nothing"""
    S = lambda: SequenceParams(num_cams=3); C = lambda: ControlParams(2); M = lambda: MultimediaParams(); V = lambda: VolumeParams(); T = lambda: TargetParams(); K = lambda: Calibration()
    cases = [("SequenceParams", S, "set_img_base_name", (3, "x")), ("SequenceParams", S, "set_img_base_name", (-1, "x")), ("SequenceParams", S, "set_img_base_name", (0, "n" * 240)), ("SequenceParams", S, "set_img_base_name", (1, u"\u05e9" * 120)), ("SequenceParams", S, "get_img_base_name", (3,)), ("SequenceParams", S, "get_img_base_name", (-1,)),
      ("ControlParams", C, "set_img_base_name", (2, "x")), ("ControlParams", C, "set_cal_img_base_name", (2, "x")), ("ControlParams", C, "set_img_base_name", (1, "n" * 300)), ("ControlParams", C, "set_cal_img_base_name", (0, "n" * 300)), ("ControlParams", C, "get_img_base_name", (2,)), ("ControlParams", C, "get_cal_img_base_name", (-1,)), ("ControlParams", C, "set_image_size", ((1, 2, 3),)), ("ControlParams", C, "set_image_size", ((1,),)), ("ControlParams", C, "set_pixel_size", ((1.0, 2.0, 3.0),)),
      ("MultimediaParams", M, "set_layers", ([1.0] * 4, [1.0] * 4)), ("MultimediaParams", M, "set_layers", ([1.0, 2.0], [1.0])), ("VolumeParams", V, "set_X_lay", ([1, 2, 3],)), ("VolumeParams", V, "set_Zmin_lay", ([1, 2, 3],)), ("VolumeParams", V, "set_Zmax_lay", ([1],)), ("TargetParams", T, "set_grey_thresholds", ([1] * 5,)), ("TargetParams", T, "get_grey_thresholds", (5,)), ("TargetParams", T, "get_grey_thresholds", (-1,)),
      ("Calibration", K, "set_pos", (np.ones(4),)), ("Calibration", K, "set_pos", (np.ones(2),)), ("Calibration", K, "set_angles", (np.ones(4),)), ("Calibration", K, "set_primary_point", (np.ones(2),)), ("Calibration", K, "set_radial_distortion", (np.ones(4),)), ("Calibration", K, "set_decentering", (np.ones(3),)), ("Calibration", K, "set_affine_trans", (np.ones(3),)), ("Calibration", K, "set_glass_vec", (np.ones(2),)),
      (None, None, SequenceParams, ((), {})), (None, None, SequenceParams, ((), dict(num_cams=0))), (None, None, ControlParams, ((0,), {})), (None, None, TargetParams, ((), dict(gvthresh=[1] * 5))), (None, None, VolumeParams, ((), dict(x_span=(1, 2, 3)))), (None, None, Tracker, ((pycpar(CP(1)), pyvpar(VP), TrackingParams(), SequenceParams(num_cams=1), [pycal(CAL[0])], {}), {}))]
    name, make, m, args = cases[mc.choose(len(cases))]; mc.own("%s.%s%s" % (name, m, str(args)[:60]))
    if name is None: throws("%s%s" % (m.__name__, args), m, *args[0], **args[1]); gc.collect(); return
    o = make(); f = CLASSES[name][1]
    for i, (_, s, g, v) in enumerate(f): s(o, v[0])
    before = getall(o, f); throws("%s.%s%s" % (name, m, str(args)[:60]), getattr(o, m), *args)
    mc.check(getall(o, f) == before, "changed", "a refused call changed the object")
@scenario
def views():
    """arrays that share the memory of an object stay good after it is gone, and read what is set later"""
    k = mc.choose(6); mc.own("view %d" % k)
    if k < 2: o = pymm(LAYERS); a = (o.get_n2, o.get_d)[k](copy=False); w = lst(LAYERS[2:5] if k == 0 else LAYERS[5:8]); ch = lambda: o.set_layers([9.0, 8.0, 7.0], [9.0, 8.0, 7.0]); w2 = [9.0, 8.0, 7.0]; cpy = (o.get_n2, o.get_d)[k]()
    elif k < 5: o = pyvpar(VP); g = (o.get_X_lay, o.get_Zmin_lay, o.get_Zmax_lay)[k - 2]; a = g(copy=False); w = lst(VP[2 * (k - 2):2 * (k - 2) + 2]); ch = lambda: (o.set_X_lay, o.set_Zmin_lay, o.set_Zmax_lay)[k - 2]([9.0, 8.0]); w2 = [9.0, 8.0]; cpy = g()
    else: o = TargetParams(gvthresh=[1, 2, 3, 4]); a = o.get_grey_thresholds(4, copy=False); w = [1.0, 2.0, 3.0, 4.0]; ch = lambda: o.set_grey_thresholds([9, 8, 7, 6]); w2 = [9.0, 8.0, 7.0, 6.0]; cpy = o.get_grey_thresholds()
    mc.check(lst(a) == w and lst(cpy) == w, "values", "view %s, copy %s in place of %s", lst(a), lst(cpy), w); ch(); mc.check(lst(a) == w2 and lst(cpy) == w, "view", "after a set the view is %s, the copy %s", lst(a), lst(cpy))
    del o, ch
    if k >= 2 and k < 5: del g
    gc.collect(); [bytearray(200) for _ in range(50)]; mc.check(lst(a) == w2, "lifetime", "the view changed when its object went"); mc.step(3)

# ------------------------------------------------------------------ reading parameters
def put(name, text): p = os.path.join(mc.scratch, name); open(p, "w").write(text); return p.encode()
READ = {
 "TrackingParams": (lambda o, f: o.read_track_par(f), lambda o: [o.set_dvxmin(-1.5), o.set_dvxmax(2.5), o.set_dvymin(-3.5), o.set_dvymax(4.5), o.set_dvzmin(-5.5), o.set_dvzmax(6.5), o.set_dangle(70.25), o.set_dacc(0.75), o.set_add(1), o.set_dsumg(0), o.set_dn(0), o.set_dnx(0), o.set_dny(0)], ["-1.5", "2.5", "-3.5", "4.5", "-5.5", "6.5", "70.25", "0.75", "1"]),
 "VolumeParams": (lambda o, f: o.read_volume_par(f), lambda o: [o.set_X_lay([111.5, 333.25]), o.set_Zmin_lay([222.0, 444.0]), o.set_Zmax_lay([223.0, 445.0]), o.set_cnx(0.5), o.set_cny(0.25), o.set_cn(0.75), o.set_csumg(0.125), o.set_corrmin(66.5), o.set_eps0(0.06)], ["111.5", "222", "223", "333.25", "444", "445", "0.5", "0.25", "0.75", "0.125", "66.5", "0.06"]),
 "SequenceParams": (lambda o, f: o.read_sequence_par(f, 3), lambda o: [o.set_img_base_name(0, "img/c1."), o.set_img_base_name(1, LONG), o.set_img_base_name(2, "c3"), o.set_first(497), o.set_last(597)], ["img/c1.", LONG, "c3", "497", "597"]),
 "ControlParams": (lambda o, f: o.read_control_par(f), lambda o: [o.set_img_base_name(0, "i1"), o.set_cal_img_base_name(0, "k1"), o.set_img_base_name(1, LONG), o.set_cal_img_base_name(1, "k2"), o.set_hp_flag(True), o.set_allCam_flag(False), o.set_tiff_flag(True), o.set_image_size((1280, 1024)), o.set_pixel_size((0.25, 0.5)), o.set_chfield(2), o.get_multimedia_params().set_n1(1.0), o.get_multimedia_params().set_layers([1.49], [5.5]), o.get_multimedia_params().set_n3(1.33)],
   ["2", "i1", "k1", LONG, "k2", "1", "0", "1", "1280", "1024", "0.25", "0.5", "2", "1.0", "1.49", "1.33", "5.5"]),
 "TargetParams": (lambda o, f: o.read(f), lambda o: [o.set_grey_thresholds([12, 13, 14, 15]), o.set_max_discontinuity(5), o.set_pixel_count_bounds((3, 100)), o.set_xsize_bounds((1, 20)), o.set_ysize_bounds((2, 30)), o.set_min_sum_grey(44), o.set_cross_size(4)], ["12", "13", "14", "15", "5", "3", "100", "1", "20", "2", "30", "44", "4"])}
@scenario
def reading():
    """parameter files, whole, cut after every line, or missing, read over an object holding other values"""
    name = mc.pick(sorted(READ)); rd, fill, lines = READ[name]; cut = mc.choose(len(lines) + 2); twice = mc.choose(2); mc.own("%s, %s of %d lines" % (name, cut if cut <= len(lines) else "no file", len(lines))); make, fields = CLASSES[name]; o = make()
    for _, s, _, v in fields: s(o, v[0])
    before = getall(o, fields); held = o.get_multimedia_params() if name == "ControlParams" else None; p = put("par", "\n".join(lines[:cut]) + ("\n" if cut else "")) if cut <= len(lines) else os.path.join(mc.scratch, "absent").encode(); w = make(); fill(w); want = getall(w, fields); mc.step(cut)
    for _ in range(1 + twice):
        e = fails(rd, o, p); got = getall(o, fields)
        if cut == len(lines): mc.check(e is None and got == want, "values", "read %s in place of %s (%r)", str(got)[:300], str(want)[:300], e); mc.check(bool(o == w) and not (o != w), "equality", "differs from the object with the same values")
        else: mc.check(isinstance(e, IOError), "no-error", "a %s gave %r in place of an IOError", "file of %d lines" % cut if cut < len(lines) else "missing file", e); mc.check(got == before, "changed", "a failed reading left %s in place of %s", str(got)[:300], str(before)[:300])
    if held is not None:
        x = pymm(WATER); h = (held.get_nlay(), held.get_n1(), held.get_n3()); m = o.get_multimedia_params(); mc.check(h == (m.get_nlay(), m.get_n1(), m.get_n3()), "shared", "the medium held from before reading shows %s", h); held.set_n1(4.5); mc.check(o.get_multimedia_params().get_n1() == 4.5, "shared", "the medium is not shared any more"); del o; gc.collect(); mc.check(held.get_n1() == 4.5, "lifetime", "the medium went with its owner")
    mc.state(name, cut)
@scenario
def calibration_files():
    """calibrations written and read back, the additional file there, missing, or replaced by the fallback"""
    k = mc.choose(3); add = mc.pick(["there", "missing", "not given", "cut"]); fb = mc.pick(["there", "missing", "not given"]); ori = mc.pick(["there", "missing", "cut"]); mc.own("ori %s, add %s, fallback %s" % (ori, add, fb)); c = pycal(CAL[k]); S = mc.scratch; po, pa, pf = [os.path.join(S, x).encode() for x in ("o.ori", "o.addpar", "f.addpar")]
    for x in (po, pa, pf):
        if os.path.exists(x): os.remove(x)
    c.write(po, pa); pycal(CAL[1]).write(os.path.join(S, "x.ori").encode(), pf)
    if add == "missing": os.remove(pa)
    if add == "cut": t = open(pa).read().split(); open(pa, "w").write(" ".join(t[:4]))
    if fb == "missing": os.remove(pf)
    if ori == "missing": os.remove(po)
    if ori == "cut": t = open(po).read(); open(po, "w").write(t[:len(t) // 3])
    a = None if add == "not given" else pa; f = None if fb == "not given" else pf; w = np.zeros(28); ok = L.sh_cal_read(po, a, f, P(w.ctypes.data)); n = pycal(CAL[2]); n.set_pos(np.r_[1.5, 2.5, 3.5]); b = calnum(n); rb = n.get_rotation_matrix(); e = fails(n.from_file, po, a, f); mc.step(3)
    if ok: mc.check(e is None and same(calnum(n), w[:19]) and same(n.get_rotation_matrix().ravel(), w[19:]), "values", "read %s in place of %s (%r)", calnum(n), w[:19].tolist(), e)
    else: mc.check(isinstance(e, IOError), "no-error", "ori %s, add %s, fallback %s: %r in place of an IOError", ori, add, fb, e); mc.check(calnum(n) == b and same(n.get_rotation_matrix(), rb), "changed", "a failed reading changed the calibration")
    if ori == "there" and add == "there": mc.check(e is None and np.allclose(calnum(n), CAL[k], atol=1e-7), "round-trip", "read %s after writing %s", calnum(n), CAL[k])
    if ori == "there" and add == "missing" and fb == "there": mc.check(e is None and np.allclose(calnum(n)[12:], CAL[1][12:], atol=1e-7), "fallback", "the fallback was not read: %s", calnum(n)[12:])
    e = fails(n.write, os.path.join(S, "nodir", "o").encode(), os.path.join(S, "w.add").encode()); mc.check(isinstance(e, IOError), "no-error", "writing to a missing folder: %r", e); mc.state(k, add, fb, ori)

# ------------------------------------------------------------------ targets and frames
def trow(i): return [i, 10.25 + i * 3, 700.5 - i * 50, 5 + i, 2 + i, 3 + i, 100 + i, -1 if i % 2 else i]
@scenario
def target_arrays():
    """targets set through one handle and read through others, sorted, written, read, and outliving their array"""
    n = mc.pick([0, 1, 2, 5]); op = mc.pick(["none", "sort", "sort twice"]); life = mc.choose(2); order = mc.choose(2); mc.own("%d targets, %s" % (n, op)); rows = [trow(i) for i in range(n)]; rows = rows[::-1] if order else rows; t = pytargs(rows); keep = [t[i] for i in range(n)]; mc.check(len(t) == n and targnum(t) == rows, "values", "targets %s in place of %s", targnum(t), rows)
    for i in (-1, n, n + 5): mc.check(isinstance(fails(lambda: t[i]), IndexError), "index", "index %d of %d was accepted", i, n)
    mc.check(len([x for x in t]) == n, "iteration", "iteration gives %d of %d", len([x for x in t]), n); w = rows
    if op != "none":
        for _ in range(2 if "twice" in op else 1): t.sort_y()
        w = sorted(rows, key=lambda r: r[2]); w = [[i] + r[1:] for i, r in enumerate(w)]; mc.check(targnum(t) == w, "sorted", "sorted to %s in place of %s", targnum(t), w)
    b = os.path.join(mc.scratch, "cam.").encode(); f = mc.scratch + "/cam.0007_targets"
    for num, suffix in ((7, None), (123456, None)):
        for x in os.listdir(mc.scratch): os.remove(os.path.join(mc.scratch, x))
        t.write(b, num); r = read_targets(b.decode(), num); mc.check(np.allclose(targnum(r), w, atol=1e-4) if n else len(r) == 0, "round-trip", "read %s after writing %s", targnum(r), w); out = np.zeros((50, 8)); m = L.sh_read_targets(b, num, P(out.ctypes.data), 50); mc.check(m == len(r) and targnum(r) == out[:m].tolist(), "reading", "read %s in place of %s", targnum(r), out[:max(m, 0)].tolist())
        for x in os.listdir(mc.scratch): f = os.path.join(mc.scratch, x)
        text = open(f).read().splitlines()
        if n: open(f, "w").write("\n".join(text[:-1]) + "\n"); mc.check(isinstance(fails(read_targets, b.decode(), num), IOError), "no-error", "a file with a target missing was read as %s", targnum(read_targets(b.decode(), num)) if fails(read_targets, b.decode(), num) is None else None)
        os.remove(f); mc.check(isinstance(fails(read_targets, b.decode(), num), IOError), "no-error", "a missing target file gave no error")
    mc.check(isinstance(fails(t.write, os.path.join(mc.scratch, "nodir", "x").encode(), 1), IOError), "no-error", "writing to a missing folder gave no error")
    if life:
        del t; gc.collect(); [bytearray(100) for _ in range(50)]
        for i, x in enumerate(keep): mc.check([x.pnr()] + list(x.pos()) == w[i][:3], "lifetime", "a target changed when its array went"); x.set_pos((1.5, 2.5)); mc.check(x.pos() == (1.5, 2.5), "lifetime", "cannot set a target whose array went")
    x = Target(pnr=3, tnr=4, x=1.5, y=2.5, n=5, nx=6, ny=7, sumg=8); mc.check([x.pnr(), x.tnr()] + list(x.pos()) + list(x.count_pixels()) + [x.sum_grey_value()] == [3, 4, 1.5, 2.5, 5, 6, 7, 8], "single", "a target made alone holds other values"); mc.step(n); mc.state(n, op)
def write_frame(S, n, nc, fr, shift=0.0):
    pos = [[i * 1.5 + shift, -i * 2.5, i * 0.5] for i in range(n)]; cor = [[(i + k) % n if (i + k) % 3 else -1 for k in range(4)] for i in range(n)]
    open("%s/rt.%d" % (S, fr), "w").write("%d\n" % n + "".join("%d %.3f %.3f %.3f %d %d %d %d\n" % tuple([i + 1] + pos[i] + cor[i]) for i in range(n))); open("%s/ptv.%d" % (S, fr), "w").write("%d\n" % n + "".join("%d %d %.3f %.3f %.3f\n" % tuple([-1, -2] + pos[i]) for i in range(n)))
    open("%s/add.%d" % (S, fr), "w").write("%d\n" % n + "".join("%d %d %.3f %.3f %.3f 1\n" % tuple([-1, -2] + pos[i]) for i in range(n)))
    for k in range(nc): open("%s/cam%d.%04d_targets" % (S, k, fr), "w").write("%d\n" % n + "".join("%4d %9.4f %9.4f 5 2 3 40 %d\n" % (i, 100.5 * k + i + shift, 20.25 * i + k, i) for i in range(n)))
    return pos, [[([100.5 * k + cor[i][k] + shift, 20.25 * cor[i][k] + k] if cor[i][k] >= 0 else [np.nan, np.nan]) for i in range(n)] for k in range(nc)]
@scenario
def frames():
    """frames read from files, read again, missing files, not read at all"""
    nc = mc.pick([1, 2, 4]); n = mc.pick([1, 2, 5]); prio = mc.choose(2); how = mc.pick(["made", "read", "read twice", "dummy", "no targets", "no correspondences", "no prio", "short list"]); mc.own("%d cameras, %d points, %s" % (nc, n, how)); S = mc.scratch
    for x in os.listdir(S): os.remove(os.path.join(S, x))
    if n == 5 and how in ("made", "read"): n = mc.pick([5, 1999, 2001, 12000] if nc == 2 else [5])
    pos, tp = write_frame(S, n, nc, 5); pos2, tp2 = write_frame(S, 3, nc, 6, 0.25); b = [(S + "/" + x).encode() for x in ("rt", "ptv", "add")]; tb = [("%s/cam%d." % (S, k)).encode() for k in range(nc)]; pr = b[2] if prio else None; mc.step(n)
    if how == "dummy":
        f = Frame(nc); mc.check(isinstance(fails(f.positions), Exception) and isinstance(fails(f.target_positions_for_camera, 0), Exception), "dummy", "an empty frame gave positions"); del f; return
    if how == "short list": throws("a list with a camera missing", Frame, nc, b[0], b[1], pr, tb[:-1], 5); return
    if how in ("no targets", "no correspondences", "no prio"):
        if how == "no prio": pr = b[2]
        os.remove("%s/cam%d.0005_targets" % (S, nc - 1) if how == "no targets" else S + "/rt.5" if how == "no correspondences" else S + "/add.5"); 
        if how != "no targets": mc.check(fails(lambda: Frame(nc, b[0], b[1], pr, tb, 5).positions()) is not None, "no-error", "a frame made with its %s file missing gives positions", how[3:])
        f = Frame(nc); e = fails(lambda: f.read(b[0], b[1], tb, 5, pr)); r = None if e else f.read(b[0], b[1], tb, 5, pr); mc.check(e is not None or not r, "no-error", "reading a frame with a file missing returned %r", r); return
    if how == "made": f = Frame(nc, b[0], b[1], pr, tb, 5)
    else: f = Frame(nc); r = f.read(b[0], b[1], tb, 5, pr); mc.check(bool(r), "success", "reading returned %r", r)
    mc.check(np.allclose(f.positions(), pos), "positions", "positions %s in place of %s", f.positions().tolist(), pos)
    for k in range(nc): mc.check(np.allclose(f.target_positions_for_camera(k), tp[k], equal_nan=True), "targets", "camera %d: %s in place of %s", k, f.target_positions_for_camera(k).tolist(), tp[k])
    for k in (-1, nc, 9): throws("camera %d of %d" % (k, nc), f.target_positions_for_camera, k)
    if how == "read twice":
        p = f.positions(); r = f.read(b[0], b[1], tb, 6, pr); mc.check(bool(r) and np.allclose(f.positions(), pos2) and np.allclose(p, pos), "again", "second reading gives %s", f.positions().tolist())
        for k in range(nc): mc.check(np.allclose(f.target_positions_for_camera(k), tp2[k], equal_nan=True), "again", "second reading, camera %d", k)
    mc.state(nc, n, how)

# ------------------------------------------------------------------ tracking
def track_scene(S, nc, n, cp, frames, add):
    for d in ("a", "b", "c"): os.makedirs(S + "/" + d, exist_ok=True)
    for x in [os.path.join(r, f) for r, _, fs in os.walk(S) for f in fs]: os.remove(x)
    for fr in frames:
        w = WORLD[:n] + np.array([0.8, 0.1, 0.2]) * (fr - frames[0]); idx = []
        for k in range(nc):
            px = pixels(CAL[k], cp, w); o = sorted(range(n), key=lambda i: px[i][1]); idx.append([o.index(i) for i in range(n)])
            open("%s/cam%d.%04d_targets" % (S, k, fr), "w").write("%d\n" % n + "".join("%4d %9.4f %9.4f 9 3 3 100 %d\n" % (j, px[i][0], px[i][1], i) for j, i in enumerate(o)))
        keep = [i for i in range(n) if not (add and fr == frames[1] and i == 0)]
        for d in ("a", "b", "c"): open("%s/%s/rt.%d" % (S, d, fr), "w").write("%d\n" % len(keep) + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((q + 1,) + tuple(w[i]) + tuple(idx[k][i] if k < nc else -1 for k in range(4))) for q, i in enumerate(keep)))
def outputs(S, d, frames): return dict((x, open("%s/%s/%s" % (S, d, x)).read()) for x in sorted(os.listdir(S + "/" + d)))
@scenario
def tracking():
    """a tracking run through Tracker gives the files of the C run, whoever lets go of what before it runs"""
    nc = mc.pick([2, 4]); n = mc.pick([1, 3]); num = mc.pick([3, 5]); how = mc.pick(["steps", "full", "full twice", "steps, stopped early"]); back = mc.choose(2); drop = mc.pick(["nothing", "everything", "list cleared", "cameras and settings replaced"]); add = mc.choose(2); mc.own("%d cameras, %d particles, %d frames, %s, dropped %s" % (nc, n, num, how, drop)); S = mc.scratch; cp = CP(nc); fr = list(range(101, 101 + num)); track_scene(S, nc, n, cp, fr, add)
    T = [2.0, 150.0, -3.0, 3.0, -3.0, 3.0, -3.0, 3.0, add]; stop = fr[-1] if "early" not in how else fr[0] + (num - 1) // 2; names = [("%s/cam%d." % (S, k)).encode() for k in range(nc)]; arr = (ctypes.c_char_p * nc)(*names); cals = CAL[:nc]; nm = lambda d, x: ("%s/%s/%s" % (S, d, x)).encode()
    ref = lambda d, bk: L.sh_track(A(cp), A(VP), A(T), A([x for q in cals for x in q]), arr, fr[0], fr[-1], nm(d, "rt"), nm(d, "ptv"), nm(d, "add"), D(1e-4), bk, stop)
    new = drop == "cameras and settings replaced"
    if new:
        for k in range(nc): pycal(CAL[k]).write(("%s/k%d.ori" % (S, k)).encode(), ("%s/k%d.add" % (S, k)).encode())
        cals = [CAL[(k + 1) % 4] for k in range(nc)]; T0 = T; T = [0.1, 1.0, -0.1, 0.1, -0.2, 0.2, -0.3, 0.3, 1 - add]
        rd = [Calibration() for k in range(nc)]; [c.from_file(("%s/k%d.ori" % (S, k)).encode(), ("%s/k%d.add" % (S, k)).encode()) for k, c in enumerate(rd)]; read = [calnum(c) for c in rd]; ref0 = ref; ref = lambda d, bk: L.sh_track(A(cp), A(VP), A(T0), A([x for q in read for x in q]), arr, fr[0], fr[-1], nm(d, "rt"), nm(d, "ptv"), nm(d, "add"), D(1e-4), bk, stop)
    for i in range(2 if how == "full twice" else 1): ref("a", 0)
    for i in range(2 if how == "full twice" else 1): ref("c", back if i or how != "full twice" else 0)
    tp = TrackingParams(accel_lim=T[0], angle_lim=T[1], velocity_lims=[[T[2], T[3]], [T[4], T[5]], [T[6], T[7]]], add_particle=T[8]); sp = SequenceParams(image_base=[x.decode() for x in names], frame_range=(fr[0], fr[-1])); c, v = pycpar(cp), pyvpar(VP); pc = [pycal(x) for x in cals]; ns = dict(corres=nm("b", "rt"), linkage=nm("b", "ptv"), prio=nm("b", "add")); t = Tracker(c, v, tp, sp, pc, ns)
    if drop == "list cleared": pc[:] = []; ns.clear(); gc.collect(); junk = [bytes(bytearray(range(40, 40 + 30))) for _ in range(50)]
    if drop == "everything": del c, v, tp, sp, pc, ns; gc.collect(); junk = [bytearray(300) for _ in range(100)]
    if new:
        for k in range(nc): pc[k].from_file(("%s/k%d.ori" % (S, k)).encode(), ("%s/k%d.add" % (S, k)).encode())
        tp.set_dacc(T0[0]); tp.set_dangle(T0[1]); tp.set_dvxmin(T0[2]); tp.set_dvxmax(T0[3]); tp.set_dvymin(T0[4]); tp.set_dvymax(T0[5]); tp.set_dvzmin(T0[6]); tp.set_dvzmax(T0[7]); tp.set_add(T0[8])
    if "early" in how:
        t.restart()
        for k in range(stop - fr[0]): mc.check(bool(t.step_forward()), "step", "no step %d of %d", k, num - 1)
        t.finalize()
    elif how == "steps":
        t.restart(); k = 0; mc.check(t.current_step() == fr[0], "step", "starts at %d", t.current_step())
        while t.step_forward(): k += 1; mc.check(t.current_step() == fr[0] + k and k < num, "step", "step %d after %d", t.current_step(), k)
        mc.check(k == num - 1, "step", "%d steps for %d frames", k, num); t.finalize()
    else:
        for _ in range(2 if "twice" in how else 1): t.full_forward()
    a, b = outputs(S, "a", fr), outputs(S, "b", fr); mc.step(num); mc.check(sorted(a) == sorted(b) and len(b) == 3 * num - 2 * (fr[-1] - stop), "files", "files %s in place of %s", sorted(b), sorted(a))
    for x in a: mc.check(a[x] == b[x], "results", "%s holds %r in place of %r", x, b[x][:300], a[x][:300])
    if back:
        t.full_backward(); a, b = outputs(S, "c", fr), outputs(S, "b", fr); mc.check(sorted(a) == sorted(b), "files", "a backward run left %s", sorted(b))
        for x in a: mc.check(a[x] == b[x], "results", "after the backward run %s holds %r in place of %r", x, b[x][:300], a[x][:300])
    del t; gc.collect(); mc.state(nc, n, num, how, drop)

# ------------------------------------------------------------------ memory held
L.v_live.restype = ctypes.c_long
@scenario
def memory():
    """every scenario above, repeated with the same choices (those with at most one, thorough two, choices other than the first), leaves no memory behind"""
    from explore import REG
    f = mc.pick([s for s in REG if s.__name__ != "memory"]); left = [2 if mc.thorough else 1]; real, own, rec, at, again, mine = mc.choose, mc.own, [], [0], [], []
    def choose(n):
        if again: at[0] += 1; return rec[at[0] - 1]
        i = real(n) if left[0] else 0
        if i: left[0] -= 1
        rec.append(i); return i
    def own_(text=""):
        if not mine: own("%s: %s" % (f.__name__, text)); mine.append(1)
    mc.choose, mc.own = choose, own_
    for x in os.listdir(mc.scratch): x = os.path.join(mc.scratch, x); shutil.rmtree(x) if os.path.isdir(x) else os.remove(x)
    try:
        f()
        if not mine: own(f.__name__)
        again.append(1)
        def held(): at[0] = 0; f(); gc.collect(); return L.v_live()
        b = [held() for _ in range(4)]; mc.step(5); g = [y - x for x, y in zip(b, b[1:])]
        mc.check(min(g) <= 0, "leak", "%s: every repetition leaves memory behind (%s blocks)", f.__name__, g); mc.state(f.__name__, tuple(rec))
    finally: del mc.choose, mc.own
