// P23: points, lines, planes, triangles, polygons, boxes, transformations and
// one-dimensional interpolation against direct long-double computation.
#include "vh.hpp"
#include "nrlib/geometry/bilinearsurface.hpp"
#include "nrlib/geometry/box.hpp"
#include "nrlib/geometry/interpolation.hpp"
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/plane.hpp"
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/geometry/transformation.hpp"
#include "nrlib/geometry/triangle.hpp"
#include <algorithm>
#include <cfloat>

using namespace NRLib;
typedef long double ld;
struct V { ld x, y, z; };
static V v(const Point& p) { return {p.x, p.y, p.z}; }
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(ld t, V a) { return {t * a.x, t * a.y, t * a.z}; }
static ld dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static ld norm(V a) { return std::sqrt(dot(a, a)); }
static double dist(const Point& a, V b) { return (double)norm(v(a) - b); }

struct Frame { double scale, ox, oy, oz; bool dyadic; };
static Frame frame(vh::Rng& r)
{
  Frame f;
  f.scale = r.pick<double>({1, 1, 1, 100, 5000, 0.01});
  f.dyadic = r.b(0.4);
  double off = r.pick<double>({0, 0, 10, 1000, 100000});
  f.ox = off * r.i(-4, 4); f.oy = off * r.i(-4, 4); f.oz = off * r.i(-1, 1);
  if (f.dyadic && f.scale == 0.01) f.scale = 0.125;
  return f;
}
static double coord(vh::Rng& r, const Frame& f) { return f.dyadic ? f.scale * (double)r.i(-6, 6) * 0.5 : f.scale * r.u(-3, 3); }
static Point pt(vh::Rng& r, const Frame& f) { double a = coord(r, f), b = coord(r, f), c = coord(r, f); return Point(f.ox + a, f.oy + b, f.oz + c); }
static double mag(const Frame& f) { return 3 * f.scale + std::fabs(f.ox) + std::fabs(f.oy) + std::fabs(f.oz); }
static uint64_t psig(const Point& a, const Point& b, const Point& c, uint64_t k) { return vh::mix(vh::mix(vh::hd(a.x + b.y), vh::hd(b.x + c.z)), vh::mix(vh::hd(c.y + a.z), k)); }

// ---------------------------------------------------------------- points
static void modePoint(vh::Rng& r, long)
{
  Frame f = frame(r);
  Point a = pt(r, f), b = pt(r, f), c = pt(r, f);
  double M = mag(f), t = r.b(0.2) ? 0.0 : r.u(-3, 3);
  vh::sig(psig(a, b, c, 1));
  vh::stat("point cases");
  V A = v(a), B = v(b), C = v(c);
  double e1 = 1e-14 * M, e2 = 1e-13 * M * M, e3 = 1e-12 * M * M * M;
  VH_CHECK(dist(a + b, A + B) <= e1 && dist(a - b, A - B) <= e1 && dist(t * a, (ld)t * A) <= 3 * e1 && dist(a * t, (ld)t * A) <= 3 * e1 && dist(-a, -1.0L * A) == 0, "point/arith", "a=(%.17g %.17g %.17g) b=(%.17g %.17g %.17g) t=%.17g", a.x, a.y, a.z, b.x, b.y, b.z, t);
  { Point p = a; p += b; Point q = a; q -= b; Point s = a; s *= t; Point sw = a, sw2 = b; sw.Swap(sw2); Point st; st.SetPoint(a.x, a.y, a.z);
    VH_CHECK(p == a + b && q == a - b && s == t * a && sw == b && sw2 == a && st == a && !(st != a), "point/inplace", "in-place operators differ");
    if (t != 0) { Point d = a; d /= t; VH_CHECK(dist(d, (1 / (ld)t) * A) <= 4e-16 * (double)norm(A) / std::fabs(t) + 1e-300 && dist(a / t, v(d)) == 0, "point/div", "a / %.17g", t); } }
  VH_CHECK(std::fabs((ld)a.Dot(b) - dot(A, B)) <= e2 && Dot(a, b) == a.Dot(b), "point/dot", "%.17g, expected %.17Lg", a.Dot(b), dot(A, B));
  VH_CHECK(dist(a.Cross(b), cross(A, B)) <= e2 && dist(Cross(a, b), cross(A, B)) <= e2, "point/cross", "cross product of (%.17g %.17g %.17g) and (%.17g %.17g %.17g)", a.x, a.y, a.z, b.x, b.y, b.z);
  VH_CHECK(std::fabs((ld)a.GetDistance(b) - norm(A - B)) <= 3 * e1 && a.GetDistance(b) == b.GetDistance(a), "point/distance", "%.17g, expected %.17Lg", a.GetDistance(b), norm(A - B));
  VH_CHECK(std::fabs((ld)a.GetDistanceXY(b) - std::hypot(A.x - B.x, A.y - B.y)) <= 3 * e1, "point/distanceXY", "%.17g", a.GetDistanceXY(b));
  VH_CHECK(std::fabs((ld)a.Norm() - norm(A)) <= 3 * e1 && Norm(a) == a.Norm(), "point/norm", "%.17g, expected %.17Lg", a.Norm(), norm(A));
  { Point n = a.GetNormalized(); Point m = a; m.Normalize();
    if (norm(A) > 0) VH_CHECK(dist(n, (1 / norm(A)) * A) <= 1e-14 && dist(m, v(n)) <= 1e-15, "point/normalize", "(%.17g %.17g %.17g)", n.x, n.y, n.z);
    Point z; Point zn = z.GetNormalized(); z.Normalize(); VH_CHECK(zn == Point(0, 0, 0) && z == Point(0, 0, 0), "point/normalize-zero", "the zero vector did not stay zero"); }
  { // the angle, also for vectors that are multiples of each other
    Point d = r.b(0.3) ? r.u(-2, 2) * a : b;
    double ang = a.GetAngle(d);
    V D = v(d);
    ld ref = (norm(A) == 0 || norm(D) == 0) ? 0.0L : std::atan2(norm(cross(A, D)), dot(A, D));
    VH_CHECK(std::fabs(ang - (double)ref) <= 1e-7, "point/angle", "%.17g, expected %.17Lg, between (%.17g %.17g %.17g) and (%.17g %.17g %.17g)", ang, ref, a.x, a.y, a.z, d.x, d.y, d.z);
    vh::stat(std::fabs((double)ref) < 1e-9 || std::fabs((double)ref - M_PI) < 1e-9 ? "angles of parallel vectors" : "angles");
  }
  { ld ref = (C.x - B.x) * (A.y - B.y) - (A.x - B.x) * (C.y - B.y); double got = a.LeftFromLineXY(b, c);
    VH_CHECK(std::fabs(got - (double)ref) <= e2, "point/left", "%.17g, expected %.17Lg", got, ref); }
  { double tol = r.pick<double>({1e-6, 1e-3, 0.1}); Point q = a; double k = r.pick<double>({0, 0.5, 0.9, 1.1, 2});
    double* cs[3] = {&q.x, &q.y, &q.z}; double base[3] = {a.x, a.y, a.z}; int j = (int)r.i(0, 2); double s = r.b() ? 1 : -1;
    *cs[j] += s * k * tol * std::max(1.0, std::fabs(base[j]));
    // q.IsEqual(a): the tolerance is relative to the right-hand side for coordinates above one
    bool ref = std::fabs(*cs[j] - base[j]) <= tol * std::max(1.0, std::fabs(base[j]));
    VH_CHECK(q.IsEqual(a, tol) == ref, "point/isequal", "coordinate %d differs by %g times the tolerance %g: %d", j, k, tol, (int)q.IsEqual(a, tol)); }
  { std::vector<Point> l; long n = r.i(0, 6); for (long i = 0; i < n; i++) l.push_back(pt(r, f));
    bool in = r.b(); if (in && n) l[r.i(0, n - 1)] = a; else { in = false; for (auto& p : l) in = in || p == a; }
    VH_CHECK(a.IsInList(l) == in, "point/inlist", "%d of %ld", (int)in, n);
    ld len = 0; for (long i = 1; i < n; i++) len += norm(v(l[i]) - v(l[i - 1]));
    VH_CHECK(std::fabs(Point::CalculatePointVectorLength(l) - (double)len) <= 30 * e1, "point/veclength", "%.17g, expected %.17Lg for %ld points", Point::CalculatePointVectorLength(l), len, n); }
  { ld det = dot(C, cross(A, B));
    if (std::fabs(det) > 1e-3L * norm(A) * norm(B) * norm(C)) {
      double d; Point s1, s2, s3; NRLibPrivate::Matrix3DInverse(a, b, c, d, s1, s2, s3);
      VH_CHECK(std::fabs(d - (double)det) <= e3, "point/det", "%.17g, expected %.17Lg", d, det);
      // s is the inverse of the matrix with rows a, b, c
      V rows[3] = {A, B, C}; V cols[3] = {{s1.x, s2.x, s3.x}, {s1.y, s2.y, s3.y}, {s1.z, s2.z, s3.z}};
      double worst = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) worst = std::max(worst, std::fabs((double)(dot(rows[i], cols[j]) - (i == j))));
      VH_CHECK(worst <= 1e-9, "point/inverse", "the inverse is off by %g", worst);
    } }
  // transformations: applied one after the other
  { Transformation T; std::vector<std::pair<int, std::pair<double, double>>> ops; long n = r.i(0, 6); ld mm[3]; V P = A; ld grow = norm(A) + 1;
    for (long i = 0; i < n; i++) {
      int op = (int)r.i(0, 14); double p = r.u(-2, 2), q = r.u(-2, 2); if (op < 3) p *= f.scale;
      Transformation* ret = 0; V O = P; ld cc = std::cos((ld)p), ss = std::sin((ld)p);
      switch (op) {
        case 0: ret = &T.TranslateX(p); P.x += p; break;
        case 1: ret = &T.TranslateY(p); P.y += p; break;
        case 2: ret = &T.TranslateZ(p); P.z += p; break;
        case 3: ret = &T.StretchX(p); P.x *= p; break;
        case 4: ret = &T.StretchY(p); P.y *= p; break;
        case 5: ret = &T.StretchZ(p); P.z *= p; break;
        case 6: ret = &T.RotateX(p); P.y = cc * O.y - ss * O.z; P.z = ss * O.y + cc * O.z; break;
        case 7: ret = &T.RotateY(p); P.x = cc * O.x + ss * O.z; P.z = -ss * O.x + cc * O.z; break;
        case 8: ret = &T.RotateZ(p); P.x = cc * O.x - ss * O.y; P.y = ss * O.x + cc * O.y; break;
        case 9: ret = &T.ShearXY(p, q); P.x += p * O.z; P.y += q * O.z; break;
        case 10: ret = &T.ShearXZ(p, q); P.x += p * O.y; P.z += q * O.y; break;
        case 11: ret = &T.ShearYZ(p, q); P.y += p * O.x; P.z += q * O.x; break;
        case 12: ret = &T.MirrorXY(); P.z = -P.z; break;
        case 13: ret = &T.MirrorXZ(); P.y = -P.y; break;
        case 14: ret = &T.MirrorYZ(); P.x = -P.x; break;
      }
      (void)mm; grow = (grow + std::fabs((ld)p)) * 6;
      VH_CHECK(ret == &T, "transform/chain", "operation %d does not return the transformation itself", op);
      vh::stat("transformation steps");
    }
    Point g = a; T.Transform(g);
    VH_CHECK(dist(g, P) <= 1e-13 * (double)grow, "transform", "(%.17g %.17g %.17g), expected (%.17Lg %.17Lg %.17Lg) after %ld operations", g.x, g.y, g.z, P.x, P.y, P.z, n); }
}

// ---------------------------------------------------------------- lines
// nearest parameter on a line with optional ends
static ld clampt(ld t, bool e1, bool e2) { if (e1 && t < 0) return 0; if (e2 && t > 1) return 1; return t; }
struct L { V p, d; bool e1, e2; };
static ld lineDist(const L& a, const L& b)
{
  // minimum over the interior critical point and all clamped combinations
  ld best = -1;
  auto upd = [&](ld s, ld t) { ld q = norm((a.p + s * a.d) - (b.p + t * b.d)); if (best < 0 || q < best) best = q; };
  ld aa = dot(a.d, a.d), bb = dot(a.d, b.d), cc = dot(b.d, b.d); V w = a.p - b.p; ld d = dot(a.d, w), e = dot(b.d, w);
  ld D = aa * cc - bb * bb;
  if (D > 1e-12L * aa * cc && D > 0) { ld s = (bb * e - cc * d) / D, t = (aa * e - bb * d) / D; if (!(a.e1 && s < 0) && !(a.e2 && s > 1) && !(b.e1 && t < 0) && !(b.e2 && t > 1)) upd(s, t); }
  auto onA = [&](ld t) { V q = b.p + t * b.d; ld s = aa > 0 ? dot(a.d, q - a.p) / aa : 0; upd(clampt(s, a.e1, a.e2), t); };
  auto onB = [&](ld s) { V q = a.p + s * a.d; ld t = cc > 0 ? dot(b.d, q - b.p) / cc : 0; upd(s, clampt(t, b.e1, b.e2)); };
  // ends, and (parallel lines) the defining points as far as they are on the lines
  onA(0); onA(1); onB(0); onB(1);
  return best;
}
static void modeLine(vh::Rng& r, long)
{
  Frame f = frame(r); double M = mag(f);
  Point p1 = pt(r, f), p2 = pt(r, f), q1 = pt(r, f), q2 = pt(r, f);
  bool zero = r.b(0.06);
  bool flat = r.b(0.3); if (flat) p2.z = q1.z = q2.z = p1.z;
  if (zero) p2 = p1;
  if (zero ? false : (p1 == p2)) p2.x += f.scale;
  int kind = zero ? 0 : (int)r.i(0, 3), kq = (int)r.i(0, 3);
  auto mk = [&](const Point& a, const Point& b, int k) { return k == 0 ? Line::Segment(a, b) : k == 1 ? Line::Ray(a, b - a) : k == 2 ? Line::InfiniteLine(a, b - a) : Line(a, b, false, true); };
  if (q1 == q2) q2.y += f.scale;
  bool par = false;
  if (f.dyadic && r.b(0.3) && !zero) { double k = r.pick<double>({-2, -1, -0.5, 0.5, 1, 2, 4}); q2 = q1 + k * (p2 - p1); par = q2 != q1; if (!par) q2.x += f.scale; }
  Line a = mk(p1, p2, kind), b = mk(q1, q2, kq);
  vh::sig(psig(p1, p2, q1, 100 + kind * 4 + kq));
  vh::stat("line pairs"); if (par) vh::stat("parallel line pairs"); if (zero) vh::stat("zero-length segments");
  bool e1 = kind == 0 || kind == 1, e2 = kind == 0 || kind == 3, f1 = kq == 0 || kq == 1, f2 = kq == 0 || kq == 3;
  Point g1, g2;
  VH_CHECK(a.IsEndPt1() == e1 && a.IsEndPt2() == e2 && a.GetPt1(g1) == e1 && a.GetPt2(g2) == e2 && dist(g1, v(a.GetPt1())) == 0 && dist(g2, v(a.GetPt2())) == 0, "line/ends", "kind %d", kind);
  V A = v(a.GetPt1()), B = v(a.GetPt2()), d = B - A, C = v(b.GetPt1()), E = v(b.GetPt2()) - C;
  ld len = norm(d), lenq = norm(E);
  VH_CHECK(dist(a.GetPt1(), v(p1)) == 0 && dist(a.GetPt2(), v(p2)) <= 1e-15 * M * 4, "line/points", "the defining points changed");
  VH_CHECK(kind == 0 ? std::fabs(a.GetLength() - (double)len) <= 1e-13 * M : std::isinf(a.GetLength()), "line/length", "%.17g, expected %.17Lg, kind %d", a.GetLength(), len, kind);
  { Line s; s.SetPt(p1, p2, e1, e2); VH_CHECK(s.GetPt1() == p1 && s.GetPt2() == p2 && s.IsEndPt1() == e1 && s.IsEndPt2() == e2, "line/setpt", "SetPt");
    if (p1.x != p2.x || p1.y != p2.y) { Line xy = a.LineXY(); VH_CHECK((xy.GetPt1().x == p1.x && xy.GetPt1().y == p1.y && xy.GetPt1().z == 0 && xy.GetPt2().z == 0 && xy.IsEndPt1() == e1 && xy.IsEndPt2() == e2), "line/xy", "LineXY"); } }
  if (!zero && len < 1e-6L * f.scale) return;
  if (lenq < 1e-6L * f.scale) return;
  { Point x = pt(r, f); int w = (int)r.i(0, 3);
    if (w == 1 && !zero) x = a.GetPt1() + r.u(-2, 3) * (a.GetPt2() - a.GetPt1());   // on the line or its extension
    if (w == 2) x = r.b() ? p1 : p2;
    V X = v(x); ld t = zero ? 0 : dot(d, X - A) / (len * len); ld tc = clampt(t, e1, e2); V P = A + tc * d;
    double tol = 1e-10 * M * (double)(1 + (zero ? 0 : f.scale / len));
    Point pr = a.FindProjection(x);
    VH_CHECK(dist(pr, P) <= tol, "line/projection", "(%.17g %.17g %.17g), expected (%.17Lg %.17Lg %.17Lg), kind %d t %.17Lg", pr.x, pr.y, pr.z, P.x, P.y, P.z, kind, t);
    double di = a.FindDistance(x); ld rd = norm(X - P);
    VH_CHECK(std::fabs(di - (double)rd) <= tol, "line/distance", "%.17g, expected %.17Lg, kind %d t %.17Lg", di, rd, kind, t);
    if (!zero) VH_CHECK(std::fabs(a.FindParameter(x) - (double)t) <= 1e-9 * (1 + M / (double)len), "line/parameter", "%.17g, expected %.17Lg", a.FindParameter(x), t);
    for (double mn : {1e-6, 0.5 * f.scale}) if (std::fabs((double)rd - mn) > 4 * tol + 1e-9 * mn) VH_CHECK(a.IsPointOnLine(x, mn) == (rd < mn), "line/onpoint", "distance %.17Lg, limit %g: %d", rd, mn, (int)a.IsPointOnLine(x, mn));
    bool right; double ds = a.FindDistanceAndSide(x, right);
    // right of the direction, in the horizontal plane
    V side = cross(X - A, d);
    VH_CHECK(std::fabs(ds - di) <= tol, "line/distance-side", "%.17g and %.17g", ds, di);
    bool horiz = std::fabs(d.z) == 0 && std::fabs(X.z - A.z) == 0;
    if (horiz && std::fabs(side.z) > 1e-6L * len * f.scale) { VH_CHECK(right == (side.z > 0), "line/side", "right %d, cross %.17Lg, kind %d, t %.17Lg", (int)right, side.z, kind, t); vh::stat("sides of lines"); } }
  // line to line
  { ld sn = zero ? 0 : norm(cross((1 / len) * d, (1 / lenq) * E));
    bool wellc = par || zero || sn > 1e-2L;
    if (wellc) {
      L la = {A, d, e1, e2}, lb = {C, E, f1, f2};
      ld ref = lineDist(la, lb); Point u1, u2; double tol = 1e-7 * M * (1 + f.scale / (double)(zero ? lenq : std::min(len, lenq)));
      double got = a.FindDistance(b, u1, u2);
      VH_CHECK(std::fabs(got - (double)ref) <= tol && std::fabs(a.FindDistance(b) - got) <= 1e-15 * M, "line/linedist", "%.17g, expected %.17Lg, kinds %d %d, parallel %d, zero %d", got, ref, kind, kq, (int)par, (int)zero);
      VH_CHECK(std::fabs((double)norm(v(u1) - v(u2)) - got) <= tol, "line/nearest-points", "the nearest points are %.17Lg apart, the distance is %.17g", norm(v(u1) - v(u2)), got);
      // and they are on the two lines
      ld t1 = zero ? 0 : clampt(dot(d, v(u1) - A) / (len * len), e1, e2), t2 = clampt(dot(E, v(u2) - C) / (lenq * lenq), f1, f2);
      VH_CHECK(dist(u1, A + t1 * d) <= tol && dist(u2, C + t2 * E) <= tol, "line/nearest-on-line", "the nearest points are not on the lines (%.3g, %.3g)", dist(u1, A + t1 * d), dist(u2, C + t2 * E));
      double back = b.FindDistance(a);
      VH_CHECK(std::fabs(back - (double)ref) <= tol, "line/linedist-swapped", "%.17g, expected %.17Lg, kinds %d %d, parallel %d, zero %d", back, ref, kq, kind, (int)par, (int)zero);
      if (!zero) {
        double mn = r.pick<double>({1e-6, 1e-3}); if (std::fabs((double)sn - mn) > 1e-12) VH_CHECK(a.IsParallel(b, mn) == (sn < mn), "line/parallel", "sine %.17Lg, limit %g", sn, mn);
        if (par && f.scale < 4) { ld q[4] = {0, 0, 0, 0}; auto pd = [&](V x, V p, V dd, bool c1, bool c2) { ld t = clampt(dot(dd, x - p) / dot(dd, dd), c1, c2); return norm(x - (p + t * dd)); };
          q[0] = pd(C, A, d, e1, e2); q[1] = pd(C + E, A, d, e1, e2); q[2] = pd(A, C, E, f1, f2); q[3] = pd(B, C, E, f1, f2);
          ld mi = std::min(std::min(q[0], q[1]), std::min(q[2], q[3]));
          if (mi < 1e-8L || mi > 1e-4L) VH_CHECK(a.IsOverLapping(b) == (mi < 1e-6L), "line/overlap", "nearest %.17Lg: %d", mi, (int)a.IsOverLapping(b)); }
        if (!par && sn > 1e-2L) VH_CHECK(!a.IsOverLapping(b), "line/overlap-crossing", "lines that are not parallel overlap");
      } } }
  // crossings in the horizontal plane, for segments
  if (!zero) {
    Line s = Line::Segment(p1, p2), q = Line::Segment(q1, q2); Point ip(7, 7, 7);
    V u = {(ld)p2.x - p1.x, (ld)p2.y - p1.y, 0}, w = {(ld)q2.x - q1.x, (ld)q2.y - q1.y, 0}, o = {(ld)q1.x - p1.x, (ld)q1.y - p1.y, 0};
    ld den = u.x * w.y - u.y * w.x, lu = norm(u), lw = norm(w);
    if (lu > 0.1L * f.scale && lw > 0.1L * f.scale && std::fabs(den) > 1e-2L * lu * lw) {
      ld t1 = (o.x * w.y - o.y * w.x) / den, t2 = (o.x * u.y - o.y * u.x) / den; ld mg = 1e-9L * M * M / (lu * lw);
      auto clear = [&](ld t) { return std::fabs(t) > mg && std::fabs(t - 1) > mg; }; auto in = [&](ld t) { return t > 0 && t < 1; };
      V X = {p1.x + t1 * u.x, p1.y + t1 * u.y, 0};
      double tol = 1e-11 * M * M / (double)std::min(lu, lw) * 100;
      if (clear(t1) && clear(t2)) { bool ref = in(t1) && in(t2), got = s.IntersectXY(q, ip);
        VH_CHECK(got == ref, "line/crossxy", "%d, expected %d at %.9Lg %.9Lg", (int)got, (int)ref, t1, t2);
        VH_CHECK(dist(ip, ref ? X : V{0, 0, 0}) <= tol, "line/crossxy-point", "(%.17g %.17g %.17g), expected (%.17Lg %.17Lg), crossing %d", ip.x, ip.y, ip.z, X.x, X.y, (int)ref); vh::stat(ref ? "crossing segments" : "segments that do not cross"); }
      if (clear(t2)) { bool got = s.IntersectXY(q, ip, true), ref = in(t2); VH_CHECK(got == ref && dist(ip, ref ? X : V{0, 0, 0}) <= tol * (1 + (double)std::fabs(t1)), "line/crossxy-infinite", "%d, expected %d at %.9Lg %.9Lg", (int)got, (int)ref, t1, t2); }
    } else if (par && den == 0) { VH_CHECK(!s.IntersectXY(q, ip) && ip == Point(0, 0, 0), "line/crossxy-parallel", "parallel lines cross"); }
  }
}

// ---------------------------------------------------------------- planes, triangles, bilinear
static void modePlane(vh::Rng& r, long)
{
  Frame f = frame(r); double M = mag(f);
  Point a = pt(r, f), b = pt(r, f), c = pt(r, f);
  V A = v(a), B = v(b), C = v(c); V n = cross(B - A, C - A);
  ld area = norm(n), side = std::max(norm(B - A), std::max(norm(C - A), norm(C - B)));
  if (area < 1e-3L * f.scale * f.scale || area < 1e-2L * side * side) return;
  n = (1 / area) * n;
  vh::sig(psig(a, b, c, 7)); vh::stat("planes and triangles");
  double tol = 1e-9 * M;
  Plane pl = r.b() ? Plane(a, b, c) : Plane(a, r.u(0.1, 5) * Point((double)n.x, (double)n.y, (double)n.z));
  Point nv = pl.GetNormalVector();
  VH_CHECK(std::fabs(nv.Norm() - 1) < 1e-13 && std::fabs(std::fabs((double)dot(v(nv), n)) - 1) < 1e-9, "plane/normal", "(%.17g %.17g %.17g), expected (%.17Lg %.17Lg %.17Lg) or its opposite", nv.x, nv.y, nv.z, n.x, n.y, n.z);
  ld sgn = dot(v(nv), n) > 0 ? 1 : -1;
  VH_CHECK(std::fabs((double)dot(v(pl.GetRefPoint()) - A, n)) < tol, "plane/ref", "the reference point is not on the plane");
  for (int i = 0; i < 2; i++) {
    Point x = pt(r, f); if (r.b(0.2)) { double s = r.u(-1, 2), t = r.u(-1, 2); x = a + s * (b - a) + t * (c - a); }
    ld h = dot(v(x) - A, n); V P = v(x) - h * n;
    VH_CHECK(dist(pl.FindProjection(x), P) <= tol, "plane/projection", "off by %g", dist(pl.FindProjection(x), P));
    VH_CHECK(std::fabs(pl.FindDistance(x) - std::fabs((double)h)) <= tol, "plane/distance", "%.17g, expected %.17Lg", pl.FindDistance(x), h);
    if (std::fabs((double)h) > 3 * tol) VH_CHECK(pl.IsOnPositiveSide(x) == (sgn * h > 0), "plane/side", "height %.17Lg: %d", sgn * h, (int)pl.IsOnPositiveSide(x));
    double mn = 0.3 * f.scale; if (std::fabs(std::fabs((double)h) - mn) > 3 * tol) VH_CHECK(pl.IsPointOnPlane(x, mn) == (std::fabs(h) <= mn), "plane/onplane", "height %.17Lg limit %g", h, mn);
    // lines
    Point y = pt(r, f); if (x == y) continue; int k = (int)r.i(0, 3); Line l(x, y, k & 1, k & 2);
    V d = v(y) - v(x); ld dn = dot(d, n);
    if (std::fabs(dn) > 1e-2L * norm(d) && norm(d) > 1e-2L * f.scale) {
      ld t = -h / dn; V X = v(x) + t * d; double lt = 1e-7 * M * (double)(1 + std::fabs(t)) * (1 + (double)(f.scale / norm(d))); Point ip;
      VH_CHECK(dist(pl.FindIntersection(l), X) <= lt, "plane/line", "off by %g at t %.9Lg", dist(pl.FindIntersection(l), X), t);
      if (std::fabs(t) > 1e-6L && std::fabs(t - 1) > 1e-6L) { bool ref = !((k & 1) && t < 0) && !((k & 2) && t > 1), got = pl.FindIntersection(l, ip);
        VH_CHECK(got == ref && (!got || dist(ip, X) <= lt), "plane/line-ends", "%d, expected %d at t %.9Lg, ends %d", (int)got, (int)ref, t, k); }
      VH_CHECK(!pl.IsParallel(l, 1e-6 * (double)norm(d)), "plane/parallel", "a line at an angle is parallel");
    }
    Point z = x + Point((double)(d - dn * n).x, (double)(d - dn * n).y, (double)(d - dn * n).z); if (z != x && norm(d - dn * n) > 0.1L * f.scale) { Point ip; VH_CHECK(pl.IsParallel(Line(x, z, false, false), tol) && !pl.FindIntersection(Line(x, z, false, false), ip, tol), "plane/parallel-line", "a parallel line is not parallel"); }
  }
  { Point x = pt(r, f), y = pt(r, f), z = pt(r, f); V m = cross(v(y) - v(x), v(z) - v(x)); ld ma = norm(m), sd = std::max(norm(v(y) - v(x)), norm(v(z) - v(x)));
    if (ma > 0.05L * sd * sd && ma > 1e-3L * f.scale * f.scale && f.ox == 0 && f.oy == 0 && f.oz == 0) { m = (1 / ma) * m; Plane p2(x, y, z); ld s = norm(cross(n, m));
      if (s > 0.05L) { Line l = pl.FindIntersection(p2); double lt = 1e-8 * M / (double)(s * s) * 10; vh::stat("plane-plane lines");
        VH_CHECK(!l.IsEndPt1() && !l.IsEndPt2() && norm(v(l.GetPt2()) - v(l.GetPt1())) > 0.01L, "plane/plane", "the intersection is not an infinite line");
        for (double q : {0.0, 1.0, -2.0}) { V X = v(l.GetPt1()) + (ld)q * (v(l.GetPt2()) - v(l.GetPt1())); VH_CHECK(std::fabs((double)dot(X - A, n)) < lt && std::fabs((double)dot(X - v(x), m)) < lt, "plane/plane-line", "a point of the line is %.3Lg and %.3Lg off the planes", dot(X - A, n), dot(X - v(x), m)); } } } }
  // triangle
  Triangle tr; if (r.b()) tr = Triangle(a, b, c); else tr.SetCornerPoints(a, b, c);
  for (int i = 0; i < 3; i++) {
    double s = r.u(-0.4, 1.2), t = r.u(-0.4, 1.2); V X = A + (ld)s * (B - A) + (ld)t * (C - A);
    V d = {r.n(), r.n(), r.n()}; d = (f.scale / norm(d)) * d; if (std::fabs(dot(d, n)) < 0.1L * norm(d)) continue;
    ld w = r.u(-2, 2), w2 = w + r.u(0.3, 2.5); V P = X + w * d, Q = X + w2 * d; Point p((double)P.x, (double)P.y, (double)P.z), q((double)Q.x, (double)Q.y, (double)Q.z);
    int k = (int)r.i(0, 3); Line l(p, q, k & 1, k & 2); ld tt = -w / (w2 - w);
    double edge = std::min(std::min(std::fabs(s), std::fabs(t)), std::fabs(1 - s - t)); if (edge < 1e-4 || std::fabs((double)tt) < 1e-4 || std::fabs((double)tt - 1) < 1e-4 || M > 1e4 * f.scale) continue;
    bool inside = s > 0 && t > 0 && s + t < 1, ref = inside && !((k & 1) && tt < 0) && !((k & 2) && tt > 1);
    for (int e = 0; e < 2; e++) { Point ip; bool got = tr.FindIntersection(l, ip, e); vh::stat(ref ? "lines through triangles" : "lines past triangles");
      VH_CHECK(got == ref && (!ref || dist(ip, X) <= 1e-7 * M), "triangle/line", "%d, expected %d at %.9g %.9g, t %.9Lg, ends %d", (int)got, (int)ref, s, t, tt, k); }
    Line inf(p, q, false, false); Point near; double got = tr.FindNearestPoint(inf, near);
    ld rd = 0; if (!inside) { rd = -1; V cs[4] = {A, B, C, A}; for (int j = 0; j < 3; j++) { L e = {cs[j], cs[j + 1] - cs[j], true, true}, m = {v(p), v(q) - v(p), false, false}; ld x = lineDist(e, m); if (rd < 0 || x < rd) rd = x; } }
    bool cond = true; V dd = v(q) - v(p); V cs[4] = {A, B, C, A}; for (int j = 0; j < 3; j++) if (norm(cross(cs[j + 1] - cs[j], dd)) < 0.02L * norm(cs[j + 1] - cs[j]) * norm(dd)) cond = false;
    if (cond) { double lt = 1e-6 * M; VH_CHECK(std::fabs(got - (double)rd) <= lt, "triangle/nearest", "%.17g, expected %.17Lg (inside %d)", got, rd, (int)inside);
      ld off = norm(cross(v(near) - v(p), dd)) / norm(dd); VH_CHECK(std::fabs((double)off - got) <= lt && std::fabs((double)dot(v(near) - A, n)) <= lt, "triangle/nearest-point", "the nearest point is %.9Lg from the line and %.9Lg off the triangle, distance %.9g", off, dot(v(near) - A, n), got); }
  }
  // bilinear surfaces
  { Point e = pt(r, f); BilinearSurface s(a, b, c, e), s2; s2.SetCornerPoints(a, b, c, e); BilinearSurface s3; s3.SetPtVector(a, b - a, e - a, (c - e) - (b - a));
    for (int i = 0; i < 3; i++) { double uu = i == 0 ? r.i(0, 1) : r.u(), w = i == 0 ? r.i(0, 1) : r.u(); V X = (1.0L - uu) * ((1.0L - w) * A + (ld)w * v(e)) + (ld)uu * ((1.0L - w) * B + (ld)w * C);
      VH_CHECK(dist(s.GetPoint(uu, w), X) <= 1e-13 * M * 10 && dist(s2.GetPoint(uu, w), X) <= 1e-13 * M * 10 && dist(s3.GetPoint(uu, w), X) <= 1e-13 * M * 10, "bilinear/point", "off by %g at (%g, %g)", dist(s.GetPoint(uu, w), X), uu, w); } }
  { // above or below, inside the surface's own extent, for a surface over a parallelogram
    double x1 = f.scale * r.u(0.5, 2), y2 = f.scale * r.u(0.5, 2), z1 = f.scale * r.u(-1, 1), z2 = f.scale * r.u(-1, 1), z3 = r.b(0.2) ? 0 : f.scale * r.u(0.2, 1) * (r.b() ? 1 : -1);
    if (f.scale < 1) return; Transformation T; double az = r.u(-3, 3); T.RotateZ(az); auto rot = [&](Point p) { T.Transform(p); return p; };
    Point o = a, c10 = o + rot(Point(x1, 0, z1)), c01 = o + rot(Point(0, y2, z2)), c11 = o + rot(Point(x1, y2, z1 + z2 + z3));
    BilinearSurface s(o, c10, c11, c01); double uu = r.u(0.01, 0.99), w = r.u(0.01, 0.99), h = f.scale * r.u(0.01, 2) * (r.b() ? 1 : -1);
    Point p = s.GetPoint(uu, w); p.z += h; if (M < 1e5) { VH_CHECK(s.IsAbove(p) == (h > 0), "bilinear/above", "height %g: %d at (%g, %g), twist %g", h, (int)s.IsAbove(p), uu, w, z3); vh::stat("points above or below bilinear surfaces"); } }
}

// ---------------------------------------------------------------- polygons
static void modePoly(vh::Rng& r, long)
{
  Frame f = frame(r); double M = mag(f);
  // star-shaped around a centre: sorted angles, varying radii
  int n = (int)r.i(3, r.b(0.2) ? 30 : 9); int shape = (int)r.i(0, 2);  // 0 convex (on an ellipse), 1 star-shaped, 2 rectangle
  double cx = f.ox + f.scale * r.u(-1, 1), cy = f.oy + f.scale * r.u(-1, 1), z = r.b(0.5) ? 0 : f.oz, ea = r.u(0.3, 3), rot = r.u(0, 6.3);
  std::vector<double> an; for (int i = 0; i < n; i++) an.push_back((i + r.u(0.15, 0.85)) * 2 * M_PI / n);
  std::vector<Point> ps;
  if (shape == 2) { n = 4; double w = f.scale * r.u(0.2, 3), h = f.scale * r.u(0.2, 3); if (r.b(0.3)) rot = r.i(0, 3) * M_PI / 2; double q[4][2] = {{-w, -h}, {w, -h}, {w, h}, {-w, h}};
    for (auto& k : q) { double x = k[0] * std::cos(rot) - k[1] * std::sin(rot), y = k[0] * std::sin(rot) + k[1] * std::cos(rot); if (std::fmod(rot, M_PI / 2) == 0) { x = std::round(x * 1e6) / 1e6; y = std::round(y * 1e6) / 1e6; } ps.push_back(Point(cx + x, cy + y, z)); } }
  else for (int i = 0; i < n; i++) { double rad = f.scale * (shape == 0 ? 1.5 : r.u(0.4, 2)), x = rad * std::cos(an[i]) * ea, y = rad * std::sin(an[i]); ps.push_back(Point(cx + x * std::cos(rot) - y * std::sin(rot), cy + x * std::sin(rot) + y * std::cos(rot), z)); }
  bool ccw = r.b(0.6); if (!ccw) std::reverse(ps.begin(), ps.end());
  std::rotate(ps.begin(), ps.begin() + r.i(0, n - 1), ps.end());
  Polygon pg; if (r.b()) for (auto& p : ps) pg.AddPoint(p); else { pg = Polygon(ps.size()); for (size_t i = 0; i < ps.size(); i++) pg[i] = ps[i]; }
  vh::sig(psig(ps[0], ps[1], ps[2], n * 4 + shape)); vh::stat("polygons"); vh::stat(shape == 0 ? "convex polygons" : shape == 1 ? "star-shaped polygons" : "rectangles");
  VH_CHECK(pg.GetSize() == ps.size(), "poly/size", "%zu of %zu", pg.GetSize(), ps.size());
  { std::vector<Point> g, h; pg.GetPoints(g); pg.GetPoints(h, true); bool same = g.size() == ps.size() && h.size() == ps.size() + 1; for (size_t i = 0; same && i < ps.size(); i++) same = g[i] == ps[i] && h[i] == ps[i] && pg(i) == ps[i]; VH_CHECK(same && h.back() == ps[0], "poly/points", "the points changed"); const Polygon& cp = pg; std::vector<Point> k, l; cp.GetPoints(k); cp.GetPoints(l, true); VH_CHECK(k == g && l == h, "poly/const-points", "the points changed"); }
  VH_CHECK(pg.IsCounterclockwise() == ccw, "poly/orientation", "%d for %d points around (%.9g, %.9g)", (int)pg.IsCounterclockwise(), n, cx, cy);
  { double a, b, c, d; pg.XYExtent(a, b, c, d); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : ps) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } VH_CHECK(a == x0 && b == x1 && c == y0 && d == y1, "poly/extent", "[%g %g] [%g %g], expected [%g %g] [%g %g]", a, b, c, d, x0, x1, y0, y1); }
  { size_t i = r.i(0, n - 1), j = r.i(0, n - 1); VH_CHECK(pg.FindPointPosition(ps[i]) == i && pg.FindPointPosition(Point(cx, cy, z + 1)) == (size_t)n, "poly/position", "position of point %zu", i);
    std::vector<ld> e; ld circ = 0; for (int k = 0; k < n; k++) { e.push_back(norm(v(ps[(k + 1) % n]) - v(ps[k]))); circ += e.back(); }
    VH_CHECK(std::fabs(pg.GetCircumferenceXY() - (double)circ) <= 1e-13 * M * n * 4, "poly/circumference", "%.17g, expected %.17Lg", pg.GetCircumferenceXY(), circ);
    ld along = 0; for (size_t k = std::min(i, j); k < std::max(i, j); k++) along += e[k]; ld ref = std::min(along, circ - along);
    VH_CHECK(std::fabs(pg.DistanceBetweenPointsXY(i, j) - (double)ref) <= 1e-13 * M * n * 8, "poly/distance-along", "%.17g, expected %.17Lg between %zu and %zu of %d", pg.DistanceBetweenPointsXY(i, j), ref, i, j, n); }
  auto orient = [&](const Point& a, const Point& b, const Point& c) { return ((ld)b.x - a.x) * ((ld)c.y - a.y) - ((ld)b.y - a.y) * ((ld)c.x - a.x); };
  // inside or outside: by the angle of each edge as seen from the point
  for (int k = 0; k < 6; k++) { double x, y; int how = (int)r.i(0, 3); if (how == 0) { x = cx + f.scale * r.u(-7, 7); y = cy + f.scale * r.u(-4, 4); } else if (how == 1) { x = cx + f.scale * r.u(-2, 2); y = ps[r.i(0, n - 1)].y; } else if (how == 2) { const Point& p = r.pick(ps); double s = r.u(0.8, 1.2); x = cx + s * (p.x - cx); y = cy + s * (p.y - cy); } else { x = cx + f.scale * r.u(-1.5, 1.5); y = cy + f.scale * r.u(-1.5, 1.5); }
    ld wind = 0, near = 1e300L; for (int i = 0; i < n; i++) { const Point &a = ps[i], &b = ps[(i + 1) % n]; ld ax = a.x - x, ay = a.y - y, bx = b.x - x, by = b.y - y; wind += std::atan2(ax * by - ay * bx, ax * bx + ay * by); ld ex = bx - ax, ey = by - ay, t = -(ax * ex + ay * ey) / (ex * ex + ey * ey); t = t < 0 ? 0 : t > 1 ? 1 : t; near = std::min(near, std::hypot(ax + t * ex, ay + t * ey)); }
    if (near < 1e-9L * M) continue; bool ref = std::fabs(wind) > 3; VH_CHECK(pg.IsInsidePolygonXY(x, y) == ref && pg.IsInsidePolygonXY(Point(x, y, 5)) == ref, "poly/inside", "%d, expected %d, %.3Lg from the nearest edge", (int)pg.IsInsidePolygonXY(x, y), (int)ref, near); vh::stat(ref ? "points inside" : "points outside"); }
  // convexity, and making it convex
  bool clear = true, convex = true; for (int i = 0; i < n; i++) { const Point &a = ps[i], &b = ps[(i + 1) % n], &c = ps[(i + 2) % n]; ld o = orient(a, b, c) * (ccw ? 1 : -1); if (std::fabs(o) < 1e-9L * M * f.scale) clear = false; if (o < 0) convex = false; }
  if (clear) { VH_CHECK(pg.IsConvex() == convex, "poly/convex", "%d, expected %d, %d points", (int)pg.IsConvex(), (int)convex, n);
    // convex hull, in the original order: the points not inside or on a segment of the others
    std::vector<int> hull; bool hclear = true; for (int i = 0; i < n; i++) { bool isin = false; for (int j = 0; j < n && !isin; j++) for (int k = j + 1; k < n && !isin; k++) for (int l = k + 1; l < n && !isin; l++) { if (j == i || k == i || l == i) continue; ld o1 = orient(ps[j], ps[k], ps[i]), o2 = orient(ps[k], ps[l], ps[i]), o3 = orient(ps[l], ps[j], ps[i]); ld lim = 1e-9L * M * f.scale; if (std::fabs(o1) < lim || std::fabs(o2) < lim || std::fabs(o3) < lim) { hclear = false; } if ((o1 > 0) == (o2 > 0) && (o2 > 0) == (o3 > 0)) isin = true; } if (!isin) hull.push_back(i); }
    if (hclear && n <= 12) { Polygon c = pg; c.MakeConvex(); bool same = c.GetSize() == hull.size(); for (size_t i = 0; same && i < hull.size(); i++) same = c[i] == ps[hull[i]]; vh::stat(convex ? "polygons that are convex" : "polygons made convex");
      VH_CHECK(same, "poly/makeconvex", "%zu points, the convex hull has %zu (of %d, shape %d)", c.GetSize(), hull.size(), n, shape); }
    if (convex) {
      // smallest enclosing rectangle: one side along an edge
      if (ccw && M < 1e4 * f.scale) { double x, y, l1, l2, ang = 99; pg.MinEnclosingRectangle(x, y, l1, l2, ang); ld best = -1; for (int i = 0; i < n; i++) { V e = v(ps[(i + 1) % n]) - v(ps[i]); e = (1 / norm(e)) * e; ld a0 = 1e300L, a1 = -1e300L, b0 = 1e300L, b1 = -1e300L; for (auto& p : ps) { ld s = p.x * e.x + p.y * e.y, t = -p.x * e.y + p.y * e.x; a0 = std::min(a0, s); a1 = std::max(a1, s); b0 = std::min(b0, t); b1 = std::max(b1, t); } ld ar = (a1 - a0) * (b1 - b0); if (best < 0 || ar < best) best = ar; }
        double S = f.scale * 6; VH_CHECK(std::fabs(l1 * l2 - (double)best) <= 1e-3 * S * S * 0.1 && l1 > 0 && l2 > 0, "poly/rectangle-area", "%.17g by %.17g = %.9g, smallest %.9Lg (%d points, shape %d)", l1, l2, l1 * l2, best, n, shape);
        double ca = std::cos(ang), sa = std::sin(ang), mo = 0; for (auto& p : ps) { double s = (p.x - x) * ca + (p.y - y) * sa, t = -(p.x - x) * sa + (p.y - y) * ca; mo = std::max(mo, std::max(std::max(-s, s - l1), std::max(-t, t - l2))); }
        VH_CHECK(mo <= 1e-4 * S, "poly/rectangle-encloses", "a point is %.9g outside the rectangle at (%.9g, %.9g), %.9g by %.9g, angle %.9g", mo, x, y, l1, l2, ang); vh::stat("smallest rectangles"); }
      // tangents from a point outside
      if (ccw) { Point o; for (int k = 0; k < 10; k++) { double a = r.u(0, 6.3), d = f.scale * r.u(5, 9) * std::max(1.0, ea); o = Point(cx + d * std::cos(a), cy + d * std::sin(a), z); if (!pg.IsInsidePolygonXY(o)) break; }
        size_t rt = 0, lt = 0; pg.TangentPointPoly(o, rt, lt); bool good = rt < (size_t)n && lt < (size_t)n; ld lim = 1e-9L * M * f.scale;
        if (good) { for (auto& p : ps) { if (orient(o, ps[rt], p) * 1 < -lim) good = false; if (orient(o, ps[lt], p) > lim) good = false; }
          bool swapped = true; for (auto& p : ps) { if (orient(o, ps[lt], p) < -lim) swapped = false; if (orient(o, ps[rt], p) > lim) swapped = false; }
          VH_CHECK(good, "poly/tangent", "the tangents %zu and %zu of %d points do not enclose the polygon (swapped %d)", rt, lt, n, (int)swapped); vh::stat("tangents"); }
        else VH_CHECK(false, "poly/tangent-index", "%zu %zu of %d", rt, lt, n); }
    } }
}

// ---------------------------------------------------------------- boxes
static void modeBox(vh::Rng& r, long)
{
  Frame f = frame(r); double M = mag(f) + 6 * f.scale; Point ref = pt(r, f); double lx = f.scale * r.u(0.1, 3), ly = f.scale * r.u(0.1, 3), lz = f.scale * r.u(0.1, 3);
  bool axis = r.b(0.3); double ang = axis ? 0 : r.u(-4, 7);
  Box b = axis && r.b() ? Box(ref.x, ref.y, ref.z, ref.x + lx, ref.y + ly, ref.z + lz) : Box(ref, lx, ly, lz, ang);
  if (r.b(0.2)) { Box o; o.Swap(b); std::swap(o, b); }
  lx = b.GetLX(); ly = b.GetLY(); lz = b.GetLZ();
  vh::sig(psig(ref, Point(lx, ly, lz), Point(ang, 0, 0), 9)); vh::stat("boxes");
  VH_CHECK(b.GetXRef() == ref.x && b.GetYRef() == ref.y && b.GetZRef() == ref.z && b.GetAngle() == ang, "box/get", "the box has other numbers");
  ld ca = std::cos((ld)ang), sa = std::sin((ld)ang); double tol = 1e-12 * M;
  auto glob = [&](ld x, ld y, ld z) { return V{ref.x + x * ca - y * sa, ref.y + x * sa + y * ca, ref.z + z}; };
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { VH_CHECK(dist(b.GetCorner(i, j, k), glob(i * (ld)lx, j * (ld)ly, k * (ld)lz)) <= tol && b.GetCorner(i == 1, j == 1, k == 1) == b.GetCorner(i, j, k), "box/corner", "corner %d %d %d is off by %g", i, j, k, dist(b.GetCorner(i, j, k), glob(i * lx, j * ly, k * lz))); }
  auto comp = [&](double l) { int w = (int)r.i(0, 5); return w == 0 ? -f.scale * r.u(0.001, 2) : w == 1 ? l + f.scale * r.u(0.001, 2) : l * r.u(0.0005, 0.9995); };
  for (int q = 0; q < 6; q++) { double x = comp(lx), y = comp(ly), z = comp(lz); V P = glob(x, y, z); Point p((double)P.x, (double)P.y, (double)P.z);
    // distances to the six sides
    auto out = [](double a, double l) { return a < 0 ? -a : a > l ? a - l : 0.0; }; double ox = out(x, lx), oy = out(y, ly), oz = out(z, lz); bool in = ox == 0 && oy == 0 && oz == 0;
    double rd = in ? std::min(std::min(std::min(x, lx - x), std::min(y, ly - y)), std::min(z, lz - z)) : std::sqrt(ox * ox + oy * oy + oz * oz);
    if (rd < 100 * tol) continue;
    VH_CHECK(b.IsInside(p) == in, "box/inside", "%d, expected %d at (%g %g %g) in %g %g %g", (int)b.IsInside(p), (int)in, x, y, z, lx, ly, lz);
    // coordinates within rounding of a side may be assigned to either region; the distance is the same
    VH_CHECK(std::fabs(b.FindDistance(p) - rd) <= 10 * tol, "box/distance", "%.17g, expected %.17g at (%g %g %g) in %g %g %g", b.FindDistance(p), rd, x, y, z, lx, ly, lz); vh::stat(in ? "points inside boxes" : "points outside boxes"); }
  for (int q = 0; q < 3; q++) { // lines that keep away from the edges
    double l[3] = {lx, ly, lz}, p[3], d[3]; for (int k = 0; k < 3; k++) { p[k] = l[k] * r.u(-0.6, 1.6); d[k] = f.scale * r.u(-2, 2); } if (r.b(0.15)) d[r.i(0, 2)] = 0; if (axis && r.b(0.2)) { int k = (int)r.i(0, 2); for (int m = 0; m < 3; m++) if (m != k) d[m] = 0; }
    double nd = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); if (nd < 0.2 * f.scale) continue;
    V A = glob(p[0], p[1], p[2]), B = glob(p[0] + d[0], p[1] + d[1], p[2] + d[2]); Point a((double)A.x, (double)A.y, (double)A.z), c((double)B.x, (double)B.y, (double)B.z); if (a == c) continue; int k = (int)r.i(0, 3); Line li(a, c, k & 1, k & 2);
    std::vector<V> ref_; bool ok = M < 1e4 * f.scale; for (int s = 0; s < 3; s++) for (int e = 0; e < 2; e++) { if (d[s] == 0) { if (std::fabs(p[s] - e * l[s]) < 1e-6 * f.scale) ok = false; continue; } if (std::fabs(d[s]) < 1e-3 * nd) { ok = false; continue; } ld t = ((ld)e * l[s] - p[s]) / d[s]; if (std::fabs(t) < 1e-6L || std::fabs(t - 1) < 1e-6L) ok = false; if (((k & 1) && t < 0) || ((k & 2) && t > 1)) continue; bool on = true; V x = glob(p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2]); for (int m = 0; m < 3; m++) { if (m == s) continue; ld w = p[m] + t * d[m]; if (std::fabs(w) < 1e-5L * f.scale || std::fabs(w - l[m]) < 1e-5L * f.scale) ok = false; if (w < 0 || w > l[m]) on = false; } if (on) ref_.push_back(x); }
    if (!ok) continue; std::vector<Point> g = b.FindIntersections(li); bool same = g.size() == ref_.size(); for (auto& x : ref_) { bool found = false; for (auto& y : g) found = found || dist(y, x) <= 1e-8 * M; same = same && found; }
    VH_CHECK(same, "box/line", "%zu intersections, expected %zu, ends %d", g.size(), ref_.size(), k); vh::stat(vh::fmt("lines with %zu intersections with boxes", ref_.size())); }
}

// ---------------------------------------------------------------- interpolation
static void modeInterp(vh::Rng& r, long)
{
  int n = (int)r.i(2, r.b(0.2) ? 40 : 8); double sc = r.logu(1e-3, 1e4), off = r.b() ? 0 : sc * r.u(-50, 50); std::vector<double> x(n), y(n); double cur = off; for (int i = 0; i < n; i++) { x[i] = cur; cur += sc * r.u(0.2, 2); y[i] = r.b(0.1) ? 0 : r.u(-10, 10); }
  if (r.b(0.1)) std::fill(y.begin(), y.end(), y[0]);
  std::vector<double> o; long m = r.i(0, 12); for (long i = 0; i < m; i++) { int w = (int)r.i(0, 5); o.push_back(w == 0 ? x[r.i(0, n - 1)] : w == 1 ? x[0] - sc * r.u(0, 5) : w == 2 ? x[n - 1] + sc * r.u(0, 5) : r.u(x[0], x[n - 1])); }
  vh::sig(vh::mix(vh::hd(x[1] + y[0]), n * 100 + m)); vh::stat("interpolations"); if (n == 2) vh::stat("interpolations of two points");
  auto seg = [&](double q) { int k = 0; while (k < n - 2 && q > x[k + 1]) k++; return k; };
  double X = std::fabs(x[0]) + std::fabs(x[n - 1]) + sc * 6, amp = 1 + X / sc * 5;
  std::vector<double> lin = Interpolation::Interpolate1D(x, y, o, "linear"); VH_CHECK(lin.size() == o.size(), "interp/size", "%zu of %zu", lin.size(), o.size());
  for (size_t i = 0; i < lin.size() && i < o.size(); i++) { int k = seg(o[i]); ld ref = y[k] + ((ld)y[k + 1] - y[k]) / ((ld)x[k + 1] - x[k]) * ((ld)o[i] - x[k]); VH_CHECK(std::fabs(lin[i] - (double)ref) <= 1e-12 * 10 * amp * 10, "interp/linear", "%.17g, expected %.17Lg at %.17g in interval %d of %d", lin[i], ref, o[i], k, n); double one = Interpolation::InterpolateBetweenPoints(x, y, o[i]); VH_CHECK(one == lin[i] || std::fabs(one - lin[i]) < 1e-12 * amp, "interp/between", "%.17g and %.17g", one, lin[i]); }
  // natural cubic spline by a dense solve
  std::vector<std::vector<ld>> a(n, std::vector<ld>(n + 1, 0)); a[0][0] = 1; a[n - 1][n - 1] = 1; for (int i = 1; i < n - 1; i++) { ld h0 = (ld)x[i] - x[i - 1], h1 = (ld)x[i + 1] - x[i]; a[i][i - 1] = h0 / 6; a[i][i] = (h0 + h1) / 3; a[i][i + 1] = h1 / 6; a[i][n] = ((ld)y[i + 1] - y[i]) / h1 - ((ld)y[i] - y[i - 1]) / h0; }
  for (int i = 0; i < n; i++) { int p = i; for (int k = i; k < n; k++) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; std::swap(a[i], a[p]); for (int k = 0; k < n; k++) if (k != i && a[k][i] != 0) { ld q = a[k][i] / a[i][i]; for (int l = i; l <= n; l++) a[k][l] -= q * a[i][l]; } }
  std::vector<ld> z(n); for (int i = 0; i < n; i++) z[i] = a[i][n] / a[i][i];
  double ev = r.b() ? -999.25 : r.u(-5, 5); std::vector<double> sp = Interpolation::Interpolate1D(x, y, o, "spline"), se = Interpolation::Interpolate1D(x, y, o, "spline", ev);
  for (size_t i = 0; i < o.size(); i++) { int k = seg(o[i]); ld h = (ld)x[k + 1] - x[k], t1 = (ld)x[k + 1] - o[i], t0 = (ld)o[i] - x[k]; ld ref = z[k] * t1 * t1 * t1 / (6 * h) + z[k + 1] * t0 * t0 * t0 / (6 * h) + (y[k + 1] / h - z[k + 1] * h / 6) * t0 + (y[k] / h - z[k] * h / 6) * t1;
    bool outside = o[i] < x[0] || o[i] > x[n - 1]; double tol = 1e-10 * (1 + std::fabs((double)ref)) * 100; VH_CHECK(std::fabs(sp[i] - (double)ref) <= tol, "interp/spline", "%.17g, expected %.17Lg at %.17g in interval %d of %d", sp[i], ref, o[i], k, n); VH_CHECK(outside ? se[i] == ev : se[i] == sp[i], "interp/spline-extrapolation", "%.17g, outside %d, expected %.17g", se[i], (int)outside, outside ? ev : sp[i]); vh::stat(outside ? "extrapolated values" : "interpolated values"); }
  int th = 0; try { Interpolation::Interpolate1D(x, y, o, "cubic"); } catch (std::exception&) { th++; } try { Interpolation::Interpolate1D(x, y, o, "linear", 0.0); } catch (std::exception&) { th++; } try { Interpolation::Interpolate1D(x, y, o, "Spline", 0.0); } catch (std::exception&) { th++; } VH_CHECK(th == 3, "interp/method", "%d of 3 methods that do not exist were refused", th);
}

int main(int argc, char** argv)
{
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& mode) {
    if (mode == "point") modePoint(r, c); else if (mode == "line") modeLine(r, c); else if (mode == "plane") modePlane(r, c); else if (mode == "poly") modePoly(r, c); else if (mode == "box") modeBox(r, c); else modeInterp(r, c);
  });
}
