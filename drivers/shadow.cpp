// C07: shadow functions.  Oracle: visible fraction of the solar disc computed
// in long double from the apparent radii and separation (separation by atan2 of
// cross and dot products, so defined for collinear geometries too).
#include "vf.hpp"
#include "astrodynamics.hpp"
#include "geodesy/ellipsoid.hpp"
typedef long double ld;
typedef Eigen::Matrix<ld, 3, 1> L3;
static const ld PI = 3.141592653589793238462643383279502884L;
static const ld Re = iers2010::Re, Rs = iers2010::Rs, AU = iers2010::AU;
static dso::Vector3 V(const L3 &x) { dso::Vector3 v; for (int k = 0; k < 3; k++) v(k) = (double)x(k); return v; }
static L3 L(const dso::Vector3 &x) { return L3(x(0), x(1), x(2)); }
static L3 unit(vf::Rng &r) { L3 v(r.n(), r.n(), r.n()); return v / v.norm(); }
static ld sep(const L3 &a, const L3 &b) { return atan2l(a.cross(b).norm(), a.dot(b)); }

struct Geo { dso::Vector3 r, s; ld te, ts, tes; std::string tag; int kind; };
static void fill(Geo &g) {
  L3 r = L(g.r), s = L(g.s), d = s - r;
  g.te = asinl(std::min((ld)1, Re / r.norm())); g.ts = asinl(Rs / d.norm()); g.tes = sep(-r, d);
  g.tag = vf::fmt("r=(%.17g,%.17g,%.17g) sun=(%.17g,%.17g,%.17g) te=%.12Lg ts=%.12Lg tes=%.12Lg", g.r(0), g.r(1), g.r(2), g.s(0), g.s(1), g.s(2), g.te, g.ts, g.tes);
}
// planar lens area of the two apparent discs
static ld visible(const Geo &g) {
  ld te = g.te, ts = g.ts, c = g.tes;
  if (c >= te + ts) return 1;
  if (c <= te - ts) return 0;
  if (c <= ts - te) return 1 - (te * te) / (ts * ts);
  auto cl = [](ld x) { return x > 1 ? 1.0L : x < -1 ? -1.0L : x; };
  ld x = (c * c + ts * ts - te * te) / (2 * c), y = sqrtl(std::max((ld)0, ts * ts - x * x));
  ld A = ts * ts * acosl(cl(x / ts)) + te * te * acosl(cl((c - x) / te)) - c * y;
  return 1 - A / (PI * ts * ts);
}
// exact fraction on the celestial sphere, by summing rings of the solar disc
static ld visible_sphere(const Geo &g, int n = 4000) {
  ld num = 0, den = 0;
  for (int k = 0; k < n; k++) {
    ld rho = g.ts * (k + 0.5L) / n, w = sinl(rho);
    // points at distance rho from the Sun's centre within te of the Earth's centre
    ld cphi = (cosl(g.te) - cosl(rho) * cosl(g.tes)) / (sinl(rho) * sinl(g.tes));
    ld frac = cphi >= 1 ? 0 : cphi <= -1 ? 1 : acosl(cphi) / PI; // hidden part of the ring
    num += w * (1 - frac); den += w;
  }
  return num / den;
}
static Geo gen(vf::Rng &r, long idx) {
  Geo g; g.kind = (int)(idx % 10);
  L3 u = unit(r);
  if (r.p(0.2)) { static const int ax[6] = {0, 1, 2, 0, 1, 2}; int k = (int)r.i(0, 5); u.setZero(); u(ax[k]) = k < 3 ? 1 : -1; }
  ld D = AU * r.u(0.983, 1.017); if (r.p(0.2)) D = AU;
  L3 w = unit(r); w -= w.dot(u) * u; w /= w.norm();
  ld R = r.p(0.5) ? (ld)r.u(6.5e6, 9e6) : (ld)r.logu(6.4e6, 4e8);
  if (g.kind == 9) R = r.logu(5e8, 5e9); // beyond the umbra: annular
  ld te = asinl(Re / R);
  auto place = [&](ld ang, ld rad) { g.r = V(rad * (-u * cosl(ang) + w * sinl(ang))); g.s = V(u * D); };
  ld ts = asinl(Rs / D);
  switch (g.kind) {
  case 0: g.r = V(unit(r) * R); g.s = V(u * D); break;              // anywhere
  case 1: place(0, R); break;                                         // exactly behind
  case 2: { place(0, R); dso::Vector3 t = g.s; double f = -(double)(R / D); for (int k = 0; k < 3; k++) g.r(k) = f * t(k); } break; // component-wise collinear
  case 3: place(PI, R); break;                                        // exactly in front
  case 4: place(PI / 2 + (r.p(0.5) ? 0 : r.sgn() * r.logu(1e-12, 0.1)), R); break; // terminator plane
  case 5: place(te + r.u(-1.2, 1.2) * (double)ts, R); break;          // across the penumbra
  case 6: place(te - ts + r.sgn() * r.logu(1e-14, 1e-4), R); break;   // inner contact
  case 7: place(te + ts + r.sgn() * r.logu(1e-14, 1e-4), R); break;   // outer contact
  case 8: R = (ld)Re * (1 + (r.p(0.3) ? 1e-14 : r.logu(1e-12, 1e-4))); place(r.u(0, (double)PI), R); break; // at the surface
  default: place(r.p(0.3) ? 0 : r.u(0, 2) * (double)ts, R); break;     // annular / partial
  }
  fill(g);
  while (L(g.r).norm() < Re * (1 + 1e-15L)) { for (int k = 0; k < 3; k++) g.r(k) *= 1 + 1e-15; fill(g); }
  return g;
}

VF_GROUP(conical, 20000, 400000) {
  Geo g = gen(c.r, c.idx);
  double f = utest::conical_shadow(g.r, g.s);
  if (L(g.r).norm() < Re) return;
  c.check(f >= 0 && f <= 1, "in_unit_interval", "%s: %.17g", g.tag.c_str(), f);
  // sensitivity of asin(Re/r) at the surface and of the acos of the separation
  ld de = 4e-16L / std::max(1e-8L, cosl(g.te)), dt = 4e-16L / std::max(1e-8L, sinl(g.tes));
  ld w = visible(g), tol = 1e-9L + 3 * (de + dt) / g.ts;
  c.near(f, (double)w, (double)tol, "visible_fraction", g.tag);
  if (w > 0 && w < 1) {
    c.event("penumbra");
    if (g.te > 10 * g.ts && c.idx % 20 == 5) c.near(f, (double)visible_sphere(g), 3e-3, "visible_fraction_on_the_sphere", g.tag);
  }
  if (g.tes < g.te - g.ts - 2 * (de + dt)) c.check(f == 0, "umbra_exactly_zero", "%s: %.17g", g.tag.c_str(), f), c.event("umbra");
  if (g.tes > g.te + g.ts + 2 * (de + dt)) c.check(f == 1, "sunlit_exactly_one", "%s: %.17g", g.tag.c_str(), f), c.event("sunlit");
  c.distinct(vf::fmt("%d %.3g %.4g", g.kind, (double)g.te, (double)w));
  if (c.idx < 2) c.sample(g.tag);
}
VF_GROUP(step_models, 20000, 400000) {
  Geo g = gen(c.r, c.idx);
  if (L(g.r).norm() < Re) return;
  L3 r = L(g.r), s = L(g.s), u = s / s.norm();
  ld al = r.dot(u), perp = (r.cross(u)).norm();
  double fv = utest::vallado_shadow(g.r, g.s);
  Eigen::Matrix<double, 3, 1> er(g.r(0), g.r(1), g.r(2)), es(g.s(0), g.s(1), g.s(2));
  double m1 = utest::montebruck_shadow(g.r, g.s), m2 = utest::montebruck_shadow(er, es), b1 = utest::bernese_shadow1(g.r, g.s);
  c.check((fv == 0 || fv == 0.5 || fv == 1) && (m1 == 0 || m1 == 1) && (m2 == 0 || m2 == 1) && (b1 == 0 || b1 == 1), "values", "%s: %g %g %g %g", g.tag.c_str(), fv, m1, m2, b1);
  // Vallado: umbra/penumbra cones tangent to both spheres with the Sun at 1 AU
  ld ap = asinl((Rs + Re) / AU), au = asinl((Rs - Re) / AU), tol = 1e-9L * r.norm() + 1e-3L;
  ld pen = tanl(ap) * (Re / sinl(ap) - al) - perp, umb = tanl(au) * (Re / sinl(au) + al) - perp;
  if (al > 1e-6L * r.norm()) c.check(fv == 1, "vallado_sunlit_side", "%s: %g", g.tag.c_str(), fv);
  else if (al < -1e-6L * r.norm()) {
    if (fabsl(pen) > tol && fabsl(umb) > tol) { double w = pen < 0 ? 1 : umb < 0 ? 0.5 : 0; c.check(fv == w, "vallado_zone", "%s: got %g expected %g (margins %Lg %Lg)", g.tag.c_str(), fv, w, pen, umb); c.event(w == 1 ? "vallado_sun" : w == 0 ? "vallado_umbra" : "vallado_penumbra"); }
    // and in terms of the discs seen, away from the edges (Earth-Sun distance is 1 AU within 2%)
    ld m = 2e-2L * g.ts * 3;
    if (g.tes < g.te - g.ts - m) c.check(fv == 0, "vallado_full_shadow", "%s: %g", g.tag.c_str(), fv);
    if (g.tes > g.te + g.ts + m) c.check(fv == 1, "vallado_nothing_blocks", "%s: %g", g.tag.c_str(), fv);
  }
  // cylinder of radius Re behind the Earth
  for (double m : {m1, m2}) {
    if (fabsl(al) > 1e-6L * r.norm() && fabsl(perp - Re) > tol) { bool sh = al < 0 && perp < Re; c.check(m == (sh ? 0 : 1), "cylinder_zone", "%s: got %g", g.tag.c_str(), m); }
    if (g.tes < g.te - g.ts - 1e-6L) c.check(m == 0, "cylinder_full_shadow", "%s: %g", g.tag.c_str(), m);
    if (g.tes > g.te + g.ts + 1e-6L) c.check(m == 1, "cylinder_nothing_blocks", "%s: %g", g.tag.c_str(), m);
  }
  // oblate Earth, parallel light: does the ray from the satellite towards the Sun meet the ellipsoid?
  {
    ld k = 1 + (ld)dso::ellipsoid_traits<dso::ellipsoid::grs80>::f;
    L3 p(r(0), r(1), r(2) * k), d(u(0), u(1), u(2) * k); d /= d.norm();
    ld t = -p.dot(d), q = (p + t * d).norm();
    if (fabsl(t) > 1e-6L * r.norm() && fabsl(q - Re) > tol) { bool sh = t > 0 && q < Re; c.check(b1 == (sh ? 0 : 1), "oblate_cylinder_zone", "%s: got %g", g.tag.c_str(), b1); }
  }
  c.distinct(vf::fmt("%d %g %g %g %.3g", g.kind, fv, m1, b1, (double)g.te));
}
// a path into and out of shadow: monotone, continuous, all models agree on the ends
VF_GROUP(passages, 200, 4000) {
  vf::Rng &r = c.r; L3 u = unit(r), w = unit(r); w -= w.dot(u) * u; w /= w.norm(); L3 n = u.cross(w);
  ld R = r.logu(6.5e6, 1e8), D = AU * r.u(0.983, 1.017), te = asinl(Re / R), ts = asinl(Rs / D), beta = r.p(0.4) ? 0 : r.u(-1.3, 1.3) * (double)(te + ts);
  double prev = 2, dprev = -1; int N = 400; ld lo = -1.2L * (te + ts), hi = 1.2L * (te + ts);
  int crossings = 0; double fmin = 2;
  for (int k = 0; k <= N; k++) {
    ld a = lo + (hi - lo) * k / N; L3 p = R * ((-u * cosl(a) + w * sinl(a)) * cosl(beta) + n * sinl(beta));
    Geo g; g.kind = 0; g.r = V(p); g.s = V(u * D); fill(g);
    double f = utest::conical_shadow(g.r, g.s);
    c.check(f >= 0 && f <= 1, "in_unit_interval", "%s: %g", g.tag.c_str(), f);
    if (k) {
      if ((double)g.tes > dprev + 1e-9) c.check(f >= prev - 1e-9, "monotone", "%s: separation grew %.12g -> %.12Lg, fraction fell %.12g -> %.12g", g.tag.c_str(), dprev, g.tes, prev, f);
      if ((double)g.tes < dprev - 1e-9) c.check(f <= prev + 1e-9, "monotone", "%s: separation shrank, fraction grew %.12g -> %.12g", g.tag.c_str(), prev, f);
      // the visible fraction changes at most by 2*2/pi per solar radius of separation... and Earth's limb change
      c.check(std::fabs(f - prev) <= 0.7 * std::fabs((double)g.tes - dprev) / (double)g.ts + 1e-9, "continuous", "%s: %g -> %g", g.tag.c_str(), prev, f);
      if ((f < 1) != (prev < 1)) crossings++;
    }
    prev = f; dprev = (double)g.tes; fmin = std::min(fmin, f);
  }
  c.check(crossings == 0 || crossings == 2, "one_eclipse_per_passage", "beta=%Lg R=%Lg crossings %d", beta, R, crossings);
  // bisect both contacts and compare models there
  c.event(fmin == 0 ? "total" : fmin < 1 ? "partial" : "none");
  c.distinct(vf::fmt("%.2Lg %.2Lg %g", R, beta, fmin));
}
