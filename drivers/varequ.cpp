// C24: right-hand side of the equations of motion and their variations.
// Oracle: the modelled accelerations composed independently (frame chain, harmonic
// expansion, point masses, drag on the facing plates) and differentiated numerically.
#include "orbit_integration.hpp"
#include "astrodynamics.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iers2010.hpp"
#include "vf.hpp"
#include <fstream>
#include <memory>
typedef Eigen::Matrix<double, 3, 1> D3;
typedef Eigen::Matrix<double, 3, 3> DM;
// ---- stand-ins (external interpolation; SPICE with circular Sun and Moon)
int iers2010::rg_zont2(double, double &d, double &l, double &o) noexcept { d = l = o = 0; return 0; }
int iers2010::interp::pmut1_oceans(double, double &x, double &y, double &u, double &l) noexcept { x = 3e-4; y = 2e-4; u = 5e-5; l = 6e-5; return 0; }
int iers2010::interp::pm_gravi(double, double &x, double &y) noexcept { x = 1.3e-5; y = -1.7e-5; return 0; }
int iers2010::interp::lagint(const double *x, const double *y, int n, double xi, double &out, int &idx, int order) noexcept {
  if (n < order + 1 || !(xi >= x[0] && xi <= x[n - 1])) return 1;
  int k = (int)(std::upper_bound(x, x + n, xi) - x) - 1; if (k > n - 2) k = n - 2;
  idx = k; int lo = k - (order - 1) / 2; if (lo < 0) lo = 0; if (lo + order + 1 > n) lo = n - order - 1;
  long double s = 0;
  for (int i = lo; i <= lo + order; i++) { long double t = y[i]; for (int j = lo; j <= lo + order; j++) if (j != i) t *= ((long double)xi - x[j]) / ((long double)x[i] - x[j]); s += t; }
  out = (double)s; return 0;
}
namespace {
double g_gmsun = 1.32712440018e11, g_gmmoon = 4902.8;
D3 body_km(int id, double et) { double a = et * (id == 10 ? 1.991e-7 : 2.66e-6) + id; double d = id == 10 ? 1.496e8 : 3.844e5; return d * D3(cos(a), sin(a) * 0.9, 0.43 * sin(a)); }
} // namespace
extern "C" {
void furnsh_c(const char *) {}
void ktotal_c(const char *, int *n) { *n = 0; }
void kdata_c(int, const char *, int, int, int, char *, char *, char *, int *, int *found) { *found = 0; }
void bodvrd_c(const char *b, const char *, int, int *dim, double *v) { *dim = 1; *v = (b[0] == 'S' || b[0] == 's') ? g_gmsun : g_gmmoon; }
double unitim_c(double e, const char *, const char *) { return (e - 2451545.0) * 86400.0; }
void spkezp_c(int t, double et, const char *, const char *, int, double *p, double *lt) { D3 x = body_km(t, et); for (int i = 0; i < 3; i++) p[i] = x(i); *lt = 1; }
}

namespace {
using Feed = dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW>;
using Quat = Eigen::Quaternion<double>;
double tt(long m) { return (double)((long double)m + ((long double)dso::core::dat(m) + 32.184L) / 86400); }
struct World {
  std::string qfn, swfn; long day; int degree, order; double mass, cd;
  dso::EopLookUpTable eop; dso::HarmonicCoeffs hc; std::vector<dso::MacroModelComponent> plates;
  bool meters, apar; double lag; // seconds covered by the quaternions
  World(int deg) : eop(12), hc(deg) {}
};
std::string sw_line(vf::Rng &r, long mjd) {
  int y, m, d; dso::core::mjd2cal(mjd, y, m, d);
  std::string s = vf::fmt("%04d-%02d-%02d,2500,1,10,10,10,10,10,10,10,10,80", y, m, d);
  for (int i = 0; i < 8; i++) s += vf::fmt(",%d", (int)r.i(0, 80));
  return s + vf::fmt(",%d,0.1,0,50,%.1f,%.1f,OBS,%.1f,%.1f,%.1f,%.1f\n", (int)r.i(1, 60), r.u(65, 250), r.u(65, 250), r.u(70, 220), r.u(70, 220), r.u(70, 220), r.u(70, 220));
}
std::unique_ptr<World> make(vf::Ctx &c, double &start, double &span) {
  vf::Rng &r = c.r; int deg = (int)r.i(2, 8); auto w = std::make_unique<World>(deg); w->degree = deg; w->order = r.p(.5) ? deg : (int)r.i(0, deg);
  // often around a leap second
  w->day = r.p(.15) ? r.pick({57203L, 57204L, 57753L, 57754L}) : r.i(56300, 59800); w->mass = r.u(100, 2000); w->cd = r.u(1, 3); w->meters = r.p(.8); w->apar = r.p(.7);
  w->hc.Re() = 6378136.46; w->hc.GM() = 3.986004415e14; w->hc.normalized() = false;
  for (int n = 0; n <= deg; n++) for (int m = 0; m <= n; m++) {
    double k = n == 0 ? 1 : n == 1 ? 0 : n == 2 && m == 0 ? -1.0826e-3 : (r.p(.3) ? 3e-5 : 2e-6) * r.n() / (1 + m * m);
    w->hc.C(n, m) = k; if (m) w->hc.S(n, m) = n < 2 ? 0 : 2e-6 * r.n() / (1 + m * m);
  }
  // epochs: anywhere in the day, often around UTC midnight and the 3-hour slots
  double sod = r.pick({r.u(0, 86000), r.u(86300, 86399), r.u(0, 60), 10800.0 * r.i(0, 7) + r.u(-40, 40)});
  span = r.p(.7) ? r.u(60, 1200) : r.u(1200, 9000); start = w->day + sod / 86400;
  for (int i = 0; i < 12; i++) {
    long m = w->day - 5 + i; *w->eop.mjd(i) = tt(m); *w->eop.xp(i) = .1 + .002 * i; *w->eop.yp(i) = .3 - .001 * i; *w->eop.dut(i) = -.2 + 1e-3 * i; *w->eop.dx(i) = 1e-4; *w->eop.dy(i) = -2e-4; *w->eop.lod(i) = 1e-3; *w->eop.omega(i) = 7.292115e-5; }
  int np = (int)r.i(0, 8); if (np == 0 && r.p(.7)) np = 6;
  for (int i = 0; i < np; i++) {
    dso::MacroModelComponent p{}; p.m_surf = r.u(.1, 10); D3 n = D3::Zero();
    if (i < 6) n(i / 2) = i % 2 ? 1 : -1; else { n = D3(r.n(), r.n(), r.n()); n /= n.norm(); }
    for (int k = 0; k < 3; k++) p.m_normal[k] = n(k); w->plates.push_back(p); }
  // attitude file
  std::string t; double q[4], s = 0; for (double &x : q) x = r.n(), s += x * x; for (double &x : q) x /= sqrt(s);
  long ms = (long)((sod - 120) * 1000), m0 = w->day; double step = r.p(.5) ? 30 : 120;
  for (double e = 0; e < span + 500; e += step) {
    long mm = m0, x = ms; while (x < 0) x += 86400000, mm--; while (x >= 86400000) x -= 86400000, mm++;
    int y, mo, d; dso::core::mjd2cal(mm, y, mo, d); long sec = x / 1000;
    t += vf::fmt("%04d/%02d/%02d %02ld:%02ld:%02ld.%03ld\t1\t%.12f\t1\t1\t%.12f\t1\t1\t%.12f\t1\t1\t%.12f\t\n", y, mo, d, sec / 3600, sec / 60 % 60, sec % 60, x % 1000, q[0], q[1], q[2], q[3]);
    ms += (long)(step * 1000); s = 0; for (double &v : q) v += .03 * r.n(), s += v * v; for (double &v : q) v /= sqrt(s); }
  w->qfn = c.scratch() + "/att.txt"; std::ofstream(w->qfn) << t;
  t = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81\n";
  for (long m = w->day - 8; m < w->day + 5; m++) t += sw_line(r, m);
  w->swfn = c.scratch() + "/sw.csv"; std::ofstream(w->swfn) << t;
  g_gmsun = 1.32712440018e11 * (r.p(.3) ? 1e3 : 1); g_gmmoon = 4902.8 * (r.p(.6) ? 1e4 : 1); // a heavier Moon makes its partials visible
  return w;
}
void setup(Feed &f, const World &w) { f.params_.set_switches_on(); if (w.apar) f.params_.use_aparray(); if (w.meters) f.params_.meters_on(); }
// everything the library needs for one integration
struct Lib {
  Feed feed; dso::Nrlmsise00 msis; dso::JasonQuaternionHunter q; dso::IntegrationParameters p;
  Lib(const World &w, double start) : feed(w.swfn.c_str(), dso::modified_julian_day(w.day), std::min(86399.0, std::max(0.0, (start - w.day) * 86400))), q(w.qfn.c_str()), p(w.degree, w.order, w.eop, w.hc, "pck.tpc") {
    setup(feed, w); p.mjd_tai = start; p.macromodel = w.plates.data(); p.numMacroModelComponents = (int)w.plates.size(); p.qhunt = &q; p.SatMass = &w.mass; p.drag_coef = &w.cd; p.AtmDataFeed = &feed; p.nrlmsise00 = &msis; }
};
// ---- independent composition
struct Ref {
  const World &w; double mjd; DM U; Quat q; long uday; double usec; D3 sun, moon; Feed feed; dso::Nrlmsise00 msis; dso::Mat2D<dso::MatrixStorageType::Trapezoid> V, W; bool ok = true;
  Ref(const World &w_, double t) : w(w_), mjd(t), feed(w_.swfn.c_str(), dso::modified_julian_day(w_.day), 0.0), V(w_.degree + 3, w_.order + 3), W(w_.degree + 3, w_.order + 3) {
    DM Q, P; double era, lod; ok = !dso::gcrs2itrs(t, w.eop, Q, era, P, lod);
    DM R = DM::Identity(); R(0, 0) = R(1, 1) = cos(era); R(0, 1) = sin(era); R(1, 0) = -sin(era); U = P * R * Q;
    dso::JasonQuaternionHunter h(w.qfn.c_str()); ok = ok && !h.get_at(t, q); q.normalize();
    long d = (long)floor(t); long double s = ((long double)t - d) * 86400 - dso::core::dat(d); uday = d;
    if (s < 0) { uday--; s = ((long double)t - d) * 86400 - dso::core::dat(d - 1) + 86400; }
    usec = (double)s; if (s >= 86400) ok = false; // inside a leap second
    double et = ((long double)t + 32.184L / 86400 + 2400000.5L - 2451545.0L) * 86400; sun = body_km(10, et) * 1e3; moon = body_km(301, et) * 1e3;
    setup(feed, w); ok = ok && !feed.update_params((int)uday, usec);
  }
  double rho(const D3 &r) {
    D3 g = dso::car2ell<dso::ellipsoid::grs80>(U * r); auto &p = feed.params_;
    p.glon = g(0) * 180 / M_PI; p.glat = g(1) * 180 / M_PI; p.alt = g(2) / 1e3; p.lst = usec / 3600 + p.glon / 15; p.sec = usec;
    dso::nrlmsise00::OutParams o; msis.gtd7d(&p, &o); return o.d[5];
  }
  double area(const D3 &r, const D3 &v) {
    D3 vr = v - D3(-iers2010::OmegaEarth * r(1), iers2010::OmegaEarth * r(0), 0); vr /= vr.norm(); D3 vb = q * vr; double A = 0; // body = q * inertial
    for (auto &p : w.plates) { double k = vb(0) * p.m_normal[0] + vb(1) * p.m_normal[1] + vb(2) * p.m_normal[2]; if (k > 0) A += k * p.m_surf; }
    return A;
  }
  D3 gravity(const D3 &r) { return U.transpose() * dso::grav_potential_accel(D3(U * r), w.degree, w.order, V, W, w.hc); }
  static D3 third(double GM, const D3 &r, const D3 &s) { D3 d = s - r; return GM * (d / pow(d.norm(), 3) - s / pow(s.norm(), 3)); }
  D3 drag(const D3 &r, const D3 &v, double A, double dens) { D3 vr = v - D3(-iers2010::OmegaEarth * r(1), iers2010::OmegaEarth * r(0), 0); return -.5 * w.cd * A / w.mass * dens * vr.norm() * vr; }
};
} // namespace

VF_GROUP(motion, 500, 4000) {
  vf::Rng &r = c.r; double start, span; auto w = make(c, start, span); Lib L(*w, start);
  double t = 0; std::string hist;
  for (int k = 0; k < 8; k++) {
    t += r.p(.2) ? 0 : r.p(.25) ? r.logu(1e-3, 60) : r.u(0, span / 8); double te = t; if (r.p(.25)) te = std::max(0.0, t - r.u(0, 20)); // integrators step back a little
    double mjd = start + te / 86400;
    Ref ref(*w, L.p.mjd_tai + te / 86400); if (!ref.ok) { c.event("uncovered"); continue; }
    if (te < t) { dso::JasonQuaternionHunter probe = dso::JasonQuaternionHunter(w->qfn.c_str()); (void)probe; if (te < L.q.bodyq[0].tai_mjd || mjd < L.q.bodyq[0].tai_mjd) continue; }
    double alt = r.pick({r.u(2e5, 6e5), r.u(6e5, 1.4e6)}), R = 6378137 + alt; D3 pos(r.n(), r.n(), r.n()); if (r.p(.1)) pos(0) *= 1e-4, pos(1) *= 1e-4;
    pos *= R / pos.norm(); D3 vel(r.n(), r.n(), r.n()); vel -= pos * (pos.dot(vel) / pos.squaredNorm()); vel *= sqrt(3.986e14 / R) * r.u(.9, 1.1) / vel.norm(); vel += pos / R * r.u(-100, 100);
    bool ident = r.p(.5); Eigen::VectorXd y(48), yp(48); y.setZero(); yp.setConstant(NAN); y.head<3>() = pos; y.segment<3>(3) = vel;
    Eigen::Matrix<double, 6, 7> Phi; for (int i = 0; i < 42; i++) Phi.data()[i] = r.n(); if (ident) { Phi.setZero(); Phi.leftCols<6>().setIdentity(); }
    if (!ident) { Phi.bottomRows<3>() *= 1e-3; }
    for (int i = 0; i < 42; i++) y(6 + i) = Phi.data()[i];
    Eigen::VectorXd y0 = y; hist += vf::fmt("%.3f ", te);
    dso::VariationalEquations(te, y, yp, L.p);
    std::string tag = vf::fmt("mjd_tai=%.9f degree %d/%d plates %zu alt %.0f km after calls at %s", mjd, w->degree, w->order, w->plates.size(), alt / 1e3, hist.c_str());
    c.check(y == y0, "state_unchanged", "%s", tag.c_str()); c.check(yp.allFinite(), "finite", "%s", tag.c_str()); if (!yp.allFinite()) continue;
    c.check(yp.head<3>() == vel, "position_derivative_is_velocity", "%s", tag.c_str());
    // accelerations
    double A = ref.area(pos, vel), rho = ref.rho(pos), dens = rho; D3 drag = ref.drag(pos, vel, A, rho), g = ref.gravity(pos), s3 = Ref::third(g_gmsun * 1e9, pos, ref.sun), m3 = Ref::third(g_gmmoon * 1e9, pos, ref.moon);
    D3 want = g + s3 + m3 + drag; double tol = 2e-13 * g.norm() + 1e-5 * s3.norm() * 1e-6 + 1e-9 * m3.norm() + 3e-6 * drag.norm();
    for (int i = 0; i < 3; i++) c.near(yp(3 + i), want(i), tol, "velocity_derivative_is_acceleration", tag + vf::fmt(" comp %d (drag %.3g third bodies %.3g %.3g)", i, drag.norm(), s3.norm(), m3.norm()));
    if (drag.norm() > 20 * tol) c.event("drag visible");
    // Jacobian: gravity and Moon differentiated numerically, drag at constant area; the Sun's share (1e-7 of it) is left out by the library
    DM G, Mo, Dr, Dv; double h = 60; D3 gr;
    for (int j = 0; j < 3; j++) { D3 e = D3::Zero(); e(j) = h; 
      auto diff = [&](auto f) { return D3((8.0 * (f(D3(pos + e)) - f(D3(pos - e))) - (f(D3(pos + 2 * e)) - f(D3(pos - 2 * e)))) / (12 * h)); };
      G.col(j) = diff([&](const D3 &x) { return ref.gravity(x); }); Mo.col(j) = diff([&](const D3 &x) { return Ref::third(g_gmmoon * 1e9, x, ref.moon); });
      D3 e1 = D3::Zero(); e1(j) = 1; gr(j) = (ref.rho(pos + e1) - ref.rho(pos - e1)) / 2;
      D3 ev = D3::Zero(); ev(j) = 1e-2; Dv.col(j) = (ref.drag(pos, vel + ev, A, dens) - ref.drag(pos, vel - ev, A, dens)) / 2e-2;
      D3 er = D3::Zero(); er(j) = 100; Dr.col(j) = (ref.drag(pos + er, vel, A, dens) - ref.drag(pos - er, vel, A, dens)) / 200; }
    DM Grho = ref.drag(pos, vel, A, 1.0) * gr.transpose(); DM Arr = G + Mo + Dr + Grho;
    // the published atmosphere has small steps at fixed altitudes; across one the slope depends on the points differenced
    D3 up = pos / pos.norm() * 1.05; double step = fabs(ref.rho(pos + up) - 2 * ref.rho(pos) + ref.rho(pos - up)) * ref.drag(pos, vel, A, 1.0).norm();
    Eigen::Matrix<double, 6, 6> Am = Eigen::Matrix<double, 6, 6>::Zero(); Am.topRightCorner<3, 3>().setIdentity(); Am.bottomLeftCorner<3, 3>() = Arr; Am.bottomRightCorner<3, 3>() = Dv;
    Eigen::Matrix<double, 6, 7> wp = Am * Phi; if (w->cd > 0) wp.block<3, 1>(3, 6) += ref.drag(pos, vel, A, dens) / w->cd;
    Eigen::Map<Eigen::Matrix<double, 6, 7>> gp(yp.data() + 6);
    double sun = 2.1 * g_gmsun * 1e9 / pow(ref.sun.norm(), 3), trr = 1e-15 + sun + 1e-8 * Mo.norm() + 1e-4 * (Dr.norm() + Grho.norm()) + 2 * step + 2e-5 * drag.norm() / R + 1e-9 * 1e-6, tvv = 1e-6 * Dv.norm() + 3e-6 * Dv.norm();
    for (int j = 0; j < 7; j++) { double pr = Phi.col(j).head<3>().norm(), pv = Phi.col(j).tail<3>().norm();
      for (int i = 0; i < 6; i++) c.near(gp(i, j), wp(i, j), i < 3 ? 1e-15 * pv : trr * pr + tvv * pv + 1e-15 * wp.col(j).norm() + (j == 6 ? 4e-6 * drag.norm() : 0), i < 3 ? "transition_upper_rows" : j == 6 ? "sensitivity_derivative" : "transition_derivative_is_jacobian_product", tag + vf::fmt(" (%d,%d) %s", i, j, ident ? "identity" : "random matrix")); }
    if (Grho.norm() > 5 * trr) c.event("density gradient visible"); if (Mo.norm() > 5 * trr) c.event("lunar partials visible");
    c.event("evaluations"); c.distinct(vf::fmt("%ld %d %d %zu %d", ref.uday, (int)(ref.usec / 600), (int)(alt / 1e5), w->plates.size(), w->degree * 10 + w->order));
    // a fresh set of models gives the same answer
    if (r.p(.5)) { Lib F(*w, start); Eigen::VectorXd y2(48); y2.setConstant(NAN); dso::VariationalEquations(te, y, y2, F.p); c.check((y2 - yp).cwiseAbs().maxCoeff() == 0, "independent_of_history", "%s: differs by %g", tag.c_str(), (y2 - yp).cwiseAbs().maxCoeff()); c.event("compared with fresh models"); }
  }
}
