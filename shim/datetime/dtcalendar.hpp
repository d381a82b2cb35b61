// Stand-in for the external ggdatetime library (calendar, sub-second types, TAI/UTC).
#ifndef VF_SHIM_DATETIME_HPP
#define VF_SHIM_DATETIME_HPP
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
namespace dso {
constexpr double mjd0_jd = 2400000.5e0;
constexpr double j2000_jd = 2451545.0e0;
constexpr double j2000_mjd = 51544.5e0;
constexpr double sec_per_day = 86400e0;
constexpr double days_in_julian_cent = 36525e0;

#define VF_INT_TYPE(NAME)                                                      \
  class NAME {                                                                 \
    int v_;                                                                    \
  public:                                                                      \
    typedef int underlying_type;                                               \
    constexpr explicit NAME(underlying_type i = 0) noexcept : v_(i) {}         \
    constexpr underlying_type as_underlying_type() const noexcept { return v_; } \
    constexpr bool operator==(NAME o) const noexcept { return v_ == o.v_; }    \
    constexpr bool operator!=(NAME o) const noexcept { return v_ != o.v_; }    \
    constexpr bool operator<(NAME o) const noexcept { return v_ < o.v_; }      \
  };
VF_INT_TYPE(year)
VF_INT_TYPE(month)
VF_INT_TYPE(day_of_month)
VF_INT_TYPE(day_of_year)
VF_INT_TYPE(hours)
VF_INT_TYPE(minutes)
#undef VF_INT_TYPE

class modified_julian_day {
  long v_;
public:
  typedef long underlying_type;
  constexpr modified_julian_day(underlying_type i = 0) noexcept : v_(i) {}
  constexpr underlying_type as_underlying_type() const noexcept { return v_; }
  constexpr double to_julian_day() const noexcept { return (double)v_ + mjd0_jd; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v_ + o.v_); }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v_ - o.v_); }
  modified_julian_day &operator+=(modified_julian_day o) noexcept { v_ += o.v_; return *this; }
  modified_julian_day &operator-=(modified_julian_day o) noexcept { v_ -= o.v_; return *this; }
  modified_julian_day &operator++() noexcept { ++v_; return *this; }
  modified_julian_day operator++(int) noexcept { auto t = *this; ++v_; return t; }
  modified_julian_day &operator--() noexcept { --v_; return *this; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v_ >= o.v_; }
};

template <long F> class vf_seconds {
  long v_;
public:
  typedef long underlying_type;
  static constexpr bool is_of_sec_type{true};
  static constexpr underlying_type max_in_day{86400L * F};
  template <typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  constexpr explicit vf_seconds(underlying_type i = 0) noexcept : v_(i) {}
  constexpr underlying_type as_underlying_type() const noexcept { return v_; }
  constexpr double to_fractional_seconds() const noexcept { return (double)v_ / (double)F; }
  constexpr double fractional_days() const noexcept { return (double)v_ / (double)max_in_day; }
  constexpr vf_seconds operator+(vf_seconds o) const noexcept { return vf_seconds(v_ + o.v_); }
  constexpr vf_seconds operator-(vf_seconds o) const noexcept { return vf_seconds(v_ - o.v_); }
  constexpr vf_seconds operator-() const noexcept { return vf_seconds(-v_); }
  vf_seconds &operator+=(vf_seconds o) noexcept { v_ += o.v_; return *this; }
  constexpr bool operator==(vf_seconds o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(vf_seconds o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(vf_seconds o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(vf_seconds o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(vf_seconds o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(vf_seconds o) const noexcept { return v_ >= o.v_; }
};
typedef vf_seconds<1> seconds;
typedef vf_seconds<1000> milliseconds;
typedef vf_seconds<1000000> microseconds;
typedef vf_seconds<1000000000> nanoseconds;

namespace core {
inline long cal2mjd(int y, int m, int d) {
  static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (m < 1 || m > 12) throw std::out_of_range("cal2mjd: invalid month");
  int leap = (y % 4 == 0 && (y % 100 || y % 400 == 0));
  if (d < 1 || d > dm[m - 1] + (m == 2 ? leap : 0)) throw std::out_of_range("cal2mjd: invalid day");
  long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
  return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045 - 2400001;
}
inline void mjd2cal(long mjd, int &y, int &m, int &d) {
  long a = mjd + 2400001 + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, e = (4 * c + 3) / 1461, f = c - 1461 * e / 4, g = (5 * f + 2) / 153;
  d = (int)(f - (153 * g + 2) / 5 + 1); m = (int)(g + 3 - 12 * (g / 10)); y = (int)(100 * b + e - 4800 + g / 10);
}
// TAI-UTC, whole seconds, from 1972
inline int dat(long mjd) {
  static const long t[] = {41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754};
  int n = 9;
  for (long x : t) if (mjd >= x) n++;
  return n;
}
} // namespace core
inline int dat(modified_julian_day m) noexcept { return core::dat(m.as_underlying_type()); }
// floating point date; the second argument receives the extra seconds of a leap-second day
inline int dat(double mjd, int &extra) noexcept { extra = 0; return core::dat((long)std::floor(mjd)); }

struct ydoy_date { year __year; day_of_year __doy; };
struct ymd_date { year __year; month __month; day_of_month __dom; };
inline modified_julian_day ydoy2mjd(year y, day_of_year d) { return modified_julian_day(core::cal2mjd(y.as_underlying_type(), 1, 1) + d.as_underlying_type() - 1); }
inline long ydoy2mjd(long y, long d) { return core::cal2mjd((int)y, 1, 1) + d - 1; }

template <class S> struct datetime_interval {
  modified_julian_day days; S secs;
  double as_mjd() const noexcept { return (double)days.as_underlying_type() + secs.fractional_days(); }
};

template <class S> class datetime {
  modified_julian_day mjd_{0};
  S sec_{0};
  void normalize() noexcept {
    long v = sec_.as_underlying_type(), d = v / S::max_in_day, r = v % S::max_in_day;
    if (r < 0) { r += S::max_in_day; d--; }
    mjd_ += modified_julian_day(d); sec_ = S(r);
  }
public:
  static datetime max() noexcept { return datetime(modified_julian_day(INT_MAX), S(0)); }
  static datetime min() noexcept { return datetime(modified_julian_day(0), S(0)); }
  datetime() noexcept {}
  datetime(modified_julian_day m, S s) noexcept : mjd_(m), sec_(s) { normalize(); }
  datetime(year y, month m, day_of_month d, S s = S(0)) : mjd_(core::cal2mjd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type())), sec_(s) { normalize(); }
  datetime(year y, day_of_year d, S s = S(0)) : mjd_(ydoy2mjd(y, d)), sec_(s) { normalize(); }
  datetime(year y, month m, day_of_month d, hours h, minutes mi, S s = S(0)) : datetime(y, m, d, s) {
    sec_ += S((h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) * S::template sec_factor<long>()); normalize(); }
  datetime(year y, month m, day_of_month d, hours h, minutes mi, double s) : datetime(y, m, d, h, mi, S((long)(s * S::template sec_factor<double>()))) {}
  modified_julian_day mjd() const noexcept { return mjd_; }
  modified_julian_day &mjd() noexcept { return mjd_; }
  S sec() const noexcept { return sec_; }
  double as_mjd() const noexcept { return (double)mjd_.as_underlying_type() + sec_.fractional_days(); }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  double sec_as_day() const noexcept { return sec_.fractional_days(); }
  double jcenturies_sinceJ2000() const noexcept { return ((double)mjd_.as_underlying_type() - j2000_mjd + sec_.fractional_days()) / days_in_julian_cent; }
  template <class T> void add_seconds(T s) noexcept {
    sec_ += S((long)((__int128)s.as_underlying_type() * S::template sec_factor<long>() / T::template sec_factor<long>())); normalize(); }
  template <class T> void remove_seconds(T s) noexcept { add_seconds(-s); }
  S delta_sec(const datetime &d) const noexcept { return S((mjd_ - d.mjd_).as_underlying_type() * S::max_in_day + (sec_ - d.sec_).as_underlying_type()); }
  datetime_interval<S> delta_date(const datetime &d) const noexcept { return {mjd_ - d.mjd_, sec_ - d.sec_}; }
  template <class T> datetime<T> cast_to() const noexcept {
    return datetime<T>(mjd_, T((long)((__int128)sec_.as_underlying_type() * T::template sec_factor<long>() / S::template sec_factor<long>()))); }
  ydoy_date as_ydoy() const noexcept { int y, m, d; core::mjd2cal(mjd_.as_underlying_type(), y, m, d); return {year(y), day_of_year((int)(mjd_.as_underlying_type() - core::cal2mjd(y, 1, 1) + 1))}; }
  ymd_date as_ymd() const noexcept { int y, m, d; core::mjd2cal(mjd_.as_underlying_type(), y, m, d); return {year(y), month(m), day_of_month(d)}; }
  bool operator==(const datetime &o) const noexcept { return mjd_ == o.mjd_ && sec_ == o.sec_; }
  bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  bool operator<(const datetime &o) const noexcept { return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && sec_ < o.sec_); }
  bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  bool operator>(const datetime &o) const noexcept { return o < *this; }
  bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
  datetime operator+(S s) const noexcept { datetime r(*this); r.add_seconds(s); return r; }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType D, class S> double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  return D == DateTimeDifferenceType::FractionalSeconds ? a.delta_sec(b).to_fractional_seconds() : a.delta_date(b).as_mjd();
}

namespace core {
// "YYYY MM DD HH MM SS.f", any single separator; throws std::invalid_argument
inline double parse_ymdhms(const char *str, int *v, char **stop) {
  char *end; const char *s = str;
  for (int i = 0; i < 5; i++) {
    errno = 0;
    long n = std::strtol(s, &end, 10);
    v[i] = (int)std::abs(n < -100000 || n > 100000 ? (errno = ERANGE, 0L) : n);
    if (errno == ERANGE || end == s) { errno = 0; throw std::invalid_argument("invalid date: " + std::string(str)); }
    s = *end ? end + 1 : end;
  }
  errno = 0;
  double sec = std::strtod(s, &end);
  if (errno == ERANGE || end == s || !(sec >= 0 && sec < 1e6)) { errno = 0; throw std::invalid_argument("invalid date: " + std::string(str)); }
  if (stop) *stop = end;
  return sec;
}
} // namespace core
template <class S> datetime<S> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  int v[5]; double sec = core::parse_ymdhms(str, v, stop);
  if (v[3] > 24 || v[4] > 60) throw std::invalid_argument("invalid time of day");
  return datetime<S>(year(v[0]), month(v[1]), day_of_month(v[2]), hours(v[3]), minutes(v[4]), S((long)std::llround(sec * S::template sec_factor<double>())));
}
inline double utc_strptime_ymd_hms(const char *str, modified_julian_day &mjd, char **stop = nullptr) {
  int v[5]; double sec = core::parse_ymdhms(str, v, stop);
  mjd = modified_julian_day(core::cal2mjd(v[0], v[1], v[2]));
  return (v[3] * 3600.0 + v[4] * 60.0 + sec) / 86400.0;
}
template <class S> std::string strftime_ymd_hms(const datetime<S> &t, char delim = ' ') {
  auto d = t.as_ymd(); double s = t.sec().to_fractional_seconds(); int h = (int)(s / 3600), m = (int)((s - h * 3600.0) / 60);
  char b[96]; snprintf(b, sizeof b, "%04d-%02d-%02d%c%02d:%02d:%012.9f", d.__year.as_underlying_type(), d.__month.as_underlying_type(), d.__dom.as_underlying_type(), delim, h, m, s - h * 3600.0 - m * 60.0);
  return b;
}
// fractional day of the target scale; whole day in the last argument
inline double utc2tai(modified_julian_day utc, double fday, modified_julian_day &tai) noexcept {
  double f = fday + core::dat(utc.as_underlying_type()) / 86400e0, k = std::floor(f);
  tai = utc + modified_julian_day((long)k); return f - k;
}
inline double tai2utc(modified_julian_day tai, double fday, modified_julian_day &utc) noexcept {
  long d = tai.as_underlying_type(); double f = fday - core::dat(d) / 86400e0;
  if (f < 0) f = fday - core::dat(d - 1) / 86400e0;
  double k = std::floor(f); utc = modified_julian_day(d + (long)k); return f - k;
}
template <class S> double tai2utc(const datetime<S> &t, modified_julian_day &utc) noexcept { return tai2utc(t.mjd(), t.sec().fractional_days(), utc); }
template <class S> datetime<S> utc2tai(const datetime<S> &t) noexcept { datetime<S> r(t); r.add_seconds(seconds(core::dat(t.mjd().as_underlying_type()))); return r; }
} // namespace dso
#endif
