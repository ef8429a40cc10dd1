// Minimal stand-in for the datetime library: only what the sources of the repository use (see ../README.md).
#ifndef VF_SHIM_DATETIME_HPP
#define VF_SHIM_DATETIME_HPP
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <cassert>
namespace dso {
constexpr double mjd0_jd = 2400000.5e0;
constexpr double j2000_jd = 2451545e0;
constexpr double sec_per_day = 86400e0;
constexpr double days_in_julian_cent = 36525e0;
#define VF_INT_TYPE(NAME)                                                                                                        \
  class NAME {                                                                                                                  \
    int v{0};                                                                                                                   \
  public:                                                                                                                       \
    typedef int underlying_type;                                                                                                \
    constexpr NAME() noexcept {}                                                                                                \
    explicit constexpr NAME(int i) noexcept : v(i) {}                                                                           \
    constexpr int as_underlying_type() const noexcept { return v; }                                                             \
    constexpr bool operator==(NAME o) const noexcept { return v == o.v; }                                                       \
    constexpr bool operator!=(NAME o) const noexcept { return v != o.v; }                                                       \
  };
VF_INT_TYPE(year)
VF_INT_TYPE(month)
VF_INT_TYPE(day_of_month)
VF_INT_TYPE(day_of_year)
VF_INT_TYPE(hours)
VF_INT_TYPE(minutes)
#undef VF_INT_TYPE
// civil date -> MJD (proleptic Gregorian)
constexpr long vf_civil2mjd(long y, int m, int d) noexcept {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
constexpr void vf_mjd2civil(long mjd, int &y, int &m, int &d) noexcept {
  long z = mjd - 40587 + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1);
  m = (int)(mp < 10 ? mp + 3 : mp - 9);
  y = (int)(yoe + era * 400 + (m <= 2));
}
inline void vf_valid(int y, int m, int d) {
  const int dm[] = {31, 28 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (m < 1 || m > 12 || d < 1 || d > dm[m - 1]) throw std::out_of_range("invalid calendar date");
}
struct ydoy_date { year __year; day_of_year __doy; };
class modified_julian_day {
  long v{0};
public:
  typedef long underlying_type;
  constexpr modified_julian_day() noexcept {}
  explicit constexpr modified_julian_day(long i) noexcept : v(i) {}
  modified_julian_day(year y, month m, day_of_month d) : v(vf_civil2mjd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type())) { vf_valid(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type()); }
  constexpr modified_julian_day(year y, day_of_year d) noexcept : v(vf_civil2mjd(y.as_underlying_type(), 1, 1) + d.as_underlying_type() - 1) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  static constexpr modified_julian_day max() noexcept { return modified_julian_day(std::numeric_limits<int>::max()); }
  static constexpr modified_julian_day min() noexcept { return modified_julian_day(std::numeric_limits<int>::min()); }
  constexpr modified_julian_day &operator+=(modified_julian_day o) noexcept { v += o.v; return *this; }
  constexpr modified_julian_day &operator-=(modified_julian_day o) noexcept { v -= o.v; return *this; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v + o.v); }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v - o.v); }
  constexpr modified_julian_day &operator++() noexcept { ++v; return *this; }
  constexpr modified_julian_day &operator--() noexcept { --v; return *this; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v == o.v; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v != o.v; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v < o.v; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v <= o.v; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v > o.v; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v >= o.v; }
  constexpr double to_julian_day() const noexcept { return v + mjd0_jd; }
  ydoy_date to_ydoy() const noexcept {
    int y = 0, m = 0, d = 0;
    vf_mjd2civil(v, y, m, d);
    return {year(y), day_of_year((int)(v - vf_civil2mjd(y, 1, 1) + 1))};
  }
};
inline modified_julian_day ydoy2mjd(year y, day_of_year d) noexcept { return modified_julian_day(y, d); }
inline modified_julian_day ydoy2mjd(int y, int d) noexcept { return modified_julian_day(year(y), day_of_year(d)); }
#define VF_SEC_TYPE(NAME, FACTOR)                                                                                                \
  class NAME {                                                                                                                  \
    long v{0};                                                                                                                  \
  public:                                                                                                                       \
    typedef long underlying_type;                                                                                               \
    static constexpr bool is_of_sec_type{true};                                                                                 \
    static constexpr long max_in_day{86400L * FACTOR};                                                                          \
    template <typename T = long> static constexpr T sec_factor() noexcept { return static_cast<T>(FACTOR); }                    \
    constexpr NAME() noexcept {}                                                                                                \
    explicit constexpr NAME(long i) noexcept : v(i) {}                                                                          \
    constexpr long as_underlying_type() const noexcept { return v; }                                                            \
    constexpr double to_fractional_seconds() const noexcept { return v / (double)FACTOR; }                                      \
    constexpr double fractional_days() const noexcept { return v / (double)max_in_day; }                                        \
    constexpr bool operator==(NAME o) const noexcept { return v == o.v; }                                                       \
    constexpr bool operator!=(NAME o) const noexcept { return v != o.v; }                                                       \
    constexpr bool operator<(NAME o) const noexcept { return v < o.v; }                                                         \
    constexpr bool operator<=(NAME o) const noexcept { return v <= o.v; }                                                       \
    constexpr bool operator>(NAME o) const noexcept { return v > o.v; }                                                         \
    constexpr bool operator>=(NAME o) const noexcept { return v >= o.v; }                                                       \
    constexpr NAME operator+(NAME o) const noexcept { return NAME(v + o.v); }                                                   \
    constexpr NAME operator-(NAME o) const noexcept { return NAME(v - o.v); }                                                   \
    constexpr NAME &operator+=(NAME o) noexcept { v += o.v; return *this; }                                                     \
    constexpr NAME &operator-=(NAME o) noexcept { v -= o.v; return *this; }                                                     \
  };
VF_SEC_TYPE(seconds, 1L)
VF_SEC_TYPE(milliseconds, 1000L)
VF_SEC_TYPE(microseconds, 1000000L)
VF_SEC_TYPE(nanoseconds, 1000000000L)
#undef VF_SEC_TYPE
template <class S> class datetime_interval {
  modified_julian_day d;
  S s;
public:
  constexpr datetime_interval(modified_julian_day dd, S ss) noexcept : d(dd), s(ss) {}
  constexpr double as_mjd() const noexcept { return d.as_underlying_type() + s.as_underlying_type() / (double)S::max_in_day; }
  constexpr modified_julian_day days() const noexcept { return d; }
  constexpr S sec() const noexcept { return s; }
};
template <class S> class datetime {
  modified_julian_day d;
  S s;
  constexpr void normalize() noexcept {
    long n = s.as_underlying_type(), q = n / S::max_in_day, r = n % S::max_in_day;
    if (r < 0) { r += S::max_in_day; --q; }
    d += modified_julian_day(q);
    s = S(r);
  }
public:
  constexpr datetime() noexcept : d(33282), s(0) {}
  constexpr datetime(modified_julian_day dd, S ss = S(0)) noexcept : d(dd), s(ss) { normalize(); }
  constexpr datetime(int dd, S ss) noexcept : d(dd), s(ss) { normalize(); }
  constexpr datetime(modified_julian_day dd, double fday) noexcept : d(dd), s((long)std::llround(fday * S::max_in_day)) { normalize(); }
  datetime(year y, month m, day_of_month dd, S ss = S(0)) : d(y, m, dd), s(ss) { normalize(); }
  datetime(year y, month m, day_of_month dd, hours h, minutes mi, S ss = S(0)) : d(y, m, dd), s(ss.as_underlying_type() + (h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) * S::template sec_factor<long>()) { normalize(); }
  constexpr datetime(year y, day_of_year dd, S ss = S(0)) noexcept : d(y, dd), s(ss) { normalize(); }
  static constexpr datetime max() noexcept { return datetime(modified_julian_day::max(), S(0)); }
  static constexpr datetime min() noexcept { return datetime(modified_julian_day::min(), S(0)); }
  constexpr modified_julian_day mjd() const noexcept { return d; }
  constexpr S sec() const noexcept { return s; }
  ydoy_date as_ydoy() const noexcept { return d.to_ydoy(); }
  constexpr double as_mjd() const noexcept { return d.as_underlying_type() + s.as_underlying_type() / (double)S::max_in_day; }
  constexpr double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  constexpr double jcenturies_sinceJ2000() const noexcept { return (as_mjd() + mjd0_jd - j2000_jd) / days_in_julian_cent; }
  constexpr S delta_sec(const datetime &o) const noexcept { return S((d - o.d).as_underlying_type() * S::max_in_day + (s - o.s).as_underlying_type()); }
  constexpr datetime_interval<S> delta_date(const datetime &o) const noexcept {
    datetime t(modified_julian_day((d - o.d).as_underlying_type()), S((s - o.s).as_underlying_type()));
    return datetime_interval<S>(t.d, t.s);
  }
  template <class T> constexpr void add_seconds(T t) noexcept { s = S(s.as_underlying_type() + (long)(t.as_underlying_type() * (S::template sec_factor<double>() / T::template sec_factor<double>()))); normalize(); }
  template <class T> constexpr void remove_seconds(T t) noexcept { s = S(s.as_underlying_type() - (long)(t.as_underlying_type() * (S::template sec_factor<double>() / T::template sec_factor<double>()))); normalize(); }
  template <class T> constexpr datetime<T> cast_to() const noexcept { return datetime<T>(d, T((long)((double)s.as_underlying_type() * (T::template sec_factor<double>() / S::template sec_factor<double>())))); }
  constexpr bool operator==(const datetime &o) const noexcept { return d == o.d && s == o.s; }
  constexpr bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  constexpr bool operator<(const datetime &o) const noexcept { return d < o.d || (d == o.d && s < o.s); }
  constexpr bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  constexpr bool operator>(const datetime &o) const noexcept { return o < *this; }
  constexpr bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType DT, class S> constexpr double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  const double sec = (double)(a.mjd() - b.mjd()).as_underlying_type() * 86400e0 + (a.sec().as_underlying_type() - b.sec().as_underlying_type()) / S::template sec_factor<double>();
  return DT == DateTimeDifferenceType::FractionalSeconds ? sec : sec / 86400e0;
}
// reading: YYYY?MM?DD?hh?mm?ss.sss with any one-character separators; throws on anything else
inline double vf_fields(const char *str, int (&v)[5], char **stop) {
  const char *p = str;
  char *end;
  struct Keep { int e = errno; ~Keep() { errno = e; } } keep;
  for (int i = 0; i < 5; i++) {
    errno = 0;
    v[i] = (int)std::labs(std::strtol(p, &end, 10));
    if (errno == ERANGE || end == p) { throw std::invalid_argument(std::string("Invalid date format: \"") + str + "\""); }
    p = end + (*end ? 1 : 0);
  }
  errno = 0;
  const double sec = std::strtod(p, &end);
  if (errno == ERANGE || end == p) { throw std::invalid_argument(std::string("Invalid date format: \"") + str + "\""); }
  if (stop) *stop = end;
  if (v[3] > 23 || v[4] > 59 || sec < 0 || sec >= 61) throw std::out_of_range("invalid time of day");
  return sec;
}
template <class S> datetime<S> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  int v[5];
  const double sec = vf_fields(str, v, stop);
  return datetime<S>(year(v[0]), month(v[1]), day_of_month(v[2]), hours(v[3]), minutes(v[4]), S(std::llround(sec * S::template sec_factor<double>())));
}
template <class S> std::string strftime_ymd_hms(const datetime<S> &t) {
  int y, m, d;
  vf_mjd2civil(t.mjd().as_underlying_type(), y, m, d);
  const double s = t.sec().to_fractional_seconds();
  char b[64];
  std::snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%012.9f", y, m, d, (int)(s / 3600), (int)(s / 60) % 60, std::fmod(s, 60));
  return b;
}
// time scales
inline int dat(modified_julian_day m) noexcept {
  static const long at[][2] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16}, {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23}, {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int n = 0;
  for (auto &a : at) if (m.as_underlying_type() >= a[0]) n = (int)a[1];
  return n;
}
inline int dat(double mjd, int &extra) noexcept { // extra: seconds the day is longer by
  const modified_julian_day d((int)mjd), n((int)mjd + 1);
  extra = dat(n) - dat(d);
  return dat(d);
}
inline double utc2tai(modified_julian_day m, double fday, modified_julian_day &tai) noexcept {
  double f = fday + dat(m) / 86400e0;
  tai = m;
  if (f >= 1e0) { f -= 1e0; ++tai; }
  return f;
}
inline double tai2utc(modified_julian_day m, double fday, modified_julian_day &utc) noexcept {
  double f = fday - dat(m) / 86400e0;
  utc = m;
  if (f < 0e0) { f += 1e0; --utc; }
  return f;
}
template <class S> double tai2utc(const datetime<S> &t, modified_julian_day &utc) noexcept { return tai2utc(t.mjd(), t.sec().fractional_days(), utc); }
inline double utc_strptime_ymd_hms(const char *str, modified_julian_day &mjd, char **stop = nullptr) {
  int v[5];
  const double sec = vf_fields(str, v, stop);
  mjd = modified_julian_day(year(v[0]), month(v[1]), day_of_month(v[2]));
  return (v[3] * 3600e0 + v[4] * 60e0 + sec) / 86400e0;
}
} // namespace dso
#endif
