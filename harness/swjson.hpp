// space weather records as JSON: date, the eight indices and six tenths-valued quantities, the flag
#pragma once
#include "harness.hpp"
#include "celestrak.hpp"
inline std::string swj(const dso::utils::celestrak::details::CelestTrakSWFlux *x, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < n; i++) {
    s += std::string(i ? "," : "") + "{\"d\":" + std::to_string(x[i].mjd_.as_underlying_type()) + ",\"v\":[";
    for (int k = 0; k < 8; k++) s += std::to_string(x[i].ApIndexes[k]) + ",";
    const double v[] = {x[i].ApDailyAverage, x[i].f107Obs, x[i].f107Adj, x[i].f107ObsC81, x[i].f107ObsL81, x[i].f107AdjC81};
    for (int k = 0; k < 6; k++) s += (k ? "," : "") + std::to_string(vf::toi_scaled(v[k], 10));
    s += "],\"f\":" + vf::Ev::esc(std::string(x[i].flag, strnlen(x[i].flag, 5))) + "}";
  }
  return s + "]";
}
