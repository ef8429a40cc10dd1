// C28: loading of SPICE kernels on demand, over a stand-in of the toolkit's kernel pool (documented behaviour of
// furnsh_c, unload_c, ktotal_c, kdata_c, kinfo_c: one entry per load in load order, kinds, truncated names).
#include "harness.hpp"
#include "datetime/dtcalendar.hpp"
#include <map>
#include <type_traits>
#include <strings.h>
#include "planetpos.hpp"
struct File { std::string kind; long gm; std::vector<std::string> kids; };
struct Entry { std::string file, source; int handle; };
static std::map<std::string, File> disk;
static std::vector<std::string> names;
static std::vector<Entry> pool;
static int handles = 0;
struct Call { int n = 0, target = 0, obs = 0; std::string ref, corr, sys; double et = 0; } call;
static void put(char *dst, int len, const std::string &s) { if (len > 0) { std::strncpy(dst, s.c_str(), len - 1); dst[std::min<size_t>(len - 1, s.size())] = 0; } }
static bool is_kind(const Entry &e, const char *kinds) { // a list of kinds, in any letter case
  std::istringstream ss(kinds);
  std::string w;
  while (ss >> w) if (!strcasecmp(w.c_str(), "all") || !strcasecmp(w.c_str(), disk[e.file].kind.c_str())) return true;
  return false;
}
extern "C" {
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count) { *count = 0; for (auto &e : pool) *count += is_kind(e, kind); }
static void tell(const Entry *e, SpiceInt typlen, SpiceInt srclen, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found) {
  *found = e != nullptr;
  std::string k = e ? disk[e->file].kind : "";
  for (auto &c : k) c = std::toupper(c);
  put(filtyp, typlen, k); put(srcfil, srclen, e ? e->source : "");
  *handle = e ? e->handle : 0;
}
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt fillen, SpiceInt typlen, SpiceInt srclen, SpiceChar *file, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found) {
  const Entry *hit = nullptr;
  int k = 0;
  for (auto &e : pool) if (is_kind(e, kind) && k++ == which) hit = &e;
  put(file, fillen, hit ? hit->file : "");
  tell(hit, typlen, srclen, filtyp, srcfil, handle, found);
}
void kinfo_c(ConstSpiceChar *file, SpiceInt typlen, SpiceInt srclen, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found) {
  const Entry *hit = nullptr;
  for (auto &e : pool) if (e.file == file) hit = &e;
  tell(hit, typlen, srclen, filtyp, srcfil, handle, found);
}
void furnsh_c(ConstSpiceChar *file) {
  const auto it = disk.find(file);
  if (it == disk.end()) return; // the toolkit signals an error
  pool.push_back({file, "", it->second.kind == "spk" || it->second.kind == "pck" ? ++handles : 0});
  for (auto &k : it->second.kids) pool.push_back({k, file, ++handles});
}
static void drop(const std::string &f) { for (size_t i = pool.size(); i--;) if (pool[i].file == f) { pool.erase(pool.begin() + i); return; } }
void unload_c(ConstSpiceChar *file) {
  const std::string f(file);
  bool in = false;
  for (auto &e : pool) in |= e.file == f;
  if (!in) return;
  drop(f);
  for (auto &k : disk[f].kids) drop(k);
}
void kclear_c(void) { pool.clear(); }
void bodvrd_c(ConstSpiceChar *body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values) {
  *dim = 0;
  if (maxn < 1 || strcasecmp(item, "GM")) return;
  for (auto &e : pool) if (const long gm = disk[e.file].gm; gm) { *dim = 1; *values = !strcasecmp(body, "SUN") ? gm : !strcasecmp(body, "MOON") ? gm + 1 : -1; }
}
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys) { call.sys = std::string(insys) + "/" + outsys; return (epoch - 2451545e0) * 86400e0; }
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, SpiceInt obs, SpiceDouble ptarg[3], SpiceDouble *lt) {
  call.n++; call.target = targ; call.et = et; call.ref = ref; call.corr = abcorr; call.obs = obs;
  ptarg[0] = 1; ptarg[1] = 2; ptarg[2] = 3; *lt = 0;
}
}
static vf::Ev &shown(vf::Ev &e) {
  std::vector<long> v;
  for (auto &p : pool) { long k = 0; while (k < (long)names.size() && names[k] != p.file) ++k; v.push_back(k + 1); }
  return e.arr("pool", v);
}
int main() {
  vf::Driver d;
  d.begin = [] { disk.clear(); names.clear(); pool.clear(); handles = 0; };
  d.cmd = [&](vf::Driver::Toks &t) {
    const std::string &op = t[0];
    auto name = [&](int i) { return names.at(std::atoi(t[i].c_str()) - 1); };
    if (op == "File") { // File name kind gm kids...
      File f{t[2], std::atol(t[3].c_str()), {}};
      for (size_t i = 4; i < t.size(); i++) f.kids.push_back(t[i]);
      disk[t[1]] = f; names.push_back(t[1]);
    } else if (op == "load") { dso::cspice::load_kernel(name(1).c_str()); vf::Ev e("load"); shown(e.i("f", std::atol(t[1].c_str()))).out(); }
    else if (op == "unload") { unload_c(name(1).c_str()); vf::Ev e("unload"); shown(e.i("f", std::atol(t[1].c_str()))).out(); }
    else if (op == "clear") { kclear_c(); vf::Ev e("clear"); shown(e).out(); }
    else if (op == "lsk" || op == "spk" || op == "pck") {
      const std::string n = name(1);
      const int rc = op == "lsk" ? dso::cspice::load_if_unloaded_lsk(n.c_str()) : op == "spk" ? dso::cspice::load_if_unloaded_spk(n.c_str()) : dso::cspice::load_if_unloaded_pck(n.c_str());
      vf::Ev e("request");
      shown(e.i("rc", rc).i("f", std::atol(t[1].c_str()))).out();
    } else if (op == "gm") { // gm f (0: none)
      double s = -1, m = -1;
      const long f = std::atol(t[1].c_str());
      const std::string n = f ? name(1) : "";
      const int rc = dso::get_sun_moon_GM(f ? n.c_str() : nullptr, s, m);
      vf::Ev e("gm");
      shown(e.i("rc", rc).i("f", f).i("sun", vf::toi(s)).i("moon", vf::toi(m))).out();
    } else if (op == "pos") { // pos sun|moon t8
      call = Call();
      double r[3] = {0, 0, 0};
      const long t8 = std::atol(t[2].c_str()); // eighths of a day from J2000 (51544.5)
      const long h = t8 + 4, day = h >= 0 ? h / 8 : -((-h + 7) / 8);
      const dso::datetime<dso::nanoseconds> tt(dso::modified_julian_day(51544 + day), dso::nanoseconds((h - 8 * day) * 10800L * 1000000000L));
      const int rc = t[1] == "sun" ? dso::sun_vector_cspice(tt, r) : dso::moon_vector_cspice(tt, r);
      vf::Ev e("pos");
      e.str("body", t[1]).i("rc", rc).i("t8", t8).i("n", call.n).i("target", call.target).i("obs", call.obs).str("ref", call.ref).str("corr", call.corr).str("sys", call.sys).i("et8", vf::toi_scaled(call.et, 1 / 10800.)).raw("xyz", "[" + std::to_string(vf::toi(r[0])) + "," + std::to_string(vf::toi(r[1])) + "," + std::to_string(vf::toi(r[2])) + "]").out();
    }
  };
  return d.run();
}
