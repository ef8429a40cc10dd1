// C42: configuration lookups over a stand-in for the parser's nodes.
#include "harness.hpp"
#include "var_utils.hpp"
static YAML::Node node(const vf::Driver::Toks &t, size_t &i) { // n | q | s hex | m count (hex node)*
  YAML::Node n;
  const std::string k = t.at(i++);
  if (k == "q") n.kind = YAML::Node::Sequence;
  if (k == "s") { n.kind = YAML::Node::Scalar; n.v = vf::unhex(t.at(i++).substr(1)); }
  if (k == "m") { n.kind = YAML::Node::Map; const int c = std::atoi(t.at(i++).c_str()); for (int j = 0; j < c; j++) { const std::string key = vf::unhex(t.at(i++).substr(1)); n.m[key] = node(t, i); } }
  return n;
}
template <class T> static int get(const YAML::Node &r, const std::vector<std::string> &p, T &v) {
  try { return p.size() == 2 ? dso::get_yaml_value_depth2(r, p[0].c_str(), p[1].c_str(), v) : dso::get_yaml_value_depth3(r, p[0].c_str(), p[1].c_str(), p[2].c_str(), v); } catch (...) { return -1; }
}
static int get(const YAML::Node &r, const std::vector<std::string> &p, char *v) {
  try { return p.size() == 2 ? dso::get_yaml_value_depth2(r, p[0].c_str(), p[1].c_str(), v) : dso::get_yaml_value_depth3(r, p[0].c_str(), p[1].c_str(), p[2].c_str(), v); } catch (...) { return -1; }
}
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  YAML::Node root;
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "Load") { size_t i = 2; root = node(t, i); std::printf("{\"event\":\"Load\",%s}\n", t[1].c_str()); std::fflush(stdout); }
    else if (t[0] == "Get") { // Get json type key...
      std::vector<std::string> p;
      for (size_t i = 3; i < t.size(); i++) p.push_back(vf::unhex(t[i].substr(1)));
      int rc = 0; long num = vf::WEIRD; std::string text = "(none)";
      if (t[2] == "int") { int v = -424242; rc = get(root, p, v); if (!rc) num = v; }
      else if (t[2] == "real") { double v = -424242; rc = get(root, p, v); if (!rc) num = vf::toi(v * 1e3); }
      else if (t[2] == "str") { std::string v = "(before)"; rc = get(root, p, v); if (!rc) text = v; }
      else { char v[512]; std::memset(v, '#', 511); v[511] = 0; rc = get(root, p, (char *)v); if (!rc) text = v; }
      vf::Ev e("Get");
      e.s += "," + t[1];
      e.i("rc", rc < -1 || rc > 0 ? 1 : rc).i("num", num).str("text", text).out();
    }
  };
  return d.run();
}
