// Minimal stand-in for yaml-cpp: nodes, lookup by name and conversion with its outcomes (see ../README.md).
#ifndef VF_SHIM_YAML_HPP
#define VF_SHIM_YAML_HPP
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
namespace YAML {
class Node {
public:
  enum Kind { Null, Scalar, Sequence, Map };
  std::map<std::string, Node> m;
  std::string v;
  Kind kind{Null};
  bool defined{true};
  Node operator[](const std::string &k) const {
    if (!defined) throw std::runtime_error("invalid node");
    if (kind == Scalar) throw std::runtime_error("operator[] call on a scalar");
    auto i = m.find(k);
    if (i != m.end()) return i->second;
    Node n; n.defined = false; return n;
  }
  explicit operator bool() const { return defined && kind != Null; }
  bool IsDefined() const { return defined; }
  bool IsMap() const { return defined && kind == Map; }
  bool IsScalar() const { return defined && kind == Scalar; }
  bool IsNull() const { return defined && kind == Null; }
  bool IsSequence() const { return defined && kind == Sequence; }
  template <class T> T as() const {
    if (!defined || kind != Scalar) throw std::runtime_error("bad conversion");
    std::istringstream s(v);
    T t;
    if (v.empty() || !(s >> std::noskipws >> t) || !(s >> std::ws).eof()) throw std::runtime_error("bad conversion");
    return t;
  }
};
template <> inline std::string Node::as<std::string>() const { if (!defined || kind != Scalar) throw std::runtime_error("bad conversion"); return v; }
} // namespace YAML
#endif
