// Stand-in for yaml-cpp: a node is null, a scalar or a string-keyed map; the
// failure modes used by the code under test (missing key, bad conversion) throw.
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace YAML {
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidNode : Exception { using Exception::Exception; };
struct BadConversion : Exception { using Exception::Exception; };
struct BadSubscript : Exception { using Exception::Exception; };
class Node {
  enum Kind { Invalid, Null, Scalar, Map } k_ = Null;
  std::string s_;
  std::shared_ptr<std::map<std::string, Node>> m_;
public:
  Node() = default;
  explicit Node(const std::string &s) : k_(Scalar), s_(s) {}
  static Node map() { Node n; n.k_ = Map; n.m_ = std::make_shared<std::map<std::string, Node>>(); return n; }
  void set(const std::string &k, const Node &v) { (*m_)[k] = v; }
  bool IsDefined() const { return k_ != Invalid; }
  bool IsScalar() const { return k_ == Scalar; }
  bool IsMap() const { return k_ == Map; }
  const std::string &Scalar_() const { return s_; }
  const Node operator[](const std::string &key) const {
    if (k_ == Invalid) throw InvalidNode("invalid node; first invalid key: \"" + key + "\"");
    if (k_ == Scalar) throw BadSubscript("operator[] call on a scalar (key: \"" + key + "\")");
    if (k_ == Map) { auto it = m_->find(key); if (it != m_->end()) return it->second; }
    Node n; n.k_ = Invalid; return n;
  }
  template <class T> T as() const {
    if (k_ == Invalid) throw InvalidNode("invalid node");
    if (k_ != Scalar) throw BadConversion("bad conversion");
    if constexpr (std::is_same_v<T, std::string>) return s_;
    else {
      std::istringstream in(s_); in.unsetf(std::ios::dec); T v{};
      if constexpr (std::is_same_v<T, bool>) { if (s_ == "true") return true; if (s_ == "false") return false; throw BadConversion("bad conversion"); }
      else if ((in >> std::noskipws >> v) && (in >> std::ws).eof()) return v;
      throw BadConversion("bad conversion");
    }
  }
};
} // namespace YAML
