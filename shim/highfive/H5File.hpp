// In-memory stand-in for the subset of HighFive (HDF5) used by brille.
// HDF5/HighFive are not available in the sandbox; this shim lets the real
// brille sources be compiled and executed.  It is strict where HDF5 is strict:
// objects must not already exist when created, must exist when opened, reads
// check dimensionality and element type class, numeric classes convert.
#ifndef VERIF_HIGHFIVE_SHIM
#define VERIF_HIGHFIVE_SHIM
#include <algorithm>
#include <array>
#include <cassert>
#include <complex>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace HighFive {

class Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
class FileException : public Exception { using Exception::Exception; };
class DataSetException : public Exception { using Exception::Exception; };
class GroupException : public Exception { using Exception::Exception; };
class AttributeException : public Exception { using Exception::Exception; };
class DataTypeException : public Exception { using Exception::Exception; };

enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };

// ------------------------------------------------------------------- types
class DataType {
public:
  DataType() = default;
  size_t members{0};
};
template<class T> class AtomicType : public DataType {};
template<class T> class EnumType : public DataType {
public:
  struct member_def { std::string name; T value; };
  EnumType(std::initializer_list<member_def> m) : items(m) {
    members = items.size();
    for (size_t i=0; i<items.size(); ++i) for (size_t j=0; j<i; ++j)
      if (items[i].name == items[j].name || items[i].value == items[j].value)
        throw DataTypeException("duplicate enum member");
  }
  std::vector<member_def> items;
};
class CompoundType : public DataType {
public:
  struct member_def {
    member_def(std::string n, DataType) : name(std::move(n)) {}
    std::string name;
  };
  CompoundType(std::initializer_list<member_def> m) : items(m) {
    members = items.size();
    for (size_t i=0; i<items.size(); ++i) for (size_t j=0; j<i; ++j)
      if (items[i].name == items[j].name) throw DataTypeException("duplicate compound member");
  }
  std::vector<member_def> items;
};
template<class T> DataType create_datatype();
template<class T> DataType create_and_check_datatype() { return create_datatype<T>(); }

class DataSpace {
public:
  std::vector<size_t> dims;
};

// ----------------------------------------------------------------- storage
namespace shim {
  enum class Kind { none, integer, uinteger, real, complex, string, opaque };
  struct Value {
    Kind kind{Kind::none};
    std::type_index type{typeid(void)};
    std::vector<size_t> dims; // empty -> scalar
    std::vector<int64_t> i;
    std::vector<uint64_t> u;
    std::vector<double> r;
    std::vector<std::complex<double>> c;
    std::vector<std::string> s;
    std::vector<unsigned char> o; // opaque bytes (enum & compound)
    size_t osize{0};
    size_t count() const { size_t n=1; for (auto d: dims) n*=d; return n; }
  };
  struct Node {
    bool is_group{true};
    std::map<std::string, std::shared_ptr<Node>> children;
    std::map<std::string, Value> attrs;
    Value data;
  };
  struct FileEntry { std::shared_ptr<Node> root; };
  inline std::map<std::string, FileEntry>& registry() { static std::map<std::string, FileEntry> r; return r; }
  inline size_t& op_counter() { static size_t n{0}; return n; }

  template<class T> struct is_cplx : std::false_type {};
  template<class T> struct is_cplx<std::complex<T>> : std::true_type {};

  template<class T> void push(Value& v, const T& x) {
    if constexpr (is_cplx<T>::value) { v.kind = Kind::complex; v.c.emplace_back(x.real(), x.imag()); }
    else if constexpr (std::is_same_v<T, std::string>) { v.kind = Kind::string; v.s.push_back(x); }
    else if constexpr (std::is_enum_v<T> || std::is_class_v<T>) {
      static_assert(std::is_trivially_copyable_v<T>);
      if (v.o.empty()) { (void) create_and_check_datatype<T>(); }
      v.kind = Kind::opaque; v.type = typeid(T); v.osize = sizeof(T);
      auto n = v.o.size(); v.o.resize(n + sizeof(T)); std::memcpy(v.o.data()+n, &x, sizeof(T));
    }
    else if constexpr (std::is_floating_point_v<T>) { v.kind = Kind::real; v.r.push_back(static_cast<double>(x)); }
    else if constexpr (std::is_signed_v<T>) { v.kind = Kind::integer; v.i.push_back(static_cast<int64_t>(x)); }
    else { v.kind = Kind::uinteger; v.u.push_back(static_cast<uint64_t>(x)); }
  }
  template<class T> void set_kind(Value& v) {
    if constexpr (is_cplx<T>::value) v.kind = Kind::complex;
    else if constexpr (std::is_same_v<T, std::string>) v.kind = Kind::string;
    else if constexpr (std::is_enum_v<T> || std::is_class_v<T>) { v.kind = Kind::opaque; v.type = typeid(T); v.osize = sizeof(T); }
    else if constexpr (std::is_floating_point_v<T>) v.kind = Kind::real;
    else if constexpr (std::is_signed_v<T>) v.kind = Kind::integer;
    else v.kind = Kind::uinteger;
  }
  template<class T> T pull(const Value& v, size_t n) {
    if constexpr (is_cplx<T>::value) {
      if (v.kind != Kind::complex) throw DataTypeException("not complex");
      return T(v.c.at(n));
    } else if constexpr (std::is_same_v<T, std::string>) {
      if (v.kind != Kind::string) throw DataTypeException("not string");
      return v.s.at(n);
    } else if constexpr (std::is_enum_v<T> || std::is_class_v<T>) {
      if (v.kind != Kind::opaque || v.type != std::type_index(typeid(T))) throw DataTypeException("wrong opaque type");
      if ((n+1)*sizeof(T) > v.o.size()) throw DataTypeException("opaque out of range");
      T x; std::memcpy(&x, v.o.data()+n*sizeof(T), sizeof(T)); return x;
    } else {
      switch (v.kind) {
        case Kind::integer: return static_cast<T>(v.i.at(n));
        case Kind::uinteger: return static_cast<T>(v.u.at(n));
        case Kind::real: return static_cast<T>(v.r.at(n));
        default: throw DataTypeException("not numeric");
      }
    }
  }
  // ------ container traits
  template<class T> struct conv {
    static void dims(const T&, std::vector<size_t>&) {}
    static void kind(Value& v) { set_kind<T>(v); }
    static void flat(const T& x, Value& v, const std::vector<size_t>&, size_t) { push(v, x); }
    static constexpr size_t rank() { return 0; }
    static void get(T& x, const Value& v, size_t, size_t& n) { x = pull<T>(v, n++); }
  };
  template<class T> struct conv<std::vector<T>> {
    static void dims(const std::vector<T>& x, std::vector<size_t>& d) {
      d.push_back(x.size());
      if (x.size()) conv<T>::dims(x[0], d);
      else for (size_t k=0; k<conv<T>::rank(); ++k) d.push_back(0);
    }
    static void kind(Value& v) { conv<T>::kind(v); }
    static void flat(const std::vector<T>& x, Value& v, const std::vector<size_t>& d, size_t l) {
      if (x.size() != d[l]) throw DataSetException("ragged nested vector");
      for (const auto & y: x) conv<T>::flat(y, v, d, l+1);
    }
    static constexpr size_t rank() { return 1 + conv<T>::rank(); }
    static void get(std::vector<T>& x, const Value& v, size_t l, size_t& n) {
      x.resize(v.dims.at(l));
      for (auto & y: x) conv<T>::get(y, v, l+1, n);
    }
  };
  template<> struct conv<std::vector<bool>>; // not supported by HDF5
  template<class T, size_t N> struct conv<std::array<T,N>> {
    static void dims(const std::array<T,N>& x, std::vector<size_t>& d) { d.push_back(N); conv<T>::dims(x[0], d); }
    static void kind(Value& v) { conv<T>::kind(v); }
    static void flat(const std::array<T,N>& x, Value& v, const std::vector<size_t>& d, size_t l) {
      for (const auto & y: x) conv<T>::flat(y, v, d, l+1);
    }
    static constexpr size_t rank() { return 1 + conv<T>::rank(); }
    static void get(std::array<T,N>& x, const Value& v, size_t l, size_t& n) {
      if (v.dims.at(l) != N) throw DataSetException("array size mismatch");
      for (auto & y: x) conv<T>::get(y, v, l+1, n);
    }
  };
  template<class T> Value to_value(const T& x) {
    Value v; conv<T>::kind(v); conv<T>::dims(x, v.dims); conv<T>::flat(x, v, v.dims, 0); ++op_counter(); return v;
  }
  template<class T> void from_value(T& x, const Value& v) {
    if (conv<T>::rank() != v.dims.size()) throw DataSetException("rank mismatch in read");
    size_t n{0}; conv<T>::get(x, v, 0, n); ++op_counter();
  }
  inline std::vector<std::string> split(const std::string& p) {
    std::vector<std::string> out; std::string cur;
    for (char c: p) { if (c=='/') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur.push_back(c); }
    if (!cur.empty()) out.push_back(cur);
    return out;
  }
}

class Attribute {
  std::shared_ptr<shim::Node> node_; std::string name_;
public:
  Attribute(std::shared_ptr<shim::Node> n, std::string s) : node_(std::move(n)), name_(std::move(s)) {}
  template<class T> void read(T& x) const { shim::from_value(x, node_->attrs.at(name_)); }
  template<class T> T read() const { T x; read(x); return x; }
};

class Object {
public:
  virtual ~Object() = default;
protected:
  Object() = default;
  Object(std::shared_ptr<shim::Node> n, bool w) : node_(std::move(n)), writable_(w) {}
  void need_write() const { if (!writable_) throw FileException("file is read only"); }
  std::shared_ptr<shim::Node> node_;
  bool writable_{true};
public:
  template<class T> Attribute createAttribute(const std::string& name, const T& x) {
    need_write();
    if (node_->attrs.count(name)) throw AttributeException("attribute exists: " + name);
    node_->attrs.emplace(name, shim::to_value(x));
    return {node_, name};
  }
  bool hasAttribute(const std::string& name) const { return node_->attrs.count(name) > 0; }
  Attribute getAttribute(const std::string& name) const {
    if (!hasAttribute(name)) throw AttributeException("no attribute " + name);
    return {node_, name};
  }
};

class DataSet : public Object {
public:
  DataSet(std::shared_ptr<shim::Node> n, bool w) : Object(std::move(n), w) {}
  std::vector<size_t> getDimensions() const { return node_->data.dims; }
  size_t getElementCount() const { return node_->data.count(); }
  template<class T> void read(T& x) const { shim::from_value(x, node_->data); }
  template<class T> void read(T* x) const { auto n = node_->data.count(); for (size_t k=0; k<n; ++k) x[k] = shim::pull<T>(node_->data, k); ++shim::op_counter(); }
  template<class T> T read() const { T x; read(x); return x; }
};

class Group;
class NodeBase : public Object {
protected:
  using Object::Object;
  std::shared_ptr<shim::Node> find(const std::string& name) const {
    auto at = node_;
    for (const auto & p: shim::split(name)) {
      if (!at->is_group) return nullptr;
      auto it = at->children.find(p);
      if (it == at->children.end()) return nullptr;
      at = it->second;
    }
    return at;
  }
  std::shared_ptr<shim::Node> make(const std::string& name) {
    need_write();
    auto parts = shim::split(name);
    if (parts.empty()) throw GroupException("empty name");
    auto at = node_;
    for (size_t k=0; k+1<parts.size(); ++k) {
      auto & c = at->children[parts[k]];
      if (!c) c = std::make_shared<shim::Node>();
      if (!c->is_group) throw GroupException("path component is a dataset");
      at = c;
    }
    if (at->children.count(parts.back())) throw GroupException("name already exists: " + name);
    auto n = std::make_shared<shim::Node>();
    at->children[parts.back()] = n;
    return n;
  }
public:
  bool exist(const std::string& name) const { return find(name) != nullptr; }
  void unlink(const std::string& name) {
    need_write();
    auto parts = shim::split(name);
    auto at = node_;
    for (size_t k=0; k+1<parts.size(); ++k) {
      auto it = at->children.find(parts[k]);
      if (it == at->children.end()) throw GroupException("no such link: " + name);
      at = it->second;
    }
    if (!at->children.erase(parts.back())) throw GroupException("no such link: " + name);
  }
  ObjectType getObjectType(const std::string& name) const {
    auto n = find(name);
    if (!n) throw GroupException("no such object: " + name);
    return n->is_group ? ObjectType::Group : ObjectType::Dataset;
  }
  template<class... V> Group createGroup(const std::string& name, V...);
  Group getGroup(const std::string& name) const;
  template<class T> DataSet createDataSet(const std::string& name, const T& x) {
    auto v = shim::to_value(x);
    auto n = make(name);
    n->is_group = false; n->data = std::move(v);
    return {n, writable_};
  }
  DataSet getDataSet(const std::string& name) const {
    auto n = find(name);
    if (!n || n->is_group) throw DataSetException("no dataset " + name);
    return {n, writable_};
  }
  size_t getNumberObjects() const { return node_->children.size(); }
};
class Group : public NodeBase {
public:
  Group(std::shared_ptr<shim::Node> n, bool w) : NodeBase(std::move(n), w) {}
};
template<class... V> Group NodeBase::createGroup(const std::string& name, V...) { return {make(name), writable_}; }
inline Group NodeBase::getGroup(const std::string& name) const {
  auto n = find(name);
  if (!n || !n->is_group) throw GroupException("no group " + name);
  return {n, writable_};
}

class File : public NodeBase {
public:
  enum : unsigned { ReadOnly=0x00u, ReadWrite=0x01u, Truncate=0x02u, Excl=0x04u, Debug=0x08u, Create=0x10u,
    Overwrite=Truncate, OpenOrCreate=ReadWrite|Create };
  explicit File(const std::string& name, unsigned flags = ReadOnly) {
    auto & reg = shim::registry();
    bool have = reg.count(name) > 0;
    if ((flags & Excl) && have) throw FileException("file exists: " + name);
    if (!have && !(flags & (Create|Truncate|Excl))) throw FileException("no such file: " + name);
    if (!have || (flags & Truncate)) reg[name] = shim::FileEntry{std::make_shared<shim::Node>()};
    node_ = reg[name].root;
    writable_ = (flags & (ReadWrite|Truncate|Excl|Create)) != 0;
  }
};
} // namespace HighFive
#endif
