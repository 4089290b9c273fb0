// Stand-in for the part of HighFive that the repository uses (the library is not installed here): groups, data sets and
// attributes in a tree that is kept in a file. Numbers convert on reading as HDF5 does (out of range: the nearest value).
#pragma once

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace HighFive
{
struct Exception : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

namespace shim
{
enum Kind : uint8_t { integer, natural, real, text };

struct Value
{
    Kind kind = integer;
    unsigned bytes = 8;  // of a real number
    bool scalar = false;
    std::vector<int64_t> i;
    std::vector<uint64_t> u;
    std::vector<double> d;
    std::vector<std::string> s;
    size_t size() const { return kind == integer ? i.size() : kind == natural ? u.size() : kind == real ? d.size() : s.size(); }
};

struct Node
{
    bool dataset = false;
    Value value;
    std::map<std::string, Value> attributes;
    std::map<std::string, std::shared_ptr<Node>> children;
};

template <class T>
void put(Value &v, const T &x)
{
    if constexpr (std::is_same_v<T, std::string>) v.kind = text, v.s.push_back(x);
    else if constexpr (std::is_floating_point_v<T>) v.kind = real, v.bytes = sizeof(T), v.d.push_back(x);
    else if constexpr (std::is_unsigned_v<T>) v.kind = natural, v.u.push_back(x);
    else v.kind = integer, v.i.push_back(x);
}

template <class T>
void set_kind(Value &v)
{
    Value other;
    put<T>(other, T{});
    v.kind = other.kind;
    v.bytes = other.bytes;
}

template <class T>
struct is_list : std::false_type {};
template <class T>
struct is_list<std::vector<T>> : std::true_type {};
template <class T, size_t n>
struct is_list<std::array<T, n>> : std::true_type {};

template <class T>
Value make(const T &x)
{
    Value v;
    if constexpr (is_list<T>::value)
    {
        set_kind<typename T::value_type>(v);
        for (const auto &y : x) put<typename T::value_type>(v, y);
    }
    else
    {
        put<T>(v, x);
        v.scalar = true;
    }
    return v;
}

template <class T, class F>
T number(F x)
{
    if constexpr (std::is_same_v<T, bool>) return x != 0;
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(x);
    else
    {
        using L = std::numeric_limits<T>;
        if constexpr (std::is_floating_point_v<F>)
        {
            if (!(x > static_cast<F>(L::min()))) return L::min();
            if (x >= static_cast<F>(L::max())) return L::max();
            return static_cast<T>(x);
        }
        else if constexpr (std::is_signed_v<F>)
        {
            if (x < 0) return std::is_unsigned_v<T> ? T(0) : x < static_cast<int64_t>(L::min()) ? L::min() : static_cast<T>(x);
            return static_cast<uint64_t>(x) > static_cast<uint64_t>(L::max()) ? L::max() : static_cast<T>(x);
        }
        else return x > static_cast<uint64_t>(L::max()) ? L::max() : static_cast<T>(x);
    }
}

template <class T>
T get(const Value &v, size_t k)
{
    if constexpr (std::is_same_v<T, std::string>)
    {
        if (v.kind != text) throw Exception("not a string");
        return v.s[k];
    }
    else switch (v.kind)
    {
        case integer: return number<T>(v.i[k]);
        case natural: return number<T>(v.u[k]);
        case real: return number<T>(v.d[k]);
        default: throw Exception("not a number");
    }
}

template <class T>
void read(const Value &v, T &x)
{
    if constexpr (is_list<T>::value)
    {
        if constexpr (std::is_same_v<T, std::vector<typename T::value_type>>) x.resize(v.size());
        else if (x.size() != v.size()) throw Exception("wrong size");
        for (size_t k = 0; k < v.size(); ++k) x[k] = get<typename T::value_type>(v, k);
    }
    else
    {
        if (v.size() != 1) throw Exception("not a scalar");
        x = get<T>(v, 0);
    }
}

inline void out(std::ostream &o, uint64_t x) { o.write(reinterpret_cast<const char *>(&x), 8); }
inline uint64_t in(std::istream &i)
{
    uint64_t x = 0;
    i.read(reinterpret_cast<char *>(&x), 8);
    if (!i) throw Exception("the file is cut off");
    return x;
}
inline void out(std::ostream &o, const std::string &s)
{
    out(o, s.size());
    o.write(s.data(), static_cast<std::streamsize>(s.size()));
}
inline std::string in_text(std::istream &i)
{
    std::string s(in(i), 0);
    i.read(s.data(), static_cast<std::streamsize>(s.size()));
    return s;
}
inline void out(std::ostream &o, const Value &v)
{
    out(o, v.kind);
    out(o, v.bytes);
    out(o, v.scalar);
    out(o, v.size());
    for (auto x : v.i) out(o, static_cast<uint64_t>(x));
    for (auto x : v.u) out(o, x);
    for (double x : v.d)
    {
        uint64_t b;
        std::memcpy(&b, &x, 8);
        out(o, b);
    }
    for (auto &x : v.s) out(o, x);
}
inline Value in_value(std::istream &i)
{
    Value v;
    v.kind = static_cast<Kind>(in(i));
    v.bytes = static_cast<unsigned>(in(i));
    v.scalar = in(i);
    for (size_t n = in(i); n; --n) switch (v.kind)
    {
        case integer: v.i.push_back(static_cast<int64_t>(in(i))); break;
        case natural: v.u.push_back(in(i)); break;
        case text: v.s.push_back(in_text(i)); break;
        default:
        {
            const uint64_t b = in(i);
            double x;
            std::memcpy(&x, &b, 8);
            v.d.push_back(x);
        }
    }
    return v;
}
inline void out(std::ostream &o, const Node &n)
{
    out(o, n.dataset);
    if (n.dataset) out(o, n.value);
    out(o, n.attributes.size());
    for (auto &[k, v] : n.attributes) out(o, k), out(o, v);
    out(o, n.children.size());
    for (auto &[k, v] : n.children) out(o, k), out(o, *v);
}
inline std::shared_ptr<Node> in_node(std::istream &i)
{
    auto n = std::make_shared<Node>();
    n->dataset = in(i);
    if (n->dataset) n->value = in_value(i);
    for (size_t k = in(i); k; --k)
    {
        auto name = in_text(i);
        n->attributes[name] = in_value(i);
    }
    for (size_t k = in(i); k; --k)
    {
        auto name = in_text(i);
        n->children[name] = in_node(i);
    }
    return n;
}

// An open file: written when the last handle to anything in it goes.
struct Open
{
    std::string path;
    bool writable = false;
    Node root;
    ~Open() { write(); }
    void write() const
    {
        if (!writable) return;
        std::ofstream o(path, std::ios::binary);
        o << "vp-h5";
        out(o, root);
    }
};
}  // namespace shim

class DataSpace
{
public:
    explicit DataSpace(std::vector<size_t> dimensions) : dimensions_(std::move(dimensions)) {}
    explicit DataSpace(size_t size) : dimensions_{size} {}
    template <class T>
    static DataSpace From(const T &x)
    {
        if constexpr (shim::is_list<T>::value) return DataSpace(std::vector<size_t>{x.size()});
        else return DataSpace(std::vector<size_t>{});
    }
    std::vector<size_t> getDimensions() const { return dimensions_; }
    size_t getNumberDimensions() const { return dimensions_.size(); }
    size_t getElementCount() const { return dimensions_.empty() ? 1 : dimensions_[0]; }

private:
    std::vector<size_t> dimensions_;
};

namespace shim
{
// A value of zeros.
template <class T>
Value zeros(const DataSpace &space)
{
    Value v;
    set_kind<T>(v);
    for (size_t k = space.getElementCount(); k; --k) put<T>(v, T{});
    v.scalar = !space.getNumberDimensions();
    return v;
}
inline DataSpace space(const Value &v) { return DataSpace(v.scalar ? std::vector<size_t>{} : std::vector<size_t>{v.size()}); }

// Writing keeps the type of numbers.
template <class T>
void write(Value &v, const T &x)
{
    const Value other = make(x);
    if (other.size() != v.size() || (other.kind == text) != (v.kind == text)) throw Exception("wrong size or type");
    for (size_t k = 0; k < v.size(); ++k) switch (v.kind)
    {
        case integer: v.i[k] = get<int64_t>(other, k); break;
        case natural: v.u[k] = get<uint64_t>(other, k); break;
        case real: v.d[k] = v.bytes == 4 ? get<float>(other, k) : get<double>(other, k); break;
        default: v.s[k] = other.s[k];
    }
}
}  // namespace shim

class Attribute
{
public:
    explicit Attribute(shim::Value &v) : value_(&v) {}
    template <class T>
    T read() const
    {
        T x{};
        shim::read(*value_, x);
        return x;
    }
    template <class T>
    void read(T &x) const { shim::read(*value_, x); }
    template <class T>
    void write(const T &x) { shim::write(*value_, x); }
    DataSpace getSpace() const { return shim::space(*value_); }

private:
    shim::Value *value_;
};

enum class ObjectType { Group, Dataset };

class Object
{
public:
    Object(std::shared_ptr<shim::Open> file, shim::Node *node) : file_(std::move(file)), node_(node) {}

    bool hasAttribute(const std::string &name) const { return node_->attributes.count(name); }
    Attribute getAttribute(const std::string &name) const
    {
        auto i = node_->attributes.find(name);
        if (i == node_->attributes.end()) throw Exception("no attribute " + name);
        return Attribute(i->second);
    }
    template <class T>
    Attribute createAttribute(const std::string &name, const T &value)
    {
        check_writable();
        const auto [i, fresh] = node_->attributes.emplace(name, shim::make(value));
        if (!fresh) throw Exception("attribute exists: " + name);
        return Attribute(i->second);
    }
    template <class T>
    Attribute createAttribute(const std::string &name, const DataSpace &space)
    {
        check_writable();
        const auto [i, fresh] = node_->attributes.emplace(name, shim::zeros<T>(space));
        if (!fresh) throw Exception("attribute exists: " + name);
        return Attribute(i->second);
    }
    void deleteAttribute(const std::string &name)
    {
        check_writable();
        if (!node_->attributes.erase(name)) throw Exception("no attribute " + name);
    }
    std::vector<std::string> listAttributeNames() const
    {
        std::vector<std::string> r;
        for (auto &a : node_->attributes) r.push_back(a.first);
        return r;
    }
    size_t getNumberAttributes() const { return node_->attributes.size(); }

protected:
    void check_writable() const
    {
        if (!file_->writable) throw Exception("the file is open for reading only");
    }
    std::shared_ptr<shim::Open> file_;
    shim::Node *node_;
};

class DataSet : public Object
{
public:
    using Object::Object;
    std::vector<size_t> getDimensions() const { return node_->value.scalar ? std::vector<size_t>{} : std::vector<size_t>{node_->value.size()}; }
    size_t getElementCount() const { return node_->value.size(); }
    template <class T>
    T read() const
    {
        T x{};
        shim::read(node_->value, x);
        return x;
    }
    template <class T>
    void read(T &x) const { shim::read(node_->value, x); }
    template <class T>
    void write(const T &x)
    {
        check_writable();
        shim::write(node_->value, x);
    }
    DataSpace getSpace() const { return shim::space(node_->value); }
    DataSpace getMemSpace() const { return getSpace(); }
};

class Group : public Object
{
public:
    using Object::Object;

    bool exist(const std::string &path) const { return find(path); }
    Group createGroup(const std::string &path)
    {
        check_writable();
        shim::Node *n = node_;
        bool made = false;
        for (auto &part : split(path))
        {
            auto &c = n->children[part];
            made = !c;
            if (!c) c = std::make_shared<shim::Node>();
            if (c->dataset) throw Exception("not a group: " + part);
            n = c.get();
        }
        if (!made) throw Exception("group exists: " + path);
        return Group(file_, n);
    }
    Group getGroup(const std::string &path) const
    {
        auto *n = find(path);
        if (!n || n->dataset) throw Exception("no group " + path);
        return Group(file_, n);
    }
    DataSet getDataSet(const std::string &path) const
    {
        auto *n = find(path);
        if (!n || !n->dataset) throw Exception("no data set " + path);
        return DataSet(file_, n);
    }
    template <class T>
    DataSet createDataSet(const std::string &name, const T &value)
    {
        return create(name, shim::make(value));
    }
    template <class T>
    DataSet createDataSet(const std::string &name, const DataSpace &space)
    {
        return create(name, shim::zeros<T>(space));
    }
    ObjectType getObjectType(const std::string &path) const
    {
        auto *n = find(path);
        if (!n) throw Exception("no object " + path);
        return n->dataset ? ObjectType::Dataset : ObjectType::Group;
    }
    void unlink(const std::string &name)
    {
        check_writable();
        if (!node_->children.erase(name)) throw Exception("no object " + name);
    }
    size_t getNumberObjects() const { return node_->children.size(); }
    std::string getObjectName(size_t i) const
    {
        if (i >= node_->children.size()) throw Exception("no such object");
        return std::next(node_->children.begin(), static_cast<std::ptrdiff_t>(i))->first;
    }
    std::vector<std::string> listObjectNames() const
    {
        std::vector<std::string> r;
        for (auto &c : node_->children) r.push_back(c.first);
        return r;
    }

private:
    DataSet create(const std::string &name, shim::Value value)
    {
        check_writable();
        auto parts = split(name);
        shim::Node *n = node_;
        for (size_t i = 0; i + 1 < parts.size(); ++i)
        {
            auto &c = n->children[parts[i]];
            if (!c) c = std::make_shared<shim::Node>();
            n = c.get();
        }
        auto &c = n->children[parts.back()];
        if (c) throw Exception("object exists: " + name);
        c = std::make_shared<shim::Node>();
        c->dataset = true;
        c->value = std::move(value);
        return DataSet(file_, c.get());
    }
    static std::vector<std::string> split(const std::string &path)
    {
        std::vector<std::string> r;
        std::istringstream s(path);
        for (std::string p; std::getline(s, p, '/');)
            if (!p.empty()) r.push_back(p);
        return r;
    }
    shim::Node *find(const std::string &path) const
    {
        shim::Node *n = node_;
        for (auto &part : split(path))
        {
            auto i = n->children.find(part);
            if (i == n->children.end()) return nullptr;
            n = i->second.get();
        }
        return n;
    }
};

class File : public Group
{
public:
    enum AccessMode : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Create = 16, Overwrite = 2, OpenOrCreate = 17 };

    explicit File(const std::string &path, unsigned mode = ReadOnly) : File(open(path, mode)) {}
    void flush() { file_->write(); }
    std::string getName() const { return file_->path; }

private:
    explicit File(std::shared_ptr<shim::Open> f) : Group(f, &f->root) {}
    static std::shared_ptr<shim::Open> open(const std::string &path, unsigned mode)
    {
        auto f = std::make_shared<shim::Open>();
        f->path = path;
        if (!(mode & Truncate))
        {
            std::ifstream i(path, std::ios::binary);
            char magic[5] = {};
            i.read(magic, 5);
            const bool readable = i && !std::memcmp(magic, "vp-h5", 5);
            if (!readable && ((mode & Create) == 0 || i.gcount() > 0)) throw Exception("Unable to open file " + path);
            if (readable) f->root = *shim::in_node(i);
        }
        else if (std::ofstream o(path, std::ios::binary); !o) throw Exception("Unable to create file " + path);
        f->writable = mode != ReadOnly;
        return f;
    }
};
inline unsigned operator|(File::AccessMode a, File::AccessMode b) { return static_cast<unsigned>(a) | static_cast<unsigned>(b); }
}  // namespace HighFive
