// In-memory stand-in for HighFive/HDF5 (neither is installed here): named groups, attributes and
// extendable N-d double datasets with HDF5's bounds rules. Every write is bounds-checked, so an
// out-of-extent hyperslab is an exception just as it is with the real library.
#ifndef VSHIM_H5FILE_HPP
#define VSHIM_H5FILE_HPP
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <fstream>
#include <cstdio>

typedef unsigned long long hsize_t;
typedef int64_t hid_t;
#ifndef H5E_DEFAULT
#define H5E_DEFAULT 0
#endif
inline int H5Eset_auto(int, void *, void *) { return 0; }
inline int H5Eset_auto2(int, void *, void *) { return 0; }

namespace vshim { inline void (*on_data)() = nullptr; inline void data_tick() { if (on_data) on_data(); } }
namespace HighFive
{
  class Exception : public std::exception
  {
    std::string m;
  public:
    explicit Exception(const std::string &s) : m(s) {}
    const char *what() const noexcept override { return m.c_str(); }
  };
#define VSHIM_E(N) class N : public Exception { public: explicit N(const std::string &s) : Exception(s) {} };
  VSHIM_E(ObjectException) VSHIM_E(DataTypeException) VSHIM_E(FileException) VSHIM_E(DataSpaceException)
  VSHIM_E(AttributeException) VSHIM_E(DataSetException) VSHIM_E(GroupException) VSHIM_E(PropertyException)
  VSHIM_E(ReferenceException)
#undef VSHIM_E

  struct Store; // a file's content
  struct DSet
  {
    std::vector<size_t> dims, maxdims;
    std::vector<double> data;
    std::vector<long> writes; // how often each element was written
  };
  struct Store
  {
    std::string name;
    bool open = false; long opened = 0;
    std::set<std::string> groups{"/"};
    std::map<std::string, DSet> dsets;
    std::map<std::string, std::string> sattrs;
    std::map<std::string, bool> battrs;
    std::map<std::string, double> dattrs;
    long use_after_close = 0;
    static std::map<std::string, std::shared_ptr<Store>> &all()
    {
      static std::map<std::string, std::shared_ptr<Store>> m;
      return m;
    }
  };
  inline std::string norm(const std::string &p)
  {
    std::string o = "/";
    for (char c : p) { if (c == '/' && o.back() == '/') continue; o += c; }
    if (o.size() > 1 && o.back() == '/') o.pop_back();
    return o;
  }

  class DataSpace
  {
  public:
    static const size_t UNLIMITED = SIZE_MAX;
    std::vector<size_t> d, m;
    enum DataspaceType { datascape_scalar, dataspace_scalar = datascape_scalar, datascape_simple, datascape_null };
    DataSpace() {}
    explicit DataSpace(const std::vector<size_t> &a) : d(a), m(a) {}
    DataSpace(std::initializer_list<size_t> a) : d(a), m(a) {}
    explicit DataSpace(DataspaceType) {}
    DataSpace(const std::vector<size_t> &a, const std::vector<size_t> &b) : d(a), m(b)
    {
      if (a.size() != b.size()) throw DataSpaceException("dims and maxdims must be the same length.");
      for (size_t i = 0; i < a.size(); ++i)
        if (b[i] != UNLIMITED && b[i] < a[i]) throw DataSpaceException("Unable to create dataspace");
    }
    template <class T> static DataSpace From(const T &) { return DataSpace(); }
    std::vector<size_t> getDimensions() const { return d; }
    size_t getNumberDimensions() const { return d.size(); }
  };
  template <class T> class AtomicType {};
  template <class T> AtomicType<T> create_datatype() { return AtomicType<T>(); }
  class Chunking
  {
  public:
    std::vector<hsize_t> c;
    explicit Chunking(const std::vector<hsize_t> &v) : c(v) {}
    Chunking(std::initializer_list<hsize_t> v) : c(v) {}
  };
  class Deflate { public: unsigned l; explicit Deflate(unsigned x) : l(x) {} };
  class Shuffle { public: Shuffle() {} };
  class DataSetCreateProps
  {
  public:
    bool chunked = false;
    void add(const Chunking &c)
    {
      for (auto x : c.c) if (x == 0) throw PropertyException("Error setting property: zero chunk");
      chunked = true;
    }
    void add(const Deflate &) {}
    void add(const Shuffle &) {}
  };
  class DataSetAccessProps {};

  class Attribute
  {
    Store *s; std::string k;
  public:
    Attribute(Store *_s, const std::string &_k) : s(_s), k(_k) {}
    void write(const std::string &v) { s->sattrs[k] = v; }
    void write(const char *v) { s->sattrs[k] = v; }
    void write(bool v) { s->battrs[k] = v; }
    void write(double v) { s->dattrs[k] = v; }
    void write(int v) { s->dattrs[k] = v; }
    void write(size_t v) { s->dattrs[k] = (double)v; }
    void read(std::string &v) const { v = s->sattrs[k]; }
    void read(bool &v) const { v = s->battrs[k]; }
  };

  inline void vflat(double v, std::vector<double> &o, std::vector<size_t> &, size_t) { o.push_back(v); }
  template <class T> void vflat(const std::vector<T> &v, std::vector<double> &o, std::vector<size_t> &dims, size_t lvl)
  {
    if (dims.size() <= lvl) dims.push_back(v.size());
    else if (dims[lvl] != v.size()) throw DataSpaceException("ragged data");
    for (auto &x : v) vflat(x, o, dims, lvl + 1);
  }
  inline void vunflat(double &v, const std::vector<double> &in, size_t &p, const std::vector<size_t> &, size_t) { v = in[p++]; }
  template <class T> void vunflat(std::vector<T> &v, const std::vector<double> &in, size_t &p, const std::vector<size_t> &d, size_t l)
  {
    v.resize(d[l]);
    for (auto &x : v) vunflat(x, in, p, d, l + 1);
  }

  class Selection
  {
    Store *s; DSet *ds; std::vector<size_t> off, cnt;
  public:
    Selection(Store *_s, DSet *d, const std::vector<size_t> &o, const std::vector<size_t> &c)
      : s(_s), ds(d), off(o), cnt(c) {}
    void each(std::function<void(size_t)> f)
    {
      for (size_t i = 0; i < off.size(); ++i)
        if (off[i] + cnt[i] > ds->dims[i])
          throw DataSetException("Error during HDF5 Write: selection exceeds extent");
      size_t total = 1; for (auto c : cnt) total *= c;
      for (size_t n = 0; n < total; ++n)
      {
        size_t rem = n, lin = 0;
        std::vector<size_t> ix(cnt.size());
        for (size_t i = cnt.size(); i-- > 0;) { ix[i] = rem % cnt[i]; rem /= cnt[i]; }
        for (size_t i = 0; i < cnt.size(); ++i) lin = lin * ds->dims[i] + off[i] + ix[i];
        f(lin);
      }
    }
    template <class T> void write(const T &v)
    {
      std::vector<double> flat; std::vector<size_t> dims; vshim::data_tick();
      vflat(v, flat, dims, 0);
      size_t total = 1; for (auto c : cnt) total *= c;
      if (flat.size() != total) throw DataSpaceException("Impossible to write buffer of wrong number of elements");
      // HighFive: number of dimensions must agree, up to leading/trailing 1s
      std::vector<size_t> a, b;
      for (auto x : dims) if (x != 1) a.push_back(x);
      for (auto x : cnt) if (x != 1) b.push_back(x);
      if (a != b) throw DataSpaceException("Impossible to write buffer: shape mismatch");
      size_t p = 0;
      each([&](size_t lin) { ds->data[lin] = flat[p++]; ++ds->writes[lin]; });
    }
    template <class T> void read(T &v)
    {
      std::vector<double> flat;
      each([&](size_t lin) { flat.push_back(ds->data[lin]); });
      size_t p = 0; vunflat(v, flat, p, cnt, 0);
    }
  };

  class DataSet
  {
    Store *s; DSet *ds;
  public:
    DataSet(Store *_s, DSet *d) : s(_s), ds(d) {}
    Selection select(const std::vector<size_t> &off, const std::vector<size_t> &cnt,
                     const std::vector<size_t> & = std::vector<size_t>()) const
    {
      if (off.size() != cnt.size() || off.size() != ds->dims.size())
        throw DataSpaceException("Unable to select hyperslab: rank mismatch");
      return Selection(s, ds, off, cnt);
    }
    std::vector<size_t> getDimensions() const { return ds->dims; }
    std::vector<size_t> dims() const { return ds->dims; }
    DataSpace getSpace() const { return DataSpace(ds->dims, ds->maxdims); }
    void resize(const std::vector<size_t> &nd)
    {
      if (nd.size() != ds->dims.size()) throw DataSetException("Invalid dataspace dimensions");
      for (size_t i = 0; i < nd.size(); ++i)
        if (ds->maxdims[i] != DataSpace::UNLIMITED && nd[i] > ds->maxdims[i])
          throw DataSetException("Could not resize dataset.");
      DSet n; n.dims = nd; n.maxdims = ds->maxdims;
      size_t tot = 1; for (auto x : nd) tot *= x;
      n.data.assign(tot, 0.); n.writes.assign(tot, 0);
      size_t otot = ds->data.size();
      for (size_t k = 0; k < otot; ++k)
      {
        size_t rem = k; bool ok = true; std::vector<size_t> ix(nd.size());
        for (size_t i = nd.size(); i-- > 0;) { ix[i] = rem % ds->dims[i]; rem /= ds->dims[i]; }
        size_t lin = 0;
        for (size_t i = 0; i < nd.size(); ++i) { if (ix[i] >= nd[i]) ok = false; lin = lin * nd[i] + ix[i]; }
        if (ok) { n.data[lin] = ds->data[k]; n.writes[lin] = ds->writes[k]; }
      }
      *ds = n;
    }
    template <class T> void write(const T &v)
    {
      std::vector<size_t> o(ds->dims.size(), 0);
      Selection(s, ds, o, ds->dims).write(v);
    }
    template <class T> void read(T &v) const
    {
      std::vector<size_t> o(ds->dims.size(), 0);
      Selection(s, ds, o, ds->dims).read(v);
    }
  };

  class File;
  class Group
  {
  protected:
    Store *s; std::string base;
    std::string full(const std::string &p) const { return norm(p.size() && p[0] == '/' ? p : base + "/" + p); }
  public:
    Group(Store *_s, const std::string &b) : s(_s), base(b) {}
    template <class T> Attribute createAttribute(const std::string &n, const DataSpace &)
    {
      std::string k = base == "/" ? n : base + "@" + n;
      if (s->sattrs.count(k) || s->battrs.count(k) || s->dattrs.count(k))
        throw AttributeException("Unable to create the attribute \"" + n + "\"");
      return Attribute(s, k);
    }
    Attribute getAttribute(const std::string &n) const
    {
      std::string k = base == "/" ? n : base + "@" + n;
      if (!(s->sattrs.count(k) || s->battrs.count(k) || s->dattrs.count(k)))
        throw AttributeException("Unable to open the attribute \"" + n + "\"");
      return Attribute(s, k);
    }
    bool hasAttribute(const std::string &n) const
    {
      std::string k = base == "/" ? n : base + "@" + n;
      return s->sattrs.count(k) || s->battrs.count(k) || s->dattrs.count(k);
    }
    Group createGroup(const std::string &n, bool = true)
    {
      std::string f = full(n);
      if (s->groups.count(f) || s->dsets.count(f)) throw GroupException("Unable to create the group \"" + n + "\":");
      mkparents(f); s->groups.insert(f);
      return Group(s, f);
    }
    Group getGroup(const std::string &n) const
    {
      std::string f = full(n);
      if (!s->groups.count(f)) throw GroupException("Unable to open the group \"" + n + "\":");
      return Group(s, f);
    }
    bool exist(const std::string &n) const { std::string f = full(n); return s->groups.count(f) || s->dsets.count(f); }
    template <class AT> DataSet createDataSet(const std::string &n, const DataSpace &sp, const AT &,
                          const DataSetCreateProps &p = DataSetCreateProps(),
                          const DataSetAccessProps & = DataSetAccessProps(), bool = true)
    {
      std::string f = full(n); vshim::data_tick();
      if (s->dsets.count(f) || s->groups.count(f)) throw DataSetException("Unable to create the dataset \"" + n + "\":");
      bool ext = false;
      for (size_t i = 0; i < sp.d.size(); ++i) if (sp.m[i] != sp.d[i]) ext = true;
      if (ext && !p.chunked) throw DataSetException("extendible dataset must be chunked");
      mkparents(f);
      DSet d; d.dims = sp.d; d.maxdims = sp.m;
      size_t tot = 1; for (auto x : d.dims) tot *= x;
      d.data.assign(tot, 0.); d.writes.assign(tot, 0);
      s->dsets[f] = d;
      return DataSet(s, &s->dsets[f]);
    }
    template <class T> DataSet createDataSet(const std::string &n, const DataSpace &sp,
                          const DataSetCreateProps &p = DataSetCreateProps())
    { return createDataSet(n, sp, AtomicType<T>(), p); }
    DataSet getDataSet(const std::string &n) const
    {
      std::string f = full(n); vshim::data_tick();
      auto it = s->dsets.find(f);
      if (it == s->dsets.end()) throw DataSetException("Unable to open the dataset \"" + n + "\":");
      return DataSet(s, &it->second);
    }
    void mkparents(const std::string &f)
    {
      for (size_t i = 1; i < f.size(); ++i) if (f[i] == '/') s->groups.insert(f.substr(0, i));
    }
  };

  class File : public Group
  {
    std::shared_ptr<Store> sp;
    static Store *mk(const std::string &n, unsigned flags, std::shared_ptr<Store> &out)
    {
      auto &a = Store::all();
      auto it = a.find(n);
      vshim::data_tick();
      // as HighFive does: Excl and Truncate mean that the file has to be created
      if (flags & 0x06u)
      {
        if (it != a.end() && (flags & 0x04u)) throw FileException("Unable to create file " + n);
        out = std::make_shared<Store>(); out->name = n; a[n] = out;
      }
      else if (it != a.end()) out = it->second;
      else if (flags & 0x10u) { out = std::make_shared<Store>(); out->name = n; a[n] = out; }
      else throw FileException("Unable to open file " + n);
      out->open = true; ++out->opened;
      return out.get();
    }
  public:
    enum : unsigned
    {
      ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u, Debug = 0x08u, Create = 0x10u,
      Overwrite = Truncate, OpenOrCreate = ReadWrite | Create
    };
    explicit File(const std::string &n, unsigned flags = ReadOnly) : Group(nullptr, "/") { s = mk(n, flags, sp); }
    template <class D> File(const std::string &n, unsigned flags, const D &) : Group(nullptr, "/") { s = mk(n, flags, sp); }
    ~File() { if (sp) { sp->open = false; if (dump_on_close()) dump_on_close()(*sp); } vshim::data_tick(); }
    static std::function<void(Store &)> &dump_on_close() { static std::function<void(Store &)> f; return f; }
    std::string getName() const { return sp->name; }
    void flush() {}
    Store &store() { return *sp; }
  };
  typedef Group NodeTraits;
}
#endif
