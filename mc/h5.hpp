// Reading output files back, independently of the code that writes them.
#pragma once
#include <H5Cpp.h>
#include <boost/filesystem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <cstring>

namespace h5
{
  typedef std::vector<hsize_t> Dims;
  struct Set { Dims dims; std::vector<float> val; size_t bytes = 0; bool is_float = false; };
  inline void quiet() { H5::Exception::dontPrint(); }
  inline Set set(const H5::H5File &f, const std::string &name)
  {
    Set s; auto d = f.openDataSet(name); auto sp = d.getSpace();
    s.dims.resize(sp.getSimpleExtentNdims()); sp.getSimpleExtentDims(s.dims.data());
    size_t n = 1; for (auto x : s.dims) n *= x;
    s.val.resize(n); s.bytes = d.getDataType().getSize(); s.is_float = d.getTypeClass() == H5T_FLOAT;
    if (n) d.read(s.val.data(), H5::PredType::NATIVE_FLOAT);
    return s;
  }
  inline bool has(const H5::H5File &f, const std::string &name) { return H5Lexists(f.getId(), name.c_str(), H5P_DEFAULT) > 0; }
  inline std::vector<std::string> names(const H5::H5File &f) { std::vector<std::string> v; for (hsize_t i = 0; i < f.getNumObjs(); ++i) v.push_back(f.getObjnameByIdx(i)); return v; }
  template <class G> float num(const G &g, const std::string &a) { float x; g.openAttribute(a).read(H5::PredType::NATIVE_FLOAT, &x); return x; }
  template <class G> int integer(const G &g, const std::string &a) { int x; g.openAttribute(a).read(H5::PredType::NATIVE_INT, &x); return x; }
  template <class G> std::string str(const G &g, const std::string &a)
  {
    auto at = g.openAttribute(a); auto t = at.getStrType(); std::string s(t.getSize(), 0); at.read(t, &s[0]); return s.substr(0, std::min(s.size(), std::strlen(s.c_str())));
  }
  inline std::vector<std::string> ls(const std::string &dir)
  {
    std::vector<std::string> v;
    if (boost::filesystem::exists(dir)) for (auto &e : boost::filesystem::directory_iterator(dir)) v.push_back(e.path().filename().string());
    std::sort(v.begin(), v.end()); return v;
  }
  inline std::string step(int k, const char *ext) { char b[64]; snprintf(b, sizeof b, "timestep%010d.%s", k, ext); return b; }

  // XDMF: what it says about the data
  struct Item { std::string name, data; std::vector<int> dims; };
  struct Xmf { double time = -1; std::vector<int> top; std::vector<Item> geo, att; };
  inline std::vector<int> ints(const std::string &s) { std::stringstream ss(s); std::vector<int> v; int x; while (ss >> x) v.push_back(x); return v; }
  inline std::string trim(std::string s) { while (!s.empty() && isspace(s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace(s[i])) ++i; return s.substr(i); }
  inline Xmf xmf(const std::string &path)
  {
    boost::property_tree::ptree p; read_xml(path, p); Xmf x;
    auto item = [](const boost::property_tree::ptree &t) { Item i; i.data = trim(t.get_value<std::string>()); i.dims = ints(t.get<std::string>("<xmlattr>.Dimensions")); return i; };
    auto &g = p.get_child("Xdmf.Domain.Grid");
    x.time = g.get<double>("Time.<xmlattr>.Value"); x.top = ints(g.get<std::string>("Topology.<xmlattr>.Dimensions"));
    for (auto &q : g.get_child("Geometry")) if (q.first == "DataItem") x.geo.push_back(item(q.second));
    for (auto &q : g) if (q.first == "Attribute") { Item i = item(q.second.get_child("DataItem")); i.name = q.second.get<std::string>("<xmlattr>.Name"); x.att.push_back(i); }
    return x;
  }
  inline std::vector<std::string> index(const std::string &path)
  {
    boost::property_tree::ptree p; read_xml(path, p); std::vector<std::string> v;
    for (auto &q : p.get_child("Xdmf.Domain.Grid")) if (q.first == "xi:include") v.push_back(q.second.get<std::string>("<xmlattr>.href"));
    return v;
  }
  // every item of an XDMF file names an existing data set of the stated shape; "" or what is wrong
  // (with one_short: set, and gone on, where it is one point too short in every dimension)
  inline std::string resolve(const std::string &dir, const Xmf &x, std::string *one_short = nullptr)
  {
    auto one = [&](const Item &i, bool may) -> std::string {
      auto c = i.data.find(":/"); if (c == std::string::npos) return "item without a data set: '" + i.data + "'";
      try
      {
        H5::H5File f(dir + "/" + i.data.substr(0, c), H5F_ACC_RDONLY); auto s = set(f, i.data.substr(c + 2));
        if (std::vector<int>(s.dims.begin(), s.dims.end()) != i.dims) 
        {
          std::string m = i.data + " is declared with dimensions"; for (int d : i.dims) m += ' ' + std::to_string(d); m += ", the data set has"; for (auto d : s.dims) m += ' ' + std::to_string(d);
          bool sh = may && s.dims.size() == i.dims.size(); for (size_t q = 0; sh && q < s.dims.size(); ++q) sh = (int)s.dims[q] == i.dims[q] + 1;
          if (sh) *one_short = m; else return m;
        }
      }
      catch (H5::Exception &) { return "cannot read " + i.data; }
      return "";
    };
    for (auto &i : x.geo) { auto w = one(i, false); if (!w.empty()) return w; }
    for (auto &i : x.att) { auto w = one(i, one_short && i.name != "a" && i.name != "b" && i.name != "v"); if (!w.empty()) return w; }
    return "";
  }
}
