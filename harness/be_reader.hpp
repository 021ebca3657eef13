// One reader per back end, each compiled against its own configuration.
#pragma once
#include "saxx.hpp"
#include <memory>
namespace be {
typedef std::string S;
struct AnyReader
{
  virtual ~AnyReader() { }
  virtual void set(const saxx::Features&) = 0;
  virtual void attach(saxx::Recorder&) = 0;
  virtual void parse(Arabica::SAX::InputSource<S>&) = 0;
};
std::unique_ptr<AnyReader> expat(), libxml2(), xerces();

template<class R> struct Holder : AnyReader
{
  R r;
  // general entities are left alone: no document here has external ones, and the names of the switch differ
  void set(const saxx::Features& f) override
  { Arabica::SAX::FeatureNames<S> n; r.setFeature(n.namespaces, f.ns); r.setFeature(n.namespace_prefixes, f.prefixes); }
  void attach(saxx::Recorder& rec) override { rec.attach(r); }
  void parse(Arabica::SAX::InputSource<S>& is) override { r.parse(is); }
};
}
