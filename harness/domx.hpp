// Building and reading Arabica DOMs from the model (Arabica side helpers).
#pragma once
#include "model.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <sstream>

namespace domx {

typedef Arabica::DOM::Node<std::string> DNode;
typedef Arabica::DOM::Document<std::string> DDoc;
typedef Arabica::DOM::Element<std::string> DElem;

inline DDoc parse(const std::string& xml, std::string* errors = 0)
{
  Arabica::SAX2DOM::Parser<std::string> p;
  Arabica::SAX::CatchErrorHandler<std::string> eh;
  p.setErrorHandler(eh);
  std::istringstream ss(xml);
  Arabica::SAX::InputSource<std::string> is(ss);
  p.parse(is);
  if(errors) *errors = eh.errorsReported() ? eh.errors() : "";
  return p.getDocument();
}

inline void build_kids(DDoc d, DNode into, const model::Node& m);
inline DNode build_node(DDoc d, const model::Node& m)
{
  switch(m.kind)
  {
    case model::TEXT: return d.createTextNode(m.value);
    case model::CDATA: return d.createCDATASection(m.value);
    case model::COMMENT: return d.createComment(m.value);
    case model::PI: return d.createProcessingInstruction(m.local, m.value);
    default:
    {
      DElem e = m.uri.empty() && m.prefix.empty() ? d.createElementNS("", m.local) : d.createElementNS(m.uri, m.qname());
      for(auto& n : m.ns) e.setAttributeNS(model::XMLNS_URI, n.first.empty() ? "xmlns" : "xmlns:" + n.first, n.second);
      for(auto& a : m.attrs) e.setAttributeNS(a.uri, a.qname(), a.value);
      build_kids(d, e, m);
      return e;
    }
  }
}
// with a context, texts may be split into several adjacent nodes
inline pbt::Ctx*& splitter() { static pbt::Ctx* c = 0; return c; }
inline void build_kids(DDoc d, DNode into, const model::Node& m)
{
  for(auto& k : m.kids)
    if(splitter() && k->kind == model::TEXT && k->value.size() > 1 && splitter()->chance(1, 3))
    {
      size_t at = 1 + splitter()->below(k->value.size() - 1);
      while(at < k->value.size() && (static_cast<unsigned char>(k->value[at]) & 0xC0) == 0x80) ++at;
      into.appendChild(d.createTextNode(k->value.substr(0, at)));
      if(at < k->value.size()) into.appendChild(d.createTextNode(k->value.substr(at)));
    }
    else into.appendChild(build_node(d, *k));
}
inline DDoc build(const model::Node& m)
{
  DDoc d = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "", 0);
  build_kids(d, d, m);
  return d;
}

// reads a DOM back into the same dump format as model::dump
inline void dump(DNode n, std::string& r, bool with_prefix = true, bool with_ns = true)
{
  using namespace Arabica::DOM;
  switch(n.getNodeType())
  {
    case Node_base::TEXT_NODE: r += "T[" + n.getNodeValue() + "]"; return;
    case Node_base::CDATA_SECTION_NODE: r += "CD[" + n.getNodeValue() + "]"; return;
    case Node_base::COMMENT_NODE: r += "C[" + n.getNodeValue() + "]"; return;
    case Node_base::PROCESSING_INSTRUCTION_NODE: r += "PI[" + n.getNodeName() + "|" + n.getNodeValue() + "]"; return;
    case Node_base::DOCUMENT_TYPE_NODE: return;
    case Node_base::DOCUMENT_NODE: r += "DOC("; break;
    case Node_base::DOCUMENT_FRAGMENT_NODE: r += "FRAG("; break;
    case Node_base::ELEMENT_NODE:
    {
      std::string local = n.getLocalName().empty() ? n.getNodeName() : n.getLocalName();
      r += "E{" + n.getNamespaceURI() + "}" + (with_prefix ? n.getNodeName() : local);
      std::set<std::string> as;
      NamedNodeMap<std::string> m = n.getAttributes();
      for(unsigned i = 0; i < m.getLength(); ++i)
      {
        DNode a = m.item(i);
        std::string al = a.getLocalName().empty() ? a.getNodeName() : a.getLocalName();
        if(a.getNamespaceURI() == model::XMLNS_URI)
        { if(with_ns) as.insert("xmlns:" + (a.getNodeName() == "xmlns" ? std::string() : al) + "=" + a.getNodeValue()); continue; }
        as.insert("{" + a.getNamespaceURI() + "}" + (with_prefix ? a.getNodeName() : al) + "=" + a.getNodeValue());
      }
      for(auto& a : as) r += " @" + a;
      r += "(";
      break;
    }
    default: r += "?" + std::to_string(n.getNodeType()); return;
  }
  for(DNode k = n.getFirstChild(); k != 0; k = k.getNextSibling()) dump(k, r, with_prefix, with_ns);
  r += ")";
}

} // namespace domx
