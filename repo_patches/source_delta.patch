From 66c707a3d6f30ecfa02b291be34075b908a6e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 001/106] fix: InputSource::setByteStream could not take
 ownership of a stream

---
 include/SAX/InputSource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/InputSource.hpp b/include/SAX/InputSource.hpp
index cccc879..6c02a14 100644
--- a/include/SAX/InputSource.hpp
+++ b/include/SAX/InputSource.hpp
@@ -263,7 +263,7 @@ public:
    */
   void setByteStream(std::unique_ptr<std::istream> byteStream)
   {
-    byteStream_ = byteStream;
+    byteStream_ = std::move(byteStream);
   } // setByteStream
 
   /**
-- 
2.43.0


From f0ae0034cffb9b8f14242007935cee86397061ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 002/106] fix: DOM rejected non-ASCII names and processing
 instruction data in narrow strings

---
 include/DOM/Simple/NodeImpl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..7488bdc 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -214,7 +214,7 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
       for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
+	if(!isPartOfMultibyte(*i) && !XML::is_name_char(*i))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
@@ -224,10 +224,17 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
       for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
+	if(!isPartOfMultibyte(*i) && !XML::is_char(*i))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
+    // in narrow strings, characters outside ASCII are UTF-8 multibyte sequences
+    template<class charT>
+    static bool isPartOfMultibyte(charT c)
+    {
+      return (sizeof(charT) == 1) && (static_cast<unsigned char>(c) >= 0x80);
+    } // isPartOfMultibyte
+
     NodeImplT* parentNode_;
     DocumentImplT* ownerDoc_;
     NodeImplT* prevSibling_;
-- 
2.43.0


From dd7d6f2aa28b289277608ed656c5fe1dd4685d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 003/106] fix: strings such as '1e5' and 'inf' were converted
 to XPath numbers

---
 include/XPath/impl/xpath_object.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..0399649 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -416,17 +416,36 @@ inline double roundNumber(double value)
   return value;
 } // roundNumber
 
+// XPath's Number, optionally preceded by a minus sign. Notably, neither
+// '+1.5', nor '1e5', nor 'inf' are numbers according to the XPath spec
+template<class string_type, class string_adaptor>
+bool isXPathNumber(const string_type& str)
+{
+  typename string_adaptor::const_iterator i = string_adaptor::begin(str), ie = string_adaptor::end(str);
+  if((i != ie) && (*i == '-'))
+    ++i;
+
+  bool digits = false;
+  bool point = false;
+  for( ; i != ie; ++i)
+  {
+    if((*i >= '0') && (*i <= '9'))
+      digits = true;
+    else if((*i == '.') && !point)
+      point = true;
+    else
+      return false;
+  } // for ...
+  return digits;
+} // isXPathNumber
+
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
   try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
     string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
+    if(!isXPathNumber<string_type, string_adaptor>(n_str))
       return NaN;
-    
     return boost::lexical_cast<double>(n_str);
   } // try
   catch(const boost::bad_lexical_cast&) {
-- 
2.43.0


From a2be97733bce54d01057b6adb5559304384eefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 004/106] fix: XPath mod truncated its operands, and crashed
 when the divisor truncated to zero

---
 include/XPath/impl/xpath_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..6f7f9da 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 
 #include <functional>
+#include <cmath>
 #include "xpath_value.hpp"
 #include "xpath_expression_impl.hpp"
 
@@ -68,7 +69,7 @@ struct NaN_aware_modulus
 	{	// apply operator% to operands 
     if(isNaN(lhs) || isNaN(rhs)) 
       return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs);
 	}
 }; // NaN_aware_modulus
 
-- 
2.43.0


From 865ed12298478113d700bf24cd248f5708433112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 005/106] fix: XPath substring() threw when starting past the
 end of the string

---
 include/XPath/impl/xpath_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..f3509d5 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -472,8 +472,10 @@ protected:
       return string_adaptor::empty_string();
 
     double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
+    if(isNaN(startAt) || (startAt >= string_adaptor::length(value)))
+      return string_adaptor::empty_string();
 
+    double endAt = (baseT::argCount() == 3) ? roundNumber(baseT::argAsNumber(2, context, executionContext)) + startAt : Infinity;
     if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
       return string_adaptor::empty_string();
 
-- 
2.43.0


From f9f31b0150b19930fa59c7b03dc01c85d18770b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 006/106] fix: XPath round() of -0.5, and of numbers where
 adding a half is inexact

---
 include/XPath/impl/xpath_object.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 0399649..f94d8fb 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -408,10 +408,13 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      double below = std::floor(value);
+      value = (value - below < 0.5) ? below : below + 1;
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
-- 
2.43.0


From d790ed488d3cedc2e6c6ecd91f87e79e47ac7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 007/106] fix: comparing an empty node-set with a node-set
 using < or > read past its end

---
 include/XPath/impl/xpath_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index f94d8fb..ed0a75e 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -688,6 +688,8 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
-- 
2.43.0


From 5955b7dbb870362f000dbc26860d60989b5e9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 008/106] fix: comparing a node-set with a boolean using < or >
 compared node values

---
 include/XPath/impl/xpath_object.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index ed0a75e..a667a39 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -696,6 +696,9 @@ bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const X
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1.0 : 0.0, rhs.asNumber());
+
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
-- 
2.43.0


From 112f5b6fbf8b9917a336fc257f5a6af49c9bc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 009/106] fix: ordering of nodes in different fragments was
 inconsistent

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index a667a39..9e7cfbe 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -104,7 +104,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From 66cf1b77f367ee37dba26d7272fe0a281f1268ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 010/106] fix: XPath numbers converted to strings with spurious
 digits, exponents or as -0

---
 include/XPath/impl/xpath_value.hpp | 43 +++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..98004f4 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -2,6 +2,9 @@
 #define ARABICA_XPATHIC_XPATH_VALUE_H
 
 #include <string>
+#include <sstream>
+#include <iomanip>
+#include <locale>
 #include <DOM/Node.hpp>
 #include <boost/lexical_cast.hpp>
 #include <vector>
@@ -13,6 +16,44 @@ namespace Arabica
 namespace XPath
 {
 
+namespace impl
+{
+// decimal form without an exponent, with just as many digits as are needed to
+// distinguish the number from every other (XPath 1.0, section 4.2)
+inline std::string numberAsString(double value)
+{
+  if(value == 0)
+    return "0";
+
+  std::string sci;
+  for(int precision = 0; precision != 17; ++precision)
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os << std::scientific << std::setprecision(precision) << value;
+    sci = os.str();
+    std::istringstream is(sci);
+    is.imbue(std::locale::classic());
+    double readBack = 0;
+    if((is >> readBack) && (readBack == value))
+      break;
+  } // for ...
+
+  std::string sign = (sci[0] == '-') ? "-" : "";
+  std::string::size_type e = sci.find('e');
+  int exponent = boost::lexical_cast<int>(sci[e+1] == '+' ? sci.substr(e+2) : sci.substr(e+1));
+  std::string digits = sci.substr(sign.length(), e - sign.length());
+  if(digits.length() > 1)
+    digits.erase(1, 1); // the decimal point
+
+  if(exponent < 0)
+    return sign + "0." + std::string(-exponent - 1, '0') + digits;
+  if(static_cast<int>(digits.length()) <= exponent + 1)
+    return sign + digits + std::string(exponent + 1 - digits.length(), '0');
+  return sign + digits.substr(0, exponent + 1) + "." + digits.substr(exponent + 1);
+} // numberAsString
+} // namespace impl
+
 template<class string_type, class string_adaptor>
 class Value_base : 
     public XPathExpression_impl<string_type, string_adaptor>,
@@ -112,7 +153,7 @@ public:
       return string_adaptor::construct_from_utf8("Infinity");
     if(isNegativeInfinity(value_))
       return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
-- 
2.43.0


From 906471cb4a8f3208c0179042efff8696cf4e6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 011/106] fix: // in match patterns matched a node as its own
 ancestor

---
 include/XPath/impl/xpath_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..cfb6bee 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -911,7 +911,7 @@ Axis getPatternAxis(typename impl::types<string_adaptor>::node_iter_t const& fro
   int id = impl::getNodeId<string_adaptor>(next);
 
   if(id == impl::SlashSlash_id)
-    return ANCESTOR_OR_SELF;
+    return ANCESTOR;
   if((id == impl::AbbreviatedAxisSpecifier_id) || (id == impl::Attribute_id))
     return static_cast<Axis>(-1);
 
-- 
2.43.0


From 9afa3b2f51964a1432e5b65379e21013124ce791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 012/106] fix: the following axis crashed in trees not attached
 to a document

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..77a9a4b 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -148,7 +148,7 @@ protected:
       return next;
             
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while(parent != 0 && parent != origin && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -447,7 +447,7 @@ private:
       return next;
           
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != 0 && parent != context->getOwnerDocument() && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
-- 
2.43.0


From 575138553c1df750b76c50d02cc95cec4a7cfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 013/106] fix: the preceding axis returned the tail of a text
 made of several DOM nodes

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 77a9a4b..1a81c27 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -630,8 +630,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    while(BaseT::findNextSibling(c) != 0)
+      c = BaseT::findNextSibling(c);
 
     return getLastDescendant(c);
   } // getLastDescendant
-- 
2.43.0


From a1a1ebc31d8291eaa7ef969e84d8406d0d116db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 014/106] fix: attributes had children in XPath, and nothing
 followed a namespace node within its element

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 1a81c27..282ed10 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -324,7 +324,7 @@ public:
 
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
-    if(context != 0)
+    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
       BaseT::set(context->getFirstChild());
   } // ChildAxisWalker
 
@@ -441,6 +441,14 @@ private:
       return firstFollowing(owner);
     } // if attribute
 
+    if(context->getNodeType() == NAMESPACE_NODE_TYPE)
+    {
+      RawNodeT owner = context->getParentNode();
+      if(owner->hasChildNodes())
+        return owner->getFirstChild();
+      return firstFollowing(owner);
+    } // if namespace
+
     RawNodeT next = BaseT::findNextSibling(context);
 
     if(next != 0)
-- 
2.43.0


From 449e89d459af5d0cfd9afeb15d45692410fe32b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 015/106] fix: namespace axis returned hidden and undeclared
 namespaces, and namespaces for nodes other than elements

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 37 +++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 282ed10..04ce952 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -1,6 +1,8 @@
 #ifndef ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 #define ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 
+#include <set>
+#include <vector>
 #include <DOM/Node.hpp>
 #include <DOM/Document.hpp>
 #include <DOM/NamedNodeMap.hpp>
@@ -505,19 +507,19 @@ public:
     index_(0)
   {
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      push_back(context, 
-                string_adaptor::construct_from_utf8("xml"), 
-                string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+      declare(context, 
+              string_adaptor::construct_from_utf8("xml"), 
+              string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
+    while((current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE))
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          declare(context, attr->getLocalName(), attr->getNodeValue());
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          declare(context, string_adaptor::empty_string(), attr->getNodeValue());
       } // for ...
       current = current->getParentNode();
     } // while
@@ -540,6 +542,15 @@ public:
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
 
 private:
+  void declare(RawNodeT context, const string_type& prefix, const string_type& uri)
+  {
+    // declarations further out are hidden by those we've already seen
+    if(!declared_.insert(prefix).second)
+      return;
+    if(!string_adaptor::empty(uri)) // xmlns="" is an undeclaration
+      push_back(context, prefix, uri);
+  } // declare
+
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
@@ -547,8 +558,18 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs),
+    list_(rhs.list_),
+    declared_(rhs.declared_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  {
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
+
   std::vector<RawNodeT> list_;
+  std::set<string_type> declared_;
   const string_type xmlns_prefix_;
   unsigned int index_;
 }; // class NamespaceAxisWalker
-- 
2.43.0


From e319cb3e85edadc992b30caf9124752fac911bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 016/106] fix: XPath node-sets could hold a namespace node
 several times

---
 include/XPath/impl/xpath_object.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 9e7cfbe..27c81be 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -164,9 +164,27 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
     return 1;
   if(r != re)
     return -1;
+
+  // the namespace nodes of an element, which are created anew for each request
+  if((lhs.getNodeType() == NAMESPACE_NODE_TYPE) && (rhs.getNodeType() == NAMESPACE_NODE_TYPE))
+  {
+    if(lhs.getLocalName() < rhs.getLocalName())
+      return -1;
+    return (rhs.getLocalName() < lhs.getLocalName()) ? 1 : 0;
+  } // if ...
+
   return 0;
 } // compareNodes
 
+template<class string_type, class string_adaptor>
+bool nodes_are_same(const DOM::Node<string_type, string_adaptor>& n1, 
+                    const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  if((n1.getNodeType() == NAMESPACE_NODE_TYPE) && (n2.getNodeType() == NAMESPACE_NODE_TYPE))
+    return compareNodes(n1, n2) == 0;
+  return n1 == n2;
+} // nodes_are_same
+
 template<class string_type, class string_adaptor>
 bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1, 
                      const DOM::Node<string_type, string_adaptor>& n2) 
@@ -280,7 +298,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::nodes_are_same<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
-- 
2.43.0


From 14c89f38bb13160f120eacff49713bf916ed7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 017/106] fix: XPath translate() left characters uncopied after
 one had been removed

---
 include/XPath/impl/xpath_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index f3509d5..0d9c724 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -545,7 +545,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-- 
2.43.0


From fe259fd39d08d228f1c060cb716a5ae4159b4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 018/106] fix: attributes whose names merely begin with xmlns
 were taken for namespace declarations

---
 include/SAX/wrappers/saxexpat.hpp   | 11 +++++++++--
 include/SAX/wrappers/saxlibxml2.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..d97878a 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -266,6 +266,13 @@ class expat_wrapper :
 
   private:
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
+    bool isNamespaceDeclaration(const string_type& qName) const
+    {
+      typename SA::size_type n = SA::find(qName, nsc_.colon);
+      return (n != SA::npos()) ?
+        (SA::construct(SA::begin(qName), SA::begin(qName) + n) == nsc_.xmlns) :
+        (qName == nsc_.xmlns);
+    } // isNamespaceDeclaration
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
   
@@ -604,7 +611,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isNamespaceDeclaration(attQName)) 
       {
         if (!pushedContext)
         {
@@ -634,7 +641,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isNamespaceDeclaration(attQName)) 
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(), 
diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index b693b52..6c268ed 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -209,6 +209,13 @@ class libxml2_wrapper :
 
 
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
+    bool isNamespaceDeclaration(const string_type& qName) const
+    {
+      typename string_adaptor::size_type n = string_adaptor::find(qName, nsc_.colon);
+      return (n != string_adaptor::npos()) ?
+        (string_adaptor::construct(string_adaptor::begin(qName), string_adaptor::begin(qName) + n) == nsc_.xmlns) :
+        (qName == nsc_.xmlns);
+    } // isNamespaceDeclaration
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
 
@@ -568,7 +575,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*a1++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) == 0)
+      if(isNamespaceDeclaration(attQName))
       {
         string_type prefix;
         typename string_adaptor::size_type n = string_adaptor::find(attQName, nsc_.colon);
@@ -592,7 +599,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*atts++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) != 0)
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(),
-- 
2.43.0


From 24d41b286d3d0baf1bc1f80bf6e6f59846f0db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 019/106] fix: Expat wrapper ended the enclosing element's
 prefix mappings at the end of elements declaring none

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index d97878a..909f951 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -696,14 +696,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From aeda4e2c5a6b0054cd753393d948cbd2228c4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 020/106] fix: XPath whitespace around . and .., between minus
 signs, and before arguments and predicates

---
 include/XPath/impl/xpath_grammar.hpp | 5 +++--
 include/XPath/impl/xpath_step.hpp    | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 1b42f10..b94a9f4 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -43,7 +43,8 @@ struct xpath_grammar_definition
     RelativeLocationPath = Step >> *((SlashSlash | discard_node_d[Slash]) >> Step);
 
     // [4], [5]
-    Step = AxisSpecifier >> NodeTest >> *Predicate | AbbreviatedStep;
+    Step = AxisSpecifier >> NodeTest >> *Predicate
+                | discard_node_d[S] >> AbbreviatedStep >> discard_node_d[S];
     AxisSpecifier = S >> ( AxisName >> S >> "::" | AbbreviatedAxisSpecifier ) >> S;
 
     // [6]
@@ -116,7 +117,7 @@ struct xpath_grammar_definition
     // [25], [26], [27]
     AdditiveExpr = MultiplicativeExpr >> *((PlusOperator | MinusOperator) >> MultiplicativeExpr);
     MultiplicativeExpr = UnaryExpr >> *((MultiplyOperator | DivOperator | ModOperator) >> UnaryExpr);
-    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator) >> UnionExpr;
+    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator >> discard_node_d[S]) >> UnionExpr;
 
     // [28] ExprToken not actually used
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..04746bd 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -340,6 +340,7 @@ private:
     while((node != end) && (getNodeId<string_adaptor>(node) == impl::Predicate_id))
     {
       typename types<string_adaptor>::node_iter_t c = node->children.begin();
+      skipWhitespace<string_adaptor>(c);
       assert(getNodeId<string_adaptor>(c) == impl::LeftSquare_id);
       ++c;
       preds.push_back(XPath<string_type, string_adaptor>::compile_expression(c, node->children.end(), context));
@@ -414,6 +415,8 @@ private:
       case impl::ProcessingInstruction_id:
         {
           ++node;
+          while((node != end) && (getNodeId<string_adaptor>(node) == impl::S_id))
+            ++node;
           if((node == end) || (getNodeId<string_adaptor>(node) != impl::Literal_id)) 
             return new ProcessingInstructionNodeTest<string_type, string_adaptor>();
           
-- 
2.43.0


From 11a4a209e9cdedf14b360645f4a35c5bf85b8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 021/106] fix: (/) at the start of a path was dropped

---
 include/XPath/impl/xpath_grammar.hpp |  2 +-
 include/XPath/impl/xpath_parser.hpp  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index b94a9f4..0c75c34 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -102,7 +102,7 @@ struct xpath_grammar_definition
 		| FilterExpr '/' RelativeLocationPath
 		| FilterExpr '//' RelativeLocationPath	*/
     PathExpr = discard_node_d[S] >>
-                (FilterExpr >> !((SlashSlash | Slash) >> RelativeLocationPath)
+                (FilterExpr >> !((SlashSlash | discard_node_d[Slash]) >> RelativeLocationPath)
                 | LocationPath) >>
                 discard_node_d[S];
     // FilterExpr ::=  PrimaryExpr | FilterExpr Predicate
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index cfb6bee..3d20dd8 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -551,7 +551,17 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
 template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createRelativeLocationPath(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  return new impl::RelativeLocationPath<string_type, string_adaptor>(createStepList(i->children.begin(), i->children.end(), context));
+  typename impl::types<string_adaptor>::node_iter_t from = i->children.begin();
+  impl::StepList<string_type, string_adaptor> steps;
+  if(impl::getNodeId<string_adaptor>(from) == impl::Slash_id)
+  {
+    // (/)/step - separators have been discarded, so this is the document root
+    steps.push_back(new impl::ExprStepExpression<string_type, string_adaptor>(createSingleStepAbsoluteLocationPath(from, i->children.end(), context), std::vector<XPathExpression_impl<string_type, string_adaptor>*>()));
+    ++from;
+  } // if ...
+  const impl::StepList<string_type, string_adaptor> rest = createStepList(from, i->children.end(), context);
+  std::copy(rest.begin(), rest.end(), std::back_inserter(steps));
+  return new impl::RelativeLocationPath<string_type, string_adaptor>(steps);
 } // createRelativeLocationPath
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From e208511e15d7d973bbe1e942dade0f814ab2def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 022/106] fix: attribute patterns with a positional predicate
 never matched

---
 include/XPath/impl/xpath_match_rewrite.hpp | 26 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index 6cf156c..4e1ea4a 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -10,10 +10,12 @@ template<class string_type, class string_adaptor>
 class ReplacementExpression : public XPathExpression_impl<string_type, string_adaptor>
 {
 public:
-  ReplacementExpression(impl::NodeTest<string_type, string_adaptor>* test, 
-                        const std::vector<XPathExpression_impl<string_type, string_adaptor>*>& preds) 
+  ReplacementExpression(Axis axis,
+                        impl::NodeTest<string_type, string_adaptor>* test, 
+                        const std::vector<XPathExpression_impl<string_type, string_adaptor>*>& preds) :
+    axis_(axis)
   {
-    test_ = new impl::TestStepExpression<string_type, string_adaptor>(CHILD, test, preds);
+    test_ = new impl::TestStepExpression<string_type, string_adaptor>(axis_, test, preds);
   } // ReplacementExpression
 
   ~ReplacementExpression()
@@ -26,7 +28,12 @@ public:
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                                            const ExecutionContext<string_type, string_adaptor>& executionContext) const 
   {
+    if((axis_ == ATTRIBUTE) && (context.getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
+      return XPathValue<string_type, string_adaptor>(new BoolValue<string_type, string_adaptor>(false));
+
     DOM::Node<string_type, string_adaptor> parent = context.getParentNode();
+    if(axis_ == ATTRIBUTE)
+      parent = static_cast<DOM::Attr<string_type, string_adaptor> >(context).getOwnerElement();
     NodeSet<string_type, string_adaptor> nodes = test_->evaluateAsNodeSet(parent, executionContext);
     bool found = false;
     for(typename NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), ne = nodes.end(); 
@@ -36,6 +43,7 @@ public:
   } // evaluate
 
 private:
+  Axis axis_;
   impl::TestStepExpression<string_type, string_adaptor>* test_;
 }; // class ReplacementExpression
 
@@ -106,12 +114,22 @@ MatchExpr<string_type, string_adaptor>::MatchExpr(XPathExpression_impl<string_ty
     if(!step || step->has_predicates() == false)
       continue;
 
+    // attribute steps are followed by a step checking for an attribute node
+    Axis axis = CHILD;
+    typename StepList::const_iterator following = s;
+    if(++following != se)
+    {
+      Step* check = dynamic_cast<Step*>(*following);
+      if(check && dynamic_cast<impl::AttributeNodeTest<string_type, string_adaptor>*>(check->test_))
+        axis = ATTRIBUTE;
+    } // if ...
+
     Predicates& predicates = step->predicates_;
     typename Predicates::iterator positional = std::find_if(predicates.begin(), predicates.end(), impl::should_rewrite<string_type, string_adaptor>);
     while(positional != predicates.end())
     {
       Predicates folding(predicates.begin(), positional+1);
-      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(step->test_->clone(), folding);
+      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(axis, step->test_->clone(), folding);
       // replacement_expression now owns the leading predicates
       *positional = replacement_expression;
       // so remove the everyting upto the one we've just replaced
-- 
2.43.0


From 69211152a40c9fab2a93f0d2fd1afeb5901a4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 023/106] fix: default priority of patterns with predicates on
 p:* or processing-instruction('x'), or with whitespace after the name

---
 include/XPath/impl/xpath_parser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 3d20dd8..12cd646 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -849,7 +849,11 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
   long id = impl::getNodeId<string_adaptor>(i);
   size_t child_count = 0;
   for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
+  {
+    if(impl::getNodeId<string_adaptor>(c) == impl::Predicate_id)
+      return 0.5;
     child_count += (impl::getNodeId<string_adaptor>(c) != impl::S_id);
+  } // for ...
 
   switch(id)
   {
@@ -859,7 +863,6 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
       ++i;
       if(i == end)
         return 0;
-      impl::skipWhitespace<string_adaptor>(i);
       if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
         return 0.5;
       if(impl::getNodeId<string_adaptor>(i) == impl::AnyName_id)
@@ -868,10 +871,10 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
 
     case impl::NodeTest_id:
       {
-        typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-        impl::skipWhitespace<string_adaptor>(c);
-        if(impl::getNodeId<string_adaptor>(c) == impl::ProcessingInstruction_id)
-          return 0;
+        for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
+          if(impl::getNodeId<string_adaptor>(c) == impl::Literal_id)
+            return 0;
+        return defaultPriority(i->children.begin(), i->children.end());
       }
 
     case impl::NodeMatchPattern_id:
@@ -880,10 +883,7 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
     case impl::Comment_id:
     case impl::ProcessingInstruction_id:
       ++i;
-      if(i == end)
-        return -0.5;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
+      if((i != end) && (impl::getNodeId<string_adaptor>(i) == impl::Predicate_id))
         return 0.5;
       return -0.5;
 
-- 
2.43.0


From 07d7014fa4c9dd172640869c991ac03b30a64c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 024/106] fix: pattern node() with whitespace before or in its
 brackets matched the document

---
 include/XPath/impl/xpath_grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 0c75c34..1403174 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -372,7 +372,7 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
       // [6] ChildOrAttributeAxisSpecifier ::= AbbreviatedAxisSpecifier | ('child' | 'attribute') '::'
       ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
 
-      NodeMatchPattern = str_p("node()");
+      NodeMatchPattern = token_node_d[str_p("node") >> base::S >> ch_p('(') >> base::S >> ch_p(')')];
     } // definition
 
     boost::spirit::rule<ScannerT, boost::spirit::parser_tag<Pattern_id> > const&
-- 
2.43.0


From ebcb866db1b6eeb9975e129935f0fa2360a705fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 025/106] fix: keep the xml namespace node first among those of
 its element

---
 include/XPath/impl/xpath_object.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 27c81be..694d139 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -168,9 +168,13 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
   // the namespace nodes of an element, which are created anew for each request
   if((lhs.getNodeType() == NAMESPACE_NODE_TYPE) && (rhs.getNodeType() == NAMESPACE_NODE_TYPE))
   {
-    if(lhs.getLocalName() < rhs.getLocalName())
-      return -1;
-    return (rhs.getLocalName() < lhs.getLocalName()) ? 1 : 0;
+    if(lhs.getLocalName() == rhs.getLocalName())
+      return 0;
+    // xml, which is always there, comes first
+    const string_type xml = string_adaptor::construct_from_utf8("xml");
+    if((lhs.getLocalName() == xml) || (rhs.getLocalName() == xml))
+      return (lhs.getLocalName() == xml) ? -1 : 1;
+    return (lhs.getLocalName() < rhs.getLocalName()) ? -1 : 1;
   } // if ...
 
   return 0;
-- 
2.43.0


From 746336f4b879c9af3c7cdffe0ffc3dc4b03988a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 026/106] fix: patterns with position() or last() in a function
 argument matched with the wrong position

---
 include/XPath/impl/xpath_function.hpp        | 6 ++++++
 include/XPath/impl/xpath_function_holder.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 0d9c724..e5f4f90 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -34,6 +34,12 @@ public:
   virtual XPathValue_impl<string_type, string_adaptor>* evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                             const ExecutionContext<string_type, string_adaptor>& executionContext) const = 0;
 
+  void scan(impl::Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(size_t a = 0, ae = args_.size(); a != ae; ++a)
+      args_[a].get()->scan(scanner);
+  } // scan
+
 protected:
   size_t argCount() const { return args_.size(); }
 
diff --git a/include/XPath/impl/xpath_function_holder.hpp b/include/XPath/impl/xpath_function_holder.hpp
index 6466a1e..44882e6 100644
--- a/include/XPath/impl/xpath_function_holder.hpp
+++ b/include/XPath/impl/xpath_function_holder.hpp
@@ -137,6 +137,12 @@ public:
     return XPathValue<string_type, string_adaptor>(func_->evaluate(context, executionContext));
   } // evaluate
 
+  virtual void scan(impl::Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    func_->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
   static FunctionHolder* createFunction(const string_type& namespace_uri,
                                         const string_type& name, 
                                         const std::vector<XPathExpression<string_type, string_adaptor> >& argExprs,
-- 
2.43.0


From 989d5a0fd51b717c0aaf8e3c97a68c3df9a0d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 027/106] fix: processing-instruction() took a literal
 following it in an argument list for its target

---
 include/XPath/impl/xpath_step.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 04746bd..93e69bc 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -365,7 +365,14 @@ private:
       case impl::NodeTest_id:
         {
           typename types<string_adaptor>::node_iter_t c = node->children.begin();
-          NodeTest<string_type, string_adaptor>* t = getTest(c, node->children.end(), axis, namespaceContext);
+          typename types<string_adaptor>::node_iter_t const ce = node->children.end();
+          NodeTest<string_type, string_adaptor>* t = 0;
+          if(getNodeId<string_adaptor>(skipWhitespace<string_adaptor>(c)) == impl::ProcessingInstruction_id)
+            for(typename types<string_adaptor>::node_iter_t l = c; (t == 0) && (l != ce); ++l)
+              if(getNodeId<string_adaptor>(l) == impl::Literal_id)
+                t = new ProcessingInstructionNodeTest<string_type, string_adaptor>(string_adaptor::construct(l->value.begin(), l->value.end()));
+          if(t == 0)
+            t = getTest(c, ce, axis, namespaceContext);
           ++node;
           return t;
         } // case NodeTest_id
@@ -414,15 +421,9 @@ private:
 
       case impl::ProcessingInstruction_id:
         {
+          // those naming a target are dealt with by their NodeTest, a literal following here is something else
           ++node;
-          while((node != end) && (getNodeId<string_adaptor>(node) == impl::S_id))
-            ++node;
-          if((node == end) || (getNodeId<string_adaptor>(node) != impl::Literal_id)) 
-            return new ProcessingInstructionNodeTest<string_type, string_adaptor>();
-          
-          string_type target = string_adaptor::construct(node->value.begin(), node->value.end());
-          ++node;
-          return new ProcessingInstructionNodeTest<string_type, string_adaptor>(target);
+          return new ProcessingInstructionNodeTest<string_type, string_adaptor>();
         } // case ProcessingInstruction_id
       
       case impl::SlashSlash_id:
-- 
2.43.0


From b88744fb615544dd410c0a4eb8a2cc22595fbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 028/106] fix: DOM child operations validate everything before
 changing the tree, and documents track their element

---
 include/DOM/Simple/DocumentImpl.hpp | 59 ++++++++++++++++++++---------
 include/DOM/Simple/NodeImpl.hpp     | 53 +++++++++++++++-----------
 2 files changed, 72 insertions(+), 40 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..0b32b53 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -394,37 +394,27 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkSingleElement(newChild, 0);
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
       DOMNode_implT* result = NodeWithChildrenT::insertBefore(newChild, refChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ == 0))
-        documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == 0))
-        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
+      childrenChanged();
 
       return result;
     } // insertBefore
 
     virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
     {
-      checkChildType(newChild);
-
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         (documentElement_ != 0) &&
-         (documentElement_ != oldChild))
+      if((documentType_ != 0) &&
+         ((documentType_ == oldChild) || (newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkSingleElement(newChild, oldChild);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
-        documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      childrenChanged();
 
       return result;
     } // replaceChild
@@ -435,12 +425,20 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       DOMNode_implT* result = NodeWithChildrenT::removeChild(oldChild);
 
-      if(documentElement_ == oldChild)
-        documentElement_ = static_cast<DOMElement_implT*>(0);
+      childrenChanged();
 
       return result;
     } // removeChild
 
+    virtual void purgeChild(DOMNode_implT* oldChild)
+    {
+      if(documentType_ == oldChild)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      NodeWithChildrenT::purgeChild(oldChild);
+
+      childrenChanged();
+    } // purgeChild
+
     virtual DOMNode_implT* appendChild(DOMNode_implT* newChild)
     {
       return insertBefore(newChild, 0);
@@ -522,6 +520,31 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
     } // checkChildType
 
+    // a document has at most one element among its children
+    void checkSingleElement(DOMNode_implT* newChild, DOMNode_implT* oldChild) const
+    {
+      int elements = ((documentElement_ != 0) && (documentElement_ != oldChild) && (documentElement_ != newChild)) ? 1 : 0;
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        ++elements;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        for(DOMNode_implT* c = newChild->getFirstChild(); c != 0; c = c->getNextSibling())
+          if(c->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+            ++elements;
+      if(elements > 1)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkSingleElement
+
+    void childrenChanged()
+    {
+      documentElement_ = 0;
+      documentType_ = 0;
+      for(DOMNode_implT* c = NodeWithChildrenT::getFirstChild(); c != 0; c = c->getNextSibling())
+        if(c->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+          documentElement_ = dynamic_cast<DOMElement_implT*>(c);
+        else if(c->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+          documentType_ = dynamic_cast<DOMDocumentType_implT*>(c);
+    } // childrenChanged
+
   private:
     DOMElement_implT* documentElement_;
     DOMDocumentType_implT* documentType_;
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 7488bdc..f7f084d 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -396,16 +396,26 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     NodeImplT* do_insertBefore(NodeImplT* newChild, NodeImplT* refChild)
     {
       NodeImplT::throwIfReadOnly();
+      if(refChild)
+        findChild(refChild);
+      checkCanAdd(newChild);
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
-          insertBefore(newChild->removeChild(child), refChild);
+        {
+          newChild->removeChild(child);
+          do_insertBefore(child, refChild);
+        } // for ...
         return newChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == refChild)
+        return newChild;
+
       removeIfRequired(newChild);
+      if(newChild->getOwnerDoc() == 0)
+        newChild->setOwnerDoc(NodeImplT::getOwnerDoc());
       if(refChild)
       {
         nodes_.insert(findChild(refChild), newChild);
@@ -437,18 +447,23 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     NodeImplT* do_replaceChild(NodeImplT* newChild, NodeImplT* oldChild)
     {
       NodeImplT::throwIfReadOnly();
+      findChild(oldChild);
+      checkCanAdd(newChild);
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
-        // not exception safe - but the it's not specified to be :(
-        DOMNode_implT* lc = newChild->getLastChild();
-        replaceChild(newChild->removeChild(lc), oldChild);
-        insertBefore(newChild, lc);
+        NodeImplT* next = oldChild->getNext();
+        do_removeChild(oldChild);
+        do_insertBefore(newChild, next);
         return oldChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == oldChild)
+        return oldChild;
+
       removeIfRequired(newChild);
+      if(newChild->getOwnerDoc() == 0)
+        newChild->setOwnerDoc(NodeImplT::getOwnerDoc());
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
       newChild->setParentNode(this);
@@ -524,27 +539,21 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     void checkCanAdd(NodeImplT* child)
     {
       DocumentImplT* childDoc = child->getOwnerDoc();
-      if(childDoc == 0)
-      {
-        child->setOwnerDoc(NodeImplT::getOwnerDoc());
-        return;
-      } //
-
-      if(child->getNodeType() == DOM::Node_base::DOCUMENT_NODE)
-      {
-        if(childDoc != dynamic_cast<DocumentImplT*>(this))
-          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
-      } // if(parent is a Document)
-
-      if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
+      if(childDoc && NodeImplT::getOwnerDoc() && childDoc != NodeImplT::getOwnerDoc())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
       for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
 	if(n == child)
 	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
-      checkChildType(child);
+      if(child->getNodeType() != DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+      {
+        checkChildType(child);
+        return;
+      } // if ...
+
+      for(NodeImplT* c = child->getFirst(); c != 0; c = c->getNext())
+        checkCanAdd(c);
     } // checkCanAdd
 
     virtual void checkChildType(DOMNode_implT* child) = 0;
-- 
2.43.0


From 25b792669f3116bdfcb628d18fc29db7d03eda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:00 +0000
Subject: [PATCH 029/106] fix: DOM names are checked for a proper start and for
 well-formed qualified names

---
 include/DOM/Simple/AttrNSImpl.hpp    |  1 +
 include/DOM/Simple/DocumentImpl.hpp  |  4 ++--
 include/DOM/Simple/ElementImpl.hpp   |  2 +-
 include/DOM/Simple/ElementNSImpl.hpp |  1 +
 include/DOM/Simple/NodeImpl.hpp      | 20 ++++++++++++++++++++
 5 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index a885ec8..4f22837 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -87,6 +87,7 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
         return;
       } // empty prefix
 
+      this->checkName(prefix);
       checkPrefixAndNamespace<stringT, string_adaptorT>(true, prefix, true, *namespaceURI_, DOM::Node_base::ATTRIBUTE_NODE);
 
       stringT newName = prefix;
diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 0b32b53..92d37e7 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -335,7 +335,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* createElementNS(const stringT& namespaceURI, const stringT& qualifiedName) const
     {
-      this->checkName(qualifiedName);
+      this->checkQName(qualifiedName);
       return createElementNS_nocheck(namespaceURI, qualifiedName);
     } // createElementNS
 
@@ -349,7 +349,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMAttr_implT* createAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName) const
     {
-      this->checkName(qualifiedName);
+      this->checkQName(qualifiedName);
       return createAttributeNS_nocheck(namespaceURI, qualifiedName);
     } // createAttributeNS
 
diff --git a/include/DOM/Simple/ElementImpl.hpp b/include/DOM/Simple/ElementImpl.hpp
index ca6bf40..b18afc1 100644
--- a/include/DOM/Simple/ElementImpl.hpp
+++ b/include/DOM/Simple/ElementImpl.hpp
@@ -91,7 +91,7 @@ class ElementImpl : public DOM::Element_impl<stringT, string_adaptorT>,
 
     virtual void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)
     {
-      this->checkName(qualifiedName);
+      this->checkQName(qualifiedName);
       attributes_.setAttributeNS(namespaceURI, qualifiedName, value);
     } // setAttributeNS
 
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..fa047d3 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -81,6 +81,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
         return;
       } // empty prefix
 
+      this->checkName(prefix);
       checkPrefixAndNamespace<stringT, string_adaptorT>(true, prefix, true, *namespaceURI_, DOM::Node_base::ELEMENT_NODE);
 
       stringT newTagName = prefix;
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index f7f084d..a6fe27e 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -184,6 +184,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
         child->setOwnerDoc(ownerDoc);
     } // setOwnerDocument
 
+    virtual void childDataChanged() { }
+
     bool getReadOnly() const { return readOnly_; }
 
     virtual void setReadOnly(bool /*readOnly*/)
@@ -213,11 +215,29 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
+      if(!isPartOfMultibyte(*i) && !XML::is_letter(*i) && *i != '_' && *i != ':')
+        throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
       for( ; i != ie; ++i)
 	if(!isPartOfMultibyte(*i) && !XML::is_name_char(*i))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
+    void checkQName(const stringT& str) const
+    {
+      checkName(str);
+
+      typedef typename string_adaptorT::size_type size_type;
+      const stringT colon = string_adaptorT::construct_from_utf8(":");
+      const size_type index = string_adaptorT::find(str, colon);
+      if(index == string_adaptorT::npos())
+        return;
+      const stringT localName = string_adaptorT::substr(str, index + 1);
+      if((index == 0) || string_adaptorT::empty(localName) ||
+         (string_adaptorT::find(localName, colon) != string_adaptorT::npos()))
+        throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
+      checkName(localName);
+    } // checkQName
+
     void checkChars(const stringT& str) const
     {
       typedef typename string_adaptorT::const_iterator const_iterator;
-- 
2.43.0


From 1f39520b5ec979f14a10edfb63b3f6ca599596d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:00 +0000
Subject: [PATCH 030/106] fix: attribute maps keep owner elements and values in
 step, and check before they change anything

---
 include/DOM/Simple/AttrImpl.hpp          |  6 ++-
 include/DOM/Simple/AttrMap.hpp           | 64 ++++++++++++++++++++----
 include/DOM/Simple/CharacterDataImpl.hpp | 11 ++++
 include/DOM/Simple/NamedNodeMapImpl.hpp  |  9 ++++
 4 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..5309be8 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -148,7 +148,9 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     void setOwnerElement(ElementImplT* element)
     {
       ownerElement_ = element;
-      if(NodeT::ownerDoc_)
+      if(NodeT::ownerDoc_ && !element)
+        NodeT::ownerDoc_->removeElementId(this);
+      else if(NodeT::ownerDoc_)
       {
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
         DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
@@ -162,6 +164,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     void setSpecified(bool specified) { specified_ = specified; }
 
+    virtual void childDataChanged() { valueCalculated_ = false; }
+
     bool isOrphaned()
     {
       if(!ownerElement_)
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..2546383 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -37,25 +37,24 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     /////////////////////////////////////////////////////
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
-      attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return own(attr, NamedNodeMapImplT::setNamedItem(attr));
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -70,6 +69,13 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMAttr_implT* current = getAttributeNode(name);
+      if(current)
+      {
+        current->setValue(value);
+        return;
+      } // if(current)
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
@@ -94,7 +100,12 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      NamedNodeMapImplT::removeItem(oldAttr);
+      disown(oldAttr);
+      if(string_adaptorT::empty(oldAttr->getLocalName()))
+        createDefault(oldAttr->getNodeName());
+      else
+        createDefault(oldAttr->getNamespaceURI(), oldAttr->getLocalName());
       return oldAttr;
     } // removeAttributeNode
 
@@ -111,8 +122,18 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
       a->setValue(value);
-      a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItemNS(a);
+      NamedNodeMapImplT::ownerDoc_->orphaned(a);
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMAttr_implT* current = getAttributeNodeNS(a->getNamespaceURI(), a->getLocalName());
+      if(current)
+      {
+        if(current->getPrefix() != a->getPrefix())
+          current->setPrefix(a->getPrefix());
+        current->setValue(value);
+        NamedNodeMapImplT::ownerDoc_->purge(a);
+        return;
+      } // if(current)
+      own(a, NamedNodeMapImplT::setNamedItemNS(a));
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -132,13 +153,12 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
-      attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return own(attr, NamedNodeMapImplT::setNamedItemNS(newAttr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -220,6 +240,28 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
     } // alreadyHere
 
+    static AttrImplT* checkAttr(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      return attr;
+    } // checkAttr
+
+    DOMAttr_implT* own(AttrImplT* attr, DOMNode_implT* replaced)
+    {
+      attr->setOwnerElement(ownerElement_);
+      return disown(replaced);
+    } // own
+
+    static DOMAttr_implT* disown(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(attr)
+        attr->setOwnerElement(0);
+      return attr;
+    } // disown
+
     void checkNotInUse(AttrImplT* attr)
     { 
       if((!attr->isOrphaned()) && (attr->getOwnerElement() != ownerElement_))
diff --git a/include/DOM/Simple/CharacterDataImpl.hpp b/include/DOM/Simple/CharacterDataImpl.hpp
index d4d34a1..b7735d4 100644
--- a/include/DOM/Simple/CharacterDataImpl.hpp
+++ b/include/DOM/Simple/CharacterDataImpl.hpp
@@ -55,6 +55,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
     {
       NodeT::throwIfReadOnly();
       string_adaptorT::append(data_, arg);
+      dataChanged();
     } // appendData
 
     virtual void insertData(int offset, const stringT& arg)
@@ -65,6 +66,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::insert(data_, offset, arg);
+      dataChanged();
     } // insertData
 
     virtual void deleteData(int offset, int count)
@@ -77,6 +79,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, stringT());
+      dataChanged();
     } // deleteData
 
     virtual void replaceData(int offset, int count, const stringT& arg)
@@ -89,6 +92,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, arg);
+      dataChanged();
     } // replaceData
 
     ///////////////////////////////////////////////////////
@@ -103,8 +107,15 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
       NodeT::throwIfReadOnly();
 
       data_ = data;
+      dataChanged();
     } // setNodeValue
   private:
+    void dataChanged()
+    {
+      if(NodeT::parentNode_)
+        NodeT::parentNode_->childDataChanged();
+    } // dataChanged
+
     stringT data_;
 }; // class CharacterDataImpl
 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..2b5d6ec 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -227,6 +227,15 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     bool readOnly_;
 
   protected:
+    void removeItem(const DOMNode_implT* item)
+    {
+      throwIfReadOnly();
+      typename NodeListT::iterator n = nodes_.begin();
+      while(n != nodes_.end() && static_cast<const DOMNode_implT*>(*n) != item)
+        ++n;
+      removeNode(n);
+    } // removeItem
+
     DocumentImplT* ownerDoc_;
 }; // class NamedNodeMapImpl
 
-- 
2.43.0


From d9b0665c72f6dc39d2b5facd92ca7da30e0ba59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 031/106] fix: tree walkers follow the traversal rules in every
 direction

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 269 +++++++++--------------
 1 file changed, 105 insertions(+), 164 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..39dcaf4 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -57,88 +57,78 @@ public:
 
   node_t parentNode()
   {
-    node_t n = getParentNodeImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    node_t n = currentNode_;
+    while(n != 0 && n != root_)
+    {
+      n = n.getParentNode();
+      if(n != 0 && acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
+    }
+    return empty_node();
   }
 
-  node_t firstChild()
-  {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t firstChild() { return traverseChildren(true); }
 
-  node_t lastChild()
-  {
-    node_t n = getLastChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t lastChild() { return traverseChildren(false); }
 
-  node_t previousSibling()
-  {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t previousSibling() { return traverseSiblings(false); }
 
-  node_t nextSibling()
-  {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t nextSibling() { return traverseSiblings(true); }
 
   node_t previousNode()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-    {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
-    }
-    else
+    node_t n = currentNode_;
+    while(n != 0 && n != root_)
     {
-      n = getParentNodeImpl(n);
-      if(n != 0)
-        currentNode_ = n;
-      return n;
+      for(node_t sibling = n.getPreviousSibling(); sibling != 0; sibling = n.getPreviousSibling())
+      {
+        n = sibling;
+        filter_result_t accept = acceptNode(n);
+        while(accept != filter_t::FILTER_REJECT && childOf(n, false) != 0)
+        {
+          n = childOf(n, false);
+          accept = acceptNode(n);
+        }
+        if(accept == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+      }
+
+      n = n.getParentNode();
+      if(n != 0 && acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
     }
+    return empty_node();
   }
 
   node_t nextNode()
   {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
+    node_t n = currentNode_;
+    filter_result_t accept = filter_t::FILTER_ACCEPT;
+    while(n != 0)
     {
-      currentNode_ = n;
-      return n;
-    }
-
-    n = getNextSiblingImpl(currentNode_);
-    if(n != 0)
-    {
-      currentNode_ = n;
-      return n;
-    }
+      while(accept != filter_t::FILTER_REJECT && childOf(n, true) != 0)
+      {
+        n = childOf(n, true);
+        accept = acceptNode(n);
+        if(accept == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+      }
 
-    for(node_t parent = getParentNodeImpl(currentNode_); parent != 0; parent = getParentNodeImpl(parent))
-    { 
-      n = getNextSiblingImpl(parent);
-      if(n != 0)
+      node_t sibling;
+      for( ; n != 0 && n != root_; n = n.getParentNode())
       {
-        currentNode_ = n;
-        return n;
+        sibling = n.getNextSibling();
+        if(sibling != 0)
+          break;
       }
-    }
+      if(sibling == 0)
+        return empty_node();
 
+      n = sibling;
+      accept = acceptNode(n);
+      if(accept == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
+    }
     return empty_node();
   }
 
@@ -149,126 +139,77 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
+  node_t moveTo(const node_t& node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else
-      return getParentNodeImpl(new_node);
+    currentNode_ = node;
+    return currentNode_;
   }
 
-  node_t getNextSiblingImpl(node_t& node)
+  node_t childOf(const node_t& node, bool first)
   {
-    if(node == 0 || node == root_)
+    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
-
-    node_t new_node = node.getNextSibling();
-    if (new_node == 0)
-    {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
-        return empty_node();
-    }
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getNextSiblingImpl(new_node);
-      else
-        return child;
-    }
-    else
-      return getNextSiblingImpl(new_node);
+    return first ? node.getFirstChild() : node.getLastChild();
   }
-  
-  node_t getPreviousSiblingImpl(node_t& node)
+
+  static node_t siblingOf(const node_t& node, bool next)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
+    return next ? node.getNextSibling() : node.getPreviousSibling();
+  }
 
-    node_t new_node = node.getPreviousSibling();
-    if (new_node == 0)
+  node_t traverseChildren(bool first)
+  {
+    node_t n = childOf(currentNode_, first);
+    while(n != 0)
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-     
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
-        return empty_node();
-    }
+      const filter_result_t accept = acceptNode(n);
+      if(accept == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
+      if(accept == filter_t::FILTER_SKIP && childOf(n, first) != 0)
+      {
+        n = childOf(n, first);
+        continue;
+      }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getPreviousSiblingImpl(new_node);
-      else
-        return child;
+      // on to a sibling, or that of an ancestor we have stepped through
+      node_t sibling = siblingOf(n, first);
+      while(sibling == 0)
+      {
+        n = n.getParentNode();
+        if(n == 0 || n == root_ || n == currentNode_)
+          return empty_node();
+        sibling = siblingOf(n, first);
+      }
+      n = sibling;
     }
-    else
-      return getPreviousSiblingImpl(new_node);
+    return empty_node();
   }
 
-  node_t getFirstChildImpl(node_t& node)
+  node_t traverseSiblings(bool next)
   {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
+    node_t n = currentNode_;
+    if(n == root_)
       return empty_node();
 
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
+    while(true)
+    {
+      for(node_t sibling = siblingOf(n, next); sibling != 0; )
+      {
+        n = sibling;
+        const filter_result_t accept = acceptNode(n);
+        if(accept == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+        sibling = (accept == filter_t::FILTER_REJECT) ? empty_node() : childOf(n, next);
+        if(sibling == 0)
+          sibling = siblingOf(n, next);
+      }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+      n = n.getParentNode();
+      if(n == 0 || n == root_ || acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return empty_node();
+    }
   }
 
-  node_t getLastChildImpl(node_t& node)
-  {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
-
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
-  }
-  
   //node-filter will only be checked if what-to-show succeeds
   filter_result_t acceptNode(node_t const& node)
   {
-- 
2.43.0


From e23efe5a82c0544b1fbf9f6d7a0a9a827aacf3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 032/106] fix: splitting a parentless text node lost the tail,
 and for CDATA sections crashed

---
 include/DOM/Simple/CDATASectionImpl.hpp | 4 +++-
 include/DOM/Simple/TextImpl.hpp         | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..94f2afd 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,9 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
+      if(CharacterDataImplT::getParentNode())
+        CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..dc722af 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -36,6 +36,7 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From 1513dfffdaac2f1bce8bf873a86d9ec49c0e2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 033/106] fix: element lists check the index against, and find
 the no-namespace and renamed elements of, the current tree

---
 include/DOM/Simple/ElementByTagImpl.hpp | 9 +++------
 include/DOM/Simple/ElementNSImpl.hpp    | 2 ++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..099866d 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,9 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
+      if(index >= getLength())
         return 0;
 
-      if(changes_ != ownerDoc_->changes())
-        populate();
-
       return nodes_[index];
     } // item
 
@@ -106,7 +103,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     {
       if(useNamespace_)
       {
-        if((node->hasNamespaceURI() && namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
+        if(allNamespaces_ || (namespaceURI_ == node->getNamespaceURI()))
         {
           if((tagName_ == node->getLocalName()) || (allNames_ && node->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE))
             nodes_.push_back(node);
@@ -135,7 +132,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     bool useNamespace_;
     bool allNamespaces_;
     bool allNames_;
-    mutable unsigned int changes_;
+    mutable unsigned long changes_;
     unsigned int refCount_;
 }; // class ElementByTagList
 
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index fa047d3..03b7259 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,6 +78,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -90,6 +91,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
-- 
2.43.0


From d6648ffd591104112d18b82ac0023fe5b6b7ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 034/106] fix: reading the value or namespace of a document
 type without a document crashed

---
 include/DOM/Simple/NodeImpl.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index a6fe27e..0aaf348 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -66,7 +66,7 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
     // Node methods
     virtual const stringT& getNodeName() const = 0;
 
-    virtual const stringT& getNodeValue() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNodeValue() const { return emptyString(); }
     virtual void setNodeValue(const stringT& /*nodeValue*/) { }
 
     virtual DOM::Node_base::Type getNodeType() const = 0;
@@ -132,10 +132,10 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       return false;
     } // isSupported
 
-    virtual const stringT& getNamespaceURI() const { return ownerDoc_->empty_string(); }
-    virtual const stringT& getPrefix() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNamespaceURI() const { return emptyString(); }
+    virtual const stringT& getPrefix() const { return emptyString(); }
     virtual void setPrefix(const stringT& /*prefix*/) { }
-    virtual const stringT& getLocalName() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getLocalName() const { return emptyString(); }
 
     // additional methods - since C++ std::string (and by implication
     // stringT) don't differenciate between a null string and an empty string,
@@ -208,6 +208,13 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 
 
   protected:
+    // not everything has an owner document
+    static const stringT& emptyString()
+    {
+      static const stringT empty = string_adaptorT::construct_from_utf8("");
+      return empty;
+    } // emptyString
+
     void checkName(const stringT& str) const
     {
       if(string_adaptorT::length(str) == 0)
-- 
2.43.0


From 8f14494f182935ecac364bd44ea4bde3ad670b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 035/106] fix: cloning a document moved its document type in
 front of what precedes it

---
 include/DOM/Simple/DocumentImpl.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 92d37e7..9a7a749 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -447,17 +447,15 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* cloneNode(bool deep) const
     {
       DocumentImpl* clone = new DocumentImpl(namespaceURI_, qualifiedName_, 0, domImplementation_);
-      if(documentType_ != 0)
-      {
-        DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
-        dt->setOwnerDoc(clone);
-        clone->appendChild(dt);
-      }
-
-      if(deep)
-        for(DOMNode_implT* child = NodeWithChildrenT::getFirstChild(); child != 0; child = child->getNextSibling())
-          if((documentType_ != child) && (child != clone->getDocumentElement()))
-            clone->appendChild(clone->importNode(child, true));
+      for(DOMNode_implT* child = NodeWithChildrenT::getFirstChild(); child != 0; child = child->getNextSibling())
+        if(documentType_ == child)
+        {
+          DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
+          dt->setOwnerDoc(clone);
+          clone->appendChild(dt);
+        }
+        else if(deep)
+          clone->appendChild(clone->importNode(child, true));
 
       return clone;
     } // cloneNode
-- 
2.43.0


From 99a78d87b38a10db0f645e07adc8bcb6b409c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 036/106] fix: createDocument leaked the document when the name
 of its element was refused

---
 include/DOM/Simple/DOMImplementation.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 39d557c..8136a49 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -69,8 +69,16 @@ class DOMImplementationImpl : public DOM::DOMImplementation_impl<stringT, string
     {
       DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, docType, this);
 
-      if(!string_adaptorT::empty(qualifiedName))
-        doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+      try {
+        if(!string_adaptorT::empty(qualifiedName))
+          doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+      } // try
+      catch(...) {
+        // discard it, unless someone holds on to its document type
+        doc->addRef();
+        doc->releaseRef();
+        throw;
+      } // catch
 
       return doc;
     } // createDocument
-- 
2.43.0


From 3ded8c481dbb2669ebc89adbefa661c60da0c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:01 +0000
Subject: [PATCH 037/106] fix: assigning the last handle to itself freed what
 it refers to

---
 include/DOM/Proxy.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..fe65f4e 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,13 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
-      if(impl_)
-      {
-        impl_->releaseRef();
-        impl_ = 0;
-      }
+      // in this order, so that assigning a handle to itself doesn't let go of it
       if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+        impl->addRef();
+      ImplementationT* const old = impl_;
+      impl_ = impl;
+      if(old)
+        old->releaseRef();
     } // setImpl
 
     // the thing that actually does the work!
-- 
2.43.0


From 3c1cac72eadfd98f3114535b1faa5f0241b77374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 038/106] fix: an attribute without a local name replaced any
 other such attribute, losing all but one default

---
 include/DOM/Simple/NamedNodeMapImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 2b5d6ec..e313483 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,8 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      const bool noLocalName = string_adaptorT::empty(arg->getLocalName());
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), noLocalName ? arg->getNodeName() : arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
-- 
2.43.0


From 3d9cb01cdab4737c0d9f87c58847c422d46d65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 039/106] fix: looking up an attribute with an empty local name
 found any attribute without one

---
 include/DOM/Simple/NamedNodeMapImpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index e313483..e394b2f 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -36,6 +36,9 @@ class namespaceAndNameIs
 
     bool operator()(const NodeImpl<stringT, string_adaptorT>* node) const
     {
+      if(string_adaptorT::empty(localName_))
+        return false; // not even those without a local name
+
       if(string_adaptorT::empty(namespaceURI_))
       {
         if((node->hasNamespaceURI() == false) &&
-- 
2.43.0


From 6b39b834db5ad65250ca5002d0376cd40535a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 040/106] fix: CDATASection::splitText compiles and splits

---
 include/DOM/CDATASection.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/DOM/CDATASection.hpp b/include/DOM/CDATASection.hpp
index e5b4f15..5a729a8 100644
--- a/include/DOM/CDATASection.hpp
+++ b/include/DOM/CDATASection.hpp
@@ -35,8 +35,7 @@ class CDATASection : public Text<stringT, string_adaptorT>
 
     CDATASection<stringT, string_adaptorT> splitText(int offset) 
     { 
-      TextT::tImpl()->throwIfReadOnly();
-      return static_cast<CDATASection<stringT, string_adaptorT> >(TextT::tImpl()->splitText(offset)); 
+      return static_cast<CDATASection<stringT, string_adaptorT> >(Text<stringT, string_adaptorT>::splitText(offset)); 
     } // splitText
 }; // class CDATASection
 
-- 
2.43.0


From cb0c6ef5b4d85505dbe2be72899e62c0b4180566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 041/106] fix: a comment node can be cast to CharacterData and
 Comment

---
 include/DOM/CharacterData.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/CharacterData.hpp b/include/DOM/CharacterData.hpp
index 02dfd4f..e17af09 100644
--- a/include/DOM/CharacterData.hpp
+++ b/include/DOM/CharacterData.hpp
@@ -30,7 +30,7 @@ class CharacterData : public Node<stringT, string_adaptorT>
 	  if(NodeT::impl_ == 0) // null nodes can always be cast
 		return;
       typename NodeT::Type type = rhs.getNodeType();
-      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE))
+      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE) && (type != NodeT::COMMENT_NODE))
         throw DOMBadCast("CharacterData");
     } // CharacterData
 
-- 
2.43.0


From 0b6511061b7aee1760bf87a16ec345e06acc5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 042/106] fix: copying an element keeps attributes with one
 name in different namespaces

---
 include/DOM/Simple/DocumentImpl.hpp | 5 +----
 include/DOM/Simple/ElementImpl.hpp  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 9a7a749..9c2060b 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -272,10 +272,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
                 if(a->getSpecified())
                 {
                   DOMAttr_implT* newA = dynamic_cast<DOMAttr_implT*>(importNode(a, true));
-                  if(string_adaptorT::empty(a->getLocalName()))
-                    elem->setAttributeNode(newA);
-                  else
-                    elem->setAttributeNodeNS(newA);
+                  elem->setAttributeNodeNS(newA);
                 } // if ...
               } // for
             newNode = elem;
diff --git a/include/DOM/Simple/ElementImpl.hpp b/include/DOM/Simple/ElementImpl.hpp
index b18afc1..73ff3cf 100644
--- a/include/DOM/Simple/ElementImpl.hpp
+++ b/include/DOM/Simple/ElementImpl.hpp
@@ -178,10 +178,7 @@ class ElementImpl : public DOM::Element_impl<stringT, string_adaptorT>,
         if(a->getSpecified())
         {
           DOMAttr_implT* newA = dynamic_cast<DOMAttr_implT*>(a->cloneNode(true));
-          if(string_adaptorT::empty(a->getLocalName()))
-            clone->setAttributeNode(newA);
-          else
-            clone->setAttributeNodeNS(newA);
+          clone->setAttributeNodeNS(newA);
         } // if ...
       } // for
 
-- 
2.43.0


From 3f260150efd35c18bf5deaee32233cea62548c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 043/106] fix: expat element content models are freed

---
 include/SAX/wrappers/saxexpat.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 909f951..cef9f2b 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -726,12 +726,13 @@ template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name,
                                          const XML_Content* model)
 {
-  if(!declHandler_)
-    return;
-
   std::ostringstream os;
-  convertXML_Content(os, model);
-  declHandler_->elementDecl(SA::construct_from_utf8(name), SA::construct_from_utf8(os.str().c_str()));
+  if(declHandler_)
+    convertXML_Content(os, model);
+  XML_FreeContentModel(parser_, const_cast<XML_Content*>(model)); // which is ours to free
+
+  if(declHandler_)
+    declHandler_->elementDecl(SA::construct_from_utf8(name), SA::construct_from_utf8(os.str().c_str()));
 } // elementDeclaration
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From aadbe55e7d2bdb1072f311d7b9f492da357f462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 044/106] fix: the maps of a document type without document
 keep it alive

---
 include/DOM/Simple/DocumentTypeImpl.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 568e2e6..67549f8 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -31,8 +31,8 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       qualifiedName_(qualifiedName),
       publicId_(publicId),
       systemId_(systemId),
-      entities_(0),
-      notations_(0),
+      entities_(*this),
+      notations_(*this),
       elements_(0),
       refCount_(0)
     {
@@ -169,8 +169,20 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     stringT qualifiedName_;
     stringT publicId_;
     stringT systemId_;
-    NamedNodeMapT entities_;
-    NamedNodeMapT notations_;
+
+    // keeps the doctype, which may have no document yet, as long as it is used
+    class HeldMap : public NamedNodeMapT
+    {
+      public:
+        HeldMap(DocumentTypeImpl& docType) : NamedNodeMapT(0), docType_(docType) { }
+        virtual void addRef() { docType_.addRef(); }
+        virtual void releaseRef() { docType_.releaseRef(); }
+      private:
+        DocumentTypeImpl& docType_;
+    }; // class HeldMap
+
+    HeldMap entities_;
+    HeldMap notations_;
     NamedNodeMapT elements_;
     std::vector<stringT> IDs_;
     unsigned int refCount_;
-- 
2.43.0


From 9aa88c49fcadc00a9c266b0a2ea333c0017e3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 045/106] fix: names with non-ASCII characters are names in
 narrow strings too

---
 include/XML/strings.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..fe9f53b 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -20,6 +20,13 @@ namespace Arabica
 {
 namespace XML
 {
+  // in narrow strings, characters outside ASCII are UTF-8 multibyte sequences
+  template<typename charT>
+  inline bool is_part_of_multibyte(charT c)
+  {
+    return (sizeof(charT) == 1) && (static_cast<unsigned char>(c) >= 0x80);
+  } // is_part_of_multibyte
+
   template<typename string_adaptor>
   inline bool is_ncname(const typename string_adaptor::const_iterator& b,
                         const typename string_adaptor::const_iterator& e)
@@ -32,14 +39,14 @@ namespace XML
       return false;  // zero length
 
     const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
+    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE) || is_part_of_multibyte(*s)))
        return false;
 
     ++s;
     for( ; s != e; ++s)
     {
       value_type c = *s;
-      if(!is_ncname_char(c))
+      if(!is_ncname_char(c) && !is_part_of_multibyte(c))
         return false;
     }
     return true;
-- 
2.43.0


From a1a618056f82498418bd1893a1214639f2536b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 046/106] fix: carriage returns in text are written as
 character references

---
 include/XML/escaper.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..fc3f19b 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -45,6 +45,15 @@ class text_escaper
                 << UnicodeT::SEMI_COLON;
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
+      if(ch == UnicodeT::CARRIAGE_RETURN)
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
 
       stream_ << ch;
     } // operator()
@@ -94,16 +103,6 @@ public:
 		<< UnicodeT::SEMI_COLON;
 	return;
       } // if(ch == UnicodeT::LINE_FEED)
-      if(ch == UnicodeT::CARRIAGE_RETURN)
-      {
-	this->stream_ << UnicodeT::AMPERSAND
-		<< UnicodeT::NUMBER_SIGN
-		<< UnicodeT::LOWERCASE_X
-		<< UnicodeT::CAPITAL_D
-		<< UnicodeT::SEMI_COLON;
-	return;
-      } // if(ch == UnicodeT::CARRIAGE_RETURN)
-
       text_escaper<char_type, traits_type>::operator()(ch);
     } // operator()
 }; // attribute_escaper
-- 
2.43.0


From 14c7fcfea9bee85e7159c7a606f6be849edcbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 047/106] fix: namespace declarations written with a DOM are
 complete and never hidden

---
 include/DOM/io/Stream.hpp | 184 ++++++++++++++++++++++++--------------
 1 file changed, 119 insertions(+), 65 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..cfc8592 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -25,6 +25,9 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <set>
+#include <sstream>
+#include <vector>
 #include <text/UnicodeCharacters.hpp>
 #include <XML/escaper.hpp>
 
@@ -36,61 +39,108 @@ namespace DOM
 namespace StreamImpl
 {
 
+// the namespace declarations written on an element, prefix to URI, and the prefix of its name
 template<class stringT>
-void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int index)
+struct scope
 {
-  if(ev == std::ios_base::erase_event)
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-} // boing_callback
+  std::map<stringT, stringT> declared;
+  stringT prefix;
+}; // struct scope
 
-template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+template<class stringT, class string_adaptorT>
+stringT uri_of_prefix(const std::vector<scope<stringT> >& scopes, const stringT& prefix)
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
-        b != e;
-        ++b)
+  for(typename std::vector<scope<stringT> >::const_reverse_iterator b = scopes.rbegin(), e = scopes.rend(); b != e; ++b)
   {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
-    if(p != b->end())
-      return std::make_pair(true, p->second);
+    typename std::map<stringT, stringT>::const_iterator p = b->declared.find(prefix);
+    if(p != b->declared.end())
+      return p->second;
   } // for ...
+  return stringT();
+} // uri_of_prefix
+
+template<class stringT, class string_adaptorT>
+std::pair<bool, stringT> prefix_of_uri(const std::vector<scope<stringT> >& scopes, const stringT& namespaceURI, const bool is_attribute)
+{
+  for(typename std::vector<scope<stringT> >::const_reverse_iterator b = scopes.rbegin(), e = scopes.rend(); b != e; ++b)
+    for(typename std::map<stringT, stringT>::const_iterator p = b->declared.begin(), pe = b->declared.end(); p != pe; ++p)
+    {
+      if(!(p->second == namespaceURI) || (is_attribute && string_adaptorT::empty(p->first)))
+        continue;
+      if(uri_of_prefix<stringT, string_adaptorT>(scopes, p->first) == namespaceURI) // and is not hidden
+        return std::make_pair(true, p->first);
+    } // for ...
 
   return std::make_pair(false, stringT());
-} // is_uri_declared
+} // prefix_of_uri
 
-template<class stringT, class string_adaptorT, class charT, class traitsT>
-void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
-                                const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+template<class stringT, class string_adaptorT>
+bool is_reserved_prefix(const stringT& prefix)
 {
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
+  return prefix == string_adaptorT::construct_from_utf8("xml") ||
+         prefix == string_adaptorT::construct_from_utf8("xmlns");
+} // is_reserved_prefix
 
-  stringT namespaceURI = node.getNamespaceURI();
-  if(!string_adaptorT::empty(namespaceURI))
+// finds the prefix to write for a name, adding a declaration to the innermost scope if one is needed
+template<class stringT, class string_adaptorT>
+stringT map_prefix(std::vector<scope<stringT> >& scopes,
+                   const DOM::Node<stringT, string_adaptorT>& node,
+                   const bool is_attribute,
+                   long& generated)
+{
+  std::map<stringT, stringT>& current = scopes.back().declared;
+  const stringT namespaceURI = node.getNamespaceURI();
+
+  if(string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
-    
-    if(!prefix.first)
+    if(!is_attribute)
     {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
-      {
-	std::ostringstream os;
-	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
+      current.erase(stringT());
+      if(!string_adaptorT::empty(uri_of_prefix<stringT, string_adaptorT>(scopes, stringT())))
+        current[stringT()] = stringT();
     } // if ...
+    return stringT();
+  } // if ...
 
-    if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
-    stream << node.getLocalName();
-  }
-  else
+  if(namespaceURI == string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace"))
+    return string_adaptorT::construct_from_utf8("xml");
+
+  std::pair<bool, stringT> declared = prefix_of_uri<stringT, string_adaptorT>(scopes, namespaceURI, is_attribute);
+  if(declared.first)
+    return declared.second;
+
+  stringT prefix = node.getPrefix();
+  bool usable = !is_reserved_prefix<stringT, string_adaptorT>(prefix);
+  if(is_attribute)
+    usable = usable && !string_adaptorT::empty(prefix) && 
+             string_adaptorT::empty(uri_of_prefix<stringT, string_adaptorT>(scopes, prefix));
+  while(!usable)
+  {
+    std::ostringstream os;
+    os << 'a' << generated++;
+    prefix = string_adaptorT::construct_from_utf8(os.str().c_str());
+    usable = string_adaptorT::empty(uri_of_prefix<stringT, string_adaptorT>(scopes, prefix));
+  } // while ...
+
+  current[prefix] = namespaceURI;
+  return prefix;
+} // map_prefix
+
+template<class stringT, class string_adaptorT, class charT, class traitsT>
+void output_node_name(std::basic_ostream<charT, traitsT>& stream, 
+                      const DOM::Node<stringT, string_adaptorT>& node,
+                      const stringT& prefix) 
+{
+  if(string_adaptorT::empty(node.getNamespaceURI()))
+  {
     stream << node.getNodeName();
-} // check_and_output_node_name
+    return;
+  } // if ...
+
+  if(!string_adaptorT::empty(prefix))
+    stream << prefix << Arabica::text::Unicode<charT>::COLON;
+  stream << node.getLocalName();
+} // output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
 bool isXmlns(const stringT& str)
@@ -129,38 +179,35 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
+  typedef std::vector<scope<stringT> > scopesT;
+
   static const int index = std::ios_base::xalloc();
-  std::vector<std::map<stringT, stringT> >* prefix_stack;
+  scopesT* scopes = static_cast<scopesT*>(stream.pword(index));
   
-  if(stream.pword(index) != 0)
-  {
-    prefix_stack = static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-    prefix_stack->push_back(std::map<stringT, stringT>());
-  }
+  if(scopes != 0)
+    scopes->push_back(scope<stringT>());
   else
   {
-    prefix_stack = new std::vector<std::map<stringT, stringT> >;
-    stream.pword(index) = prefix_stack;
+    scopes = new scopesT;
+    stream.pword(index) = scopes;
     stream.iword(index) = 0;
 
-    std::map<stringT, stringT> prefixes;
+    scopes->push_back(scope<stringT>());
+    std::map<stringT, stringT>& inherited = scopes->back().declared;
     for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
-        p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
+        p != 0 && p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
         p = p.getParentNode())
     {
-      if(string_adaptorT::empty(p.getNamespaceURI()))
+      if(string_adaptorT::empty(p.getNamespaceURI()) || is_reserved_prefix<stringT, string_adaptorT>(p.getPrefix()))
         continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
+      if(!prefix_of_uri<stringT, string_adaptorT>(*scopes, p.getNamespaceURI(), false).first)
+        inherited.insert(std::make_pair(p.getPrefix(), p.getNamespaceURI()));
     } // for ...
-
-    prefix_stack->push_back(prefixes);
   } // if ...
 
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
-
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  scopes->back().prefix = map_prefix(*scopes, node, false, stream.iword(index));
+  output_node_name(stream, node, scopes->back().prefix);
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -178,7 +225,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
        isXmlns<stringT, string_adaptorT, charT>(attr.getPrefix()))
       continue;
     stream << UnicodeT::SPACE;
-    check_and_output_node_name(stream, attr, prefix_stack, true, index);
+    output_node_name(stream, attr, map_prefix(*scopes, attr, true, stream.iword(index)));
     stream  << UnicodeT::EQUALS_SIGN
             << UnicodeT::QUOTATION_MARK;
     stringT value = attr.getNodeValue();
@@ -188,7 +235,13 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
     stream << UnicodeT::QUOTATION_MARK;
   }
 
-  for(typename std::map<stringT, stringT>::const_iterator i = current.begin(), e = current.end();
+  std::set<std::pair<stringT, stringT> > declarations; // by URI
+  for(typename std::map<stringT, stringT>::const_iterator i = scopes->back().declared.begin(), e = scopes->back().declared.end();
+      i != e;
+      ++i)
+    declarations.insert(std::make_pair(i->second, i->first));
+
+  for(typename std::set<std::pair<stringT, stringT> >::const_iterator i = declarations.begin(), e = declarations.end();
       i != e;
       ++i)
   {
@@ -216,16 +269,17 @@ void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
                        int index, 
                        bool output)
 {
-  std::vector<std::map<stringT, stringT> >* prefix_stack = 
-    static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+  typedef std::vector<scope<stringT> > scopesT;
+
+  scopesT* scopes = static_cast<scopesT*>(stream.pword(index));
 
   if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
+    output_node_name(stream, node, scopes->back().prefix);
 
-  prefix_stack->pop_back();
-  if(prefix_stack->empty())
+  scopes->pop_back();
+  if(scopes->empty())
   {
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+    delete scopes;
     stream.pword(index) = 0;
   } // if ...
 } // prefix_mapper_pop
-- 
2.43.0


From 4e0ed2292c564ff6aea91be12ef2eaf113995315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 048/106] fix: CDATA sections with several end markers are
 written whole

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index cfc8592..dfa7fde 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -365,7 +365,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
-- 
2.43.0


From 97206ced3a32d6cab232444572608f9022353bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 049/106] fix: comments and PIs in a DTD are not put in front
 of the document

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..5263a19 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -248,7 +248,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -347,7 +347,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
-- 
2.43.0


From 975987f3a7802a0d2cf0228b4e72865584b882a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 050/106] fix: notations and unparsed entities reach the DOM

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 5263a19..483132a 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -107,6 +107,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       TextCoalescerT parser(base_parser);
       parser.setContentHandler(*this);
       parser.setErrorHandler(*this);
+      parser.setDTDHandler(*this);
       if(entityResolver_)
         parser.setEntityResolver(*entityResolver_);
 
-- 
2.43.0


From 9a1c0647f8ca975a9e5f695698ed053c4a945e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 051/106] fix: nothing of an earlier document's DTD is left
 when a DOM parser is used again

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 483132a..571fcaa 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -99,6 +99,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      cachedCurrent_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
       inCDATA_ = false;
       inDTD_ = false;
       inEntity_ = 0;
-- 
2.43.0


From 7d31d7d740e43234692f03f86a58471b6ead2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 052/106] fix: DOM serialiser reuses the default namespace for
 attributes only via a generated prefix

---
 include/DOM/io/Stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index dfa7fde..7bee67c 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -113,7 +113,8 @@ stringT map_prefix(std::vector<scope<stringT> >& scopes,
   bool usable = !is_reserved_prefix<stringT, string_adaptorT>(prefix);
   if(is_attribute)
     usable = usable && !string_adaptorT::empty(prefix) && 
-             string_adaptorT::empty(uri_of_prefix<stringT, string_adaptorT>(scopes, prefix));
+             string_adaptorT::empty(uri_of_prefix<stringT, string_adaptorT>(scopes, prefix)) &&
+             !(uri_of_prefix<stringT, string_adaptorT>(scopes, stringT()) == namespaceURI);
   while(!usable)
   {
     std::ostringstream os;
-- 
2.43.0


From 3a60883c81d640be17d21d734c876a38c70dcf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 053/106] fix: XSLT empty attribute value templates compile,
 and namespace="" means no namespace

---
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 4 ++--
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 4 ++--
 include/XSLT/impl/xslt_compilation_context.hpp       | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..6666bc0 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -28,14 +28,14 @@ protected:
                                      const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     static const AV rules = AV::rule(SC::name, true)
-                               .rule(SC::namespace_, false, string_adaptor::empty_string());
+                               .rule(SC::namespace_, false);
 
     std::map<string_type, string_type> attrs = rules.gather(qName, atts);
 
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(attrs.find(SC::namespace_) == attrs.end())
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..d6cd561 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -28,7 +28,7 @@ protected:
                                    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     static const AV rules = AV::rule(SC::name, true)
-                               .rule(SC::namespace_, false, string_adaptor::empty_string())
+                               .rule(SC::namespace_, false)
                                .rule(SC::use_attribute_sets, false);
 
     std::map<string_type, string_type> attrs = rules.gather(qName, atts);
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(attrs.find(SC::namespace_) == attrs.end())
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..b590767 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -85,7 +85,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  { 
+    if(string_adaptor::empty(expr))
+      return XPathExpressionPtrT(new Arabica::XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
-- 
2.43.0


From 56da7579d71e550fdd1337dd8470c9dd5c37b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 054/106] fix: XSLT result namespace declarations, doctype,
 CDATA splitting and output state

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 116 ++++++++++++++-------
 include/XSLT/impl/xslt_output.hpp          |  70 ++++++-------
 include/XSLT/impl/xslt_sink.hpp            |  93 +++++++++--------
 3 files changed, 158 insertions(+), 121 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..33525cf 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -21,71 +21,109 @@ public:
   NamespaceStack() :
     autoNs_(1)
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    clear();
   } // NamespaceStack
 
+  void clear()
+  {
+    scopes_.clear();
+    used_.clear();
+    pushScope();
+    scopes_.back()[SC::xml] = SC::xml_uri;
+  } // clear
+
   void pushScope()
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    scopes_.push_back(Scope());
+    used_.push_back(Scope());
   } // pushScope
 
   void popScope()
   {
-    prefixStack_.pop_back();
-    uriStack_.pop_back();
+    scopes_.pop_back();
+    used_.pop_back();
   } // popScope
 
-  void declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
+  // Finds the prefix to be used on an element or attribute in namespaceURI,
+  // adding a declaration to the current scope if there is not one already
+  string_type declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
   {
-    if(findPrefix(namespaceURI) != EMPTY_STRING)
-      return;
-
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
-
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
-
-    prefixStack_.back()[prefix] = namespaceURI;
-    uriStack_.back()[namespaceURI] = prefix;
+    if(string_adaptor::empty(namespaceURI))
+    {
+      if(!attr)
+      {
+        if(!string_adaptor::empty(findURI(EMPTY_STRING)))
+          scopes_.back()[EMPTY_STRING] = EMPTY_STRING;
+        used_.back()[EMPTY_STRING] = EMPTY_STRING;
+      } // if ...
+      return EMPTY_STRING;
+    } // if ...
+
+    string_type prefix;
+    if(!findPrefix(namespaceURI, attr, prefix))
+    {
+      bool remap = (attr && string_adaptor::empty(given_prefix)) || 
+                   (given_prefix == SC::xmlns) ||
+                   (given_prefix == SC::xml) ||
+                   (used_.back().find(given_prefix) != used_.back().end());
+
+      prefix = !remap ? given_prefix : autoNamespacePrefix();
+
+      scopes_.back()[prefix] = namespaceURI;
+    } // if ...
+
+    used_.back()[prefix] = namespaceURI;
+    return prefix;
   } // declareNamespace
 
-  const string_type& findURI(const string_type& prefix) const
-  {
-    return searchStack(prefixStack_, prefix);
-  } // findURI
-
-  const string_type& findPrefix(const string_type& uri) const
-  {
-    return searchStack(uriStack_, uri);
-  } // findPrefix
-
-  typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
-  typename Scope::const_iterator end() { return prefixStack_.back().end(); }
+  typename Scope::const_iterator begin() { return scopes_.back().begin(); }
+  typename Scope::const_iterator end() { return scopes_.back().end(); }
 
 private:
   typedef std::vector<Scope> ScopeStack;
 
-  const string_type& searchStack(const ScopeStack& stack, const string_type& key) const
+  const string_type& findURI(const string_type& prefix) const
   {
-    for(typename ScopeStack::const_reverse_iterator ss = stack.rbegin(), se = stack.rend(); ss != se; ss++)
-    {      
-      typename Scope::const_iterator i = ss->find(key);
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+    {
+      typename Scope::const_iterator i = ss->find(prefix);
       if(i != ss->end())
         return i->second;
-    }
+    } // for ...
     return EMPTY_STRING;
-  } // searchStack
+  } // findURI
+
+  // Looks for a prefix bound to uri, and which isn't hidden by an inner declaration.
+  // Attributes cannot use the default namespace.
+  bool findPrefix(const string_type& uri, bool attr, string_type& prefix) const
+  {
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+      for(typename Scope::const_iterator i = ss->begin(), ie = ss->end(); i != ie; ++i)
+        if((i->second == uri) && 
+           !(attr && string_adaptor::empty(i->first)) &&
+           (findURI(i->first) == uri))
+        {
+          prefix = i->first;
+          return true;
+        } // if ...
+    return false;
+  } // findPrefix
 
   string_type autoNamespacePrefix()
   {
-    std::basic_ostringstream<typename string_adaptor::value_type> ss;
-    ss << SC::auto_ns << autoNs_++;
-    return string_adaptor::construct(ss.str());
+    string_type prefix;
+    do
+    {
+      std::basic_ostringstream<typename string_adaptor::value_type> ss;
+      ss << SC::auto_ns << autoNs_++;
+      prefix = string_adaptor::construct(ss.str());
+    } 
+    while(!string_adaptor::empty(findURI(prefix)));
+    return prefix;
   } // autoNamespacePrefix
 
-  ScopeStack prefixStack_;
-  ScopeStack uriStack_;
+  ScopeStack scopes_; // declarations made on each open element
+  ScopeStack used_;   // prefixes in use in each open element's start tag
   string_type EMPTY_STRING;
   unsigned int autoNs_;
 }; // class NamespaceStack
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..13e1593 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -39,6 +39,16 @@ public:
   {
     typename Settings::const_iterator method = settings.find(SC::method);
     text_mode_ = (method != settings.end() && method->second == SC::text);
+
+    buffering_ = 0;
+    pending_element_ = false;
+    pending_text_ = false;
+    pending_attribute_ = -1;
+    while(!element_stack_.empty())
+      element_stack_.pop();
+    namespaceStack_.clear();
+
+    do_disableOutputEscaping(false);
     if(text_mode_)
       do_disableOutputEscaping(true);
 
@@ -65,17 +75,13 @@ public:
     flush_current();
 
     namespaceStack_.pushScope();
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI);
 
     element_stack_.push(QName<string_type, string_adaptor>(mapped_prefix, localName, namespaceURI));
 
     atts_.clear();
     pending_element_ = true;
 
-    namespaceStack_.pushScope();
     return true;
   } // start_element
 
@@ -85,7 +91,7 @@ public:
     end_element(en.prefix, en.localName, en.namespaceURI);
   } // end_element
 
-  void end_element(const string_type& /* prefix */, const string_type& localName, const string_type& namespaceURI)
+  void end_element(const string_type& /* prefix */, const string_type& /* localName */, const string_type& namespaceURI)
   {
     if(pop_if_buffering())
       return;
@@ -93,12 +99,9 @@ public:
     flush_current();
 
     if(!text_mode_)
-    {
-      string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-      do_end_element((!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName, namespaceURI);
-      element_stack_.pop();
-    } // end_element
+      do_end_element(element_stack_.top().qname, namespaceURI);
 
+    element_stack_.pop();
     namespaceStack_.popScope();
   } // end_element
 
@@ -127,10 +130,7 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI, true);
     string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
 
     atts_.addOrReplaceAttribute(namespaceURI,
@@ -159,13 +159,18 @@ public:
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
-    if(!pending_element_)
-    {  
-      warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
+    if(is_buffering())
       return;
-    } // if ...
 
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    if((qName == SC::xmlns) || (string_adaptor::find(qName, SC::xmlns_colon) == 0))
+      return; // namespace declarations aren't attributes
+
+    if(string_adaptor::empty(uri))
+      start_attribute(string_adaptor::empty_string(), !string_adaptor::empty(localName) ? localName : qName, uri);
+    else
+      start_attribute(qName, uri);
+    characters(value);
+    end_attribute();
   } // add_attribute
 
   void characters(const string_type& ch)
@@ -179,15 +184,6 @@ public:
 
     flush_element();
 
-    if(pending_attribute_ != -1)
-    {   
-      atts_.setValue(pending_attribute_, string_adaptor::concat(atts_.getValue(pending_attribute_), ch));
-      return;
-    } // if ...
-
-    if(buffering_)
-      return;
-
     if(!pending_text_)
     {
       pending_text_ = true;
@@ -328,26 +324,23 @@ private:
 
   void flush_element()
   {
-    if((!pending_element_) || (pending_attribute_ != -1))
+    if(!pending_element_)
       return;
 
+    pending_element_ = false;
+
     if(text_mode_)
       return;
 
-    bool want_decs = want_namespace_declarations();
-    if(want_decs)
-      addNamespaceDeclarations();
-    namespaceStack_.popScope();
-    if(want_decs)
+    if(want_namespace_declarations())
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
-    pending_element_ = false;
   } // flush_element
 
   bool isCDATA()
   {
-    if(element_stack_.empty())
+    if(element_stack_.empty() || text_mode_)
       return false;
     QName<string_type, string_adaptor> currentElement = element_stack_.top();
     return cdataElements_.find(currentElement) != cdataElements_.end();
@@ -371,6 +364,9 @@ private:
 
   void warning(const string_type& warning_message)
   {
+    if(!warning_sink_)
+      return;
+
     warning_sink_->characters(warning_message);
     warning_sink_->characters(SC::newline);
   } // warning
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..9d5ef07 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -89,7 +89,9 @@ public:
     stream_(stream),
     disable_output_escaping_(false),
     in_cdata_(false),
+    cdata_brackets_(0),
     empty_(false),
+    seen_decl_(true),
     seen_root_(true),
     indent_(-1),
     out_again_(false)
@@ -100,7 +102,9 @@ public:
     stream_(rhs.stream_),
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
+    cdata_brackets_(rhs.cdata_brackets_),
     empty_(false),
+    seen_decl_(rhs.seen_decl_),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
@@ -124,10 +128,13 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    seen_decl_ = false;
     seen_root_ = false;
+    in_cdata_ = false;
+    empty_ = false;
+    out_again_ = false;
     settings_ = settings;
-    if(setting(SC::indent) == SC::yes)
-      indent_ = 0;
+    indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
 
   void do_end_document()
@@ -138,11 +145,10 @@ protected:
                         const string_type& /* namespaceURI */,
                         const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(!seen_root_)
-      do_decl(qName);
+    close_element_if_empty();
 
-    if(empty_)
-      stream_ << ">";
+    if(!seen_root_)
+      do_doctype(qName);
 
     indent();
     stream_ << '<' << qName;
@@ -159,9 +165,6 @@ protected:
   void do_end_element(const string_type& qName, 
 		                  const string_type& /* namespaceURI */)
   { 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
-
     preoutdent(empty_);
 
     if(empty_)
@@ -182,24 +185,18 @@ protected:
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
     else if(in_cdata_) 
     {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
+      // ]]> can't appear in a CDATA section, so split it over two. It might
+      // arrive in pieces, so keep count of the brackets we've just written.
+      for(typename string_adaptor::const_iterator c = string_adaptor::begin(ch), ce = string_adaptor::end(ch); c != ce; ++c)
       {
-        stream_ << ch;
-        return;
-      }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
+        if((*c == SC::GREATER_THAN_SIGN) && (cdata_brackets_ >= 2))
+        {
+          do_end_CDATA();
+          do_start_CDATA();
+        } // if ...
+        cdata_brackets_ = (*c == SC::RIGHT_SQUARE_BRACKET) ? cdata_brackets_ + 1 : 0;
+        stream_ << *c;
+      } // for ...
     }
     else
       stream_ << ch;
@@ -210,6 +207,7 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
+    cdata_brackets_ = 0;
     stream_ << SC::CDATAStart;
   } // do_start_CDATA
 
@@ -253,8 +251,8 @@ private:
       empty_ = false;
     }
 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
+    if(!seen_decl_)
+      do_decl();
   } // close_element_if_empty
 
   void indent()
@@ -291,8 +289,10 @@ private:
     out_again_ = true;
   } // outdent
  
-  void do_decl(const string_type& qName)
+  void do_decl()
   {
+    seen_decl_ = true;
+
     if((setting(SC::method) == SC::text) || (setting(SC::omit_xml_declaration) == SC::yes))
       return;
 
@@ -308,23 +308,24 @@ private:
         stream_ << " standalone=\"" << s << "\"";
     }
     stream_ << "?>\n";
+  } // do_decl 
 
-    if(!string_adaptor::empty(qName))
-    {
-      string_type pub = setting(SC::doctype_public);
-      string_type sys = setting(SC::doctype_system);
-
-      if(!string_adaptor::empty(sys))
-      {
-        stream_ << "<!DOCTYPE " << qName << "\n";
-        if(!string_adaptor::empty(pub))
-          stream_ << "  PUBLIC \"" << pub << "\" \"" << sys << "\">\n";
-	else
-          stream_ << "  SYSTEM \"" << sys << "\">\n";
-      } // if(!sys.empty())
-    }
+  void do_doctype(const string_type& qName)
+  {
     seen_root_ = true;
-  } // do_decl 
+
+    string_type pub = setting(SC::doctype_public);
+    string_type sys = setting(SC::doctype_system);
+
+    if(string_adaptor::empty(sys))
+      return;
+
+    stream_ << "<!DOCTYPE " << qName << "\n";
+    if(!string_adaptor::empty(pub))
+      stream_ << "  PUBLIC \"" << pub << "\" \"" << sys << "\">\n";
+    else
+      stream_ << "  SYSTEM \"" << sys << "\">\n";
+  } // do_doctype
 
   string_type setting(const string_type& name)
   {
@@ -337,7 +338,9 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  int cdata_brackets_;
   bool empty_;
+  bool seen_decl_;
   bool seen_root_;
   int indent_;
   bool out_again_;
@@ -396,7 +399,7 @@ protected:
   void do_end_CDATA()
   {
     DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
-    if(lc.getNodeType() == DOM::Node_base::TEXT_NODE)
+    if(lc != 0 && lc.getNodeType() == DOM::Node_base::TEXT_NODE)
       current().replaceChild(document().createCDATASection(lc.getNodeValue()), lc);
   } // do_end_CDATA
 
-- 
2.43.0


From d9a63f797959b76a24a9c0669fd86d1befeb1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 055/106] fix: NamespaceSupport redeclared and shadowed
 prefixes

---
 include/SAX/helpers/NamespaceSupport.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..5314384 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -178,7 +178,7 @@ class NamespaceSupport
       if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
         return false;
 
-      contexts_.back().insert(std::make_pair(prefix, uri));
+      contexts_.back()[prefix] = uri;
       return true;
     } // declarePrefix
 
@@ -277,7 +277,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if((u->second == uri) && !string_adaptor::empty(u->first) && isInnermost(i, u->first))
             return u->first;
       } // for ...
 
@@ -304,7 +304,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
+          if(!string_adaptor::empty(u->first) && isInnermost(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
        
@@ -339,7 +339,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if((u->second == uri) && !string_adaptor::empty(u->first) && isInnermost(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
 
@@ -369,10 +369,19 @@ class NamespaceSupport
     } // getDeclaredPrefixes
 
   private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
+    typedef typename std::map<string_type, string_type> stringMapT;
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
+    // is this the declaration of prefix in force, ie not shadowed by a descendant context?
+    bool isInnermost(typename contextListT::const_reverse_iterator context, const string_type& prefix) const
+    {
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != context; ++i)
+        if(i->find(prefix) != i->end())
+          return false;
+      return true;
+    } // isInnermost
+
     // member variables
     contextListT contexts_;
 
-- 
2.43.0


From 7b76553fdc97c31f70275b059dc5aff05539a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 056/106] fix: IStreamHandle survives self-assignment

---
 include/SAX/IStreamHandle.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/SAX/IStreamHandle.hpp b/include/SAX/IStreamHandle.hpp
index ede67a3..e12e0f9 100644
--- a/include/SAX/IStreamHandle.hpp
+++ b/include/SAX/IStreamHandle.hpp
@@ -339,7 +339,10 @@ IStreamHandle::~IStreamHandle()
 inline
 IStreamHandle& IStreamHandle::operator=(const IStreamHandle& rhs)
 {
-    // Add to rhs first to avoid self-assignment bug.
+    // removeRef clears our members, which on self-assignment are also rhs's
+    if(this == &rhs)
+        return *this;
+
     rhs.addRef();
     removeRef();
     is_ = rhs.is_;
-- 
2.43.0


From c0eee1a06492d9c6cae8a9e49097a243936f6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 057/106] fix: AttributesImpl assignment returns *this and
 survives setAttributes(self)

---
 include/SAX/helpers/AttributesImpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..a4c9458 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
@@ -324,6 +325,9 @@ public:
    */
   void setAttributes(const AttributesT& atts)
   {
+    if(&atts == this)
+      return;
+
 	  clear();
 	  
     int max = atts.getLength();
-- 
2.43.0


From 770c14b253096cbb9d9a47ab65b3cbabb4aa26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 058/106] fix: expat wrapper state survives failed parses;
 external errors, namespace switches and DTD events as documented

---
 include/DOM/SAX2DOM/SAX2DOM.hpp   | 10 ++++-
 include/SAX/wrappers/saxexpat.hpp | 70 +++++++++++++++++++++++--------
 src/SAX/wrappers/saxexpat.cpp     |  7 +++-
 3 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 571fcaa..765e489 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -382,7 +382,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
@@ -427,13 +427,19 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
       documentType_->addEntity(entity);
     } // externalEntityDecl
 
+    static bool isParameterEntity(const stringT& name)
+    {
+      static const stringT PERCENT = string_adaptorT::construct_from_utf8("%");
+      return string_adaptorT::find(name, PERCENT) == 0;
+    } // isParameterEntity
+
     /////////////////////////////////////////////////////////////////////////
     // DTDHandler
     virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index cef9f2b..fb83ee9 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -256,6 +256,40 @@ class expat_wrapper :
   private:
     bool do_parse(inputSourceT& source, XML_Parser parser);
 
+    // whatever way a parse finishes, leave the wrapper ready for the next one
+    class ParseScope
+    {
+    public:
+      ParseScope(expat_wrapper& wrapper) : wrapper_(wrapper) 
+      {
+        wrapper_.parsing_ = true;
+      } // ParseScope
+      ~ParseScope()
+      {
+        wrapper_.parsing_ = false;
+        wrapper_.nsSupport_.reset();
+        wrapper_.namespaceContextCreated_.clear();
+        wrapper_.declaredExternalEnts_.clear();
+        XML_ParserReset(wrapper_.parser_, 0);
+      } // ~ParseScope
+    private:
+      expat_wrapper& wrapper_;
+      ParseScope(const ParseScope&);
+      ParseScope& operator=(const ParseScope&);
+    }; // class ParseScope
+
+    class ExternalParser
+    {
+    public:
+      ExternalParser(XML_Parser parser) : parser_(parser) { }
+      ~ExternalParser() { if(parser_) XML_ParserFree(parser_); }
+      operator XML_Parser() const { return parser_; }
+    private:
+      XML_Parser parser_;
+      ExternalParser(const ExternalParser&);
+      ExternalParser& operator=(const ExternalParser&);
+    }; // class ExternalParser
+
   public:
     //////////////////////////////////////////////////
     // Locator
@@ -408,7 +442,7 @@ void expat_wrapper<string_type, T0, T1>::setFeature(const string_type& name, boo
   {
     checkNotParsing(SA::construct_from_utf8("feature"), name);
     prefixes_ = value;
-    if(prefixes_ && !namespaces_)
+    if(!prefixes_ && !namespaces_)
       namespaces_ = true;
     return;
   } // namespace prefixes
@@ -460,14 +494,14 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
   setCallbacks();
 
+  ParseScope scope(*this);
+
   publicId_ = source.getPublicId();
   systemId_ = source.getSystemId();
 
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
-  parsing_ = true;
-
   if(contentHandler_)
     contentHandler_->startDocument();
 
@@ -477,10 +511,6 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
-
-  parsing_ = false;
-
-  XML_ParserReset(parser_, 0);
 } // parse
 
 template<class string_type, class T0, class T1>
@@ -494,7 +524,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
   } // if(is.resolver() == 0)
 
   const int BUFF_SIZE = 10*1024;
-  while(!is.resolve()->eof())
+  bool finished = false;
+  while(!finished)
   {
     char* buffer = (char*)XML_GetBuffer(parser, BUFF_SIZE);
     if(buffer == NULL)
@@ -504,10 +535,11 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     is.resolve()->read(buffer, BUFF_SIZE);
-    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
+    finished = !is.resolve()->good();
+    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), finished) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -623,9 +655,10 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
         typename SA::size_type n = SA::find(attQName, nsc_.colon);
         if(n != SA::npos())
           prefix = SA::construct(SA::begin(attQName) + n + 1, SA::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value)) 
+        if(nsSupport_.declarePrefix(prefix, value)) 
+          contentHandler_->startPrefixMapping(prefix, value);
+        else if((prefix != nsc_.xml) || (value != nsc_.xml_uri))
           reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_, 
                                   emptyString_, 
@@ -861,7 +894,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
@@ -874,7 +907,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -893,7 +926,10 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  string_type s_entityName(SA::construct_from_utf8(entityName));
+  if(is_parameter_entity)
+    s_entityName = SA::construct_from_utf8((std::string("%") + entityName).c_str());
+
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
@@ -1030,12 +1066,10 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
+  ExternalParser externalParser(XML_ExternalEntityParserCreate(parser, context, 0));
 
   bool ok = do_parse(source, externalParser);
 
-  XML_ParserFree(externalParser);
-
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
 
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 6df8219..891a7a5 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -119,10 +119,13 @@ void ewim_commentHandler(void* userData, const XML_Char* data)
   p->commentHandler(data);
 } // commentHandler
 
-void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int /* is_parameter_entity */)
+void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->skippedEntity(entityName);
+  if(is_parameter_entity)
+    p->skippedEntity((std::string("%") + entityName).c_str());
+  else
+    p->skippedEntity(entityName);
 } // skippedEntityHandler
 
 
-- 
2.43.0


From 19c71159817f3bf8d402f7625dc01d0ff16e2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 059/106] fix: expat wrapper reports NOTATION types with a
 space

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index fb83ee9..692483d 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -897,9 +897,13 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
     const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
+    // expat leaves out the space in NOTATION (a|b)
+    std::string type(att_type);
+    if(type.compare(0, 9, "NOTATION(") == 0)
+      type.insert(8, " ");
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
                                 SA::construct_from_utf8(attname), 
-                                SA::construct_from_utf8(att_type), 
+                                SA::construct_from_utf8(type.c_str()), 
                                 *defType, 
                                 SA::construct_from_utf8(dflt));
   }
-- 
2.43.0


From 0fcd71e874c036cc0f560760439d27d8a6ca5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 060/106] fix: Writer escapes DTD values, splits ]]> in CDATA,
 writes each namespace declaration once and resets between documents

---
 include/SAX/filter/Writer.hpp | 128 ++++++++++++++++++++++++++++------
 1 file changed, 107 insertions(+), 21 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..079c9cf 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_SAX_WRITER_H
 
 #include <SAX/ArabicaConfig.hpp>
+#include <SAX/helpers/AttributeDefaults.hpp>
 #include <SAX/helpers/AttributesImpl.hpp>
 #include <SAX/helpers/NamespaceSupport.hpp>
 #include <SAX/helpers/XMLFilterImpl.hpp>
@@ -47,6 +48,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     Writer(ostreamT& stream, unsigned int indent = 2) :
       inStartTag_(false),
       inCDATA_(false),
+      cdataBrackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -61,6 +63,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       XMLFilterT(parent),
       inStartTag_(false),
       inCDATA_(false),
+      cdataBrackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -74,6 +77,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     Writer(ostreamT& stream, const string_type& encoding, unsigned int indent = 2) :
       inStartTag_(false),
       inCDATA_(false),
+      cdataBrackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -88,6 +92,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       XMLFilterT(parent),
       inStartTag_(false),
       inCDATA_(false),
+      cdataBrackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -154,10 +159,17 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     virtual void startElementClose();
 
   private:
+    void writeEntityValue(const string_type& value);
+    bool isDeclared(const string_type& qName) const;
+    void writeStartCDATA();
+    void writeEndCDATA();
+
     const NamespaceConstantsT nsc_;
+    const AttributeDefaults<string_type, string_adaptor> attrDefaults_;
     AttributesImplT prefixMappings_;
     bool inStartTag_;
     bool inCDATA_;
+    int cdataBrackets_;
     bool inDTD_;
     bool internalSubset_;
     int indent_;
@@ -170,7 +182,12 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::startDocument()
 {
-  startElementClose();
+  // whatever an earlier, perhaps abandoned, document left behind
+  inStartTag_ = false;
+  inDTD_ = false;
+  internalSubset_ = true;
+  prefixMappings_.clear();
+
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::QUESTION_MARK
            << UnicodeT::LOWERCASE_X
@@ -264,8 +281,12 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
   writeAttributes(prefixMappings_);
+  AttributesImplT undeclared;
+  for(int i = 0; i < atts.getLength(); ++i)
+    if(!isDeclared(atts.getQName(i)))
+      undeclared.addAttribute(atts.getURI(i), atts.getLocalName(i), atts.getQName(i), atts.getType(i), atts.getValue(i));
   prefixMappings_.clear();
-  writeAttributes(atts);
+  writeAttributes(undeclared);
 
   inStartTag_ = true;
   depth_ += indent_;
@@ -274,6 +295,16 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   XMLFilterT::startElement(namespaceURI, localName, qName, atts);
 } // startElementOpen
 
+// namespace declarations are reported as prefix mappings, and may also be among the attributes 
+template<class string_type, class string_adaptor>
+bool Writer<string_type, string_adaptor>::isDeclared(const string_type& qName) const
+{
+  for(int i = 0; i < prefixMappings_.getLength(); ++i)
+    if(prefixMappings_.getQName(i) == qName)
+      return true;
+  return false;
+} // isDeclared
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::writeAttributes(const AttributesT& atts)
 {
@@ -345,7 +376,17 @@ void Writer<string_type, string_adaptor>::characters(const string_type& ch)
   if(!inCDATA_)
     std::for_each(ch.begin(), ch.end(), text_escaperT(*stream_));
   else
-    *stream_ << ch;
+    for(typename string_type::const_iterator c = ch.begin(), ce = ch.end(); c != ce; ++c)
+    {
+      // ]]> can't appear in a section, so put the brackets in one section and the > in another 
+      if((*c == UnicodeT::GREATER_THAN_SIGN) && (cdataBrackets_ >= 2))
+      {
+        writeEndCDATA();
+        writeStartCDATA();
+      } // if ...
+      cdataBrackets_ = (*c == UnicodeT::RIGHT_SQUARE_BRACKET) ? cdataBrackets_ + 1 : 0;
+      *stream_ << *c;
+    } // for ...
 
   XMLFilterT::characters(ch);
 } // characters
@@ -354,7 +395,7 @@ template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::ignorableWhitespace(const string_type& ch)
 {
   startElementClose();
-  *stream_ << ch;
+  std::for_each(ch.begin(), ch.end(), text_escaperT(*stream_));
 
   XMLFilterT::ignorableWhitespace(ch);
 } // ignorableWhitespace
@@ -383,7 +424,12 @@ template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::skippedEntity(const string_type& name)
 {
   startElementClose();
-  if(!isDtd(name))
+  if(!name.empty() && (name[0] == UnicodeT::PERCENT_SIGN))
+  {
+    if(inDTD_ && internalSubset_)
+      *stream_ << name << UnicodeT::SEMI_COLON << std::endl;
+  }
+  else if(!isDtd(name))
     *stream_ << UnicodeT::AMPERSAND << name << UnicodeT::SEMI_COLON;
 
   XMLFilterT::skippedEntity(name);
@@ -474,6 +520,15 @@ void Writer<string_type, string_adaptor>::startCDATA()
 {
   startElementClose();
   inCDATA_ = true;
+  writeStartCDATA();
+
+  XMLFilterT::startCDATA();
+} // startCDATA
+
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeStartCDATA()
+{
+  cdataBrackets_ = 0;
 
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::EXCLAMATION_MARK
@@ -484,23 +539,27 @@ void Writer<string_type, string_adaptor>::startCDATA()
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_A
            << UnicodeT::LEFT_SQUARE_BRACKET;
-
-  XMLFilterT::startCDATA();
-} // startCDATA
+} // writeStartCDATA
 
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::endCDATA()
 {
   startElementClose();
-  *stream_ << UnicodeT::RIGHT_SQUARE_BRACKET
-           << UnicodeT::RIGHT_SQUARE_BRACKET
-           << UnicodeT::GREATER_THAN_SIGN;
+  writeEndCDATA();
 
   inCDATA_ = false;
 
   XMLFilterT::endCDATA();
 } // endCDATA
 
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeEndCDATA()
+{
+  *stream_ << UnicodeT::RIGHT_SQUARE_BRACKET
+           << UnicodeT::RIGHT_SQUARE_BRACKET
+           << UnicodeT::GREATER_THAN_SIGN;
+} // writeEndCDATA
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::comment(const string_type& text)
 {
@@ -632,11 +691,13 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
       *stream_ << UnicodeT::SPACE
                << valueDefault;
 
-    if(!value.empty())
+    if((valueDefault != attrDefaults_.implied) && (valueDefault != attrDefaults_.required))
+    {
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+      std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+      *stream_ << UnicodeT::QUOTATION_MARK;
+    } // if ...
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -654,9 +715,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
     doIndent();
     startEntityDecl(name);
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
+             << UnicodeT::QUOTATION_MARK;
+    writeEntityValue(value);
+    *stream_ << UnicodeT::QUOTATION_MARK
              << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
@@ -664,6 +725,22 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
   XMLFilterT::internalEntityDecl(name, value);
 } // internalEntityDecl
 
+// the value is the entity's replacement text, so anything that would be 
+// recognised in the declaration is written as a character reference
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeEntityValue(const string_type& value)
+{
+  for(typename string_type::const_iterator c = value.begin(), ce = value.end(); c != ce; ++c)
+    if((*c == UnicodeT::AMPERSAND) || (*c == UnicodeT::PERCENT_SIGN) ||
+       (*c == UnicodeT::QUOTATION_MARK) || (*c == UnicodeT::CARRIAGE_RETURN))
+      *stream_ << UnicodeT::AMPERSAND
+               << UnicodeT::NUMBER_SIGN
+               << static_cast<int>(*c)
+               << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << *c;
+} // writeEntityValue
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::externalEntityDecl(const string_type& name, const string_type& publicId, const string_type& systemId)
 {
@@ -692,8 +769,15 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+
+  // a parameter entity's name is reported as %name, and declared as % name
+  if(!name.empty() && (name[0] == UnicodeT::PERCENT_SIGN))
+    *stream_ << UnicodeT::PERCENT_SIGN
+             << UnicodeT::SPACE
+             << name.substr(1);
+  else
+    *stream_ << name;
 } // startEntityDecl
 
 template<class string_type, class string_adaptor>
@@ -723,10 +807,12 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
+    const charT quote = (systemId.find(UnicodeT::QUOTATION_MARK) == string_type::npos) ?
+                            UnicodeT::QUOTATION_MARK : UnicodeT::APOSTROPHE;
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
+             << quote
              << systemId
-             << UnicodeT::QUOTATION_MARK;
+             << quote;
   } // if ...
 } // publicAndSystem
 
-- 
2.43.0


From a84da441cd60aebfea874624141e9790cf53c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 061/106] fix: SAX filters start each parse afresh;
 TextCoalescer flushes before every event; TextOnly compiles; PYX escapes
 backslash

---
 include/SAX/filter/NamespaceTracker.hpp |  9 ++++++
 include/SAX/filter/PYXWriter.hpp        | 17 +++++++----
 include/SAX/filter/TextCoalescer.hpp    | 37 ++++++++++++++++++++++++
 include/SAX/filter/TextOnly.hpp         |  6 +++-
 include/SAX/filter/XMLBaseTracker.hpp   | 38 ++++++++++++++++++++++---
 include/SAX/helpers/XMLBaseSupport.hpp  | 14 +++++++--
 6 files changed, 109 insertions(+), 12 deletions(-)

diff --git a/include/SAX/filter/NamespaceTracker.hpp b/include/SAX/filter/NamespaceTracker.hpp
index 19392ce..881da38 100644
--- a/include/SAX/filter/NamespaceTracker.hpp
+++ b/include/SAX/filter/NamespaceTracker.hpp
@@ -22,6 +22,7 @@ class NamespaceTracker : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLFilterT::InputSourceT InputSourceT;
 
   NamespaceTracker() : 
     XMLFilterT()
@@ -65,6 +66,14 @@ public:
     return ns;
   } // inScopeNamespaces
 
+  virtual void parse(InputSourceT& input)
+  {
+    // an earlier parse may have been abandoned part way through
+    namespaces_.reset();
+    buffer_.clear();
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
diff --git a/include/SAX/filter/PYXWriter.hpp b/include/SAX/filter/PYXWriter.hpp
index a978f32..5fb7257 100644
--- a/include/SAX/filter/PYXWriter.hpp
+++ b/include/SAX/filter/PYXWriter.hpp
@@ -48,6 +48,10 @@ class PYXWriter : public XMLFilterImpl<string_type, string_adaptor>
 
   private: 
     void escape(const string_type& ch);
+    static const string_type& name(const string_type& localName, const string_type& qName)
+    {
+      return !string_adaptor::empty(localName) ? localName : qName;
+    } // name
 
     ostreamT* stream_;
 }; // class PYXWriter
@@ -57,10 +61,10 @@ void PYXWriter<string_type, string_adaptor>::startElement(
                               const string_type& namespaceURI, const string_type& localName,
                               const string_type& qName, const AttributesT& atts)
 { 
-  *stream_ << UnicodeT::LEFT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::LEFT_PARENTHESIS << name(localName, qName) << std::endl;
   for(int i = 0; i < atts.getLength(); ++i)
   {
-    *stream_ << UnicodeT::CAPITAL_A << atts.getLocalName(i) 
+    *stream_ << UnicodeT::CAPITAL_A << name(atts.getLocalName(i), atts.getQName(i))
              << UnicodeT::SPACE;
     escape(atts.getValue(i));
     *stream_ << std::endl; 
@@ -74,7 +78,7 @@ void PYXWriter<string_type, string_adaptor>::endElement(
                             const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName)
 {
-  *stream_ << UnicodeT::RIGHT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::RIGHT_PARENTHESIS << name(localName, qName) << std::endl;
 
   XMLFilterT::endElement(namespaceURI, localName, qName);
 } // endElement
@@ -93,8 +97,9 @@ template<class string_type, class string_adaptor>
 void PYXWriter<string_type, string_adaptor>::processingInstruction(const string_type& target, const string_type& data)
 {
   *stream_ << UnicodeT::QUESTION_MARK << target
-           << UnicodeT::SPACE << data
-           << std::endl;
+           << UnicodeT::SPACE;
+  escape(data);
+  *stream_ << std::endl;
 
   XMLFilterT::processingInstruction(target, data);
 } // processingInstruction
@@ -105,6 +110,8 @@ void PYXWriter<string_type, string_adaptor>::escape(const string_type& ch)
   for(typename string_adaptor::const_iterator s = string_adaptor::begin(ch), se = string_adaptor::end(ch); s != se; ++s)
     if(*s == UnicodeT::LINE_FEED)
       *stream_ << UnicodeT::BACK_SLASH << UnicodeT::LOWERCASE_N;
+    else if(*s == UnicodeT::BACK_SLASH)
+      *stream_ << UnicodeT::BACK_SLASH << UnicodeT::BACK_SLASH;
     else
       *stream_ << *s;
 } // escape
diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..46fa554 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -23,6 +23,7 @@ class TextCoalescer : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLFilterT::InputSourceT InputSourceT;
 
   TextCoalescer() : 
     XMLFilterT()
@@ -34,6 +35,30 @@ public:
   {
   } // TextCoalescer
 
+  virtual void parse(InputSourceT& input)
+  {
+    buffer_ = string_adaptor::empty_string();
+    XMLFilterT::parse(input);
+  } // parse
+
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
+  virtual void endPrefixMapping(const string_type& prefix)
+  {
+    flush();
+    XMLFilterT::endPrefixMapping(prefix);
+  } // endPrefixMapping
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
@@ -64,6 +89,18 @@ public:
     XMLFilterT::processingInstruction(target, data);
   } // processingInstruction
 
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
+  virtual void startDTD(const string_type& name, const string_type& publicId, const string_type& systemId)
+  {
+    flush();
+    XMLFilterT::startDTD(name, publicId, systemId);
+  } // startDTD
+
   virtual void startCDATA() 
   { 
     flush();
diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index a471466..5250a77 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -20,9 +20,11 @@ class TextOnly : public XMLFilterImpl<string_type, string_adaptor>
 
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
+  typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef string_type stringT;
 
   TextOnly() : 
-    XMLFilterT(0)
+    XMLFilterT()
   { 
   } // TextOnly
 
@@ -32,6 +34,8 @@ public:
   } // TextOnly
 
   // ContentHandler
+  virtual void startPrefixMapping(const stringT& prefix, const stringT& uri) { }
+  virtual void endPrefixMapping(const stringT& prefix) { }
   virtual void startElement(const stringT& namespaceURI, const stringT& localName,
                             const stringT& qName, const AttributesT& atts) { }
   virtual void endElement(const stringT& namespaceURI, const stringT& localName,
diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..cf45c07 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -21,6 +21,7 @@ public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Locator<string_type, string_adaptor> LocatorT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLFilterT::InputSourceT InputSourceT;
 
   XMLBaseTracker() : 
     XMLFilterT(),
@@ -38,11 +39,18 @@ public:
 
   virtual ~XMLBaseTracker() { } 
 
+  // applies to the document being parsed or, if there isn't one, to the next
   void setDocumentLocation(const string_type& loc)
   {
     setDocLoc(loc);
   } // setDocumentLocation
 
+  virtual void parse(InputSourceT& input)
+  {
+    ParseScope scope(*this);
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void setDocumentLocator(const LocatorT& locator)
   {
     locator_ = &locator;
@@ -52,6 +60,7 @@ public:
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    ensureBase();
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
@@ -65,19 +74,40 @@ public:
 
   string_type currentBase() const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    ensureBase();
     return xmlbase_.currentBase();
   } // currentBase
 
   string_type makeAbsolute(const string_type& url) const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    ensureBase();
     return xmlbase_.makeAbsolute(url);
   } // makeAbsolute
 
 private:
+  // however the parse finishes, the next document starts afresh
+  class ParseScope
+  {
+  public:
+    ParseScope(XMLBaseTracker& tracker) : tracker_(tracker) { }
+    ~ParseScope()
+    {
+      tracker_.xmlbase_.reset();
+      tracker_.base_set_ = false;
+      tracker_.locator_ = 0;
+    } // ~ParseScope
+  private:
+    XMLBaseTracker& tracker_;
+    ParseScope(const ParseScope&);
+    ParseScope& operator=(const ParseScope&);
+  }; // class ParseScope
+
+  void ensureBase() const
+  {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
+  } // ensureBase
+
   void setDocLoc(const string_type& loc) const
   {
     base_set_ = true;
diff --git a/include/SAX/helpers/XMLBaseSupport.hpp b/include/SAX/helpers/XMLBaseSupport.hpp
index ce48dbf..567d896 100644
--- a/include/SAX/helpers/XMLBaseSupport.hpp
+++ b/include/SAX/helpers/XMLBaseSupport.hpp
@@ -54,9 +54,19 @@ public:
   XMLBaseSupport() :
       depth_(0) { }
 
+  void reset()
+  {
+    bases_ = baseStackT();
+    depth_ = 0;
+  } // reset
+
+  // set the base from here until the end of the current element 
+  // or, if called outside the document element, for the whole document
   void setDocumentLocation(const string_type& loc)
   {
-    bases_.push(std::make_pair(-1, loc));
+    if(depth_ == 0)
+      reset();
+    bases_.push(std::make_pair(depth_, loc));
   } // setDocumentLocation
 
   void startElement(const AttributesT& atts)
@@ -72,7 +82,7 @@ public:
 
   void endElement()
   {
-    if(currentDepth() == depth_)
+    while(currentDepth() == depth_)
       bases_.pop();
     --depth_;
   } // endElement
-- 
2.43.0


From f0dff2297419018db15e2039f51b4bcc2516d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 062/106] fix: expat wrapper carries handler exceptions past
 expat; separators in mixed content models

---
 include/SAX/wrappers/saxexpat.hpp | 63 ++++++++++++++++++++++++++-----
 src/SAX/wrappers/saxexpat.cpp     | 45 ++++++++++++----------
 2 files changed, 79 insertions(+), 29 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 692483d..ca99b82 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -8,6 +8,7 @@
 #include <SAX/XMLReader.hpp>
 #include <expat.h>
 
+#include <exception>
 #include <sstream>
 #include <SAX/InputSource.hpp>
 #include <SAX/ContentHandler.hpp>
@@ -87,13 +88,34 @@ class expat2base
 protected:
   virtual ~expat2base() { }
 
+  bool interrupted() const { return exception_ != nullptr; }
+  void interrupt()
+  {
+    exception_ = std::current_exception();
+    stopParsing();
+  } // interrupt
+  void clearInterruption() { exception_ = nullptr; }
+  void throwInterruption()
+  {
+    if(!interrupted())
+      return;
+    std::exception_ptr e = exception_;
+    clearInterruption();
+    std::rethrow_exception(e);
+  } // throwInterruption
+
 private:
+  std::exception_ptr exception_;
+
+  virtual void stopParsing() = 0;
+  virtual std::string contentModel(const XML_Content* model) = 0;
+  virtual void freeContentModel(XML_Content* model) = 0;
   virtual void charHandler(const char* txt, int txtlen) = 0;
   virtual void startElement(const char* qName, const char** atts) = 0;
   virtual void endElement(const char* qName) = 0;
   virtual void processingInstruction(const char* target, const char* data) = 0;
   virtual void elementDeclaration(const XML_Char* name,
-                                  const XML_Content* model) = 0;
+                                  const std::string& model) = 0;
   virtual void attListDeclaration(const XML_Char* elname,
                                   const XML_Char* attname,
                                   const XML_Char* att_type,
@@ -270,6 +292,7 @@ class expat_wrapper :
         wrapper_.nsSupport_.reset();
         wrapper_.namespaceContextCreated_.clear();
         wrapper_.declaredExternalEnts_.clear();
+        wrapper_.clearInterruption();
         XML_ParserReset(wrapper_.parser_, 0);
       } // ~ParseScope
     private:
@@ -315,8 +338,11 @@ class expat_wrapper :
     virtual void startElement(const char* qName, const char** atts);
     virtual void endElement(const char* qName);
     virtual void processingInstruction(const char* target, const char* data);
+    virtual void stopParsing() { XML_StopParser(currentParser_, XML_FALSE); }
+    virtual std::string contentModel(const XML_Content* model);
+    virtual void freeContentModel(XML_Content* model) { XML_FreeContentModel(currentParser_, model); }
     virtual void elementDeclaration(const XML_Char* name,
-                                    const XML_Content* model);
+                                    const std::string& model);
     virtual void attListDeclaration(const XML_Char* elname,
                                     const XML_Char* attname,
                                     const XML_Char* att_type,
@@ -366,6 +392,7 @@ class expat_wrapper :
     namespaceSupportT nsSupport_;
 
     XML_Parser parser_;
+    XML_Parser currentParser_;
     string_type publicId_;
     string_type systemId_;
     bool parsing_;
@@ -395,6 +422,7 @@ expat_wrapper<string_type, T0, T1>::expat_wrapper() :
   declHandler_(0),
   lexicalHandler_(0),
   parser_(XML_ParserCreate(0)),
+  currentParser_(parser_),
   parsing_(false),
   namespaces_(true),
   prefixes_(true),
@@ -507,7 +535,9 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   XML_SetParamEntityParsing(parser_, externalResolving_ ? XML_PARAM_ENTITY_PARSING_ALWAYS : XML_PARAM_ENTITY_PARSING_NEVER);
 
+  currentParser_ = parser_;
   do_parse(source, parser_);
+  throwInterruption();
 
   if(contentHandler_)
     contentHandler_->endDocument();
@@ -539,7 +569,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), finished) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
+      if(!interrupted())
+        reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -757,16 +788,20 @@ void expat_wrapper<string_type, T0, T1>::processingInstruction(const char* targe
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name,
-                                         const XML_Content* model)
+                                         const std::string& model)
 {
-  std::ostringstream os;
   if(declHandler_)
-    convertXML_Content(os, model);
-  XML_FreeContentModel(parser_, const_cast<XML_Content*>(model)); // which is ours to free
+    declHandler_->elementDecl(SA::construct_from_utf8(name), SA::construct_from_utf8(model.c_str()));
+} // elementDeclaration
 
+template<class string_type, class T0, class T1>
+std::string expat_wrapper<string_type, T0, T1>::contentModel(const XML_Content* model)
+{
+  std::ostringstream os;
   if(declHandler_)
-    declHandler_->elementDecl(SA::construct_from_utf8(name), SA::construct_from_utf8(os.str().c_str()));
-} // elementDeclaration
+    convertXML_Content(os, model);
+  return os.str();
+} // contentModel
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild)
@@ -854,7 +889,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if((i != 0) || (model->type == XML_CTYPE_MIXED))
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
@@ -1072,8 +1107,16 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
 
   ExternalParser externalParser(XML_ExternalEntityParserCreate(parser, context, 0));
 
+  XML_Parser outerParser = currentParser_;
+  currentParser_ = externalParser;
+
   bool ok = do_parse(source, externalParser);
 
+  currentParser_ = outerParser;
+
+  if(interrupted())
+    return 0;
+
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
 
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 891a7a5..339c9ea 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -18,34 +18,43 @@ namespace expat_wrapper_impl_mumbojumbo
 
 ////////////////////////////////////////////////////////////////////////
 // expat callback function definition
+//
+// An exception may not pass through expat, so it's held here, the parse stopped,
+// and thrown on once expat has returned.
+#define GUARDED(P, CALL) \
+  do { if(!(P)->interrupted()) try { CALL; } catch(...) { (P)->interrupt(); } } while(false)
+
 void ewim_charHandler(void* data, const char* txt, int txtlen)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->charHandler(txt, txtlen);
+  GUARDED(p, p->charHandler(txt, txtlen));
 } // charHandler
 
 void ewim_startElement(void* data, const char* qName, const char** atts)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->startElement(qName, atts);
+  GUARDED(p, p->startElement(qName, atts));
 } // startElement
 
 void ewim_endElement(void* data, const char* qName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->endElement(qName);
+  GUARDED(p, p->endElement(qName));
 } // endElement
 
 void ewim_processingInstruction(void* userData, const char* target, const char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->processingInstruction(target, data);
+  GUARDED(p, p->processingInstruction(target, data));
 } // processingInstruction
 
 void ewim_elementDeclaration(void* userData, const XML_Char* name, XML_Content* model)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->elementDeclaration(name, model);
+  std::string contentModel;
+  GUARDED(p, contentModel = p->contentModel(model));
+  p->freeContentModel(model); // which is ours to free
+  GUARDED(p, p->elementDeclaration(name, contentModel));
 } // elementDeclaration
 
 void ewim_attListDeclaration(void* userData,
@@ -56,7 +65,7 @@ void ewim_attListDeclaration(void* userData,
 					              int isrequired)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->attListDeclaration(elname, attname, att_type, dflt, isrequired);
+  GUARDED(p, p->attListDeclaration(elname, attname, att_type, dflt, isrequired));
 } // attListDeclaration
 
 void ewim_entityDeclaration(void* userData, 
@@ -70,8 +79,7 @@ void ewim_entityDeclaration(void* userData,
                       const XML_Char* notationName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->entityDeclaration(entityName, is_parameter_entity, value, value_length,
-                       base, systemId, publicId, notationName);
+  GUARDED(p, p->entityDeclaration(entityName, is_parameter_entity, value, value_length, base, systemId, publicId, notationName));
 
 } // entityDeclaration
 
@@ -82,7 +90,7 @@ void ewim_notationDeclaration(void* userData,
 					                const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->notationDeclaration(notationName, base, systemId, publicId);
+  GUARDED(p, p->notationDeclaration(notationName, base, systemId, publicId));
 } // notationDeclHandler
 
 void ewim_startDoctypeDecl(void* userData,
@@ -92,40 +100,37 @@ void ewim_startDoctypeDecl(void* userData,
 					                 int has_internal_subset)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset);
+  GUARDED(p, p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset));
 } // startDoctypeDecl
 
 void ewim_endDoctypeDecl(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endDoctypeDecl();
+  GUARDED(p, p->endDoctypeDecl());
 } // endDoctypeDecl
 
 void ewim_startCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startCdataSection();
+  GUARDED(p, p->startCdataSection());
 } // startCdatSection
 
 void ewim_endCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endCdataSection();
+  GUARDED(p, p->endCdataSection());
 } // endCdataSection
 
 void ewim_commentHandler(void* userData, const XML_Char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->commentHandler(data);
+  GUARDED(p, p->commentHandler(data));
 } // commentHandler
 
 void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  if(is_parameter_entity)
-    p->skippedEntity((std::string("%") + entityName).c_str());
-  else
-    p->skippedEntity(entityName);
+  GUARDED(p, p->skippedEntity((is_parameter_entity ? std::string("%") + entityName : std::string(entityName)).c_str()));
 } // skippedEntityHandler
 
 
@@ -136,7 +141,9 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
                                   const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(XML_GetUserData(parser));
-  return p->externalEntityRefHandler(parser, context, base, systemId, publicId);
+  int result = 0;
+  GUARDED(p, result = p->externalEntityRefHandler(parser, context, base, systemId, publicId));
+  return result;
 } // externalEntityRefHandler
 
 } // namespace expat_wrapper_impl_mumbojumbo
-- 
2.43.0


From 1639098b4d134f86528aef48236566581ff16ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:33 +0000
Subject: [PATCH 063/106] fix: libxml2 reader starts each parse afresh, reports
 fatal errors as such and refuses sources it cannot open

---
 include/SAX/wrappers/saxlibxml2.hpp | 39 +++++++++++++++++++++--------
 src/SAX/wrappers/saxlibxml2.cpp     |  7 +++++-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 6c268ed..dd09d08 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -220,6 +220,13 @@ class libxml2_wrapper :
     void checkNotParsing(const string_type& type, const string_type& name) const;
 
   private:
+    struct ParsingGuard
+    {
+      ParsingGuard(bool& parsing) : parsing_(parsing) { parsing_ = true; }
+      ~ParsingGuard() { parsing_ = false; }
+      bool& parsing_;
+    }; // struct ParsingGuard
+
     // member variables
     entityResolverT* entityResolver_;
     dtdHandlerT* dtdHandler_;
@@ -273,6 +280,8 @@ libxml2_wrapper<string_type, T0, T1>::libxml2_wrapper() :
 template<class string_type, class T0, class T1>
 libxml2_wrapper<string_type, T0, T1>::~libxml2_wrapper()
 {
+	xmlFreeDoc(context_->myDoc);
+	context_->myDoc = 0;
 	xmlFreeParserCtxt(context_);
 } // ~libxml2_wrapper
 
@@ -317,7 +326,7 @@ void libxml2_wrapper<string_type, T0, T1>::setFeature(const string_type& name, b
   {
     checkNotParsing(string_adaptor::construct_from_utf8("feature"), name);
     prefixes_ = value;
-    if(prefixes_ && !namespaces_)
+    if(!prefixes_ && !namespaces_)
       namespaces_ = true;
     return;
   }
@@ -421,20 +430,28 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
+  {
+    reportError("Could not resolve XML document", true);
     return;
+  }
 
-  parsing_ = true;
-
-	while(!is.resolve()->eof())
- 	{
-		char buffer[4096];
-		is.resolve()->read(buffer, sizeof(buffer));
-		xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), is.resolve()->eof());
-	} // while(!in.eof())
-
+  // every parse starts afresh, whatever became of the one before
+  nsSupport_.reset();
+  isInCData_ = false;
+  xmlFreeDoc(context_->myDoc);
+  context_->myDoc = 0;
   xmlCtxtResetPush(context_, 0, 0, 0, 0);
 
-  parsing_ = false;
+  ParsingGuard guard(parsing_);
+
+  bool finished = false;
+  while(!finished)
+  {
+    char buffer[4096];
+    is.resolve()->read(buffer, sizeof(buffer));
+    finished = !*is.resolve();
+    xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), finished);
+  } // while ...
 } // parse
 
 template<class string_type, class T0, class T1>
diff --git a/src/SAX/wrappers/saxlibxml2.cpp b/src/SAX/wrappers/saxlibxml2.cpp
index b1650a0..b9da165 100644
--- a/src/SAX/wrappers/saxlibxml2.cpp
+++ b/src/SAX/wrappers/saxlibxml2.cpp
@@ -104,7 +104,12 @@ void lwit_error(void* user_data, const char* fmt, ...)
   va_end(arg);
 
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXerror(msg);
+  // libxml2 brings fatal errors here too
+  xmlErrorPtr last = xmlCtxtGetLastError(p->parserContext());
+  if(last && last->level == XML_ERR_FATAL)
+    p->SAXfatalError(msg);
+  else
+    p->SAXerror(msg);
 } // lwit_error
 
 void lwit_fatalError(void* user_data, const char* fmt, ...)
-- 
2.43.0


From f09eeca56b21fff26e4e014125a208444154ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 064/106] fix: xerces wrapper joins surrogate pairs in wide
 strings; parseFirst keeps the system id alive

---
 include/SAX/wrappers/saxxerces.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 82cf335..86b1892 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -202,8 +202,22 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
           if(str && length)
           {
             std::vector<wchar_t> buffer;
-            std::copy(str, str+length, inserter(buffer, buffer.begin()));
-            return base::construct_from_utf16(&buffer[0], length);
+            buffer.reserve(length);
+            for(int i = 0; i != length; ++i)
+            {
+              // one wchar_t per character where it is wide enough to hold any
+              const bool pair = (sizeof(wchar_t) > sizeof(XMLCh)) &&
+                                (str[i] & 0xFC00) == 0xD800 &&
+                                (i+1 != length) && (str[i+1] & 0xFC00) == 0xDC00;
+              if(pair)
+              {
+                buffer.push_back(static_cast<wchar_t>(0x10000 + ((str[i] & 0x3FF) << 10) + (str[i+1] & 0x3FF)));
+                ++i;
+              }
+              else
+                buffer.push_back(static_cast<wchar_t>(str[i]));
+            } // for ...
+            return base::construct_from_utf16(&buffer[0], static_cast<int>(buffer.size()));
           }
           else
             return string_type();
@@ -916,8 +930,8 @@ bool xerces_wrapper<string_type,
   {
     // We can just pass the systemID to parseFirst and let Xerces open the
     // stream.
-    const char* systemID = XSA::asStdString(input.getSystemId()).c_str();
-    result = xerces_->parseFirst(systemID, newToken->token_);
+    const std::string systemID = XSA::asStdString(input.getSystemId());
+    result = xerces_->parseFirst(systemID.c_str(), newToken->token_);
   }
   else
   {
-- 
2.43.0


From 7c533ad18d79680a189f86895ea370b0c83ae0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 065/106] fix: base64 codecvt carries NUL bytes and padding
 state through

---
 include/convert/base64codecvt.hpp |  1 +
 src/convert/base64codecvt.cpp     | 70 ++++++++++++++++---------------
 2 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/include/convert/base64codecvt.hpp b/include/convert/base64codecvt.hpp
index 22c8d7c..ee4e42f 100644
--- a/include/convert/base64codecvt.hpp
+++ b/include/convert/base64codecvt.hpp
@@ -67,6 +67,7 @@ private:
 
   int getState() const;
   void nextState() const;
+  void setState(int s) const;
   int getCurrentOutChar() const;
   void consumeOutChar() const;
   char getPreviousChar() const;
diff --git a/src/convert/base64codecvt.cpp b/src/convert/base64codecvt.cpp
index ea31d92..a0a3d25 100644
--- a/src/convert/base64codecvt.cpp
+++ b/src/convert/base64codecvt.cpp
@@ -28,45 +28,49 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
   from_next = from;
   to_next = to;
 
-  // generate the quad
-  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))) 
+  // states 0 to 3 write each of the characters of a quad
+  // states 4 and 5 write the padding once the input has run out
+  while(to_next != to_limit)
   {
-    char c = getCurrentOutChar();
+    int c = getCurrentOutChar();
+    char p = getPreviousChar();
+    bool more = (c != NO_MORE);
+
+    if((getState() == 0 || getState() == 3) && !more)
+      break;
+
     switch(getState())
     {
       case 0:
-        *to_next++ = base64_charset[(c>>2) & 63];
+        *to_next++ = base64_charset[(c >> 2) & 63];
         consumeOutChar();
+        setState(1);
         break;
       case 1:
-        *to_next++ = base64_charset[((getPreviousChar() & 3) << 4) + ((c >> 4) & 15)];
+        *to_next++ = base64_charset[((p & 3) << 4) + (more ? ((c >> 4) & 15) : 0)];
         consumeOutChar();
+        setState(more ? 2 : 4);
         break;
       case 2:
-        *to_next++ = base64_charset[((getPreviousChar() & 15) << 2) + ((c >> 6) & 3)];
+        *to_next++ = base64_charset[((p & 15) << 2) + (more ? ((c >> 6) & 3) : 0)];
         setPreviousChar(0);
+        setState(more ? 3 : 5);
         break;
       case 3:
         *to_next++ = base64_charset[(c & 63)];
         consumeOutChar();
         setPreviousChar(0);
+        setState(0);
         break;
-    } // switch(s) 
-
-    nextState();
-
-    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))
-      break;
-  } // while((from_next < from_end) && (to_next != to_end))
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
+      case 4:
+      case 5:
+        *to_next++ = '=';
+        setState(getState() == 4 ? 5 : 0);
+        break;
+    } // switch(getState())
+  } // while(to_next != to_limit)
 
-  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE)) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // do_out
 
 std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
@@ -116,21 +120,14 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial; 
 } // do_in
 
-std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& /* state */,
+std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& state,
                             char* to,
                             char* to_limit,
                             char*& to_next) const
 {
-  to_next = to;
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
-
-  return (to_next == to_limit) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  // finish off the quad, if there is one part done
+  const char* from_next;
+  return do_out(state, 0, 0, from_next, to, to_limit, to_next);
 } // do_unshift
 
 int base64codecvt::do_length(const std::mbstate_t&,
@@ -162,7 +159,7 @@ void base64codecvt::grabState(std::mbstate_t& state) const
 { 
   state_ = reinterpret_cast<int*>(&state); 
   int s = getState();
-  if((s < 0) || (s > 4))
+  if((s < 0) || (s > 5))
     *state_ = 0;
 } // grabState
 
@@ -178,9 +175,14 @@ void base64codecvt::nextState() const
   if(s == 4)
     s = 0;
 
+  setState(s);
+} // nextOutState
+
+void base64codecvt::setState(int s) const
+{
   *state_ &= 0xffffff00;
   *state_ |= s;
-} // nextOutState
+} // setState
 
 int base64codecvt::getCurrentOutChar() const
 {
-- 
2.43.0


From e4b5e33c430171703b608009f43cb431618a4dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 066/106] fix: UTF-8 and UTF-16 codecvts are strict, handle
 4-byte sequences and never overrun the output

---
 include/convert/impl/ucs2_utf8.hpp      |   3 +
 include/convert/utf8iso88591codecvt.hpp |   2 +-
 include/convert/utf8ucs2codecvt.hpp     |   2 +-
 src/convert/impl/iso88591_utf8.cpp      |  79 ++++----------
 src/convert/impl/ucs2_utf16.cpp         |   4 +-
 src/convert/impl/ucs2_utf8.cpp          | 136 ++++++++++++++----------
 6 files changed, 107 insertions(+), 119 deletions(-)

diff --git a/include/convert/impl/ucs2_utf8.hpp b/include/convert/impl/ucs2_utf8.hpp
index e2ed06f..b1a60ce 100644
--- a/include/convert/impl/ucs2_utf8.hpp
+++ b/include/convert/impl/ucs2_utf8.hpp
@@ -10,6 +10,9 @@ namespace convert
 namespace impl
 {
 
+// reads one character, moving from on past it
+std::codecvt_base::result utf8_next(const char*& from, const char* from_end, unsigned long& ch);
+
 std::codecvt_base::result ucs2_2_utf8(const wchar_t* from, const wchar_t* from_end, const wchar_t*& from_next,
                                       char* to, char* to_limit, char*& to_next);
 
diff --git a/include/convert/utf8iso88591codecvt.hpp b/include/convert/utf8iso88591codecvt.hpp
index 9dee04a..c7cbff1 100644
--- a/include/convert/utf8iso88591codecvt.hpp
+++ b/include/convert/utf8iso88591codecvt.hpp
@@ -43,7 +43,7 @@ protected:
                         const char* end,
                         size_t max) const;
 
-  virtual int do_max_length() const throw() { return 3; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf8iso88591codecvt
 
 } // namespace convert
diff --git a/include/convert/utf8ucs2codecvt.hpp b/include/convert/utf8ucs2codecvt.hpp
index c30a969..420860b 100644
--- a/include/convert/utf8ucs2codecvt.hpp
+++ b/include/convert/utf8ucs2codecvt.hpp
@@ -60,7 +60,7 @@ protected:
                         const char* end,
                         size_t max) const throw();
 
-  virtual int do_max_length() const throw() { return 3; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf8ucs2codecvt
 
 } // namespace convert
diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 44277d6..f340a90 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -2,28 +2,11 @@
 // $Id$
 //---------------------------------------------------------------------------
 #include <convert/impl/iso88591_utf8.hpp>
+#include <convert/impl/ucs2_utf8.hpp>
 //---------------------------------------------------------------------------
 // Some of this code is derived from work done by Ken Thompson,
 // provided to the X/Open Group.
 
-namespace {
-  struct Tab
-  {
-    char char_mask;
-    char char_value;
-    int shift;
-    wchar_t wide_mask;
-  };
-
-  static const Tab tab[] =
-  {
-    { char(0x80),  char(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { char(0xE0),  char(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { char(0xF0),  char(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,           0,            0,      0,      }    // end of table
-  };
-} // namespace 
-
 std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
                         const char* from, const char* from_end, const char*& from_next,
                         char* to, char* to_limit, char*& to_next)
@@ -33,25 +16,19 @@ std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
 
   while(from_next < from_end)
   {
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      unsigned char fn = static_cast<unsigned char>(*from_next);
-      if(fn > t->wide_mask )
-        continue;
+    unsigned char fn = static_cast<unsigned char>(*from_next);
 
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
+    // is there enough room in outbuffer?
+    if((to_limit - to_next) < ((fn < 0x80) ? 1 : 2))
+      return std::codecvt_base::partial;
 
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    if(fn < 0x80)
+      *to_next++ = static_cast<char>(fn);
+    else
+    {
+      *to_next++ = static_cast<char>(0xC0 | (fn >> 6));
+      *to_next++ = static_cast<char>(0x80 | (fn & 0x3F));
+    }
     ++from_next;
   } // while(from_next < from_end)
 
@@ -65,28 +42,16 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_iso88591(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    char start = *from_next;
-    wchar_t next = static_cast<unsigned char>(*from_next);
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      if((start & t->char_mask) == t->char_value)
-      {
-        next &= t->wide_mask;
-        break;
-      }
-      from_next++;
-      next = (next << 6) | ((*from_next ^ 0x80) & 0xff);
-    } // for(Tab *t = tab;  t->char_mask; t++)
-
-    if(next <= 0xFF)
-      *to_next = static_cast<char>(next);
-    else
-      *to_next = '?';  // error state!
-
-    ++from_next;
-    ++to_next;
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    const char* next = from_next;
+    unsigned long ch;
+    std::codecvt_base::result r = utf8_next(next, from_end, ch);
+    if(r != std::codecvt_base::ok)
+      return r;
+
+    *to_next++ = (ch <= 0xFF) ? static_cast<char>(ch) : '?'; // no such character
+    from_next = next;
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
diff --git a/src/convert/impl/ucs2_utf16.cpp b/src/convert/impl/ucs2_utf16.cpp
index ca1e050..5609f11 100644
--- a/src/convert/impl/ucs2_utf16.cpp
+++ b/src/convert/impl/ucs2_utf16.cpp
@@ -30,10 +30,12 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf16(bool be,
 
   while(from_next < from_end)
   {
-    if(to_next + 2 >= to_limit)
+    if((to_limit - to_next) < 2)
       return std::codecvt_base::partial;
 
     wchar_t ch = *from_next;
+    if(static_cast<unsigned long>(ch) > 0xFFFF)
+      return std::codecvt_base::error; // doesn't fit
     unsigned char lb = static_cast<unsigned char>(ch & 0xFF);
     unsigned char hb = static_cast<unsigned char>((ch >> 8) & 0xFF);
  
diff --git a/src/convert/impl/ucs2_utf8.cpp b/src/convert/impl/ucs2_utf8.cpp
index 4b9f5d8..0adeed9 100644
--- a/src/convert/impl/ucs2_utf8.cpp
+++ b/src/convert/impl/ucs2_utf8.cpp
@@ -9,24 +9,58 @@
 // I got my information about UTF-8 from RFC 2044.
 
 
-namespace {
-  struct Tab
-  {
-    unsigned char char_mask;
-    unsigned char char_value;
-    int shift;
-    unsigned long wide_mask;
-  };
+#include <cwchar>
+
+std::codecvt_base::result Arabica::convert::impl::utf8_next(
+                       const char*& from, const char* from_end, unsigned long& ch)
+{
+  unsigned char start = static_cast<unsigned char>(*from);
+  int trailing;
+  unsigned long least;
 
-  static const Tab tab[] =
+  if(start < 0x80)
+  {
+    ch = start;
+    ++from;
+    return std::codecvt_base::ok;
+  }
+  else if((start & 0xE0) == 0xC0) // 2 byte sequence
+  {
+    ch = start & 0x1F;
+    trailing = 1;
+    least = 0x80;
+  }
+  else if((start & 0xF0) == 0xE0) // 3 byte sequence
   {
-    { (unsigned char)(0x80),  (unsigned char)(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { (unsigned char)(0xE0),  (unsigned char)(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { (unsigned char)(0xF0),  (unsigned char)(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,                      0,                       0,      0,      }    // end of table
-  };
-} // namespace 
+    ch = start & 0x0F;
+    trailing = 2;
+    least = 0x800;
+  }
+  else if((start & 0xF8) == 0xF0) // 4 byte sequence
+  {
+    ch = start & 0x07;
+    trailing = 3;
+    least = 0x10000;
+  }
+  else
+    return std::codecvt_base::error;
+
+  const char* next = from + 1;
+  for(; trailing; --trailing, ++next)
+  {
+    if(next == from_end)
+      return std::codecvt_base::partial;
+    if((*next & 0xC0) != 0x80)
+      return std::codecvt_base::error;
+    ch = (ch << 6) | (*next & 0x3F);
+  } // for ...
 
+  if((ch < least) || (ch > 0x10FFFF))
+    return std::codecvt_base::error;
+
+  from = next;
+  return std::codecvt_base::ok;
+} // utf8_next
 
 std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
                         const wchar_t* from, const wchar_t* from_end, const wchar_t*& from_next,
@@ -37,26 +71,24 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
 
   while(from_next < from_end)
   {
-    unsigned long fn = static_cast<unsigned long >(*from_next);
+    unsigned long fn = static_cast<unsigned long>(*from_next);
+    if(fn > 0x10FFFF)
+      return std::codecvt_base::error;
+
+    int trailing = (fn < 0x80) ? 0 : (fn < 0x800) ? 1 : (fn < 0x10000) ? 2 : 3;
 
-    for(const Tab *t = tab; t->char_mask; t++)
+    // is there enough room in outbuffer?
+    if((to_limit - to_next) < (trailing + 1))
+      return std::codecvt_base::partial;
+
+    static const unsigned char leads[] = { 0x00, 0xC0, 0xE0, 0xF0 };
+    int c = trailing * 6;
+    *to_next++ = static_cast<char>(leads[trailing] | (fn >> c));
+    while(c > 0)
     {
-      if(fn > t->wide_mask )
-        continue;
-
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
-
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+      c -= 6;
+      *to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
+    } // while(c > 0)
     ++from_next;
   } // while(from_next < from_end)
 
@@ -70,32 +102,18 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_ucs2(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    unsigned char start = static_cast<unsigned char>(*from_next);
-
-    const Tab *t = tab;
-    for(; t->char_mask; ++t)
-    {
-      if((start & t->char_mask) == t->char_value)
-        break;
-    }
-
-    if((from_next + (t - tab)) >= from_end)
-      break;
-
-    unsigned long wide_mask = t->wide_mask;
-
-    *to_next = start;
-    for(; t != tab; --t)
-    {
-      from_next++;
-      *to_next = (*to_next << 6) | ((*from_next ^ 0x80) & 0xff);
-    }
-    *to_next &= wide_mask;
-
-    ++from_next;
-    ++to_next;
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    const char* next = from_next;
+    unsigned long ch;
+    std::codecvt_base::result r = utf8_next(next, from_end, ch);
+    if(r != std::codecvt_base::ok)
+      return r;
+    if(ch > static_cast<unsigned long>(WCHAR_MAX))
+      return std::codecvt_base::error; // doesn't fit
+
+    *to_next++ = static_cast<wchar_t>(ch);
+    from_next = next;
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
-- 
2.43.0


From d0d916966dd744503535363551ffb0202029f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 067/106] fix: convert adaptors and convert streams lose,
 repeat or corrupt no character

---
 include/io/convert_adaptor.hpp | 147 ++++++++++++++++++---------------
 include/io/convertstream.hpp   |  20 ++++-
 2 files changed, 95 insertions(+), 72 deletions(-)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index f891a96..c7e7da9 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -17,7 +17,7 @@
 #include <ostream>
 #include <vector>
 #include <algorithm>
-#include <cstring>
+#include <iterator>
 
 #include <SAX/ArabicaConfig.hpp>
 #include <Arabica/mbstate.hpp>
@@ -38,7 +38,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     typedef std::basic_streambuf<externalCharT, externalTraitsT> externalStreambufT;
     typedef std::basic_streambuf<charT, traitsT> streambufT;
 
-    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), inEof_(false) { }
+    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), outState_(), inState_(), inEof_(false) { }
     virtual ~convert_bufadaptor() { }
   
     void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inEof_ = false; }
@@ -120,61 +120,74 @@ typename convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::int
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growOutBuffer()
 {
-  size_t oldsize = outBuffer_.capacity();
+  size_t oldsize = outBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_);
   outBuffer_.resize(newsize);
-  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.capacity());
+  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.size());
 } // growOutBuffer
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInBuffer()
 {
-  size_t oldsize = inBuffer_.capacity();
-  size_t newsize = (oldsize ? oldsize*2 : bufferSize_) + pbSize_;
+  size_t oldsize = inBuffer_.size();
+  size_t newsize = (oldsize ? oldsize*2 : bufferSize_) + 2*pbSize_;
   inBuffer_.resize(newsize);
 } // growInBuffer
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOut()
 {
+  if(outBuffer_.empty())
+    return true;
   size_t length = streambufT::pptr() - &outBuffer_[0];
   if(!length)
     return true;
 
   bool ok(true);
+  const charT* from_next = &(outBuffer_[0]);
+  const charT* const from_end = streambufT::pptr();
   const std::codecvt<charT, externalCharT, state_t>& cvt =
       std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
 
   if(cvt.always_noconv())
-    std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+  {
+    std::copy(from_next, from_end, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+    from_next = from_end;
+  }
   else
   {
     // we must do code conversion
     length += cvt.max_length(); // add a little 
     std::vector<externalCharT> to(length);
-    const charT* from_next = &(outBuffer_[0]);
     std::codecvt_base::result r;
+    bool progress;
 
     do
     {
-      externalCharT* to_next;
-      r = cvt.out(outState_, from_next, streambufT::pptr(), from_next, 
+      const charT* const from_start = from_next;
+      externalCharT* to_next = &to[0];
+      r = cvt.out(outState_, from_start, from_end, from_next, 
                   &to[0], &to[0]+length, to_next);
 
       if(r == std::codecvt_base::noconv)
       {
-        std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+        std::copy(from_start, from_end, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+        from_next = from_end;
         break;
       }
       std::copy(&to[0], to_next, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+      progress = (from_next != from_start) || (to_next != &to[0]);
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress);
 
-    ok = ok ? (r != std::codecvt_base::error) : false;
+    ok = (r != std::codecvt_base::error);
   } // if(cvt.always_noconv())
  
-  if(ok)
-    streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.capacity());
+  // what's been written is done with, but the start of a character must wait for the rest
+  const size_t held = from_end - from_next;
+  traitsT::move(&outBuffer_[0], from_next, held);
+  streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.size());
+  streambufT::pbump(static_cast<int>(held));
 
   return ok;
 } // flushOut
@@ -182,85 +195,83 @@ bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOu
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::readIn()
 {
-  if(!inBuffer_.capacity())
+  if(inBuffer_.empty())
     growInBuffer();
 
   size_t pbCount = std::min<size_t>(streambufT::gptr() - streambufT::eback(), pbSize_);
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT),
-         streambufT::gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  if(pbCount)
+    traitsT::move(&inBuffer_[0] + pbSize_ - pbCount, streambufT::gptr() - pbCount, pbCount);
 
   const std::codecvt<charT, externalCharT, state_t>& cvt =
       std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
 
   externalCharT from[1024];
+  std::streamsize converted = 0;
+  std::streamsize held = 0; // the start of a character, waiting for the rest of it
 
-  std::streamsize res = 0;
-  if(!inEof_)
+  do
   {
-    external_int_type ec = externalbuf_->sgetc();
-    while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && (res != bufferSize_))
+    std::streamsize res = held;
+    if(!inEof_)
     {
-      from[res++] = static_cast<externalCharT>(ec);
-      ec = externalbuf_->snextc();
-    }
-    inEof_ = (externalTraitsT::eq_int_type(externalTraitsT::eof(), ec));
-  } // if ...
+      external_int_type ec = externalbuf_->sgetc();
+      while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && (res != bufferSize_))
+      {
+        from[res++] = externalTraitsT::to_char_type(ec);
+        ec = externalbuf_->snextc();
+      }
+      inEof_ = (externalTraitsT::eq_int_type(externalTraitsT::eof(), ec));
+    } // if ...
+
+    if(res == held)
+      break; // no more to be had
 
-  std::streamsize converted = 0;
-  if(res > 0)
-  {
-    std::codecvt_base::result r;
     const externalCharT* from_next = from;
+    const externalCharT* const from_end = from + res;
+    std::codecvt_base::result r;
+    bool progress;
+
     do
     {
-      // can't cache this as may reallocate buffer
-      charT* const to = &(inBuffer_[0])+pbSize_;
-      charT* const to_end = &(inBuffer_[0]) + inBuffer_.capacity() - pbSize_;
-      charT* to_next;
+      const std::streamsize room = static_cast<std::streamsize>(inBuffer_.size()) - (2 * pbSize_) - converted;
+      if(room < bufferSize_)
+        growInBuffer();
 
-      externalCharT* const from_end = from + res;
-      
-      r = cvt.in(inState_, from_next, from_end, from_next,
-                 to + converted, to_end, to_next);
+      // can't cache these as may reallocate buffer
+      charT* const to = &inBuffer_[0] + pbSize_ + converted;
+      charT* const to_end = &inBuffer_[0] + inBuffer_.size() - pbSize_;
+      charT* to_next = to;
+      const externalCharT* const from_start = from_next;
+
+      r = cvt.in(inState_, from_start, from_end, from_next, to, to_end, to_next);
 
       if(r == std::codecvt_base::noconv)
       {
-        memcpy(&(inBuffer_[0])+pbSize_, from, res);
-        converted = res;
-      }
-      else
-        converted += static_cast<std::streamsize>(to_next - (to + converted));
+        to_next = to;
+        for(from_next = from_start; from_next != from_end; ++from_next)
+          *to_next++ = static_cast<charT>(*from_next);
+      } // if ...
 
-      if(r == std::codecvt_base::partial)
-      {
-        // haven't done everything
-        if(to_next == to_end)
-          growInBuffer();  // need more room!
-        else
-        {
-          int shortfall = (from + res) - from_next;
-          memcpy(from, from_next, shortfall);
-          res = externalbuf_->sgetn(from + shortfall, static_cast<std::streamsize>(bufferSize_ - shortfall));
-          from_next = &from[0];
-          if(res == 0) // oh dear
-            break; // let's bail!
-          res += shortfall;
-        }
-      } // if(r == std::codecvt_base::partial)
+      converted += static_cast<std::streamsize>(to_next - to);
+      progress = (from_next != from_start) || (to_next != to);
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress);
+
+    held = static_cast<std::streamsize>(from_end - from_next);
+    externalTraitsT::move(from, from_next, held);
 
     if(r == std::codecvt_base::error)
     {
       // couldn't convert - let's bail
-      return 0;
+      inEof_ = true;
+      break;
     } // if(r == std::codecvt_base::error)
   }
+  while((held != 0) || (converted == 0));
 
-  streambufT::setg(&(inBuffer_[0]) + (pbSize_-pbCount), &(inBuffer_[0])+pbSize_, &(inBuffer_[0])+pbSize_+converted);
+  streambufT::setg(&inBuffer_[0] + pbSize_ - pbCount, &inBuffer_[0] + pbSize_, &inBuffer_[0] + pbSize_ + converted);
 
-  return static_cast<int_type>(res);
+  return converted;
 } // readIn
 
 ////////////////////////////////////////////////////
@@ -297,9 +308,9 @@ class iconvert_adaptor : private convert_adaptor_buffer<charT, traitsT, fromChar
 
     virtual ~iconvert_adaptor() { } 
 
-    baseBufT* rdbuf() const 
+    convert_bufadaptor<charT, traitsT, fromCharT, fromTraitsT>* rdbuf() const 
     { 
-      return const_cast<baseBufT*>(&bufadaptor_); 
+      return const_cast<convert_bufadaptor<charT, traitsT, fromCharT, fromTraitsT>*>(&bufadaptor_); 
     } // rdbuf
 
     void set_stream(fromStreamT& fromStream) { bufadaptor_.set_buffer(*fromStream.rdbuf()); }
@@ -331,7 +342,7 @@ class oconvert_adaptor : private convert_adaptor_buffer<charT, traitsT, toCharT,
       baseStreamT::flush(); 
     } // ~oconvert_adaptor
 
-    convert_bufadaptor<charT, traitsT>* rdbuf() const
+    convert_bufadaptor<charT, traitsT, toCharT, toTraitsT>* rdbuf() const
     {
       return const_cast<convert_bufadaptor<charT, traitsT, toCharT, toTraitsT>*>(&bufadaptor_); 
     } // rdbuf
diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 8459dba..4a69f27 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -100,11 +100,12 @@ public:
       std::fill_n(to_, toSize_, 0);
   } // basic_iconvertstream
 
-  explicit basic_iconvertstream(const stringT& str, std::ios_base::openmode mode = std::ios_base::in) : 
+  explicit basic_iconvertstream(const fromStringT& from, std::ios_base::openmode mode = std::ios_base::in) : 
     convertstreambuf_initT(mode | std::ios_base::in),
     std::basic_istream<charT, traitsT>(convertstreambuf_initT::buf())
   {
-    str(str);
+    std::fill_n(to_, toSize_, 0);
+    str(from);
   } // basic_iconvertstream
 
   virtual ~basic_iconvertstream()
@@ -136,11 +137,13 @@ public:
     stringT converted;
     const fromCharT* from_next = str.data();
     typename std::codecvt_base::result r;
-    typename traitsT::state_type state;
+    typename traitsT::state_type state = typename traitsT::state_type();
+    const fromCharT* from_start;
 
     do
     {
       charT* to_next;
+      from_start = from_next;
       r = cvt.in(state, from_next, str.data() + str.length(), from_next, 
                  to_, to_ + toSize_, to_next);
       if(r == std::codecvt_base::noconv)
@@ -149,6 +152,9 @@ public:
         break;
       }
       converted.append(to_, (to_next - to_));
+
+      if((from_next == from_start) && (to_next == to_))
+        break; // the last character is incomplete
     }
     while(r == std::codecvt_base::partial);
 
@@ -198,6 +204,7 @@ public:
       convertstreambuf_initT(mode | std::ios_base::out),
       std::basic_ostream<charT, traitsT>(convertstreambuf_initT::buf())
   { 
+    std::fill_n(to_, toSize_, 0);
     convertstreambuf_initT::buf()->str(str);
   } // basic_oconvertstream
 
@@ -228,11 +235,13 @@ public:
       // we must do code conversion
       const charT* from_next = newstuff.data();
       typename std::codecvt_base::result r;
-      typename traitsT::state_type state;
+      typename traitsT::state_type state = typename traitsT::state_type();
+      const charT* from_start;
 
       do
       {
         toCharT* to_next;
+        from_start = from_next;
         r = cvt.out(state, from_next, newstuff.data() + newstuff.length(), from_next, 
                     to_, to_ + toSize_, to_next);
         if(r == std::codecvt_base::noconv)
@@ -241,6 +250,9 @@ public:
           break;
         }
         out.append(to_, (to_next - to_));
+
+        if((from_next == from_start) && (to_next == to_))
+          break; // the last character is incomplete
       }
       while(r == std::codecvt_base::partial);
       // naughty! ignore (r == std::codecvt_base::error)
-- 
2.43.0


From 4476e20ca2d9719195c7de0b68314a0c34a5caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 068/106] fix: char/wchar_t codecvt specialisation overran its
 buffers and could not be used for writing

---
 .../convert/impl/codecvt_specialisations.hpp  | 23 ++++++++++++++-----
 include/convert/ucs2utf8codecvt.hpp           |  2 --
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/convert/impl/codecvt_specialisations.hpp b/include/convert/impl/codecvt_specialisations.hpp
index bb488e2..7e8999c 100644
--- a/include/convert/impl/codecvt_specialisations.hpp
+++ b/include/convert/impl/codecvt_specialisations.hpp
@@ -48,6 +48,14 @@ public:
     return this->do_in(state, from, from_end, from_next, to, to_limit, to_next);
   } // in
 
+  codecvt_base::result unshift(std::mbstate_t& state,
+                               wchar_t* to,
+                               wchar_t* to_limit,
+                               wchar_t*& to_next) const
+  {
+    return this->do_unshift(state, to, to_limit, to_next);
+  } // unshift
+
   int encoding() const throw()
   {
     return this->do_encoding(); 
@@ -66,6 +74,11 @@ public:
     return this->do_length(state, from, end, max);
   } // length
 
+  int max_length() const throw()
+  {
+    return this->do_max_length();
+  } // max_length
+
 protected:
   virtual ~codecvt() { }
 
@@ -77,14 +90,13 @@ protected:
                                       wchar_t* to_limit,
 		                                  wchar_t*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
-    while(limit--)
+    while((from_next != from_end) && (to_next != to_limit))
       *to_next++ = static_cast<wchar_t>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_out
 
 
@@ -96,14 +108,13 @@ protected:
                                      char* to_limit,
                                      char*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
-    while(limit--)
+    while((from_next != from_end) && (to_next != to_limit))
       *to_next++ = static_cast<char>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_in
 
   virtual codecvt_base::result do_unshift(std::mbstate_t&,
diff --git a/include/convert/ucs2utf8codecvt.hpp b/include/convert/ucs2utf8codecvt.hpp
index 1fd330c..e2e1758 100644
--- a/include/convert/ucs2utf8codecvt.hpp
+++ b/include/convert/ucs2utf8codecvt.hpp
@@ -25,8 +25,6 @@ namespace convert
 
 class ucs2utf8codecvt : public std::codecvt<char, wchar_t, std::mbstate_t>
 {
-public:
-  static std::locale::id id;
 protected:
   typedef std::codecvt_base::result result;
 
-- 
2.43.0


From 4e81895cbf39aa2c1ea95f4f3546e7857916a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 069/106] fix: URIs resolve by RFC 3986: dot segments, queries,
 colons in paths, authorities without a path

---
 src/io/uri.cpp | 142 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 101 insertions(+), 41 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..7ab96ae 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <vector>
 #include <io/uri.hpp>
 
 using namespace Arabica::io;
@@ -43,11 +44,8 @@ URI::URI(const URI& base, const std::string& relativeUrl) :
   port_(base.port_),
   is_absolute_(base.is_absolute_)
 {
-  if(!relativeUrl.empty())
-  {
-    URI relUrl(relativeUrl);
-    absolutise(relUrl);
-  } // if ... 
+  URI relUrl(relativeUrl);
+  absolutise(relUrl);
 } // URI         
 
 const std::string& URI::port() const
@@ -80,6 +78,57 @@ void fixSlashes(std::string& path)
     path[i] = FORWARD_SLASH;
 } // fixSlashes
 
+// the position of the colon, or npos if this doesn't start with a scheme
+static size_t schemeLength(const std::string& uri)
+{
+  static const std::string LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
+  static const std::string SCHEME_CHARS = LETTERS + "0123456789+-.";
+
+  size_t d = uri.find_first_not_of(SCHEME_CHARS);
+  if((d == std::string::npos) || (uri.compare(d, 1, COLON) != 0) || (LETTERS.find(uri[0]) == std::string::npos))
+    return std::string::npos;
+  return d;
+} // schemeLength
+
+// where the path stops, and any query or fragment begins
+static size_t pathLength(const std::string& path)
+{
+  return std::min(path.find_first_of("?#"), path.length());
+} // pathLength
+
+static std::string removeDotSegments(const std::string& path)
+{
+  const bool rooted = !path.empty() && (path[0] == FORWARD_SLASH);
+  std::vector<std::string> segments;
+
+  size_t from = rooted ? 1 : 0;
+  bool last = false;
+  while(!last)
+  {
+    size_t slash = path.find(FORWARD_SLASH, from);
+    last = (slash == std::string::npos);
+    const std::string segment = path.substr(from, last ? slash : slash-from);
+    from = slash + 1;
+
+    const bool up = (segment == "..");
+    if(up && !segments.empty() && (segments.back() != ".."))
+      segments.pop_back();
+    else if(!(up && rooted) && (segment != "."))
+    {
+      segments.push_back(segment);
+      continue;
+    }
+
+    if(last) // what's left is a directory
+      segments.push_back(std::string());
+  } // while ...
+
+  std::string result(rooted ? 1 : 0, FORWARD_SLASH);
+  for(size_t i = 0; i != segments.size(); ++i)
+    result.append(i ? 1 : 0, FORWARD_SLASH).append(segments[i]);
+  return result;
+} // removeDotSegments
+
 void URI::parse(const std::string& uri)
 {
   parse_uri(uri);
@@ -94,7 +143,7 @@ void URI::parse_uri(const std::string& uri)
   // I'd like to use something a bit stronger - http://code.google.com/p/uri-grammar/
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
-  size_t d = uri.find_first_of(COLON);
+  size_t d = schemeLength(uri);
   if(d == std::string::npos)
   {
     path_ = uri;
@@ -129,21 +178,18 @@ void URI::parse_uri(const std::string& uri)
 std::string::const_iterator URI::parseAuthority(const std::string::const_iterator& u, 
 						const std::string::const_iterator& ue)
 {
-  std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
+  static const std::string END_OF_AUTHORITY = "/?#";
+  std::string::const_iterator end = std::find_first_of(u, ue, END_OF_AUTHORITY.begin(), END_OF_AUTHORITY.end());
 
-  std::string::const_iterator colon = std::find(u, slash, ':');
-  host_.append(u, colon);
+  const std::string authority(u, end);
+  size_t colon = authority.rfind(COLON);
+  if((colon != std::string::npos) && (authority.find_first_of("]@", colon) != std::string::npos))
+    colon = std::string::npos;
 
-  if(colon != slash)
-    port_.append(colon+1, slash);
+  host_ = authority.substr(0, colon);
+  port_ = (colon != std::string::npos) ? authority.substr(colon + 1) : std::string();
 
-  return slash;
+  return end;
 } // parseAuthority
 
 bool compatible_schemes(const std::string& scheme,
@@ -162,36 +208,50 @@ void URI::absolutise(URI& relative)
      !compatible_schemes(scheme_, relative.scheme()))
   {
     swap(relative);
+    if(is_absolute_)
+    {
+      const size_t end = scheme_.empty() ? path_.length() : pathLength(path_);
+      path_ = removeDotSegments(path_.substr(0, end)) + path_.substr(end);
+    }
+    return;
+  }
+
+  // in a local file name, ? and # are characters like any other
+  const bool local = scheme_.empty();
+  std::string path = relative.path_;
+  if(!local && (path.compare(0, 2, "//") == 0))
+  {
+    const std::string authority(path.substr(2));
+    path = std::string(parseAuthority(authority.begin(), authority.end()), authority.end());
+    path_.erase();
+  }
+
+  const size_t end = local ? path.length() : pathLength(path);
+  const std::string tail = path.substr(end);
+  path.erase(end);
+
+  if(path.empty())
+  {
+    if(!local)
+      path_.erase((tail[0] == '?') ? pathLength(path_) : std::min(path_.find('#'), path_.length()));
+    path_.append(tail);
     return;
   }
 
-  if(relative.path_[0] == FORWARD_SLASH)
-    path_ = relative.path_;
+  if(path[0] == FORWARD_SLASH)
+    path_ = removeDotSegments(path);
   else 
-    combinePath(relative.path_);
+    combinePath(path);
+  path_.append(tail);
 } // absolutise
 
 void URI::combinePath(const std::string& relPath)
 {
-  if(*(path_.rbegin()) != FORWARD_SLASH)
-    path_.erase(path_.rfind(FORWARD_SLASH)+1);
-
-  std::string::size_type from = path_.length() - 1;
-  path_.append(relPath);
-
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
-  {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
+  if(!scheme_.empty())
+    path_.erase(pathLength(path_));
+  if(path_.empty() && !host_.empty())
+    path_ = FORWARD_SLASH;
+  path_.erase(path_.rfind(FORWARD_SLASH)+1);
 
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
-  {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
-  }
+  path_ = removeDotSegments(path_ + relPath);
 } // combinePath
-
-- 
2.43.0


From f6358b61a8c865f4d379c04884a421de6806d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 070/106] fix: xsl:sort uses its own order and data type for
 each key, and position(), last() and current() survive inner loops

---
 include/XSLT/impl/xslt_execution_context.hpp |  25 ++-
 include/XSLT/impl/xslt_sort.hpp              | 196 +++++++++----------
 2 files changed, 110 insertions(+), 111 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..d36524c 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -95,11 +95,9 @@ public:
     xpathContext_.setPosition(pos);
   } // setPosition
 
-  int setLast(int last)
+  void setLast(int last)
   {
-    int old = xpathContext_.last();
     xpathContext_.setLast(last);
-    return old;
   } // setLast
 
 private:
@@ -252,24 +250,35 @@ template<class string_type, class string_adaptor>
 class LastFrame
 {
 public:
-  LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : context_(context) 
+  LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : 
+    context_(context),
+    oldCurrent_(context.xpathContext().currentNode()),
+    oldPosition_(context.xpathContext().position()),
+    oldLast_(context.xpathContext().last())
   { 
-    oldLast_ = context_.setLast(last);
+    context_.setLast(last);
   } // LastFrame
 
-  LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : context_(context) 
+  LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : 
+    context_(context),
+    oldCurrent_(context.xpathContext().currentNode()),
+    oldPosition_(context.xpathContext().position()),
+    oldLast_(context.xpathContext().last())
   { 
-    oldLast_ = context_.setLast(static_cast<int>(last));
+    context_.setLast(static_cast<int>(last));
   } // LastFrame
 
   ~LastFrame()
   {
+    context_.setPosition(oldCurrent_, oldPosition_);
     context_.setLast(oldLast_);
   } // ~LastFrame
 
 private:
   ExecutionContext<string_type, string_adaptor>& context_;
-  int oldLast_;
+  const DOM::Node<string_type, string_adaptor> oldCurrent_;
+  const int oldPosition_;
+  const int oldLast_;
 
   LastFrame(const LastFrame&);
   LastFrame& operator=(const LastFrame&);
diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..261bec1 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -2,12 +2,20 @@
 #define ARABICA_XSLT_SORT_HPP
 
 #include <algorithm>
+#include <vector>
 
 namespace Arabica
 {
 namespace XSLT
 {
 
+struct SortOrder
+{
+  SortOrder(bool n, bool a) : number(n), ascending(a) { }
+  bool number;
+  bool ascending;
+}; // struct SortOrder
+
 template<class string_type, class string_adaptor>
 class Sort
 {
@@ -16,6 +24,13 @@ public:
   typedef Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> XPathExpressionPtr;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
 
+  struct SortKey
+  {
+    SortKey() : number(0) { }
+    double number;
+    string_type text;
+  }; // struct SortKey
+
   Sort(const XPathExpressionPtr& select,
        const XPathExpressionPtr& lang, //="language-code"
        const XPathExpressionPtr& datatype, //="text|number|qname"
@@ -35,39 +50,45 @@ public:
     delete sub_sort_;
   } // ~Sort
 
-  void set_context(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context)
+  // the sort orders in force when sorting in the given context
+  void orders(const DOMNode& node, 
+              ExecutionContext<string_type, string_adaptor>& context,
+              std::vector<SortOrder>& sort_orders) const
   {
-    context_ = &context;
-    const string_type datatype = datatype_->evaluateAsString(node, context_->xpathContext());
-    const string_type order = order_->evaluateAsString(node, context_->xpathContext());
-    const string_type caseorder = caseorder_->evaluateAsString(node, context_->xpathContext());
+    const string_type datatype = datatype_->evaluateAsString(node, context.xpathContext());
+    const string_type order = order_->evaluateAsString(node, context.xpathContext());
+    const string_type caseorder = caseorder_->evaluateAsString(node, context.xpathContext());
 
     static AllowedValues<string_type> allowed_datatypes = makeAllowedValues(SC::text, SC::number);
     static AllowedValues<string_type> allowed_orders = makeAllowedValues(SC::ascending, SC::descending);
     static AllowedValues<string_type> allowed_case_orders = makeAllowedValues(SC::upper_first, SC::lower_first);
+
     validate(SC::data_type, allowed_datatypes, datatype);
     validate(SC::order, allowed_orders, order);
     validate(SC::case_order, allowed_case_orders, caseorder);
 
-    if(datatype == SC::number)
-      if(order == SC::ascending)
-        sort_fn_ = &Sort::numberAscending;
-      else
-        sort_fn_ = &Sort::numberDescending;
-    else
-      if(order == SC::ascending)
-        sort_fn_ = &Sort::stringAscending;
-      else
-        sort_fn_ = &Sort::stringDescending;
+    sort_orders.push_back(SortOrder(datatype == SC::number, order == SC::ascending));
 
     if(sub_sort_)
-      sub_sort_->set_context(node, context);
-  } // set_context
+      sub_sort_->orders(node, context, sort_orders);
+  } // orders
+
+  // the node's sort keys, with context set to the node in the unsorted list
+  void keys(const DOMNode& node,
+            ExecutionContext<string_type, string_adaptor>& context,
+            const std::vector<SortOrder>& sort_orders,
+            std::vector<SortKey>& sort_keys) const
+  {
+    SortKey key;
+    if(sort_orders[sort_keys.size()].number)
+      key.number = select_->evaluateAsNumber(node, context.xpathContext());
+    else
+      key.text = select_->evaluateAsString(node, context.xpathContext());
+    sort_keys.push_back(key);
 
-  bool operator()(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return (this->*sort_fn_)(n1, n2);
-  } // operator()
+    if(sub_sort_)
+      sub_sort_->keys(node, context, sort_orders, sort_keys);
+  } // keys
 
   void add_sub_sort(Sort* sort)
   {
@@ -78,7 +99,7 @@ public:
   } // add_sub_sort
 
 private:
-  void validate(const string_type& name, const AllowedValues<string_type>& allowed, const string_type& value)
+  void validate(const string_type& name, const AllowedValues<string_type>& allowed, const string_type& value) const
   {
     if(allowed.is_allowed(value))
       return;
@@ -89,84 +110,12 @@ private:
 
   } // validate
 
-  typedef bool(Sort::*sortFn)(const DOMNode& n1, const DOMNode& n2) const;
-  bool numberAscending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return numberSort(n1, n2, nanAscending, std::less<double>());
-  } // numberAscending
-  bool numberDescending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return numberSort(n1, n2, nanDescending, std::greater<double>());
-  } // numberDescending
-  static bool nanAscending(bool, bool nan2) 
-  {
-    return !nan2;
-  } // nanAscending
-  static bool nanDescending(bool nan1, bool)
-  {
-    return !nan1;
-  } // nanDescending
-  template<class NanCompare, class NumberCompare>
-  bool numberSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
-                  NanCompare nanCompare, 
-                  NumberCompare compare) const
-  {
-    double v1 = grabAsNumber(n1);
-    double v2 = grabAsNumber(n2);
-
-    bool nan1 = Arabica::XPath::isNaN(v1);
-    bool nan2 = Arabica::XPath::isNaN(v2);
-
-    if(((nan1 && nan2) || (v1 == v2)) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
-
-    if(nan1 || nan2)
-      return nanCompare(nan1, nan2);
-
-    return compare(v1, v2);
-  } // numberSort
-  bool stringAscending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return stringSort(n1, n2, std::less<string_type>());
-  } // stringAscending
-  bool stringDescending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return stringSort(n1, n2, std::greater<string_type>());
-  } // stringAscending
-  template<class StringCompare>
-  bool stringSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
-                  StringCompare compare) const
-  {
-    string_type v1 = grabAsString(n1);
-    string_type v2 = grabAsString(n2);
-
-    if((v1 == v2) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
-
-    return compare(v1, v2);
-  } // stringSort
-
-  string_type grabAsString(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsString(n, context_->xpathContext());
-  } // grabAsString
-  double grabAsNumber(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsNumber(n, context_->xpathContext());
-  } // grabAsString
-
   XPathExpressionPtr select_;
   XPathExpressionPtr lang_;
   XPathExpressionPtr datatype_;
   XPathExpressionPtr order_;
   XPathExpressionPtr caseorder_;
   Sort* sub_sort_;
-  ExecutionContext<string_type, string_adaptor>* context_;
-  sortFn sort_fn_;
 
   Sort& operator=(const Sort&);
   bool operator==(const Sort&) const;
@@ -195,15 +144,28 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!nodes.forward())
+      nodes.to_document_order();
     if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
       return;
+
+    std::vector<SortOrder> sort_orders;
+    sort_->orders(node, context, sort_orders);
+
+    std::vector<Entry> entries(nodes.size());
+    {
+      LastFrame<string_type, string_adaptor> last(context, nodes.size());
+      for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      {
+        context.setPosition(nodes[n], n+1);
+        entries[n].node = nodes[n];
+        sort_->keys(nodes[n], context, sort_orders, entries[n].keys);
+      } // for ...
     }
 
-    sort_->set_context(node, context);
-    std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
+    std::stable_sort(entries.begin(), entries.end(), SortP(sort_orders));
+    for(size_t n = 0, e = entries.size(); n != e; ++n)
+      *(nodes.begin() + n) = entries[n].node;
   } // sort
 
   bool has_sort() const { return sort_ != 0; }
@@ -220,16 +182,44 @@ public:
 private:
   SortT* sort_;
 
+  struct Entry
+  {
+    DOMNode node;
+    std::vector<typename SortT::SortKey> keys;
+  }; // struct Entry
+
   struct SortP
   {
-    SortP(SortT& sort) : sort_(sort) { }
-    bool operator()(const DOMNode& n1, const DOMNode& n2)
+    SortP(const std::vector<SortOrder>& orders) : orders_(orders) { }
+    bool operator()(const Entry& e1, const Entry& e2) const
     {
-      return sort_(n1, n2);
+      for(size_t k = 0, ke = orders_.size(); k != ke; ++k)
+      {
+        int c = orders_[k].number ? compare_numbers(e1.keys[k].number, e2.keys[k].number)
+                                  : compare_strings(e1.keys[k].text, e2.keys[k].text);
+        if(c != 0)
+          return orders_[k].ascending ? (c < 0) : (c > 0);
+      } // for ...
+      return false;
     } // operator()
 
   private:
-    SortT& sort_;
+    // NaN is less than any number
+    static int compare_numbers(double v1, double v2) 
+    {
+      bool nan1 = Arabica::XPath::isNaN(v1);
+      bool nan2 = Arabica::XPath::isNaN(v2);
+      if(nan1 || nan2)
+        return static_cast<int>(nan2) - static_cast<int>(nan1);
+      return (v1 < v2) ? -1 : (v2 < v1) ? 1 : 0;
+    } // compare_numbers
+
+    static int compare_strings(const string_type& v1, const string_type& v2)
+    {
+      return (v1 < v2) ? -1 : (v2 < v1) ? 1 : 0;
+    } // compare_strings
+
+    const std::vector<SortOrder>& orders_;
   }; // struct SortP
 }; // class Sortable
 
-- 
2.43.0


From a28fd8d4b4ef0c513575f961b3893ffac17703f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 071/106] fix: the current mode and template rule are restored
 after apply-templates; built-in rules see text as XPath does

---
 include/XSLT/impl/xslt_apply_templates.hpp    | 14 ++---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 52 ++++++++++++++-----
 2 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 1a423ef..5e9d53f 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -30,17 +30,13 @@ public:
   {
     ParamPasser<string_type, string_adaptor> passer(*this, node, context);
 
-    if(!SortableT::has_sort() && select_ == 0)
-    {
-      if(node.hasChildNodes())
-        context.stylesheet().applyTemplates(node.getChildNodes(), context, mode_);
-      return;
-    }
-
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes;
     if(select_ == 0)
-      for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-        nodes.push_back(n);
+    {
+      Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD);
+      for( ; *child != 0; ++child)
+        nodes.push_back(*child);
+    }
     else
     {
       Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..6f23e14 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -48,7 +48,6 @@ public:
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> Value;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
-  typedef DOM::NodeList<string_type, string_adaptor> DOMNodeList;
 
   CompiledStylesheet() :
       output_(new StreamSink<string_type, string_adaptor>(streams::out())),
@@ -103,6 +102,8 @@ public:
     ns.push_back(initialNode);
 
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
+    LastFrame<string_type, string_adaptor> last(context, ns.size());
+    context.setPosition(initialNode, 1);
 
     // set up variables and so forth
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
@@ -192,17 +193,6 @@ public:
     }
   } // applyTemplates
 
-  void applyTemplates(const DOMNodeList& nodes, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
-  {
-    // entirely simple so far
-    LastFrame<string_type, string_adaptor> last(context, (size_t)nodes.getLength());
-    for(int i = 0, ie = nodes.getLength(); i != ie; ++i)
-    {
-      context.setPosition(nodes.item(i), i+1);
-      doApplyTemplates(nodes.item(i), context, mode, Precedence::FrozenPrecedence());
-    }
-  } // applyTemplates
-
   void applyTemplates(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const
   {
     LastFrame<string_type, string_adaptor> last(context, -1);
@@ -238,6 +228,7 @@ private:
                         const Precedence& generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
+    CurrentRule current_rule(*this);
 
     std::vector<Precedence> lower_precedences;
     for(TemplateStackIterator ts = templates_.begin(), tse = templates_.end(); ts != tse; ++ts)
@@ -275,12 +266,18 @@ private:
       case DOM::Node_base::DOCUMENT_NODE:
       case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
       case DOM::Node_base::ELEMENT_NODE:
-        applyTemplates(node.getChildNodes(), context, mode);
+        {
+          NodeSet children;
+          Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD);
+          for( ; *child != 0; ++child)
+            children.push_back(*child);
+          applyTemplates(children, context, mode);
+        }
         break;
       case DOM::Node_base::ATTRIBUTE_NODE:
       case DOM::Node_base::TEXT_NODE:
       case DOM::Node_base::CDATA_SECTION_NODE:
-        context.sink().characters(node.getNodeValue());
+        context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
 	/*
         {
           const string_type& ch = node.getNodeValue();
@@ -298,6 +295,33 @@ private:
     } // switch
   } // defaultAction
 
+  // Applying templates changes the current mode and current template rule's 
+  // import precedence, and must put them back afterwards
+  class CurrentRule
+  {
+  public:
+    CurrentRule(const CompiledStylesheet& stylesheet) : 
+      stylesheet_(stylesheet),
+      mode_(stylesheet.current_mode_),
+      generation_(stylesheet.current_generation_)
+    {
+    } // CurrentRule
+
+    ~CurrentRule()
+    {
+      stylesheet_.current_mode_ = mode_;
+      stylesheet_.current_generation_ = generation_;
+    } // ~CurrentRule
+
+  private:
+    const CompiledStylesheet& stylesheet_;
+    const string_type mode_;
+    const Precedence generation_;
+
+    CurrentRule(const CurrentRule&);
+    CurrentRule& operator=(const CurrentRule&);
+  }; // class CurrentRule
+
   void set_parameter(const string_type& name, Value value)
   {
     params_.push_back(new TopLevelParam<string_type, string_adaptor>(string_adaptor::empty_string(), name, value));
-- 
2.43.0


From 029ef6decb130654bb11ab44d49cd34fbc257ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 072/106] fix: each template's parameters are its own when the
 top level scope is copied

---
 include/XSLT/impl/xslt_variable_stack.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..dfd8d09 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -62,6 +62,9 @@ public:
     stack_(rhs.stack_),
     params_(rhs.params_)
   {
+    // parameters being passed when the copy is made are not passed on to 
+    // any templates the copy's owner goes on to call
+    params_.push_back(Scope());
   } // VariableStack
 
   void pushScope()
-- 
2.43.0


From 03ecba546bf6e31498f000e525effe02d3664838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 073/106] fix: result tree fragments have the string value of
 their whole content, even when it is empty

---
 include/XSLT/impl/xslt_copy.hpp          | 18 ++++++++--
 include/XSLT/impl/xslt_item.hpp          |  2 ++
 include/XSLT/impl/xslt_variable_impl.hpp | 44 +++++++++++++++++++-----
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1e839fd..be493b4 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_COPY_HPP
 
 #include "xslt_item.hpp"
+#include "xslt_variable_impl.hpp"
 
 namespace Arabica
 {
@@ -55,7 +56,8 @@ protected:
       break;
     case DOM::Node_base::TEXT_NODE:
     case DOM::Node_base::CDATA_SECTION_NODE:
-      context.sink().characters(node.getNodeValue());
+      // adjacent DOM text nodes are a single text node
+      context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
       break;
     } // switch
   } // execute
@@ -88,6 +90,7 @@ public:
 protected:
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
   } // process_content
 
@@ -118,6 +121,14 @@ public:
       return;
     } 
 
+    typedef ResultTreeFragment<string_type, string_adaptor> ResultTreeFragmentT;
+    Arabica::XPath::XPathValuePtr<string_type, string_adaptor> ptr(value);
+    if(const ResultTreeFragmentT* rtf = dynamic_cast<const ResultTreeFragmentT*>(ptr.operator->()))
+    {
+      this->copy(rtf->fragment(), context);
+      return;
+    } // if ...
+
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes = value.asNodeSet();
     for(typename Arabica::XPath::NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), e = nodes.end(); n != e; ++n)
       this->copy(*n, context);
@@ -133,8 +144,9 @@ protected:
         this->copy(attrs.item(a), context);
     } // if ...
 
-    for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-      this->copy(n, context);
+    Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD);
+    for( ; *child != 0; ++child)
+      this->copy(*child, context);
   } // process_content
 
 private:
diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index 7f5762d..a2653d5 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -35,6 +35,8 @@ protected:
       (*ci)->execute(node, context);
   } // execute
 
+  bool has_children() const { return !children_.empty(); }
+
 public:
   void add_item(Item<string_type, string_adaptor>* child) 
   {
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 529dde5..51d5ca1 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -11,6 +11,37 @@ namespace Arabica
 namespace XSLT
 {
 
+// A result tree fragment behaves as a node-set containing just its root node,
+// except that only its string-value and, for xsl:copy-of, its content are 
+// available. As a node-set, it contains a node which has that string-value.
+template<class string_type, class string_adaptor>
+class ResultTreeFragment : public Arabica::XPath::NodeSetValue<string_type, string_adaptor>
+{
+  typedef Arabica::XPath::NodeSetValue<string_type, string_adaptor> baseT;
+  typedef Arabica::XPath::XPathValue<string_type, string_adaptor> XPathValue;
+  typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
+  typedef DOM::Node<string_type, string_adaptor> DOMNode;
+
+public:
+  static XPathValue createValue(const DOMNode& fragment) 
+  { 
+    NodeSet nodeset;
+    nodeset.push_back(fragment.getOwnerDocument().createTextNode(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(fragment)));
+    return XPathValue(new ResultTreeFragment(nodeset, fragment)); 
+  } // createValue
+
+  const DOMNode& fragment() const { return fragment_; }
+
+private:
+  ResultTreeFragment(const NodeSet& set, const DOMNode& fragment) :
+    baseT(set),
+    fragment_(fragment)
+  {
+  } // ResultTreeFragment
+
+  const DOMNode fragment_;
+}; // class ResultTreeFragment
+
 template<class string_type, class string_adaptor>
 class Variable_impl : public ItemContainer<string_type, string_adaptor>, public Variable_declaration<string_type, string_adaptor>
 {
@@ -18,8 +49,6 @@ protected:
   typedef Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> XPathExpressionPtr;
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> XPathValue;
   typedef Arabica::XPath::StringValue<string_type, string_adaptor> StringValue;
-  typedef Arabica::XPath::NodeSetValue<string_type, string_adaptor> NodeSetValue;
-  typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
 
   Variable_impl(const string_type& name, 
@@ -43,16 +72,13 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
-    this->execute_children(node, context);
-
-    if(sink.node() == 0)
+    if(!this->has_children())
       return StringValue::createValue(string_adaptor::empty_string());
 
-    NodeSet nodeset;
-    for(DOMNode n = sink.node().getFirstChild(); n != 0; n = n.getNextSibling())
-      nodeset.push_back(n);
+    this->execute_children(node, context);
+    context.sink().characters(string_adaptor::empty_string()); // ensures there is a fragment
 
-    return NodeSetValue::createValue(nodeset);
+    return ResultTreeFragment<string_type, string_adaptor>::createValue(sink.node());
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
-- 
2.43.0


From 8ddefa12d997f434f92487811359e0e290bd210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 074/106] fix: variables declared inside comment,
 processing-instruction and message do not leak

---
 include/XSLT/impl/xslt_comment.hpp                | 1 +
 include/XSLT/impl/xslt_message.hpp                | 1 +
 include/XSLT/impl/xslt_processing_instruction.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_comment.hpp b/include/XSLT/impl/xslt_comment.hpp
index 014d6a1..91aac9d 100644
--- a/include/XSLT/impl/xslt_comment.hpp
+++ b/include/XSLT/impl/xslt_comment.hpp
@@ -22,6 +22,7 @@ public:
   {
     context.sink().start_comment();
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     context.sink().end_comment();
diff --git a/include/XSLT/impl/xslt_message.hpp b/include/XSLT/impl/xslt_message.hpp
index 15379ef..a4f05de 100644
--- a/include/XSLT/impl/xslt_message.hpp
+++ b/include/XSLT/impl/xslt_message.hpp
@@ -25,6 +25,7 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     RedirectionFrame toMessageSink(context);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     if(terminate_)
diff --git a/include/XSLT/impl/xslt_processing_instruction.hpp b/include/XSLT/impl/xslt_processing_instruction.hpp
index 0e61490..41948af 100644
--- a/include/XSLT/impl/xslt_processing_instruction.hpp
+++ b/include/XSLT/impl/xslt_processing_instruction.hpp
@@ -30,6 +30,7 @@ public:
     validate_name(name);
 
     context.sink().start_processing_instruction(name);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
     context.sink().end_processing_instruction();
   } // execute
-- 
2.43.0


From 91268cb7cb1f316c9aff629aa71ff0ed100f59f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 075/106] fix: sinks accept attributes after empty text, and
 DOMSink starts afresh for each execution

---
 include/XSLT/impl/xslt_output.hpp | 14 ++++++++++++++
 include/XSLT/impl/xslt_sink.hpp   |  8 ++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 13e1593..0f11b35 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -25,6 +25,7 @@ protected:
     buffering_(0),
     pending_element_(false),
     pending_text_(false),
+    empty_text_(false),
     pending_attribute_(-1),
     text_mode_(false),
     warning_sink_(0)
@@ -81,6 +82,7 @@ public:
 
     atts_.clear();
     pending_element_ = true;
+    empty_text_ = false;
 
     return true;
   } // start_element
@@ -182,6 +184,13 @@ public:
       return;
     } // if ...
 
+    // zero-length text is no text at all, so doesn't preclude more attributes
+    if(string_adaptor::empty(ch) && pending_element_)
+    {
+      empty_text_ = true;
+      return;
+    } // if ...
+
     flush_element();
 
     if(!pending_text_)
@@ -336,6 +345,10 @@ private:
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
+
+    if(empty_text_)
+      do_characters(string_adaptor::empty_string());
+    empty_text_ = false;
   } // flush_element
 
   bool isCDATA()
@@ -374,6 +387,7 @@ private:
   int buffering_;
   bool pending_element_;
   bool pending_text_;
+  bool empty_text_;
   int pending_attribute_;
   bool text_mode_;
   Output* warning_sink_;
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 9d5ef07..7d44f8f 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -373,6 +373,11 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    documentFrag_ = DOM::DocumentFragment<string_type, string_adaptor>();
+    current_ = DOM::Node<string_type, string_adaptor>();
+    indent_ = -1;
+    out_again_ = false;
+
     typename Settings::const_iterator i = settings.find(SC::indent);
     if((i != settings.end()) &&
        (i->second == SC::yes))
@@ -386,6 +391,9 @@ protected:
   void do_characters(const string_type& ch)
   {
     DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
+    if(string_adaptor::empty(ch))
+      return;
+
     if(lc == 0 || lc.getNodeType() != DOM::Node_base::TEXT_NODE)
       current().appendChild(document().createTextNode(ch));
     else
-- 
2.43.0


From 7d78ad6b2b1bf9351073abddc7b5166e0680d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 076/106] fix: literal result elements without a prefix take
 their name as is, and prefixed attributes are not instruction options

---
 include/XSLT/impl/handler/xslt_inline_element_handler.hpp | 3 +++
 include/XSLT/impl/handler/xslt_value_validation.hpp       | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 960795e..bce9212 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -62,6 +62,9 @@ protected:
 private:
   string_type makeName(const string_type prefix, const string_type localName) const
   {
+    if(string_adaptor::empty(prefix))
+      return localName;
+
     string_type n = prefix;
     string_adaptor::append(n, SC::COLON);
     string_adaptor::append(n, localName);
diff --git a/include/XSLT/impl/handler/xslt_value_validation.hpp b/include/XSLT/impl/handler/xslt_value_validation.hpp
index d294766..0f2451e 100644
--- a/include/XSLT/impl/handler/xslt_value_validation.hpp
+++ b/include/XSLT/impl/handler/xslt_value_validation.hpp
@@ -159,10 +159,11 @@ public:
       const string_type& uri = atts.getURI(a);
       const string_type& value = atts.getValue(a);
 
-      results[name] = value;
-
       if(uri == string_adaptor::empty_string())
+      {
         validateAttribute(parentElement, name, value);
+        results[name] = value;
+      }
       else if(uri == SC::xml_uri)
         validateXmlAttribute(parentElement, name, value); // special xml: attributes
     } // for ...
-- 
2.43.0


From a1704677d8ec65b95a0ee40a56ec531124c74355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 077/106] fix: xsl:key indexes attributes, non-node-set use
 expressions, each node once, and the document as it is now

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  3 +
 include/XSLT/impl/xslt_functions.hpp          |  7 +-
 include/XSLT/impl/xslt_key.hpp                | 86 +++++++++++++------
 3 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 6f23e14..91c1253 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -98,6 +98,9 @@ public:
     if(initialNode == 0)
       throw std::runtime_error("Input document is empty");
 
+    // the documents might have changed since last time
+    keys_.reset();
+
     NodeSet ns;
     ns.push_back(initialNode);
 
diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 376fe30..2b583cc 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -112,20 +112,21 @@ protected:
 
     XPathValue a1 = baseT::arg(1, context, executionContext);
     if(a1.type() == Arabica::XPath::NODE_SET)
-      return nodeSetUnion(keyClarkName, a1.asNodeSet(), executionContext);
+      return nodeSetUnion(keyClarkName, a1.asNodeSet(), context, executionContext);
 
-    return keys_.lookup(keyClarkName, a1.asString(), executionContext);
+    return keys_.lookup(keyClarkName, a1.asString(), context, executionContext);
   } // doEvaluate
 
   NodeSet nodeSetUnion(const string_type& keyClarkName, 
                        const NodeSet nodes,
+                       const DOMNode& context,
 			      			     const XPathExecutionContext& executionContext) const
   {
     NodeSet results;
     for(typename NodeSet::const_iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
     {
       string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*n);
-      results.push_back(keys_.lookup(keyClarkName, id, executionContext));
+      results.push_back(keys_.lookup(keyClarkName, id, context, executionContext));
     } // for ...
     results.to_document_order();
     return results;
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..77dc3bd 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -1,6 +1,9 @@
 #ifndef ARABICA_XSLT_KEY_HPP
 #define ARABICA_XSLT_KEY_HPP
 
+#include <map>
+#include <set>
+#include <vector>
 #include "xslt_execution_context.hpp"
 
 namespace Arabica
@@ -25,12 +28,12 @@ public:
   {
   } // Key
 
-  NodeSet lookup(const string_type& value, const XPathContext& context) const
+  NodeSet lookup(const string_type& value, const DOMNode& context, const XPathContext& executionContext) const
   {
-    DOMNode doc = XPath::impl::get_owner_document(context.currentNode());
+    DOMNode doc = XPath::impl::get_owner_document(context);
     DocumentNodeMapIterator nm = nodesPerDocument_.find(doc.underlying_impl());
     if(nm == nodesPerDocument_.end())
-      populate(nodesPerDocument_[doc.underlying_impl()], context);
+      populate(nodesPerDocument_[doc.underlying_impl()], doc, executionContext);
 
     const NodeMap& nodes = nodesPerDocument_[doc.underlying_impl()];
     NodeMapIterator f = nodes.find(value);
@@ -40,37 +43,64 @@ public:
     return f->second;
   } // lookup
 
+  void reset() const
+  {
+    nodesPerDocument_.clear();
+  } // reset
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
   typedef std::map<DOM::Node_impl<string_type, string_adaptor>*, NodeMap> DocumentNodeMap;
   typedef typename DocumentNodeMap::const_iterator DocumentNodeMapIterator;
-  typedef typename NodeSet::iterator NodeSetIterator;
+  typedef typename NodeSet::const_iterator NodeSetIterator;
+  typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
+  typedef XPath::XPathValue<string_type, string_adaptor> Value;
   typedef typename MatchExprList::const_iterator MatchExprListIterator;
  
-  void populate(NodeMap& nodes, const XPathContext& context) const
+  void populate(NodeMap& nodes, const DOMNode& doc, const XPathContext& context) const
   {
-    typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
-
-    DOMNode current = XPath::impl::get_owner_document(context.currentNode());
-
-    for(AxisEnum ae(current, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
+    for(AxisEnum ae(doc, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
     {
       DOMNode node = *ae;
-      for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
-        if(me->evaluate(node, context))
-        {
-	        NodeSet ids = use_.evaluateAsNodeSet(node, context);
-	        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
-	        {
-	          string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i);
-	          nodes[id].push_back(node);
-	        } // for ...
-          break;
-        } // if ...
+      index(nodes, node, context);
+
+      if(node.getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        for(AxisEnum attr(node, XPath::ATTRIBUTE); *attr != 0; ++attr)
+          index(nodes, *attr, context);
     } // for 
+
+    for(typename NodeMap::iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
+      n->second.to_document_order();
   } // populate
 
+  void index(NodeMap& nodes, const DOMNode& node, const XPathContext& parent) const
+  {
+    // the node is both context node and current node, and the only node in the list
+    XPathContext context(1, parent);
+    context.setCurrentNode(node);
+    context.setPosition(1);
+
+    for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
+      if(me->evaluate(node, context))
+      {
+        Value use = use_.evaluate(node, context);
+        if(use.type() != Arabica::XPath::NODE_SET)
+        {
+          nodes[use.asString()].push_back(node);
+          return;
+        } // if ...
+
+        std::set<string_type> ids;
+        const NodeSet& values = use.asNodeSet();
+        for(NodeSetIterator i = values.begin(), ie = values.end(); i != ie; ++i)
+          ids.insert(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i));
+        for(typename std::set<string_type>::const_iterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
+          nodes[*i].push_back(node);
+        return;
+      } // if ...
+  } // index
+
   MatchExprList matches_;
   XPathExpression use_;
   mutable DocumentNodeMap nodesPerDocument_;
@@ -99,22 +129,30 @@ public:
 
   NodeSet lookup(const string_type& name,
 	               const string_type& id,
-                 const XPathContext& context) const
+                 const DOM::Node<string_type, string_adaptor>& context,
+                 const XPathContext& executionContext) const
   {
     const KeysIterator k = keys_.find(name);
     if(k == keys_.end())
       throw SAX::SAXException("No key named '" + string_adaptor::asStdString(name) + "' has been defined.");
     
     if(k->second.size() == 1)
-      return k->second[0]->lookup(id, context);
+      return k->second[0]->lookup(id, context, executionContext);
     
     NodeSet nodes;
     for(KeyListIterator key = k->second.begin(), keye = k->second.end(); key != keye; ++key)    
-      nodes.push_back((*key)->lookup(id, context));
+      nodes.push_back((*key)->lookup(id, context, executionContext));
     nodes.to_document_order();
     return nodes;
   } // lookup
 
+  void reset() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->reset();
+  } // reset
+
 private:
   typedef std::vector<Key<string_type, string_adaptor>*> KeyList;
   typedef typename std::vector<Key<string_type, string_adaptor>*>::const_iterator KeyListIterator;
-- 
2.43.0


From 4a3e71b0c5d5d281efd408c0be09db03200938c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:32 +0000
Subject: [PATCH 078/106] fix: current() may be used before the first template

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index b590767..f5c740e 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -43,7 +43,7 @@ public:
     parser_(parser),
     stylesheet_(stylesheet),
     autoNs_(1),
-    current_allowed_(false),
+    current_allowed_(true),
     variables_allowed_(true),    
     precedence_(Precedence::InitialPrecedence())
   {
@@ -288,10 +288,11 @@ private:
   class Disallow
   { 
     public:
-      Disallow(bool& allow) : allow_(allow) { allow_ = false; }
-      ~Disallow() { allow_ = true; }
+      Disallow(bool& allow) : allow_(allow), previous_(allow) { allow_ = false; }
+      ~Disallow() { allow_ = previous_; }
     private:
       bool& allow_;
+      const bool previous_;
   }; // DisallowCurrent 
 }; // class CompilationContext
 
-- 
2.43.0


From 04f0accc994a4bbb36b5a60aa6eed58113575a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:32 +0000
Subject: [PATCH 079/106] fix: xsl:copy-of copies in document order

---
 include/XSLT/impl/xslt_copy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index be493b4..79f46a3 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -130,6 +130,7 @@ public:
     } // if ...
 
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes = value.asNodeSet();
+    nodes.to_document_order();
     for(typename Arabica::XPath::NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), e = nodes.end(); n != e; ++n)
       this->copy(*n, context);
   } // execute
-- 
2.43.0


From e5911b8c7f460efb837a1fc6188489fdff5fd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 080/106] fix: numeric sort keys are the numbers of the keys'
 string values

---
 include/XSLT/impl/xslt_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index 261bec1..401ea0d 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -81,7 +81,7 @@ public:
   {
     SortKey key;
     if(sort_orders[sort_keys.size()].number)
-      key.number = select_->evaluateAsNumber(node, context.xpathContext());
+      key.number = Arabica::XPath::impl::stringAsNumber<string_type, string_adaptor>(select_->evaluateAsString(node, context.xpathContext()));
     else
       key.text = select_->evaluateAsString(node, context.xpathContext());
     sort_keys.push_back(key);
-- 
2.43.0


From deb884ea48c78ee2fd8e6cf73b37675d50c7c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:10 +0000
Subject: [PATCH 081/106] fix: variables evaluate in the mode and template rule
 they were declared in

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 30 ++++++++-----------
 include/XSLT/impl/xslt_execution_context.hpp  | 14 +++++++++
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 91c1253..c64b46f 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -221,17 +221,17 @@ public:
 
   void applyImports(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    doApplyTemplates(node, context, current_mode_, current_generation_);
+    doApplyTemplates(node, context, context.currentMode(), context.currentGeneration());
   } // applyImports
 
 private:
   void doApplyTemplates(const DOMNode& node, 
                         ExecutionContext<string_type, string_adaptor>& context, 
-                        const string_type& mode, 
-                        const Precedence& generation) const
+                        const string_type mode, 
+                        const Precedence generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
-    CurrentRule current_rule(*this);
+    CurrentRule current_rule(context);
 
     std::vector<Precedence> lower_precedences;
     for(TemplateStackIterator ts = templates_.begin(), tse = templates_.end(); ts != tse; ++ts)
@@ -239,12 +239,10 @@ private:
         lower_precedences.push_back(ts->first);
     std::sort(lower_precedences.rbegin(), lower_precedences.rend());
 
-    current_mode_ = mode;
-
     for(std::vector<Precedence>::const_iterator p = lower_precedences.begin(), pe = lower_precedences.end(); p != pe; ++p)
     { 
-      current_generation_ = *p;
-      ModeTemplates ts = templates_.find(current_generation_)->second;
+      context.setCurrentRule(mode, *p);
+      ModeTemplates ts = templates_.find(*p)->second;
       ModeTemplatesIterator mt = ts.find(mode);
       if(mt != ts.end())
       {
@@ -303,21 +301,20 @@ private:
   class CurrentRule
   {
   public:
-    CurrentRule(const CompiledStylesheet& stylesheet) : 
-      stylesheet_(stylesheet),
-      mode_(stylesheet.current_mode_),
-      generation_(stylesheet.current_generation_)
+    CurrentRule(ExecutionContext<string_type, string_adaptor>& context) : 
+      context_(context),
+      mode_(context.currentMode()),
+      generation_(context.currentGeneration())
     {
     } // CurrentRule
 
     ~CurrentRule()
     {
-      stylesheet_.current_mode_ = mode_;
-      stylesheet_.current_generation_ = generation_;
+      context_.setCurrentRule(mode_, generation_);
     } // ~CurrentRule
 
   private:
-    const CompiledStylesheet& stylesheet_;
+    ExecutionContext<string_type, string_adaptor>& context_;
     const string_type mode_;
     const Precedence generation_;
 
@@ -386,9 +383,6 @@ private:
   DeclaredKeys<string_type, string_adaptor> keys_;
   ParamList params_;
 
-  mutable string_type current_mode_;
-  mutable Precedence current_generation_;
-
   typename Output<string_type, string_adaptor>::Settings output_settings_;
   typename Output<string_type, string_adaptor>::CDATAElements output_cdata_elements_;
   SinkHolder<string_type, string_adaptor> output_;
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index d36524c..878c3f1 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -4,6 +4,7 @@
 #include <ostream>
 #include "xslt_sink.hpp"
 #include "xslt_variable_stack.hpp"
+#include "xslt_precedence.hpp"
 
 namespace Arabica
 {
@@ -55,6 +56,8 @@ public:
                    ExecutionContext<string_type, string_adaptor>& rhs) :
     stylesheet_(rhs.stylesheet_),
     stack_(rhs.stack_),
+    current_mode_(rhs.current_mode_),
+    current_generation_(rhs.current_generation_),
     sink_(output.asOutput()),
     message_sink_(rhs.message_sink_),
     to_msg_(false)
@@ -100,6 +103,15 @@ public:
     xpathContext_.setLast(last);
   } // setLast
 
+  // the mode and import precedence of the current template rule
+  const string_type& currentMode() const { return current_mode_; }
+  const Precedence& currentGeneration() const { return current_generation_; }
+  void setCurrentRule(const string_type& mode, const Precedence& generation)
+  {
+    current_mode_ = mode;
+    current_generation_ = generation;
+  } // setCurrentRule
+
 private:
   void pushStackFrame() { stack_.pushScope(); }
   void chainStackFrame() { stack_.chainScope(); }
@@ -109,6 +121,8 @@ private:
   const CompiledStylesheet<string_type, string_adaptor>& stylesheet_;
   VariableStack<string_type, string_adaptor> stack_;
   Arabica::XPath::ExecutionContext<string_type, string_adaptor> xpathContext_;
+  string_type current_mode_;
+  Precedence current_generation_;
   Output<string_type, string_adaptor>& sink_;
   StreamSink<string_type, string_adaptor> message_sink_;
   int to_msg_;
-- 
2.43.0


From 326e36442857342f2c20f00be13ec0c79f530926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:10 +0000
Subject: [PATCH 082/106] fix: an include or import that fails after including
 others used a freed href

---
 include/XSLT/impl/handler/xslt_include_handler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_include_handler.hpp b/include/XSLT/impl/handler/xslt_include_handler.hpp
index 02f5a04..a81e012 100644
--- a/include/XSLT/impl/handler/xslt_include_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_include_handler.hpp
@@ -147,7 +147,8 @@ private:
     include_stylesheet(import.href, import.precedence);
   } // import_stylesheet
 
-  void include_stylesheet(const string_type& href, const Precedence& precedence)
+  // arguments are copies, because they come from stacks that grow as more is included and imported
+  void include_stylesheet(const string_type href, const Precedence precedence)
   {
     check_for_loops(href);
     current_includes_.push_back(href);
-- 
2.43.0


From 9ad003bfbaf4ec756db137163ca0d96e5c42270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:35 +0000
Subject: [PATCH 083/106] fix: variables with a select attribute and element
 content, or an empty select, are refused

---
 .../XSLT/impl/handler/xslt_variable_handler.hpp  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index 5c3f7be..d24c519 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -47,11 +47,10 @@ protected:
     
     std::map<string_type, string_type> attrs = rules.gather(qName, atts);
 
-    const string_type& select = atts.getValue(SC::select);
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-    if(select != string_adaptor::empty_string())
+    if(atts.getIndex(SC::select) != -1)
     {
-      xpath = baseT::context().xpath_expression(select);
+      xpath = baseT::context().xpath_expression(attrs[SC::select]);
       has_select_ = true;
     } // if ...
 
@@ -70,6 +69,17 @@ protected:
     ItemContainerHandler<VType>::characters(ch);
   } // characters
 
+  virtual bool createChild(const string_type& namespaceURI,
+                           const string_type& localName,
+                           const string_type& qName,
+                           const SAX::Attributes<string_type, string_adaptor>& atts)
+  {
+    if(has_select_)
+      throw SAX::SAXException("A variable or param can not have both a select attribute and content");
+
+    return baseT::createChild(namespaceURI, localName, qName, atts);
+  } // createChild
+
 private:
   bool has_select_;
   const Precedence precedence_;
-- 
2.43.0


From 1f99be19021b7fc41a92d644a2bee22522e2e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:09 +0000
Subject: [PATCH 084/106] fix: an empty select or mode on apply-templates, and
 text in call-template, are refused

---
 include/XSLT/impl/handler/xslt_apply_templates_handler.hpp | 4 ++--
 include/XSLT/impl/handler/xslt_call_template_handler.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
index af3281e..e048ecc 100644
--- a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
@@ -40,11 +40,11 @@ public:
     
       const string_type& select = attrs[SC::select];
       Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-      if(select != string_adaptor::empty_string())
+      if(atts.getIndex(SC::select) != -1)
         xpath = context_.xpath_expression(select);
 
       string_type mode;
-      if(attrs[SC::mode] != string_adaptor::empty_string())
+      if(atts.getIndex(SC::mode) != -1)
         mode = context_.processInternalQName(attrs[SC::mode]).clarkName();
       applyTemplates_ = new ApplyTemplates<string_type, string_adaptor>(xpath, mode);
 
diff --git a/include/XSLT/impl/handler/xslt_call_template_handler.hpp b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
index 0d817f2..1fabc50 100644
--- a/include/XSLT/impl/handler/xslt_call_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
@@ -63,8 +63,9 @@ public:
     context_.pop();
   } // endElement
 
-  virtual void characters(const string_type& /* ch */)
+  virtual void characters(const string_type& ch)
   {
+    verifyNoCharacterData<string_type, string_adaptor>(ch, SC::call_template);
   } // characters
 
 private:
-- 
2.43.0


From 5471a79b2e7b227f48fca652dae465a2c7b1a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:18 +0000
Subject: [PATCH 085/106] fix: a sort after text in a for-each, and a template
 with an empty match or name, are refused

---
 .../XSLT/impl/handler/xslt_for_each_handler.hpp   | 15 +++++++++++++++
 .../XSLT/impl/handler/xslt_template_handler.hpp   |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_for_each_handler.hpp b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
index 45ed637..c7267cb 100644
--- a/include/XSLT/impl/handler/xslt_for_each_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
@@ -24,6 +24,21 @@ public:
   {
   } // ForEachHandler
 
+  virtual void characters(const string_type& ch)
+  {
+    if(!done_sort_)
+    {
+      for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), e = string_adaptor::end(ch); i != e; ++i)
+        if(!Arabica::XML::is_space(*i))
+        {
+          done_sort_ = true;
+          break;
+        } // if ...
+    } // if(!done_sort_)
+
+    baseT::characters(ch);
+  } // characters
+
 protected:
   virtual ForEach<string_type, string_adaptor>* createContainer(const string_type& /* namespaceURI */,
                                    const string_type& /* localName */,
diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index c66852c..d03e829 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -50,8 +50,12 @@ protected:
     std::map<string_type, string_type> attributes = rules.gather(qName, atts);
                                        
     const string_type& match = attributes[SC::match];
-    if((match == string_adaptor::empty_string()) && (attributes[SC::name] == string_adaptor::empty_string()))
+    if((atts.getIndex(SC::match) == -1) && (atts.getIndex(SC::name) == -1))
       throw SAX::SAXException("xsl:template must have a match and/or a name attribute");
+    if((atts.getIndex(SC::match) != -1) && (match == string_adaptor::empty_string()))
+      throw SAX::SAXException("xsl:template match cannot be empty");
+    if((atts.getIndex(SC::name) != -1) && (attributes[SC::name] == string_adaptor::empty_string()))
+      throw SAX::SAXException("xsl:template name cannot be empty");
 
     int index = atts.getIndex(SC::mode);
     if(index != -1)
-- 
2.43.0


From 13f5ee4c7b09fc3e6957da1a2bdfd54257c27b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:48 +0000
Subject: [PATCH 086/106] fix: the HTML parser set the document locator after
 startDocument

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 41d4b0e..6d52235 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -466,11 +466,11 @@ public:
       return;
     } // if(is.resolver() == 0)
 
-    contentHandler_->startDocument();
     scanner_->resetDocumentLocator(string_adaptor::asStdString(input.getPublicId()), string_adaptor::asStdString(input.getSystemId()));
 
     if(dynamic_cast<LocatorT*>(scanner_) != 0) 
       contentHandler_->setDocumentLocator(*(dynamic_cast<LocatorT*>(scanner_)));
+    contentHandler_->startDocument();
 
     if(schema_->getURI() != "")
       contentHandler_->startPrefixMapping(S(schema_->getPrefix()), 
-- 
2.43.0


From 78db6d7fa8b231119a8ca419cda7a34aa1684762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:48 +0000
Subject: [PATCH 087/106] fix: the HTML parser muddled doctype identifiers, and
 ignored doctypes after the first parse

---
 include/Taggle/impl/Parser.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 6d52235..485933f 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -513,6 +513,7 @@ private:
     saved_ = Element::Null;
     entity_ = 0;
     virginStack = true;
+    doctypeIsPresent_ = false;
     doctypeName_ = doctypePublicId_ = doctypeSystemId_ = "";
   } // setup
 
@@ -907,7 +908,7 @@ private:
     char s = in[0];
     char e = in[length - 1];
     if(s == e && (s == '\'' || s == '"')) 
-      return in.substr(1, length - 1);
+      return (length > 1) ? in.substr(1, length - 2) : "";
     return in;
   } // trimquotes
 
@@ -949,7 +950,8 @@ private:
       {
         if(Arabica::XML::is_space(c)) 
         {
-          splits.push_back(v.substr(s, e));
+          if(s != std::string::npos)
+            splits.push_back(v.substr(s, e - s));
 				  s = std::string::npos;
 				}
         else if(s == std::string::npos && c != ' ') 
@@ -959,7 +961,8 @@ private:
       }
       lastc = c;
     } // for ...
-    splits.push_back(v.substr(s, e));
+    if(s != std::string::npos)
+      splits.push_back(v.substr(s, e - s));
 
     return splits;
   } // split
-- 
2.43.0


From ddae58b6d4ac4e402d0fed9e80a7e067ad03aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:48 +0000
Subject: [PATCH 088/106] fix: the HTML parser ran on past a CDATA section
 ending in ]]]>

---
 include/Taggle/impl/html/HTMLScanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 1001b2d..4f346c4 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -589,6 +589,7 @@ const int HTMLScanner::statetable[] = {
     S_CDSECT1, 0, A_SAVE, S_CDSECT,
     S_CDSECT1, -1, A_SKIP, S_DONE,
     S_CDSECT2, '>', A_CDATA, S_PCDATA,
+    S_CDSECT2, ']', A_SAVE, S_CDSECT2,
     S_CDSECT2, 0, A_SAVE, S_CDSECT,
     S_CDSECT2, -1, A_SKIP, S_DONE,
     S_COM, '-', A_SKIP, S_COM2,
-- 
2.43.0


From 193b85992619072cc6e5e0e590fbad04ec55e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:20 +0000
Subject: [PATCH 089/106] fix: the HTML parser lost or garbled characters
 beyond ASCII, and control characters, written as references

---
 include/Taggle/impl/Parser.hpp           | 26 +++++++++++----------
 include/Taggle/impl/Scanner.hpp          | 29 ++++++++++++++++++++++++
 include/Taggle/impl/SchemaImpl.hpp       |  4 ++--
 include/Taggle/impl/html/HTMLScanner.hpp | 14 ++++--------
 4 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 485933f..d2e46f3 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -576,17 +576,13 @@ private:
       {
         // properly terminated ref
         int ent = lookupEntity(dst.substr(refStart, dst.size() - refStart - 1));
-        if(ent > 0xFFFF) 
+        if(ent != 0) 
         {
-          ent -= 0x10000;
-          dst[refStart - 1] = (char)((ent>>10) + 0xD800);
-          dst[refStart] = (char)((ent&0x3FF) + 0xDC00);
-          dst.erase(refStart + 1);
-        }
-        else if(ent != 0) 
-        {
-          dst[refStart - 1] = (char)ent;
-          dst.erase(refStart);  
+          dst.erase(refStart - 1);
+          if(ent < 0x20)
+            dst += (ent == '\t' || ent == '\n' || ent == '\r') ? static_cast<char>(ent) : ' ';
+          else if(ent < 0xD800 || ent > 0xDFFF)
+            dst += Scanner::utf8(ent);
         }
         refStart = std::string::npos;
       }
@@ -616,9 +612,15 @@ private:
     {
       const char* b = buff.c_str();
       char* end;
+      long ch;
       if(buff.length() > 1 && (buff[1] == 'x' || buff[1] == 'X')) 
-        return strtol(b + 2, &end, 16);
-      return strtol(b + 1, &end, 10);
+        ch = strtol(b + 2, &end, 16);
+      else
+        ch = strtol(b + 1, &end, 10);
+      // not a reference to a character
+      if(ch < 0 || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF)
+        return result;
+      return ch;
     }
     return schema_->getEntity(buff);
   } // lookupEntity
diff --git a/include/Taggle/impl/Scanner.hpp b/include/Taggle/impl/Scanner.hpp
index efc6a59..df3b201 100755
--- a/include/Taggle/impl/Scanner.hpp
+++ b/include/Taggle/impl/Scanner.hpp
@@ -35,6 +35,35 @@ public:
 	**/
   virtual void resetDocumentLocator(const std::string& publicid, const std::string& systemid) = 0;
 
+	/**
+	The UTF-8 encoding of a character.
+	**/
+  static std::string utf8(int ch)
+  {
+    std::string s;
+    if(ch < 0x80)
+      s += static_cast<char>(ch);
+    else if(ch < 0x800)
+    {
+      s += static_cast<char>(0xC0 | (ch >> 6));
+      s += static_cast<char>(0x80 | (ch & 0x3F));
+    }
+    else if(ch < 0x10000)
+    {
+      s += static_cast<char>(0xE0 | (ch >> 12));
+      s += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+      s += static_cast<char>(0x80 | (ch & 0x3F));
+    }
+    else
+    {
+      s += static_cast<char>(0xF0 | (ch >> 18));
+      s += static_cast<char>(0x80 | ((ch >> 12) & 0x3F));
+      s += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+      s += static_cast<char>(0x80 | (ch & 0x3F));
+    }
+    return s;
+  } // utf8
+
 	/**
 	Signal to the scanner to start CDATA content mode.
 	**/
diff --git a/include/Taggle/impl/SchemaImpl.hpp b/include/Taggle/impl/SchemaImpl.hpp
index 6e35994..9be435f 100644
--- a/include/Taggle/impl/SchemaImpl.hpp
+++ b/include/Taggle/impl/SchemaImpl.hpp
@@ -22,7 +22,7 @@ Based on code from John Cowan's super TagSoup package
 class SchemaImpl : public Schema
 {
 private:
-  std::map<std::string, char> entities_;
+  std::map<std::string, int> entities_;
   std::map<std::string, ElementType*> elementTypes_;
 
 	std::string URI_;
@@ -129,7 +129,7 @@ public:
 	**/
 	int getEntity(const std::string& name) const
   {
-    std::map<std::string, char>::const_iterator ent = entities_.find(name);
+    std::map<std::string, int>::const_iterator ent = entities_.find(name);
     if(ent == entities_.end())
       return 0;
 		return ent->second;
diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 4f346c4..38efc84 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -347,24 +347,18 @@ public:
               if (ent < 0x20) 
               {
                 // Control becomes space
-                ent = 0x20;
+                save((ent == '\t' || ent == '\n' || ent == '\r') ? ent : ' ', h);
               }
               else if (ent >= 0xD800 && ent <= 0xDFFF) 
               {
                 // Surrogates get dropped
                 ent = 0;
               }
-              else if (ent <= 0xFFFF) 
-              {
-                // BMP character
-                save(ent, h);
-              }
               else 
               {
-                // Astral converted to two surrogates
-                ent -= 0x10000;
-                save((ent>>10) + 0xD800, h);
-                save((ent&0x3FF) + 0xDC00, h);
+                const std::string chars = utf8(ent);
+                for (size_t i = 0; i != chars.size(); ++i)
+                  save(static_cast<unsigned char>(chars[i]), h);
               }
               if (ch != ';') 
               {
-- 
2.43.0


From 874ac2da21c6df80dc5df5ac5c28c194bba1f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:06 +0000
Subject: [PATCH 090/106] fix: the HTML parser reported doctypes inside the
 root element

---
 include/Taggle/impl/Parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index d2e46f3..011770d 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -860,8 +860,8 @@ private:
     std::vector<std::string> v = split(buff);
     if((v.size() > 0) && ("DOCTYPE" == v[0])) 
     {
-      if(doctypeIsPresent_) 
-        return;    // one doctype only!
+      if(doctypeIsPresent_ || !virginStack) 
+        return;    // one doctype only, and before the root element
       doctypeIsPresent_ = true;
       if(v.size() > 1) 
       {
-- 
2.43.0


From baac1f30c8bd0ba50c44c0951dbdb23cedae0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:57 +0000
Subject: [PATCH 091/106] fix: the HTML parser mapped a prefix once for each
 attribute using it

---
 include/Taggle/impl/Parser.hpp | 42 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 011770d..3473abb 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -756,17 +756,9 @@ private:
     contentHandler_->endElement(S(namespaceName), 
                                 S(localName), 
                                 S(name));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->endPrefixMapping(S(prefix));
-
-    const Attributes<std::string>& atts = stack_.atts();
-    for (int i = atts.getLength() - 1; i >= 0; i--) 
-    {
-      std::string attNamespace = atts.getURI(i);
-      std::string attPrefix = prefixOf(atts.getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->endPrefixMapping(S(attPrefix));
-    } // for ...
+    const std::map<std::string, std::string> mappings = foreignMappings(prefix, namespaceName, stack_.atts());
+    for(std::map<std::string, std::string>::const_reverse_iterator m = mappings.rbegin(), me = mappings.rend(); m != me; ++m)
+      contentHandler_->endPrefixMapping(S(m->first));
     stack_ = stack_.next();
   } // pop
 
@@ -796,18 +788,14 @@ private:
       namespaceName = localName = "";
     if(virginStack && (lower_case(localName) == lower_case(doctypeName_))) 
       entityResolver_->resolveEntity(S(doctypePublicId_), S(doctypeSystemId_));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->startPrefixMapping(S(prefix), S(namespaceName));
-    
+    const std::map<std::string, std::string> mappings = foreignMappings(prefix, namespaceName, e.atts());
+    for(std::map<std::string, std::string>::const_iterator m = mappings.begin(), me = mappings.end(); m != me; ++m)
+      contentHandler_->startPrefixMapping(S(m->first), S(m->second));
+
     AttributesImpl<string_type, string_adaptor> atts;
     int len = e.atts().getLength();
     for (int i = 0; i != len; ++i) 
     {
-      std::string attNamespace = e.atts().getURI(i);
-      std::string attPrefix = prefixOf(e.atts().getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->startPrefixMapping(S(attPrefix), S(attNamespace));
-
       atts.addAttribute(S(e.atts().getURI(i)),
                         S(e.atts().getLocalName(i)),
                         S(e.atts().getQName(i)),
@@ -833,6 +821,22 @@ private:
     return prefix;
   } // prefixOf
 
+  // The foreign prefixes used by an element and its attributes, each once
+  std::map<std::string, std::string> foreignMappings(const std::string& prefix, const std::string& namespaceName, const Attributes<std::string>& atts)
+  {
+    std::map<std::string, std::string> mappings;
+    if(foreign(prefix, namespaceName))
+      mappings[prefix] = namespaceName;
+    for (int i = 0, len = atts.getLength(); i != len; ++i)
+    {
+      std::string attNamespace = atts.getURI(i);
+      std::string attPrefix = prefixOf(atts.getQName(i));
+      if(foreign(attPrefix, attNamespace)) 
+        mappings[attPrefix] = attNamespace;
+    } // for ...
+    return mappings;
+  } // foreignMappings
+
   // Return true if we have a foreign name
   bool foreign(std::string prefix, std::string namespaceName) 
   {
-- 
2.43.0


From 1b016b635d7ebdcac433fb0874a33196eaf663df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 092/106] fix: the HTML parser remapped the prefix of HTML
 itself

---
 include/Taggle/impl/ElementType.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Taggle/impl/ElementType.hpp b/include/Taggle/impl/ElementType.hpp
index cff6e68..99418be 100755
--- a/include/Taggle/impl/ElementType.hpp
+++ b/include/Taggle/impl/ElementType.hpp
@@ -110,6 +110,8 @@ public:
 		std::string prefix = name.substr(0, colon);
 		if (prefix == "xml") 
 			return "http://www.w3.org/XML/1998/namespace";
+		else if (prefix == schema_->getPrefix())
+			return schema_->getURI();
 		else 
 			return "urn:x-prefix:" + prefix;
   } // namespaceName
-- 
2.43.0


From 748a2a87028fc26fb588cef0c990ea8be028a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:23 +0000
Subject: [PATCH 093/106] fix: the HTML parser reported elements with the
 reserved xmlns prefix

---
 include/Taggle/impl/Parser.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 3473abb..b1f6ec7 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -687,7 +687,7 @@ private:
     if(!buff.empty())
     {
       // Canonicalize case of name
-      name = makeName(buff);
+      name = makeElementName(buff);
       ElementType& type = schema_->getElementType(name);
       if(type == ElementType::Null) 
         return;  // mysterious end-tag
@@ -1004,7 +1004,7 @@ private:
     // std::cerr << "gi(\"" << buff.substr(offset, length) << "\", " << offset << ", " << length << ")" << std::endl;
     if(newElement_ != Element::Null) 
       return;
-    std::string name = makeName(buff);
+    std::string name = makeElementName(buff);
     if(name == "") 
       return;
     ElementType* type = &schema_->getElementType(name);
@@ -1198,6 +1198,15 @@ private:
     return dst;
   } // makeName
 
+  // The xmlns prefix is reserved, so elements can't have it
+  std::string makeElementName(const std::string& buff)
+  {
+    std::string name = makeName(buff);
+    if(name.find("xmlns:") == 0)
+      name[5] = '_';
+    return name;
+  } // makeElementName
+
   static std::string lower_case(const std::string& str) 
   {
     std::string lower;
-- 
2.43.0


From ddfc08f9bf7de8d23615f396b70f868b0482375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:58 +0000
Subject: [PATCH 094/106] fix: the HTML parser lost text after pushing
 characters back onto the stream

---
 include/Taggle/impl/html/HTMLScanner.hpp | 50 ++++++++++++------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 38efc84..15f53fe 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -173,6 +173,8 @@ public:
   */
   virtual void scan(std::istream& r, ScanHandler& h)
   {
+    const int nothing = -2;    // neither a character nor EOF
+    int unread = nothing;
     state_ = S_PCDATA;
 /*    PushbackReader r;
     if (r0 instanceof PushbackReader) {
@@ -190,30 +192,33 @@ public:
 
     while (state_ != S_DONE) 
     {
-      int ch = r.get();
+      int ch = unread;
+      unread = nothing;
 
-      // Process control characters
-      //if (ch >= 0x80 && ch <= 0x9F) 
-        //ch = WinCharMap[ch-0x80];
-
-      if (ch == '\r') 
+      if (ch == nothing)
       {
-        ch = r.get();    // expect LF next
-        if (ch != '\n') 
+        ch = r.get();
+
+        // Process control characters
+        //if (ch >= 0x80 && ch <= 0x9F) 
+          //ch = WinCharMap[ch-0x80];
+
+        if (ch == '\r') 
         {
-          r.unget();
+          if (r.peek() == '\n')    // expect LF next
+            r.get();
           ch = '\n';
         }
-      }
 
-      if (ch == '\n') 
-      {
-        ++currentLine_;
-        currentColumn_ = 0;
-      }
-      else 
-      {
-        ++currentColumn_;
+        if (ch == '\n') 
+        {
+          ++currentLine_;
+          currentColumn_ = 0;
+        }
+        else 
+        {
+          ++currentColumn_;
+        }
       }
 
       if (!(ch >= 0x20 || ch == '\n' || ch == '\t' || ch == -1)) 
@@ -362,14 +367,12 @@ public:
               }
               if (ch != ';') 
               {
-                r.unget();
-                currentColumn_--;
+                unread = ch;
               }
             }
             else 
             {
-              r.unget();
-              currentColumn_--;
+              unread = ch;
             }
             nextState_ = S_PCDATA;
           } // case A_ENTITY:
@@ -458,8 +461,7 @@ public:
           h.stage(outputBuffer_);
           break;
         case A_UNGET:
-          r.unget();
-          currentColumn_--;
+          unread = ch;
           break;
         case A_UNSAVE_PCDATA:
          if (outputBuffer_.size() > 0) 
-- 
2.43.0


From 1bdd6736fb404a0c24a8d13ca0b631cdcd24824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:16 +0000
Subject: [PATCH 095/106] fix: the HTML parser reported ignorable whitespace
 before the root element

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index b1f6ec7..39228c6 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -1045,7 +1045,7 @@ private:
     } // for ...
     if(allWhite && !stack_.canContain(pcdata_)) 
     {
-      if(ignorableWhitespace) 
+      if(ignorableWhitespace && !virginStack) 
         contentHandler_->ignorableWhitespace(S(buff));
     }
     else 
-- 
2.43.0


From cbc4927ed0300677d8857234e6eadeb45717d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 096/106] fix: the HTML parser split characters when handing on
 long text

---
 include/Taggle/impl/html/HTMLScanner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 15f53fe..ce58f06 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -502,7 +502,8 @@ private:
 
   void save(int ch, ScanHandler& h)
   {
-    if (outputBuffer_.size() >= outputBuffer_.capacity() - 20) 
+    const bool continuation = (ch & 0xC0) == 0x80;  // in the middle of a UTF-8 sequence
+    if (!continuation && outputBuffer_.size() >= outputBuffer_.capacity() - 20) 
     {
       if (state_ == S_PCDATA || state_ == S_CDATA) 
       {
-- 
2.43.0


From 28d699dfb934743fd56e9b7b12834cff5cd3b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 097/106] fix: the HTML parser ignored doctypes not written in
 capitals

---
 include/Taggle/impl/Parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 39228c6..7354853 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -862,7 +862,7 @@ private:
     std::string systemid;
     std::string publicid;
     std::vector<std::string> v = split(buff);
-    if((v.size() > 0) && ("DOCTYPE" == v[0])) 
+    if((v.size() > 0) && ("doctype" == lower_case(v[0]))) 
     {
       if(doctypeIsPresent_ || !virginStack) 
         return;    // one doctype only, and before the root element
@@ -870,11 +870,11 @@ private:
       if(v.size() > 1) 
       {
         name = v[1];
-        if(v.size()>3 && "SYSTEM" == v[2]) 
+        if(v.size()>3 && "system" == lower_case(v[2])) 
         {
           systemid = v[3];
         }
-        else if(v.size() > 3 && "PUBLIC" == v[2]) 
+        else if(v.size() > 3 && "public" == lower_case(v[2])) 
         {
           publicid = v[3];
           if(v.size() > 4) 
-- 
2.43.0


From e711abb7d48ed70cb26f3921b300fb557917a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:06 +0000
Subject: [PATCH 098/106] fix: the HTML parser dropped attributes with empty
 values

---
 include/Taggle/impl/Element.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Element.hpp b/include/Taggle/impl/Element.hpp
index 7b28ec6..1fcfc82 100755
--- a/include/Taggle/impl/Element.hpp
+++ b/include/Taggle/impl/Element.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 
 #include <string>
+#include <set>
 #include <SAX/helpers/AttributesImpl.hpp>
 #include "ElementType.hpp"
 
@@ -168,6 +169,7 @@ class Element_impl
 private:
   ElementType* type_;		// type of element
   AttributesImpl<std::string> atts_;		// attributes of element
+  std::set<std::string> specified_;		// names of the attributes which were written
   Element next_;		// successor of element
   bool preclosed_;		// this element has been preclosed
   int refCount_;
@@ -181,6 +183,7 @@ public:
   Element_impl(ElementType& type, bool defaultAttributes) :
     type_(&type),
     atts_(),
+    specified_(),
     next_(),
     preclosed_(false),
     refCount_(1)
@@ -212,6 +215,7 @@ public:
   void setAttribute(const std::string& name, const std::string& type, const std::string& value) 
   {
     type_->setAttribute(atts_, name, type, value);
+    specified_.insert(name);
   } // setAttribute
   
   void anonymize() 
@@ -228,7 +232,8 @@ public:
     for (int i = atts_.getLength() - 1; i >= 0; i--) 
     {
       const std::string& name = atts_.getLocalName(i);
-      if (atts_.getValue(i) == "" || name == "" || name.length() == 0) 
+      bool written = specified_.find(atts_.getQName(i)) != specified_.end();
+      if ((atts_.getValue(i) == "" && !written) || name == "" || name.length() == 0) 
       {
 	atts_.removeAttribute(i);
 	continue;
-- 
2.43.0


From 3fca39ffbad4b964ace50cdcadaafffef32d6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 099/106] fix: the HTML parser reported mappings for the xml
 prefix

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 7354853..6f238ab 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -840,7 +840,7 @@ private:
   // Return true if we have a foreign name
   bool foreign(std::string prefix, std::string namespaceName) 
   {
-    bool foreign = !((prefix == "") || (namespaceName == "") || (namespaceName == schema_->getURI()));
+    bool foreign = !((prefix == "") || (prefix == "xml") || (namespaceName == "") || (namespaceName == schema_->getURI()));
     return foreign;
   } // foreign
 
-- 
2.43.0


From 017a201af3dc95bdc29f1064ab0379cb5873a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:51 +0000
Subject: [PATCH 100/106] fix: the HTML parser took the slash of an empty tag
 after a minimised attribute for another attribute

---
 include/Taggle/impl/html/HTMLScanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index ce58f06..df25526 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -617,6 +617,7 @@ const int HTMLScanner::statetable[] = {
     S_EMPTYTAG, '\t', A_SKIP, S_TAGWS,
     S_ENT, 0, A_ENTITY, S_ENT,
     S_ENT, -1, A_ENTITY, S_DONE,
+    S_EQ, '/', A_ADUP, S_EMPTYTAG,
     S_EQ, '=', A_SKIP, S_AVAL,
     S_EQ, '>', A_ADUP_STAGC, S_PCDATA,
     S_EQ, 0, A_ADUP_SAVE, S_ANAME,
-- 
2.43.0


From d815e106d83ff5b92a90559c4e25fe35b3629bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:33 +0000
Subject: [PATCH 101/106] fix: closing a socket stream dropped the output not
 yet flushed, or sent it to the next connection

---
 include/io/socket_stream.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 8cbb8e9..8e35a49 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -136,11 +136,7 @@ basic_socketbuf<charT, traitsT>::basic_socketbuf()
 template<class charT, class traitsT>
 basic_socketbuf<charT,traitsT>::~basic_socketbuf()
 {
-  if(is_open())
-  {
-    sync();
-    closeSocket(sock_);
-  } // if(is_open())
+  close();
 } // ~basic_socketbuf
 
 template<class charT, class traitsT>
@@ -198,13 +194,15 @@ basic_socketbuf<charT, traitsT>* basic_socketbuf<charT, traitsT>::close()
   if(!is_open())
     return 0;
 
-  if(closeSocket(sock_) == SOCKET_ERROR)
-    return 0;
+  const bool flushed = (sync() == 0);
+  const bool closed = (closeSocket(sock_) != SOCKET_ERROR);
 
   sock_ = INVALID_SOCKET;
   setg(0,0,0);
+  std::vector<charT>().swap(outBuffer_);
+  setp(0,0);
 
-  return this;
+  return (flushed && closed) ? this : 0;
 } // close;
 
 template<class charT, class traitsT>
@@ -268,6 +266,9 @@ void basic_socketbuf<charT, traitsT>::growOutBuffer()
 template<class charT, class traitsT>
 bool basic_socketbuf<charT, traitsT>::writeSocket()
 {
+  if(outBuffer_.empty())
+    return true;
+
   // write to the socket
   charT* from_next = &(outBuffer_[0]);
   size_t length = pptr() - from_next;
-- 
2.43.0


From 09244098883f9b9c7bf08b138d29bdcbeb82e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 102/106] fix: socket streams lost output on a short send, gave
 up when interrupted, and raised SIGPIPE

---
 include/io/socket_stream.hpp | 42 ++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 8e35a49..7d40fd2 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -29,6 +29,9 @@
 #include <cstdlib>
 #include <cstdint>
 #include <cstring>
+#ifndef USE_WINSOCK
+#include <cerrno>
+#endif
 
 #ifndef INADDR_NONE
 #  define INADDR_NONE             ((in_addr_t) -1)
@@ -95,6 +98,8 @@ class basic_socketbuf : public std::basic_streambuf<charT, traitsT>
     void growInBuffer();
     int readSocket();
     int closeSocket(socket_type sock) const;
+    static int sendFlags();
+    static bool interrupted();
 
     static const size_t bufferSize_;
     static const size_t pbSize_;
@@ -275,14 +280,41 @@ bool basic_socketbuf<charT, traitsT>::writeSocket()
   if(!length)
     return true;
 
-  bool ok = (send(sock_, from_next, static_cast<int>(length), 0) != SOCKET_ERROR);
+  // send may take only a part of what it's given
+  for(size_t sent = 0; sent != length; )
+  {
+    int res = static_cast<int>(send(sock_, from_next + sent, static_cast<int>(length - sent), sendFlags()));
+    if(res != SOCKET_ERROR)
+      sent += res;
+    else if(!interrupted())
+      return false;
+  } // for ...
 
-  if(ok)
-    setp(from_next, from_next + outBuffer_.capacity());
+  setp(from_next, from_next + outBuffer_.capacity());
 
-  return ok;
+  return true;
 } // writeSocket
 
+template<class charT, class traitsT>
+int basic_socketbuf<charT, traitsT>::sendFlags()
+{
+#ifdef MSG_NOSIGNAL
+  return MSG_NOSIGNAL; // a lost connection is an error, not a reason to kill the program
+#else
+  return 0;
+#endif
+} // sendFlags
+
+template<class charT, class traitsT>
+bool basic_socketbuf<charT, traitsT>::interrupted()
+{
+#ifdef USE_WINSOCK
+  return false;
+#else
+  return errno == EINTR;
+#endif
+} // interrupted
+
 template<class charT, class traitsT>
 void basic_socketbuf<charT, traitsT>::growInBuffer()
 {
@@ -320,6 +352,8 @@ int basic_socketbuf<charT, traitsT>::readSocket()
       return readSocket();
     } // if(GetLastError() != WSAEMSGSIZE)
 #endif 
+    if(interrupted())
+      return readSocket();
 
     // unclever error handling
     close();
-- 
2.43.0


From b6db49c11af19053bf2af4b83b9f748a75045e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 103/106] fix: the http resolver hung on long or cut off
 headers, and sent malformed requests

---
 src/SAX/helpers/InputSourceResolver.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index ce6266a..1674a27 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -9,6 +9,7 @@
 #include <SAX/helpers/InputSourceResolver.hpp>
 #include <istream>
 #include <fstream>
+#include <string>
 #include <io/socket_stream.hpp>
 #include <io/uri.hpp>
 #include <cmath>
@@ -125,18 +126,28 @@ namespace
 
     Arabica::io::socketstream* ifs = new Arabica::io::socketstream(url.host().c_str(), std::atoi(url.port().c_str()));
     if(!ifs->is_open())
+    {
+      delete ifs;
       return 0;
-    *ifs << "GET " << url.path() << " HTTP/1.0" << std::endl;
-    *ifs << "Host: " << url.host() << std::endl;
-    *ifs << "Connection: close" << std::endl;
-    *ifs << std::endl;
+    } // if ...
+
+    // the fragment isn't part of the request, and the path can't be empty
+    std::string path = url.path().substr(0, url.path().find('#'));
+    if(path.empty() || (path[0] != '/'))
+      path.insert(0, "/");
+
+    *ifs << "GET " << path << " HTTP/1.0\r\n";
+    *ifs << "Host: " << url.host() << "\r\n";
+    *ifs << "Connection: close\r\n\r\n";
+    ifs->flush();
 
-    char buffer[1024];
+    // skip the headers, however long they are
+    std::string header;
     do
     {
-      ifs->getline(buffer, sizeof(buffer));
+      std::getline(*ifs, header);
     }
-    while(buffer[0] != '\r');
+    while(*ifs && !header.empty() && (header != "\r"));
 
     return ifs;
   } // httpResolver
-- 
2.43.0


From 57774c1c1a2f81897c8c7598fd1aa0c4a9c3247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 104/106] fix: the put back area of a socket stream was copied
 between overlapping buffers

---
 include/io/socket_stream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 7d40fd2..5990fa1 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -331,9 +331,9 @@ int basic_socketbuf<charT, traitsT>::readSocket()
 
   size_t pbCount = std::min<size_t>(gptr() - eback(), pbSize_);
 
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT), 
-         gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  memmove(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT), 
+          gptr() - pbCount*sizeof(charT),
+          pbCount*sizeof(charT));
 
   int res = recv(sock_, &(inBuffer_[0]) + pbSize_, static_cast<int>(inBuffer_.capacity() - pbSize_), 0);
   if(res == 0)
-- 
2.43.0


From 1baab748e3dc864617853730441b74cb906897db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:19 +0000
Subject: [PATCH 105/106] fix: an entity whose text isn't well-formed crashed
 building the DOM, even when not used

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 765e489..262a431 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -412,6 +412,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       parser.parse(is);       
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
+      if(entityDoc == 0) // not well-formed, which only matters if it's used
+        return;
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
       DOM::Node<stringT, string_adaptorT> child = entityElem.getFirstChild();
       while(child != 0)
-- 
2.43.0


From 614629430a56a7c623c714e7f1f8b3331b35f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:29 +0000
Subject: [PATCH 106/106] fix: evaluating an unbound variable with no resolver
 given dereferenced a null pointer

---
 include/XPath/impl/xpath_execution_context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 47c25c7..f456661 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -18,6 +18,8 @@ public:
       position_(-1), 
       last_(-1)
   { 
+    static const NullVariableResolver<string_type, string_adaptor> noVariables = NullVariableResolver<string_type, string_adaptor>();
+    variableResolver_.set(noVariables);
   } // ExecutionContext
 
   ExecutionContext(size_t last, const ExecutionContext<string_type, string_adaptor>& parent) : 
-- 
2.43.0

