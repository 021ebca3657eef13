#include "strx.hpp"
#include <Taggle/Taggle.hpp>
namespace strx {
template<class T, class A> Lines html(const Job& j)
{
  Run<T, A> run; Arabica::SAX::Taggle<T, A> r; typename Run<T, A>::Log l(run.out); l.html = true; r.setContentHandler(l); r.setLexicalHandler(l); run.parse(r, j.html); return run.out;
}
Lines run_html(const Job& j, bool wide) { return wide ? html<std::wstring, Arabica::default_string_adaptor<std::wstring> >(j) : html<S, Arabica::default_string_adaptor<S> >(j); }
}
