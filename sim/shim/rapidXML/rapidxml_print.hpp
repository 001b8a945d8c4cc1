// Stand-in for rapidXML's printer (not shipped with boost): same interface, same layout rules.
#pragma once
#include "rapidxml.hpp"
#include <iterator>
#include <ostream>
namespace rapidxml {
const int print_no_indenting = 0x1;
namespace print_detail {
template <class O> O text(O o, const char *p, std::size_t n) { for (std::size_t i = 0; i < n; i++) *o++ = p[i]; return o; }
template <class O> O lit(O o, const char *p) { while (*p) *o++ = *p++; return o; }
template <class O> O escaped(O o, const char *p, std::size_t n, char except) {
  for (std::size_t i = 0; i < n; i++) {
    char c = p[i];
    if (c == except) *o++ = c; else if (c == '<') o = lit(o, "&lt;"); else if (c == '>') o = lit(o, "&gt;"); else if (c == '\'') o = lit(o, "&apos;"); else if (c == '"') o = lit(o, "&quot;"); else if (c == '&') o = lit(o, "&amp;"); else *o++ = c;
  }
  return o;
}
template <class O> O fill(O o, int n) { while (n-- > 0) *o++ = '\t'; return o; }
template <class O> O node(O o, const xml_node<> *nd, int flags, int indent) {
  switch (nd->type()) {
    case node_document: for (auto *c = nd->first_node(); c; c = c->next_sibling()) o = node(o, c, flags, indent); return o;
    case node_data: if (!(flags & print_no_indenting)) o = fill(o, indent); o = escaped(o, nd->value(), nd->value_size(), 0); break;
    case node_cdata: if (!(flags & print_no_indenting)) o = fill(o, indent); o = lit(o, "<![CDATA["); o = text(o, nd->value(), nd->value_size()); o = lit(o, "]]>"); break;
    case node_element: {
      if (!(flags & print_no_indenting)) o = fill(o, indent);
      *o++ = '<'; o = text(o, nd->name(), nd->name_size());
      for (auto *a = nd->first_attribute(); a; a = a->next_attribute()) {
        *o++ = ' '; o = text(o, a->name(), a->name_size()); *o++ = '=';
        char q = '"'; for (std::size_t i = 0; i < a->value_size(); i++) if (a->value()[i] == '"') q = '\'';
        *o++ = q; o = escaped(o, a->value(), a->value_size(), q == '"' ? '\'' : '"'); *o++ = q;
      }
      if (nd->value_size() == 0 && !nd->first_node()) { o = lit(o, "/>"); break; }
      *o++ = '>'; auto *c = nd->first_node();
      if (!c) o = escaped(o, nd->value(), nd->value_size(), 0);
      else if (!c->next_sibling() && c->type() == node_data) o = escaped(o, c->value(), c->value_size(), 0);
      else { if (!(flags & print_no_indenting)) *o++ = '\n'; for (; c; c = c->next_sibling()) o = node(o, c, flags, indent + 1); if (!(flags & print_no_indenting)) o = fill(o, indent); }
      o = lit(o, "</"); o = text(o, nd->name(), nd->name_size()); *o++ = '>'; break;
    }
    default: return o;
  }
  if (!(flags & print_no_indenting)) *o++ = '\n';
  return o;
}
} // namespace print_detail
template <class O> inline O print(O out, const xml_node<> &n, int flags = 0) { return print_detail::node(out, &n, flags, 0); }
inline std::ostream &print(std::ostream &out, const xml_node<> &n, int flags = 0) { print(std::ostream_iterator<char>(out), n, flags); return out; }
inline std::ostream &operator<<(std::ostream &out, const xml_node<> &n) { return print(out, n); }
} // namespace rapidxml
