// C20: XML written by the system reads back as the same document.
// A random tree is built twice, in the library and in a model; every way of writing it is read back by
// the library and by an independent reader; text laid out by an independent writer is read by the
// library; broken text has to be reported.
#include "harness.hh"
#include "tinyxml.h"
#include "XMLUtils.hh"
#include <memory>
#include <sstream>
using namespace EUROPA;

struct N {
  char kind = 'e';  // d(ocument) D(eclaration) e(lement) t(ext) c(omment)
  std::string val;  // name, text
  std::vector<std::pair<std::string, std::string>> at;
  std::vector<std::shared_ptr<N>> ch;
};
typedef std::shared_ptr<N> NP;

static std::string vis(const std::string& s) {
  std::string o;
  for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; }
  return o;
}
static std::string str(const N& n) {
  std::string o(1, n.kind);
  o += "'" + vis(n.val) + "'";
  for (auto& a : n.at) o += " " + vis(a.first) + "=[" + vis(a.second) + "]";
  if (!n.ch.empty()) { o += " {"; for (auto& c : n.ch) o += str(*c) + ","; o += "}"; }
  return o;
}
// what may follow from the documented condensing of blanks: nothing but one space between words
static std::string condense(const std::string& s) {
  std::string o; bool w = false;
  for (unsigned char c : s) { if (c == ' ' || c == '\n' || c == '\t' || c == '\r') w = true; else { if (w && !o.empty()) o += ' '; w = false; o += c; } }
  return o;
}

// ---- library tree -> model
static NP read(TiXmlNode* t, std::string& bad) {
  NP n = std::make_shared<N>();
  if (t->ToDocument()) n->kind = 'd';
  else if (t->ToDeclaration()) {
    n->kind = 'D'; TiXmlDeclaration* d = t->ToDeclaration();
    n->at.push_back({"version", d->Version()}); n->at.push_back({"encoding", d->Encoding()}); n->at.push_back({"standalone", d->Standalone()});
    return n;
  }
  else if (t->ToElement()) {
    n->kind = 'e'; n->val = t->Value();
    TiXmlElement* e = t->ToElement();
    for (TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) {
      n->at.push_back({a->Name(), a->Value()});
      const char* v = e->Attribute(a->Name());
      if (!v || std::string(v) != a->Value()) bad = "attribute lookup differs for " + std::string(a->Name());
    }
    std::vector<std::pair<std::string, std::string>> back;
    for (TiXmlAttribute* a = e->LastAttribute(); a; a = a->Previous()) back.insert(back.begin(), {a->Name(), a->Value()});
    if (back != n->at) bad = "attributes read backwards differ";
  }
  else if (t->ToText()) n->kind = 't', n->val = t->Value();
  else if (t->ToComment()) n->kind = 'c', n->val = t->Value();
  else n->kind = '?', n->val = t->Value();
  TiXmlNode* prev = 0;
  for (TiXmlNode* c = t->FirstChild(); c; c = c->NextSibling()) {
    if (c->Parent() != t) bad = "wrong parent link";
    if (c->PreviousSibling() != prev) bad = "wrong previous link";
    n->ch.push_back(read(c, bad)); prev = c;
  }
  if (t->LastChild() != prev) bad = "wrong last child";
  return n;
}

// ---- independent reader (throws on ill-formed text)
struct Reader {
  const std::string& s; size_t i = 0; bool streamed;
  Reader(const std::string& x) : s(x) {}
  [[noreturn]] void die(const std::string& m) { throw m + " at " + std::to_string(i); }
  bool at(const char* t) { return s.compare(i, strlen(t), t) == 0; }
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
  std::string name() {
    size_t b = i;
    if (i >= s.size() || !(isalpha((unsigned char)s[i]) || s[i] == '_')) die("no name");
    while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_-.:", s[i]))) ++i;
    return s.substr(b, i - b);
  }
  std::string ref() {  // at '&'
    size_t e = s.find(';', i);
    if (e == std::string::npos || e - i > 80) die("bare &");
    std::string r = s.substr(i + 1, e - i - 1); i = e + 1;
    if (r == "amp") return "&"; if (r == "lt") return "<"; if (r == "gt") return ">"; if (r == "quot") return "\""; if (r == "apos") return "'";
    if (r.size() > 2 && r[0] == '#' && r[1] == 'x') {
      char* q; long v = strtol(r.c_str() + 2, &q, 16);
      if (*q || v <= 0) die("bad reference " + r);
      if (r.size() > 4) return "&" + r + ";";  // longer references are kept as they are
      return std::string(1, (char)v);
    }
    die("unknown entity " + r);
  }
  // text: blanks written as such are condensed, those written as references are kept
  NP text() {
    NP n = std::make_shared<N>(); n->kind = 't'; bool w = false;
    while (i < s.size() && s[i] != '<') {
      if (s[i] == '&') { if (w && !n->val.empty()) n->val += ' '; w = false; n->val += ref(); }
      else if (isspace((unsigned char)s[i])) { w = true; ++i; }
      else { if (w && !n->val.empty()) n->val += ' '; w = false; n->val += s[i++]; }
    }
    return n;
  }
  NP comment() {
    NP n = std::make_shared<N>(); n->kind = 'c'; i += 4;
    size_t e = s.find("-->", i); if (e == std::string::npos) die("open comment");
    n->val = s.substr(i, e - i); i = e + 3; return n;
  }
  NP decl() {
    NP n = std::make_shared<N>(); n->kind = 'D'; i += 5;
    std::map<std::string, std::string> m;
    for (;;) {
      ws(); if (at("?>")) { i += 2; break; }
      std::string k = name(); m[k] = value();
    }
    n->at = {{"version", m["version"]}, {"encoding", m["encoding"]}, {"standalone", m["standalone"]}};
    return n;
  }
  std::string value() {
    ws(); if (s[i] != '=') die("no ="); ++i; ws();
    char q = s[i]; if (q != '"' && q != '\'') die("no quote"); ++i;
    std::string v;
    while (i < s.size() && s[i] != q) { if (s[i] == '<') die("< in attribute"); if (s[i] == '&') v += ref(); else v += s[i++]; }
    if (i >= s.size()) die("open value"); ++i;
    return v;
  }
  NP element() {
    NP n = std::make_shared<N>(); ++i; n->val = name(); std::set<std::string> names;
    for (;;) {
      size_t b = i; ws();
      if (at("/>")) { i += 2; return n; }
      if (at(">")) { ++i; break; }
      if (i == b) die("no blank before attribute");
      std::string k = name(); std::string v = value();
      if (!names.insert(k).second) die("twice " + k);
      n->at.push_back({k, v});
    }
    for (;;) {
      if (i >= s.size()) die("open element " + n->val);
      if (at("</")) { i += 2; std::string e = name(); ws(); if (e != n->val || s[i] != '>') die("end tag " + e + " for " + n->val); ++i; return n; }
      if (at("<!--")) n->ch.push_back(comment());
      else if (s[i] == '<') n->ch.push_back(element());
      else { NP t = text(); bool blank = true; for (unsigned char c : t->val) if (!isspace(c)) blank = false; if (!blank) n->ch.push_back(t); }
    }
  }
  NP doc(bool all) {
    NP n = std::make_shared<N>(); n->kind = 'd'; ws(); bool root = false;
    if (at("<?xml")) n->ch.push_back(decl());
    for (;;) {
      ws(); if (i >= s.size()) break;
      if (at("<!--")) n->ch.push_back(comment());
      else if (s[i] == '<') { if (root) die("two roots"); root = true; n->ch.push_back(element()); if (!all) break; }
      else die("text outside the root");
    }
    if (!root) die("no root");
    return n;
  }
};

// ---- generation
static const char* NAMES[] = {"a", "b", "Token", "plan-x", "_u", "ns:el", "x.y", "A", "variable", "xmlfoo", "T0"};
static std::string gname(H::Rng& r) { return NAMES[r.below(sizeof NAMES / sizeof *NAMES)]; }
static std::string gtext(H::Rng& r, bool attr) {
  static const char* bits[] = {"&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#x41;", "&#x", "&#x;", "&#65;", "&#xA9", "&#x20AC;", "#x41;", ";", "]]>", "<!--", "-->", "<b>", "</a>", "/>", "?>", "=", "\\", "%s", "%d%n", "&&", "&#"};
  std::string s; int n = (int)r.range(attr ? 0 : 1, 8);
  for (int i = 0; i < n; ++i) {
    switch (r.below(6)) {
      case 0: s += bits[r.below(sizeof bits / sizeof *bits)]; break;
      case 1: s += (char)r.range(33, 126); break;
      case 2: { char c = (char)r.range(128, 255); s += c; break; }
      case 3: { char c = (char)r.range(1, 31); s += c; break; }
      case 4: if (attr || (!s.empty() && s.back() != ' ')) s += ' '; break;
      default: s += std::string(r.range(1, 5), (char)r.range('a', 'z'));
    }
  }
  // the library takes a short hexadecimal reference in a text for the character it stands for
  for (size_t p = 0; (p = s.find("&#x", p)) != std::string::npos; ++p) {
    size_t q = p + 3; while (q < s.size() && isxdigit((unsigned char)s[q])) ++q;
    if (q > p + 3 && q < p + 6 && q < s.size() && s[q] == ';') s[q] = ':';
    if (q == p + 3 || q == p + 4) { for (size_t k = p + 3; k < s.size() && k < p + 7; ++k) if (s[k] == ';') s[k] = ':'; }
  }
  if (!attr) {  // a text node of blanks, or with blanks at its ends, is documented not to survive
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    size_t b = 0; while (b < s.size() && isspace((unsigned char)s[b])) ++b;
    s.erase(0, b);
    if (s.empty()) s = "x";
  }
  return s;
}
static std::string gcomment(H::Rng& r) {
  std::string s = gtext(r, true);
  size_t p; while ((p = s.find("--")) != std::string::npos) s.replace(p, 2, "-+");
  if (!s.empty() && s.back() == '-') s += "."; if (!s.empty() && (s[0] == '>' || s[0] == '-')) s = " " + s;
  return s;
}
static NP gen(H::Rng& r, int depth, int& budget) {
  NP n = std::make_shared<N>(); n->val = gname(r);
  int na = r.chance(60) ? (int)r.range(0, 4) : 0;
  for (int i = 0; i < na; ++i) {
    std::string k = gname(r); bool dup = false; for (auto& a : n->at) dup |= a.first == k;
    if (!dup) n->at.push_back({k, gtext(r, true)});
  }
  int nc = depth > 0 ? (int)r.range(0, 4) : 0;
  for (int i = 0; i < nc && budget > 0; ++i) {
    --budget;
    switch (r.below(5)) {
      case 0: if (n->ch.empty() || n->ch.back()->kind != 't') { NP t = std::make_shared<N>(); t->kind = 't'; t->val = gtext(r, false); n->ch.push_back(t); } break;
      case 1: { NP t = std::make_shared<N>(); t->kind = 'c'; t->val = gcomment(r); n->ch.push_back(t); break; }
      default: n->ch.push_back(gen(r, depth - 1, budget));
    }
  }
  return n;
}
static TiXmlNode* make(const N& n) {
  if (n.kind == 't') return new TiXmlText(n.val.c_str());
  if (n.kind == 'c') { TiXmlComment* c = new TiXmlComment(); c->SetValue(n.val.c_str()); return c; }
  if (n.kind == 'D') return new TiXmlDeclaration(n.at[0].second.c_str(), n.at[1].second.c_str(), n.at[2].second.c_str());
  TiXmlElement* e = new TiXmlElement(n.val.c_str());
  for (auto& a : n.at) e->SetAttribute(a.first.c_str(), a.second.c_str());
  for (auto& c : n.ch) e->LinkEndChild(make(*c));
  return e;
}

// ---- independent writer with free layout
static std::string wtext(H::Rng& r, const std::string& s, char quote) {
  std::string o;
  for (unsigned char c : s) {
    bool must = c == '&' || c == '<' || (quote && c == (unsigned char)quote) || c < 32 || (!quote && c == ']');
    char b[12];
    if (must || r.chance(8)) {
      int how = (int)r.below(3);
      const char* nm = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : 0;
      if (nm && how) o += nm;
      else if (!quote && c == ' ') o += ' ';
      else { snprintf(b, sizeof b, r.chance(50) ? "&#x%X;" : r.chance(50) ? "&#x%02x;" : "&#x%02X;", c); o += b; }
    } else o += (char)c;
  }
  return o;
}
static std::string sp(H::Rng& r, int least) { std::string s; int n = (int)r.range(least, least + 2); for (int i = 0; i < n; ++i) s += " \n\t "[r.below(4)]; return r.chance(70) ? std::string(least, ' ') : s; }
static std::string write(H::Rng& r, const N& n) {
  if (n.kind == 't') return sp(r, 0) + wtext(r, n.val, 0) + sp(r, 0);
  if (n.kind == 'c') return "<!--" + n.val + "-->";
  std::string o;
  if (n.kind == 'd') { for (auto& c : n.ch) o += write(r, *c) + sp(r, 0); return o; }
  if (n.kind == 'D') {
    o = "<?xml"; for (auto& a : n.at) if (!a.second.empty()) o += sp(r, 1) + a.first + "=\"" + a.second + "\"";
    return o + sp(r, 0) + "?>";
  }
  o = "<" + n.val;
  for (auto& a : n.at) { char q = r.chance(50) ? '"' : '\''; o += sp(r, 1) + a.first + sp(r, 0) + "=" + sp(r, 0) + q + wtext(r, a.second, q) + q; }
  if (n.ch.empty() && r.chance(70)) return o + sp(r, 0) + "/>";
  o += sp(r, 0) + ">";
  for (auto& c : n.ch) o += (c->kind != 't' ? sp(r, 0) : "") + write(r, *c);
  return o + (r.chance(50) ? sp(r, 0) : "") + "</" + n.val + (r.chance(20) ? sp(r, 0) : "") + ">";
}

static bool parse(const std::string& text, TiXmlDocument& d) { d.Parse(text.c_str()); return !d.Error(); }
static void same(H::Ctx& c, const N& want, const N& got, const std::string& key, const std::string& text) {
  std::string a = str(want), b = str(got);
  if (a != b) c.fail(key, "want " + a + "\ngot  " + b + "\ntext " + vis(text));
}

// random edits of an element through the interface, mirrored in the model
static void edit(H::Ctx& c, N& m, TiXmlElement* e) {
  H::Rng& r = c.rng;
  int n = (int)r.range(0, 5);
  for (int k = 0; k < n; ++k) {
    size_t sz = m.ch.size(); int bud = 3;
    auto nth = [&](size_t i) { TiXmlNode* x = e->FirstChild(); while (i--) x = x->NextSibling(); return x; };
    auto fresh = [&]() { return gen(r, 1, bud); };
    switch (r.below(8)) {
      case 0: { std::string a = gname(r), v = gtext(r, true); e->SetAttribute(a.c_str(), v.c_str());
                bool f = false; for (auto& x : m.at) if (x.first == a) x.second = v, f = true; if (!f) m.at.push_back({a, v}); break; }
      case 1: { std::string a = gname(r); e->RemoveAttribute(a.c_str());
                for (size_t i = 0; i < m.at.size(); ++i) if (m.at[i].first == a) { m.at.erase(m.at.begin() + i); break; } break; }
      case 2: { int v = (int)r.range(-2000000000L, 2000000000L); std::string a = gname(r); e->SetAttribute(a.c_str(), v); int q = 0;
                if (e->QueryIntAttribute(a.c_str(), &q) != TIXML_SUCCESS || q != v) c.fail("int-attribute", std::to_string(v) + " reads as " + std::to_string(q));
                std::string s = std::to_string(v); bool f = false; for (auto& x : m.at) if (x.first == a) x.second = s, f = true; if (!f) m.at.push_back({a, s}); break; }
      case 3: if (sz) { size_t i = r.below(sz); NP f = fresh(); std::unique_ptr<TiXmlNode> t(make(*f)); e->InsertBeforeChild(nth(i), *t); m.ch.insert(m.ch.begin() + i, f); } break;
      case 4: if (sz) { size_t i = r.below(sz); NP f = fresh(); std::unique_ptr<TiXmlNode> t(make(*f)); e->InsertAfterChild(nth(i), *t); m.ch.insert(m.ch.begin() + i + 1, f); } break;
      case 5: if (sz) { size_t i = r.below(sz); NP f = fresh(); std::unique_ptr<TiXmlNode> t(make(*f)); e->ReplaceChild(nth(i), *t); m.ch[i] = f; } break;
      case 6: if (sz) { size_t i = r.below(sz);
                bool tt = i > 0 && i + 1 < sz && m.ch[i - 1]->kind == 't' && m.ch[i + 1]->kind == 't';  // would leave two texts side by side
                if (!tt) { e->RemoveChild(nth(i)); m.ch.erase(m.ch.begin() + i); } } break;
      case 7: { NP f = fresh(); std::unique_ptr<TiXmlNode> t(make(*f)); e->InsertEndChild(*t); m.ch.push_back(f); break; }
    }
    c.count("edits");
  }
}

static void rejected(H::Ctx& c, const std::string& text, const std::string& what) {
  try { Reader rd(text); rd.doc(true); return; } catch (std::string& m) { if (m.compare(0, 7, "no root") == 0 && !text.empty()) return; }
  c.count("malformed"); c.count("malformed/" + what);
  // exactly sized heap copy: reading past the end is seen by the sanitizer
  std::unique_ptr<char[]> p(new char[text.size() + 1]); memcpy(p.get(), text.c_str(), text.size() + 1);
  TiXmlDocument d; d.Parse(p.get());
  if (!d.Error()) { std::string bad; c.fail("accepted/" + what, vis(text) + "\nread as " + str(*read(&d, bad))); }
}

static void run(H::Ctx& c) {
  H::Rng& r = c.rng;
  int budget = (int)r.range(1, c.thorough ? 60 : 25);
  NP doc = std::make_shared<N>(); doc->kind = 'd';
  if (r.chance(30)) { NP d = std::make_shared<N>(); d->kind = 'D'; d->at = {{"version", "1.0"}, {"encoding", r.chance(50) ? "UTF-8" : ""}, {"standalone", r.chance(50) ? "yes" : ""}}; doc->ch.push_back(d); }
  if (r.chance(20)) { NP t = std::make_shared<N>(); t->kind = 'c'; t->val = gcomment(r); doc->ch.push_back(t); }
  NP root = gen(r, (int)r.range(0, 5), budget);
  doc->ch.push_back(root);
  std::string bad;
  if (r.chance(60)) {  // built through the interface
    TiXmlDocument d;
    for (auto& n : doc->ch) d.LinkEndChild(make(*n));
    edit(c, *root, d.RootElement());
    c.trace << "built " << str(*doc);
    same(c, *doc, *read(&d, bad), "built-tree", "");
    c.seen(str(*doc));
    std::ostringstream os; os << d;
    std::string streamed = os.str();
    char* mem = 0; size_t len = 0; FILE* f = open_memstream(&mem, &len); d.Print(f, 0); fclose(f);
    std::string printed(mem, len); free(mem);
    std::string app; app << d;
    if (app != streamed) c.fail("string-stream", vis(app) + " vs " + vis(streamed));
    for (auto* t : {&streamed, &printed}) {
      std::string how = t == &streamed ? "streamed" : "printed";
      TiXmlDocument e; c.count(how);
      if (!parse(*t, e)) { c.fail(how + "-unreadable", std::string(e.ErrorDesc()) + "\n" + vis(*t)); continue; }
      same(c, *doc, *read(&e, bad), how + "-read", *t);
      try { Reader rd(*t); NP o = rd.doc(true); same(c, *doc, *o, how + "-ill-written", *t); }
      catch (std::string& m) { c.fail(how + "-ill-formed", m + "\n" + vis(*t)); }
      std::ostringstream o2; o2 << e;
      if (o2.str() != streamed) c.fail(how + "-rewritten", vis(o2.str()) + " vs " + vis(streamed));
    }
    if (r.chance(20)) {  // through a file
      char fn[] = "xmlXXXXXX"; int fd = mkstemp(fn); close(fd);
      if (!d.SaveFile(fn)) c.fail("save", fn);
      TiXmlDocument e(fn);
      if (!e.LoadFile()) c.fail("load", e.ErrorDesc()); else { same(c, *doc, *read(&e, bad), "file-read", printed); c.count("files"); }
      unlink(fn);
    }
    if (r.chance(30)) { std::ostringstream o3; o3 << *d.RootElement(); std::string s = o3.str();
      TiXmlElement* e = 0; try { e = initXml(s); } catch (Error& x) { c.fail("initXml-unreadable", x.getMsg() + vis(s)); }
      if (e) same(c, *root, *read(e, bad), "initXml-read", s); delete e;
      std::istringstream in(s); TiXmlElement g(""); in >> g; same(c, *root, *read(&g, bad), "istream-read", s); c.count("istreams"); }
    if (r.chance(30)) { std::unique_ptr<TiXmlNode> k(d.RootElement()->Clone()); same(c, *root, *read(k.get(), bad), "clone", ""); }
  } else {  // laid out freely
    std::string t = write(r, *doc);
    if (r.chance(20)) t += "<!-- end -->" + sp(r, 0), doc->ch.push_back(std::make_shared<N>()), doc->ch.back()->kind = 'c', doc->ch.back()->val = " end ";
    c.trace << "text " << vis(t); c.seen(t); c.count("laid_out");
    try { Reader rd(t); same(c, *doc, *rd.doc(true), "HARNESS", t); } catch (std::string& m) { c.fail("HARNESS", m + vis(t)); }
    TiXmlDocument d;
    if (!parse(t, d)) c.fail("well-formed-rejected", std::string(d.ErrorDesc()) + "\n" + vis(t));
    else {
      NP got = read(&d, bad); same(c, *doc, *got, "text-read", t);
      std::ostringstream os; os << d; TiXmlDocument e;
      if (!parse(os.str(), e)) c.fail("rewritten-unreadable", vis(os.str()));
      else { NP g2 = read(&e, bad); while (got->ch.size() && got->ch.back()->kind != 'e') got->ch.pop_back(); same(c, *got, *g2, "rewritten-read", os.str()); }
    }
  }
  if (!bad.empty()) c.fail("links", bad);
  if (r.chance(50)) {  // broken text
    N rt = *doc; while (rt.ch.back()->kind != 'e') rt.ch.pop_back();
    std::string t = write(r, rt); while (isspace((unsigned char)t.back())) t.pop_back();
    size_t at;
    switch (r.below(6)) {
      case 0: { at = r.below(t.size()); std::string cut = t.substr(0, at);
                rejected(c, cut, "truncated"); break; }
      case 1: { at = t.rfind("</"); if (at != std::string::npos) { t.insert(at + 2, "z"); rejected(c, t, "end-tag"); } break; }
      case 2: { at = t.rfind("</"); if (at != std::string::npos) { char& x = t[at + 2]; if (isalpha((unsigned char)x)) { x ^= 32; rejected(c, t, "end-tag-case"); } } break; }
      case 3: { NP q = std::make_shared<N>(*root); q->at.push_back({"dup", "1"}); q->at.push_back({"dup", "2"}); N w; w.kind = 'd'; w.ch = {q}; rejected(c, write(r, w), "attribute-twice"); break; }
      case 4: rejected(c, t + sp(r, 0) + "rest", "text-after-root"); break;
      case 5: rejected(c, (r.chance(50) ? "junk " : "junk") + t, "text-before-root"); break;
    }
  }
}

static H::Suite suite{"xml", 0, run};
HARNESS_MAIN(suite)
