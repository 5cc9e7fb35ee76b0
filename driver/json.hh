// Minimal JSON reader / writer used by the conformance drivers.
#ifndef VERIF_JSON_HH
#define VERIF_JSON_HH
#include <cstdio>
#include <cstdlib>
#include <map>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
struct JV {
  enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
  long i = 0;
  std::string s;
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;
  JV() {}
  JV(bool b) : k(BOOL), i(b) {}
  JV(int v) : k(INT), i(v) {}
  JV(long v) : k(INT), i(v) {}
  JV(size_t v) : k(INT), i((long)v) {}
  JV(const char *c) : k(STR), s(c) {}
  JV(std::string const &c) : k(STR), s(c) {}
  static JV arr() { JV j; j.k = ARR; return j; }
  static JV obj() { JV j; j.k = OBJ; return j; }
  JV &push(JV const &v) { k = ARR; a.push_back(v); return a.back(); }
  JV &set(std::string const &n, JV const &v) {
    k = OBJ;
    for (auto &p : o) if (p.first == n) { p.second = v; return p.second; }
    o.emplace_back(n, v);
    return o.back().second;
  }
  bool has(std::string const &n) const {
    for (auto &p : o) if (p.first == n) return true;
    return false;
  }
  JV const &operator[](std::string const &n) const {
    static JV nul;
    for (auto &p : o) if (p.first == n) return p.second;
    return nul;
  }
  JV const &at(size_t n) const { return a.at(n); }
  size_t size() const { return k == ARR ? a.size() : o.size(); }
  std::vector<std::string> strs() const {
    std::vector<std::string> r;
    for (auto &v : a) r.push_back(v.s);
    return r;
  }
  void dump(std::string &out) const {
    switch (k) {
    case NUL: out += "null"; break;
    case BOOL: out += i ? "true" : "false"; break;
    case INT: out += std::to_string(i); break;
    case STR: esc(s, out); break;
    case ARR: {
      out += '[';
      bool f = true;
      for (auto &v : a) { if (!f) out += ','; f = false; v.dump(out); }
      out += ']';
      break;
    }
    case OBJ: {
      out += '{';
      bool f = true;
      for (auto &p : o) { if (!f) out += ','; f = false; esc(p.first, out); out += ':'; p.second.dump(out); }
      out += '}';
      break;
    }
    }
  }
  std::string str() const { std::string r; dump(r); return r; }
  static void esc(std::string const &s, std::string &out) {
    out += '"';
    for (unsigned char c : s) {
      if (c == '"') out += "\\\"";
      else if (c == '\\') out += "\\\\";
      else if (c == '\n') out += "\\n";
      else if (c == '\t') out += "\\t";
      else if (c == '\r') out += "\\r";
      else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
      else out += (char)c;
    }
    out += '"';
  }
  static JV parse(std::string const &t) { size_t p = 0; return pv(t, p); }
private:
  static void ws(std::string const &t, size_t &p) { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
  static std::string ps(std::string const &t, size_t &p) {
    std::string r;
    ++p;
    while (p < t.size() && t[p] != '"') {
      if (t[p] == '\\') {
        ++p;
        switch (t[p]) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'u': r += (char)std::strtol(t.substr(p + 1, 4).c_str(), nullptr, 16); p += 4; break;
        default: r += t[p];
        }
        ++p;
      } else r += t[p++];
    }
    ++p;
    return r;
  }
  static JV pv(std::string const &t, size_t &p) {
    ws(t, p);
    if (p >= t.size()) return JV();
    char c = t[p];
    if (c == '{') {
      JV j = obj(); ++p; ws(t, p);
      while (t[p] != '}') {
        ws(t, p);
        std::string n = ps(t, p);
        ws(t, p); ++p; // ':'
        j.o.emplace_back(n, pv(t, p));
        ws(t, p);
        if (t[p] == ',') ++p;
        ws(t, p);
      }
      ++p; return j;
    }
    if (c == '[') {
      JV j = arr(); ++p; ws(t, p);
      while (t[p] != ']') {
        j.a.push_back(pv(t, p));
        ws(t, p);
        if (t[p] == ',') ++p;
        ws(t, p);
      }
      ++p; return j;
    }
    if (c == '"') return JV(ps(t, p));
    if (c == 't') { p += 4; return JV(true); }
    if (c == 'f') { p += 5; return JV(false); }
    if (c == 'n') { p += 4; return JV(); }
    char *e; long v = std::strtol(t.c_str() + p, &e, 10);
    p = e - t.c_str();
    return JV(v);
  }
};
#endif
