// Reference reader and printer for the expression grammar, written from the
// documented binding powers, independent of the library.
#pragma once
#include "rt_common.hpp"
#include <cctype>

namespace ref {
  struct ParseResult { bool ok = false, unspecified = false; NP ast; std::string err; };

  class RefParser {
    struct Err { std::string m; bool unspecified; };
    struct Tok { std::string t; char kind; }; // kind: n number, a alpha, o operator, e end
    std::vector<Tok> T; size_t p = 0; bool unspec = false; int depth = 0;
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool alp(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    void lex(const std::string &s) {
      size_t i = 0;
      while (true) {
        while (i < s.size() && s[i] == ' ') ++i;
        if (i == s.size()) break;
        size_t b = i;
        if (dig(s[i])) {
          while (i < s.size() && dig(s[i])) ++i;
          if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) ++i; }
          if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
            if (i == s.size() || !dig(s[i])) throw Err{"malformed exponent", false};
            while (i < s.size() && dig(s[i])) ++i;
            if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) throw Err{"double exponent", false};
          }
          if (i < s.size() && s[i] == '.') throw Err{"stray decimal point", false};
          T.push_back({s.substr(b, i - b), 'n'});
        } else if (alp(s[i])) {
          while (i < s.size() && alp(s[i])) ++i;
          T.push_back({s.substr(b, i - b), 'a'});
        } else if (s.compare(i, 2, "\xc2\xb1") == 0) { i += 2; T.push_back({"\xc2\xb1", 'o'}); }
        else if (std::string("=+-*/^[]{}(),:").find(s[i]) != std::string::npos) { T.push_back({std::string(1, s[i]), 'o'}); ++i; }
        else throw Err{"stray character", false};
      }
      T.push_back({"", 'e'});
    }
    bool is(const char *o) { return T[p].kind == 'o' && T[p].t == o; }
    void need(const char *o) { if (!is(o)) throw Err{std::string("expected ") + o, false}; ++p; }
    struct Deep { int &d; Deep(int &x) : d(x) { if (++d > 100000) throw Err{"too deep", true}; } ~Deep() { --d; } };
    NP eq() { Deep g(depth); NP l = add(); if (is("=")) { ++p; return bin(Eq, l, eq()); } return l; }
    NP add() { NP l = mul(); while (is("+") || is("-")) { K k = is("+") ? Add : Sub; ++p; l = bin(k, l, mul()); } return l; }
    NP mul() { NP l = pow(); while (is("*") || is("/")) { K k = is("*") ? Mul : Div; ++p; l = bin(k, l, pow()); } return l; }
    NP pow() { NP l = acc(); if (is("^")) { ++p; return bin(Pow, l, pow()); } return l; }
    NP acc() { NP l = uni(); while (is("[")) { ++p; NP r = eq(); need("]"); l = bin(Acc, l, r); } if (is("{") || is("\xc2\xb1")) unspec = true; return l; }
    NP uni() { NP l = unc(); while (is("{")) { ++p; NP r = eq(); need("}"); l = bin(Units, l, r); } if (is("\xc2\xb1")) unspec = true; return l; }
    NP unc() { NP l = prim(); while (is("\xc2\xb1")) { ++p; l = bin(Unc, l, prim()); } return l; }
    NP prim() {
      Deep g(depth);
      Tok t = T[p];
      if (t.kind == 'e') throw Err{"unexpected end", false};
      ++p;
      if (t.kind == 'n') {
        double d = strtod(t.t.c_str(), nullptr);
        if (!std::isfinite(d) || (d != 0 && std::fabs(d) < 1e-300)) unspec = true;
        return num(d);
      }
      if (t.kind == 'a') {
        if (t.t == "sin") return un(Sin, prim());
        if (t.t == "cos") return un(Cos, prim());
        if (t.t == "exp") return un(Exp, prim());
        if (t.t == "ln") return un(Log, prim());
        return var(t.t);
      }
      if (t.t == "(") { NP r = eq(); need(")"); return r; }
      if (t.t == "-") { NP a = mul(); return a->k == Num ? num(-a->num) : un(Neg, a); }
      if (t.t == "+") return mul();
      if (t.t == "[") {
        std::vector<NP> v; if (is("]")) { ++p; return list(v); }
        while (true) { v.push_back(eq()); if (is("]")) break; need(","); }
        ++p; return list(v);
      }
      if (t.t == "{") {
        std::vector<std::string> ks; std::vector<NP> vs; if (is("}")) { ++p; return dict(ks, vs); }
        while (true) {
          NP k = eq(); if (k->k != Var) { throw Err{"dictionary key is not a variable", false}; }
          need(":"); NP v = eq();
          size_t i = std::find(ks.begin(), ks.end(), k->name) - ks.begin();
          if (i < ks.size()) vs[i] = v; else { ks.push_back(k->name); vs.push_back(v); }
          if (is("}")) break; need(",");
        }
        ++p; return dict(ks, vs);
      }
      throw Err{"unexpected token " + t.t, false};
    }
  public:
    static ParseResult parse(const std::string &s) {
      ParseResult r; RefParser q;
      try {
        q.lex(s); r.ast = q.eq();
        if (q.T[q.p].kind != 'e') throw Err{"trailing text at " + q.T[q.p].t, false};
        r.ok = true;
      } catch (Err &e) { r.err = e.m; r.unspecified = e.unspecified; r.ast = nullptr; }
      // a postfix operator after a looser one (x[1]{m}) or a number out of range
      if (q.unspec) r.unspecified = true;
      return r;
    }
  };

  // ------------------------------------------------------------------ printer
  struct Printer {
    Src &s; bool noise; // random spaces, redundant parentheses, unary plus
    Printer(Src &src, bool n) : s(src), noise(n) {}
    std::string sp() { return noise && s.chance(1, 6) ? std::string(s.range(1, 2), ' ') : ""; }
    static std::string join(const std::string &a, const std::string &b) {
      if (!a.empty() && !b.empty() && isalpha((unsigned char)a.back()) && isalnum((unsigned char)b[0]) ) return a + " " + b;
      return a + b;
    }
    std::string number(double d) {
      char b[64];
      switch (noise ? s.range(0, 3) : 0) {
      case 1: snprintf(b, sizeof b, "%.17e", d); break;
      case 2: snprintf(b, sizeof b, "%.17E", d); break;
      case 3: snprintf(b, sizeof b, "%.17g", d); if (!strpbrk(b, ".e")) strcat(b, s.chance(1, 2) ? "." : ".0"); break;
      default: snprintf(b, sizeof b, "%.17g", d);
      }
      return b;
    }
    enum { LEQ, LADD, LMUL, LPOW, LACC, LUNI, LUNC, LPRIM };
    std::string paren(const NP &n) { return "(" + sp() + go(n, LEQ, false) + sp() + ")"; }
    std::string binop(const NP &n, const char *o, int ll, int rl, bool tight, bool ltight) {
      std::string a = go(n->c[0], ll, ltight), b = go(n->c[1], rl, tight);
      return a + sp() + o + sp() + b;
    }
    std::string go(const NP &n, int lvl, bool tight) {
      if (noise && s.chance(1, 12)) return paren(n);
      if (noise && !tight && s.chance(1, 25)) return "+" + sp() + go(n, LMUL, tight);
      switch (n->k) {
      case Num: if (std::signbit(n->num)) { if (tight) return paren(n); return "-" + sp() + number(-n->num); } return number(n->num);
      case Var: return n->name;
      case Neg: if (tight) return paren(n); return "-" + sp() + go(n->c[0], LMUL, tight);
      case Sin: case Cos: case Exp: case Log: return join(kname(n->k) + sp(), go(n->c[0], LPRIM, tight));
      case List: { std::string r = "["; for (size_t i = 0; i < n->c.size(); ++i) r += (i ? "," : "") + sp() + go(n->c[i], LEQ, false) + sp(); return r + "]"; }
      case Dict: { std::string r = "{"; for (size_t i = 0; i < n->c.size(); ++i) r += (i ? "," : "") + sp() + (noise && s.chance(1, 10) ? "(" + n->keys[i] + ")" : n->keys[i]) + sp() + ":" + sp() + go(n->c[i], LEQ, false) + sp(); return r + "}"; }
      case Eq: if (lvl > LEQ) return paren(n); return binop(n, "=", LADD, LEQ, tight, false);
      case Add: if (lvl > LADD) return paren(n); return binop(n, "+", LADD, LMUL, tight, false);
      case Sub: if (lvl > LADD) return paren(n); return binop(n, "-", LADD, LMUL, tight, false);
      case Mul: if (lvl > LMUL) return paren(n); return binop(n, "*", LMUL, LPOW, tight, true);
      case Div: if (lvl > LMUL) return paren(n); return binop(n, "/", LMUL, LPOW, tight, true);
      case Pow: if (lvl > LPOW) return paren(n); return binop(n, "^", LACC, LPOW, tight, true);
      case Acc: if (lvl > LACC) return paren(n); return go(n->c[0], LACC, true) + sp() + "[" + sp() + go(n->c[1], LEQ, false) + sp() + "]";
      case Units: if (lvl > LUNI) return paren(n); return go(n->c[0], LUNI, true) + sp() + "{" + sp() + go(n->c[1], LEQ, false) + sp() + "}";
      case Unc: if (lvl > LUNC) return paren(n); return binop(n, "\xc2\xb1", LUNC, LPRIM, tight, true);
      default: abort();
      }
    }
  };
  inline std::string print(Src &s, const NP &n, bool noise) { Printer p(s, noise); return p.sp() + p.go(n, Printer::LEQ, false) + p.sp(); }
}
