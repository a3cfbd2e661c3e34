"""P32: compile-time lists and option packs behave as lists and option lookups."""
import json, sys
import genprog
from genprog import Family

TYPES = {"int": (-50, 50), "char": (65, 90), "long": (-10 ** 12, 10 ** 12), "unsigned": (0, 4000000000), "short": (-300, 300)}
def lits(T, l): return "".join(", (%s)%d" % (T, v) for v in l)
class Lists(Family):
    name = "lists"; per_unit = 60; quick = 2400; thorough = 40000
    prelude = r'''
#include <stator/orphan/static_list.hpp>
#include <stator/orphan/template_config.hpp>
#include <vector>
namespace sl {
  using namespace stator::orphan;
  template <class T> struct show;
  template <class T, T... I> struct show<static_list<T, I...>> { static std::string str() { std::string s; long long v[] = {0, (long long)I...}; for (size_t i = 1; i <= sizeof...(I); ++i) s += (i > 1 ? " " : "") + std::to_string(v[i]); return s.empty() ? "empty" : s; } };
  template <class L> void out(int k, const char *t) { gp::str(k, t, show<L>::str()); gp::num(k, (std::string(t) + "#").c_str(), double(static_list_size<L>::value)); }
  struct Byref { std::string *s; template <class T> void operator()(const T &v) { *s += (s->empty() ? "" : " ") + std::to_string((long long)v); } };
  // named and numbered options
  template <int N> struct id {};
  template <int N, class T, T V> struct opt { using type_id = id<N>; static constexpr T value = V; };
  template <class C> struct plain { static constexpr int n = 0; using type = C; };
  template <class C> struct ptr { static constexpr int n = 1; using type = C *; };
  template <class C> struct pair { static constexpr int n = 2; using type = std::pair<C, C>; };
  template <class T> struct tag { static constexpr int n = -1; };
  template <> struct tag<int> { static constexpr int n = 0; }; template <> struct tag<char> { static constexpr int n = 1; }; template <> struct tag<double> { static constexpr int n = 2; }; template <> struct tag<std::string> { static constexpr int n = 3; }; template <> struct tag<std::vector<int>> { static constexpr int n = 4; };
}
'''
    rule = "A list case is non-trivial with three or more operations and a list of two or more items."
    def gen(self, rng):
        T = rng.choice(list(TYPES)); item = lambda: rng.randint(*TYPES[T]) if rng.random() < 0.6 else rng.choice([TYPES[T][0], TYPES[T][1], 65 if T == "char" else 1])
        start = [item() for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7]))]; cur = list(start); prog = []
        for _ in range(rng.randint(1, 7)):
            o = rng.choice(["append", "prepend", "reverse", "replace", "merge", "rmerge", "first", "second", "selfmerge"])
            if o in ("append", "prepend"): a = item()
            elif o == "replace":
                if not cur: continue
                a = [rng.choice([0, len(cur) - 1, rng.randrange(len(cur))]), item()]
            elif o in ("merge", "rmerge"): a = [item() for _ in range(rng.randint(0, 3))]
            elif o in ("first", "second"): a = rng.choice([rng.randint(0, len(cur)), rng.randint(0, len(cur) + 2)])
            else: a = None
            nxt = self.step(cur, o, a)
            if len(nxt) > 14: continue
            prog.append([o, a]); cur = nxt
        return {"T": T, "start": start, "prog": prog}
    @staticmethod
    def step(l, o, a):
        if o == "append": return l + [a]
        if o == "prepend": return [a] + l
        if o == "reverse": return l[::-1]
        if o == "replace": return l[:a[0]] + [a[1]] + l[a[0] + 1:]
        if o == "merge": return l + a
        if o == "rmerge": return a + l
        if o == "selfmerge": return l + l
        return l[:a] if o == "first" else l[a:]
    def run(self, c):
        l = list(c["start"]); out = [l]
        for o, a in c["prog"]:
            if o == "replace" and a[0] >= len(l): return None
            l = self.step(l, o, a); out.append(l)
        return out
    def describe(self, c): return "%s %s: %s" % (c["T"], c["start"], ", ".join(o + ("" if a is None else " %s" % (a,)) for o, a in c["prog"]))
    def code(self, c, k):
        T = c["T"]; s = "using namespace sl; typedef make_static_list<%s%s>::type L0; sl::out<L0>(k, \"L0\");" % (T, lits(T, c["start"]))
        lens = self.run(c)
        for i, (o, a) in enumerate(c["prog"]):
            L, N = "L%d" % i, "L%d" % (i + 1)
            if o in ("append", "prepend"): t = "%s_static_list_item<%s, %s, (%s)%d>::type" % (o, T, L, T, a)
            elif o == "reverse": t = "reverse_static_list<%s>::type" % L
            elif o == "replace": t = "replace_static_list_item<%s, %s, %d, (%s)%d>::type" % (T, L, a[0], T, a[1])
            elif o == "merge": t = "merge_static_lists<%s, static_list<%s%s>>::type" % (L, T, lits(T, a))
            elif o == "rmerge": t = "merge_static_lists<static_list<%s%s>, %s>::type" % (T, lits(T, a), L)
            elif o == "selfmerge": t = "merge_static_lists<%s, %s>::type" % (L, L)
            else: t = "split_static_list<%s, %d>::%s" % (L, a, o)
            s += "typedef %s %s; sl::out<%s>(k, \"%s\");" % (t, N, N, N)
        n = len(c["prog"]); L = "L%d" % n; last = lens[-1]
        for i in range(len(last)): s += "gp::num(k, \"get%d\", double(get_static_list_item<%s, %d>::value));" % (i, L, i)
        s += "{ std::string s; sl::Byref f{&s}; static_foreach<%s>()(f); gp::str(k, \"each\", s.empty() ? \"empty\" : s); }" % L
        s += "{ std::string s; int n = 0; static_foreach<%s>()([](auto v, std::string &s, int &n, int by) { s += (n ? \" \" : \"\") + std::to_string((long long)v * by); ++n; }, s, n, 3); gp::str(k, \"args\", s.empty() ? \"empty\" : s); gp::num(k, \"calls\", n); }" % L
        return s
    def judge(self, c, r):
        lens = self.run(c); nt = len(c["prog"]) >= 3 and max(len(l) for l in lens) >= 2
        text = lambda l: " ".join(map(str, l)) or "empty"
        for i, l in enumerate(lens):
            if r.get("L%d" % i) != text(l): return "after %d operations the list is (%s), expected (%s)" % (i, r.get("L%d" % i), text(l)), nt, [], None
            if r.get("L%d#" % i) != len(l): return "the size of (%s) is %r" % (text(l), r.get("L%d#" % i)), nt, [], None
        l = lens[-1]
        for i, v in enumerate(l):
            if r.get("get%d" % i) != float(v): return "item %d of (%s) is %r" % (i, text(l), r.get("get%d" % i)), nt, [], None
        if r.get("each") != text(l): return "visiting (%s) gave (%s)" % (text(l), r.get("each")), nt, [], None
        if r.get("args") != text([3 * v for v in l]) or r.get("calls") != len(l): return "visiting (%s) with arguments gave (%s) in %r calls" % (text(l), r.get("args"), r.get("calls")), nt, [], None
        return None, nt, sorted({o for o, _ in c["prog"]}), None
    def shrinks(self, c):
        out = [dict(c, prog=c["prog"][:i] + c["prog"][i + 1:]) for i in range(len(c["prog"]))] + [dict(c, start=c["start"][:i] + c["start"][i + 1:]) for i in range(len(c["start"]))]
        if c["T"] != "int" and c["T"] != "long" and c["T"] != "unsigned": out.append(dict(c, T="int"))
        return [o for o in out if self.run(o) is not None]

TY = ["int", "char", "double", "std::string", "std::vector<int>"]; TT = ["plain", "ptr", "pair"]
class Options(Family):
    name = "options"; per_unit = 60; quick = 1200; thorough = 20000; prelude = Lists.prelude
    rule = "An option case is non-trivial with two or more options given."
    def gen(self, rng):
        kind = rng.choice(["value", "value", "type", "template", "valid"]); n = rng.randint(0, 5)
        ids = [rng.randint(0, 4) for _ in range(n)]; want = rng.randint(0, 4)
        if kind == "value":
            T = rng.choice(["int", "bool", "unsigned"]); val = lambda: rng.randint(0, 1) if T == "bool" else rng.randint(-100 if T == "int" else 0, 100)
            return {"kind": kind, "T": T, "want": want, "default": val(), "args": [[i, val()] for i in ids]}
        if kind == "valid": return {"kind": kind, "T": "", "want": 0, "default": 0, "allowed": sorted({rng.randint(0, 5) for _ in range(rng.randint(0, 5))}), "args": [[i, 0] for i in ids]}
        m = len(TY) if kind == "type" else len(TT)
        return {"kind": kind, "T": "", "want": want, "default": rng.randrange(m), "args": [[i, rng.randrange(m)] for i in ids]}
    def one(self, c, i, v):
        if c["kind"] == "value": return "sl::opt<%d, %s, (%s)%d>" % (i, c["T"], c["T"], v)
        if c["kind"] == "type": return "sl::type_conf_t<sl::id<%d>, %s>" % (i, TY[v])
        if c["kind"] == "template": return "sl::template_type_conf_t<sl::id<%d>, sl::%s>" % (i, TT[v])
        return "sl::basic_conf_t<sl::id<%d>>" % i
    def expect(self, c):
        if c["kind"] == "valid": return float(all(i in c["allowed"] for i, _ in c["args"]))
        for i, v in c["args"]:
            if i == c["want"]: return float(v)
        return float(c["default"])
    def describe(self, c): return json.dumps(c)
    def code(self, c, k):
        args = "".join(", " + self.one(c, i, v) for i, v in c["args"])
        if c["kind"] == "valid": return "gp::num(k, \"r\", sl::is_valid<sl::tmp_list<%s>%s>::value);" % (", ".join("sl::id<%d>" % i for i in c["allowed"]), args)
        d = self.one(c, c["want"], c["default"])
        if c["kind"] == "value": return "gp::num(k, \"r\", double(sl::get_value<%s%s>::value));" % (d, args)
        if c["kind"] == "type": return "gp::num(k, \"r\", sl::tag<typename sl::get_type<%s%s>::value>::n);" % (d, args)
        return "gp::num(k, \"r\", sl::get_template_type<%s%s>::template value<int>::n);" % (d, args)
    def judge(self, c, r):
        w = self.expect(c)
        if r.get("r") != w: return "the result is %r, expected %r" % (r.get("r"), w), False, [], None
        given = any(i == c["want"] for i, _ in c["args"])
        return None, len(c["args"]) >= 2, [c["kind"], "given" if given else "default"], None
    def shrinks(self, c): return [dict(c, args=c["args"][:i] + c["args"][i + 1:]) for i in range(len(c["args"]))]

if __name__ == "__main__": sys.exit(genprog.main([Lists(), Options()]))
