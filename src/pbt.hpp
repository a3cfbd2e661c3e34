// A small property-based-testing engine: choice tapes, sharded runs in forked
// processes, crash/hang containment, tape shrinking and replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <algorithm>
#include <iomanip>
#include <exception>
#include <typeinfo>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace pbt {
  struct Fail { std::string msg; };
  struct Discard {};

  inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }

  struct Stop {};

  // Source of choices. Every random decision is a draw() from the tape.
  class Src {
  public:
    explicit Src(uint64_t seed) : _s(seed), _replay(false) {}
    explicit Src(const std::vector<uint64_t> &t) : _s(0), _replay(true), _tape(t) {}
    uint64_t draw(uint64_t n) { // uniform in [0,n)
      if (n <= 1) return 0;
      uint64_t v;
      if (_replay) v = (_pos < _tape.size()) ? _tape[_pos] % n : 0;
      else v = splitmix(_s) % n;
      ++_pos;
      _used.push_back(v);
      if (_shared && _sharedN < _sharedCap) { _shared[_sharedN++] = v; _shared[-1] = _sharedN; }
      return v;
    }
    // inclusive; shrinks to lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // integer in [-m,m], shrinking to 0
    int64_t sym(int64_t m) { uint64_t v = draw(2 * m + 1); int64_t k = (v + 1) / 2; return (v & 1) ? k : -k; }
    // true with probability num/den, shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    size_t weighted(std::initializer_list<unsigned> w) {
      uint64_t tot = 0; for (unsigned x : w) tot += x;
      uint64_t r = draw(tot); size_t i = 0;
      for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
      return 0;
    }
    double unit() { return draw(1ull << 53) / double(1ull << 53); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    // a "nice" decimal number in [a,b] with resolution 1/k
    double grid(double a, double b, int k) { return range((int64_t)std::ceil(a * k), (int64_t)std::floor(b * k)) / double(k); }
    double anyFinite() {
      for (;;) {
        uint64_t m = draw(1ull << 52), e = draw(2047), s = draw(2);
        uint64_t u = (s << 63) | (e << 52) | m; double d; std::memcpy(&d, &u, 8);
        return d;
      }
    }
    const std::vector<uint64_t> &used() const { return _used; }
    void attach(uint64_t *buf, size_t cap) { _shared = buf + 1; _sharedCap = cap - 1; _sharedN = 0; buf[0] = 0; }
  private:
    uint64_t _s; bool _replay; std::vector<uint64_t> _tape, _used; size_t _pos = 0;
    uint64_t *_shared = nullptr; size_t _sharedCap = 0, _sharedN = 0;
  };

  struct Case {
    std::string desc; bool nt = false; std::vector<std::string> labels; uint64_t evals = 1;
    std::vector<std::string> known;
    void describe(const std::string &s) { desc = s; publish(); }
    void append(const std::string &s) { desc += s; publish(); }
    void nontrivial(bool b = true) { nt = nt || b; }
    void label(const std::string &l) { labels.push_back(l); }
    void publish() { if (descbuf) { size_t n = std::min(desc.size(), desccap - 1); std::memcpy(descbuf, desc.data(), n); descbuf[n] = 0; } }
    char *descbuf = nullptr; size_t desccap = 0;
  };

  [[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }
  [[noreturn]] inline void discard() { throw Discard{}; }
  inline void check(bool b, const std::string &m) { if (!b) throw Fail{m}; }
  template <class... A> std::string cat(const A &...a) { std::ostringstream o; o << std::setprecision(17); (void)std::initializer_list<int>{(o << a, 0)...}; return o.str(); }

  typedef std::function<void(Src &, Case &)> Body;
  struct Test { std::string name; uint64_t quick, thorough; Body body; };
  inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
  inline std::set<std::string> &knownKeys() { static std::set<std::string> k; return k; } // findings listed in known_findings.txt
  inline std::string &rule() { static std::string r; return r; }
  struct Reg { Reg(const char *n, uint64_t q, uint64_t t, Body b) { tests().push_back({n, q, t, b}); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(NAME, QUICK, THOROUGH) \
  static void PBT_CAT(prop_, NAME)(pbt::Src & s, pbt::Case & c); \
  static pbt::Reg PBT_CAT(reg_, NAME)(#NAME, QUICK, THOROUGH, PBT_CAT(prop_, NAME)); \
  static void PBT_CAT(prop_, NAME)(pbt::Src & s, pbt::Case & c)

  inline std::string jesc(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char ch = s[i];
      if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) { char b[16]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else o += ch;
    }
    return o;
  }

  static const size_t TAPE_CAP = 1 << 20, DESC_CAP = 1 << 14, MSG_CAP = 1 << 14;
  struct Shared { volatile uint64_t test, idx, active; volatile int kind; char desc[DESC_CAP]; char msg[MSG_CAP]; uint64_t tape[TAPE_CAP]; };

  enum Kind { PASS = 0, FAILED = 1, CRASH = 2, HANG = 3, DISCARDED = 4 };
  struct Outcome { Kind kind = PASS; std::string msg, desc; std::vector<uint64_t> tape; };

  inline int &caseCpu() { static int s = 20; return s; }
  inline void onHang(int) { _exit(77); }
  inline void armTimer() {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = caseCpu();
    setitimer(ITIMER_PROF, &t, nullptr);
  }

  inline Kind runCase(const Test &t, Src &s, Case &c, std::string &msg) {
    armTimer();
    try { t.body(s, c); return PASS; }
    catch (Fail &f) { msg = f.msg; return FAILED; }
    catch (Discard &) { return DISCARDED; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
    catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
  }

  inline Shared *newShared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *)p;
  }

  // run one case in a child process
  inline Outcome forked(const Test &t, Shared *sh, const std::function<Src()> &mk) {
    sh->kind = -1; sh->desc[0] = 0; sh->msg[0] = 0; sh->tape[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); if (!getenv("PBT_VERBOSE")) dup2(fd, 2); }
      signal(SIGPROF, onHang);
      Src s = mk(); s.attach(sh->tape, TAPE_CAP);
      Case c; c.descbuf = sh->desc; c.desccap = DESC_CAP;
      std::string msg; Kind k = runCase(t, s, c, msg);
      size_t n = std::min(msg.size(), MSG_CAP - 1); memcpy(sh->msg, msg.data(), n); sh->msg[n] = 0;
      sh->kind = k;
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o; o.desc = sh->desc; o.msg = sh->msg;
    o.tape.assign(sh->tape + 1, sh->tape + 1 + sh->tape[0]);
    if (sh->kind >= 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = (Kind)sh->kind;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = HANG; o.msg = cat("no result after ", caseCpu(), " s of CPU time"); }
    else {
      o.kind = CRASH;
      if (WIFSIGNALED(st)) o.msg = cat("process died with signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
      else o.msg = cat("process exited with status ", WEXITSTATUS(st), " (sanitizer report or abort)");
    }
    return o;
  }

  inline bool bad(Kind k) { return k == FAILED || k == CRASH || k == HANG; }

  inline Outcome shrink(const Test &t, Shared *sh, Outcome best, unsigned &evals) {
    struct timeval t0; gettimeofday(&t0, nullptr);
    auto over = [&] { struct timeval n; gettimeofday(&n, nullptr); return evals > 4000 || (n.tv_sec - t0.tv_sec) > (best.kind == HANG ? 60 : 40); };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
      if (over()) return false;
      ++evals;
      Outcome o = forked(t, sh, [&] { return Src(cand); });
      if (o.kind != best.kind) return false;
      // canonical: shorter, or lexicographically smaller
      if (o.tape.size() < best.tape.size() || (o.tape.size() == best.tape.size() && o.tape < best.tape)) { best = o; return true; }
      return false;
    };
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      for (size_t blk = std::max<size_t>(1, best.tape.size() / 2); blk >= 1; blk /= 2) {
        for (size_t i = 0; i + blk <= best.tape.size() && !over();) {
          std::vector<uint64_t> cand(best.tape); cand.erase(cand.begin() + i, cand.begin() + i + blk);
          if (attempt(cand)) progress = true; else i += std::max<size_t>(1, blk / 2);
        }
        for (size_t i = 0; i + blk <= best.tape.size() && !over(); i += blk) {
          std::vector<uint64_t> cand(best.tape); bool any = false;
          for (size_t j = i; j < i + blk; ++j) { any = any || cand[j]; cand[j] = 0; }
          if (any && attempt(cand)) progress = true;
        }
      }
      for (size_t i = 0; i < best.tape.size() && !over(); ++i) {
        uint64_t lo = 0;
        while (i < best.tape.size() && best.tape[i] > lo && !over()) {
          uint64_t mid = lo + (best.tape[i] - lo) / 2;
          std::vector<uint64_t> cand(best.tape); cand[i] = mid;
          if (attempt(cand)) progress = true; else lo = mid + 1;
        }
        if (i < best.tape.size() && best.tape[i] > 0) {
          std::vector<uint64_t> cand(best.tape); --cand[i];
          if (attempt(cand)) progress = true;
          // delete a draw while decrementing an earlier length
          if (i + 1 < best.tape.size() && best.tape[i] > 0 && best.tape[i] < 64) {
            for (size_t d = 1; d <= 6 && i + d < best.tape.size(); ++d) {
              cand = best.tape; --cand[i]; cand.erase(cand.begin() + i + 1, cand.begin() + i + 1 + d);
              if (attempt(cand)) { progress = true; break; }
            }
          }
        }
      }
    }
    return best;
  }

  inline uint64_t caseSeed(uint64_t seed, const std::string &name, uint64_t i) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + fnv(name) + i * 0xD1B54A32D192ED03ull;
    splitmix(x); return splitmix(x);
  }

  struct ShardResult { uint64_t evals = 0, discards = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> nt; std::vector<std::string> samples; };

  inline int replayFile(const std::string &path) {
    std::ifstream f(path); std::string line, name; std::vector<uint64_t> tape; bool inTape = false;
    while (std::getline(f, line)) {
      if (line.rfind("subtest ", 0) == 0) name = line.substr(8);
      else if (line.rfind("tape ", 0) == 0) { std::istringstream is(line.substr(5)); uint64_t v; while (is >> v) tape.push_back(v); inTape = true; }
    }
    for (auto &t : tests()) if (t.name == name && inTape) {
      Shared *sh = newShared();
      Outcome o = forked(t, sh, [&] { return Src(tape); });
      printf("subtest %s\ncase: %s\nresult: %s %s\n", name.c_str(), o.desc.c_str(), o.kind == PASS ? "PASS" : o.kind == DISCARDED ? "DISCARDED" : "FAIL", o.msg.c_str());
      return bad(o.kind) ? 1 : 0;
    }
    printf("cannot replay %s\n", path.c_str());
    return 2;
  }

  // Exit 0: no failure; 1: failure (replay file written); 2: usage / internal error.
  inline int main(int argc, char **argv, const char *ruleText) {
    uint64_t seed = 1; bool thorough = false; std::string out, replayOut; std::string only; double scale = 1; int shards = 8; double maxsec = 600;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
      else if (a == "--tier") thorough = nxt() == "thorough";
      else if (a == "--out") out = nxt();
      else if (a == "--replay-out") replayOut = nxt();
      else if (a == "--replay") return replayFile(nxt());
      else if (a == "--only") only = nxt();
      else if (a == "--scale") scale = atof(nxt().c_str());
      else if (a == "--shards") shards = atoi(nxt().c_str());
      else if (a == "--known") { std::istringstream is(nxt()); std::string k; while (std::getline(is, k, ',')) knownKeys().insert(k); }
      else if (a == "--maxsec") maxsec = atof(nxt().c_str());
      else if (a == "--list") { for (auto &t : tests()) printf("%s %llu %llu\n", t.name.c_str(), (unsigned long long)t.quick, (unsigned long long)t.thorough); return 0; }
    }
    signal(SIGPROF, onHang);
    std::vector<Shared *> sh(shards); std::vector<pid_t> pids(shards); std::vector<std::string> files(shards);
    for (int k = 0; k < shards; ++k) {
      sh[k] = newShared(); files[k] = out + ".shard" + std::to_string(k);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        struct timeval t0; gettimeofday(&t0, nullptr);
        ShardResult per; std::ofstream of(files[k]);
        std::map<std::string, uint64_t> evalsBy;
        bool truncated = false;
        for (size_t ti = 0; ti < tests().size(); ++ti) {
          Test &t = tests()[ti];
          if (!only.empty() && t.name != only) continue;
          uint64_t n = (uint64_t)((thorough ? t.thorough : t.quick) * scale); if (n < 1) n = 1;
          uint64_t ev = 0, disc = 0, ntc = 0; unsigned samples = 0; std::map<std::string, uint64_t> labels;
          std::unordered_set<uint64_t> nt;
          sh[k]->test = ti;
          for (uint64_t i = k; i < n; i += shards) {
            if ((i / shards) % 64 == 0) { struct timeval nw; gettimeofday(&nw, nullptr); if (nw.tv_sec - t0.tv_sec > maxsec) { truncated = true; break; } }
            sh[k]->idx = i; sh[k]->active = 1;
            Src s(caseSeed(seed, t.name, i)); Case c; std::string msg;
            Kind kd = runCase(t, s, c, msg);
            sh[k]->active = 0;
            if (kd == DISCARDED) { ++disc; continue; }
            ++ev;
            for (auto &l : c.labels) ++labels[l];
            for (auto &l : c.known) of << "KNOWN " << l << "\n";
            if (c.nt) {
              ++ntc; nt.insert(fnv(c.desc, fnv(t.name)));
              if (k == 0 && samples < 3 && (ntc % 7) == 1) { ++samples; of << "SAMPLE " << t.name << ": " << jesc(c.desc.substr(0, 400)) << "\n"; }
            }
            if (kd == FAILED) { of << "FAIL " << ti << " " << i << "\n"; break; }
          }
          of << "TEST " << t.name << " " << ev << " " << disc << " " << ntc << "\n";
          for (auto &l : labels) of << "LABEL " << l.second << " " << t.name << "/" << l.first << "\n";
          for (auto h : nt) of << "H " << h << "\n";
          of.flush();
        }
        if (truncated) of << "TRUNCATED\n";
        of << "DONE\n"; of.close();
        _exit(0);
      }
      pids[k] = pid;
    }
    struct Cand { size_t test; uint64_t idx; };
    std::vector<Cand> cands;
    for (int k = 0; k < shards; ++k) {
      int st = 0; waitpid(pids[k], &st, 0);
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!ok) cands.push_back({(size_t)sh[k]->test, sh[k]->idx});
    }
    uint64_t evals = 0, disc = 0, ntc = 0; std::unordered_set<uint64_t> H; std::vector<std::string> samples, known; std::map<std::string, uint64_t> labels, per, perDisc; bool truncated = false;
    for (int k = 0; k < shards; ++k) {
      std::ifstream f(files[k]); std::string line;
      while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "H") { uint64_t h; is >> h; H.insert(h); }
        else if (w == "SAMPLE") samples.push_back(line.substr(7));
        else if (w == "FAIL") { Cand c; is >> c.test >> c.idx; cands.push_back(c); }
        else if (w == "TEST") { std::string nm; uint64_t e, d, n; is >> nm >> e >> d >> n; evals += e; disc += d; ntc += n; per[nm] += e; perDisc[nm] += d; }
        else if (w == "LABEL") { uint64_t n; std::string nm; is >> n; std::getline(is, nm); labels[nm.substr(1)] += n; }
        else if (w == "KNOWN") known.push_back(line.substr(6));
        else if (w == "TRUNCATED") truncated = true;
      }
      unlink(files[k].c_str());
    }
    std::sort(known.begin(), known.end()); known.erase(std::unique(known.begin(), known.end()), known.end());
    std::sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.test != b.test ? a.test < b.test : a.idx < b.idx; });
    int violations = 0, unconfirmed = 0; std::string firstMsg;
    for (auto &cd : cands) {
      Test &t = tests()[cd.test];
      Outcome o = forked(t, sh[0], [&] { return Src(caseSeed(seed, t.name, cd.idx)); });
      if (!bad(o.kind)) { ++unconfirmed; continue; }
      unsigned ev = 0;
      Outcome b = shrink(t, sh[0], o, ev);
      int conf = 0;
      for (int r = 0; r < 3; ++r) { Outcome q = forked(t, sh[0], [&] { return Src(b.tape); }); conf += bad(q.kind); }
      if (conf < 3) { b = o; conf = 0; for (int r = 0; r < 3; ++r) { Outcome q = forked(t, sh[0], [&] { return Src(b.tape); }); conf += bad(q.kind); } }
      if (conf < 3) { ++unconfirmed; continue; }
      ++violations;
      std::ofstream rf(replayOut);
      rf << "subtest " << t.name << "\n# case: " << jesc(b.desc) << "\n# failure: " << jesc(b.msg) << "\n# seed " << seed << " case " << cd.idx << " shrink evaluations " << ev << "\ntape";
      for (auto v : b.tape) rf << " " << v;
      rf << "\n";
      firstMsg = t.name + ": " + b.desc + " => " + b.msg;
      break;
    }
    std::ofstream of(out);
    of << "{\n \"evaluations\": " << evals << ",\n \"discarded\": " << disc << ",\n \"nontrivial_cases\": " << ntc << ",\n \"distinct_nontrivial\": " << H.size() << ",\n \"truncated\": " << (truncated ? "true" : "false") << ",\n \"unconfirmed\": " << unconfirmed << ",\n \"violations\": " << violations << ",\n \"message\": \"" << jesc(firstMsg) << "\",\n \"rule\": \"" << jesc(ruleText) << "\",\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) of << (i ? ", " : "") << "\"" << samples[i] << "\"";
    of << "],\n \"known\": [";
    for (size_t i = 0; i < known.size(); ++i) of << (i ? ", " : "") << "\"" << jesc(known[i]) << "\"";
    of << "],\n \"subtests\": {";
    { bool first = true; for (auto &p : per) { of << (first ? "" : ", ") << "\"" << p.first << "\": {\"evaluations\": " << p.second << ", \"discarded\": " << perDisc[p.first] << "}"; first = false; } }
    of << "},\n \"labels\": {";
    { bool first = true; for (auto &p : labels) { of << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; } }
    of << "}\n}\n";
    of.close();
    if (violations) { printf("FAILURE %s\n", firstMsg.c_str()); return 1; }
    return 0;
  }
}
