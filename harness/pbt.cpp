#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace fs = std::filesystem;
namespace pbt {

constexpr size_t kCap = 1 << 19; // recorded choices kept in shared memory
struct Shared {
  volatile uint64_t facet, index, count, stage;
  uint64_t data[kCap];
};
struct Control { volatile int stop; };

static std::string g_scratch_root;
static std::map<std::string, std::string> g_known; // slug -> text
static std::string g_property;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::string repo() {
  const char* r = getenv("MINIMC_REPO");
  return r ? r : "/repo";
}
std::string bindir() {
  const char* r = getenv("PBT_BIN");
  return r ? r : "/verif/build/current";
}
std::string scratch() {
  std::string d = g_scratch_root.empty()
                      ? std::string{"/tmp/minimc_pbt_misc"} + std::to_string(getpid())
                      : g_scratch_root + "/" + std::to_string(getpid());
  fs::create_directories(d);
  return d;
}
void mute() {
  fflush(stdout);
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}

// ---- Case -----------------------------------------------------------------
uint64_t Case::raw(uint64_t n) {
  if (n <= 1) { return 0; }
  uint64_t v = 0;
  if (mode == 1) {
    v = pos < data.size() ? data[pos] % n : 0;
    pos++;
    return v;
  }
  if (mode == 2) {
    int k = 0;
    for (uint64_t m = n - 1; m; m >>= 8) k++;
    for (int i = 0; i < k; i++) {
      v = (v << 8) | (pos < nbytes ? bytes[pos] : 0);
      pos++;
    }
    v %= n;
  }
  else {
    v = rng.next() % n;
  }
  data.push_back(v);
  if (sh) {
    size_t i = data.size() - 1;
    if (i < kCap) { sh->data[i] = v; sh->count = i + 1; }
  }
  return v;
}
uint64_t Case::below(uint64_t n) { return raw(n); }
int Case::range(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo) + 1); }
bool Case::chance(int num, int den) { return (int)raw(den) >= den - num; }
double Case::unit() { return (double)raw(1ull << 53) * 0x1.0p-53; }
double Case::uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
double Case::real(double lo, double hi) {
  // lower alternatives are simpler
  switch (raw(10)) {
  case 0: return lo <= 0 && hi >= 0 ? 0. : lo;
  case 1: return hi;
  case 2: return lo;
  case 3: { // small integers inside
    double v = std::round(uniform(lo, hi));
    return v < lo ? lo : v > hi ? hi : v;
  }
  case 4: { // one decimal
    double v = std::round(uniform(lo, hi) * 10) / 10;
    return v < lo ? lo : v > hi ? hi : v;
  }
  default: return uniform(lo, hi);
  }
}
double Case::logreal(double lo, double hi) {
  return std::exp(uniform(std::log(lo), std::log(hi)));
}
void Case::known(const std::string& slug, const std::string& what) {
  auto it = g_known.find(slug);
  if (it == g_known.end()) fail(what);
  knowns.insert(slug);
}

// ---- process plumbing -------------------------------------------------------
static void limit_cpu(int s) {
  itimerval t{};
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
  // what blocks without computing is stopped by the clock, generously
  t.it_value.tv_sec = s ? 3 * s + 30 : 0;
  setitimer(ITIMER_REAL, &t, nullptr);
}

static std::string tail(const std::string& path) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > 3000) {
    // keep head (sanitizer summary line) and tail
    s = s.substr(0, 2000) + "\n...\n" + s.substr(s.size() - 900);
  }
  return s;
}
static std::string describe(int status, const std::string& errfile) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
  std::string r;
  if (WIFSIGNALED(status)) {
    int s = WTERMSIG(status);
    r = s == SIGPROF ? "did not finish within its CPU limit (hang)"
        : s == SIGALRM ? "did not finish within its time limit (blocked)"
                     : cat("killed by signal ", s, " (", strsignal(s), ")");
  }
  else r = cat("exit status ", WEXITSTATUS(status));
  std::string t = tail(errfile);
  if (!t.empty()) r += ": " + t;
  return r;
}

std::string in_child(const std::function<void()>& f, int cpu_s) {
  std::string err = scratch() + "/child.err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    close(fd);
    limit_cpu(cpu_s);
    try { f(); }
    catch (const std::exception& e) {
      fprintf(stderr, "uncaught: %s\n", e.what());
      fflush(stderr);
      _exit(3);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return describe(st, err);
}

// run one case in this process. Returns "" or the failure.
static std::string execute(const Facet& f, Case& c) {
  try { f.body(c); return ""; }
  catch (const Failure& e) { return e.msg.empty() ? "failed" : e.msg; }
  catch (const Discard&) { c.label("discarded"); c.nontriv = false; return ""; }
  catch (const std::exception& e) {
    return std::string{"unexpected exception: "} + e.what();
  }
}

// the choices of case i of a facet follow from the seed alone
static Rng case_rng(const Facet& f, uint64_t seed, uint64_t i) {
  return Rng{mix64(seed) ^ mix64(std::hash<std::string>{}(f.name)) ^
             mix64(0x51ed2701ull + i)};
}

struct Outcome { bool failed = false, hang = false; std::string msg, desc; };
// the processor time one case may take; far above what any case needs
static int cpu_limit(const Facet& f, bool thorough) {
  return thorough ? f.cpu_s : std::min(f.cpu_s, 60);
}

static std::string slurp_note() {
  std::ifstream f(g_scratch_root + "/shrink.note");
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
// run cases in a child, which tells of the first that fails. `body` returns
// 'P' or 'F', the message, a zero and the description.
static Outcome run_child(const std::function<std::string()>& body) {
  int p[2];
  if (pipe(p)) _exit(99);
  std::string err = g_scratch_root + "/shrink.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    mute();
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    std::string out = body();
    size_t o = 0;
    while (o < out.size()) {
      ssize_t k = write(p[1], out.data() + o, out.size() - o);
      if (k <= 0) break;
      o += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char buf[65536];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) out.append(buf, k);
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    o.failed = true;
    o.hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
    o.msg = "the code under test crashed: " + describe(st, err);
    o.desc = slurp_note();
    return o;
  }
  size_t z = out.find('\0');
  if (out.empty() || z == std::string::npos) {
    o.failed = true;
    o.msg = "case ended the process early";
    return o;
  }
  o.failed = out[0] == 'F';
  o.msg = out.substr(1, z - 1);
  o.desc = out.substr(z + 1);
  return o;
}

// run a stored case
static Outcome run_stored(const Facet& f, const std::vector<uint64_t>& data,
                          bool thorough) {
  return run_child([&] {
    limit_cpu(cpu_limit(f, thorough));
    Case c;
    c.mode = 1;
    c.data = data;
    c.thorough = thorough;
    std::ofstream sink(g_scratch_root + "/shrink.note");
    c.note_sink = &sink;
    std::string m = execute(f, c);
    return (m.empty() ? "P" : "F") + m + '\0' + c.description;
  });
}

// ---- sequences --------------------------------------------------------------
// What fails only after other cases ran in the same process (state which the
// code under test keeps between uses) is replayed and shrunk as the list of
// cases (facet, index) which a worker ran, each regenerated from the seed.
typedef std::vector<std::pair<size_t, uint64_t>> Sequence;
static Outcome run_sequence(const Property& P, const Sequence& q, uint64_t seed,
                            bool thorough) {
  return run_child([&] {
    std::string desc;
    for (size_t k = 0; k < q.size(); k++) {
      const auto& f = P.facets[q[k].first];
      limit_cpu(cpu_limit(f, thorough));
      Case c;
      c.thorough = thorough;
      c.rng = case_rng(f, seed, q[k].second);
      std::ofstream sink(g_scratch_root + "/shrink.note");
      c.note_sink = &sink;
      std::string m = execute(f, c);
      desc = c.description;
      if (!m.empty())
        return "F" + cat("after ", k, " other case(s) in the same process, and not alone: ",
                         m) + '\0' + desc;
    }
    return std::string{"P"} + '\0' + desc;
  });
}
// the shortest list of earlier cases found with which the last one fails;
// empty if it does not
static Sequence find_sequence(const Property& P, const Sequence& all, uint64_t seed,
                              bool thorough, double budget_s, Outcome& o, int& execs) {
  double end = now() + budget_s;
  auto fails = [&](const Sequence& q) {
    execs++;
    auto r = run_sequence(P, q, seed, thorough);
    if (r.failed) o = r;
    return r.failed;
  };
  Sequence best;
  for (size_t k = 1; now() < end; k *= 4) {
    size_t n = std::min(k + 1, all.size());
    Sequence q(all.end() - n, all.end());
    if (fails(q) && fails(q)) { best = q; break; }
    if (n == all.size()) break;
  }
  if (best.empty()) return best;
  for (size_t k = best.size() / 2; k >= 1; k /= 2)
    for (size_t i = 0; i + k < best.size() && now() < end;) {
      auto q = best;
      q.erase(q.begin() + i, q.begin() + i + k);
      if (fails(q)) best = q;
      else i += k;
    }
  return best;
}

static std::vector<uint64_t> shrink(const Facet& f, std::vector<uint64_t> best,
                                    bool thorough, double budget_s, int& execs) {
  double end = now() + budget_s;
  auto fails = [&](const std::vector<uint64_t>& d) {
    execs++;
    return run_stored(f, d, thorough).failed;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // truncate the tail
    for (size_t k = best.size() / 2; k >= 1 && now() < end; k /= 2) {
      if (k < best.size()) {
        auto d = best;
        d.resize(best.size() - k);
        if (fails(d)) { best = d; progress = true; k = best.size() / 2 + 1; }
      }
    }
    // delete chunks
    for (size_t k : {8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= best.size() && now() < end;) {
        auto d = best;
        d.erase(d.begin() + i, d.begin() + i + k);
        if (fails(d)) { best = d; progress = true; }
        else i += k;
      }
    }
    // lower values
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      if (best[i] == 0) continue;
      auto d = best;
      d[i] = 0;
      if (fails(d)) { best = d; progress = true; continue; }
      uint64_t lo = 0, hi = best[i]; // lo passes, hi fails
      for (int it = 0; it < 8 && hi - lo > 1 && now() < end; it++) {
        uint64_t m = lo + (hi - lo) / 2;
        d = best;
        d[i] = m;
        if (fails(d)) { hi = m; best = d; progress = true; }
        else lo = m;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch == '\t') o += "\\t";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

struct FacetStats {
  uint64_t cases = 0, nontrivial = 0, inner = 0, discarded = 0;
  std::map<std::string, uint64_t> labels;
};

static void load_known() {
  std::ifstream f(std::string{getenv("PBT_HOME") ? getenv("PBT_HOME") : "/verif"} +
                  "/known_findings.txt");
  std::string line;
  // finding: property=C16 slug=... text
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string kind, prop, slug;
    s >> kind >> prop >> slug;
    if (kind != "finding:" || prop != "property=" + g_property) continue;
    if (slug.rfind("slug=", 0) != 0) continue;
    std::string text;
    std::getline(s, text);
    g_known[slug.substr(5)] = text;
  }
}

static void write_replay(const std::string& path, const std::string& facet,
                         const std::vector<uint64_t>& d, const std::string& msg,
                         const std::string& desc, bool thorough) {
  std::ofstream o(path);
  o << "property " << g_property << "\nfacet " << facet << "\nthorough "
    << thorough << "\nchoices " << d.size();
  for (auto v : d) o << ' ' << v;
  o << "\n--- what failed\n" << msg << "\n--- the case\n" << desc << "\n";
}

static void write_replay(const std::string& path, const Property& P, const Sequence& q,
                         uint64_t seed, const std::string& msg,
                         const std::string& desc, bool thorough) {
  std::ofstream o(path);
  o << "property " << g_property << "\nthorough " << thorough << "\nseed " << seed << "\n";
  for (auto& [f, i] : q) o << "case " << P.facets[f].name << ' ' << i << "\n";
  o << "--- what failed\n" << msg << "\n--- the last case\n" << desc << "\n";
}

int run(int argc, char** argv, const Property& P) {
  g_property = P.id;
  load_known();
  const char* home_c = getenv("PBT_HOME");
  std::string home = home_c ? home_c : "/verif";
  const char* seed_c = getenv("VERIF_SEED");
  uint64_t seed = seed_c ? strtoull(seed_c, nullptr, 10) : 1;
  const char* tier_c = getenv("VERIF_TIER");
  bool thorough = tier_c && std::string{tier_c} == "thorough";
  std::string only, replay;
  double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--facet" && i + 1 < argc) only = argv[++i];
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
  }
  char tmpl[] = "/tmp/minimc_pbt_XXXXXX";
  g_scratch_root = mkdtemp(tmpl);
  struct Cleanup {
    std::string d;
    pid_t owner = getpid();
    ~Cleanup() { if (getpid() == owner) { std::error_code e; fs::remove_all(d, e); } }
  } cleanup{g_scratch_root};

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, facet;
    std::vector<uint64_t> d;
    bool th = false;
    Sequence seq;
    uint64_t seq_seed = 0;
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string k;
      s >> k;
      if (k == "---") break;
      if (k == "seed") s >> seq_seed;
      if (k == "case") {
        std::string name;
        uint64_t i;
        s >> name >> i;
        for (size_t j = 0; j < P.facets.size(); j++)
          if (P.facets[j].name == name) seq.push_back({j, i});
      }
      if (k == "facet") s >> facet;
      else if (k == "thorough") s >> th;
      else if (k == "choices") {
        size_t n;
        s >> n;
        uint64_t v;
        while (s >> v) d.push_back(v);
        break;
      }
    }
    if (!seq.empty()) {
      auto o = run_sequence(P, seq, seq_seed, th);
      printf("%s\n%s\n", o.msg.c_str(), o.desc.c_str());
      if (o.failed) printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), replay.c_str());
      else printf("replay passes\n");
      return o.failed ? 1 : 0;
    }
    for (auto& fa : P.facets)
      if (fa.name == facet) {
        for (int i = 0; i < (fa.nondet ? 50 : 1); i++) {
          auto o = run_stored(fa, d, th);
          if (o.failed) {
            printf("%s\n%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(),
                   o.desc.c_str(), P.id.c_str(), replay.c_str());
            return 1;
          }
          if (i == 0) printf("%s", o.desc.c_str());
        }
        printf("replay passes\n");
        return 0;
      }
    fprintf(stderr, "no facet %s\n", facet.c_str());
    return 2;
  }

  double t0 = now();
  double soft = thorough ? 1e9 : 420;
  if (const char* b = getenv("PBT_BUDGET_S")) soft = atof(b);
  int W = 8;
  if (const char* w = getenv("PBT_WORKERS")) W = std::max(1, atoi(w));
  auto* ctl = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Shared*> sh(W);
  for (auto& s : sh)
    s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::vector<int> counts;
  for (auto& f : P.facets) {
    int n = thorough ? f.thorough : f.quick;
    n = std::max(1, (int)std::lround(n * scale));
    if (!only.empty() && f.name != only) n = 0;
    counts.push_back(n);
  }
  std::vector<pid_t> pids(W);
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pids[w] = fork();
    if (pids[w] != 0) continue;
    // ---- worker ----
    mute();
    std::string err = cat(g_scratch_root, "/worker", w, ".err");
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    std::ofstream out(cat(g_scratch_root, "/worker", w, ".out"));
    std::vector<FacetStats> st(P.facets.size());
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::set<std::string> knowns;
    bool failed = false;
    for (size_t fi = 0; fi < P.facets.size() && !failed; fi++) {
      const auto& f = P.facets[fi];
      int nsample = 0;
      for (int i = (w + (int)fi) % W; i < counts[fi]; i += W) {
        if (ctl->stop || now() - t0 > soft) break;
        Case c;
        c.thorough = thorough;
        c.rng = case_rng(f, seed, i);
        c.sh = sh[w];
        sh[w]->facet = fi;
        sh[w]->index = i;
        sh[w]->count = 0;
        sh[w]->stage = 1;
        limit_cpu(cpu_limit(f, thorough));
        std::string m = execute(f, c);
        limit_cpu(0);
        sh[w]->stage = 0;
        auto& s = st[fi];
        s.cases++;
        s.inner += c.inner;
        for (auto& l : c.labels) s.labels[l]++;
        for (auto& k : c.knowns) knowns.insert(k);
        if (c.nontriv) {
          uint64_t h = 1469598103934665603ull ^ fi;
          for (auto v : c.data) h = mix64(h ^ v);
          if (seen.insert(h).second) {
            s.nontrivial++;
            if (nsample < 1 && (w + fi) % W == 0) {
              nsample++;
              samples.push_back("[" + f.name + "] " + c.description);
            }
          }
        }
        if (!m.empty()) {
          out << "FAIL " << fi << " " << i << " " << c.data.size();
          for (auto v : c.data) out << ' ' << v;
          out << "\n";
          failed = true;
          ctl->stop = 1;
          break;
        }
      }
    }
    for (size_t fi = 0; fi < st.size(); fi++) {
      out << "STAT " << fi << ' ' << st[fi].cases << ' ' << st[fi].nontrivial
          << ' ' << st[fi].inner << "\n";
      for (auto& [l, n] : st[fi].labels)
        out << "LABEL " << fi << ' ' << n << ' ' << l << "\n";
    }
    for (auto& k : knowns) out << "KNOWN " << k << "\n";
    for (auto& s : samples) {
      std::string t = s.substr(0, 1500);
      out << "SAMPLE " << t.size() << "\n" << t << "\n";
    }
    out.flush();
    out.close();
    std::error_code e;
    fs::remove_all(g_scratch_root + "/" + std::to_string(getpid()), e);
    _exit(0);
  }
  struct Cand { size_t facet; uint64_t index; int worker; std::vector<uint64_t> data; };
  std::vector<Cand> cands;
  for (int w = 0; w < W; w++) {
    int stt = 0;
    pid_t got = 0;
    // any worker may die first: reap in any order
    while ((got = waitpid(-1, &stt, 0)) < 0 && errno == EINTR) {}
    int idx = -1;
    for (int j = 0; j < W; j++) if (pids[j] == got) idx = j;
    if (idx < 0) { w--; continue; }
    if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
      ctl->stop = 1;
      Cand c;
      c.facet = sh[idx]->facet;
      c.index = sh[idx]->index;
      c.worker = idx;
      size_t n = std::min<size_t>((size_t)sh[idx]->count, kCap);
      c.data.assign(sh[idx]->data, sh[idx]->data + n);
      cands.push_back(c);
    }
  }
  std::vector<FacetStats> tot(P.facets.size());
  std::vector<std::string> samples;
  std::set<std::string> knowns;
  for (int w = 0; w < W; w++) {
    std::ifstream in(cat(g_scratch_root, "/worker", w, ".out"));
    std::string k;
    while (in >> k) {
      if (k == "FAIL") {
        Cand c;
        size_t n;
        in >> c.facet >> c.index >> n;
        c.worker = w;
        c.data.resize(n);
        for (auto& v : c.data) in >> v;
        cands.push_back(c);
      }
      else if (k == "STAT") {
        size_t fi;
        uint64_t a, b, d;
        in >> fi >> a >> b >> d;
        tot[fi].cases += a;
        tot[fi].nontrivial += b;
        tot[fi].inner += d;
      }
      else if (k == "LABEL") {
        size_t fi;
        uint64_t n;
        std::string l;
        in >> fi >> n;
        std::getline(in, l);
        tot[fi].labels[l.substr(1)] += n;
      }
      else if (k == "KNOWN") {
        std::string s;
        in >> s;
        knowns.insert(s);
      }
      else if (k == "SAMPLE") {
        size_t n;
        in >> n;
        in.get();
        std::string s(n, ' ');
        in.read(&s[0], n);
        samples.push_back(s);
      }
    }
  }
  int violations = 0;
  std::vector<std::string> lines;
  fs::create_directories(home + "/replays");
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) {
    return std::make_pair(a.facet, a.data.size()) < std::make_pair(b.facet, b.data.size());
  });
  int tried = 0;
  for (auto& cd : cands) {
    if (violations || tried++ >= 4) break;
    const auto& f = P.facets[cd.facet];
    int need = f.nondet ? 1 : 2, runs = f.nondet ? 40 : 3, hits = 0;
    Outcome o;
    for (int i = 0; i < runs && hits < need; i++) {
      auto r = run_stored(f, cd.data, thorough);
      if (r.failed) { hits++; o = r; }
      if (r.hang) hits = need; // a second time: the worker was stopped before
    }
    if (hits < need && !f.nondet) {
      Sequence all;
      for (size_t fi = 0; fi <= cd.facet; fi++)
        for (uint64_t i = (cd.worker + fi) % W; i < (uint64_t)counts[fi]; i += W) {
          if (fi == cd.facet && i > cd.index) break;
          all.push_back({fi, i});
        }
      int execs = 0;
      auto q = find_sequence(P, all, seed, thorough, thorough ? 900 : 150, o, execs);
      if (!q.empty()) {
        uint64_t h = 7;
        for (auto& [fi, i] : q) h = mix64(h ^ fi ^ (i << 8));
        std::string path = cat(home, "/replays/", P.id, "-", f.name, "-", std::hex, h & 0xffffffff, ".txt");
        write_replay(path, P, q, seed, o.msg, o.desc, thorough);
        printf("facet %s: %s\n%s\n(shrunk from %zu to %zu cases in one process in %d runs)\n",
               f.name.c_str(), o.msg.c_str(), o.desc.substr(0, 3000).c_str(), all.size(),
               q.size(), execs);
        lines.push_back(cat("VIOLATION property=", P.id, " replay=", path));
        violations++;
        continue;
      }
    }
    if (hits < need) {
      printf("note: a failing case of facet %s did not fail again (%d of %d); not reported\n",
             f.name.c_str(), hits, runs);
      continue;
    }
    int execs = 0;
    double shrink_s = thorough ? 120 : 40;
    if (const char* b = getenv("PBT_SHRINK_S")) shrink_s = atof(b);
    bool asis = f.nondet || o.hang || shrink_s <= 0;
    auto best = asis ? cd.data : shrink(f, cd.data, thorough, shrink_s, execs);
    auto fin = o.hang ? o : run_stored(f, best, thorough);
    if (!fin.failed) { best = cd.data; fin = o; }
    uint64_t h = 7;
    for (auto v : best) h = mix64(h ^ v);
    std::string path = cat(home, "/replays/", P.id, "-", f.name, "-", std::hex, h & 0xffffffff, ".txt");
    write_replay(path, f.name, best, fin.msg, fin.desc, thorough);
    printf("facet %s: %s\n%s\n(shrunk from %zu to %zu choices in %d runs)\n",
           f.name.c_str(), fin.msg.c_str(), fin.desc.substr(0, 3000).c_str(),
           cd.data.size(), best.size(), execs);
    lines.push_back(cat("VIOLATION property=", P.id, " replay=", path));
    violations++;
  }
  for (auto& k : knowns)
    printf("KNOWN-FINDING: property=%s slug=%s%s\n", P.id.c_str(), k.c_str(),
           g_known[k].c_str());
  // ---- evidence ----
  uint64_t ev = 0, nt = 0, inner = 0;
  for (auto& s : tot) { ev += s.cases; nt += s.nontrivial; inner += s.inner; }
  fs::create_directories(home + "/evidence");
  {
    std::ofstream e(home + "/evidence/" + P.id + ".json");
    e.precision(6);
    e << "{\n \"property\": \"" << P.id << "\",\n \"tier\": \""
      << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << nt
      << ",\n  \"inner_evaluations\": " << inner << ",\n  \"rule\": \""
      << jesc(P.rule) << "\",\n  \"facets\": {";
    for (size_t i = 0; i < tot.size(); i++) {
      e << (i ? "," : "") << "\n   \"" << P.facets[i].name << "\": {\"cases\": "
        << tot[i].cases << ", \"distinct_nontrivial\": " << tot[i].nontrivial
        << ", \"inner\": " << tot[i].inner << ", \"classes\": {";
      bool first = true;
      for (auto& [l, n] : tot[i].labels) {
        e << (first ? "" : ", ") << "\"" << jesc(l) << "\": " << n;
        first = false;
      }
      e << "}}";
    }
    e << "\n  },\n  \"known_findings_seen\": [";
    bool first = true;
    for (auto& k : knowns) { e << (first ? "" : ", ") << "\"" << jesc(k) << "\""; first = false; }
    e << "],\n  \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 12; i++)
      e << (i ? "," : "") << "\n   \"" << jesc(samples[i]) << "\"";
    e << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < P.assumptions.size(); i++)
      e << (i ? ", " : "") << "\"" << jesc(P.assumptions[i]) << "\"";
    e << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations
      << "\n}\n";
  }
  for (size_t i = 0; i < tot.size(); i++) {
    if (!tot[i].cases) continue;
    printf("%-28s cases %-7lu nontrivial %-7lu inner %-10lu", P.facets[i].name.c_str(),
           tot[i].cases, tot[i].nontrivial, tot[i].inner);
    for (auto& [l, n] : tot[i].labels) printf(" %s=%lu", l.c_str(), n);
    printf("\n");
  }
  printf("%s %s seed=%lu: %lu cases, %lu distinct non-trivial, %.1f s\n", P.id.c_str(),
         thorough ? "thorough" : "quick", seed, ev, nt, now() - t0);
  for (auto& l : lines) printf("%s\n", l.c_str());
  fflush(stdout);
  return violations ? 1 : 0;
}

// ---- statistics -------------------------------------------------------------
double gammaq(double a, double x) {
  if (x <= 0) return 1;
  double lg = std::lgamma(a);
  if (x < a + 1) {
    double sum = 1 / a, d = sum;
    for (int n = 1; n < 10000; n++) {
      d *= x / (a + n);
      sum += d;
      if (std::fabs(d) < std::fabs(sum) * 1e-15) break;
    }
    return 1 - sum * std::exp(-x + a * std::log(x) - lg);
  }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 10000; i++) {
    double an = -i * (i - a);
    b += 2;
    d = an * d + b;
    if (std::fabs(d) < 1e-300) d = 1e-300;
    c = b + an / c;
    if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return std::exp(-x + a * std::log(x) - lg) * h;
}
double chi2_p(double chi2, double dof) { return dof <= 0 ? 1 : gammaq(dof / 2, chi2 / 2); }
double normal_p2(double z) { return std::erfc(std::fabs(z) / std::sqrt(2.)); }
double multinomial_p(const std::vector<double>& counts, const std::vector<double>& probs) {
  double n = 0, ps = 0;
  for (auto c : counts) n += c;
  for (auto p : probs) ps += p;
  double chi = 0, pe = 0, pc = 0;
  int cells = 0;
  for (size_t i = 0; i < counts.size(); i++) {
    double e = n * probs[i] / ps;
    if (probs[i] <= 0) { if (counts[i] > 0) return 0; continue; }
    if (e < 8) { pe += e; pc += counts[i]; continue; }
    chi += (counts[i] - e) * (counts[i] - e) / e;
    cells++;
  }
  double p_rare = 1;
  if (pe >= 8) { chi += (pc - pe) * (pc - pe) / pe; cells++; }
  else if (pe > 0 && pc > pe) {
    // Poisson upper tail for the pooled rare cells
    p_rare = 1 - gammaq(pc, pe);
  }
  double p = cells > 1 ? chi2_p(chi, cells - 1) : 1;
  if (cells == 1 && pe <= 0 && chi > 1e-6) p = 0;
  return std::min(p, p_rare);
}
double two_sample_p(const std::vector<double>& a, const std::vector<double>& b) {
  double na = 0, nb = 0;
  for (auto x : a) na += x;
  for (auto x : b) nb += x;
  if (na == 0 || nb == 0) return 1;
  double chi = 0;
  int cells = 0;
  double ra = 0, rb = 0;
  auto add = [&](double x, double y) {
    double t = x + y;
    if (t <= 0) return;
    double ea = t * na / (na + nb), eb = t * nb / (na + nb);
    chi += (x - ea) * (x - ea) / ea + (y - eb) * (y - eb) / eb;
    cells++;
  };
  for (size_t i = 0; i < a.size(); i++) {
    double t = a[i] + b[i];
    if (t * std::min(na, nb) / (na + nb) < 8) { ra += a[i]; rb += b[i]; }
    else add(a[i], b[i]);
  }
  if ((ra + rb) * std::min(na, nb) / (na + nb) >= 8) add(ra, rb);
  return cells > 1 ? chi2_p(chi, cells - 1) : 1;
}
static double ks_q(double l) {
  if (l < 0.2) return 1;
  double s = 0;
  for (int k = 1; k < 101; k++) {
    double t = 2 * ((k & 1) ? 1 : -1) * std::exp(-2. * k * k * l * l);
    s += t;
    if (std::fabs(t) < 1e-18) break;
  }
  return std::min(1., std::max(0., s));
}
double ks_p(std::vector<double> v, const std::function<double(double)>& cdf) {
  std::sort(v.begin(), v.end());
  double n = v.size(), d = 0;
  for (size_t i = 0; i < v.size(); i++) {
    if (!(v[i] == v[i])) return 0;
    double f = cdf(v[i]);
    d = std::max({d, f - i / n, (i + 1) / n - f});
  }
  return ks_q(d * (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)));
}
double ks2_p(std::vector<double> a, std::vector<double> b) {
  for (auto x : a) if (!(x == x)) return 0;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  size_t i = 0, j = 0;
  double d = 0, na = a.size(), nb = b.size();
  while (i < a.size() && j < b.size()) {
    double x = std::min(a[i], b[j]);
    while (i < a.size() && a[i] <= x) i++;
    while (j < b.size() && b[j] <= x) j++;
    d = std::max(d, std::fabs(i / na - j / nb));
  }
  double ne = std::sqrt(na * nb / (na + nb));
  return ks_q(d * (ne + 0.12 + 0.11 / ne));
}
void confirm(Case& c, const std::string& what, uint64_t n,
             const std::function<double(int, uint64_t)>& f) {
  c.evals(n);
  double p1 = f(0, n);
  if (p1 >= 1e-4) return;
  c.evals(4 * n);
  double p2 = f(1, 4 * n);
  if (p2 >= 1e-8) return;
  c.fail(cat(what, ": the sampled distribution contradicts the specified one (p = ",
             p1, " on ", n, " samples, then p = ", p2, " on ", 4 * n, " fresh samples)"));
}
} // namespace pbt
