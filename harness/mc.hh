// Exploration runner shared by all drivers: forked workers over an indexed
// space of work items, crash and hang containment, counters, known findings,
// evidence.  Verdict: exit 0 (held on everything explored) or exit 1 with
// VIOLATION lines.
#ifndef MC_HH
#define MC_HH
#include <atomic>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace mc {

inline uint64_t hash64(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h ? h : 1;
}

inline double now() {
  struct timeval tv; gettimeofday(&tv, 0);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline std::string join(const std::vector<int>& v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  return o.str();
}
inline std::vector<int> split(const std::string& s) {
  std::vector<int> v; std::istringstream i(s); std::string t;
  while (std::getline(i, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
  return v;
}

struct Shared {
  std::atomic<uint64_t> next, states, transitions, evals, traces, nviol, stop, skipped;
  std::atomic<uint64_t> extra[16];
};
struct Slot { std::atomic<uint64_t> beat; volatile int busy; char cur[8192]; };

class Runner;

// Handed to the code that explores one work item.
struct Ctx {
  Runner* r; Slot* slot; int fd; int fdo = -1; int nviol = 0;
  // Adds a history to the next level of Runner::bfs.
  void emit(const std::string& h) { out += h; out += '\n'; if (out.size() > 60000) flush(); }
  void flush() { size_t n = 0; while (n < out.size()) { ssize_t k = write(fdo, out.data() + n, out.size() - n); if (k <= 0) break; n += k; } out.clear(); }
  std::string out;
  std::set<std::string> sigs;
  std::string cur;
  // Names the case about to be executed (enough to replay it).
  void begin(const std::string& c) {
    cur = c;
    size_t n = std::min(c.size(), sizeof(slot->cur) - 1);
    memcpy(slot->cur, c.data(), n); slot->cur[n] = 0;
    slot->beat.fetch_add(1, std::memory_order_relaxed);
  }
  void violation(const std::string& sig, const std::string& msg);
  bool state(const std::string& key);       // true if not seen before
  void transitions(uint64_t n = 1);
  void evals(uint64_t n = 1);
  void trace(uint64_t n = 1);
  void extra(int i, uint64_t n = 1);
  bool timeup() const;
};

class Runner {
 public:
  std::string id, tier, evid, replayCase;
  bool quick, replaying;
  long seed;
  double t0, budget;
  int jobs;
  Shared* sh; Slot* slots;
  std::atomic<uint64_t>* table; size_t tablebits;
  std::string dir;
  std::vector<std::string> samples, assumptions;
  std::vector<std::pair<std::string, std::string>> extras; // name, raw json
  std::vector<std::string> extraNames;
  std::map<std::string, std::string> known;      // sig -> text
  struct V { std::string sig, cas, msg; };
  std::vector<V> viols;
  bool exhaustive = true;
  std::string level = "model_checking", rule;
  double hang = 120;

  Runner(const std::string& pid, int argc, char** argv) : id(pid) {
    const char* t = getenv("VERIF_TIER"); tier = (t && std::string(t) == "thorough") ? "thorough" : "quick";
    quick = tier == "quick";
    const char* s = getenv("VERIF_SEED"); seed = s ? atol(s) : 1;
    const char* v = getenv("VERIF_DIR"); std::string verif = v ? v : ".";
    evid = verif + "/evidence/" + id + ".json";
    const char* j = getenv("VERIF_JOBS"); jobs = j ? atoi(j) : 8;
    const char* b = getenv("VERIF_BUDGET"); budget = b ? atof(b) : (quick ? 420 : 3000);
    replaying = false;
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--case")) { replaying = true; replayCase = argv[i + 1]; }
    t0 = now();
    tablebits = 25;
    sh = (Shared*)shm(sizeof(Shared)); slots = (Slot*)shm(sizeof(Slot) * 64);
    table = (std::atomic<uint64_t>*)shm(sizeof(uint64_t) << tablebits);
    dir = verif + "/build/work-" + id + "-" + std::to_string(getpid());
    mkdir((verif + "/build").c_str(), 0777);
    mkdir(dir.c_str(), 0777);
    std::ifstream kf((verif + "/known_findings.txt").c_str()); std::string line;
    while (std::getline(kf, line)) {
      std::string p = "finding: property=" + id + " sig=";
      if (line.compare(0, p.size(), p) == 0) {
        size_t e = line.find(" -- ");
        known[line.substr(p.size(), e == std::string::npos ? e : e - p.size())] =
            e == std::string::npos ? line : line.substr(e + 4);
      }
    }
  }
  static void* shm(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  }
  bool addState(const std::string& key) {
    uint64_t h = hash64(key); size_t m = (size_t(1) << tablebits) - 1, i = h & m;
    for (size_t n = 0; n < m; ++n, i = (i + 1) & m) {
      uint64_t cur = table[i].load(std::memory_order_relaxed);
      if (cur == h) return false;
      if (cur == 0) {
        uint64_t z = 0;
        if (table[i].compare_exchange_strong(z, h)) { sh->states++; return true; }
        if (z == h) return false;
      }
    }
    return false;
  }
  bool timeup() const { return now() - t0 > budget; }

  // Explores items 0..n-1 in worker processes.  A worker that dies or hangs is
  // itself a finding: its current case is reported.
  void parallel(size_t n, const std::function<void(size_t, Ctx&)>& f) {
    sh->next = 0;
    int w = (int)std::min<size_t>(jobs, n ? n : 1);
    std::map<pid_t, int> kids; std::vector<uint64_t> lastBeat(w, 0); std::vector<double> lastT(w, now());
    auto spawn = [&](int k) {
      fflush(stdout); std::cout.flush();
      std::string file = dir + "/v" + std::to_string(k);
      pid_t p = fork();
      if (p == 0) {
        int nul = open("/dev/null", O_WRONLY);
        if (!getenv("MC_VERBOSE")) { dup2(nul, 1); dup2(nul, 2); }
        Ctx c; c.r = this; c.slot = &slots[k]; c.fd = open(file.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
        for (;;) {
          uint64_t i = sh->next++;
          if (i >= n) break;
          if (sh->stop) { sh->skipped++; continue; }
          if (timeup()) { sh->skipped++; continue; }
          slots[k].busy = 1;
          if (bfsOut) c.fdo = bfsFd(k);
          f(i, c);
          if (bfsOut) c.flush();
          slots[k].busy = 0;
        }
        _exit(0);
      }
      kids[p] = k; lastT[k] = now();
    };
    for (int k = 0; k < w; ++k) { slots[k].cur[0] = 0; slots[k].busy = 0; spawn(k); }
    while (!kids.empty()) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int k = kids[p]; kids.erase(p);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
          std::ostringstream m;
          if (WIFSIGNALED(st)) m << "the process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
          else m << "the process exited with status " << WEXITSTATUS(st);
          add("crash:" + crashClass(slots[k].cur), slots[k].cur, m.str());
          slots[k].busy = 0;
          if (sh->next < n && ++crashes < 200) spawn(k);
          else if (sh->next < n) exhaustive = false;
        }
      } else {
        usleep(3000);
        for (auto& e : kids) {
          int k = e.second; uint64_t b = slots[k].beat;
          if (b != lastBeat[k] || !slots[k].busy) { lastBeat[k] = b; lastT[k] = now(); }
          else if (now() - lastT[k] > hang) {
            add("hang:" + crashClass(slots[k].cur), slots[k].cur, "no progress on one case for " + std::to_string((int)hang) + " s");
            kill(e.first, SIGKILL); lastT[k] = now() + 1e6; hung.insert(e.first);
          }
        }
      }
    }
    for (int k = 0; k < w; ++k) readViol(dir + "/v" + std::to_string(k));
    if (sh->skipped) exhaustive = false;
  }
  // Breadth-first over histories: f runs one history and, if it reached a state
  // not seen before, emits its successors.  Level by level, so that the first
  // history to reach a state is a shortest one.  Returns the depth completed.
  int bfs(std::vector<std::string> frontier, int depth, const std::function<void(const std::string&, Ctx&)>& f) {
    int d = 0; bfsOut = true;
    for (; d <= depth && !frontier.empty(); ++d) {
      std::ostringstream l; l << (levels.empty() ? "" : ",") << frontier.size(); levels += l.str();
      parallel(frontier.size(), [&](size_t i, Ctx& c) { f(frontier[i], c); });
      std::vector<std::string> next;
      for (int k = 0; k < 64; ++k) {
        std::string n = dir + "/f" + std::to_string(k); std::ifstream in(n.c_str()); std::string line;
        if (!in) continue;
        while (std::getline(in, line)) next.push_back(line);
        in.close(); unlink(n.c_str());
      }
      if (d == depth) { frontier.clear(); ++d; break; }
      frontier.swap(next);
      if (timeup()) { exhaustive = false; break; }
    }
    bfsOut = false;
    return d - 1;
  }
  std::string levels;
  // Which part of the case names the crash class: up to the first '|'.
  static std::string crashClass(const std::string& c) { return c.substr(0, c.find('|')); }
  void add(const std::string& sig, const std::string& cas, const std::string& msg) {
    if (sig.compare(0, 6, "crash:") == 0 && hungNow()) return;
    for (auto& v : viols) if (v.sig == sig) return;
    viols.push_back({sig, cas, msg});
  }
  bool hungNow() { if (hung.empty()) return false; hung.clear(); return true; }
  void readViol(const std::string& file) {
    std::ifstream f(file.c_str()); std::string line;
    while (std::getline(f, line)) {
      size_t a = line.find('\t'), b = line.find('\t', a + 1);
      if (a == std::string::npos || b == std::string::npos) continue;
      add(line.substr(0, a), line.substr(a + 1, b - a - 1), line.substr(b + 1));
    }
    f.close(); unlink(file.c_str());
  }
  void replay(const std::function<void(Ctx&, const std::string&)>& f) {
    Ctx c; c.r = this; c.slot = &slots[0]; c.fd = open((dir + "/v0").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
    c.begin(replayCase);
    f(c, replayCase);
    readViol(dir + "/v0");
    for (auto& v : viols) std::cout << "REPLAYED " << v.sig << "\n  case: " << v.cas << "\n  " << v.msg << "\n";
    if (viols.empty()) std::cout << "no violation on replay\n";
    rmdir(dir.c_str());
    exit(viols.empty() ? 0 : 1);
  }
  void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
  void extraCount(int i, const std::string& name) { if ((int)extraNames.size() <= i) extraNames.resize(i + 1); extraNames[i] = name; }
  int finish() {
    const char* v = getenv("VERIF_DIR"); std::string verif = v ? v : ".";
    rmdir(dir.c_str());
    int bad = 0; std::set<std::string> usedKnown;
    std::string rd = verif + "/build/replay"; mkdir(rd.c_str(), 0777);
    for (auto& x : viols) {
      if (known.count(x.sig)) { usedKnown.insert(x.sig); continue; }
      ++bad;
      if (bad > 20 && !getenv("MC_ALL")) continue;
      std::string path = rd + "/" + id + "-" + std::to_string(bad) + ".txt";
      std::ofstream o(path.c_str());
      o << x.cas << "\n" << "signature: " << x.sig << "\n" << x.msg << "\n";
      o.close();
      std::cout << "VIOLATION property=" << id << " replay=" << path << "\n    " << x.sig << "\n    case: " << x.cas << "\n    " << x.msg << "\n";
    }
    for (auto& k : known) if (usedKnown.count(k.first))
      std::cout << "KNOWN-FINDING: property=" << id << " " << k.first << " -- " << k.second << "\n";
    double wall = now() - t0;
    std::ofstream o(evid.c_str());
    o << "{\"property\":" << jstr(id) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed
      << ",\"level\":" << jstr(level) << ",\"coverage\":{";
    o << "\"states\":" << sh->states << ",\"transitions\":" << sh->transitions
      << ",\"traces_validated_against_impl\":" << sh->traces << ",\"evaluations\":" << sh->evals;
    for (size_t i = 0; i < extraNames.size(); ++i) if (!extraNames[i].empty())
      o << "," << jstr(extraNames[i]) << ":" << sh->extra[i];
    for (auto& e : extras) o << "," << jstr(e.first) << ":" << e.second;
    if (!rule.empty()) o << ",\"rule\":" << jstr(rule);
    o << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jstr(samples[i]);
    o << "]},\"assumptions\":[";
    for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? "," : "") << jstr(assumptions[i]);
    o << "],\"wall_s\":" << wall << ",\"violations\":" << bad << "}\n";
    o.close();
    std::cout << id << " " << tier << ": states=" << sh->states << " transitions=" << sh->transitions
              << " traces=" << sh->traces << " evaluations=" << sh->evals
              << (exhaustive ? " (complete within bounds)" : " (stopped early)") << " violations=" << bad
              << " wall=" << wall << "s" << std::endl;
    return bad ? 1 : 0;
  }
 private:
  bool bfsOut = false; std::map<int, int> bfsFds;
  int bfsFd(int k) {
    if (!bfsFds.count(k)) bfsFds[k] = open((dir + "/f" + std::to_string(k)).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
    return bfsFds[k];
  }
  int crashes = 0;
  std::set<pid_t> hung;
};

inline void Ctx::violation(const std::string& sig, const std::string& msg) {
  if (!sigs.insert(sig).second) return;
  if (++nviol > 400) return;
  std::string m = msg, c = cur;
  for (auto& ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
  for (auto& ch : c) if (ch == '\n' || ch == '\t') ch = ' ';
  std::string line = sig + "\t" + c + "\t" + m.substr(0, 3000) + "\n";
  if (write(fd, line.data(), line.size())) {}
}
inline bool Ctx::state(const std::string& key) { return r->addState(key); }
inline void Ctx::transitions(uint64_t n) { r->sh->transitions += n; }
inline void Ctx::evals(uint64_t n) { r->sh->evals += n; }
inline void Ctx::trace(uint64_t n) { r->sh->traces += n; }
inline void Ctx::extra(int i, uint64_t n) { r->sh->extra[i] += n; }
inline bool Ctx::timeup() const { return r->timeup(); }

}
#endif
