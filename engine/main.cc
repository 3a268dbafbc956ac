// Runner.  Usage:
//   bin list
//   bin run TARGET seed=S start=A count=N step=K budget=SECS out=FILE replay=FILE cpu=SECS
//   bin replay FILE            (exit 1 and prints the failure if it still fails)
#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

namespace pbt {
std::vector<Target>& targets() { static std::vector<Target> t; return t; }

struct Shared {
  int status;  // 0 not finished, 1 ok, 2 failed
  int nontrivial;
  uint64_t evals;
  uint32_t ntape, nlabels, nnote, nmsg;
  uint64_t tape[1 << 17];
  char labels[1 << 14];
  char note[1 << 16];
  char msg[1 << 14];
};
static Shared* sh;
static int cpu_limit = 20;

static void put(char* dst, uint32_t& n, size_t cap, const std::string& s) {
  n = static_cast<uint32_t>(std::min(cap - 1, s.size()));
  std::memcpy(dst, s.data(), n); dst[n] = 0;
}
struct Result {
  bool ok = true; bool crashed = false; std::string msg, labels, note; bool nontrivial = false; uint64_t evals = 0;
  std::vector<uint64_t> tape;
};
static Ctx* cur = nullptr;
static void flush_partial(Ctx& c) {
  sh->ntape = std::min<size_t>(c.out_.size(), sizeof(sh->tape) / 8);
  std::memcpy(sh->tape, c.out_.data(), sh->ntape * 8);
  put(sh->labels, sh->nlabels, sizeof sh->labels, c.labels_);
  put(sh->note, sh->nnote, sizeof sh->note, c.note_.str());
  sh->nontrivial = c.nontrivial_; sh->evals = c.evals_;
}
static void on_signal(int s) {
  if (cur) flush_partial(*cur);  // best effort
  signal(s, SIG_DFL); raise(s);
}
static Result run_case(const Target& t, bool replay, const std::vector<uint64_t>& in, uint64_t rngseed) {
  sh->status = 0; sh->ntape = sh->nlabels = sh->nnote = sh->nmsg = 0; sh->nontrivial = 0; sh->evals = 0; sh->labels[0] = sh->note[0] = sh->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl; rl.rlim_cur = cpu_limit; rl.rlim_max = cpu_limit + 1; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) signal(s, on_signal);
    if (!getenv("PBT_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("PBT_STDERR")) dup2(fd, 2); }
    static Ctx c;
    cur = &c;
    c.replay_ = replay; c.in_ = in; c.rng_ = rngseed; c.note_.precision(12);
    int st = 1;
    std::string msg;
    try { t.fn(c); }
    catch (const Failure& f) { st = 2; msg = f.msg; }
    catch (const std::exception& e) { st = 2; msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { st = 2; msg = "unexpected exception"; }
    flush_partial(c);
    put(sh->msg, sh->nmsg, sizeof sh->msg, msg);
    sh->status = st;
    fflush(stdout); fflush(stderr);
    _exit(0);
  }
  Result r;
  if (pid < 0) { r.msg = "fork failed"; perror("fork"); exit(3); }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  r.labels.assign(sh->labels, sh->nlabels); r.note.assign(sh->note, sh->nnote);
  r.tape.assign(sh->tape, sh->tape + sh->ntape);
  r.nontrivial = sh->nontrivial; r.evals = sh->evals;
  if (sh->status == 1 && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return r;
  r.ok = false;
  if (sh->status == 2) { r.msg.assign(sh->msg, sh->nmsg); return r; }
  r.crashed = true;
  std::ostringstream o;
  if (WIFSIGNALED(ws)) {
    int s = WTERMSIG(ws);
    if (s == SIGKILL) { o << "killed"; }
    else if (s == SIGXCPU) o << "did not terminate within " << cpu_limit << " s of CPU time";
    else o << "crashed with signal " << s << " (" << strsignal(s) << ")";
  } else o << "process exited with status " << WEXITSTATUS(ws) << " (sanitizer report or exit() inside the code)";
  r.msg = o.str();
  return r;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// Failures of a different kind (crash <-> oracle message) are not accepted while shrinking.
static Result shrink(const Target& t, Result best, double budget, int& tries) {
  double end = now() + budget;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now() > end) return false;
    ++tries;
    Result r = run_case(t, true, cand, 0);
    if (r.ok || r.crashed != best.crashed) return false;
    if (r.tape.empty() || r.tape.size() > cand.size()) r.tape = cand;  // crash before flush
    best = r;
    return true;
  };
  if (best.tape.empty()) return best;
  bool improved = true;
  while (improved && now() < end) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1; len /= 2) {
      for (size_t p = 0; p + len <= best.tape.size() && now() < end;) {
        std::vector<uint64_t> cand = best.tape;
        cand.erase(cand.begin() + p, cand.begin() + p + len);
        size_t before = best.tape.size();
        if (attempt(cand) && best.tape.size() < before) improved = true; else p += len;
      }
      if (len == 1) break;
    }
    for (size_t p = 0; p < best.tape.size() && now() < end; ++p) {
      if (best.tape[p] == 0) continue;
      std::vector<uint64_t> cand = best.tape;
      cand[p] = 0;
      if (attempt(cand)) { improved = true; continue; }
      for (int k = 0; k < 40 && p < best.tape.size() && best.tape[p] > 1; ++k) {
        cand = best.tape; cand[p] /= 2;
        if (!attempt(cand)) break;
        improved = true;
      }
      if (p < best.tape.size() && best.tape[p] > 0 && best.tape[p] < 64) {
        cand = best.tape; cand[p] -= 1;
        if (attempt(cand)) improved = true;
      }
    }
  }
  return best;
}

static int replay_file(const std::string& file) {
  std::ifstream f(file);
  std::string line, target; std::vector<uint64_t> tape; bool rng = false; uint64_t seed = 0;
  while (std::getline(f, line)) {
    if (line.rfind("target=", 0) == 0) target = line.substr(7);
    if (line.rfind("rng=", 0) == 0) { rng = true; seed = strtoull(line.c_str() + 4, nullptr, 10); }
    if (line.rfind("tape=", 0) == 0) { std::istringstream is(line.substr(5)); uint64_t v; while (is >> v) tape.push_back(v); }
  }
  for (const Target& t : targets())
    if (target == t.name) {
      Result r = run_case(t, !rng, tape, seed);
      if (r.ok) { std::cout << "PASS " << target << "\n"; return 0; }
      std::cout << "FAIL " << target << ": " << r.msg << "\n--- case ---\n" << r.note << "\n";
      return 1;
    }
  std::cerr << "unknown target " << target << "\n";
  return 3;
}
}  // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) {
  using namespace pbt;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") { for (auto& t : targets()) std::cout << t.name << "\t" << t.rule << "\n"; return 0; }
  if (cmd == "replay") return replay_file(argv[2]);
  if (cmd != "run") return 3;
  std::map<std::string, std::string> a;
  for (int i = 3; i < argc; ++i) { std::string s = argv[i]; auto e = s.find('='); a[s.substr(0, e)] = s.substr(e + 1); }
  const Target* t = nullptr;
  for (auto& x : targets()) if (std::string(argv[2]) == x.name) t = &x;
  if (!t) { std::cerr << "unknown target\n"; return 3; }
  uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
  long start = atol(a["start"].c_str()), count = atol(a["count"].c_str()), step = std::max(1l, atol(a["step"].c_str()));
  double budget = atof(a["budget"].c_str());
  if (a.count("cpu")) cpu_limit = atoi(a["cpu"].c_str());
  uint64_t th = hash_bytes(t->name, strlen(t->name));
  std::map<std::string, long> labels;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  long ran = 0, nontriv = 0; uint64_t evals = 0;
  double t0 = now();
  std::ofstream out(a["out"]);
  std::string failjson;
  for (long k = 0; k < count; ++k) {
    if (budget > 0 && now() - t0 > budget) break;
    long idx = start + k * step;
    uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ th; splitmix(s); s ^= static_cast<uint64_t>(idx) * 0xd6e8feb86659fd93ull; splitmix(s);
    Result r = run_case(*t, false, {}, s);
    ++ran; evals += r.evals;
    { std::istringstream is(r.labels); std::string l; std::set<std::string> seen; while (std::getline(is, l)) if (seen.insert(l).second) labels[l]++; }
    if (r.nontrivial) {
      ++nontriv;
      if (distinct.insert(hash_bytes(r.tape.data(), r.tape.size() * 8)).second && samples.size() < 2 && (nontriv % 7 == 3 || k > count / 2))
        samples.push_back(r.note.substr(0, 1500));
    }
    if (r.ok) continue;
    // Confirm: same case again in a fresh process, 3 times.
    int again = 0;
    std::string kinds;
    for (int j = 0; j < 3; ++j) { Result q = run_case(*t, false, {}, s); if (!q.ok) ++again; }
    int tries = 0;
    Result small = r;
    bool replayable_tape = false;
    if (again == 3) {
      if (!r.tape.empty()) {
        Result q = run_case(*t, true, r.tape, 0);
        if (!q.ok) { replayable_tape = true; small = shrink(*t, r, a.count("shrink") ? atof(a["shrink"].c_str()) : 30, tries); }
      }
      if (replayable_tape) for (int j = 0; j < 3; ++j) if (run_case(*t, true, small.tape, 0).ok) { replayable_tape = false; break; }
    }
    std::ofstream rf(a["replay"]);
    rf << "target=" << t->name << "\nseed=" << seed << "\ncase=" << idx << "\n";
    if (replayable_tape) { rf << "tape="; for (auto v : small.tape) rf << v << ' '; rf << "\n"; }
    else { rf << "rng=" << s << "\n"; small = r; }
    rf << "failure=" << jesc(small.msg) << "\n# --- generated case, readable ---\n";
    { std::istringstream is(small.note); std::string l; while (std::getline(is, l)) rf << "# " << l << "\n"; }
    std::ostringstream fj;
    fj << "{\"case\":" << idx << ",\"confirmed\":" << (again == 3 ? "true" : "false") << ",\"msg\":\"" << jesc(small.msg) << "\",\"shrunk_draws\":" << small.tape.size()
       << ",\"orig_draws\":" << r.tape.size() << ",\"shrink_tries\":" << tries << ",\"note\":\"" << jesc(small.note.substr(0, 4000)) << "\"}";
    failjson = fj.str();
    break;
  }
  out << "{\"target\":\"" << t->name << "\",\"ran\":" << ran << ",\"nontrivial\":" << nontriv << ",\"evals\":" << evals << ",\"secs\":" << now() - t0 << ",\"rule\":\"" << jesc(t->rule) << "\",\"labels\":{";
  bool first = true;
  for (auto& l : labels) { out << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
  out << "},\"hashes\":[";
  first = true;
  for (auto h : distinct) { out << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
  out << "],\"samples\":[";
  first = true;
  for (auto& s : samples) { out << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  out << "],\"failure\":" << (failjson.empty() ? "null" : failjson) << "}\n";
  return 0;
}
#else
// libFuzzer entry: the bytes are the tape.  A failing input is saved as a
// replay file by the driver only after it reproduces in the isolated runner.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static const char* name = getenv("PBT_TARGET_NAME");
  static const Target* t = nullptr;
  if (!t) for (auto& x : targets()) if (!name || std::string(name) == x.name) { t = &x; break; }
  if (!t) abort();
  Ctx c; c.bytes_ = data; c.bsize_ = size;
  static const unsigned char z = 0; if (!c.bytes_) c.bytes_ = &z;
  bool bad = false; std::string msg;
  try { t->fn(c); } catch (const Failure& f) { bad = true; msg = f.msg; } catch (const std::exception& e) { bad = true; msg = e.what(); }
  if (bad) {
    const char* f = getenv("PBT_FUZZ_OUT");
    if (f) { std::ofstream rf(f); rf << "target=" << t->name << "\ntape="; for (auto v : c.out_) rf << v << ' '; rf << "\nfailure=" << msg << "\n# " << c.note_.str() << "\n"; }
    fprintf(stderr, "PBT failure: %s\n", msg.c_str());
    abort();
  }
  return 0;
}
#endif
