#include "engine.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <set>

namespace pbt {
namespace {

constexpr size_t max_choices = 1 << 16;
constexpr size_t max_labels = 192;
constexpr size_t text_cap = 1 << 17;
constexpr int exit_fail = 77;
constexpr int exit_asan = 99;

enum : int { oc_none = 0, oc_pass, oc_discard, oc_fail };

struct label_entry {
  char name[64];
  int64_t cases;
  int64_t total;
};

struct shared {
  // Case in progress.
  volatile int64_t index;
  volatile int64_t start_ns;  // 0 if idle
  volatile int outcome;
  volatile bool nontrivial;
  size_t n_choices;
  uint64_t choices[max_choices];
  uint64_t text_len;
  char text[text_cap];
  char fail_msg[8192];
  char fail_key[512];
  // Totals.
  int64_t evaluations;
  int64_t discarded;
  int64_t nontrivials;
  int64_t target_evals[64];
  int64_t target_nontrivial[64];
  int64_t sample_index[64][4];
  int sample_count[64];
  label_entry labels[max_labels];
  size_t n_hashes;
};

shared* S = nullptr;          // The block this process writes to.
uint64_t* hashes = nullptr;   // Hashes of the non-trivial cases of this worker.
size_t hash_cap = 0;

// Choice source state.
bool replaying = false;
std::vector<uint64_t> replay;
uint64_t rng_state[2];

uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t next_random() {
  uint64_t s1 = rng_state[0];
  const uint64_t s0 = rng_state[1];
  const uint64_t result = s0 + s1;
  rng_state[0] = s0;
  s1 ^= s1 << 23;
  rng_state[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return result;
}

void seed_random(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull);
  rng_state[0] = splitmix(x);
  rng_state[1] = splitmix(x) | 1;
}

int64_t now_ns() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

struct shm_buf : std::streambuf {
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize room = static_cast<std::streamsize>(text_cap - 1 - S->text_len);
    std::streamsize m = std::min(n, room);
    if (m > 0) {
      memcpy(S->text + S->text_len, s, m);
      S->text_len += m;
      S->text[S->text_len] = 0;
    }
    return n;
  }
  int overflow(int c) override {
    char ch = static_cast<char>(c);
    xsputn(&ch, 1);
    return c;
  }
};
shm_buf* note_buf = nullptr;

void* map_shared(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return p;
}

std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

}  // namespace

uint64_t gen::below(uint64_t n) {
  uint64_t v;
  if (replaying) {
    v = S->n_choices < replay.size() ? replay[S->n_choices] : 0;
    if (n && v >= n) v = n - 1;
  } else {
    uint64_t r = next_random();
    v = n ? static_cast<uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64) : r;
  }
  if (S->n_choices < max_choices) {
    S->choices[S->n_choices++] = v;
    return v;
  }
  return 0;
}

int64_t gen::range(int64_t lo, int64_t hi) {
  if (lo >= hi) return lo;
  uint64_t n = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
  uint64_t v = below(n);
  // Map so that 0 -> the value closest to zero.
  if (lo >= 0) return lo + static_cast<int64_t>(v);
  if (hi <= 0) return hi - static_cast<int64_t>(v);
  // Straddles 0: 0, 1, -1, 2, -2, ... then the remainder of the longer side.
  uint64_t pos = static_cast<uint64_t>(hi), neg = -static_cast<uint64_t>(lo);
  uint64_t m = std::min(pos, neg);
  if (v <= 2 * m) return (v & 1) ? static_cast<int64_t>((v + 1) / 2) : -static_cast<int64_t>(v / 2);
  uint64_t rest = v - 2 * m;
  return pos > neg ? static_cast<int64_t>(m + rest) : static_cast<int64_t>(-(m + rest));
}

bool gen::chance(int num, int den) { return below(den) >= static_cast<uint64_t>(den - num); }

int gen::weighted(std::initializer_list<int> w) {
  int64_t total = 0;
  for (int i : w) total += i;
  int64_t v = below(total);
  int k = 0;
  for (int i : w) {
    if (v < i) return k;
    v -= i;
    ++k;
  }
  return 0;
}

int64_t gen::interesting64() {
  switch (weighted({6, 4, 3, 2, 1})) {
  case 0: return range(-10, 10);
  case 1: return range(-1000, 1000);
  case 2: {
    // Powers of two, +- small.
    int s = below(64);
    int64_t d = range(-2, 2);
    uint64_t v = (1ull << s) + static_cast<uint64_t>(d);
    return static_cast<int64_t>(chance(1, 2) ? -v : v);
  }
  case 3:
    return pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT64_MAX / 2, INT64_MIN / 2,
        INT32_MAX, INT32_MIN, static_cast<int64_t>(UINT32_MAX)});
  default: return static_cast<int64_t>(below(0));
  }
}

void gen::count(const char* label, int64_t n) {
  size_t h = hash_bytes(label, strlen(label)) % max_labels;
  for (size_t k = 0; k < max_labels; ++k, h = (h + 1) % max_labels) {
    label_entry& e = S->labels[h];
    if (!e.name[0]) strncpy(e.name, label, sizeof(e.name) - 1);
    if (!strncmp(e.name, label, sizeof(e.name) - 1)) {
      e.total += n;
      e.cases += 1;
      return;
    }
  }
}

void gen::classify(const char* label) { count(label, 1); }

void gen::nontrivial() { S->nontrivial = true; }

void gen::discard() { S->outcome = oc_discard; }

void gen::fail(const std::string& msg, const std::string& key) {
  strncpy(S->fail_msg, msg.c_str(), sizeof(S->fail_msg) - 1);
  strncpy(S->fail_key, key.c_str(), sizeof(S->fail_key) - 1);
  S->outcome = oc_fail;
  _exit(exit_fail);
}

namespace {

struct outcome {
  enum kind_t { pass, discarded, fail, crash, hang } kind = pass;
  std::string msg, key, text;
  std::vector<uint64_t> choices;
  bool bad() const { return kind >= fail; }
};

// Run one case in this process.
void run_case_inline(const target& t, bool describing) {
  static std::ostream* os = nullptr;
  if (!note_buf) note_buf = new shm_buf;
  if (!os) os = new std::ostream(note_buf);
  S->n_choices = 0;
  S->outcome = oc_none;
  S->nontrivial = false;
  S->text_len = 0;
  S->text[0] = 0;
  S->fail_msg[0] = 0;
  S->fail_key[0] = 0;
  gen g;
  g.describing_ = describing;
  // ostringstream's rdbuf can be replaced through its ios base.
  static_cast<std::ios&>(g.note_).rdbuf(note_buf);
  t.fn(g);
  if (S->outcome == oc_none) S->outcome = oc_pass;
}

int open_stderr_file() {
  FILE* f = tmpfile();
  return f ? fileno(f) : -1;
}

std::string read_fd(int fd, size_t cap) {
  std::string r;
  off_t end = lseek(fd, 0, SEEK_END);
  if (end <= 0) return r;
  lseek(fd, 0, SEEK_SET);
  r.resize(std::min<size_t>(end, cap));
  ssize_t n = read(fd, &r[0], r.size());
  r.resize(n > 0 ? n : 0);
  return r;
}

// Summarize a crash so that the same root cause tends to have the same key.
std::string crash_key(const std::string& err, int status) {
  size_t p = err.find("Assertion `");
  if (p != std::string::npos) {
    size_t e = err.find('\n', p);
    return "assert:" + err.substr(p, e == std::string::npos ? e : e - p);
  }
  p = err.find("ERROR: AddressSanitizer: ");
  if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer: ");
  if (p != std::string::npos) {
    size_t b = err.find(": ", p + 8) + 2;
    size_t e = err.find_first_of(" \n", b);
    std::string k = "sanitizer:" + err.substr(b, e - b);
    size_t frame = err.find("slinky", e);
    while (frame != std::string::npos) {
      // First in-repo source location.
      size_t loc = err.find("/repo/slinky/", e);
      if (loc != std::string::npos) {
        size_t le = err.find_first_of(" \n)", loc);
        k += "@" + err.substr(loc, le - loc);
      }
      break;
    }
    return k;
  }
  p = err.find("runtime error: ");
  if (p != std::string::npos) {
    size_t b = err.rfind('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    size_t e = err.find('\n', p);
    return "ubsan:" + err.substr(b, e - b);
  }
  if (WIFSIGNALED(status)) return "signal:" + std::to_string(WTERMSIG(status));
  return "exit:" + std::to_string(WEXITSTATUS(status));
}

void child_setup(int errfd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (errfd >= 0) {
    dup2(errfd, 2);
    dup2(errfd, 1);
  }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

const std::vector<attribution>* attributions = nullptr;

outcome run_case_once(const target& t, const std::vector<uint64_t>& choices, bool describing, int hang_seconds,
    void (*enable)()) {
  static shared* block = nullptr;
  if (!block) block = static_cast<shared*>(map_shared(sizeof(shared)));
  int errfd = open_stderr_file();
  fflush(nullptr);
  block->outcome = oc_none;
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(errfd);
    setpgid(0, 0);
    S = block;
    replaying = true;
    replay = choices;
    memset(S->labels, 0, sizeof(S->labels));
    if (enable) enable();
    run_case_inline(t, describing);
    _exit(0);
  }
  outcome r;
  int64_t t0 = now_ns();
  int status = 0;
  int us = 200;
  while (true) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) break;
    if (now_ns() - t0 > hang_seconds * 1000000000ll) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      r.kind = outcome::hang;
      r.key = "hang";
      r.msg = "did not terminate within " + std::to_string(hang_seconds) + " s";
      break;
    }
    usleep(us);
    us = std::min(us * 2, 5000);
  }
  r.choices.assign(block->choices, block->choices + block->n_choices);
  r.text.assign(block->text, block->text_len);
  if (r.kind != outcome::hang) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      r.kind = block->outcome == oc_discard ? outcome::discarded : outcome::pass;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == exit_fail) {
      r.kind = outcome::fail;
      r.msg = block->fail_msg;
      r.key = block->fail_key;
    } else {
      r.kind = outcome::crash;
      std::string err = read_fd(errfd, 6000);
      r.key = crash_key(err, status);
      r.msg = "crash: " + r.key + "\n" + err;
    }
  }
  if (errfd >= 0) close(errfd);
  return r;
}

// Finds which known defect, if any, explains a failure.
void attribute(const target& t, outcome& o, int hang_seconds) {
  if (!o.bad() || !attributions) return;
  for (const attribution& a : *attributions) {
    if (!run_case_once(t, o.choices, false, hang_seconds, a.enable).bad()) {
      o.key = a.key;
      return;
    }
  }
}

outcome run_case_forked(const target& t, const std::vector<uint64_t>& choices, bool describing, int hang_seconds) {
  outcome r = run_case_once(t, choices, describing, hang_seconds, nullptr);
  attribute(t, r, hang_seconds);
  return r;
}

struct finding {
  std::string property, target, key, replay, what;
  // A finding without a key is identified by its input: these choices of this target.
  std::vector<uint64_t> input;
};

struct options {
  std::string tier = "quick";
  uint64_t seed = 1;
  std::string dir = ".";
  std::string replay_file;
  std::string only_target;
  double scale = 1.0;
  bool describe = false;
  int64_t one_case = -1;
  bool keep_going = false;
  std::string record_dir;  // Write the unshrunk input of every unlisted failure here.
  int jobs = 0;
};

std::string field(const std::string& line, const std::string& name) {
  size_t p = line.find(" " + name + "=");
  if (p == std::string::npos) return "";
  p += name.size() + 2;
  if (line[p] == '"') {
    size_t e = line.find('"', p + 1);
    return line.substr(p + 1, e - p - 1);
  }
  size_t e = line.find(' ', p);
  return line.substr(p, e == std::string::npos ? e : e - p);
}

bool load_replay(const std::string& path, std::string& tname, std::vector<uint64_t>& choices) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("target ", 0) == 0) tname = line.substr(7);
    if (line.rfind("choices", 0) == 0) {
      std::istringstream ss(line.substr(7));
      uint64_t v;
      while (ss >> v) choices.push_back(v);
      return true;
    }
  }
  return false;
}

std::vector<finding> load_findings(const std::string& dir, const std::string& property) {
  std::vector<finding> r;
  std::ifstream f(dir + "/known_findings.txt");
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("finding:", 0) != 0) continue;
    finding x;
    x.property = field(line, "property");
    if (x.property != property) continue;
    x.target = field(line, "target");
    x.key = field(line, "key");
    x.replay = field(line, "replay");
    x.what = field(line, "what");
    if (x.key.empty()) {
      std::string tname;
      if (!load_replay(dir + "/" + x.replay, tname, x.input) || tname != x.target) continue;
    }
    r.push_back(x);
  }
  return r;
}

// A case that fails early may not have made all of the choices it would have made otherwise.
bool same_input(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  size_t n = std::min(a.size(), b.size());
  return n >= 16 && std::equal(a.begin(), a.begin() + n, b.begin());
}

const finding* match_finding(const std::vector<finding>& fs, const target& t, const outcome& o) {
  for (const finding& f : fs) {
    if (f.target != t.name && f.target != "any") continue;
    if (f.key.empty() ? same_input(f.input, o.choices) : f.key == o.key) return &f;
  }
  return nullptr;
}

bool shortlex_less(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

void trim_zeros(std::vector<uint64_t>& v) {
  while (!v.empty() && v.back() == 0) v.pop_back();
}

outcome shrink(const target& t, outcome best, const std::vector<finding>& fs, int hang_s, double budget_s, int max_runs,
    int& runs) {
  int64_t deadline = now_ns() + static_cast<int64_t>(budget_s * 1e9);
  trim_zeros(best.choices);
  std::set<uint64_t> tried;
  auto attempt = [&](std::vector<uint64_t> c) {
    if (runs >= max_runs || now_ns() > deadline) return false;
    trim_zeros(c);
    if (!shortlex_less(c, best.choices)) return false;
    uint64_t h = hash_bytes(c.data(), c.size() * 8);
    if (!tried.insert(h).second) return false;
    ++runs;
    outcome o = run_case_forked(t, c, false, hang_s);
    if (!o.bad() || o.kind == outcome::hang || match_finding(fs, t, o)) return false;
    if (o.kind != best.kind) return false;
    trim_zeros(o.choices);
    if (shortlex_less(o.choices, best.choices)) {
      best = o;
    } else {
      best.choices = c;
    }
    return true;
  };
  bool progress = true;
  while (progress && runs < max_runs && now_ns() < deadline) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size()) continue;
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true;
        if (runs >= max_runs || now_ns() > deadline) break;
      }
      if (k == 1) break;
    }
    for (size_t k : {8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= best.choices.size(); ++i) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any = any || c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.choices.size(); ++i) {
      // Binary search towards 0.
      uint64_t lo = 0;
      while (i < best.choices.size() && best.choices[i] > lo) {
        std::vector<uint64_t> c = best.choices;
        uint64_t mid = lo + (c[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
        if (runs >= max_runs || now_ns() > deadline) break;
      }
    }
    // Delete an element while decrementing an earlier one (e.g. a count followed by that many items).
    for (size_t i = 0; i + 1 < best.choices.size() && i < 200; ++i) {
      if (best.choices[i] == 0 || best.choices[i] > 16) continue;
      for (size_t k = 1; k <= 8 && i + k < best.choices.size(); ++k) {
        std::vector<uint64_t> c = best.choices;
        c[i]--;
        c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
        if (attempt(c)) {
          progress = true;
          break;
        }
      }
    }
  }
  return best;
}

}  // namespace

int run(int argc, char** argv, const config& cfg) {
  attributions = &cfg.attributions;
  options o;
  if (const char* e = getenv("VERIF_SEED")) o.seed = strtoull(e, nullptr, 10);
  if (const char* e = getenv("VERIF_TIER")) o.tier = e;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") o.tier = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--dir") o.dir = val();
    else if (a == "--replay") o.replay_file = val();
    else if (a == "--target") o.only_target = val();
    else if (a == "--scale") o.scale = atof(val().c_str());
    else if (a == "--case") o.one_case = atoll(val().c_str());
    else if (a == "--keep-going") o.keep_going = true;
    else if (a == "--record") o.record_dir = val();
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  if (o.tier != "thorough") o.tier = "quick";
  const bool thorough = o.tier == "thorough";
  setvbuf(stdout, nullptr, _IOLBF, 0);
  int64_t t_begin = now_ns();

  S = static_cast<shared*>(map_shared(sizeof(shared)));
  std::vector<finding> findings = load_findings(o.dir, cfg.property);

  auto find_target = [&](const std::string& n) -> const target* {
    for (const target& t : cfg.targets)
      if (n == t.name) return &t;
    return nullptr;
  };

  if (!o.replay_file.empty()) {
    std::string tname;
    std::vector<uint64_t> choices;
    if (!load_replay(o.replay_file, tname, choices)) {
      fprintf(stderr, "cannot read replay file %s\n", o.replay_file.c_str());
      return 3;
    }
    const target* t = find_target(tname);
    if (!t) {
      fprintf(stderr, "unknown target %s\n", tname.c_str());
      return 3;
    }
    if (getenv("PBT_INLINE")) {
      replaying = true;
      replay = choices;
      run_case_inline(*t, true);
      fwrite(S->text, 1, S->text_len, stdout);
      printf("\noutcome %d\n", (int)S->outcome);
      return 0;
    }
    outcome r = run_case_forked(*t, choices, true, cfg.hang_seconds);
    printf("%s\n", r.text.c_str());
    if (r.bad()) {
      printf("FAILS: %s\nkey: %s\n", r.msg.c_str(), r.key.c_str());
      printf("VIOLATION property=%s replay=%s\n", cfg.property, o.replay_file.c_str());
      return 1;
    }
    printf("passes\n");
    return 0;
  }

  // The list of cases: (target, index within target).
  struct slot {
    int target;
    int64_t index;
  };
  std::vector<int64_t> counts;
  int64_t total = 0;
  for (const target& t : cfg.targets) {
    int64_t n = static_cast<int64_t>((thorough ? t.thorough : t.quick) * o.scale);
    if (n < 1) n = 1;
    if (!o.only_target.empty() && o.only_target != t.name) n = 0;
    counts.push_back(n);
    total += n;
  }
  // Interleave the targets proportionally: position p of target t is at (i + 0.5) / n_t.
  std::vector<slot> slots;
  slots.reserve(total);
  {
    std::vector<std::pair<double, slot>> tmp;
    tmp.reserve(total);
    for (size_t t = 0; t < counts.size(); ++t)
      for (int64_t i = 0; i < counts[t]; ++i)
        tmp.push_back({(i + 0.5) / counts[t], {static_cast<int>(t), i}});
    std::stable_sort(tmp.begin(), tmp.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    for (auto& i : tmp) slots.push_back(i.second);
  }

  const auto seed_case = [&](const slot& s) {
    const char* n = cfg.targets[s.target].name;
    seed_random(hash_bytes(n, strlen(n)) ^ (o.seed * 0xd1342543de82ef95ull), s.index + 1);
  };

  if (o.one_case >= 0) {
    // Debugging aid: run a single generated case in a fork and describe it.
    slot s{0, o.one_case};
    for (size_t t = 0; t < cfg.targets.size(); ++t)
      if (o.only_target == cfg.targets[t].name) s.target = t;
    S->n_choices = 0;
    seed_case(s);
    replaying = false;
    // Fork manually so describing works with random generation.
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      run_case_inline(cfg.targets[s.target], true);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    fwrite(S->text, 1, S->text_len, stdout);
    printf("\nstatus %x outcome %d %s\n", st, (int)S->outcome, S->fail_msg);
    return 0;
  }

  const int jobs = o.jobs ? o.jobs : cfg.jobs;
  struct worker {
    shared* block;
    uint64_t* hashes;
    pid_t pid = -1;
    int errfd = -1;
    int64_t next = 0;  // next slot index
    bool done = false;
  };
  std::vector<worker> ws(jobs);
  size_t cap = slots.size() / jobs + 2;
  for (int w = 0; w < jobs; ++w) {
    ws[w].block = static_cast<shared*>(map_shared(sizeof(shared)));
    ws[w].hashes = static_cast<uint64_t*>(map_shared(cap * 8 + 8));
    ws[w].next = w;
  }
  const int64_t cap_s = thorough ? cfg.thorough_cap_s : cfg.quick_cap_s;
  const int64_t deadline = t_begin + cap_s * 1000000000ll;
  bool capped = false;

  auto start_worker = [&](worker& w) {
    if (w.errfd >= 0) close(w.errfd);
    w.errfd = open_stderr_file();
    fflush(nullptr);
    w.block->start_ns = 0;
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(w.errfd);
      setpgid(0, 0);
      S = w.block;
      hashes = w.hashes;
      hash_cap = cap;
      replaying = false;
      for (int64_t i = w.next; i < static_cast<int64_t>(slots.size()); i += jobs) {
        const slot& s = slots[i];
        S->index = i;
        S->start_ns = now_ns();
        seed_case(s);
        run_case_inline(cfg.targets[s.target], false);
        S->evaluations++;
        S->target_evals[s.target]++;
        if (S->outcome == oc_discard) {
          S->discarded++;
        } else if (S->nontrivial) {
          S->nontrivials++;
          S->target_nontrivial[s.target]++;
          if (S->n_hashes < hash_cap) {
            hashes[S->n_hashes++] = hash_bytes(S->choices, S->n_choices * 8, 1469598103934665603ull + s.target);
          }
          int& sc = S->sample_count[s.target];
          if (sc < 4) S->sample_index[s.target][sc++] = i;
        }
        S->start_ns = 0;
        if (now_ns() > deadline) {
          S->index = -2;
          _exit(0);
        }
      }
      S->index = -1;
      _exit(0);
    }
    w.pid = pid;
  };

  struct failure {
    slot s;
    outcome o;
  };
  std::vector<failure> failures;
  std::vector<failure> weak;
  std::map<std::string, int64_t> known_hits;

  for (worker& w : ws) {
    if (w.next < static_cast<int64_t>(slots.size())) start_worker(w);
    else w.done = true;
  }
  bool stop = false;
  std::set<std::string> seen_keys;
  while (!stop) {
    bool any = false;
    for (worker& w : ws) {
      if (w.done) continue;
      any = true;
      int status;
      pid_t r = waitpid(w.pid, &status, WNOHANG);
      bool hang = false;
      if (r == 0) {
        int64_t st = w.block->start_ns;
        if (st && now_ns() - st > cfg.hang_seconds * 1000000000ll) {
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &status, 0);
          hang = true;
        } else {
          continue;
        }
      }
      if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0 && w.block->index < 0) {
        if (w.block->index == -2) capped = true;
        w.done = true;
        continue;
      }
      // The case in progress failed.
      int64_t i = w.block->index;
      failure f;
      f.s = slots[i];
      f.o.choices.assign(w.block->choices, w.block->choices + w.block->n_choices);
      if (hang) {
        f.o.kind = outcome::hang;
        f.o.key = "hang";
        f.o.msg = "case did not terminate within " + std::to_string(cfg.hang_seconds) + " s";
      } else if (WIFEXITED(status) && WEXITSTATUS(status) == exit_fail) {
        f.o.kind = outcome::fail;
        f.o.msg = w.block->fail_msg;
        f.o.key = w.block->fail_key;
      } else {
        f.o.kind = outcome::crash;
        std::string err = read_fd(w.errfd, 6000);
        f.o.key = crash_key(err, status);
        f.o.msg = "crash: " + f.o.key + "\n" + err;
      }
      attribute(cfg.targets[f.s.target], f.o, cfg.hang_seconds);
      w.block->evaluations++;
      w.block->target_evals[f.s.target]++;
      if (const finding* k = match_finding(findings, cfg.targets[f.s.target], f.o)) {
        known_hits[k->target + "/" + (k->key.empty() ? k->replay : k->key)]++;
      } else if (!o.record_dir.empty()) {
        char name[256];
        snprintf(name, sizeof name, "%s/%s-%s-s%llu-%lld.replay", o.record_dir.c_str(), cfg.property,
            cfg.targets[f.s.target].name, (unsigned long long)o.seed, (long long)f.s.index);
        std::ofstream rf(name);
        rf << "property " << cfg.property << "\ntarget " << cfg.targets[f.s.target].name << "\nseed " << o.seed
           << " case " << f.s.index << "\nchoices";
        for (uint64_t c : f.o.choices) rf << " " << c;
        rf << "\n---\nkey: " << f.o.key << "\nmessage: " << f.o.msg.substr(0, 600) << "\n";
        printf("RECORDED %s %s\n", name, (f.o.key.empty() ? f.o.msg : f.o.key).substr(0, 200).c_str());
      } else if (o.keep_going) {
        std::string k = f.o.key.empty() ? f.o.msg.substr(0, 60) : f.o.key;
        if (seen_keys.insert(k).second) {
          failures.push_back(f);
          printf("FAIL target=%s case=%lld key=%s\n", cfg.targets[f.s.target].name, (long long)f.s.index, k.c_str());
        }
      } else if (f.o.kind != outcome::hang && weak.size() < 5 &&
                 !run_case_forked(cfg.targets[f.s.target], f.o.choices, false, cfg.hang_seconds).bad()) {
        // This may depend on the addresses or threads of that run. Look at it again after the search.
        weak.push_back(f);
      } else {
        failures.push_back(f);
        stop = true;
      }
      w.next = i + jobs;
      if (w.next < static_cast<int64_t>(slots.size()) && !stop) start_worker(w);
      else w.done = true;
      if (stop) break;
    }
    if (!any) break;
    usleep(5000);
  }
  for (worker& w : ws) {
    if (!w.done && w.pid > 0) {
      kill(w.pid, SIGKILL);
      int st;
      waitpid(w.pid, &st, 0);
    }
  }
  double search_s = (now_ns() - t_begin) / 1e9;

  // Confirm and minimise the failures.
  failures.insert(failures.end(), weak.begin(), weak.end());
  int violations = 0;
  int unreproduced = 0;
  std::vector<std::string> violation_text;
  size_t max_report = o.keep_going ? 1000 : 1;
  for (failure& f : failures) {
    if (violations >= static_cast<int>(max_report)) break;
    const target& t = cfg.targets[f.s.target];
    // Three replays in fresh processes. Each must fail.
    int reproduced = 0;
    outcome last;
    for (int k = 0; k < 3; ++k) {
      last = run_case_forked(t, f.o.choices, false, cfg.hang_seconds);
      if (last.bad()) ++reproduced;
    }
    if (reproduced < 3) {
      // Real threads may need more attempts, a failure is still a failure. Try up to 30 more times.
      for (int k = 0; k < 30 && reproduced < 3; ++k) {
        last = run_case_forked(t, f.o.choices, false, cfg.hang_seconds);
        if (last.bad()) ++reproduced;
      }
      if (reproduced < 3) {
        ++unreproduced;
        printf("INCONCLUSIVE property=%s target=%s case=%lld: failed once but reproduced %d times: %s\n", cfg.property,
            t.name, (long long)f.s.index, reproduced, f.o.msg.substr(0, 2000).c_str());
        continue;
      }
    }
    int runs = 0;
    outcome m = f.o;
    if (f.o.kind != outcome::hang) {
      m = shrink(t, f.o, findings, cfg.hang_seconds, thorough ? 240 : 60, 6000, runs);
    }
    outcome d = run_case_forked(t, m.choices, true, cfg.hang_seconds);
    if (!d.bad()) {
      d = f.o;
      m = f.o;
    }
    ++violations;
    std::string rdir = o.dir + "/replays";
    mkdir(rdir.c_str(), 0777);
    char name[256];
    snprintf(name, sizeof name, "%s/%s-%s-%016llx.replay", rdir.c_str(), cfg.property, t.name,
        (unsigned long long)hash_bytes(m.choices.data(), m.choices.size() * 8));
    std::ofstream rf(name);
    rf << "property " << cfg.property << "\n"
       << "target " << t.name << "\n"
       << "seed " << o.seed << " case " << f.s.index << "\n"
       << "choices";
    for (uint64_t c : m.choices) rf << " " << c;
    rf << "\n---\nkey: " << d.key << "\nmessage: " << d.msg << "\ncase:\n" << d.text << "\n";
    rf.close();
    printf("---- %s/%s case %lld (shrunk %zu -> %zu choices in %d runs)\n%s\nkey: %s\n%s\n", cfg.property, t.name,
        (long long)f.s.index, f.o.choices.size(), m.choices.size(), runs, d.text.c_str(), d.key.c_str(),
        d.msg.substr(0, 4000).c_str());
    printf("VIOLATION property=%s replay=%s\n", cfg.property, name);
    violation_text.push_back(d.msg.substr(0, 500));
  }

  // Known findings are reported from their stored input.
  for (const finding& f : findings) {
    std::string tname;
    std::vector<uint64_t> choices;
    if (!load_replay(o.dir + "/" + f.replay, tname, choices)) continue;
    const target* t = find_target(tname);
    if (!t) continue;
    outcome r = run_case_forked(*t, choices, false, cfg.hang_seconds);
    if (r.bad() && (f.key.empty() || r.key == f.key)) {
      printf("KNOWN-FINDING: property=%s %s (seen %lld more times in the search)\n", cfg.property, f.what.c_str(),
          (long long)known_hits[f.target + "/" + (f.key.empty() ? f.replay : f.key)]);
    }
  }

  // Totals.
  int64_t evals = 0, discarded = 0, nontriv = 0;
  std::map<std::string, std::pair<int64_t, int64_t>> hist;
  std::vector<uint64_t> all;
  std::vector<int64_t> tev(cfg.targets.size()), tnt(cfg.targets.size());
  for (worker& w : ws) {
    evals += w.block->evaluations;
    discarded += w.block->discarded;
    nontriv += w.block->nontrivials;
    all.insert(all.end(), w.hashes, w.hashes + w.block->n_hashes);
    for (size_t t = 0; t < cfg.targets.size(); ++t) {
      tev[t] += w.block->target_evals[t];
      tnt[t] += w.block->target_nontrivial[t];
    }
    for (const label_entry& e : w.block->labels) {
      if (!e.name[0]) continue;
      hist[e.name].first += e.cases;
      hist[e.name].second += e.total;
    }
  }
  std::sort(all.begin(), all.end());
  int64_t distinct = std::unique(all.begin(), all.end()) - all.begin();

  // Samples: describe some non-trivial cases of each target.
  std::vector<std::pair<std::string, std::string>> samples;
  for (size_t t = 0; t < cfg.targets.size(); ++t) {
    int taken = 0;
    int per = cfg.targets.size() > 6 ? 1 : 2;
    for (worker& w : ws) {
      if (taken >= per) break;
      if (w.block->sample_count[t] == 0) continue;
      int64_t i = w.block->sample_index[t][w.block->sample_count[t] - 1];
      // Re-generate in a fork with describing on.
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        child_setup(open("/dev/null", O_WRONLY));
        seed_case(slots[i]);
        replaying = false;
        run_case_inline(cfg.targets[t], true);
        _exit(0);
      }
      int64_t t0 = now_ns();
      int st;
      while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now_ns() - t0 > 20000000000ll) {
          kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
          break;
        }
        usleep(1000);
      }
      std::string text(S->text, std::min<size_t>(S->text_len, 2500));
      samples.push_back({cfg.targets[t].name, text});
      ++taken;
    }
  }

  double wall = (now_ns() - t_begin) / 1e9;
  std::string epath = o.dir + "/evidence/" + cfg.property + ".json";
  mkdir((o.dir + "/evidence").c_str(), 0777);
  std::ofstream ef(epath);
  ef << "{\n \"property\": \"" << cfg.property << "\",\n \"tier\": \"" << o.tier << "\",\n \"seed\": " << o.seed
     << ",\n \"level\": \"" << cfg.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals
     << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"nontrivial_including_repeats\": " << nontriv
     << ",\n  \"discarded\": " << discarded << ",\n  \"planned_cases\": " << slots.size()
     << ",\n  \"time_cap_hit\": " << (capped ? "true" : "false") << ",\n  \"unreproduced_failures\": " << unreproduced
     << ",\n  \"search_s\": " << search_s << ",\n  \"rule\": \"" << json_escape(cfg.rule) << "\",\n  \"targets\": {";
  for (size_t t = 0; t < cfg.targets.size(); ++t) {
    ef << (t ? ", " : "") << "\"" << cfg.targets[t].name << "\": {\"evaluations\": " << tev[t]
       << ", \"nontrivial\": " << tnt[t] << "}";
  }
  ef << "},\n  \"classes\": {";
  bool first = true;
  for (auto& h : hist) {
    ef << (first ? "" : ", ") << "\"" << json_escape(h.first) << "\": ";
    if (h.second.first == h.second.second) ef << h.second.first;
    else ef << "{\"cases\": " << h.second.first << ", \"total\": " << h.second.second << "}";
    first = false;
  }
  ef << "},\n  \"known_finding_hits\": {";
  first = true;
  for (auto& h : known_hits) {
    ef << (first ? "" : ", ") << "\"" << json_escape(h.first) << "\": " << h.second;
    first = false;
  }
  ef << "},\n  \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) {
    ef << (i ? ",\n   " : "\n   ") << "{\"target\": \"" << samples[i].first << "\", \"case\": \""
       << json_escape(samples[i].second) << "\"}";
  }
  ef << "\n  ]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n \"assumptions\": [";
  for (size_t i = 0; i < cfg.assumptions.size(); ++i)
    ef << (i ? ", " : "") << "\"" << json_escape(cfg.assumptions[i]) << "\"";
  ef << "]\n}\n";
  ef.close();
  printf("%s %s seed=%llu: %lld cases, %lld distinct non-trivial, %lld discarded, %d violations%s, %.1f s\n", cfg.property,
      o.tier.c_str(), (unsigned long long)o.seed, (long long)evals, (long long)distinct, (long long)discarded, violations,
      capped ? " (time cap hit: inconclusive beyond that)" : "", wall);
  return violations ? 1 : 0;
}

}  // namespace pbt
