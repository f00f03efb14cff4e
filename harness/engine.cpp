#include "engine.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
#include <unordered_set>

std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}

std::string diffText(const std::string& want, const std::string& got) {
  size_t p = 0;
  while (p < want.size() && p < got.size() && want[p] == got[p]) ++p;
  size_t from = p > 60 ? p - 60 : 0;
  return "expected ..." + want.substr(from, 200) + "... but got ..." + got.substr(from, 200) + "...";
}

namespace {
constexpr size_t kTapeCap = 4u << 20;
constexpr size_t kMsgCap = 1u << 16;
constexpr int kMaxWorkers = 64;

struct Shared {
  std::atomic<uint64_t> minFail;
  std::atomic<uint64_t> current[kMaxWorkers];
  char msg[kMsgCap];
  char input[kMsgCap];
  uint32_t tape[kTapeCap + 1];
};
Shared* shared;

std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c >= 127) {
      // Bytes above 127 are shown as U+00xx.
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o + "\"";
}
std::string shorten(const std::string& s, size_t n = 600) {
  return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)";
}
void put(char* dst, const std::string& s) {
  size_t n = std::min(s.size(), kMsgCap - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}
double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void cpuTimer(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

const Prop* prop;
// Runaway allocations end in a failure of the case, not of the machine.
void limits() {
#ifndef SANITIZED
  rlimit r{(rlim_t)prop->memMB << 20, (rlim_t)prop->memMB << 20};
  setrlimit(RLIMIT_AS, &r);
#endif
  rlimit none{0, 0};
  setrlimit(RLIMIT_CORE, &none);
}
bool thoroughTier;

// The case that runs, so that its input can be shown after a crash.
Case* running;
void keepInput() {
  if (running) put(shared->input, running->input);
}
#ifndef SANITIZED
void onCrash(int sig) {
  keepInput();
  signal(sig, SIG_DFL);
  raise(sig);
}
#else
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
#endif
void catchCrashes() {
#ifndef SANITIZED
  static char* stack = new char[1 << 16];
  stack_t st{};
  st.ss_sp = stack;
  st.ss_size = 1 << 16;
  sigaltstack(&st, nullptr);
  for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) {
    struct sigaction a {};
    a.sa_handler = onCrash;
    a.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(sig, &a, nullptr);
  }
#else
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(keepInput);
#endif
}

// Runs one case; returns 0 passed, 1 failed, 2 discarded.
int execute(Case& c, std::string& msg) {
  c.thorough = thoroughTier;
  cpuTimer(prop->cpuSeconds);
  running = &c;
  int rc = 0;
  try {
    prop->run(c);
    if (c.discarded) rc = 2;
  } catch (Failure& f) {
    msg = f.what;
    rc = 1;
  }
  cpuTimer(0);
  running = nullptr;
  return rc;
}

std::string signalText(int status) {
  if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGVTALRM) return "did not terminate within " + std::to_string(prop->cpuSeconds) + " s of CPU time";
    return std::string("killed by signal ") + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
  }
  return "exited with status " + std::to_string(WEXITSTATUS(status)) + " (sanitizer report)";
}

// Output of sanitizers in children goes to this file.
std::string childErr;
std::string readFile(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

struct Outcome {
  int rc = 0;
  std::string msg, input;
  std::vector<uint32_t> tape;
};
// In a child process.
Outcome isolated(Tape t, uint64_t index, const std::vector<uint64_t>& before, uint64_t seed) {
  Outcome o;
  shared->msg[0] = shared->input[0] = 0;
  shared->tape[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(childErr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) dup2(fd, 2);
    limits();
    catchCrashes();
    if (prop->setup) prop->setup();
    std::string m;
    for (uint64_t b : before) {
      Case c{Tape(mix(seed, b))};
      c.index = b;
      execute(c, m);
    }
    Case c{std::move(t)};
    c.index = index;
    c.tape.mirror(shared->tape, kTapeCap);
    m.clear();
    int rc = execute(c, m);
    put(shared->msg, m);
    put(shared->input, c.input);
    fflush(nullptr);
    _exit(rc == 1 ? 41 : rc == 2 ? 42 : 0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  o.tape.assign(shared->tape + 1, shared->tape + 1 + shared->tape[0]);
  o.input = shared->input;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    o.rc = 0;
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 42) {
    o.rc = 2;
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 41) {
    o.rc = 1;
    o.msg = shared->msg;
  } else {
    o.rc = 1;
    o.msg = signalText(status);
    std::string e = readFile(childErr);
    size_t p = e.find("ERROR: ");
    if (p == std::string::npos) p = e.find("runtime error");
    if (p == std::string::npos) p = e.find("WARNING: ");
    if (p != std::string::npos) {
      size_t from = e.rfind('\n', p);
      from = from == std::string::npos ? 0 : from + 1;
      o.msg += ": " + e.substr(from, 1500);
    }
  }
  return o;
}

struct Stats {
  uint64_t evaluations = 0, nontrivial = 0, discarded = 0, work = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::pair<uint64_t, std::string>> samples;
};

void writeStats(const std::string& file, const Stats& s, const std::unordered_set<uint64_t>& hashes) {
  std::ofstream f(file, std::ios::binary);
  f << s.evaluations << " " << s.nontrivial << " " << s.discarded << " " << s.work << "\n" << s.labels.size() << "\n";
  for (auto& l : s.labels) f << l.second << " " << l.first << "\n";
  f << s.samples.size() << "\n";
  for (auto& x : s.samples) f << x.first << " " << x.second.size() << "\n" << x.second << "\n";
  f << hashes.size() << "\n";
  for (uint64_t h : hashes) f.write((const char*)&h, 8);
}
void readStats(const std::string& file, Stats& s, std::unordered_set<uint64_t>& hashes) {
  std::ifstream f(file, std::ios::binary);
  uint64_t a = 0, b = 0, c = 0, w = 0;
  size_t n = 0;
  f >> a >> b >> c >> w >> n;
  s.evaluations += a;
  s.nontrivial += b;
  s.discarded += c;
  s.work += w;
  std::string line;
  for (size_t i = 0; i < n; ++i) {
    uint64_t k;
    f >> k;
    f.get();
    std::getline(f, line);
    s.labels[line] += k;
  }
  n = 0;
  f >> n;
  for (size_t i = 0; i < n; ++i) {
    uint64_t idx;
    size_t len;
    f >> idx >> len;
    f.get();
    std::string t(len, 0);
    f.read(&t[0], (std::streamsize)len);
    f.get();
    s.samples.emplace_back(idx, t);
  }
  n = 0;
  f >> n;
  f.get();
  for (size_t i = 0; i < n; ++i) {
    uint64_t h = 0;
    f.read((char*)&h, 8);
    hashes.insert(h);
  }
}

void worker(int w, int workers, uint64_t count, uint64_t seed, const std::string& file) {
  limits();
  if (prop->setup) prop->setup();
  Stats s;
  std::unordered_set<uint64_t> hashes;
  for (uint64_t i = (uint64_t)w; i < count; i += (uint64_t)workers) {
    if (i > shared->minFail.load()) break;
    shared->current[w].store(i);
    Case c{Tape(mix(seed, i))};
    c.index = i;
    std::string msg;
    int rc = execute(c, msg);
    ++s.evaluations;
    s.work += c.work;
    if (rc == 2) {
      ++s.discarded;
    } else {
      if (c.nontrivial) {
        ++s.nontrivial;
        hashes.insert(hashStr(c.input));
        if (s.samples.size() < 3 || (s.samples.size() < 8 && (i / (uint64_t)workers) % 97 == 0)) s.samples.emplace_back(i, shorten(c.input));
      }
      std::set<std::string> seen(c.labels.begin(), c.labels.end());
      for (auto& l : seen) ++s.labels[l];
    }
    if (rc == 1) {
      uint64_t m = shared->minFail.load();
      while (i < m && !shared->minFail.compare_exchange_weak(m, i)) {
      }
      break;
    }
  }
  writeStats(file, s, hashes);
  fflush(nullptr);
  _exit(0);
}

struct Shrinker {
  uint64_t index;
  int execs = 0;
  double deadline;
  int maxExecs;
  Outcome best;
  bool over() const { return execs >= maxExecs || now() > deadline; }
  bool attempt(std::vector<uint32_t> t) {
    if (over()) return false;
    ++execs;
    Outcome o = isolated(Tape(t), index, {}, 0);
    if (o.rc != 1) return false;
    // After a crash the record ends at the crash; that is all a replay needs.
    bool smaller = o.tape.size() < best.tape.size() || (o.tape.size() == best.tape.size() && o.tape < best.tape);
    if (!smaller) return false;
    best = std::move(o);
    return true;
  }
  void run() {
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      // Delete chunks.
      for (size_t len = std::max<size_t>(best.tape.size() / 2, 1); len >= 1 && !over(); len /= 2) {
        for (size_t at = 0; at + len <= best.tape.size() && !over();) {
          auto t = best.tape;
          t.erase(t.begin() + (long)at, t.begin() + (long)(at + len));
          if (attempt(t)) {
            progress = true;
          } else {
            at += len;
          }
        }
        if (len == 1) break;
      }
      // Zero chunks, then single values down.
      for (size_t len = std::max<size_t>(best.tape.size() / 4, 1); len >= 1 && !over(); len /= 2) {
        for (size_t at = 0; at + len <= best.tape.size() && !over(); at += len) {
          auto t = best.tape;
          bool any = false;
          for (size_t k = at; k < at + len; ++k) {
            any |= t[k] != 0;
            t[k] = 0;
          }
          if (any && attempt(t)) progress = true;
        }
        if (len == 1) break;
      }
      for (size_t at = 0; at < best.tape.size() && !over(); ++at) {
        while (at < best.tape.size() && best.tape[at] > 0 && !over()) {
          auto t = best.tape;
          t[at] /= 2;
          if (attempt(t)) {
            progress = true;
            continue;
          }
          t = best.tape;
          t[at] -= 1;
          if (attempt(t)) {
            progress = true;
            continue;
          }
          break;
        }
      }
    }
  }
};

std::string hex(const std::string& s) {
  std::string h;
  for (unsigned char c : s) {
    h += "0123456789abcdef"[c >> 4];
    h += "0123456789abcdef"[c & 15];
  }
  return h;
}
// Lines or pieces ended by ';': "w <hex>" or "n <number>".
void readMaterial(const std::string& s, size_t p, size_t end) {
  Mined m;
  while (p + 2 < end) {
    size_t e = s.find_first_of("\n;", p);
    if (e == std::string::npos || e > end) e = end;
    if (s[p] == 'n') {
      m.nums.push_back(strtoull(s.c_str() + p + 2, nullptr, 10));
    } else {
      std::string w;
      for (size_t i = p + 2; i + 1 < e; i += 2) w += (char)strtoul(s.substr(i, 2).c_str(), nullptr, 16);
      if (!w.empty()) m.words.push_back(w);
    }
    p = e + 1;
  }
  mined() = m;
}
void writeReplay(const std::string& path, const std::string& tier, uint64_t seed, uint64_t index, int workers, bool range, const Outcome& o) {
  std::ofstream f(path);
  f << "{\n \"property\": " << jsonStr(prop->id) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << seed << ",\n \"index\": " << index
    << ",\n \"workers\": " << workers << ",\n \"with_history\": " << (range ? "true" : "false") << ",\n \"message\": " << jsonStr(o.msg)
    << ",\n \"input\": " << jsonStr(o.input) << ",\n \"material\": \"";
  for (auto& w : mined().words) f << "w " << hex(w) << ";";
  for (auto n : mined().nums) f << "n " << n << ";";
  f << "\",\n \"tape\": [";
  for (size_t i = 0; i < o.tape.size(); ++i) f << (i ? "," : "") << o.tape[i];
  f << "]\n}\n";
}

// Minimal reading of the numbers of a replay file.
uint64_t numField(const std::string& s, const std::string& k) {
  size_t p = s.find("\"" + k + "\": ");
  return p == std::string::npos ? 0 : strtoull(s.c_str() + p + k.size() + 4, nullptr, 10);
}
}  // namespace

int engineMain(int argc, char** argv) {
  std::string id, tier = "quick", out, dir = ".", replay;
  uint64_t seed = 1, cases = 0;
  int64_t only = -1;
  std::string emit;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--out") out = next();
    else if (a == "--dir") dir = next();
    else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--emit") emit = next();
    else if (a == "--index") only = atoll(next().c_str());
    else if (a == "--list") {
      for (auto& p : registry()) std::cout << p.id << "\n";
      return 0;
    } else id = a;
  }
  for (auto& p : registry())
    if (p.id == id) prop = &p;
  if (!prop) {
    std::cerr << "unknown property " << id << "\n";
    return 2;
  }
  thoroughTier = tier == "thorough";
  if (const char* w = getenv("VERIF_MATERIAL")) {
    std::string m = readFile(w);
    readMaterial(m, 0, m.size());
  }
  shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shared == MAP_FAILED) return 2;
  new (&shared->minFail) std::atomic<uint64_t>(UINT64_MAX);
  childErr = dir + "/child." + id + "." + std::to_string(getpid());
  uint64_t base = mix(seed * 1000003 + hashStr(prop->id), thoroughTier ? 2 : 1);

  auto history = [&](uint64_t index, int workers) {
    std::vector<uint64_t> b;
    for (uint64_t i = index % (uint64_t)workers; i < index; i += (uint64_t)workers) b.push_back(i);
    return b;
  };

  if (!replay.empty()) {
    std::string r = readFile(replay);
    thoroughTier = r.find("\"tier\": \"thorough\"") != std::string::npos;
    std::vector<uint32_t> t;
    size_t p = r.find("\"tape\": [");
    if (p != std::string::npos)
      for (p += 9; p < r.size() && r[p] != ']';) {
        t.push_back((uint32_t)strtoul(r.c_str() + p, nullptr, 10));
        while (p < r.size() && isdigit(r[p])) ++p;
        if (r[p] == ',') ++p;
      }
    size_t mp = r.find("\"material\": \"");
    if (mp != std::string::npos) readMaterial(r, mp + 13, r.find('"', mp + 13));
    bool range = r.find("\"with_history\": true") != std::string::npos;
    uint64_t index = numField(r, "index");
    seed = numField(r, "seed");
    base = mix(seed * 1000003 + hashStr(prop->id), thoroughTier ? 2 : 1);
    int failed = 0, n = prop->anyReplay ? prop->replays * 3 : prop->replays;
    Outcome o;
    for (int k = 0; k < n; ++k) {
      o = range ? isolated(Tape(mix(base, index)), index, history(index, (int)numField(r, "workers")), base) : isolated(Tape(t), index, {}, 0);
      failed += o.rc == 1;
      if (failed && prop->anyReplay) break;
    }
    std::cout << "input: " << o.input << "\n" << (o.rc == 1 ? o.msg : "passed") << "\n" << failed << " of " << n << " replays failed\n";
    unlink(childErr.c_str());
    if (failed) std::cout << "VIOLATION property=" << prop->id << " replay=" << replay << "\n";
    return failed ? 1 : 0;
  }

  if (!emit.empty()) {
    // Writes the inputs of some cases to files, e.g. as seeds for a fuzzer.
    for (uint64_t i = 0; i < cases; ++i) {
      Case c{Tape(mix(base, i))};
      c.index = i;
      std::string msg;
      execute(c, msg);
      std::ofstream(emit + "/" + std::to_string(i), std::ios::binary) << c.input;
    }
    return 0;
  }
  if (only >= 0) {
    Outcome o = isolated(Tape(mix(base, (uint64_t)only)), (uint64_t)only, {}, 0);
    std::cout << o.input << "\nrc " << o.rc << " " << o.msg << "\n";
    return 0;
  }

  double t0 = now();
  uint64_t count = cases ? cases : (uint64_t)((double)(thoroughTier ? prop->thorough : prop->quick) * scale);
  count = std::max<uint64_t>(count, prop->enumerated);
  int workers = (int)std::min<uint64_t>((uint64_t)prop->workers, std::max<uint64_t>(count, 1));
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (int w = 0; w < workers; ++w) {
    new (&shared->current[w]) std::atomic<uint64_t>(UINT64_MAX);
    pid_t pid = fork();
    if (pid == 0) {
      std::string err = childErr + "." + std::to_string(w);
      int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) dup2(fd, 2);
      worker(w, workers, count, base, childErr + ".stats" + std::to_string(w));
    }
    pids.push_back(pid);
  }
  Stats s;
  std::unordered_set<uint64_t> hashes;
  std::string crashNote;
  for (int w = 0; w < workers; ++w) {
    int status = 0;
    waitpid(pids[(size_t)w], &status, 0);
    std::string st = childErr + ".stats" + std::to_string(w), err = childErr + "." + std::to_string(w);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      if (access(st.c_str(), R_OK)) {
        std::cerr << "no statistics of worker " << w << "\n";
        return 2;
      }
      readStats(st, s, hashes);
    } else {
      uint64_t i = shared->current[w].load();
      if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        // Not a crash of the code: memory ran out or somebody ended it.
        std::cerr << "worker " << w << " was killed at case " << i << "\n";
        return 2;
      }
      if (i < shared->minFail.load()) {
        shared->minFail.store(i);
        crashNote = signalText(status) + " " + readFile(err).substr(0, 1500);
      }
    }
    unlink(st.c_str());
    unlink(err.c_str());
  }

  int rc = 0;
  std::string replayPath, message;
  uint64_t failIndex = shared->minFail.load();
  if (failIndex != UINT64_MAX) {
    Outcome first = isolated(Tape(mix(base, failIndex)), failIndex, {}, 0);
    int attempts = prop->anyReplay ? 40 : 3;
    for (int k = 1; first.rc != 1 && k < attempts; ++k) first = isolated(Tape(mix(base, failIndex)), failIndex, {}, 0);
    bool range = false;
    if (first.rc == 1 && first.msg.rfind("did not terminate", 0) == 0) {
      std::cout << "not shrunk, since every run takes so long\n";
    } else if (first.rc == 1) {
      const char* limit = getenv("VERIF_SHRINK");
      Shrinker sh{failIndex, 0, now() + (limit ? atof(limit) : thoroughTier ? 90 : 40), prop->anyReplay ? 60 : 4000, first};
      sh.run();
      // A shrunk case has to fail reliably.
      int failed = 0, n = prop->replays;
      for (int k = 0; k < n; ++k) failed += isolated(Tape(sh.best.tape), failIndex, {}, 0).rc == 1;
      if (failed == n || (prop->anyReplay && failed)) first = sh.best;
      std::cout << "shrunk to " << first.tape.size() << " choices in " << sh.execs << " runs\n";
    } else {
      // The outcome depends on what ran before.
      auto b = history(failIndex, workers);
      first = isolated(Tape(mix(base, failIndex)), failIndex, b, base);
      range = true;
      if (first.rc != 1) {
        first.rc = 1;
        first.msg = "not reproduced in isolation: " + crashNote;
      }
    }
    message = first.msg;
    replayPath = dir + "/" + prop->id + "-" + tier + "-" + std::to_string(seed) + ".json";
    writeReplay(replayPath, tier, seed, failIndex, workers, range, first);
    std::cout << "input: " << shorten(first.input, 4000) << "\nfailure: " << message << "\n";
    std::cout << "VIOLATION property=" << prop->id << " replay=" << replayPath << "\n";
    rc = 1;
  }
  unlink(childErr.c_str());

  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\n \"evaluations\": " << s.evaluations << ",\n \"nontrivial\": " << s.nontrivial << ",\n \"distinct_nontrivial\": " << hashes.size()
      << ",\n \"discarded\": " << s.discarded << ",\n \"calls\": " << s.work << ",\n \"wall_s\": " << now() - t0 << ",\n \"rule\": " << jsonStr(prop->rule)
      << ",\n \"violations\": " << (rc ? 1 : 0) << ",\n \"message\": " << jsonStr(message) << ",\n \"replay\": " << jsonStr(replayPath) << ",\n \"classes\": {";
    bool firstL = true;
    for (auto& l : s.labels) {
      f << (firstL ? "" : ",") << "\n  " << jsonStr(l.first) << ": " << l.second;
      firstL = false;
    }
    f << "},\n \"samples\": [";
    std::sort(s.samples.begin(), s.samples.end());
    for (size_t i = 0; i < std::min<size_t>(s.samples.size(), 10); ++i) f << (i ? "," : "") << "\n  " << jsonStr(s.samples[i].second);
    f << "]\n}\n";
  }
  std::cout << prop->id << " " << tier << ": " << s.evaluations << " cases, " << s.nontrivial << " non-trivial (" << hashes.size() << " distinct), "
            << s.discarded << " discarded, " << now() - t0 << " s\n";
  return rc;
}
