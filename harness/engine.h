// Runs properties over generated cases: forked workers, crash isolation, shrinking, replay, statistics.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "tape.h"

struct Failure {
  std::string what;
};

struct Case {
  explicit Case(Tape t) : tape(std::move(t)) {}
  Tape tape;
  std::string input;  // the case, written out; also decides whether two cases are distinct
  std::vector<std::string> labels;
  bool nontrivial = false;
  bool discarded = false;  // precondition not met; neither passed nor failed
  bool thorough = false;
  uint64_t index = 0;
  uint64_t work = 0;  // calls of the code under test
  void label(const std::string& l) { labels.push_back(l); }
  [[noreturn]] void fail(const std::string& what) { throw Failure{what}; }
  void check(bool ok, const std::string& what) {
    if (!ok) fail(what);
  }
};

struct Prop {
  std::string id;
  std::string rule;  // how cases are made and what makes one non-trivial
  std::function<void(Case&)> run;
  uint64_t quick = 1000, thorough = 10000;
  int workers = 8;
  int cpuSeconds = 20;     // CPU time of one case after which it counts as not terminating
  int replays = 3;         // replays of a failure that all have to fail...
  bool anyReplay = false;  // ...or one of them
  size_t enumerated = 0;   // the first cases are an enumeration of this many
  std::function<void()> setup;  // in each worker
  size_t memMB = 3000;     // address space of a worker, unless sanitizers are on
};

std::vector<Prop>& registry();
struct Register {
  explicit Register(Prop p) { registry().push_back(std::move(p)); }
};
int engineMain(int argc, char** argv);

// First difference of two dumps, for messages.
std::string diffText(const std::string& want, const std::string& got);
