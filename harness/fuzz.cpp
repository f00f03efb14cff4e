// Coverage-guided fuzzing of the library; FUZZ_MODE selects the oracle.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <set>
#include <sstream>
#include "ref.h"
#include "tokens.h"
#include "util/sqlhelper.h"
#include "walk.h"
using namespace hsql;

extern "C" size_t LLVMFuzzerMutate(uint8_t* data, size_t size, size_t max);

namespace {
enum Mode { OWN, ACCEPT, CONTENT, ERRPOS, LEX, INVALID };
Mode mode() {
  static const Mode m = [] {
    const char* e = getenv("FUZZ_MODE");
    std::string s = e ? e : "own";
    return s == "accept" ? ACCEPT : s == "content" ? CONTENT : s == "errpos" ? ERRPOS : s == "lex" ? LEX : s == "invalid" ? INVALID : OWN;
  }();
  return m;
}
constexpr int kDeep = 80;
[[noreturn]] void fail(const std::string& what) {
  fprintf(stderr, "\nFAILURE: %s\n", what.c_str());
  abort();
}
struct Ownership : Walker {
  std::unordered_set<const void*> seen;
  std::set<const Expr*> params;
  void object(const void* p) override {
    if (!seen.insert(p).second) fail("an object has two owners");
  }
  void missing(const char* what) override { fail(std::string("missing: ") + what); }
  void onExpr(const Expr* e) override {
    if (e->type == kExprParameter) params.insert(e);
  }
};
void own(const std::string& s) {
  std::vector<int16_t> tokens;
  SQLParser::tokenize(s, &tokens);
  SQLParserResult res;
  if (!SQLParser::parse(s, &res)) fail("parse returned false");
  Ownership w;
  for (auto* st : res.getStatements()) w.statement(st);
  for (auto* p : res.parameters())
    if (!w.params.count(p)) fail("a parameter is not part of the statements");
  std::string d = impl::dumpResultAll(res);
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  for (auto* st : res.getStatements()) printStatementInfo(st);
  std::cout.rdbuf(old);
  if (impl::dumpResultAll(res) != d) fail("printing changes the statements");
  SQLParserResult b(std::move(res));
  if (impl::dumpResultAll(b) != d) fail("moving changes the result");
  for (auto* st : b.releaseStatements()) delete st;
}
void reference(const std::string& s) {
  auto r = ref::parse(s);
  if (r.gray) return;
  SQLParserResult res;
  SQLParser::parse(s, &res);
  bool deep = r.maxDepth > kDeep;
  switch (mode()) {
    case ACCEPT:
      if (r.valid && !res.isValid() && !deep) fail(std::string("a text of the language is rejected: ") + (res.errorMsg() ? res.errorMsg() : ""));
      if (!r.valid && res.isValid()) fail("a text outside the language is accepted; it became\n" + impl::dump(res));
      return;
    case CONTENT: {
      if (!r.valid || !res.isValid()) return;
      // Only queries.
      if (r.stmts.size() != res.size()) fail("another number of statements");
      std::string want, got;
      for (size_t i = 0; i < res.size(); ++i)
        if (r.stmts[i]->type == kStmtSelect || res.getStatement(i)->type() == kStmtSelect) {
          want += ref::dump(*r.stmts[i]) + "\n";
          got += impl::dump(res.getStatement(i)) + "\n";
        }
      if (want != got) fail("content differs\nexpected " + want + "\ngot      " + got);
      return;
    }
    case INVALID:
      if (r.lexical && (res.isValid() || res.size())) fail("accepted although it cannot be tokenized; it became\n" + impl::dump(res));
      return;
    default: {
      if (res.isValid()) {
        if (!res.size() || res.errorMsg()) fail("accepted without statements or with an error message");
        return;
      }
      if (res.size() || !res.parameters().empty() || !res.errorMsg() || !*res.errorMsg()) fail("rejected with statements, with parameters or without a message");
      std::vector<size_t> width{0};
      for (char c : s) {
        if (c == '\n') width.push_back(0);
        else ++width.back();
      }
      int line = res.errorLine(), col = res.errorColumn();
      std::string where = "(" + std::to_string(line) + ", " + std::to_string(col) + ")";
      if (line < 0 || (size_t)line >= width.size() || col < 0 || (size_t)col > width[(size_t)line]) fail("the error is outside of the text: " + where);
      if (!r.syntax || r.semantic || deep) return;
      if (r.errTok < r.toks.size()) {
        auto& k = r.toks[r.errTok];
        if (line != k.line || col != k.col) fail("error reported at " + where + " instead of (" + std::to_string(k.line) + ", " + std::to_string(k.col) + ")");
      } else if (!r.toks.empty()) {
        auto& k = r.toks.back();
        if (line < k.line || (line == k.line && col < k.col)) fail("the text ends too early, but the error is reported before its last token, at " + where);
      }
    }
  }
}
struct Rng {
  uint64_t s;
  uint32_t below(uint32_t n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (uint32_t)((s >> 11) % n);
  }
};
}  // namespace

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  std::string s((const char*)data, size);
  s.shrink_to_fit();
  switch (mode()) {
    case OWN: own(s); break;
    case LEX: {
      std::vector<int16_t> tokens;
      SQLParser::tokenize(s, &tokens);
      std::string e = compareTokens(expectedTokens(ref::lex(s)), tokens);
      if (!e.empty()) fail(e);
      break;
    }
    default: reference(s);
  }
  return 0;
}

// Half of the changes are made to tokens, to stay close to the language.
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* data, size_t size, size_t max, unsigned seed) {
  Rng rng{seed * 0x9E3779B97F4A7C15ull + 1};
  rng.below(2);
  if (rng.below(2)) return LLVMFuzzerMutate(data, size, max);
  std::string s((const char*)data, size);
  auto toks = ref::lex(s);
  auto piece = [&](const ref::Tok& k) { return s.substr(k.off, k.end - k.off); };
  auto any = [&]() -> std::string {
    static const char* other[] = {"a", "b", "t", "1", "2.5", "'x'", "?", "(", ")", ",", ";", ".", "*", "+", "-", "/", "%", "^", "=", "<", ">", "<=", ">=", "<>", "!=", "==", "||", "[", "]",
                                  "9223372036854775807", "'2020-01-01'", "FIRST", "LAST", "CSV", "TBL", "BINARY", "DELIMITER", "QUOTE", "\"q\"", "-1", "0", "-9223372036854775808", "NULLS"};
    uint32_t n = sizeof other / sizeof *other;
    if (rng.below(3) == 0 && !toks.empty()) return piece(toks[rng.below((uint32_t)toks.size())]);
    if (rng.below(2)) return other[rng.below(n)];
    return ref::keywords()[rng.below((uint32_t)ref::keywords().size())];
  };
  for (uint32_t k = 1 + rng.below(3); k; --k) {
    toks = ref::lex(s);
    if (toks.empty()) {
      s += " " + any();
      continue;
    }
    auto& a = toks[rng.below((uint32_t)toks.size())];
    auto& b = toks[rng.below((uint32_t)toks.size())];
    size_t lo = std::min(a.off, b.off), hi = std::max(a.end, b.end);
    switch (rng.below(6)) {
      case 0: s.erase(a.off, a.end - a.off); break;
      case 1: s.replace(a.off, a.end - a.off, any()); break;
      case 2: s.insert(a.off, " " + any() + " "); break;
      case 3: {  // copy a range
        std::string r = s.substr(lo, std::min<size_t>(hi - lo, 300));
        auto& at = toks[rng.below((uint32_t)toks.size())];
        s.insert(at.off, " " + r + " ");
        break;
      }
      case 4:
        if (hi - lo < 300) s.erase(lo, hi - lo);
        break;
      default: {
        std::string x = piece(a), y = piece(b);
        if (a.off < b.off) {
          s.replace(b.off, b.end - b.off, x);
          s.replace(a.off, a.end - a.off, y);
        } else {
          s.replace(a.off, a.end - a.off, y);
          s.replace(b.off, b.end - b.off, x);
        }
      }
    }
  }
  size_t n = std::min(s.size(), max);
  memcpy(data, s.data(), n);
  return n;
}
