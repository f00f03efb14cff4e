// Properties about memory, histories and the environment: C20 - C25.
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <climits>
#include <cstring>
#include <iostream>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include "alloc.h"
#include "common.h"
#include "util/sqlhelper.h"
#include "walk.h"
using namespace gen;
using namespace hsql;

namespace {
std::string err(const SQLParserResult& r) { return r.errorMsg() ? r.errorMsg() : "(no message)"; }

// ---------------------------------------------------------------- texts
std::string statementText(Tape& t, int nodes = 40) {
  Gen g(t);
  g.maxNodes = nodes;
  g.statement(g.anyStatement());
  return render(t, g.out);
}
// A text of the same length that differs in a few letters, digits or other bytes.
std::string neighbour(Tape& t, std::string s) {
  for (uint32_t n = t.range(1, 3); n && !s.empty(); --n) {
    // Often near the end, so that much of the start is the same.
    size_t i = t.chance(1, 2) ? s.size() - 1 - t.below((uint32_t)std::min<size_t>(s.size(), 12)) : t.below((uint32_t)s.size());
    unsigned char b = (unsigned char)s[i];
    if (b >= '0' && b <= '9') s[i] = (char)('0' + (b - '0' + 1 + t.below(9)) % 10);
    else if (isalpha(b)) s[i] = t.chance(1, 4) ? (char)(b ^ 32) : (char)((b & ~31) + 1 + t.below(26));
    else s[i] = ",;)( '*=+?1x\\\"-"[t.below(15)];
  }
  return s;
}
// Many short statements. Their number is of any magnitude.
std::string manyStatements(Tape& t, uint32_t most) {
  static const std::vector<std::string> v = {"COMMIT", "SELECT 1", "SELECT ?", "SELECT a FROM t WHERE b = ?", "SHOW TABLES", "DELETE FROM t", "DROP TABLE t", "SELECT 'x'", "BEGIN", "EXECUTE p"};
  uint32_t n = 2;
  while (n < most && t.chance(7, 8)) n = n * 3 / 2 + t.below(n);
  n = std::min(n, most);
  const std::string one = t.pick(v), two = t.chance(1, 2) ? one : t.pick(v);
  std::string s;
  for (uint32_t i = 0; i < n; ++i) (s += i % 3 == 1 ? two : one) += ';';
  return s;
}
std::string mutateBytes(Tape& t, std::string s) {
  uint32_t n = t.size(1, 2, 12);
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t at = t.below((uint32_t)s.size() + 1);
    switch (t.below(7)) {
      case 0:
        if (at < s.size()) s.erase(at, t.range(1, 4));
        break;
      case 1: {
        static const std::vector<std::string> frag = {"'", "\"", "--", "(", ")", ";", ",", "?", ".", "*", "\n", "\0", "\xff", "@", "''", "1", "9999999999999999999", "-9223372036854775808", "SELECT", " FROM ", "NULL", "[", "]", "<", "=", "||"};
        s.insert(at, t.chance(1, 8) ? std::string(1, '\0') : t.pick(frag));
        break;
      }
      case 2:
        if (at < s.size()) s[at] = (char)t.below(256);
        break;
      case 3: {
        uint32_t len = std::min<uint32_t>(t.range(1, 20), (uint32_t)s.size() - std::min<uint32_t>(at, (uint32_t)s.size()));
        s.insert(t.below((uint32_t)s.size() + 1), s.substr(at, len));
        break;
      }
      case 4:
        s.resize(at);
        break;
      case 5:
        if (at < s.size()) s[at] ^= (char)(1 << t.below(8));
        break;
      default:
        s += s.substr(0, at).substr(0, 200);
    }
  }
  return s;
}
std::string randomBytes(Tape& t) {
  uint32_t n = t.size(0, 20, 400);
  std::string s;
  bool ascii = t.chance(1, 2);
  for (uint32_t i = 0; i < n; ++i) s += ascii ? (char)t.range(9, 126) : (char)t.below(256);
  return s;
}
// Parentheses, subqueries, functions, joins, set operations... in each other, so that the parser's stack has to grow.
std::string nestedText(Tape& t) {
  struct Way {
    const char *open, *close;
    bool query;  // what is inside
  };
  static const std::vector<Way> inExpr = {{"(", ")", false},          {"NOT (", ")", false},      {"- (", ")", false},          {"a + (", ")", false},   {"f(a, ", ")", false}, {"CASE WHEN a THEN ", " END", false},
                                          {"ARRAY[1, ", "]", false},  {"COALESCE(", ", 1)", false}, {"a AND (b OR ", ")", false}, {"x IN (1, ", ")", false}, {"(", ")", true},      {"EXISTS (", ")", true},
                                          {"CAST(", " AS INT)", false}};
  static const std::vector<Way> inQuery = {{"(", ")", true},       {"SELECT ", "", false},          {"SELECT a, ", " FROM t", false},   {"SELECT a FROM (", ") x", true},           {"SELECT a UNION ", "", true},
                                           {"SELECT a FROM t WHERE ", " LIMIT 1", false}, {"SELECT a FROM t JOIN (", ") y ON b", true}, {"WITH w AS (", ") SELECT a FROM w", true}, {"(SELECT a) INTERSECT ", "", true}};
  bool one = t.chance(1, 2);
  uint32_t we = t.below((uint32_t)inExpr.size()), wq = t.below((uint32_t)inQuery.size());
  std::string s;
  std::vector<const char*> closing;
  bool query = t.chance(1, 2);
  if (!query) s = t.chance(1, 2) ? "SELECT " : "DELETE FROM t WHERE ";
  for (size_t n = t.below(t.chance(1, 4) ? 700 : 180); n && s.size() < 2500; --n) {
    const Way& w = query ? inQuery[one ? wq : t.below((uint32_t)inQuery.size())] : inExpr[one ? we : t.below((uint32_t)inExpr.size())];
    s += w.open;
    closing.push_back(w.close);
    query = w.query;
  }
  s += query ? "SELECT 'x', b" : t.chance(1, 2) ? "c" : "?";
  size_t keep = t.chance(1, 3) ? t.below((uint32_t)closing.size() + 1) : 0;
  while (closing.size() > keep) {
    s += closing.back();
    closing.pop_back();
  }
  if (t.chance(1, 8)) s = "SELECT a, 'b' FROM c; " + s;
  return s;
}
// Any text: accepted, rejected at any place, untokenizable.
std::string anyText(Case& c, int nodes = 40) {
  Tape& t = c.tape;
  switch (t.weighted({250, 100, 200, 200, 80, 50, 40, 80, 6, 2, 10, 10})) {
    case 0:
      c.label("statement");
      return statementText(t, nodes);
    case 1:
      c.label("statements");
      return render(t, statements(t, 6));
    case 2: {
      Toks k = statements(t, 2);
      for (uint32_t n = t.range(1, 3); n; --n) mutate(t, k);
      c.label("tokens changed");
      return render(t, k);
    }
    case 3:
      c.label("bytes changed");
      return mutateBytes(t, statementText(t, nodes));
    case 4: {
      Toks k;
      for (uint32_t n = t.size(1, 10, 80); n; --n) k.push_back(randomToken(t));
      c.label("random tokens");
      return render(t, k);
    }
    case 5:
      c.label("random bytes");
      return randomBytes(t);
    case 6: {
      // Within the limits of a rule beyond the grammar.
      static const std::vector<std::string> v = {"CREATE TABLE t (a INT NULL NOT NULL)", "CREATE TABLE t (a INT, b TEXT PRIMARY KEY NULL, c INT)", "SELECT DATE '2020-13-01'", "SELECT DATE 'x'", "SELECT INTERVAL '1 eon'",
                                                 "SELECT INTERVAL '99999999999999999999 days'", "IMPORT FROM foo FILE 'x' INTO t", "COPY t FROM 'x' WITH (FORMAT tbl, DELIMITER ',')", "COPY t TO 'x' (FORMAT csv, FORMAT csv)",
                                                 "COPY t FROM 'x' (ENCODING 'a', ENCODING 'b')", "COPY t FROM 'x' (NULL 'a', NULL 'b')", "COPY t FROM 'x' (FOO 'a')", "SELECT a FROM t ORDER BY a NULLS middle",
                                                 "CREATE TABLE t FROM foo FILE 'x'", "INSERT INTO t VALUES (?)", "EXECUTE p (?)", "SELECT a FROM t WITH HINT (h(?))"};
      c.label("breaks a rule");
      std::string s = t.pick(v);
      if (t.chance(1, 3)) s = statementText(t, 10) + "\n;" + s;
      if (t.chance(1, 3)) s += ";" + statementText(t, 10);
      return s;
    }
    case 8: {
      Toks k = statements(t, 2);
      Layout l;
      enlarge(c, k, l, 1);
      if (t.chance(1, 3)) mutate(t, k);
      return render(t, k, l);
    }
    case 10:
      c.label("foreign text");
      return foreign(t, statementText(t, nodes));
    case 11:
      c.label("deeply nested");
      return nestedText(t);
    case 9:
      c.label("many statements");
      return manyStatements(t, 6000);
    default: {
      // Cut off within a string or comment, or elsewhere.
      std::string s = statementText(t, nodes);
      s.resize(t.below((uint32_t)s.size() + 1));
      if (t.chance(1, 3)) s += "'" + stringContent(t);
      c.label("cut off");
      return s;
    }
  }
}

// ---------------------------------------------------------------- shared
struct Ownership : Walker {
  std::unordered_set<const void*> seen;
  std::string problem;
  std::vector<const Expr*> params;
  size_t chars = 0;
  void object(const void* p) override {
    if (!seen.insert(p).second && problem.empty()) problem = "an object has two owners";
  }
  void text(const char* s) override { chars += strlen(s); }
  void missing(const char* what) override {
    if (problem.empty()) problem = std::string("missing: ") + what;
  }
  void onExpr(const Expr* e) override {
    if (e->type == kExprParameter) params.push_back(e);
  }
};
std::string printed(const SQLStatement* s) {
  std::ostringstream o, e;
  auto* old = std::cout.rdbuf(o.rdbuf());
  auto* olde = std::cerr.rdbuf(e.rdbuf());
  printStatementInfo(s);
  std::cout.rdbuf(old);
  std::cerr.rdbuf(olde);
  return o.str() + e.str();
}
void wellFormed(Case& c, SQLParserResult& res) {
  Ownership w;
  for (auto* s : res.getStatements()) w.statement(s);
  c.check(w.problem.empty(), w.problem);
  std::set<const Expr*> in(w.params.begin(), w.params.end());
  for (auto* p : res.parameters()) c.check(in.count(p), "a parameter is not part of the statements");
}

// ---------------------------------------------------------------- C20
void anyInput(Case& c) {
  Tape& t = c.tape;
  std::string s = anyText(c);
  if (t.chance(1, 60)) {
    // Longer than the buffers.
    static const char* fills[] = {" ", "(", "'", "a", "--\n", "1", "a,", "''", "\"", "-", "a.", "SELECT a;"};
    std::string f = fills[t.below(12)], rep;
    for (uint32_t n = t.size(10, 300, 20000); n; --n) rep += f;
    s.insert(t.below((uint32_t)s.size() + 1), rep);
    c.label("long");
  }
  c.input = s;
  c.nontrivial = s.size() >= 5;
  // An exact copy on the heap, so that reading beyond the end is noticed.
  std::string exact(s.data(), s.size());
  exact.shrink_to_fit();
  std::vector<int16_t> tokens;
  SQLParser::tokenize(exact, &tokens);
  ++c.work;
  if (t.chance(1, 6)) {
    // Results as users handle them.
    SQLParserResult a;
    SQLParser::parse(exact, &a);
    SQLParserResult b(std::move(a));
    a = std::move(b);
    for (auto* st : a.releaseStatements()) {
      impl::dumpAll(st);
      delete st;
    }
    c.label("moved and released");
    return;
  }
  SQLParserResult res;
  bool ran = SQLParser::parse(exact, &res);
  ++c.work;
  c.check(ran, "parse returned false");
  c.label(res.isValid() ? "accepted" : "rejected");
  std::string d = impl::dumpResultAll(res);
  wellFormed(c, res);
  for (auto* st : res.getStatements()) {
    printed(st);
    c.check(st->type() != kStmtError, "a statement of no kind");
  }
  c.check(impl::dumpResultAll(res) == d, "printing changes the statements");
}
Prop c20prop(const char* id, uint64_t quick, uint64_t thorough) {
  Prop p;
  p.id = id;
  p.rule =
      "Byte strings: statements of the language, with tokens changed, with bytes changed (deleted, inserted, flipped, copied, cut), random tokens, random bytes, broken rules, texts cut off in strings, and some of up to 100 KB. Each is "
      "tokenized, parsed, walked, printed and destroyed, under AddressSanitizer and UndefinedBehaviorSanitizer (or valgrind for uninitialised reads); every object must have one owner. Non-trivial: at least five bytes.";
  p.run = anyInput;
  p.quick = quick;
  p.thorough = thorough;
  p.cpuSeconds = 60;
  return p;
}
const Register c20(c20prop("C20", 200000, 5000000));
const Register c20m(c20prop("C20m", 16000, 300000));

// Seeds for the fuzzers.
void seedText(Case& c) {
  Gen g(c.tape);
  g.maxNodes = 15;
  if (c.index % 8) {
    g.statement((Gen::St)(c.index % Gen::NSTATEMENTS));
    c.input = c.index % 2 ? plain(g.out) : render(c.tape, g.out);
  } else {
    c.input = render(c.tape, statements(c.tape, 3));
  }
}
const Register seeds({"seeds", "Statements, as seeds for the fuzzers.", seedText, 400, 400});

// ---------------------------------------------------------------- C21
// One use of the library; must not keep anything.
void disposal(const std::string& s, int mode, const std::string& other) {
  switch (mode) {
    case 0: {
      SQLParserResult r;
      SQLParser::parse(s, &r);
      break;
    }
    case 1: {
      SQLParserResult r;
      SQLParser::parse(s, &r);
      for (auto* st : r.releaseStatements()) delete st;
      break;
    }
    case 2: {
      SQLParserResult r;
      SQLParser::parse(s, &r);
      SQLParserResult q(std::move(r));
      SQLParserResult z;
      z = std::move(q);
      break;
    }
    case 3: {
      // Assigned over another result.
      SQLParserResult r, q;
      SQLParser::parse(s, &r);
      SQLParser::parse(other, &q);
      r = std::move(q);
      break;
    }
    case 4: {
      SQLParserResult r;
      SQLParser::parse(s, &r);
      r.reset();
      SQLParser::parse(other, &r);
      break;
    }
    case 5: {
      // Reused without a reset: a rejected text leaves no statements; released ones belong to the caller.
      SQLParserResult r;
      SQLParser::parse(s, &r);
      for (auto* st : r.releaseStatements()) delete st;
      SQLParser::parse(other, &r);
      break;
    }
    case 6: {
      std::vector<int16_t> tokens;
      SQLParser::tokenize(s, &tokens);
      break;
    }
    case 7: {
      SQLParserResult r;
      SQLParser::parse(s, &r);
      for (auto* st : r.releaseStatements()) SQLParserResult one(st);
      break;
    }
    case 8: {
      SQLParserResult r, q;
      SQLParser::parse(s, &r);
      for (auto* st : r.releaseStatements()) q.addStatement(st);
      r.setErrorDetails(strdup("x"), 1, 2);
      r.setErrorDetails(strdup("y"), 1, 2);
      break;
    }
    default: {
      auto* r = new SQLParserResult;
      SQLParser::parse(s, r);
      r->parameters();
      std::vector<int16_t> tokens;
      SQLParser::tokenize(s, &tokens);
      delete r;
    }
  }
}
void leaks(Case& c) {
  if (!alloc::kAvailable) {
    c.discarded = true;
    return;
  }
  Tape& t = c.tape;
  std::string s, other = "SELECT 1";
  int mode = (int)t.weighted({40, 6, 6, 6, 6, 6, 10, 4, 4, 6});
  std::vector<std::string> texts;
  if (t.chance(1, 3)) {
    // An error at every token of a statement: cut off, replaced, or followed by another token.
    Gen g(t);
    g.maxNodes = 20;
    g.statement(g.anyStatement());
    Toks toks = g.out;
    uint32_t kind = t.below(3);
    Tok bad = t.chance(1, 2) ? Tok{PUNCT, "@"} : randomToken(t);
    size_t step = toks.size() > 60 ? toks.size() / 60 + 1 : 1;
    for (size_t i = t.below((uint32_t)step); i <= toks.size(); i += step) {
      Toks k(toks.begin(), toks.begin() + (long)i);
      if (kind) k.push_back(bad);
      if (kind == 2 && i < toks.size()) k.insert(k.end(), toks.begin() + (long)i + 1, toks.end());
      texts.push_back(plain(k));
    }
    c.label("errors at every token");
    c.input = plain(toks) + " (" + std::to_string(kind) + " " + bad.text + ")";
  } else {
    texts.push_back(anyText(c));
    c.input = texts[0];
  }
  if (mode >= 3 && mode <= 5) other = anyText(c, 15);
  c.nontrivial = c.input.size() >= 5;
  static const char* modes[] = {"destroyed", "released", "moved", "assigned over", "reset and reused", "reused", "tokenized", "one by one", "added", "on the heap"};
  c.label(modes[mode]);
  for (auto& x : texts) {
    // Memory that is kept for the thread (e.g. a buffer of the lexer) does not grow with every run.
    int64_t grown[4];
    bool ok = false;
    for (int k = 0; k < 4 && !ok; ++k) {
      int64_t before = alloc::liveBlocks();
      disposal(x, mode, other);
      ++c.work;
      grown[k] = alloc::liveBlocks() - before;
      ok = grown[k] == 0;
    }
    if (!ok) {
      if (texts.size() > 1) c.input = x;
      c.fail("every run leaves " + std::to_string(grown[3]) + " blocks of memory allocated (" + modes[mode] + "): " + x);
    }
  }
}
const Register c21({"C21",
                    "Texts as for C20, and statements with an error at every one of their tokens (cut off, replaced, or with a foreign token), each parsed or tokenized and disposed of in one of ten ways (destroyed, released, moved, "
                    "assigned over, reset and reused, ...). The balance of all allocations must be zero (a repeated run must not leave anything). Non-trivial: at least five bytes.",
                    leaks, 500000, 12000000});

// ---------------------------------------------------------------- C22
struct Model {
  bool valid = false, hasMsg = false, anyMsg = false, anyPos = true;
  std::string msg;
  int line = -1, col = -1;
  std::vector<SQLStatement*> stmts;
  std::vector<const Expr*> params;
  bool anyParams = false;  // not specified, after statements were released
};
void history(Case& c) {
  Tape& t = c.tape;
  int64_t before = alloc::liveBlocks();
  std::vector<std::unique_ptr<SQLParserResult>> slots(4);
  std::vector<Model> model(4);
  std::vector<SQLStatement*> pool;
  std::vector<std::unique_ptr<Expr>> own;  // parameters added by the user
  std::map<const SQLStatement*, std::string> content;
  std::string script, last;
  uint32_t steps = t.size(3, 25, 120);
  uint32_t kinds = 0;
  auto verify = [&](const std::string& op) {
    for (size_t i = 0; i < slots.size(); ++i) {
      if (!slots[i]) continue;
      auto& r = *slots[i];
      auto& m = model[i];
      std::string at = op + ": result " + std::to_string(i) + " ";
      c.check(r.isValid() == m.valid, at + (m.valid ? "is not valid" : "is valid"));
      c.check(r.size() == m.stmts.size(), at + "has " + std::to_string(r.size()) + " statements instead of " + std::to_string(m.stmts.size()));
      c.check(r.getStatements() == m.stmts, at + "has other statements");
      for (size_t k = 0; k < m.stmts.size(); ++k) {
        c.check(r.getStatement(k) == m.stmts[k] && r.getMutableStatement(k) == m.stmts[k], at + "gives another statement at " + std::to_string(k));
      }
      if (m.anyMsg) c.check(r.errorMsg() && *r.errorMsg(), at + "has no message");
      else if (m.hasMsg) c.check(r.errorMsg() && m.msg == r.errorMsg(), at + "has the message " + err(r) + " instead of " + m.msg);
      else c.check(!r.errorMsg(), at + "has the message " + err(r));
      if (!m.anyPos) c.check(r.errorLine() == m.line && r.errorColumn() == m.col, at + "has the error position " + std::to_string(r.errorLine()) + ", " + std::to_string(r.errorColumn()));
      if (!m.anyParams) {
        auto& p = r.parameters();
        c.check(p.size() == m.params.size(), at + "has " + std::to_string(p.size()) + " parameters instead of " + std::to_string(m.params.size()));
        for (size_t k = 0; k < p.size(); ++k) c.check(p[k] == m.params[k], at + "has another parameter at " + std::to_string(k));
      }
      for (auto* s : m.stmts) c.check(impl::dumpAll(s) == content[s], at + "has a statement that changed");
    }
    for (auto* s : pool) c.check(impl::dumpAll(s) == content[s], op + ": a released statement changed");
  };
  auto drop = [&](std::vector<SQLStatement*>& v) {
    for (auto* s : v) content.erase(s);
    v.clear();
  };
  auto fresh = [](Model& m) { m = Model{}; };
  static const std::vector<std::string> texts = {"SELECT 1", "SELECT a, ? FROM t WHERE b = ?", "SELECT ?; SELECT ?, ?; DELETE FROM t", "INSERT INTO t VALUES (1, 'x')", "SELECT", "SELECT a FROM t WHERE", "SELECT ?; SELECT ? FROM", "",
                                                 "SELECT a; @", "\n\nSELECT a b c", "CREATE TABLE t (a INT NULL NOT NULL)", "SELECT 'x", "COMMIT;", "EXECUTE p (1, 2)", "SELECT ? UNION SELECT ?", "\t SELECT 1 1"};
  for (uint32_t i = 0; i < steps; ++i) {
    size_t a = t.below(4), b = t.below(4);
    std::string op;
    int what = (int)t.weighted({25, 14, 8, 8, 8, 14, 8, 6, 5, 5, 4, 4, 3, 4});
    std::string A = std::to_string(a), B = std::to_string(b);
    if (!slots[a] && what != 7 && what != 2) what = 7;
    kinds |= 1u << what;
    switch (what) {
      case 0: {  // parse
        if (!model[a].stmts.empty()) {
          op = "reset " + A;
          slots[a]->reset();
          drop(model[a].stmts);
          fresh(model[a]);
          break;
        }
        std::string s = t.chance(2, 3) ? t.pick(texts) : t.chance(1, 2) ? statementText(t, 12) : mutateBytes(t, statementText(t, 12));
        if (!last.empty() && t.chance(1, 6)) s = neighbour(t, last);
        if (t.chance(1, 3000)) s = manyStatements(t, 3000);
        last = s;
        op = "parse " + A + " " + s;
        bool ran = SQLParser::parse(s, slots[a].get());
        ++c.work;
        c.check(ran, op + ": returned false");
        // The outcome has to be that of a new result.
        SQLParserResult ref;
        SQLParser::parse(s, &ref);
        std::string d1 = impl::dumpResultAll(*slots[a]), d2 = impl::dumpResultAll(ref);
        c.check(d1 == d2, op + ": differs from parsing into a new result: " + diffText(d2, d1));
        Model m;
        m.valid = ref.isValid();
        m.hasMsg = ref.errorMsg();
        m.msg = ref.errorMsg() ? ref.errorMsg() : "";
        m.anyPos = ref.isValid();
        m.line = ref.errorLine();
        m.col = ref.errorColumn();
        m.stmts = slots[a]->getStatements();
        for (auto* st : m.stmts) content[st] = impl::dumpAll(st);
        std::set<const Expr*> in;
        {
          Ownership w;
          for (auto* st : m.stmts) w.statement(st);
          in.insert(w.params.begin(), w.params.end());
        }
        for (auto* p : slots[a]->parameters()) {
          c.check(in.count(p), op + ": a parameter is not part of the statements");
          m.params.push_back(p);
        }
        c.check(m.params.size() == in.size(), op + ": not all placeholders are listed");
        model[a] = m;
        break;
      }
      case 1: {  // move assignment
        op = "move " + A + " to " + B;
        if (!slots[b]) slots[b] = std::make_unique<SQLParserResult>(), fresh(model[b]);
        SQLParserResult& from = *slots[a];
        *slots[b] = std::move(from);
        if (a != b) {
          drop(model[b].stmts);
          model[b] = model[a];
          fresh(model[a]);
        }
        break;
      }
      case 2: {  // move construction
        if (!slots[a] || slots[b]) {
          op = "nothing";
          break;
        }
        op = "construct " + B + " from " + A;
        slots[b] = std::make_unique<SQLParserResult>(std::move(*slots[a]));
        model[b] = model[a];
        fresh(model[a]);
        break;
      }
      case 3:
        op = "reset " + A;
        slots[a]->reset();
        drop(model[a].stmts);
        fresh(model[a]);
        break;
      case 4: {
        op = "destroy " + A;
        slots[a].reset();
        drop(model[a].stmts);
        fresh(model[a]);
        break;
      }
      case 5: {
        op = "release " + A;
        auto v = slots[a]->releaseStatements();
        c.check(v == model[a].stmts, op + ": gives other statements");
        pool.insert(pool.end(), v.begin(), v.end());
        model[a].stmts.clear();
        model[a].anyParams = true;
        break;
      }
      case 6: {
        if (pool.empty()) {
          op = "nothing";
          break;
        }
        size_t k = t.below((uint32_t)pool.size());
        op = "add to " + A;
        slots[a]->addStatement(pool[k]);
        model[a].stmts.push_back(pool[k]);
        pool.erase(pool.begin() + (long)k);
        break;
      }
      case 7: {
        if (slots[a]) {
          op = "nothing";
          break;
        }
        fresh(model[a]);
        if (t.chance(1, 4)) {  // a statement that was not parsed
          SQLStatement* made;
          switch (t.below(4)) {
            case 0: made = new ShowStatement(kShowTables); break;
            case 1: made = new TransactionStatement(kRollbackTransaction); break;
            case 2: {
              auto* drop = new DropStatement(kDropTable);
              drop->ifExists = t.chance(1, 2);
              drop->name = strdup("made");
              made = drop;
              break;
            }
            default: made = new DeleteStatement();
          }
          if (made->is(kStmtDelete)) {
            static_cast<DeleteStatement*>(made)->tableName = strdup("made");
            if (t.chance(1, 2)) static_cast<DeleteStatement*>(made)->expr = Expr::makeLiteral((int64_t)i);
          }
          if (t.chance(1, 3)) made->stringLength = t.below(100);
          pool.push_back(made);
          content[made] = impl::dumpAll(made);
        }
        if (!pool.empty() && t.chance(1, 3)) {
          op = "construct " + A + " with a statement";
          slots[a] = std::make_unique<SQLParserResult>(pool.back());
          model[a].stmts.push_back(pool.back());
          pool.pop_back();
        } else {
          op = "construct " + A;
          slots[a] = std::make_unique<SQLParserResult>();
        }
        break;
      }
      case 8: {
        op = "set error of " + A;
        std::string m = "error " + std::to_string(i % (1 + t.below(20)));
        bool none = t.chance(1, 5);
        auto position = [&] {
          static const int odd[] = {-1, 0, -2, 1, INT_MAX, INT_MIN, 65535, 65536, 32768, -5};
          return t.chance(1, 3) ? odd[t.below(10)] : (int)t.below(1000);
        };
        model[a].line = position();
        model[a].col = position();
        slots[a]->setErrorDetails(none ? nullptr : strdup(m.c_str()), model[a].line, model[a].col);
        model[a].hasMsg = !none;
        model[a].msg = none ? "" : m;
        model[a].anyMsg = false;
        model[a].anyPos = false;
        break;
      }
      case 9: {
        bool v = t.chance(1, 2);
        op = "set validity of " + A;
        slots[a]->setIsValid(v);
        model[a].valid = v;
        break;
      }
      case 10: {
        if (pool.empty()) {
          op = "nothing";
          break;
        }
        op = "delete a released statement";
        size_t k = t.below((uint32_t)pool.size());
        content.erase(pool[k]);
        delete pool[k];
        pool.erase(pool.begin() + (long)k);
        // Lists of parameters that pointed into it are not specified any more.
        break;
      }
      case 11: {
        // Through a container, as users do.
        op = "through a vector " + A;
        std::vector<SQLParserResult> v;
        v.push_back(std::move(*slots[a]));
        v.emplace_back();
        v.reserve(10);
        *slots[a] = std::move(v[0]);
        break;
      }
      case 13: {
        // The list stays in the order of the numbers. After a release, it may refer to parameters that were deleted.
        if (model[a].anyParams) {
          op = "nothing";
          break;
        }
        Expr* e = Expr::makeParameter((int)i);
        e->ival = (int64_t)t.below(1000) * 200 + i;
        own.emplace_back(e);
        op = "add parameter " + std::to_string(e->ival) + " to " + A;
        slots[a]->addParameter(e);
        auto& p = model[a].params;
        bool tie = false;  // their order is not specified
        for (auto* x : p) tie = tie || x->ival == e->ival;
        if (tie) model[a].anyParams = true;
        else p.insert(std::upper_bound(p.begin(), p.end(), e, [](const Expr* x, const Expr* y) { return x->ival < y->ival; }), e);
        break;
      }
      default: {
        op = "swap " + A + " " + B;
        if (!slots[b] || a == b) break;
        std::swap(*slots[a], *slots[b]);
        std::swap(model[a], model[b]);
      }
    }
    script += op + "; ";
    c.input = script;
    verify(op);
  }
  c.nontrivial = __builtin_popcount(kinds) >= 4;
  for (auto* s : pool) delete s;
  slots.clear();
  (void)before;
}
const Register c22({"C22",
                    "Sequences of 3 to 120 operations (parse, move, move construction, reset, destroy, release, add, construct, add a parameter, set error, set validity, delete, through a container, swap) over four results and the statements released from them; "
                    "after each, everything every result reports is compared with a model, and parsing into a used result with parsing into a new one. Run under AddressSanitizer, and with the balance of allocations. "
                    "Non-trivial: at least four kinds of operations.",
                    history, 60000, 1500000});
// The same, with the balance of allocations.
void historyBalance(Case& c) {
  std::vector<uint32_t> tape;
  int64_t grown[4] = {0, 0, 0, 0};
  {
    Case first(c.tape);
    first.thorough = c.thorough;
    history(first);
    tape = first.tape.record();
    c.input = first.input;
    c.nontrivial = first.nontrivial;
    c.work = first.work;
  }
  // What the case itself consumes, for the record of the run.
  for (size_t i = 0; i < tape.size(); ++i) c.tape.below(0xFFFFFFFFu);
  bool ok = false;
  for (int k = 0; k < 4 && !ok; ++k) {
    int64_t before = alloc::liveBlocks();
    {
      Case again{Tape(tape)};
      history(again);
    }
    grown[k] = alloc::liveBlocks() - before;
    ok = grown[k] == 0;
  }
  c.check(ok, "every run of this sequence leaves " + std::to_string(grown[3]) + " blocks of memory allocated");
}
const Register c22b({"C22b", "The sequences of C22 in a build without sanitizers; the balance of all allocations of a sequence must be zero.", historyBalance, 150000, 4000000});

// ---------------------------------------------------------------- C23
__attribute__((noinline)) void paintStack(int byte) {
  volatile char buf[192 * 1024];
  memset((void*)buf, byte, sizeof buf);
  asm volatile("" : : "r"(buf) : "memory");
}
// Everything there is to see about a text.
std::string observe(const std::string& s) {
  // Parsing comes first: it is what a history can disturb most.
  SQLParserResult res;
  SQLParser::parse(s, &res);
  std::vector<int16_t> tokens;
  SQLParser::tokenize(s, &tokens);
  std::string o = impl::dumpResultAll(res);
  for (auto* st : res.getStatements()) o += "\n" + printed(st) + "length " + std::to_string(st->stringLength);
  o += "\ntokens";
  for (auto k : tokens) o += " " + std::to_string(k);
  return o;
}
std::string observeIn(const std::string& s, int heap, int stack, const std::vector<std::string>& before) {
  alloc::fill(heap);
  for (auto& b : before) {
    if (b.size() % 3 == 0) {
      std::vector<int16_t> tokens;
      SQLParser::tokenize(b, &tokens);
    } else {
      SQLParserResult r;
      SQLParser::parse(b, &r);
    }
  }
  paintStack(stack);
  std::string o = observe(s);
  alloc::fill(-1);
  return o;
}
// A process that has not parsed anything yet answers for a text.
struct Zygote {
  int in[2], out[2];
  pid_t pid = -1;
  void start() {
    if (pipe(in) || pipe(out)) return;
    pid = fork();
    if (pid == 0) {
      close(in[1]);
      close(out[0]);
      signal(SIGCHLD, SIG_IGN);
      for (;;) {
        uint32_t n;
        if (read(in[0], &n, 4) != 4) _exit(0);
        std::string s(n, 0);
        for (size_t k = 0; k < n;) {
          ssize_t r = read(in[0], &s[k], n - k);
          if (r <= 0) _exit(0);
          k += (size_t)r;
        }
        if (fork() == 0) {
          std::string o = observe(s);
          uint32_t m = (uint32_t)o.size();
          o.insert(0, (const char*)&m, 4);
          for (size_t k = 0; k < o.size();) {
            ssize_t w = write(out[1], o.data() + k, o.size() - k);
            if (w <= 0) _exit(0);
            k += (size_t)w;
          }
          _exit(0);
        }
      }
    }
    close(in[0]);
    close(out[1]);
  }
  bool ask(const std::string& s, std::string& o) {
    if (pid <= 0) return false;
    uint32_t n = (uint32_t)s.size();
    std::string m((const char*)&n, 4);
    m += s;
    if (write(in[1], m.data(), m.size()) != (ssize_t)m.size()) return false;
    auto get = [&](void* p, size_t len) {
      for (size_t k = 0; k < len;) {
        ssize_t r = read(out[0], (char*)p + k, len - k);
        if (r <= 0) return false;
        k += (size_t)r;
      }
      return true;
    };
    if (!get(&n, 4)) return false;
    o.resize(n);
    return get(&o[0], n);
  }
};
Zygote zygote;
void deterministic(Case& c) {
  Tape& t = c.tape;
  std::string s = anyText(c, 25);
  c.input = s;
  std::vector<std::string> before;
  static const std::vector<std::string> interrupted = {"SELECT 'abc", "SELECT 'it''s", "SELECT a --", "'", "\"x", "SELECT \"", "@", "SELECT 'x\0y'", "CURRENT", "SELECT -", "SELECT ?, ? FROM", "SELECT 99999999999999999999", "--"};
  for (uint32_t n = t.size(0, 3, 12); n; --n) before.push_back(t.chance(1, 2) ? t.pick(interrupted) : anyText(c, 10));
  if (t.chance(1, 3)) before.push_back(s.substr(0, t.below((uint32_t)s.size() + 1)));  // the text itself, interrupted
  if (t.chance(1, 3)) before.push_back(neighbour(t, s));
  c.nontrivial = !before.empty();
  int h1 = (int)t.below(256), h2 = 255 - h1, s1 = (int)t.below(256);
  std::string a = observeIn(s, h1, s1, {}), b = observeIn(s, h2, 255 - s1, before);
  c.work += 4 + before.size();
  std::string hist;
  for (auto& x : before) hist += " | " + x;
  c.check(a == b, "the result depends on what the memory contained or on the history" + hist + ": " + diffText(a, b));
  std::string z = observeIn(s, 0, 0, before);
  c.check(a == z, "the result depends on what the memory contained or on the history" + hist + ": " + diffText(a, z));
  if (t.chance(1, 8)) {
    std::string p;
    if (zygote.ask(s, p)) {
      c.label("compared with a new process");
      c.check(p == a, "the result differs from that in a new process: " + diffText(p, a));
    }
  }
}
Prop c23prop() {
  Prop p;
  p.id = "C23";
  p.rule =
      "Texts of all kinds (accepted, rejected, untokenizable) are parsed, tokenized and printed after different histories of zero to twelve other texts (among them texts rejected within a string, name or comment), with fresh heap memory "
      "and the stack filled with complementary bytes, and in a new process; all public fields, the printed summary, errors and tokens must be equal. Non-trivial: the history is not empty.";
  p.run = deterministic;
  p.quick = 300000;
  p.thorough = 8000000;
  p.setup = [] { zygote.start(); };
  return p;
}
const Register c23(c23prop());

// ---------------------------------------------------------------- C30
std::string tokenList(const std::vector<int16_t>& v, size_t from = 0) {
  std::string s;
  for (size_t i = from; i < v.size(); ++i) s += " " + std::to_string(v[i]);
  return s;
}
void entryPoints(Case& c) {
  Tape& t = c.tape;
  std::string s = anyText(c, 25);
  c.input = s;
  c.nontrivial = s.size() >= 5;
  SQLParserResult res;
  c.check(SQLParser::parse(s, &res), "parse returned false");
  c.check(s == c.input, "parsing changes the text");
  std::string want = impl::dumpResultAll(res);
  auto same = [&](SQLParserResult& r, const std::string& how, const std::string& as) {
    std::string got = impl::dumpResultAll(r);
    if (got != as) c.fail("differs " + how + ": " + diffText(as, got));
  };
  {
    SQLParserResult r;
    c.check(SQLParser::parseSQLString(s, &r), "parseSQLString returned false");
    same(r, "with parseSQLString(std::string)", want);
  }
  {
    // C strings end at a NUL.
    std::string cut(s.c_str());
    SQLParserResult r, u;
    c.check(SQLParser::parseSQLString(s.c_str(), &r), "parseSQLString returned false");
    SQLParser::parse(cut, &u);
    same(r, "with parseSQLString(const char*)", cut == s ? want : impl::dumpResultAll(u));
    c.label(cut == s ? "no NUL" : "NUL");
  }
  {
    // The text is gone when the result is used.
    SQLParserResult r;
    auto text = std::make_unique<std::string>(s);
    text->reserve(s.size() + t.below(100));
    SQLParser::parse(*text, &r);
    for (char& ch : *text) ch = (char)~ch;
    text.reset();
    same(r, "after the text is gone", want);
  }
  {
    // Part of a larger buffer.
    std::string big = "SELECT '" + s + "' x; SELECT (";
    SQLParserResult r;
    SQLParser::parse(big.substr(8, s.size()), &r);
    same(r, "as a copy of a part of another text", want);
  }
  std::vector<int16_t> k, m;
  c.check(SQLParser::tokenize(s, &k), "tokenize returned false");
  c.check(s == c.input, "tokenizing changes the text");
  // Now and then a long list, of tokens or anything else.
  size_t had = t.chance(1, 50) ? t.below(1u << t.range(5, 17)) : t.range(1, 20);
  for (size_t i = 0; i < had; ++i) m.push_back((int16_t)(i < 20 ? t.below(30000) : i * 40503u));
  auto before = m;
  SQLParser::tokenize(s, &m);
  c.check(m.size() == k.size() + before.size() && std::equal(before.begin(), before.end(), m.begin()) && tokenList(m, before.size()) == tokenList(k), "tokenize does not append to the list");
  c.work += 7;
}
const Register c30({"C30",
                    "Texts of all kinds go through every entry point: parse, both forms of parseSQLString (a C string ends at a NUL), as a temporary that is overwritten and freed before the result is looked at, as a part of a larger text, and "
                    "tokenize into an empty and a filled list. All public fields, errors and tokens must be equal and the text unchanged. Non-trivial: at least five bytes.",
                    entryPoints, 300000, 8000000});

// ---------------------------------------------------------------- C33
void refusal(Case& c) {
  if (!alloc::kAvailable) {
    c.discarded = true;
    return;
  }
  Tape& t = c.tape;
  int mode = (int)t.weighted({45, 45, 10});
  std::string s = mode == 2 || t.chance(1, 5) ? nestedText(t) : anyText(c, 15);
  c.input = s;
  static FILE* nothing = [] {
    FILE* f = fopen("/dev/null", "w");
    if (f) setvbuf(f, nullptr, _IONBF, 0);
    return f;
  }();
  std::string want;
  std::vector<int16_t> tokens;
  {
    SQLParserResult r;
    SQLParser::parse(s, &r);
    want = impl::dumpResultAll(r);
    SQLParser::tokenize(s, &tokens);
  }
  bool reused = t.chance(1, 3), same = t.chance(1, 2);
  size_t had = t.below(4);
  static const char* modes[] = {"parse: first request", "tokenize: first request", "parse: large requests"};
  c.label(modes[mode]);
  int refused = 0;
  auto run = [&] {
    SQLParserResult r;
    // An error left by a text before, in part of the cases.
    if (reused) SQLParser::parse("SELECT ?, 'x' FROM (", &r);
    const std::string old = impl::dumpResultAll(r);
    std::vector<int16_t> k(had, 7);
    FILE* was = stderr;
    if (nothing) stderr = nothing;
    bool ok;
    alloc::refuse(mode == 2 ? std::max<size_t>(8000, 2 * s.size() + 200) : 1, mode == 2 ? 1000 : 1);
    if (mode == 1) ok = SQLParser::tokenize(s, &k);
    else ok = SQLParser::parse(s, &r);
    refused = alloc::refused();
    alloc::refuse(0, 0);
    stderr = was;
    ++c.work;
    if (!refused) return;
    if (mode == 1) {
      if (ok) {
        c.check(k.size() == had + tokens.size() && tokenList(k, had) == tokenList(tokens), "without memory for it, tokenize returns true with a token list that is not that of the text");
      } else {
        c.check(k.size() == had, "without memory for it, tokenize returns false and changes the list");
      }
      k.resize(had);
      c.check(SQLParser::tokenize(s, &k), "tokenize returned false");
      c.check(tokenList(k, had) == tokenList(tokens), "tokenize gives other tokens after memory ran out once");
      return;
    }
    std::string got = impl::dumpResultAll(r);
    if (!ok) {
      c.label("returns false");
      c.check(got == old || (!r.isValid() && r.size() == 0 && r.parameters().empty()), "without memory for it, parse returns false and puts something into the result: " + diffText(old, got));
    } else if (got != want) {
      c.label("rejected");
      c.check(!r.isValid(), "a text for which there was no memory is taken for valid: " + diffText(want, got));
      c.check(r.size() == 0 && r.parameters().empty(), "a text for which there was no memory is rejected, but leaves statements or parameters");
      c.check(r.errorMsg() && *r.errorMsg(), "a text for which there was no memory is rejected without a message");
    } else {
      c.label("manages");
    }
    // The next one finds memory again.
    if (same && (r.size() == 0)) {
      c.check(SQLParser::parse(s, &r), "parse returned false");
      got = impl::dumpResultAll(r);
      if (got != want) c.fail("differs after memory ran out once, in the same result: " + diffText(want, got));
    }
    SQLParserResult fresh;
    c.check(SQLParser::parse(s, &fresh), "parse returned false");
    got = impl::dumpResultAll(fresh);
    if (got != want) c.fail("differs after memory ran out once: " + diffText(want, got));
  };
  int64_t grown = 0;
  if (mode < 2 && t.chance(1, 8)) {
    // The first thing a thread does.
    c.label("in a new thread");
    bool failed = false;
    Failure failure;
    std::thread([&] {
      try {
        run();
      } catch (Failure& f) {
        failed = true;
        failure = f;
      }
    }).join();
    if (failed) throw failure;
  }
  for (int k = 0; k < 4; ++k) {
    int64_t before = alloc::liveBlocks();
    run();
    grown = alloc::liveBlocks() - before;
    if (!grown) break;
  }
  c.nontrivial = refused > 0;
  c.check(!grown, "every run in which memory is refused leaves " + std::to_string(grown) + " blocks of memory allocated (" + modes[mode] + ")");
}
const Register c33({"C33",
                    "Fault injection: texts of all kinds, and texts nested up to 700 levels in mixed ways, valid or cut off, are parsed or tokenized while the first request for memory (that of the lexer), or all requests larger than the text needs "
                    "(which a parser's stack that grows would make), are refused; only requests that report this to their caller, not operator new. The call must report it or manage, leave nothing allocated, and the same text must parse as ever afterwards. "
                    "Non-trivial: a request was refused.",
                    refusal, 150000, 4000000});

// ---------------------------------------------------------------- C24
// Gives each thread the output it makes.
struct PerThread : std::streambuf {
  static std::string& mine() {
    static thread_local std::string s;
    return s;
  }
  int overflow(int c) override {
    if (c != EOF) mine() += (char)c;
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    mine().append(s, (size_t)n);
    return n;
  }
};
struct Redirected {
  PerThread buf;
  std::streambuf* old;
  Redirected() : old(std::cout.rdbuf(&buf)) {}
  ~Redirected() { std::cout.rdbuf(old); }
};
using Texts = std::vector<std::shared_ptr<const std::string>>;
void threadsRun(Case& c, const std::vector<Texts>& work) {
  size_t n = work.size();
  std::vector<std::vector<std::string>> got(n);
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> th;
  auto one = [](const std::string& s) {
    std::vector<int16_t> tokens;
    SQLParser::tokenize(s, &tokens);
    SQLParserResult res;
    SQLParser::parse(s, &res);
    std::string o = impl::dumpResultAll(res);
    for (auto k : tokens) o += " " + std::to_string(k);
    PerThread::mine().clear();
    // Not with ThreadSanitizer: std::cout itself is shared, and parts of it may be inlined here.
    if (alloc::kAvailable)
      for (auto* x : res.getStatements()) printStatementInfo(x);
    return o + "\n" + PerThread::mine();
  };
  Redirected toThreads;
  for (size_t i = 0; i < n; ++i)
    th.emplace_back([&, i] {
      ++ready;
      while (!go) std::this_thread::yield();
      for (auto& s : work[i]) got[i].push_back(one(*s));
    });
  while (ready < (int)n) std::this_thread::yield();
  go = true;
  for (auto& x : th) x.join();
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < work[i].size(); ++k) {
      std::string want = one(*work[i][k]);
      c.check(want == got[i][k], "in thread " + std::to_string(i) + " among " + std::to_string(n) + ", " + *work[i][k] + " gives another result: " + diffText(want, got[i][k]));
    }
}
void threads(Case& c) {
  Tape& t = c.tape;
  size_t n = t.range(2, 6);
  std::vector<Texts> work(n);
  std::string all;
  bool shared = t.chance(1, 4);  // all threads parse the same texts, the very same objects
  for (size_t i = 0; i < n; ++i) {
    if (shared && i) {
      work[i] = work[0];
      continue;
    }
    for (uint32_t k = t.range(1, 6); k; --k) {
      std::string s;
      switch (t.below(4)) {
        case 0: {
          // Many strings: the lexer collects them in a buffer.
          s = "SELECT 'thread " + std::to_string(i) + "'";
          for (uint32_t m = t.range(1, 40); m; --m) s += ", '" + stringContent(t) + "''";
          s += "'";
          if (s.find('\0') != std::string::npos) s = "SELECT 'x'";
          break;
        }
        default: s = anyText(c, 25);
      }
      if (i && t.chance(1, 5)) s = neighbour(t, *t.pick(work[t.below((uint32_t)i)]));
      else if (!work[i].empty() && t.chance(1, 8)) s = neighbour(t, *work[i].back());
      work[i].push_back(std::make_shared<const std::string>(s));
      all += s + " | ";
    }
    all += " || ";
  }
  c.input = all;
  c.nontrivial = true;
  for (auto& w : work) c.work += 4 * w.size();
  threadsRun(c, work);
}
Prop c24prop(const char* id, uint64_t quick, uint64_t thorough) {
  Prop p;
  p.id = id;
  p.rule =
      "Two to six threads are released at once and each parse, tokenize, dump, print and destroy one to six texts (accepted and rejected, with many strings); each result must be that of the same text in one thread. In a plain build for "
      "throughput and in a build with ThreadSanitizer, which reports races even if they do no harm in that run. Non-trivial: all.";
  p.run = threads;
  p.quick = quick;
  p.thorough = thorough;
  p.workers = 4;
  p.anyReplay = true;
  return p;
}
const Register c24(c24prop("C24", 20000, 500000));
const Register c24t(c24prop("C24t", 4000, 120000));

// ---------------------------------------------------------------- C32
// A thread that does what it is told, one thing after the other.
struct Actor {
  std::mutex m;
  std::condition_variable cv;
  const std::function<void()>* job = nullptr;
  bool quit = false, started = false;
  std::thread th;
  void start() {
    if (started) return;
    started = true;
    quit = false;
    th = std::thread([this] {
      std::unique_lock<std::mutex> l(m);
      for (;;) {
        cv.wait(l, [&] { return job || quit; });
        if (!job) return;
        (*job)();
        job = nullptr;
        cv.notify_all();
      }
    });
  }
  void tell(const std::function<void()>& f) {
    start();
    std::lock_guard<std::mutex> l(m);
    job = &f;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return !job; });
  }
  void end() {
    if (!started) return;
    {
      std::lock_guard<std::mutex> l(m);
      quit = true;
      cv.notify_all();
    }
    th.join();
    started = false;
  }
  ~Actor() { end(); }
};
// What the accessors say about everything in a result.
struct Accessors : Walker {
  uint64_t n = 0;
  void onExpr(const Expr* e) override {
    n += e->hasAlias() + 2 * e->hasTable() + 4 * e->isLiteral() + 8 * e->isType(kExprOperator);
    const char* s = e->getName();
    n = n * 31 + (s ? strlen(s) : 1);
  }
  void onTable(const TableRef* r) override {
    n = n * 31 + r->hasSchema();
    const char* s = r->getName();
    n = n * 31 + (s ? strlen(s) : 1);
  }
};
std::string look(SQLParserResult& r) {
  std::string o = impl::dumpResultAll(r);
  Accessors a;
  for (auto* s : r.getStatements()) {
    o += " " + std::to_string((int)s->type()) + "," + std::to_string(s->stringLength);
    a.statement(s);
  }
  return o + " accessors " + std::to_string(a.n);
}
struct HandOver {
  enum Op { PARSE, LOOK, LOOK_ALL, MOVE, ASSIGN, DESTROY, RELEASE, RESET, END, MIXED, FORK };
  struct Step {
    Op op;
    uint32_t actor, slot, other, text;
  };
  size_t actors, slots;
  std::vector<std::string> texts, want;
  std::vector<Step> steps;
};
bool inChild(SQLParserResult* r, const std::string& want, const std::string& text, const std::string& wantText) {
  pid_t pid = fork();
  if (pid < 0) return true;
  if (pid == 0) {
    alarm(60);
    bool ok = look(*r) == want;
    delete r;
    SQLParserResult x;
    SQLParser::parse(text, &x);
    ok = ok && look(x) == wantText;
    _exit(ok ? 0 : 3);
  }
  int st = 0;
  if (waitpid(pid, &st, 0) != pid) return true;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) return true;  // too slow: not decided
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// Returns what is wrong, or an empty text.
std::string handOver(const HandOver& h, uint64_t& work) {
  std::vector<Actor> actors(h.actors);
  std::vector<std::unique_ptr<SQLParserResult>> slot(h.slots);
  std::vector<int> holds(h.slots, -1);  // the text; -1: nothing, -2: an empty result
  const std::string empty = [] {
    SQLParserResult r;
    return look(r);
  }();
  std::string problem;
  std::mutex say;
  auto expect = [&](const std::string& got, int text, const std::string& how) {
    const std::string& w = text == -2 ? empty : h.want[(size_t)text];
    if (got == w) return;
    std::lock_guard<std::mutex> l(say);
    if (problem.empty()) problem = how + ", the result of " + (text == -2 ? "nothing" : h.texts[(size_t)text]) + " is another: " + diffText(w, got);
  };
  auto run = [&](uint32_t actor, const std::function<void()>& f) {
    if (actor == 0) {
      f();
      return;
    }
    actors[actor - 1].tell(f);
    actors[actor - 1].wait();
  };
  for (auto& s : h.steps) {
    if (!problem.empty()) break;
    auto& r = slot[s.slot];
    auto& o = slot[s.other];
    switch (s.op) {
      case HandOver::PARSE:
        run(s.actor, [&] {
          r = std::make_unique<SQLParserResult>();
          SQLParser::parse(h.texts[s.text], r.get());
        });
        holds[s.slot] = (int)s.text;
        ++work;
        break;
      case HandOver::LOOK:
        if (!r) break;
        run(s.actor, [&] { expect(look(*r), holds[s.slot], "in another thread"); });
        break;
      case HandOver::LOOK_ALL: {
        // Several threads read the same result.
        if (!r) break;
        std::function<void()> f = [&] { expect(look(*r), holds[s.slot], "read by several threads"); };
        for (auto& a : actors) a.tell(f);
        f();
        for (auto& a : actors) a.wait();
        break;
      }
      case HandOver::MOVE:
        if (!r || s.slot == s.other) break;
        run(s.actor, [&] { o = std::make_unique<SQLParserResult>(std::move(*r)); });
        holds[s.other] = holds[s.slot];
        holds[s.slot] = -2;
        break;
      case HandOver::ASSIGN:
        if (!r || !o || s.slot == s.other) break;
        run(s.actor, [&] { *o = std::move(*r); });
        holds[s.other] = holds[s.slot];
        holds[s.slot] = -2;
        break;
      case HandOver::DESTROY:
        run(s.actor, [&] { r.reset(); });
        holds[s.slot] = -1;
        break;
      case HandOver::RELEASE:
        if (!r) break;
        {
          std::vector<SQLStatement*> out;
          run(s.actor, [&] { out = r->releaseStatements(); });
          run(s.other % (uint32_t)(h.actors + 1), [&] {
            for (auto* x : out) delete x;
            r.reset();
          });
          out = {};
        }
        holds[s.slot] = -1;
        break;
      case HandOver::RESET:
        if (!r) break;
        run(s.actor, [&] { r->reset(); });
        holds[s.slot] = -2;
        break;
      case HandOver::END:
        if (s.actor) actors[s.actor - 1].end();
        break;
      case HandOver::MIXED: {
        // At the same time each thread destroys or replaces a result, whoever made it.
        std::vector<std::function<void()>> f;
        for (size_t i = 0; i < h.actors; ++i)
          f.push_back([&, i] {
            size_t k = i % h.slots;
            if (i >= h.slots) {
              SQLParserResult x;
              SQLParser::parse(h.texts[(s.text + i) % h.texts.size()], &x);
              expect(look(x), (int)((s.text + i) % h.texts.size()), "among other threads");
            } else if (i % 3 == 2) {
              slot[k].reset();
            } else {
              slot[k] = std::make_unique<SQLParserResult>();
              SQLParser::parse(h.texts[(s.text + i) % h.texts.size()], slot[k].get());
            }
          });
        for (size_t i = 0; i < h.actors; ++i) {
          if (i < h.slots) holds[i] = i % 3 == 2 ? -1 : (int)((s.text + i) % h.texts.size());
          actors[i].tell(f[i]);
        }
        for (auto& a : actors) a.wait();
        work += h.actors;
        break;
      }
      case HandOver::FORK:
#ifndef SANITIZED
        if (!r) break;
        if (!inChild(r.get(), holds[s.slot] == -2 ? empty : h.want[(size_t)holds[s.slot]], h.texts[s.text], h.want[s.text])) problem = "in a forked process the result is another, or cannot be destroyed";
#endif
        break;
    }
  }
  // Those that made the results are gone.
  for (auto& a : actors) a.end();
  for (size_t i = 0; i < h.slots; ++i)
    if (slot[i]) expect(look(*slot[i]), holds[i], "after the threads have ended");
  return problem;
}
void handedOver(Case& c) {
  Tape& t = c.tape;
  HandOver h;
  h.actors = t.range(1, 4);
  h.slots = t.range(1, 5);
  for (uint32_t n = t.range(1, 5); n; --n) h.texts.push_back(!h.texts.empty() && t.chance(1, 5) ? neighbour(t, h.texts.back()) : anyText(c, 30));
  static const char* names[] = {"parse", "look", "look all", "move", "assign", "destroy", "release", "reset", "end", "mixed", "fork"};
  for (uint32_t n = t.size(2, 12, 40); n; --n) {
    HandOver::Step s;
    s.op = (HandOver::Op)t.weighted({60, 40, 25, 12, 12, 20, 12, 8, 25, 12, 1});
    s.actor = t.below((uint32_t)h.actors + 1);
    s.slot = t.below((uint32_t)h.slots);
    s.other = t.below((uint32_t)h.slots);
    s.text = t.below((uint32_t)h.texts.size());
    h.steps.push_back(s);
    c.label(names[s.op]);
  }
  bool parsed = false, other = false;
  for (auto& s : h.steps) {
    parsed |= s.op == HandOver::PARSE;
    other |= parsed && s.op != HandOver::PARSE && s.op != HandOver::END;
    c.input += std::string(names[s.op]) + "(" + std::to_string(s.actor) + " " + std::to_string(s.slot) + " " + std::to_string(s.other) + " " + std::to_string(s.text) + ") ";
  }
  for (size_t i = 0; i < h.texts.size(); ++i) c.input += "| " + std::to_string(i) + ": " + h.texts[i];
  c.nontrivial = other;
  for (auto& s : h.texts) {
    SQLParserResult r;
    SQLParser::parse(s, &r);
    h.want.push_back(look(r));
  }
  std::string problem = handOver(h, c.work);
  c.check(problem.empty(), problem);
  if (!alloc::kAvailable || !t.chance(1, 3)) return;
  // What threads keep for themselves may remain, but not grow with every run.
  int64_t grown = 0;
  for (int k = 0; k < 6; ++k) {
    alloc::countAll(true);
    int64_t before = alloc::allBlocks();
    handOver(h, c.work);
    grown = alloc::allBlocks() - before;
    alloc::countAll(false);
    if (grown <= 0) return;
  }
  c.fail("every run leaves " + std::to_string(grown) + " blocks of memory allocated");
}
Prop c32prop(const char* id, uint64_t quick, uint64_t thorough) {
  Prop p;
  p.id = id;
  p.rule =
      "Sequences of 2 to 40 operations on up to five results by up to five threads: parse, read everything, read in all threads at once, move, assign, release and delete, reset, destroy, end the thread (a new one takes its place), "
      "parse and destroy in all threads at once, use and destroy in a forked process. What a result contains must stay what it was in one thread; at the end all threads are gone and the results are read and destroyed. A part of the "
      "sequences is run again with the balance of all allocations. Also in a build with ThreadSanitizer. Non-trivial: something is done to a result after it was parsed.";
  p.run = handedOver;
  p.quick = quick;
  p.thorough = thorough;
  p.workers = 4;
  p.anyReplay = true;
  return p;
}
const Register c32(c32prop("C32", 20000, 500000));
const Register c32t(c32prop("C32t", 4000, 120000));

// ---------------------------------------------------------------- C25
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
struct Ctype : std::ctype<char> {
  char do_toupper(char c) const override { return c == 'i' ? '\xdd' : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { return c == 'I' ? '\xfd' : std::ctype<char>::do_tolower(c); }
};
struct Env {
  std::string name, posix;
  std::locale cxx;
};
std::vector<Env>& environments() {
  static std::vector<Env> v = [] {
    std::vector<Env> e;
    e.push_back({"facets", "C", std::locale(std::locale(std::locale::classic(), new Punct), new Ctype)});
    for (const char* n : {"de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "C.UTF-8"}) {
      if (!setlocale(LC_ALL, n)) continue;
      try {
        e.push_back({n, n, std::locale(n)});
      } catch (...) {
        e.push_back({n, n, std::locale::classic()});
      }
      e.push_back({std::string(n) + " and facets", n, std::locale(std::locale::classic(), new Punct)});
    }
    setlocale(LC_ALL, "C");
    return e;
  }();
  return v;
}
void localeCase(Case& c) {
  Tape& t = c.tape;
  std::string s;
  if (t.chance(1, 2)) {
    // What reading depends on a locale: numbers, letters, contextual words.
    static const std::vector<std::string> v = {"SELECT 1.5, .25, 1234567.875, 0.1", "SELECT 1.5 + 2.25 AS i", "SELECT INTERVAL '3 minutes', INTERVAL '7 DAYS', INTERVAL 12 mInUtE", "SELECT a FROM t ORDER BY a NULLS FIRST, b nulls last, c Nulls fIrSt",
                                               "COPY t FROM 'f' WITH (FORMAT csv, delimiter ';', QUOTE '|', NULL '')", "copy t to 'f' (DELIMITER ',', quote 'I')", "IMPORT FROM BINARY FILE 'f' INTO t", "import from csv file 'i' into I",
                                               "COPY t FROM 'f' (FORMAT BINARY)", "copy t from 'f' (format bin)", "CREATE TABLE t FROM TBL FILE 'f'", "CREATE TABLE ii (i INT, I VARCHAR(10), d DECIMAL(3, 2))", "insert into I values (1.75, 'I', DATE '2020-01-31')",
                                               "SELECT DATE '2024-12-31', TRUE, false", "select distinct i limit 10 offset 5", "SELECT xI, iX, II, ii FROM I WHERE I LIKE 'i'", "SELECT CAST('1,5' AS FLOAT), '1,5'", "SELECT 1,5", "SELECT f(1.5,2.5)"};
    s = t.pick(v);
    if (t.chance(1, 2)) s = randomCase(t, s);
    if (t.chance(1, 3)) s += "; SELECT " + floatText(t) + ", " + floatText(t);
    if (t.chance(1, 6)) s = mutateBytes(t, s);
    c.label("locale-sensitive");
  } else {
    s = anyText(c, 25);
  }
  c.input = s;
  bool number = false;
  for (size_t i = 0; i + 1 < s.size(); ++i) number |= s[i] == '.' && isdigit((unsigned char)s[i + 1]);
  c.nontrivial = number || s.find_first_of("iI") != std::string::npos;
  auto take = [&](const Env* e) {
    std::vector<int16_t> tokens;
    SQLParserResult res;
    if (e) {
      setlocale(LC_ALL, e->posix.c_str());
      std::locale::global(e->cxx);
      // Setting a global locale with a name also sets that of C.
      if (e->posix != "C") setlocale(LC_ALL, e->posix.c_str());
    }
    SQLParser::tokenize(s, &tokens);
    SQLParser::parse(s, &res);
    if (e) {
      std::locale::global(std::locale::classic());
      setlocale(LC_ALL, "C");
    }
    c.work += 2;
    std::string o = impl::dumpResultAll(res);
    for (auto k : tokens) o += " " + std::to_string(k);
    return o;
  };
  std::string want = take(nullptr);
  for (auto& e : environments()) {
    std::string got = take(&e);
    c.check(got == want, "the result is another under the locale " + e.name + ": " + diffText(want, got));
    c.label(e.name);
  }
}
const Register c25({"C25",
                    "Texts of all kinds, half of them with decimals, contextual words, option names and letters whose case differs between locales, are parsed and tokenized under the C locale, under locales with other decimal separators and case "
                    "rules (German, Turkish in two encodings, UTF-8) and under C++ facets with such rules; all fields, errors and tokens must be equal. Non-trivial: contains a decimal point or a letter I.",
                    localeCase, 200000, 5000000});
}  // namespace
