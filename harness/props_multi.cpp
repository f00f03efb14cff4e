// Properties about whole texts: C07, C16, C17, C18, C19.
#include <algorithm>
#include <set>
#include "common.h"
#include "walk.h"
using namespace gen;
using namespace hsql;

namespace {
void append(Toks& to, const Toks& from) { to.insert(to.end(), from.begin(), from.end()); }
std::string err(const SQLParserResult& r) { return r.errorMsg() ? r.errorMsg() : "(no message)"; }

// ---------------------------------------------------------------- C07
// The oracle counts the declarations while the text is made, without the reference parser.
enum Con { CNOTNULL, CNULL, CPK, CUNIQUE, CREF, NCON };
void emitConstraint(Gen& g, int k) {
  switch (k) {
    case CNOTNULL: g.k("NOT NULL"); break;
    case CNULL: g.k("NULL"); break;
    case CPK: g.k("PRIMARY KEY"); break;
    case CUNIQUE: g.k("UNIQUE"); break;
    default: g.references();
  }
}
struct ColumnPlan {
  std::vector<int> cons;
  bool has(int k) const { return std::count(cons.begin(), cons.end(), k) > 0; }
  bool notNull() const { return has(CNOTNULL) || has(CPK); }
  bool conflict() const { return has(CNULL) && notNull(); }
};
// All sequences of up to four constraints, one after another: 1 + 5 + 25 + 125 + 625.
std::vector<int> nthSequence(uint64_t i) {
  std::vector<int> v;
  uint64_t n = 1;
  for (int len = 0; len <= 4; ++len, n *= NCON) {
    if (i < n) {
      for (int k = 0; k < len; ++k) {
        v.push_back((int)(i % NCON));
        i /= NCON;
      }
      return v;
    }
    i -= n;
  }
  return v;
}
constexpr uint64_t kSequences = 1 + 5 + 25 + 125 + 625;
void nullability(Case& c) {
  Tape& t = c.tape;
  Gen g(t);
  std::vector<std::vector<ColumnPlan>> tables;  // of the CREATE TABLE statements
  std::vector<size_t> at;                       // their index among the statements
  size_t statements = 0;
  bool enumerated = c.index < kSequences;
  uint32_t creates = enumerated ? 1 : t.size(1, 1, 3);
  auto others = [&] {
    for (uint32_t n = enumerated ? 0 : t.size(0, 0, 2); n; --n) {
      Gen o(t);
      o.maxNodes = 10;
      Gen::St k;
      do k = o.anyStatement();
      while (k == Gen::CREATE_TABLE);
      o.statement(k);
      append(g.out, o.out);
      g.p(";");
      ++statements;
    }
  };
  for (uint32_t k = 0; k < creates; ++k) {
    others();
    std::vector<ColumnPlan> cols;
    g.k("CREATE TABLE");
    if (t.chance(1, 5)) g.k("IF NOT EXISTS");
    g.tableName();
    g.p("(");
    uint32_t n = enumerated ? 1 : t.size(1, 3, 60);
    bool clean = t.chance(1, 2);  // no conflict anywhere
    for (uint32_t i = 0; i < n; ++i) {
      if (i) g.p(",");
      ColumnPlan p;
      if (enumerated) {
        p.cons = nthSequence(c.index);
      } else {
        for (uint32_t m = t.size(0, 2, 8); m; --m) {
          int x = (int)t.weighted({3, 3, 2, 2, 2});
          p.cons.push_back(x);
          if (clean && p.conflict()) p.cons.pop_back();
        }
      }
      g.name();
      g.columnType();
      for (int x : p.cons) emitConstraint(g, x);
      cols.push_back(p);
      if (!enumerated && t.chance(1, 6)) {
        // A constraint of the table in between.
        g.p(",");
        static const char* kinds[] = {"PRIMARY KEY", "UNIQUE", "FOREIGN KEY"};
        uint32_t kind = t.below(3);
        g.k(kinds[kind]);
        g.p("(");
        g.names(3);
        g.p(")");
        if (kind == 2) g.references();
        c.label("table constraint");
      }
    }
    g.p(")");
    tables.push_back(cols);
    at.push_back(statements++);
    g.p(";");
  }
  others();
  if (t.chance(1, 2)) g.out.pop_back();
  c.input = render(t, g.out);
  bool conflict = false, last = false;
  size_t declared = 0;
  for (auto& tab : tables)
    for (auto& p : tab) {
      conflict |= p.conflict();
      last = p.conflict();
      declared += p.cons.size();
    }
  c.nontrivial = declared >= 2;
  c.label(conflict ? "conflict" : "no conflict");
  if (enumerated) c.label("enumerated sequence");
  if (conflict && !last) c.label("conflict not in the last column");
  if (statements > 1) c.label("several statements");
  SQLParserResult res;
  SQLParser::parse(c.input, &res);
  ++c.work;
  if (conflict) {
    c.check(!res.isValid(), "a column is NULL and also NOT NULL or PRIMARY KEY, but the text is accepted");
    return;
  }
  c.check(res.isValid(), "no contradicting constraints, but rejected: " + err(res));
  c.check(res.size() == statements, std::to_string(res.size()) + " statements instead of " + std::to_string(statements));
  for (size_t k = 0; k < tables.size(); ++k) {
    auto* s = res.getStatement(at[k]);
    c.check(s->type() == kStmtCreate, "not a CREATE statement");
    auto* cs = (const CreateStatement*)s;
    c.check(cs->columns && cs->columns->size() == tables[k].size(), "wrong number of columns");
    for (size_t i = 0; i < tables[k].size(); ++i) {
      auto& p = tables[k][i];
      auto* col = cs->columns->at(i);
      c.check(col->nullable == !p.notNull(), "column " + std::to_string(i) + (col->nullable ? " is nullable" : " is not nullable"));
      std::set<int> want, got;
      static const ConstraintType types[] = {ConstraintType::NotNull, ConstraintType::Null, ConstraintType::PrimaryKey, ConstraintType::Unique, ConstraintType::ForeignKey};
      for (int x : p.cons) want.insert((int)types[x]);
      for (auto x : *col->column_constraints) got.insert((int)x);
      c.check(want == got, "column " + std::to_string(i) + " has other constraints than declared");
      size_t refs = (size_t)std::count(p.cons.begin(), p.cons.end(), (int)CREF);
      c.check(col->references && col->references->size() == refs, "column " + std::to_string(i) + " has other references than declared");
    }
  }
}
Prop c07prop() {
  Prop p;
  p.id = "C07";
  p.rule =
      "CREATE TABLE statements whose columns have random sequences of NOT NULL, NULL, PRIMARY KEY, UNIQUE and REFERENCES (all 781 sequences of up to four first, in a one-column table), with table constraints "
      "in between, one to three such statements with others before, between and after. The oracle looks at the declarations of each column alone. Non-trivial: at least two constraints are declared.";
  p.run = nullability;
  p.quick = 250000;
  p.thorough = 6000000;
  p.enumerated = kSequences;
  return p;
}
const Register c07(c07prop());

// ---------------------------------------------------------------- C16
std::string mutatedText(Case& c, ref::Result& r) {
  Tape& t = c.tape;
  Toks toks = statements(t, t.chance(1, 4) ? 4 : 1);
  switch (t.weighted({10, 60, 15, 15})) {
    case 0: c.label("unchanged"); break;
    case 1: c.label(mutate(t, toks)); break;
    case 2: {
      toks.resize(t.below((uint32_t)toks.size() + 1));
      c.label("cut off");
      break;
    }
    default: {
      toks.push_back(randomToken(t));
      mutate(t, toks);
      c.label("two changes");
    }
  }
  Layout l;
  l.comments = t.chance(1, 2);
  enlarge(c, toks, l, 80);
  std::string s = render(t, toks, l);
  if (t.chance(1, 10)) {
    s.insert(t.below((uint32_t)s.size() + 1), 1, "@#$&'\"\0\x80\n"[t.below(9)]);
    c.label("foreign character");
  }
  r = ref::parse(s);
  return s;
}
void judgeError(Case& c, const std::string& s, const ref::Result& r) {
  c.input = s;
  SQLParserResult res;
  SQLParser::parse(s, &res);
  ++c.work;
  if (res.isValid()) {
    c.label("accepted");
    c.check(res.size() > 0, "accepted without statements");
    c.check(res.errorMsg() == nullptr, "accepted with an error message: " + err(res));
    c.nontrivial = r.toks.size() > 3;
    return;
  }
  c.label("rejected");
  c.check(res.size() == 0, "rejected, but with statements");
  c.check(res.parameters().empty(), "rejected, but with parameters");
  c.check(res.errorMsg() && *res.errorMsg(), "rejected without a message");
  // Lines of the text.
  std::vector<size_t> width{0};
  for (char ch : s) {
    if (ch == '\n') width.push_back(0);
    else ++width.back();
  }
  int line = res.errorLine(), col = res.errorColumn();
  auto where = "(" + std::to_string(line) + ", " + std::to_string(col) + ")";
  c.check(line >= 0 && (size_t)line < width.size() && col >= 0 && (size_t)col <= width[(size_t)line], "the error is outside of the text: " + where);
  if (!r.syntax || r.gray || r.semantic || r.maxDepth > kDeep) {
    c.label("position not specified");
    return;
  }
  c.nontrivial = true;
  if (r.errTok < r.toks.size()) {
    auto& k = r.toks[r.errTok];
    if (k.line > 0) c.label("error not in the first line");
    if (k.kind == ref::T_INVALID) c.label("invalid token");
    if (line != k.line || col != k.col)
      c.fail("error reported at " + where + " instead of (" + std::to_string(k.line) + ", " + std::to_string(k.col) + "), at token " + std::to_string(r.errTok) + " " + k.text);
  } else {
    // The text ends too early: anywhere from its last token on.
    c.label("premature end");
    if (!r.toks.empty()) {
      auto& k = r.toks.back();
      c.check(line > k.line || (line == k.line && col >= k.col), "the text ends too early, but the error is reported before its last token, at " + where);
    }
  }
}
void errors(Case& c) {
  Tape& t = c.tape;
  if (!t.chance(1, 100)) {
    ref::Result r;
    std::string s = mutatedText(c, r);
    judgeError(c, s, r);
    return;
  }
  // The start of a text, continued with every token there is, and then with its rest, or anything.
  Toks toks = statements(t, t.chance(1, 4) ? 3 : 1);
  uint32_t at = t.below((uint32_t)toks.size() + 1);
  Layout l;
  l.comments = t.chance(1, 4);
  uint32_t rest = t.below(4);
  std::string head = render(t, Toks(toks.begin(), toks.begin() + at), l) + "\n", tail;
  if (rest == 1) tail = " " + render(t, Toks(toks.begin() + at, toks.end()), l);
  if (rest == 2 && at < toks.size()) tail = " " + render(t, Toks(toks.begin() + at + 1, toks.end()), l);
  if (rest == 3) tail = " " + render(t, Toks{randomToken(t), randomToken(t)}, l);
  for (auto& k : everyToken()) {
    std::string s = head + k + tail;
    judgeError(c, s, ref::parse(s));
  }
  c.label("every continuation");
  c.nontrivial = true;
}
const Register c16({"C16",
                    "Texts of one to four statements with random layout after one token-level change, cut off at a token, with further changes, with a foreign character, or unchanged; and the start of a text continued with every token of the language. If rejected: no statements or parameters, "
                    "a message, and the line and column of the first token that the reference parser cannot use (for a rule beyond the grammar only: a place in the text; for a text that ends too early: not before its last "
                    "token). If accepted: statements and no message. Non-trivial: rejected at a position that is specified, or accepted with more than three tokens.",
                    errors, 250000, 6000000});

// ---------------------------------------------------------------- C17
struct ParamWalk : Walker {
  std::vector<const Expr*> params;
  void onExpr(const Expr* e) override {
    if (e->type == kExprParameter) params.push_back(e);
  }
};
std::string trivia(Tape& t) {
  Layout l;
  return separator(t, false, l);
}
void sequence(Case& c) {
  Tape& t = c.tape;
  uint32_t n = t.size(2, 4, 40);
  std::vector<std::string> parts;
  bool invalid = false;
  std::vector<size_t> badAt;
  std::string all;
  Layout l;
  bool related = n <= 12 && t.chance(1, 2);
  Session session(t, 20);
  if (related) c.label("related statements");
  for (uint32_t i = 0; i < n; ++i) {
    Gen g(t);
    g.maxNodes = n > 10 ? 10 : 30;
    if (related) g.out = session.next();
    else g.statement(g.anyStatement());
    Toks toks = g.out;
    if (t.chance(1, 3 * n)) {
      mutate(t, toks);
      // A change that adds a semicolon changes the sequence.
      if (countText(toks, ";") || toks.empty()) toks = g.out;
    }
    Layout big = l;
    enlarge(c, toks, big, 200);
    std::string s = render(t, toks, big);
    if (s.find("--") != std::string::npos) s += "\n";
    parts.push_back(s);
  }
  for (uint32_t i = 0; i < n; ++i) {
    all += parts[i];
    if (i + 1 < n || t.chance(1, 2)) all += ";" + trivia(t);
    if (i + 1 == n) break;
    if (all.back() == '-' || all.find("--", all.size() > 300 ? all.size() - 300 : 0) != std::string::npos) all += "\n";
  }
  c.input = all;
  std::vector<SQLParserResult> alone(n);
  for (uint32_t i = 0; i < n; ++i) {
    SQLParser::parse(parts[i], &alone[i]);
    ++c.work;
    if (!alone[i].isValid()) {
      invalid = true;
      badAt.push_back(i);
    }
  }
  SQLParserResult res;
  SQLParser::parse(all, &res);
  ++c.work;
  c.nontrivial = true;
  if (n > 10) c.label("more than ten statements");
  if (invalid) {
    c.label("with an invalid statement");
    if (badAt[0] > 0) c.label("invalid one is not the first");
    c.check(!res.isValid(), "accepted, although statement " + std::to_string(badAt[0]) + " is rejected on its own");
    c.check(res.size() == 0 && res.parameters().empty(), "rejected, but with statements or parameters");
    return;
  }
  c.check(res.isValid(), "rejected, although each statement is accepted on its own: " + err(res));
  size_t k = 0, p = 0;
  c.check(res.size() >= n, "statements are missing");
  for (uint32_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < alone[i].size(); ++j, ++k) {
      c.check(k < res.size(), "statement " + std::to_string(i) + " is missing");
      std::string a = impl::dump(alone[i].getStatement(j)), b = impl::dump(res.getStatement(k), (int64_t)p);
      c.check(a == b, "statement " + std::to_string(k) + " differs from what it is on its own: " + diffText(a, b));
      ParamWalk w;
      w.statement(res.getStatement(k));
      std::set<const Expr*> mine(w.params.begin(), w.params.end());
      size_t m = alone[i].parameters().size();
      for (size_t q = 0; q < m; ++q, ++p) {
        c.check(p < res.parameters().size(), "parameters are missing");
        c.check(mine.count(res.parameters()[p]), "parameter " + std::to_string(p) + " is not one of statement " + std::to_string(k));
      }
      if (m) c.label("with parameters");
    }
  }
  c.check(k == res.size(), "there are more statements than in the parts");
  c.check(p == res.parameters().size(), "there are more parameters than in the parts");
}
const Register c17({"C17",
                    "Two to 40 statements (independent ones, or a session whose statements share names, numbers and parts or nearly repeat each other), some with a token-level change, are parsed on their own and joined by semicolons with random layout: the whole must be accepted exactly if all are, with equal statements in order and "
                    "the parameters in sequence. Non-trivial: all.",
                    sequence, 100000, 2000000});

// ---------------------------------------------------------------- C18
void lengths(Case& c) {
  Tape& t = c.tape;
  uint32_t n = t.size(1, 4, 30);
  Toks toks;
  for (uint32_t i = 0; i < n; ++i) {
    Gen g(t);
    g.maxNodes = 15;
    g.statement(g.anyStatement());
    append(toks, g.out);
    if (i + 1 < n || t.chance(1, 2)) toks.push_back({PUNCT, ";"});
  }
  Layout l;
  enlarge(c, toks, l, 40);
  std::string s = render(t, toks, l);
  c.input = s;
  auto r = ref::parse(s);
  SQLParserResult res;
  SQLParser::parse(s, &res);
  ++c.work;
  if (!r.valid || r.gray || (r.maxDepth > kDeep && !res.isValid())) {
    c.discarded = true;
    return;
  }
  c.check(res.isValid(), "rejected: " + err(res));
  c.check(res.size() == r.stmts.size(), "wrong number of statements");
  c.nontrivial = res.size() >= 2;
  if (s.find('\n') != std::string::npos) c.label("several lines");
  if (toks.back().text != ";") c.label("no final semicolon");
  size_t at = 0, params = 0;
  for (size_t i = 0; i < res.size(); ++i) {
    size_t len = res.getStatement(i)->stringLength;
    bool last = i + 1 == res.size();
    // The last statement ends with its semicolon or the text.
    size_t want = r.stmts[i]->end - r.stmts[i]->begin;
    if (last && toks.back().text != ";") {
      // What follows the last token may or may not count.
      size_t lo = r.toks.back().end - at;
      c.check(len >= lo && len <= s.size() - at, "the length of the last statement is " + std::to_string(len) + ", but it has " + std::to_string(lo) + " bytes");
    } else {
      c.check(len == want, "the length of statement " + std::to_string(i) + " is " + std::to_string(len) + " instead of " + std::to_string(want));
    }
    std::string piece = s.substr(at, len);
    at += len;
    c.check(at <= s.size(), "the lengths exceed the text");
    SQLParserResult one;
    SQLParser::parse(piece, &one);
    ++c.work;
    c.check(one.isValid() && one.size() == 1, "piece " + std::to_string(i) + " is not a statement: " + piece);
    std::string a = impl::dump(one.getStatement(0)), b = impl::dump(res.getStatement(i), (int64_t)params);
    params += one.parameters().size();
    c.check(a == b, "piece " + std::to_string(i) + " is another statement: " + diffText(b, a));
    c.check(one.getStatement(0)->stringLength == len || (last && toks.back().text != ";"), "on its own, piece " + std::to_string(i) + " has another length");
  }
}
const Register c18({"C18",
                    "Texts of one to 30 statements with random layout, comments and bytes in strings, with or without a final semicolon: each length must be that of the piece up to its semicolon as found by the reference parser, "
                    "and the pieces cut out by the lengths must parse to the same statements. Non-trivial: at least two statements.",
                    lengths, 100000, 2000000});

// ---------------------------------------------------------------- C19
// Puts a statement with many placeholders before the others.
void many(Tape& t, Toks& toks) {
  uint32_t n = t.chance(1, 12) ? t.range(65000, 70000) : t.chance(1, 2) ? t.range(100, 300) : t.range(300, 5000);
  uint32_t how = t.below(5);
  if (t.chance(1, 2)) {
    // Around a power of two, and no others in the text.
    n = (1u << (t.chance(1, 10) ? t.range(13, 16) : t.range(4, 12))) + t.below(3) - 1;
    toks.clear();
    if (how == 3) --n;
    if (how == 4) n -= 2;
  }
  if (how == 1 || how == 2) n = std::min(n, 3000u);  // the checks walk these recursively
  Toks o;
  auto word = [&](const char* w) { o.push_back({KW, w}); };
  auto sign = [&](const char* w) { o.push_back({PUNCT, w}); };
  auto list = [&](const char* sep) {
    for (uint32_t i = 0; i < n; ++i) {
      if (i && sep[0] >= 'A') word(sep);
      else if (i) sign(sep);
      o.push_back({PARAM, "?"});
    }
  };
  word("SELECT");
  if (how == 0) list(",");
  else if (how == 1) list("+");
  else if (how == 2) list("OR");
  else {
    sign("*");
    word("FROM");
    o.push_back({NAME, "t"});
    word("WHERE");
    o.push_back({PARAM, "?"});
    word("IN");
    sign("(");
    list(",");
    sign(")");
    if (how == 4) {
      word("LIMIT");
      o.push_back({PARAM, "?"});
    }
  }
  if (!toks.empty()) sign(";");
  toks.insert(toks.begin(), o.begin(), o.end());
}
void parameters(Case& c) {
  Tape& t = c.tape;
  Toks toks;
  uint32_t n = t.size(1, 2, 20);
  for (uint32_t i = 0; i < n; ++i) {
    Gen g(t);
    g.maxNodes = (int)t.range(10, t.chance(1, 20) ? 500 : 60);
    g.maxDepth = (int)t.range(2, 4);
    if (t.chance(1, 3)) {
      g.focus = F_EXPR;
    }
    g.statement(t.chance(2, 3) ? t.chance(1, 4) ? Gen::UPDATE : Gen::SELECT : g.anyStatement());
    // More placeholders than the generator makes: literals in expressions become placeholders, which are expressions too.
    Toks o = g.out;
    uint32_t share = t.below(4), tries = 0;
    for (auto& k : o)
      if ((k.kind == NUM || k.kind == STR || k.kind == NAME) && share && tries < 30 && t.chance(share, k.kind == NAME ? 12 : 4)) {
        Tok old = k;
        k = {PARAM, "?"};
        if (!ref::parse(plain(o)).valid) k = old;  // a place that takes no expression
        ++tries;
      }
    append(toks, o);
    if (i + 1 < n || t.chance(1, 2)) toks.push_back({PUNCT, ";"});
  }
  if (t.chance(1, 150)) many(t, toks);
  Layout l;
  enlarge(c, toks, l, 150);
  std::string s = render(t, toks, l);
  c.input = s;
  auto r = ref::parse(s);
  SQLParserResult res;
  SQLParser::parse(s, &res);
  ++c.work;
  if (!r.valid || r.gray || (r.maxDepth > kDeep && !res.isValid())) {
    c.discarded = true;
    return;
  }
  c.check(res.isValid(), "rejected: " + err(res));
  size_t want = 0, noise = 0;
  for (auto& k : r.toks) {
    want += k.kind == ref::T_PUNCT && k.text == "?";
  }
  for (char ch : s) noise += ch == '?';
  noise -= want;
  c.nontrivial = want >= 2;
  if (noise) c.label("question marks elsewhere");
  if (want > 10) c.label(">10 placeholders");
  if (want > 255) c.label(">255 placeholders");
  if (want > 65535) c.label(">65535 placeholders");
  if (!want) c.label("no placeholder");
  auto& list = res.parameters();
  c.check(list.size() == want, std::to_string(list.size()) + " parameters instead of " + std::to_string(want));
  ParamWalk w;
  for (auto* st : res.getStatements()) w.statement(st);
  std::set<const Expr*> inTree(w.params.begin(), w.params.end()), inList(list.begin(), list.end());
  c.check(w.params.size() == want, std::to_string(w.params.size()) + " placeholders in the statements instead of " + std::to_string(want));
  c.check(inList.size() == want && inList == inTree, "the parameters are not the placeholders of the statements");
  for (size_t i = 0; i < want; ++i) {
    c.check(list[i]->type == kExprParameter, "parameter " + std::to_string(i) + " is no placeholder");
    c.check(list[i]->ival == (int64_t)i, "parameter " + std::to_string(i) + " has number " + std::to_string(list[i]->ival));
  }
  // The number at each place of the statements is that of the text.
  std::string a = ref::dump(r), b = impl::dump(res);
  c.check(a == b, "content differs: " + diffText(a, b));
}
const Register c19({"C19",
                    "Texts of one to 20 statements with placeholders in all places that take expressions (some of them in place of literals), and question marks in strings, quoted names and comments. The list must hold the "
                    "placeholders of the statements, once each, with the numbers 0, 1, ... of the text, and each must be in its place (compared with the reference parser). Some texts have hundreds to 70000 placeholders. Non-trivial: at least two placeholders.",
                    parameters, 80000, 1500000});
}  // namespace
