// Properties about characters and tokens: C11, C12, C13, C15, C27.
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include "common.h"
#include "tokens.h"
#include "walk.h"
using namespace gen;
using namespace hsql;

namespace {
std::string trivia(Case& c, bool allowEmpty) {
  Layout l;
  std::string s = separator(c.tape, !allowEmpty, l);
  return s;
}
std::string fill(const std::string& tmpl, const std::string& lit) {
  size_t p = tmpl.find('@');
  return tmpl.substr(0, p) + lit + tmpl.substr(p + 1);
}

// ---------------------------------------------------------------- C11
struct Literals : Walker {
  std::vector<const Expr*> found;
  std::vector<const Expr*> negated;  // operands of a unary minus
  void onExpr(const Expr* e) override {
    if (e->type == kExprOperator && e->opType == kOpUnaryMinus) negated.push_back(e->expr);
    switch (e->type) {
      case kExprLiteralFloat:
      case kExprLiteralString:
      case kExprLiteralInt:
      case kExprLiteralNull:
      case kExprLiteralDate:
      case kExprLiteralInterval:
        found.push_back(e);
        break;
      default:
        break;
    }
  }
};
const std::vector<std::string> kExprPlaces = {
    "SELECT @", "SELECT @ AS x", "SELECT @ x", "SELECT a, @, b FROM t", "SELECT a FROM t WHERE b = @", "SELECT a FROM t WHERE b < @ AND c", "SELECT f(@)", "SELECT f(x, @, y)",
    "SELECT a FROM t LIMIT @", "SELECT a FROM t OFFSET @", "UPDATE t SET a = @", "UPDATE t SET a = b, c = @ WHERE d", "DELETE FROM t WHERE a IN (@)", "DELETE FROM t WHERE a IN (b, @)",
    "SELECT CASE WHEN a = @ THEN b END", "SELECT CASE @ WHEN a THEN b ELSE c END", "SELECT CASE WHEN a THEN b ELSE @ END", "SELECT ARRAY[@]", "SELECT ARRAY[a, @]", "SELECT a FROM t WHERE b BETWEEN @ AND c",
    "SELECT a FROM t WHERE b BETWEEN c AND @", "SELECT CAST(@ AS INT)", "SELECT a FROM t ORDER BY @", "SELECT a FROM t GROUP BY @", "SELECT a FROM t GROUP BY b HAVING c > @",
    "SELECT a FROM t JOIN u ON t.x = @", "COPY t FROM 'f' WHERE a = @", "SELECT (SELECT @)", "SELECT EXTRACT(YEAR FROM @)", "SELECT f(a) OVER (PARTITION BY @)", "SELECT f(a) OVER (ORDER BY @)",
    "SELECT NOT @", "SELECT (@)", "SELECT @ + b", "SELECT b * @", "SELECT @ IS NULL", "SELECT a LIKE @", "SELECT a || @", "WITH w AS (SELECT @) SELECT a", "SELECT a UNION SELECT @",
    "CREATE VIEW v AS SELECT @", "CREATE TABLE t AS SELECT @", "INSERT INTO t SELECT @", "SELECT a FROM (SELECT @) x", "COPY (SELECT @) TO 'f'", "SELECT a; SELECT @; SELECT b",
    // Places for literals and CASTs only.
    "INSERT INTO t VALUES (@)", "INSERT INTO t (a) VALUES (CAST(@ AS INT))", "EXECUTE p (@)", "EXECUTE p (CAST(@ AS TEXT))", "SELECT a WITH HINT (h(@))", "SELECT a FROM t WITH HINT (g, h(@), i)",
    "INSERT INTO s.t (a) VALUES (@) WITH HINT (h)"};
// Places for integers only, with the way to find them.
struct IntPlace {
  const char* tmpl;
  std::function<int64_t(const SQLStatement*)> get;
};
const Expr* first(const SQLStatement* s) { return ((const SelectStatement*)s)->selectList->at(0); }
const ColumnType& column(const SQLStatement* s) { return ((const CreateStatement*)s)->columns->at(0)->type; }
const std::vector<IntPlace>& intPlaces() {
  static const std::vector<IntPlace> v = {
      {"SELECT TOP @ a", [](const SQLStatement* s) { return ((const SelectStatement*)s)->limit->limit->ival; }},
      {"SELECT a[@]", [](const SQLStatement* s) { return first(s)->ival; }},
      {"SELECT ARRAY[a][@]", [](const SQLStatement* s) { return first(s)->ival; }},
      {"CREATE TABLE t (a VARCHAR(@))", [](const SQLStatement* s) { return column(s).length; }},
      {"CREATE TABLE t (a CHARACTER VARYING(@) NOT NULL)", [](const SQLStatement* s) { return column(s).length; }},
      {"CREATE TABLE t (a CHAR(@), b INT)", [](const SQLStatement* s) { return column(s).length; }},
      {"CREATE TABLE t (a DECIMAL(@))", [](const SQLStatement* s) { return column(s).precision; }},
      {"CREATE TABLE t (a DECIMAL(@, 3))", [](const SQLStatement* s) { return column(s).precision; }},
      {"CREATE TABLE t (a DECIMAL(3, @))", [](const SQLStatement* s) { return column(s).scale; }},
      {"CREATE TABLE t (a TIME(@))", [](const SQLStatement* s) { return column(s).precision; }},
      {"SELECT CAST(a AS VARCHAR(@))", [](const SQLStatement* s) { return first(s)->columnType.length; }},
      {"SELECT f(a) OVER (ROWS @ PRECEDING)", [](const SQLStatement* s) { return first(s)->windowDescription->frameDescription->start->offset; }},
      {"SELECT f(a) OVER (RANGE BETWEEN @ FOLLOWING AND CURRENT ROW)", [](const SQLStatement* s) { return first(s)->windowDescription->frameDescription->start->offset; }},
      {"SELECT f(a) OVER (GROUPS BETWEEN UNBOUNDED PRECEDING AND @ PRECEDING)", [](const SQLStatement* s) { return first(s)->windowDescription->frameDescription->end->offset; }},
      {"EXECUTE p (@)", [](const SQLStatement* s) { return ((const ExecuteStatement*)s)->parameters->at(0)->ival; }}};
  return v;
}
struct StrPlace {
  const char* tmpl;
  std::function<const char*(const SQLStatement*)> get;
};
const std::vector<StrPlace>& strPlaces() {
  static const std::vector<StrPlace> v = {
      {"COPY t FROM @", [](const SQLStatement* s) { return (const char*)((const ImportStatement*)s)->filePath; }},
      {"COPY t TO @", [](const SQLStatement* s) { return (const char*)((const ExportStatement*)s)->filePath; }},
      {"COPY (SELECT a) TO @", [](const SQLStatement* s) { return (const char*)((const ExportStatement*)s)->filePath; }},
      {"IMPORT FROM csv FILE @ INTO t", [](const SQLStatement* s) { return (const char*)((const ImportStatement*)s)->filePath; }},
      {"PREPARE p FROM @", [](const SQLStatement* s) { return (const char*)((const PrepareStatement*)s)->query; }},
      {"CREATE TABLE t FROM tbl FILE @", [](const SQLStatement* s) { return (const char*)((const CreateStatement*)s)->filePath; }},
      {"COPY t FROM 'f' WITH (ENCODING @)", [](const SQLStatement* s) { return (const char*)((const ImportStatement*)s)->encoding; }},
      {"COPY t FROM 'f' (DELIMITER @)", [](const SQLStatement* s) { return (const char*)((const ImportStatement*)s)->csv_options->delimiter; }},
      {"COPY t TO 'f' (NULL @, QUOTE 'q')", [](const SQLStatement* s) { return (const char*)((const ExportStatement*)s)->csv_options->null; }},
      {"COPY t TO 'f' (FORMAT csv, QUOTE @)", [](const SQLStatement* s) { return (const char*)((const ExportStatement*)s)->csv_options->quote; }}};
  return v;
}

void literalCase(Case& c) {
  Tape& t = c.tape;
  enum { INT, NEGINT, MININT, FLOAT, NEGFLOAT, STRING, DATEL, IV_PLAIN, IV_FIELD, IV_STRING, BOOL, NUL, BADINT, BADDATE, BADINTERVAL, INTPLACE, STRPLACE, BADINTPLACE };
  int kind = (int)t.weighted({14, 5, 3, 14, 4, 14, 6, 6, 6, 6, 3, 3, 5, 5, 6, 8, 8, 3});
  static const char* names[] = {"integer", "negative integer", "smallest integer", "decimal", "negative decimal", "string", "date", "interval n UNIT", "interval 'n' UNIT", "interval 'n unit'", "boolean", "null",
                                "integer out of range", "malformed date", "malformed interval", "integer place", "string place", "integer place out of range"};
  c.label(names[kind]);
  c.nontrivial = true;
  std::string lit, content;
  int64_t iv = 0;
  double fv = 0;
  bool bad = false;
  int unit = (int)t.below(6);
  static const char* units[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
  static const DatetimeField fields[] = {kDatetimeSecond, kDatetimeMinute, kDatetimeHour, kDatetimeDay, kDatetimeMonth, kDatetimeYear};
  auto randInt = [&]() {
    // A value first, then its text.
    uint64_t v = 0;
    switch (t.below(4)) {
      case 0: v = t.below(1000); break;
      case 1: {
        // Around powers of two and ten.
        if (t.chance(1, 2)) {
          v = 1ull << t.below(63);
        } else {
          v = 1;
          for (uint32_t k = t.below(19); k; --k) v *= 10;
        }
        v += t.below(5);
        v -= 2;
        break;
      }
      case 2: v = (uint64_t)INT64_MAX - t.below(100); break;
      default: v = t.bits64() >> (1 + t.below(62));
    }
    v &= (uint64_t)INT64_MAX;
    return (int64_t)v;
  };
  auto intTextOf = [&](int64_t v) {
    std::string s = std::to_string(v);
    if (t.chance(1, 8)) s = std::string(t.range(1, t.chance(1, 5) ? 200 : 4), '0') + s;
    return s;
  };
  auto outOfRange = [&]() {
    switch (t.below(4)) {
      case 0: {
        unsigned __int128 v = (unsigned __int128)INT64_MAX + 1 + t.below(100);
        std::string s;
        while (v) {
          s.insert(s.begin(), (char)('0' + (int)(v % 10)));
          v /= 10;
        }
        return s;
      }
      case 1: return std::string("18446744073709551") + std::to_string(t.range(600, 700));
      case 2: {
        std::string s(1, (char)('1' + t.below(9)));
        uint32_t n = t.size(19, 30, 2000);
        for (uint32_t i = 0; i < n; ++i) s += (char)('0' + t.below(10));
        return s;
      }
      default: return std::string(t.range(0, 3), '0') + std::to_string(t.range(2, 9)) + "0000000000000000000";
    }
  };
  switch (kind) {
    case INT:
    case NEGINT:
    case INTPLACE:
      iv = randInt();
      lit = intTextOf(iv);
      if (kind == NEGINT) lit = "-" + lit;
      // "-9223372036854775808" is the only negative literal.
      break;
    case MININT:
      lit = "-9223372036854775808";
      iv = INT64_MIN;
      break;
    case FLOAT:
    case NEGFLOAT: {
      if (t.chance(1, 2)) {
        // From a value: every double has an exact decimal form.
        uint64_t bits = t.bits64() & 0x7FFFFFFFFFFFFFFFull;
        int mode = (int)t.below(4);
        if (mode < 3) {
          // Exponents near 0, where decimals are short.
          uint64_t exp = 1023 - 60 + t.below(120);
          bits = (bits & 0xFFFFFFFFFFFFFull) | (exp << 52);
        }
        memcpy(&fv, &bits, 8);
        if (!std::isfinite(fv)) fv = 1.5;
        char buf[1600];
        snprintf(buf, sizeof buf, "%.1080f", fv);
        lit = buf;
        if (lit.find('.') != std::string::npos && mode != 1)
          while (lit.size() > 1 && lit.back() == '0' && lit[lit.size() - 2] != '.') lit.pop_back();
        c.label("decimal from value");
      } else {
        lit = floatText(t);
        auto toks = ref::lex(lit);
        fv = toks.at(0).fval;
        if (!std::isfinite(fv)) c.label("decimal beyond the largest number");
      }
      if (kind == NEGFLOAT) lit = "-" + lit;
      break;
    }
    case STRING:
    case STRPLACE:
      content = stringContent(t);
      lit = quoteString(content);
      break;
    case DATEL:
      content = dateText(t);
      lit = randomCase(t, "DATE") + trivia(c, true) + quoteString(content);
      break;
    case IV_PLAIN: {
      iv = randInt();
      lit = intTextOf(iv) + trivia(c, false) + randomCase(t, std::string(units[unit]) + (t.chance(1, 2) ? "S" : ""));
      break;
    }
    case IV_FIELD:
      iv = t.chance(1, 10) ? INT64_MIN : randInt();
      if (t.chance(1, 4) && iv != INT64_MIN) iv = -iv;
      lit = randomCase(t, "INTERVAL") + trivia(c, true) + quoteString(std::to_string(iv)) + trivia(c, true) + randomCase(t, units[unit]);
      break;
    case IV_STRING:
      iv = t.chance(1, 10) ? INT64_MIN : randInt();
      if (t.chance(1, 4) && iv != INT64_MIN) iv = -iv;
      lit = randomCase(t, "INTERVAL") + trivia(c, true) +
            quoteString(std::to_string(iv) + std::string(t.chance(1, 6) ? t.range(2, 5) : 1, ' ') + randomCase(t, std::string(units[unit]) + (t.chance(1, 2) ? "S" : "")));
      break;
    case BOOL:
      iv = t.below(2);
      lit = randomCase(t, iv ? "TRUE" : "FALSE");
      break;
    case NUL:
      lit = randomCase(t, "NULL");
      break;
    case BADINT:
    case BADINTPLACE:
      lit = outOfRange();
      if (kind == BADINT && t.chance(1, 4)) {
        lit = "-" + lit;
        if (lit.compare(0, 20, "-9223372036854775808") == 0) lit = "-9223372036854775809";
      }
      bad = true;
      break;
    case BADDATE: {
      static const std::vector<std::string> v = {"",           "x",          "2020",        "2020-01",     "2020-01-",   "2020-01-01x", "x2020-01-01", "2020/01/01",          "2020.01.01",  "20200101",
                                                 "2020-1x-01", "20200-01-01", "2020-001-01", "2020-01-001", "2020_01_01", "2020-01/01",  "today",       "2020-01-01 00:00:00", "2020-Jan-01", "2020-01-01'",
                                                 "2020-01-01-01", "2020--01x", "DATE", "01.02.2020", "2020-01-x1", "2020-01-01-"};
      if (t.chance(1, 3)) {
        std::string s = dateText(t);
        static const char junk[] = "xYz/.:,;#'\"_";
        s[t.below((uint32_t)s.size())] = junk[t.below(sizeof junk - 1)];
        lit = s;
      } else {
        lit = t.pick(v);
      }
      lit = "DATE " + quoteString(lit);
      bad = true;
      break;
    }
    case BADINTERVAL: {
      std::string u = units[unit];
      switch (t.below(8)) {
        case 0: lit = "INTERVAL '' " + u; break;
        case 1: lit = "INTERVAL 'x' " + u; break;
        case 2: lit = "INTERVAL '" + outOfRange() + "' " + u; break;
        case 3: lit = "INTERVAL '" + outOfRange() + " " + u + "'"; break;
        case 4: {
          static const char* w[] = {"decade", "secondss", "dayss", "yearz", "da", "d", "centuries", "week", "weeks", "millisecond", "microseconds", "mon", "years5"};
          lit = "INTERVAL '" + std::to_string(t.below(100)) + " " + w[t.below(13)] + "'";
          break;
        }
        case 5: lit = "INTERVAL '" + std::to_string(t.below(100)) + (t.chance(1, 2) ? "x" : ".5") + "' " + u; break;
        case 6: lit = "INTERVAL '" + std::to_string(t.below(100)) + " " + u + (t.chance(1, 2) ? " x" : " 1") + "'"; break;
        default: lit = t.chance(1, 2) ? "INTERVAL '" + u + "'" : "INTERVAL '5'";
      }
      bad = true;
      break;
    }
  }

  std::string tmpl;
  const IntPlace* ip = nullptr;
  const StrPlace* sp = nullptr;
  if (kind == INTPLACE || kind == BADINTPLACE) {
    ip = &t.pick(intPlaces());
    tmpl = ip->tmpl;
  } else if (kind == STRPLACE) {
    sp = &t.pick(strPlaces());
    tmpl = sp->tmpl;
  } else {
    tmpl = t.pick(kExprPlaces);
  }
  std::string pre = trivia(c, true), post = trivia(c, true);
  size_t at = tmpl.find('@');
  if (at && isalnum((unsigned char)tmpl[at - 1]) && pre.empty()) pre = " ";
  if (at && tmpl[at - 1] == ' ' && !pre.empty() && pre[0] == '-' && at > 1) pre = " " + pre;
  if (at + 1 < tmpl.size() && isalnum((unsigned char)tmpl[at + 1]) && post.empty()) post = " ";
  c.input = fill(tmpl, pre + lit + post);
  SQLParserResult r;
  SQLParser::parse(c.input, &r);
  ++c.work;
  if (bad) {
    c.check(!r.isValid(), "accepted although " + lit.substr(0, 100) + " is not a literal; it became\n" + impl::dump(r));
    return;
  }
  c.check(r.isValid(), std::string("rejected: ") + (r.errorMsg() ? r.errorMsg() : ""));
  if (ip) {
    int64_t got = ip->get(r.getStatement(0));
    c.check(got == iv, "expected " + std::to_string(iv) + " but got " + std::to_string(got));
    return;
  }
  if (sp) {
    const char* got = sp->get(r.getStatement(0));
    c.check(got && content == got, "expected " + quoteStr(content) + " but got " + (got ? quoteStr(got) : "NULL"));
    return;
  }
  Literals w;
  for (auto* s : r.getStatements()) w.statement(s);
  c.check(w.found.size() == 1, "expected one literal, got " + std::to_string(w.found.size()) + " in " + impl::dump(r));
  const Expr* e = w.found[0];
  auto fail = [&] { c.fail("wrong literal for " + lit.substr(0, 200) + ": " + impl::dumpExpr(e)); };
  bool negated = !w.negated.empty() && w.negated[0] == e;
  bool wantNegated = kind == NEGINT || kind == NEGFLOAT;
  if (kind == MININT) {
    // Either the smallest value itself or, equivalently, nothing else.
    if (e->type != kExprLiteralInt || e->ival != INT64_MIN || negated) fail();
  } else if (negated != wantNegated) {
    fail();
  }
  if (e->isBoolLiteral != (kind == BOOL)) fail();
  switch (kind) {
    case INT:
    case NEGINT:
      if (e->type != kExprLiteralInt || e->ival != iv) fail();
      break;
    case FLOAT:
    case NEGFLOAT:
      if (e->type != kExprLiteralFloat || memcmp(&e->fval, &fv, 8)) fail();
      break;
    case STRING:
      if (e->type != kExprLiteralString || content != e->name) fail();
      break;
    case DATEL:
      if (e->type != kExprLiteralDate || content != e->name) fail();
      break;
    case IV_PLAIN:
    case IV_FIELD:
    case IV_STRING:
      if (e->type != kExprLiteralInterval || e->ival != iv || e->datetimeField != fields[unit]) fail();
      break;
    case BOOL:
      if (e->type != kExprLiteralInt || e->ival != iv) fail();
      break;
    case NUL:
      if (e->type != kExprLiteralNull) fail();
      break;
    default:
      break;
  }
}
const Register c11({"C11",
                    "A value (integer over the whole range and around powers of two and ten, double bits, byte string, date, interval, boolean, NULL) is written as a literal in one of 80 places of a statement; "
                    "the value found there must be that value. Integers and durations out of range and malformed dates and intervals must be rejected. Every case is non-trivial; places and kinds are counted.",
                    literalCase, 400000, 8000000});

// ---------------------------------------------------------------- C12
struct Names : Walker {
  std::multiset<std::string> names;
  std::vector<const Expr*> strings;
  std::set<const void*> skip;
  void onExpr(const Expr* e) override {
    if (e->type == kExprLiteralString || e->type == kExprLiteralDate) skip.insert(e->name);
  }
  void onStatement(const SQLStatement* s) override {
    switch (s->type()) {
      case kStmtImport: {
        auto* x = (const ImportStatement*)s;
        skip.insert(x->filePath);
        skip.insert(x->encoding);
        if (x->csv_options) skip.insert(x->csv_options->delimiter), skip.insert(x->csv_options->null), skip.insert(x->csv_options->quote);
        break;
      }
      case kStmtExport: {
        auto* x = (const ExportStatement*)s;
        skip.insert(x->filePath);
        skip.insert(x->encoding);
        if (x->csv_options) skip.insert(x->csv_options->delimiter), skip.insert(x->csv_options->null), skip.insert(x->csv_options->quote);
        break;
      }
      case kStmtCreate: skip.insert(((const CreateStatement*)s)->filePath); break;
      case kStmtPrepare: skip.insert(((const PrepareStatement*)s)->query); break;
      default: break;
    }
  }
  void text(const char* s) override {
    if (!skip.count(s)) names.insert(s);
  }
};
const size_t kKeywordCases = 2 * 200;
std::vector<int16_t> tokens(const std::string& s) {
  std::vector<int16_t> v;
  SQLParser::tokenize(s, &v);
  return v;
}
void keywordCase(Case& c, size_t i) {
  auto& kws = ref::keywords();
  std::string k = kws[(i / 2) % kws.size()];
  Tape& t = c.tape;
  c.nontrivial = true;
  c.label("keyword");
  // In any mix of letter case it is the same token, and not a name.
  std::string m = randomCase(t, k);
  auto a = tokens(k), b = tokens(m);
  c.input = m;
  c.work += 2;
  c.check(a.size() == 1 && a == b, m + " is not the same token as " + k);
  c.check(a[0] != SQL_IDENTIFIER, k + " is a name");
  auto parse = [&](const std::string& q, SQLParserResult& r) {
    c.input = q;
    ++c.work;
    SQLParser::parse(q, &r);
    return r.isValid();
  };
  // Quoted, extended or embedded it is a name.
  for (int form = 0; form < 6; ++form) {
    static const char* w = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    m = randomCase(t, k);
    std::string name = m, text;
    switch (form) {
      case 0:
      case 1: text = "\"" + m + "\""; break;
      case 2: name = text = m + w[t.below(63)]; break;
      case 3: name = text = w[t.below(52)] + m; break;
      case 4: name = text = m + "_"; break;
      default: name = text = m + randomCase(t, t.pick(kws)); break;
    }
    std::string up = name;
    for (auto& ch : up)
      if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32);
    if (form > 1 && ref::isKeyword(up)) continue;
    SQLParserResult r;
    bool ok = parse("SELECT " + text, r);
    c.check(ok, "the name is not accepted");
    auto* e = first(r.getStatement(0));
    c.check(e->type == kExprColumnRef && name == e->name, "the name became " + impl::dumpExpr(e));
    SQLParserResult r2;
    ok = parse("SELECT a." + text + " FROM " + text + " AS " + text, r2);
    c.check(ok, "the name is not accepted");
    e = first(r2.getStatement(0));
    c.check(e->type == kExprColumnRef && name == e->name && std::string("a") == e->table, "the name became " + impl::dumpExpr(e));
    auto* tb = ((const SelectStatement*)r2.getStatement(0))->fromTable;
    c.check(tb->name && name == tb->name && tb->alias && name == tb->alias->name, "the table name is not the same");
  }
}
const Register c12({"C12",
                    "Every keyword in random letter case, quoted, and with letters attached (enumerated); then statements of all kinds with unique random names (keyword-like, quoted, any bytes, long) and random "
                    "keyword case. The names found in the statement object must be exactly those written, and each in the place where the reference parser has it. Non-trivial: at least three names.",
                    [](Case& c) {
                      if (c.index < kKeywordCases) {
                        keywordCase(c, c.index);
                        return;
                      }
                      Gen g(c.tape);
                      g.maxNodes = 30;
                      g.statement(g.anyStatement());
                      std::multiset<std::string> want;
                      size_t n = 0;
                      std::set<std::string> used;
                      bool equal = c.tape.chance(1, 3);  // some names are the same, or differ in letter case only
                      if (equal) c.label("equal names");
                      std::vector<std::string> seen;
                      for (auto& t : g.out)
                        if (t.kind == NAME) {
                          bool quoted = t.text[0] == '"';
                          std::string body = quoted ? t.text.substr(1, t.text.size() - 2) : t.text;
                          if (equal && !seen.empty() && c.tape.chance(1, 2)) {
                            body = seen[seen.size() - 1 - c.tape.below((uint32_t)std::min<size_t>(seen.size(), 3))];
                            quoted = quoted || body.empty() || !isalpha((unsigned char)body[0]);
                            for (char ch : body) quoted = quoted || !(isalnum((unsigned char)ch) || ch == '_');
                            if (c.tape.chance(1, 3)) body = randomCase(c.tape, body);
                          } else {
                            while (used.count(body)) body += std::to_string(n);
                          }
                          seen.push_back(body);
                          std::string up = body;
                          for (auto& ch : up)
                            if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32);
                          if (!quoted && ref::isKeyword(up)) body += "_";
                          used.insert(body);
                          want.insert(body);
                          t.text = quoted ? "\"" + body + "\"" : body;
                          c.label(quoted ? "quoted" : "plain");
                          if (body.size() > 100) c.label("long");
                          ++n;
                        }
                      c.nontrivial = n >= 3;
                      Layout l;
                      l.huge = c.tape.chance(1, 400);
                      c.input = render(c.tape, g.out, l);
                      auto r = ref::parse(c.input);
                      SQLParserResult res;
                      if (!compareWithReference(c, c.input, r, res)) return;
                      if (!r.valid) {
                        c.discarded = true;
                        return;
                      }
                      Names w;
                      for (auto* s : res.getStatements()) w.statement(s);
                      if (w.names != want) {
                        std::string msg = "names differ:";
                        for (auto& x : want)
                          if (!w.names.count(x)) msg += " missing " + quoteStr(x);
                        for (auto& x : w.names)
                          if (!want.count(x)) msg += " unexpected " + quoteStr(x);
                        c.fail(msg);
                      }
                    },
                    kKeywordCases + 150000, kKeywordCases + 3000000, 8, 20, 3, false, kKeywordCases, nullptr});

// ---------------------------------------------------------------- C13
Toks respell(Case& c, const Toks& in) {
  Tape& t = c.tape;
  Toks o;
  auto is = [&](size_t i, const char* s) { return i < in.size() && (in[i].kind == KW || in[i].kind == PUNCT) && in[i].text == s; };
  auto name = [&](size_t i) { return i < in.size() && in[i].kind == NAME; };
  bool query = false;  // after CREATE VIEW/TABLE ... AS and the like
  (void)query;
  for (size_t i = 0; i < in.size(); ++i) {
    bool y = t.chance(1, 2);
    if (is(i, "=") && y && !(i > 1 && false)) {
      // Within SET the = is no operator.
      bool set = false;
      if (i >= 2 && name(i - 1) && (is(i - 2, "SET") || is(i - 2, ","))) set = true;
      o.push_back({PUNCT, set ? "=" : "=="});
      if (!set) c.label("= / ==");
    } else if (is(i, "==") && y) {
      o.push_back({PUNCT, "="});
      c.label("= / ==");
    } else if (is(i, "!=") && y) {
      o.push_back({PUNCT, "<>"});
      c.label("!= / <>");
    } else if (is(i, "<>") && y) {
      o.push_back({PUNCT, "!="});
      c.label("!= / <>");
    } else if (is(i, "ASC") && y) {
      c.label("ASC");
    } else if (is(i, "INNER") && y) {
      c.label("INNER");
    } else if (is(i, "JOIN") && y && i && !(is(i - 1, "INNER") || is(i - 1, "LEFT") || is(i - 1, "RIGHT") || is(i - 1, "FULL") || is(i - 1, "OUTER") || is(i - 1, "CROSS") || is(i - 1, "NATURAL"))) {
      o.push_back({KW, "INNER"});
      o.push_back(in[i]);
      c.label("INNER");
    } else if (is(i, "OUTER") && i && (is(i - 1, "LEFT") || is(i - 1, "RIGHT") || is(i - 1, "FULL")) && y) {
      c.label("OUTER");
    } else if (is(i, "OUTER") && i && !(is(i - 1, "LEFT") || is(i - 1, "RIGHT") || is(i - 1, "FULL")) && y) {
      o.push_back({KW, "FULL"});
      o.push_back(in[i]);
      c.label("OUTER");
    } else if (is(i, "TRANSACTION") && y) {
      c.label("TRANSACTION");
    } else if ((is(i, "BEGIN") || is(i, "COMMIT") || is(i, "ROLLBACK")) && !is(i + 1, "TRANSACTION") && y) {
      o.push_back(in[i]);
      o.push_back({KW, "TRANSACTION"});
      c.label("TRANSACTION");
    } else if (is(i, "AS") && name(i + 1) && !is(i + 2, "(") && y) {
      c.label("AS");
    } else if (is(i, "WITH") && is(i + 1, "(") && y) {
      c.label("WITH (");
    } else if (is(i, "INTEGER") && y) {
      o.push_back({KW, "INT"});
      c.label("types");
    } else if (is(i, "INT") && y) {
      o.push_back({KW, "INTEGER"});
      c.label("types");
    } else if (is(i, "CHARACTER_VARYING") && y) {
      o.push_back({KW, "VARCHAR"});
      c.label("types");
    } else if (is(i, "VARCHAR") && y) {
      o.push_back({KW, "CHARACTER_VARYING"});
      c.label("types");
    } else if (is(i, "TIMESTAMP") && y) {
      o.push_back({KW, "DATETIME"});
      c.label("types");
    } else if (is(i, "ISNULL") && y) {
      o.push_back({KW, "IS"});
      o.push_back({KW, "NULL"});
      c.label("ISNULL");
    } else if (is(i, "DESCRIBE") && y) {
      o.push_back({KW, "SHOW"});
      o.push_back({KW, "COLUMNS"});
      c.label("DESCRIBE");
    } else if (is(i, "TRUNCATE") && y) {
      o.push_back({KW, "DELETE"});
      o.push_back({KW, "FROM"});
      c.label("TRUNCATE");
    } else if (i && in[i - 1].kind == NUM && (is(i, "SECOND") || is(i, "MINUTE") || is(i, "HOUR") || is(i, "DAY") || is(i, "MONTH") || is(i, "YEAR")) && y) {
      o.push_back({KW, in[i].text + "S"});
      c.label("units");
    } else if (in[i].kind == WORD) {
      o.push_back({WORD, randomCase(t, in[i].text)});
    } else {
      o.push_back(in[i]);
    }
  }
  return o;
}
const Register c13({"C13",
                    "A statement sequence, half of them with a random token-level change, is written in a plain layout and in a random one (blanks, tabs, LF, CR, comments of any content, minimal spacing, random "
                    "letter case, equivalent spellings and noise words). Both must be accepted with equal content or both rejected. Non-trivial: the two texts differ and have at least five tokens.",
                    [](Case& c) {
                      Toks toks = statements(c.tape, 3);
                      if (c.tape.chance(1, 150) && stretch(c.tape, toks)) c.label("long list");
                      bool mutated = c.tape.chance(1, 3);
                      if (mutated) {
                        mutate(c.tape, toks);
                        c.label("mutated");
                      }
                      bool same = c.tape.chance(1, 2);  // the same spelling, another layout
                      Toks other = mutated || same ? toks : respell(c, toks);
                      if (!other.empty() && c.tape.chance(1, 4)) {
                        // A final semicolon makes no difference.
                        if (other.back().text == ";" && other.back().kind == PUNCT)
                          other.pop_back();
                        else
                          other.push_back({PUNCT, ";"});
                        if (mutated) other = toks;
                      }
                      Layout l;
                      l.huge = c.tape.chance(1, 150);
                      if (l.huge) c.label("huge layout");
                      std::string a = plain(toks), b = render(c.tape, other, l);
                      // (Changed sequences can contain texts that are more than one token; the layouts have to agree in their tokens.)
                      if (ref::lex(a).size() != toks.size() || ref::lex(b).size() != other.size()) {
                        c.discarded = true;
                        return;
                      }
                      c.input = b;
                      c.nontrivial = a != b && toks.size() >= 5;
                      SQLParserResult x, y;
                      SQLParser::parse(a, &x);
                      SQLParser::parse(b, &y);
                      c.work += 2;
                      c.check(x.isValid() == y.isValid(), std::string(x.isValid() ? "rejected" : "accepted") + ", but not " + a + "\n" + (x.errorMsg() ? x.errorMsg() : "") + (y.errorMsg() ? y.errorMsg() : ""));
                      std::string dx = impl::dump(x), dy = impl::dump(y);
                      c.check(dx == dy, "content differs from that of " + a + ": " + diffText(dx, dy));
                      c.label(x.isValid() ? "accepted" : "rejected");
                      c.label(same || mutated ? "layout" : "spelling");
                    },
                    120000, 2500000});

// ---------------------------------------------------------------- C15
const Register c15({"C15",
                    "A valid text of one to three statements gets one or more pieces that belong to no token (foreign and control characters, bytes above 127, byte order marks and what other systems know as blanks, ends or comments, NUL, integers out of range, quotes without end) at any "
                    "position, or is changed as a whole to what another system or encoding would have; if the reference lexer finds an invalid token there, the text must be rejected without statements, whatever precedes or follows. Non-trivial: the piece was outside of strings, names and comments.",
                    [](Case& c) {
                      Tape& t = c.tape;
                      Toks toks = statements(t, 3);
                      Layout l;
                      enlarge(c, toks, l, 150);
                      std::string s = render(t, toks, l);
                      uint32_t n = t.chance(1, 8) ? t.range(2, 3) : 1;
                      std::string what;
                      for (uint32_t i = 0; i < n; ++i) {
                        std::string piece;
                        switch (t.weighted({30, 15, 10, 10, 10, 10, 10, 20})) {
                          case 0: piece = std::string(1, "@#$&!~`\\"[t.below(8)]); what = "character"; break;
                          case 7: {
                            // What other systems know as blanks, marks, comments, ends, names and numbers.
                            static const std::vector<std::string> foreign = {"\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xC2\xA0", "\xE2\x80\x8B", "\xE2\x80\xA8", "\xE3\x80\x80", "\x1A", "\x04", "\f", "\v", "#!", "# ", "#\n", "\\G", "\\q", "\\n", "\\\n", "\\'",
                                                                             "`a`", "$1", "$$", "@a", "@@a", "&&", "!", "!<", "~", "a$b", "a#", "\xC3\xA4", "\xE2\x80\x93", "\xE2\x80\x99", "\x85", "\xA0", "\b", "\x7F", "\xD0\xB0", std::string("\0\n", 2), std::string("\0SELECT", 7), "-9223372036854775809", "9223372036854775807000", "18446744073709551615",
                                                                             "18446744073709551616", "\"\"", "\"\n\""};
                            piece = t.pick(foreign);
                            if (t.chance(1, 6)) piece.push_back('\0');
                            what = "sequence";
                            break;
                          }
                          case 1: piece = std::string(1, (char)t.range(128, 255)); what = "high byte"; break;
                          case 2: {
                            char ch = (char)t.range(1, 31);
                            piece = std::string(1, ch == '\n' || ch == '\r' || ch == '\t' ? '\x7f' : ch);
                            what = "control character";
                            break;
                          }
                          case 3: piece = std::string(1, '\0'); what = "NUL"; break;
                          case 4: piece = t.chance(1, 2) ? " 9223372036854775808 " : " 99999999999999999999999 "; what = "integer"; break;
                          case 5: piece = "'"; what = "quote"; break;
                          default: piece = "\""; what = "double quote";
                        }
                        c.label(what);
                        size_t at;
                        switch (t.below(4)) {
                          case 0: at = 0; c.label("start"); break;
                          case 1: at = s.size(); c.label("end"); break;
                          default: at = t.below((uint32_t)s.size() + 1); c.label("middle");
                        }
                        s.insert(at, piece);
                      }
                      if (t.chance(1, 25)) {
                        s = foreign(t, plain(toks));
                        c.label("foreign text");
                      }
                      c.input = s;
                      auto r = ref::parse(s);
                      SQLParserResult res;
                      SQLParser::parse(s, &res);
                      ++c.work;
                      if (r.lexical) {
                        c.nontrivial = true;
                        c.label("invalid token");
                        c.check(!res.isValid(), "accepted although it cannot be tokenized; it became\n" + impl::dump(res));
                        c.check(res.size() == 0, "rejected, but with statements");
                      } else {
                        c.label("piece within a string, name or comment");
                        if (!r.gray && !(r.valid && r.maxDepth > kDeep)) c.check(res.isValid() == r.valid, r.valid ? std::string("rejected: ") + (res.errorMsg() ? res.errorMsg() : "") : "accepted");
                      }
                    },
                    200000, 4000000});

// ---------------------------------------------------------------- C27
const Register c27({"C27",
                    "Texts of statements, random tokens with minimal spacing, and random characters with a bias to the lexer's own; the token list must be that of the reference lexer (up to the first invalid token), "
                    "the same for two layouts of the same tokens, and that of two texts joined by a separator the concatenation of theirs. Non-trivial: at least three tokens.",
                    [](Case& c) {
                      Tape& t = c.tape;
                      std::string s;
                      Toks toks;
                      Layout l;
                      switch (t.weighted({25, 35, 40})) {
                        case 0:
                          toks = statements(t, 3);
                          enlarge(c, toks, l, 80);
                          s = render(t, toks, l);
                          c.label("statements");
                          break;
                        case 1: {
                          uint32_t n = t.size(1, 8, 200);
                          for (uint32_t i = 0; i < n; ++i) toks.push_back(randomToken(t));
                          enlarge(c, toks, l, 80);
                          s = render(t, toks, l);
                          c.label("random tokens");
                          break;
                        }
                        default: {
                          static const std::vector<std::string> frag = {" ", "\n", "\t", "\r", "-", "--", "'", "''", "\"", ".", "0", "1", "9", "12", "a", "e", "E", "x", "_", "=", "<", ">", "!", "|", "(", ")", ",", ";", "?",
                                                                        "*", "/", "+", "%", "^", "[", "]", "{", "}", ":", "select", "NULL", "current", "row", "CURRENT ROW", "character varying", "9223372036854775807",
                                                                        "-9223372036854775808", "9223372036854775808", "1.5", ".5", "5.", "in", "int", "is", "isnull", "not", "\x80", "@", "\\", "#"};
                          uint32_t n = t.size(1, 10, 60);
                          for (uint32_t i = 0; i < n; ++i) s += t.pick(frag);
                          if (t.chance(1, 2000)) {
                            // Very many tokens.
                            std::string part = s + "\n";
                            uint64_t total = 200 + t.below(t.chance(1, 4) ? 600000 : 150000);
                            while (s.size() < total) s += part;
                            c.label("many tokens");
                          }
                          c.label("characters");
                        }
                      }
                      c.input = s;
                      auto want = ref::lex(s);
                      c.nontrivial = want.size() >= 3;
                      std::vector<int16_t> got;
                      bool ok = SQLParser::tokenize(s, &got);
                      ++c.work;
                      c.check(ok, "tokenize returned false");
                      std::string d = compareTokens(expectedTokens(want), got);
                      c.check(d.empty(), d);
                      bool invalid = false;
                      for (auto& k : want) invalid |= k.kind == ref::T_INVALID;
                      c.label(invalid ? "with an invalid token" : "valid tokens");
                      if (invalid) return;
                      // Tokens are appended to the vector that is passed.
                      if (t.chance(1, 3)) {
                        std::vector<int16_t> twice = got;
                        SQLParser::tokenize(s, &twice);
                        std::vector<int16_t> w2 = got;
                        w2.insert(w2.end(), got.begin(), got.end());
                        if (twice != w2) c.check(twice == got, "a second call gives other tokens");
                      }
                      if (!toks.empty()) {
                        std::string p = plain(toks);
                        if (ref::lex(p).size() == want.size()) {
                          auto other = tokens(p);
                          c.check(other == got, "another layout has other tokens: " + p);
                          c.label("layouts compared");
                        }
                      }
                      if (t.chance(1, 2)) {
                        std::string s2 = render(t, statements(t, 1));
                        auto a2 = tokens(s2);
                        auto joined = tokens(s + "\n--\n" + s2);
                        auto w = got;
                        w.insert(w.end(), a2.begin(), a2.end());
                        c.check(joined == w, "joined with " + s2 + " the tokens are not the concatenation");
                        c.label("concatenation");
                      }
                    },
                    250000, 5000000});
}  // namespace
