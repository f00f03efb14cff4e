#include "gen.h"
#include <functional>
#include <algorithm>
#include <cstring>

namespace gen {

// ---------------------------------------------------------------- names and literals
static const std::vector<std::string>& nearKeywords() {
  static const std::vector<std::string> v = {"row",    "current",  "character", "varying", "nulls",   "first",     "last",     "csv",      "tbl",    "bin",
                                             "binary", "quote",    "delimiter", "selec",   "selects", "select_",   "tables1",  "xfrom",    "fromx",  "unio",
                                             "unions", "inner_",   "datex",     "date1",   "int4",    "ints",      "end_",     "ending",   "casex",  "nullable",
                                             "notx",   "nots",     "orx",       "andx",    "asx",     "isx",       "inx",      "ofx",      "onx",    "tox",
                                             "years1", "current_", "action",    "zone",    "rows1",   "timestamp0", "truex",   "false_",   "yearss", "hintx",
                                             "CURRENT", "Row",     "Current_Row", "character_varying", "limits", "offsets", "groups_", "lefty", "x"};
  return v;
}
static const char* kWord = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";

// Names people use, some of which mean something elsewhere in SQL or in other programs.
static const std::vector<std::string>& commonWords() {
  static const std::vector<std::string> v = {"COUNT", "SUM", "AVG", "MIN", "MAX", "COALESCE", "SUBSTRING", "SUBSTR", "UPPER", "LOWER", "LENGTH", "ABS", "ROUND", "NULLIF", "NOW", "CONCAT", "RANK", "ROW_NUMBER",
                                             "CURRENT_DATE", "CURRENT_TIMESTAMP", "USER", "public", "information_schema", "pg_catalog", "dbo", "sys", "main", "temp", "mysql", "meta_tables", "meta_columns", "dual", "users", "customers",
                                             "orders", "lineitem", "students", "id", "ID", "Id", "name", "value", "rowid", "oid", "ctid", "x", "t0", "T1", "tmp", "cte", "sub", "p1", "stmt", "idx", "view1", "SCALE_FACTOR",
                                             "no_cache", "ts", "day", "city", "INTEGER", "STRING", "NUMERIC", "SERIAL", "BLOB", "XML", "JSON", "UUID", "UTF8", "END_", "excluded", "new", "old", "it", "self", "test", "undefined", "none", "x__", "a_", "a_1"};
  return v;
}
static bool identChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static std::string knownWord(Tape& t) {
  std::string s;
  if (!mined().words.empty() && t.chance(1, 2))
    for (char c : t.pick(mined().words))
      if (identChar(c)) s += c;
  while (!s.empty() && ((s[0] >= '0' && s[0] <= '9') || s[0] == '_')) s.erase(0, 1);
  if (s.empty()) s = t.pick(commonWords());
  if (t.chance(1, 4)) {
    bool up = t.chance(1, 2);
    for (auto& c : s) c = (char)(up && c >= 'a' && c <= 'z' ? c - 32 : !up && c >= 'A' && c <= 'Z' ? c + 32 : c);
  }
  return s;
}

std::string plainName(Tape& t, bool wild) {
  std::string s;
  if (!wild && t.chance(1, 20)) {
    s = knownWord(t);
  } else if (!wild) {
    static const char* n[] = {"a", "b", "c", "d", "e", "f", "g", "h", "t1", "t2", "foo", "bar"};
    return n[t.below(12)];
  } else switch (t.weighted({40, 25, 15, 4, 10, 15})) {
    case 5:
      s = knownWord(t);
      break;
    case 0:
      s = std::string(1, (char)('a' + t.below(26)));
      break;
    case 1: {
      uint32_t n = t.range(1, 10);
      s += kWord[t.below(52)];
      for (uint32_t i = 0; i < n; ++i) s += kWord[t.below(63)];
      break;
    }
    case 2:
      s = t.pick(nearKeywords());
      break;
    case 3: {
      uint32_t n = t.size(20, 60, 3000);
      uint32_t c = t.below(52);
      for (uint32_t i = 0; i < n; ++i) s += kWord[(c + i * 7) % (i ? 63 : 52)];
      break;
    }
    default: {
      // A keyword with something attached.
      s = t.pick(ref::keywords());
      if (t.chance(1, 2))
        for (auto& c : s) c = (char)(c >= 'A' && c <= 'Z' ? c + 32 : c);
      if (t.chance(1, 2))
        s += kWord[t.below(63)];
      else
        s = kWord[t.below(52)] + s;
      break;
    }
  }
  std::string u = s;
  for (auto& c : u)
    if (c >= 'a' && c <= 'z') c -= 32;
  if (ref::isKeyword(u)) s += "_";
  return s;
}

std::string quotedName(Tape& t) {
  std::string s;
  switch (t.weighted({30, 30, 20, 3, 8})) {
    case 4:
      if (!mined().words.empty() && t.chance(1, 2))
        for (char c : t.pick(mined().words)) s += c == '"' || c == '\n' ? 'q' : c;
      else
        s = t.pick(commonWords());
      break;
    case 0:
      s = t.pick(ref::keywords());
      if (t.chance(1, 2))
        for (auto& c : s) c = (char)(c >= 'A' && c <= 'Z' ? c + 32 : c);
      break;
    case 1: {
      static const std::vector<std::string> v = {"a b", "a--b", "it's", ";", "?", "a.b", "*", "--", "(", "'", "\\", "\t", " ", "  x ", "\xc3\xa9t\xc3\xa9", "\xff", "\x80\x01", "a\rb", "%s%n",
                                                 "x''y", "1", "1.5", "current row", "$", "#"};
      s = t.pick(v);
      break;
    }
    case 2: {
      uint32_t n = t.range(1, 12);
      for (uint32_t i = 0; i < n; ++i) {
        char c = (char)t.range(1, 255);
        s += c == '"' || c == '\n' ? 'q' : c;
      }
      break;
    }
    default: {
      uint32_t n = t.size(20, 60, 3000);
      uint32_t c = t.below(255);
      for (uint32_t i = 0; i < n; ++i) {
        char x = (char)(1 + (c + i * 31) % 255);
        s += x == '"' || x == '\n' ? 'q' : x;
      }
    }
  }
  return "\"" + s + "\"";
}

std::string stringContent(Tape& t) {
  std::string s;
  switch (t.weighted({30, 30, 25, 3, 5, 8})) {
    case 5:
      s = mined().words.empty() || t.chance(1, 3) ? t.pick(commonWords()) : t.pick(mined().words);
      break;
    case 0: {
      uint32_t n = t.range(0, 6);
      for (uint32_t i = 0; i < n; ++i) s += (char)('a' + t.below(26));
      break;
    }
    case 1: {
      static const std::vector<std::string> v = {"",       "'",      "''",  "it's", "--", "-- x", ";", "?", "a;b", "\"", "\n", "\r\n", "a\nb", "\\", "\\'", "%", "_%", "'''", "--'", "' --", "?;?",
                                                 "\xc3\xbc", "\xff\xfe", "/*", "*/", "x'y'z", "\t", " lead", "trail ", "SELECT 1;", "select * from t where a = '?'", "%s%d%n",
                                                 "\\t", "\\n", "\\\\", "\\0", "\\x41", "&amp;", "%20", " ", ",", "|", "null", "NULL", "true", "''''", "e'x'", "$1", "\xef\xbb\xbfx", "\x1a", "0x1f", "10", "-1", "1.5", "a\\", "\\''", "UTF-8", "\r",
                                                 "x.csv", "a.tbl", "data.bin", "/tmp/x.csv", "dir/a.TBL", "X.CSV", "a.csv.gz", "csv", "tbl", "binary", ".csv", "t.db", "C:\\a\\b.csv", "s3://b/k.csv", "-", "stdin", "~/x", "a*.csv"};
      s = t.pick(v);
      break;
    }
    case 2: {
      uint32_t n = t.range(1, 14);
      for (uint32_t i = 0; i < n; ++i) {
        static const char sp[] = "''--;?\"\n\r\\ ";
        if (t.chance(1, 3))
          s += sp[t.below(sizeof sp - 1)];
        else
          s += (char)t.range(1, 255);
      }
      break;
    }
    case 3: {
      uint32_t n = t.size(50, 200, 20000);
      uint32_t c = t.below(255);
      for (uint32_t i = 0; i < n; ++i) s += (char)(1 + (c + i * 37) % 255);
      break;
    }
    default:
      s = dateText(t);
  }
  return s;
}
std::string quoteString(const std::string& content) {
  std::string s = "'";
  for (char c : content) {
    s += c;
    if (c == '\'') s += c;
  }
  return s + "'";
}

std::string intText(Tape& t) {
  static const std::vector<std::string> b = {"0",          "1",          "2",          "9",          "10",         "127",        "128",        "255",        "256",
                                             "32767",      "32768",      "65535",      "65536",      "2147483646", "2147483647", "2147483648", "2147483649", "4294967295",
                                             "4294967296", "4294967297", "9007199254740991", "9007199254740992", "9007199254740993", "999999999999999999", "1000000000000000000",
                                             "9223372036854775806", "9223372036854775807"};
  std::string s;
  switch (t.weighted({40, 30, 20, 10})) {
    case 3:
      s = std::to_string(t.nearMined() & 0x7FFFFFFFFFFFFFFFull);
      break;
    case 0:
      s = std::to_string(t.below(100));
      break;
    case 1:
      s = t.pick(b);
      break;
    default: {
      uint64_t v = t.bits64() >> (1 + t.below(63));
      s = std::to_string(v & 0x7FFFFFFFFFFFFFFFull);
    }
  }
  if (t.chance(1, 12)) s = std::string(t.range(1, t.chance(1, 4) ? 60 : 3), '0') + s;
  return s;
}

std::string floatText(Tape& t) {
  static const std::vector<std::string> b = {"0.0", "1.0", "0.1", ".5", "5.", "0.", ".0", "1.5", "3.14159", "0.30000000000000004", "1.7976931348623157", "9007199254740993.0", "9007199254740992.5",
                                             "4503599627370497.5", "123456789.123456789", "0.000000000000000000000000000000000000000000000000000000000001", "2.2250738585072011",
                                             "1.00000000000000011102230246251565", "1.00000000000000011102230246251566", "1.00000000000000033306690738754696", "100000000000000000000000.0",
                                             "9223372036854775807.0", "9223372036854775808.", "18446744073709551616.5", "00.10", "007.5"};
  switch (t.weighted({30, 40, 20, 3, 3})) {
    case 0:
      return std::to_string(t.below(100)) + "." + std::to_string(t.below(100));
    case 1:
      return t.pick(b);
    case 2: {
      std::string s;
      uint32_t n = t.range(0, 20), m = t.range(n ? 0 : 1, 25);
      for (uint32_t i = 0; i < n; ++i) s += (char)('0' + t.below(10));
      s += '.';
      for (uint32_t i = 0; i < m; ++i) s += (char)('0' + t.below(10));
      return s;
    }
    case 3: {
      // Very long
      if (t.chance(1, 3)) {
        // Around the largest number: beyond, it is infinite, but leading zeros do not matter.
        static const std::vector<std::string> edge = {"17976931348623157", "179769313486231580793", "179769313486231580794", "1797693134862315808", "17976931348623158079372897", "17976931348623159", "1", "9", "2"};
        std::string s = std::string(t.chance(1, 3) ? t.range(1, 400) : 0, '0') + t.pick(edge);
        s += std::string(t.chance(1, 3) ? 309 - std::min<size_t>(309, s.size()) : t.range(280, 320), t.chance(1, 2) ? '0' : '9');
        return s + "." + std::string(t.below(3), '9');
      }
      uint32_t n = t.range(1, 300), m = t.range(0, 800);
      std::string s(n, (char)('1' + t.below(9)));
      return s + "." + std::string(m, (char)('0' + t.below(10)));
    }
    default:
      // Very small: subnormal numbers
      return (t.chance(1, 3) ? std::string(t.range(1, 400), '0') : "") + "." + std::string(t.range(300, 330), '0') + std::to_string(t.range(1, 99999));
  }
}

std::string dateText(Tape& t) {
  char b[32];
  static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int y = (int)t.range(0, 9999), m = (int)t.range(1, 12);
  int d = (int)t.range(1, (uint32_t)days[m - 1]);
  snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
  return b;
}

// ---------------------------------------------------------------- emitting
void Gen::k(const char* words) {
  std::string w;
  for (const char* c = words;; ++c) {
    if (*c == ' ' || !*c) {
      if (!w.empty()) out.push_back({KW, w});
      w.clear();
      if (!*c) break;
    } else {
      w += *c;
    }
  }
}
// A token of the kind that the statement has already: names and literals that are equal in different places.
const Tok* Gen::earlier(Kind kind) {
  if (out.empty()) return nullptr;
  uint32_t i = t.chance(1, 2) ? (uint32_t)out.size() : t.below((uint32_t)out.size()) + 1;
  for (uint32_t n = 0; i && n < 40; ++n)
    if (out[--i].kind == kind) return &out[i];
  return nullptr;
}
// A part of the kind that the statement has already, token for token.
bool Gen::again(Part part, uint32_t longest) {
  auto& v = parts[part];
  if (!repeats || v.empty() || !t.chance(1, part == P_EXPR || part == P_OPERAND ? 20 : part == P_ASSIGNMENT ? 3 : 12)) return false;
  auto [from, to] = v[t.below((uint32_t)v.size())];
  if (to > out.size() || to - from > longest || nodes > maxNodes) return false;
  Toks copy(out.begin() + from, out.begin() + to);
  for (auto& k : copy)
    if (k.kind == PARAM && !params) return false;
  out.insert(out.end(), copy.begin(), copy.end());
  nodes += (int)copy.size() / 3;
  return true;
}
struct Gen::Scope {
  Gen& g;
  Part part;
  uint32_t from = (uint32_t)g.out.size();
  ~Scope() {
    uint32_t to = (uint32_t)g.out.size();
    if (to <= from || to - from > 24) return;
    auto& v = g.parts[part];
    if (v.size() < 8)
      v.emplace_back(from, to);
    else
      v[to % 8] = {from, to};
  }
};
void Gen::name() {
  if (repeats && t.chance(1, close ? 2 : 5)) {
    if (auto* e = earlier(NAME)) {
      Tok again = *e;
      bool quoted = again.text[0] == '"';
      switch (t.below(12)) {
        case 0:
          // Equal, but spelled differently, or different only in case.
          if (!quoted) again.text = "\"" + again.text + "\"";
          break;
        case 1:
          if (!quoted) {
            char& c = again.text[t.below((uint32_t)again.text.size())];
            if (isalpha((unsigned char)c)) c = (char)(c ^ 32);
          }
          break;
        default: break;
      }
      out.push_back(again);
      return;
    }
  }
  if (wildNames && t.chance(1, 6))
    out.push_back({NAME, quotedName(t)});
  else
    out.push_back({NAME, plainName(t, wildNames && t.chance(1, 2))});
}
uint32_t Gen::listSize(uint32_t lo, uint32_t typical, uint32_t max) {
  if (fixedList) return (uint32_t)fixedList;
  if (nodes > maxNodes) return lo;
  return t.size(lo, typical, max);
}
void Gen::names(uint32_t max) {
  uint32_t n = listSize(1, 2, max);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    name();
  }
}
void Gen::tableName() {
  name();
  if (t.chance(1, 4)) {
    p(".");
    name();
  }
}
void Gen::strOf(const std::string& content) { out.push_back({STR, quoteString(content)}); }
void Gen::str() {
  if (repeats && t.chance(1, 8)) {
    if (t.chance(1, 3)) {
      if (auto* e = earlier(NAME)) return strOf(e->text[0] == '"' ? e->text.substr(1, e->text.size() - 2) : e->text);
    } else if (auto* e = earlier(STR)) {
      return out.push_back(Tok(*e));
    }
  }
  strOf(wildLiterals ? stringContent(t) : std::string("s") + std::to_string(t.below(10)));
}
void Gen::integer() {
  if (repeats && t.chance(1, close ? 3 : 8)) {
    auto* e = earlier(NUM);
    if (e && e->text.find_first_not_of("0123456789") == std::string::npos) return num(std::string(e->text));
  }
  num(wildLiterals && t.chance(1, 2) ? intText(t) : std::to_string(t.below(10)));
}
void Gen::smallInt() { num(std::to_string(t.below(10))); }
void Gen::floating() { num(wildLiterals && t.chance(1, 2) ? floatText(t) : std::to_string(t.below(10)) + "." + std::to_string(t.below(10))); }

static const char* kUnits[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
static const char* kUnitsPl[] = {"SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS", "YEARS"};

void Gen::date() {
  k("DATE");
  strOf(dateText(t));
}
void Gen::interval() {
  uint32_t u = t.below(6);
  switch (t.below(3)) {
    case 0:
      integer();
      k(t.chance(1, 2) ? kUnits[u] : kUnitsPl[u]);
      break;
    case 1:
      k("INTERVAL");
      strOf(std::string(t.chance(1, 6) ? "-" : "") + (wildLiterals ? intText(t) : std::to_string(t.below(10))));
      k(kUnits[u]);
      break;
    default: {
      k("INTERVAL");
      std::string w = t.chance(1, 2) ? kUnits[u] : kUnitsPl[u];
      w = t.chance(1, 3) ? w : randomCase(t, w);
      strOf((wildLiterals ? intText(t) : std::to_string(t.below(10))) + std::string(t.chance(1, 6) ? t.range(2, 4) : 1, ' ') + w);
    }
  }
}
void Gen::literal() {
  switch (t.weighted({30, 12, 20, 8, 8, 6, 6, 8, params ? 10u : 0u})) {
    case 0: integer(); break;
    case 1: floating(); break;
    case 2: str(); break;
    case 3: k("TRUE"); break;
    case 4: k("FALSE"); break;
    case 5: k("NULL"); break;
    case 6: date(); break;
    case 7: interval(); break;
    default: out.push_back({PARAM, "?"});
  }
}
void Gen::extendedLiteral() {
  bool save = params;
  params = false;
  if (t.chance(1, 6)) {
    p("-");
    switch (t.below(3)) {
      case 0: integer(); break;
      case 1: floating(); break;
      default: interval();
    }
  } else {
    literal();
  }
  params = save;
}
void Gen::extendedLiterals() {
  uint32_t n = listSize(1, 3, 40);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    if (t.chance(1, 8)) {
      k("CAST");
      p("(");
      extendedLiteral();
      k("AS");
      columnType();
      p(")");
    } else {
      extendedLiteral();
    }
  }
}
void Gen::columnType() {
  static const char* simple[] = {"INT", "BIGINT", "BOOLEAN", "DATE", "DATETIME", "DOUBLE", "FLOAT", "INTEGER", "LONG", "REAL", "SMALLINT", "TEXT", "TIMESTAMP"};
  switch (t.weighted({50, 10, 10, 5, 20, 10})) {
    case 0: k(simple[t.below(13)]); break;
    case 1:
    case 2:
    case 3:
      switch (t.below(3)) {
        case 0: k("VARCHAR"); break;
        case 1: k("CHAR"); break;
        default: k("CHARACTER_VARYING");
      }
      p("(");
      integer();
      p(")");
      break;
    case 4:
      k("DECIMAL");
      if (t.chance(3, 4)) {
        p("(");
        integer();
        if (t.chance(2, 3)) {
          p(",");
          integer();
        }
        p(")");
      }
      break;
    default:
      k("TIME");
      if (t.chance(1, 2)) {
        p("(");
        integer();
        p(")");
      }
  }
}

int Gen::depthLeft(int d) { return maxDepth - d; }
bool Gen::rich(int d) { return d < maxDepth && nodes < maxNodes; }

// ---------------------------------------------------------------- expressions
static const char* kBinary[] = {"=", "+", "-", "*", "/", "%", "^", "<", ">", "<=", ">=", "!=", "<>", "==", "||", "LIKE", "ILIKE", "NOT LIKE"};

// What is written in queries all the time. $c: column, $n: name, $i: integer, $l: literal, $s: string, $p: pattern, $t: type, $d: date, $v: interval,
// $e: expression; commas and the like are tokens of their own.
static const char* kIdioms[] = {
    "$c = $l", "$c = $l", "$c <> $l", "$c != $s", "$c > $l", "$c >= $l AND $c < $l", "$c > $i AND $c <= $i", "$c IS NULL", "$c IS NOT NULL", "$c IS NOT NULL AND $c > $l", "$c = $c", "$c = $c AND $c = $c", "$c < $c",
    "$c LIKE $p", "$c NOT LIKE $p", "$c ILIKE $p", "$c LIKE $p || $c || $p", "$c LIKE $c || $p", "$c LIKE $p || $c", "$c IN ( $i , $i , $i )", "$c IN ( $s , $s )", "$c NOT IN ( $l )", "$c IN ( $c , $c )", "$l IN ( $c , $c )",
    "$c BETWEEN $i AND $i", "$c BETWEEN $d AND $d", "$l BETWEEN $c AND $c", "COUNT ( * ) > $i", "$n ( $c ) > $l", "$n ( $c ) = $n ( $c )", "COUNT ( * )", "$n ( * )", "$n ( DISTINCT $c )", "$n ( $c )", "$n ( $c , $l )",
    "$n ( )", "$c = $l OR $c IS NULL", "$c = $l OR $c = $l", "$c = $l OR $c = $l OR $c = $l", "( $c = $l OR $c = $l ) AND $c = $l", "NOT $c = $l", "NOT ( $c = $l )", "NOT ( $c = $l AND $c = $l )", "NOT $c", "$c - $i", "$c + $i", "$i - $c", "$c - - $i",
    "$c * ( 1 - $c )", "$c * ( 1 - $c ) * ( 1 + $c )", "( $c + $c ) / 2", "$c + $c + $c", "$c - $c - $c", "$c - ( $c - $c )", "$c / $c / $c", "$c * $c + $c * $c", "$c % $i = 0", "- $c", "- $i", "- ( $c )", "- $c = $i", "$c = - $i", "$c || $s || $c", "$c || $c",
    "CASE WHEN $c IS NULL THEN $l ELSE $c END", "CASE WHEN $c = $l THEN $l ELSE $l END", "CASE WHEN $c THEN $l END", "CASE $c WHEN $l THEN $l WHEN $l THEN $l ELSE $l END", "CASE $c WHEN $l THEN $l END", "SUM ( CASE WHEN $c = $l THEN 1 ELSE 0 END )",
    "CASE WHEN $c > $i THEN $s WHEN $c > $i THEN $s ELSE $s END", "CAST ( $c AS $t )", "CAST ( $l AS $t )", "CAST ( CAST ( $c AS $t ) AS $t )", "EXTRACT ( YEAR FROM $c )", "EXTRACT ( YEAR FROM CAST ( $c AS DATE ) )", "EXTRACT ( MONTH FROM $d )",
    "EXTRACT ( YEAR FROM $c ) = $i", "$d - $v", "$d + $v", "$c <= $d", "$c < $d + $v", "$c + $v", "- $v", "$c [ $i ]", "ARRAY [ $i , $i ] [ $i ]", "$i = $i", "1 = 1", "TRUE AND $c = $l", "$c = NULL", "$c = TRUE", "$c = ''", "$l", "$c", "( $c )", "( $l )", "( $e )",
    "EXISTS ( SELECT * FROM $n WHERE $c = $c )", "NOT EXISTS ( SELECT 1 FROM $n )", "$c IN ( SELECT $c FROM $n )", "$c NOT IN ( SELECT $c FROM $n WHERE $c = $l )", "$c = ( SELECT MAX ( $c ) FROM $n )", "( SELECT COUNT ( * ) FROM $n WHERE $c = $c ) > $i",
    "$n ( $c ) OVER ( )", "$n ( $c ) OVER ( PARTITION BY $c )", "$n ( ) OVER ( PARTITION BY $c ORDER BY $c DESC )", "$n ( ) OVER ( ORDER BY $c )", "SUM ( $c ) OVER ( ORDER BY $c ROWS $i PRECEDING )",
    "SUM ( $c ) OVER ( ORDER BY $c ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT_ROW )", "SUM ( $c ) OVER ( PARTITION BY $c ORDER BY $c ROWS BETWEEN $i PRECEDING AND $i FOLLOWING )", "SUM ( $c ) / COUNT ( $c )", "SUM ( $c * $c )", "$e AND $c = $l",
    "$e OR $c = $l", "$c = $l AND $e", "( $e ) = $l", "( $e ) = $c", "NOT ( $e )"};
static const char* kQueryIdioms[] = {"SELECT 1", "SELECT $l", "SELECT *", "SELECT * FROM $n", "SELECT $c FROM $n", "SELECT $c , $c FROM $n", "SELECT $c AS $n FROM $n", "SELECT * FROM $n WHERE $c = $l", "SELECT $c FROM $n WHERE $c = $l", "SELECT COUNT ( * ) FROM $n",
                                     "SELECT DISTINCT $c FROM $n", "SELECT DISTINCT $c FROM $n WHERE $c = $l", "SELECT $c , COUNT ( * ) FROM $n GROUP BY $c", "SELECT $c FROM $n GROUP BY $c", "SELECT $c FROM $n GROUP BY $c HAVING $c = $l",
                                     "SELECT $c , COUNT ( * ) FROM $n GROUP BY $c HAVING COUNT ( * ) > $i", "SELECT $c , SUM ( $c ) AS $n FROM $n WHERE $c = $l GROUP BY $c HAVING SUM ( $c ) > $l", "SELECT $c , $c FROM $n GROUP BY $c , $c HAVING $e",
                                     "SELECT DISTINCT $c FROM $n GROUP BY $c", "SELECT TOP $i $c FROM $n", "SELECT $n . * FROM $n", "SELECT $n . * , $n . * FROM $n , $n WHERE $n . $n = $n . $n", "SELECT * FROM $n , $n", "SELECT * FROM $n , $n WHERE $c = $c",
                                     "SELECT * FROM $n AS $n , $n AS $n WHERE $n . $n = $n . $n", "SELECT * FROM $n JOIN $n ON $c = $c", "SELECT * FROM $n $n JOIN $n $n ON $n . $n = $n . $n", "SELECT * FROM $n LEFT JOIN $n ON $c = $c WHERE $c IS NULL",
                                     "SELECT * FROM $n JOIN $n USING ( $n )", "SELECT * FROM $n NATURAL JOIN $n", "SELECT * FROM $n FULL JOIN $n ON $c = $c", "SELECT * FROM $n JOIN $n ON $c = $c JOIN $n ON $c = $c", "SELECT * FROM $n LEFT JOIN $n ON $c = $c AND $c = $l",
                                     "SELECT * FROM ( SELECT * FROM $n ) $n", "SELECT * FROM ( SELECT $c FROM $n ) AS $n WHERE $c = $l", "SELECT * FROM ( SELECT $c AS $n FROM $n GROUP BY $c ) AS $n", "SELECT * FROM $n . $n", "SELECT $n . $n FROM $n . $n WHERE $n . $n = $l",
                                     "SELECT $c FROM $n WHERE $c IN ( SELECT $c FROM $n )", "SELECT * FROM $n WHERE EXISTS ( SELECT 1 FROM $n WHERE $n . $n = $n . $n )", "SELECT $e FROM $n", "SELECT * FROM $n WHERE $e", "SELECT $e , $e FROM $n WHERE $e",
                                     "SELECT MAX ( $c ) - MIN ( $c ) FROM $n", "SELECT $c FROM $n WHERE $c = ( SELECT MAX ( $c ) FROM $n )"};
// A string that is a query, as they are prepared.
void Gen::preparedText() {
  std::string s;
  if (t.chance(1, 3)) {
    static const char* v[] = {"SELECT * FROM t WHERE a = ?", "SELECT a FROM t WHERE a = ? AND b = ?", "SELECT * FROM t", "INSERT INTO t VALUES (?, ?)", "INSERT INTO t VALUES (1, 'a')", "UPDATE t SET a = ? WHERE b = ?", "DELETE FROM t WHERE a = ?", "DELETE FROM t",
                              "SELECT ?", "SELECT 1", "SELECT a FROM t WHERE a IN (?, ?) ORDER BY a LIMIT ?", "SELECT a FROM t WHERE a LIKE '%?%'", "SELECT 'it''s'", "CREATE TABLE t (a INT)", "DROP TABLE t", "SELECT a -- comment\nFROM t", "SELECT $1", "SELECT :a", "select",
                              "SELECT * FROM t WHERE a > ? and a < ?", "EXECUTE p(?)", "PREPARE q FROM 'SELECT ?'"};
    s = v[t.below(sizeof v / sizeof *v)];
  } else {
    Gen g(t);
    g.maxNodes = t.chance(1, 4) ? 40 : 8;
    g.wildNames = g.wildLiterals = t.chance(1, 4);
    St kind = t.chance(2, 3) ? (St)SELECT : g.anyStatement();
    if (kind == PREPARE) kind = SELECT;
    g.statement(kind);
    s = t.chance(2, 3) ? plain(g.out) : render(t, g.out);
  }
  if (s.size() > 2000) s.resize(2000);
  switch (t.below(6)) {
    case 0:
      for (auto& c : s) c = (char)tolower((unsigned char)c);
      break;
    case 1:
      for (auto& c : s) c = (char)toupper((unsigned char)c);
      break;
    default: break;
  }
  if (t.chance(1, 8)) s = (t.chance(1, 2) ? " " : "\n") + s;
  if (t.chance(1, 3)) s += t.chance(1, 3) ? " ;" : t.chance(1, 2) ? "; " : ";";
  for (auto& c : s)
    if (!c) c = ' ';
  strOf(s);
}
void Gen::idiom(const char* text, int d) {
  nodes += 2;
  auto col = [&] {
    if (repeats && t.chance(1, 2))
      if (auto* e = earlier(NAME)) {
        Tok copy = *e;
        out.push_back(copy);
        return;
      }
    name();
  };
  std::string w;
  for (const char* c = text;; ++c) {
    if (*c && *c != ' ') {
      w += *c;
      continue;
    }
    if (w[0] == '$') {
      switch (w[1]) {
        case 'c':
          if (t.chance(1, 5)) {
            col();
            p(".");
          }
          col();
          break;
        case 'n': col(); break;
        case 'i': t.chance(1, 2) ? smallInt() : integer(); break;
        case 'l': literal(); break;
        case 's': str(); break;
        case 'p': {
          static const char* v[] = {"%", "%", "_", "%%", "a%", "%a", "%a%", "a_b", "%\\_%", "", "a"};
          strOf(v[t.below(11)]);
          break;
        }
        case 't': columnType(); break;
        case 'd': date(); break;
        case 'v': interval(); break;
        case 'e': rich(d + 1) ? expr(d + 1) : name(); break;
      }
    } else if (w == "''") {
      strOf("");
    } else if (isdigit((unsigned char)w[0])) {
      num(w);
    } else if (w == "COUNT" || w == "SUM" || w == "MAX" || w == "MIN") {
      out.push_back({NAME, randomCase(t, w)});
    } else if (isalpha((unsigned char)w[0])) {
      k(w.c_str());
    } else {
      p(w.c_str());
    }
    w.clear();
    if (!*c) break;
  }
}
void Gen::expr(int d) {
  if (again(P_EXPR)) return;
  Scope scope{*this, P_EXPR};
  ++nodes;
  if (idioms && nodes <= maxNodes && t.chance(1, 10)) {
    idiom(kIdioms[t.below(sizeof kIdioms / sizeof *kIdioms)], d);
    return;
  }
  if (!rich(d)) {
    primary(d);
    return;
  }
  // OR of ANDs of predicates
  uint32_t ors = t.chance(1, 5) ? t.range(2, 4) : 1;
  for (uint32_t i = 0; i < ors; ++i) {
    if (i) k("OR");
    uint32_t ands = t.chance(1, 5) ? t.range(2, 4) : 1;
    for (uint32_t j = 0; j < ands; ++j) {
      if (j) k("AND");
      predicate(d);
    }
  }
}
void Gen::predicate(int d) {
  switch (t.weighted({70, 8, 6, 4, 6})) {
    case 0:
      operand(d);
      break;
    case 1:
      if (t.chance(1, 4)) k("NOT");
      operand(d + 1);
      if (t.chance(1, 2)) k("NOT");
      k("IN");
      if (rich(d + 1) && t.chance(1, 4)) {
        parenSelect(d + 1);
      } else {
        p("(");
        exprList(d + 1, false);
        p(")");
      }
      break;
    case 2:
      if (t.chance(1, 4)) k("NOT");
      operand(d + 1);
      k("BETWEEN");
      operand(d + 1);
      k("AND");
      operand(d + 1);
      break;
    case 3:
      if (t.chance(1, 2)) k("NOT");
      k("EXISTS");
      parenSelect(d + 1);
      break;
    default: {
      uint32_t n = t.range(1, 2);
      for (uint32_t i = 0; i < n; ++i) k("NOT");
      operand(d);
    }
  }
}
void Gen::operand(int d) {
  if (again(P_OPERAND)) return;
  Scope scope{*this, P_OPERAND};
  ++nodes;
  uint32_t n = 1;
  if (rich(d)) n = focus == F_OPS ? t.range(1, 5) : t.weighted({60, 28, 8, 4}) + 1;
  int lastNonassoc = -1;
  for (uint32_t i = 0; i < n; ++i) {
    if (i) {
      uint32_t op = t.below(18);
      // Chains of non-associative operators are not in the language; avoid most of them.
      bool nonassoc = op == 0 || (op >= 7 && op <= 13) || op >= 15;
      if (nonassoc && lastNonassoc >= 0) op = 1 + t.below(6);
      if (nonassoc) lastNonassoc = (int)i;
      if (op >= 15)
        k(kBinary[op]);
      else
        p(kBinary[op]);
    }
    while (t.chance(1, focus == F_OPS ? 7 : 15)) {
      if (t.chance(1, 4) && focus == F_OPS)
        k("NOT");
      else
        p("-");
    }
    primary(d);
    while (t.chance(1, 25)) {
      p("[");
      integer();
      p("]");
    }
  }
  if (t.chance(1, focus == F_OPS ? 8 : 14)) {
    switch (t.below(3)) {
      case 0: k("IS NULL"); break;
      case 1: k("IS NOT NULL"); break;
      default: k("ISNULL");
    }
    if (focus == F_OPS && t.chance(1, 2)) {
      p(kBinary[1 + t.below(5)]);
      primary(d);
    }
  }
}
void Gen::primary(int d) {
  if (again(P_PRIMARY)) return;
  Scope scope{*this, P_PRIMARY};
  ++nodes;
  if (!rich(d)) {
    if (t.chance(1, 2))
      literal();
    else
      name();
    return;
  }
  switch (t.weighted({30, 25, 12, 3, 3, 10, 4, 4, 4, 3, 2, 3})) {
    case 0:
      name();
      break;
    case 1:
      literal();
      break;
    case 2:
      name();
      p(".");
      name();
      break;
    case 3:
      p("*");
      break;
    case 4:
      name();
      p(".");
      p("*");
      break;
    case 5:
      p("(");
      expr(d + 1);
      p(")");
      break;
    case 6:
      function(d + 1);
      break;
    case 7:
      caseExpr(d + 1);
      break;
    case 8:
      k("CAST");
      p("(");
      expr(d + 1);
      k("AS");
      columnType();
      p(")");
      break;
    case 9:
      k("EXTRACT");
      p("(");
      k(kUnits[t.below(6)]);
      k("FROM");
      expr(d + 1);
      p(")");
      break;
    case 10:
      k("ARRAY");
      p("[");
      exprList(d + 1, false);
      p("]");
      break;
    default:
      parenSelect(d + 1);
  }
}
void Gen::frame() {
  k(t.below(3) == 0 ? "RANGE" : t.chance(1, 2) ? "ROWS" : "GROUPS");
  auto bound = [&] {
    switch (t.below(3)) {
      case 0:
        k("CURRENT_ROW");
        break;
      case 1:
        k("UNBOUNDED");
        k(t.chance(1, 2) ? "PRECEDING" : "FOLLOWING");
        break;
      default:
        integer();
        k(t.chance(1, 2) ? "PRECEDING" : "FOLLOWING");
    }
  };
  if (t.chance(2, 3)) {
    k("BETWEEN");
    bound();
    k("AND");
    bound();
  } else {
    bound();
  }
}
void Gen::function(int d) {
  name();
  if (t.chance(1, 5)) {
    p(".");
    name();
  }
  p("(");
  if (!t.chance(1, 6)) {
    if (t.chance(1, 5)) k("DISTINCT");
    exprList(d, t.chance(1, 6));
  }
  p(")");
  if (t.chance(1, focus == F_EXPR ? 2 : 4)) {
    k("OVER");
    p("(");
    if (t.chance(1, 2)) {
      k("PARTITION BY");
      exprList(d, false);
    }
    if (t.chance(1, 2)) orderBy(d);
    if (t.chance(1, 2)) frame();
    p(")");
  }
}
void Gen::caseExpr(int d) {
  k("CASE");
  if (t.chance(1, 2)) expr(d);
  uint32_t n = listSize(1, 2, 12);
  for (uint32_t i = 0; i < n; ++i) {
    k("WHEN");
    expr(d);
    k("THEN");
    expr(d);
  }
  if (t.chance(1, 2)) {
    k("ELSE");
    expr(d);
  }
  k("END");
}
void Gen::exprList(int d, bool aliases) {
  uint32_t n = listSize(1, 2, 30);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    expr(d);
    if (aliases && t.chance(1, 3)) {
      if (t.chance(1, 2)) k("AS");
      name();
    }
  }
}
void Gen::orderBy(int d) {
  k("ORDER BY");
  uint32_t n = listSize(1, 2, 20);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    expr(d + 1);
    switch (t.below(3)) {
      case 1: k("ASC"); break;
      case 2: k("DESC"); break;
      default: break;
    }
    if (t.chance(1, 4)) {
      out.push_back({WORD, randomCase(t, "nulls")});
      out.push_back({WORD, randomCase(t, t.chance(1, 2) ? "first" : "last")});
    }
  }
}

// ---------------------------------------------------------------- queries
void Gen::selectClause(int d) {
  if (again(P_QUERY)) return;
  Scope scope{*this, P_QUERY};
  ++nodes;
  if (idioms && nodes <= maxNodes && t.chance(1, 10)) {
    idiom(kQueryIdioms[t.below(sizeof kQueryIdioms / sizeof *kQueryIdioms)], d);
    return;
  }
  bool r = rich(d);
  k("SELECT");
  if (t.chance(1, 12)) {
    k("TOP");
    integer();
  }
  if (t.chance(1, 6)) k("DISTINCT");
  if (r)
    exprList(d + 1, true);
  else
    primary(d + 1);
  if (!t.chance(1, 6)) {
    k("FROM");
    if (r)
      tableRef(d + 1);
    else
      tableName();
  }
  if (t.chance(1, 3)) {
    k("WHERE");
    expr(d + 1);
  }
  if (r && t.chance(1, 5)) {
    k("GROUP BY");
    exprList(d + 1, t.chance(1, 8));
    if (t.chance(1, 2)) {
      k("HAVING");
      expr(d + 1);
    }
  }
}
void Gen::limit(int d) {
  switch (t.below(4)) {
    case 0:
      k("LIMIT");
      expr(d + 2);
      break;
    case 1:
      k("LIMIT");
      expr(d + 2);
      k("OFFSET");
      expr(d + 2);
      break;
    case 2:
      k("OFFSET");
      expr(d + 2);
      break;
    default:
      k("LIMIT ALL");
      if (t.chance(1, 2)) {
        k("OFFSET");
        expr(d + 2);
      }
  }
}
void Gen::lockings() {
  uint32_t n = t.size(1, 2, 6);
  for (uint32_t i = 0; i < n; ++i) {
    static const char* m[] = {"FOR UPDATE", "FOR NO KEY UPDATE", "FOR SHARE", "FOR KEY SHARE"};
    k(m[t.below(4)]);
    if (t.chance(1, 2)) {
      k("OF");
      names(8);
    }
    switch (t.below(3)) {
      case 1: k("NOWAIT"); break;
      case 2: k("SKIP LOCKED"); break;
      default: break;
    }
  }
}
void Gen::setOp() {
  static const char* s[] = {"UNION", "UNION ALL", "INTERSECT", "INTERSECT ALL", "EXCEPT", "EXCEPT ALL"};
  k(s[t.below(6)]);
}
void Gen::selectWithin(int d, int chain) {
  if (rich(d) && t.chance(1, 3)) {
    selectWithParen(d);
    return;
  }
  selectClause(d);
  if (chain > 0 && rich(d) && t.chance(1, 2)) {
    setOp();
    selectWithin(d, chain - 1);
  }
}
void Gen::selectNoParen(int d) {
  selectClause(d);
  bool set = rich(d) && t.chance(1, focus == F_SETOPS ? 2 : 10);
  if (set) {
    setOp();
    selectWithin(d, 4);
  }
  if (t.chance(1, set ? 2 : 4)) orderBy(d);
  if (t.chance(1, set ? 2 : 4)) limit(d);
  if (t.chance(1, 8)) lockings();
}
void Gen::selectWithParen(int d) {
  uint32_t n = t.chance(1, 8) ? 2 : 1;
  for (uint32_t i = 0; i < n; ++i) p("(");
  selectNoParen(d + 1);
  for (uint32_t i = 0; i < n; ++i) p(")");
}
void Gen::parenSelect(int d) {
  p("(");
  selectNoParen(d);
  p(")");
}
void Gen::selectStatement(int d) {
  if (rich(d) && t.chance(1, 8)) {
    k("WITH");
    uint32_t n = listSize(1, 2, 8);
    for (uint32_t i = 0; i < n; ++i) {
      if (i) p(",");
      name();
      k("AS");
      selectWithParen(d + 1);
    }
  }
  if (t.chance(1, focus == F_SETOPS ? 3 : 12)) {
    selectWithParen(d);
    if (t.chance(2, 3)) {
      setOp();
      selectWithin(d, 4);
      if (t.chance(1, 2)) orderBy(d);
      if (t.chance(1, 2)) limit(d);
    }
  } else {
    selectNoParen(d);
  }
}
void Gen::nonJoin(int d) {
  if (again(P_TABLE)) return;
  Scope scope{*this, P_TABLE};
  ++nodes;
  if (rich(d) && t.chance(1, focus == F_FROM ? 5 : 7)) {
    p("(");
    selectStatement(d + 1);
    p(")");
  } else {
    tableName();
  }
  if (t.chance(1, 3)) {
    if (t.chance(1, 2)) {
      k("AS");
      name();
      if (t.chance(1, 3)) {
        p("(");
        names(6);
        p(")");
      }
    } else {
      name();
    }
  }
}
void Gen::tableAtomic(int d, int joins) {
  nonJoin(d);
  for (int i = 0; i < joins; ++i) {
    if (t.chance(1, 6)) {
      k("NATURAL JOIN");
      nonJoin(d);
      continue;
    }
    static const char* j[] = {"JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "RIGHT JOIN", "RIGHT OUTER JOIN", "FULL JOIN", "FULL OUTER JOIN", "OUTER JOIN", "CROSS JOIN"};
    k(j[t.below(10)]);
    // The right side may have joins of its own, closed by its own condition.
    tableAtomic(d, t.chance(1, 5) ? (int)t.range(1, 2) : 0);
    if (t.chance(3, 4)) {
      k("ON");
      expr(d + 1);
    } else {
      k("USING");
      p("(");
      names(6);
      p(")");
    }
  }
}
void Gen::tableRef(int d) {
  uint32_t n = rich(d) && t.chance(1, focus == F_FROM ? 2 : 5) ? t.size(2, 3, 12) : 1;
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    int joins = 0;
    if (rich(d) && t.chance(1, focus == F_FROM ? 2 : 4)) joins = (int)t.size(1, 2, 8);
    tableAtomic(d, joins);
  }
}

// ---------------------------------------------------------------- statements
void Gen::references() {
  k("REFERENCES");
  tableName();
  if (t.chance(1, 2)) {
    p("(");
    names(6);
    p(")");
  }
}
void Gen::columnDef(bool conflictFree) {
  name();
  columnType();
  uint32_t n = t.chance(1, 2) ? t.size(1, 2, 6) : 0;
  bool canNull = true, canNot = true;
  for (uint32_t i = 0; i < n; ++i) switch (t.below(5)) {
      case 0:
        if (conflictFree && !canNot) break;
        k("NOT NULL");
        canNull = false;
        break;
      case 1:
        if (conflictFree && !canNull) break;
        k("NULL");
        canNot = false;
        break;
      case 2:
        k("UNIQUE");
        break;
      case 3:
        if (conflictFree && !canNot) break;
        k("PRIMARY KEY");
        canNull = false;
        break;
      default:
        references();
    }
}
void Gen::tableElements() {
  uint32_t n = listSize(1, 3, 40);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    switch (t.weighted({75, 8, 8, 9})) {
      case 0: columnDef(); break;
      case 1:
        k("PRIMARY KEY");
        p("(");
        names();
        p(")");
        break;
      case 2:
        k("UNIQUE");
        p("(");
        names();
        p(")");
        break;
      default:
        k("FOREIGN KEY");
        p("(");
        names();
        p(")");
        references();
    }
  }
}
void Gen::copyOptions(bool valid) {
  if (t.chance(1, 2)) k("WITH");
  p("(");
  std::vector<int> o;
  if (valid) {
    // FORMAT, ENCODING, DELIMITER, NULL, QUOTE, each at most once; CSV options with CSV only.
    bool csvOpts = false;
    for (int i = 1; i < 5; ++i)
      if (t.chance(1, 2)) {
        o.push_back(i);
        csvOpts |= i > 1;
      }
    int format = t.chance(1, 2) ? (csvOpts ? 0 : (int)t.below(3)) : -1;
    if (format >= 0) o.push_back(10 + format);
    if (o.empty()) o.push_back(1);
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[t.below((uint32_t)i)]);
  } else {
    uint32_t n = t.range(1, 4);
    for (uint32_t i = 0; i < n; ++i) o.push_back(t.chance(1, 3) ? 10 + (int)t.below(4) : 1 + (int)t.below(5));
  }
  for (size_t i = 0; i < o.size(); ++i) {
    if (i) p(",");
    auto word = [&](const char* w) { out.push_back({WORD, randomCase(t, w)}); };
    switch (o[i]) {
      case 1: k("ENCODING"); break;
      case 2: word("delimiter"); break;
      case 3: k("NULL"); break;
      case 4: word("quote"); break;
      case 5: name(); break;
      default:
        k("FORMAT");
        word(o[i] == 10 ? "csv" : o[i] == 11 ? "tbl" : o[i] == 12 ? (t.chance(1, 2) ? "binary" : "bin") : "xls");
        continue;
    }
    str();
  }
  p(")");
}
void Gen::hints() {
  k("WITH HINT");
  p("(");
  uint32_t n = listSize(1, 2, 10);
  for (uint32_t i = 0; i < n; ++i) {
    if (i) p(",");
    name();
    if (t.chance(1, 2)) {
      p("(");
      extendedLiterals();
      p(")");
    }
  }
  p(")");
}
const char* statementName(Gen::St s) {
  static const char* n[] = {"SELECT", "INSERT", "UPDATE", "DELETE", "TRUNCATE", "CREATE TABLE", "CREATE TABLE AS", "CREATE TABLE FROM", "CREATE INDEX", "CREATE VIEW",
                            "DROP", "DEALLOCATE", "ALTER", "PREPARE", "EXECUTE", "TRANSACTION", "SHOW", "IMPORT", "COPY"};
  return n[s];
}
Gen::St Gen::anyStatement() {
  return (St)t.weighted({40, 8, 6, 5, 2, 8, 2, 2, 3, 3, 4, 2, 3, 3, 4, 4, 3, 3, 6});
}
void Gen::statement(St s) {
  bool canHint = true;
  static const char* formats[] = {"csv", "tbl", "binary", "bin"};
  switch (s) {
    case SELECT:
      selectStatement(0);
      break;
    case INSERT:
      k("INSERT INTO");
      tableName();
      if (t.chance(1, 2)) {
        p("(");
        names();
        p(")");
      }
      if (t.chance(2, 3)) {
        k("VALUES");
        p("(");
        extendedLiterals();
        p(")");
      } else {
        selectNoParen(1);
      }
      break;
    case UPDATE: {
      k("UPDATE");
      tableName();
      k("SET");
      uint32_t n = listSize(1, 2, 12);
      for (uint32_t i = 0; i < n; ++i) {
        if (i) p(",");
        Scope scope{*this, P_ASSIGNMENT};
        if (again(P_ASSIGNMENT)) continue;
        name();
        p("=");
        expr(1);
      }
      if (t.chance(1, 2)) {
        k("WHERE");
        // As a condition only where its value is one token: comparisons do not associate.
        if (!t.chance(1, 8) || !again(P_ASSIGNMENT, 3)) expr(0);
        if (t.chance(1, 20)) {
          k("AND");
          if (!again(P_ASSIGNMENT, 3)) predicate(0);
        }
      }
      break;
    }
    case DELETE:
      k("DELETE FROM");
      tableName();
      if (t.chance(2, 3)) {
        k("WHERE");
        expr(0);
      }
      break;
    case TRUNCATE:
      k("TRUNCATE");
      tableName();
      break;
    case CREATE_TABLE:
    case CREATE_AS:
    case CREATE_FROM:
      k("CREATE TABLE");
      if (t.chance(1, 3)) k("IF NOT EXISTS");
      tableName();
      if (s == CREATE_TABLE) {
        p("(");
        tableElements();
        p(")");
      } else if (s == CREATE_AS) {
        k("AS");
        selectStatement(1);
      } else {
        k("FROM");
        out.push_back({WORD, randomCase(t, "tbl")});
        k("FILE");
        str();
      }
      break;
    case CREATE_INDEX:
      k("CREATE INDEX");
      if (t.chance(1, 3)) k("IF NOT EXISTS");
      if (t.chance(3, 4)) name();
      k("ON");
      tableName();
      p("(");
      names();
      p(")");
      break;
    case CREATE_VIEW:
      k("CREATE VIEW");
      if (t.chance(1, 3)) k("IF NOT EXISTS");
      tableName();
      if (t.chance(1, 2)) {
        p("(");
        names();
        p(")");
      }
      k("AS");
      selectStatement(1);
      break;
    case DROP:
      switch (t.below(3)) {
        case 0: k("DROP TABLE"); break;
        case 1: k("DROP VIEW"); break;
        default:
          k("DROP INDEX");
          if (t.chance(1, 2)) k("IF EXISTS");
          name();
          goto done;
      }
      if (t.chance(1, 2)) k("IF EXISTS");
      tableName();
    done:
      break;
    case DEALLOCATE:
      k("DEALLOCATE PREPARE");
      name();
      break;
    case ALTER:
      k("ALTER TABLE");
      if (t.chance(1, 2)) k("IF EXISTS");
      tableName();
      k("DROP COLUMN");
      if (t.chance(1, 2)) k("IF EXISTS");
      name();
      break;
    case PREPARE:
      k("PREPARE");
      name();
      k("FROM");
      if (t.chance(1, 2))
        str();
      else
        preparedText();
      break;
    case EXECUTE:
      k("EXECUTE");
      name();
      if (t.chance(3, 4)) {
        p("(");
        if (!t.chance(1, 6)) extendedLiterals();
        p(")");
      }
      break;
    case TRANSACTION: {
      static const char* c[] = {"BEGIN", "COMMIT", "ROLLBACK"};
      k(c[t.below(3)]);
      if (t.chance(1, 2)) k("TRANSACTION");
      break;
    }
    case SHOW:
      canHint = false;
      switch (t.below(3)) {
        case 0: k("SHOW TABLES"); break;
        case 1:
          k("SHOW COLUMNS");
          tableName();
          break;
        default:
          k("DESCRIBE");
          tableName();
      }
      break;
    case IMPORT:
      canHint = false;
      k("IMPORT FROM");
      out.push_back({WORD, randomCase(t, formats[t.below(4)])});
      k("FILE");
      str();
      k("INTO");
      tableName();
      break;
    default:
      canHint = false;
      k("COPY");
      if (t.chance(1, 4)) {
        selectWithParen(1);
        k("TO");
        str();
        if (t.chance(2, 3)) copyOptions();
      } else {
        tableName();
        bool imp = t.chance(1, 2);
        k(imp ? "FROM" : "TO");
        str();
        if (t.chance(2, 3)) copyOptions();
        if (imp && t.chance(1, 2)) {
          k("WHERE");
          expr(0);
        }
      }
  }
  if (canHint && t.chance(1, 10)) hints();
}

Toks Session::next() {
  static const std::vector<std::vector<Gen::St>> stories = {
      {Gen::DROP, Gen::CREATE_TABLE, Gen::INSERT, Gen::INSERT, Gen::SELECT}, {Gen::PREPARE, Gen::EXECUTE, Gen::EXECUTE, Gen::DEALLOCATE},       {Gen::TRANSACTION, Gen::INSERT, Gen::UPDATE, Gen::TRANSACTION},
      {Gen::UPDATE, Gen::DELETE, Gen::SELECT},                               {Gen::CREATE_TABLE, Gen::CREATE_TABLE, Gen::CREATE_INDEX},          {Gen::IMPORT, Gen::SELECT, Gen::COPY},
      {Gen::CREATE_VIEW, Gen::SELECT, Gen::DROP},                            {Gen::COPY, Gen::COPY},                                             {Gen::TRANSACTION, Gen::SELECT, Gen::TRANSACTION},
      {Gen::INSERT, Gen::DELETE, Gen::TRUNCATE},                             {Gen::SHOW, Gen::SHOW, Gen::SELECT},                                {Gen::ALTER, Gen::SHOW, Gen::INSERT, Gen::SELECT}};
  if (!story) story = 1 + t.below((uint32_t)stories.size() + 4);
  size_t from = g.out.size();
  g.nodes = 0;
  if (last > first && t.chance(1, 5)) {
    // The statement before, with one part of it exchanged.
    Toks copy(g.out.begin() + (long)first, g.out.begin() + (long)last);
    for (int tries = 0; tries < 5; ++tries) {
      auto& k = copy[t.below((uint32_t)copy.size())];
      Gen one(t);
      one.wildNames = one.wildLiterals = false;
      if (k.kind == NAME) one.name();
      else if (k.kind == NUM && k.text.find_first_not_of("0123456789") == std::string::npos) one.integer();
      else continue;
      if (one.out.size() == 1 && one.out[0].kind == k.kind) k = one.out[0];
      break;
    }
    g.out.insert(g.out.end(), copy.begin(), copy.end());
  } else {
    Gen::St kind = g.anyStatement();
    if (story <= stories.size() && t.chance(3, 4)) kind = stories[story - 1][count % stories[story - 1].size()];
    else if (count && t.chance(1, 4)) kind = lastKind;
    g.statement(kind);
    lastKind = kind;
  }
  first = from;
  last = g.out.size();
  ++count;
  return Toks(g.out.begin() + (long)first, g.out.begin() + (long)last);
}

Toks statements(Tape& t, uint32_t max, std::vector<size_t>* starts) {
  Toks all;
  uint32_t n = t.size(1, 3, max);
  bool related = n <= 12 && t.chance(1, 3);
  Session session(t, 25);
  for (uint32_t i = 0; i < n; ++i) {
    Gen g(t);
    g.maxNodes = 25;
    if (starts) starts->push_back(all.size());
    if (related) g.out = session.next();
    else g.statement(g.anyStatement());
    all.insert(all.end(), g.out.begin(), g.out.end());
    if (i + 1 < n || t.chance(1, 2)) all.push_back({PUNCT, ";"});
  }
  return all;
}

// ---------------------------------------------------------------- rendering
std::string foreign(Tape& t, const std::string& s) {
  auto each = [&](const std::function<std::string(char)>& f) {
    std::string o;
    for (char c : s) o += f(c);
    return o;
  };
  auto instead = [&](char what, const std::string& by) { return each([&](char c) { return c == what ? by : std::string(1, c); }); };
  static const std::string z(1, '\0'), z3(3, '\0');
  switch (t.below(26)) {
    case 0: return each([](char c) { return std::string(1, c) + z; });
    case 1: return each([](char c) { return z + c; });
    case 2: return "\xFF\xFE" + each([](char c) { return std::string(1, c) + z; });
    case 3: return "\xFE\xFF" + each([](char c) { return z + c; });
    case 4: return each([](char c) { return c + z3; });
    case 5: return each([](char c) { return z3 + c; });
    case 6: {
      static const std::vector<std::string> blanks = {"\xC2\xA0", "\xE3\x80\x80", "+", "%20", "\v", "\f", "&nbsp;", "_", "\xA0", "\xE2\x80\x83", "\\t", "\0"};
      return instead(' ', t.pick(blanks));
    }
    case 7: {
      static const std::vector<std::string> quotes = {"\xE2\x80\x98", "\xE2\x80\x99", "`", "\\'", "&apos;", "%27", "\xB4", "$$", "\"", "\x91", "''"};
      return instead('\'', t.pick(quotes));
    }
    case 8: {
      static const std::vector<std::string> quotes = {"\xE2\x80\x9C", "`", "\\\"", "&quot;", "%22", "\x93", "'", "[", "\"\""};
      return instead('"', t.pick(quotes));
    }
    case 9: return instead('<', "&lt;");
    case 10: return instead('>', "&gt;");
    case 11: return instead(';', t.chance(1, 2) ? "\nGO\n" : "\\G");
    case 12: return instead('\n', t.chance(1, 2) ? "\\n" : "\r");
    case 13: return instead('*', "\xC3\x97");
    case 14: return instead('-', "\xE2\x80\x93");
    case 15: return each([](char c) { return std::string(1, (char)(c | 0x80)); });
    case 16: return each([](char c) { return isalpha((unsigned char)c) ? "\xEF\xBC" + std::string(1, (char)(0xA1 + ((c & 31) - 1))) : std::string(1, c); });
    case 17: {
      static const std::vector<std::pair<std::string, std::string>> around = {{"{", "}"}, {"[", "]"}, {"`", "`"}, {"\"", "\""}, {"'", "'"}, {"(", ")"}, {"((", "))"}, {"<sql>", "</sql>"}, {"/*", "*/"}, {"/*! ", " */"}, {"BEGIN; ", "; END"}, {"{call ", "}"},
                                                                             {"EXPLAIN ", ""}, {"", " -- "}, {"exec('", "')"}, {"```sql\n", "\n```"}, {"$$", "$$"}, {"", "\\g"}, {"", "\x1A"}, {"", "\n/\n"}, {"", "\n.\n"}, {"", "%"}, {"b'", "'"}, {"", " GO"}, {"", "\nquit"}};
      auto& a = t.pick(around);
      return a.first + s + a.second;
    }
    case 18: {
      static const std::vector<std::string> prompts = {"> ", "sql> ", "# ", "$ ", "| ", "% ", "1. ", ">>> ", "; ", "* ", "- ", "\\"};
      std::string p = t.pick(prompts), o = p;
      for (char c : s) {
        o += c;
        if (c == '\n') o += p;
      }
      return o;
    }
    case 19: return std::string(s.rbegin(), s.rend());
    case 20: {
      // Blocks padded with zeros or other things.
      static const char pads[] = {'\0', ' ', '\n', '\x1A', '\xFF', ';', '\x04'};
      char p = pads[t.below(7)];
      size_t n = 1u << t.range(3, 12);
      return s + std::string((n - s.size() % n) % n, p);
    }
    case 21: return s + s;
    case 22: return s + z + s;
    case 23: {
      // With its length before it.
      uint32_t n = (uint32_t)s.size();
      return (t.chance(1, 2) ? std::string((const char*)&n, 4) : std::to_string(n) + ":") + s;
    }
    case 24: return each([](char c) { return (unsigned char)c < 33 || c == '%' || (unsigned char)c > 126 ? "%" + std::string(1, "0123456789ABCDEF"[(c >> 4) & 15]) + std::string(1, "0123456789ABCDEF"[c & 15]) : std::string(1, c); });
    default: return each([](char c) { return (unsigned char)c > 127 ? "\xC3" + std::string(1, (char)(c & 0xBF)) : std::string(1, c); });
  }
}
std::string randomCase(Tape& t, const std::string& s) {
  std::string o = s;
  uint32_t mode = t.below(3);
  uint64_t m = mode == 2 ? t.bits64() : 0;
  for (size_t i = 0; i < o.size(); ++i) {
    bool low = mode == 1 || (mode == 2 && (m >> (i % 64) & 1));
    if (o[i] >= 'A' && o[i] <= 'Z' && low) o[i] = (char)(o[i] + 32);
    else if (o[i] >= 'a' && o[i] <= 'z' && !low) o[i] = (char)(o[i] - 32);
  }
  return o;
}
std::string comment(Tape& t) {
  std::string c = "--";
  switch (t.weighted({20, 30, 20})) {
    case 0:
      break;
    case 1: {
      static const std::vector<std::string> v = {"", " x", "'", "\"", ";", "?", " it's", "--", " SELECT 1;", "\r", " \t ", " \\", "*/", " a -- b", "\xff", "'; DROP TABLE t; --", "-", " '?' \"?\""};
      c += t.pick(v);
      break;
    }
    default: {
      uint32_t n = t.size(1, 12, 400);
      for (uint32_t i = 0; i < n; ++i) {
        char b = (char)t.below(256);
        c += b == '\n' ? '-' : b;
      }
    }
  }
  return c;
}
std::string separator(Tape& t, bool required, const Layout& l) {
  if (!l.tight) required = true;
  switch (t.weighted({60, 25, 10, l.comments ? 8u : 0u})) {
    case 0:
      return required || !l.tight ? " " : t.chance(1, 2) ? "" : " ";
    case 1: {
      static const char* w[] = {" ", "\n", "\t", "\r\n", "  ", "\n\n", "\n  ", "\r", " \n", "\t\r\n\t"};
      return w[t.below(10)];
    }
    case 2: {
      std::string s;
      if (t.chance(1, 10)) {
        // A long run of the same, perhaps with a comment behind it.
        s.assign(t.chance(1, 2) ? t.range(8, 140) : (1u << t.range(3, 9)) + t.below(3) - 1, " \n\t "[t.below(4)]);
        if (l.comments && t.chance(1, 2)) s += comment(t) + "\n";
        return s;
      }
      uint32_t n = t.size(1, 3, 40);
      for (uint32_t i = 0; i < n; ++i) s += " \n\t\r"[t.below(4)];
      return s;
    }
    default: {
      std::string s;
      uint32_t n = t.size(1, 1, 3);
      for (uint32_t i = 0; i < n; ++i) {
        if (t.chance(1, 2)) s += ' ';
        s += comment(t) + "\n";
        if (t.chance(1, 3)) s += t.chance(1, 2) ? "  " : "\n\t";
      }
      return s;
    }
  }
}
static bool wordish(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.'; }
bool needsSeparator(const std::string& a, const std::string& b) {
  if (a.empty() || b.empty()) return false;
  char x = a.back(), y = b[0];
  if (wordish(x) && wordish(y)) {
    // "a." and ".b" may touch.
    bool dotted = (a == "." || b == ".");
    if (!dotted) return true;
    auto r = ref::lex(a + b);
    return r.size() != 2 || r[0].text != a || r[1].text != b;
  }
  if (x == '\'' && y == '\'') return true;
  static const std::string ops = "=!<>|-+";
  if (ops.find(x) != std::string::npos && ops.find(y) != std::string::npos) return true;
  if (x == '-' && y >= '0' && y <= '9') return true;  // the smallest integer is one token
  return false;
}
// Two tokens that would be one with only blanks between them.
static bool pairs(const std::string& a, const std::string& b) {
  auto starts = [](const std::string& x, const char* w) {
    size_t n = strlen(w);
    return x.size() >= n && strncasecmp(x.c_str(), w, n) == 0;
  };
  return (a.size() == 7 && starts(a, "current") && starts(b, "row")) || (a.size() == 9 && starts(a, "character") && starts(b, "varying"));
}
uint32_t edgeLength(Tape& t) {
  static const uint32_t edges[] = {127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535, 65535, 65535};
  if (t.chance(1, 6)) {
    uint64_t n = t.nearMined();
    if (n >= 3 && n <= 200000) return (uint32_t)n;
  }
  return t.chance(1, 4) ? t.range(200, 100000) : edges[t.below(12)] + t.below(4);
}
uint32_t swell(Tape& t, Toks& toks) {
  std::vector<size_t> at;
  for (size_t i = 0; i < toks.size(); ++i)
    if (toks[i].kind == NAME || toks[i].kind == STR) at.push_back(i);
  if (at.empty()) return 0;
  auto& k = toks[t.pick(at)];
  // In the middle, so that both ends stay what they were; not in a date or an interval.
  if (k.text.size() < 3 || (k.kind == STR && k.text.find_first_of("0123456789") != std::string::npos)) return 0;
  uint32_t n = edgeLength(t);
  if (n <= k.text.size()) return 0;
  size_t mid = 1;
  std::string more;
  for (size_t i = 0; i < n - k.text.size(); ++i) more += (char)('a' + (i * 7 + i / 64) % 26);
  k.text.insert(mid, more);
  return n;
}
std::string hugeSeparator(Tape& t) {
  uint32_t n = edgeLength(t);
  switch (t.below(4)) {
    case 0: return std::string(n, ' ');
    case 1: return std::string(n, '\n');
    case 2: return "--" + std::string(n, 'x') + "\n";
    default: {
      std::string s;
      for (uint32_t i = 0; i < n; ++i) s += " \t\n"[(i / 5) % 3];
      return s;
    }
  }
}
std::string render(Tape& t, const Toks& toks, const Layout& l) {
  std::string s;
  size_t hugeAt = l.huge && !toks.empty() ? t.below((uint32_t)toks.size()) : toks.size();
  if (hugeAt == 0) s += hugeSeparator(t);
  if (l.outer && t.chance(1, 4)) {
    // A header of comments and blanks now and then.
    uint32_t n = t.chance(1, 6) ? t.range(2, 8) : 1;
    for (uint32_t i = 0; i < n; ++i) s += separator(t, false, l);
  }
  std::string prev;
  for (size_t i = 0; i < toks.size(); ++i) {
    std::string x = toks[i].text;
    if (toks[i].kind == KW) {
      bool two = x == "CURRENT_ROW" || x == "CHARACTER_VARYING";
      if (l.randomCase) x = randomCase(t, x);
      if (two) {
        Layout w = l;
        w.comments = false;
        size_t u = x.find('_');
        x = x.substr(0, u) + separator(t, true, w) + x.substr(u + 1);
      }
    }
    if (i) {
      bool req = needsSeparator(prev, x);
      std::string sep = separator(t, req, l);
      if (sep.empty() && req) sep = " ";
      // "current row" as two names would be one token.
      if (sep.find("--") == std::string::npos && pairs(prev, x)) sep = "--\n";
      if (i == hugeAt) sep += (sep.find("--") != std::string::npos && sep.back() != '\n' ? "\n " : " ") + hugeSeparator(t);
      if (sep[0] == '-' && prev == "-") sep = " " + sep;
      s += sep;
    }
    s += x;
    prev = x;
  }
  if (l.outer && t.chance(1, 4)) {
    std::string sep = separator(t, false, l);
    if (!sep.empty() && sep[0] == '-' && prev == "-") sep = " " + sep;
    s += sep;
    if (l.comments && t.chance(1, 4)) s += " " + comment(t);  // not ended by a line break
  }
  return s;
}
std::string plain(const Toks& toks) {
  std::string s, prev;
  for (size_t i = 0; i < toks.size(); ++i) {
    std::string x = toks[i].text;
    if (toks[i].kind == KW) {
      if (x == "CURRENT_ROW") x = "CURRENT ROW";
      if (x == "CHARACTER_VARYING") x = "CHARACTER VARYING";
    }
    if (i) s += pairs(prev, x) ? " --\n" : " ";
    s += x;
    prev = x;
  }
  return s;
}

// ---------------------------------------------------------------- mutations
Tok randomToken(Tape& t) {
  static const std::vector<std::string> puncts = {"(", ")", ",", ".", ";", "*", "-", "+", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "/", "%", "^", "||", "[", "]", "{", "}", ":", "|"};
  switch (t.weighted({40, 25, 15, 6, 8, 4, 4})) {
    case 0: {
      std::string w = t.pick(ref::keywords());
      if (t.chance(1, 30)) w = t.chance(1, 2) ? "CURRENT_ROW" : "CHARACTER_VARYING";
      return {KW, w};
    }
    case 1: return {PUNCT, t.pick(puncts)};
    case 2: return {NAME, plainName(t, t.chance(1, 2))};
    case 3: return {NAME, quotedName(t)};
    case 4: return {NUM, t.chance(1, 2) ? intText(t) : floatText(t)};
    case 5: return {STR, quoteString(stringContent(t))};
    default: return {PARAM, "?"};
  }
}
const std::vector<std::string>& everyToken() {
  static const std::vector<std::string> all = [] {
    std::vector<std::string> v = ref::keywords();
    for (auto* s : {"(", ")", ",", ".", ";", "*", "-", "+", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "/", "%", "^", "||", "[", "]", "{", "}", ":", "|", "!", "&", "CURRENT_ROW", "CHARACTER_VARYING", "x", "\"x\"", "1", "0", "-1",
                    "9223372036854775808", "-9223372036854775808", "99999999999999999999", "1.5", ".5", "1.", "'s'", "''", "'2020-01-31'", "'1 day'", "'csv'", "?", "x.y", "x.*", "x.y.z", "( )", "(SELECT 1)", "-- x\n", ""})
      v.push_back(s);
    return v;
  }();
  return all;
}
std::string mutate(Tape& t, Toks& toks) {
  if (toks.empty()) return "none";
  uint32_t n = (uint32_t)toks.size();
  uint32_t i = t.below(n);
  switch (t.weighted({20, 20, 20, 10, 8, 8, 6, 8, 40, 16})) {
    case 9: {
      // What other dialects have, next to or instead of a token.
      static const std::vector<const char*> phrases = {
          "EXPLAIN", "EXPLAIN ANALYZE", "LIMIT 5 , 10", "LIMIT ALL", "OFFSET 5 ROWS", "FETCH FIRST 5 ROWS ONLY", "TOP ( 5 )", "TOP 5 PERCENT", ": : INT", "RETURNING *", "RETURNING a", "ON CONFLICT DO NOTHING", "ON DUPLICATE KEY UPDATE a = 1",
          ", ( 2 , 3 )", "DEFAULT 5", "DEFAULT VALUES", "DEFAULT", "CHECK ( a > 0 )", "AUTO_INCREMENT", "COLLATE x", "CROSS APPLY", "FULL OUTER JOIN t2", "LATERAL", "IS TRUE", "IS NOT TRUE", "IS UNKNOWN", "IS DISTINCT FROM b", "SIMILAR TO 'x'",
          "NOT BETWEEN 1 AND 2", "NOT ILIKE 'x'", "LIKE 'x' ESCAPE '!'", "REGEXP 'x'", "< = > 1", "= ANY ( SELECT a )", "= ALL ( SELECT a )", "CREATE OR REPLACE", "CREATE TEMPORARY TABLE", "IF EXISTS", "IF NOT EXISTS", "CASCADE", "RESTRICT",
          "ADD COLUMN a INT", "RENAME TO x", "DROP COLUMN IF EXISTS a", "UNIQUE INDEX", "ON DELETE CASCADE", "GENERATED ALWAYS", "WITH RECURSIVE", "RECURSIVE", "AS MATERIALIZED", "EXCEPT ALL", "INTERSECT DISTINCT", "UNION DISTINCT", "MINUS", "SELECT ALL",
          "DISTINCT ON ( a )", "GROUP BY ALL", "GROUP BY ROLLUP ( a )", "WITH TIES", "NULLS FIRST", "NULLS LAST", "USING ( a )", "FILTER ( WHERE a )", "WITHIN GROUP ( ORDER BY a )", "OVER w", "OVER ( )", "WINDOW w AS ( )", "EXCLUDE CURRENT ROW",
          "ROWS 5 PRECEDING", "RANGE BETWEEN CURRENT ROW AND CURRENT ROW", "ROW ( 1 , 2 )", "( 1 , 2 )", "( )", "a . b . c", "a . *", "b . a . *", "* , a", "a . b . *", "ARRAY ( 1 )", "[ 1 : 2 ]", "{ d '2020-01-01' }", "TIMESTAMP '2020-01-01'", "TIME '10:00'", "X 'ff'",
          "N 'x'", "E 'x'", "INTERVAL 5 DAYS", "INTERVAL '5' DAY", "5 DAY", "CURRENT_DATE", "CURRENT ROW", "NEXT VALUE FOR s", "CAST ( a AS VARCHAR )", "EXTRACT ( EPOCH FROM a )", "EXTRACT ( WEEK FROM a )", "SUBSTRING ( a FROM 1 FOR 2 )", "TRIM ( BOTH FROM a )",
          "POSITION ( a IN b )", "COALESCE ( a , b )", "COUNT ( * )", "COUNT ( DISTINCT * )", "f ( a := 1 )", "f ( ALL a )", "f ( a ORDER BY a )", "FOR UPDATE OF a , b", "FOR NO KEY UPDATE", "FOR SHARE SKIP LOCKED", "FOR UPDATE WAIT 5", "LOCK IN SHARE MODE",
          "START TRANSACTION", "BEGIN WORK", "COMMIT WORK", "ROLLBACK TO SAVEPOINT a", "SAVEPOINT a", "END", "ABORT", "SET TRANSACTION", "SHOW DATABASES", "SHOW TABLES LIKE 'x'", "SHOW COLUMNS FROM a", "DESC a", "USE a", "GRANT ALL ON t TO a", "VACUUM", "CALL f ( )", "MERGE INTO t",
          "REPLACE INTO t", "INSERT OVERWRITE", "INSERT t VALUES ( 1 )", "VALUES ( 1 )", "TABLE t", "UPDATE ONLY t", "UPDATE t AS x", "FROM u", "DELETE t", "DELETE FROM t USING u", "TRUNCATE TABLE t", "TRUNCATE t CASCADE", "ORDER BY a LIMIT 1", "SET a = DEFAULT",
          "SET ( a , b ) = ( 1 , 2 )", "a += 1", "DROP DATABASE a", "DROP TABLE a , b", "DROP INDEX a ON t", "DROP PREPARED STATEMENT a", "ALTER COLUMN a TYPE INT", "CREATE SCHEMA a", "CREATE TABLE t LIKE u", "CREATE TABLE t ( LIKE u )", "AS SELECT 1 WITH DATA",
          "DECIMAL ( 5 )", "DECIMAL ( 5 , 2 , 1 )", "NUMERIC ( 5 , 2 )", "FLOAT ( 5 )", "DOUBLE PRECISION", "VARCHAR", "CHAR", "TEXT ( 5 )", "INT ( 11 )", "UNSIGNED", "TIME WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE", "CHARACTER VARYING ( 5 )", "INT [ ]", "BOOL",
          "HINT ( )", "WITH HINT ( )", "WITH HINT ( a ( ) )", "OPTION ( a )", "/ * + a * /", "PREPARE a AS SELECT 1", "PREPARE a ( INT ) FROM 'x'", "EXECUTE a USING 1", "EXECUTE a ( )", "DEALLOCATE a", "DEALLOCATE ALL", "DEALLOCATE PREPARE ALL", "COPY t ( a ) FROM 'x'",
          "FROM STDIN", "TO STDOUT", "FROM PROGRAM 'x'", "WITH ( HEADER )", "WITH ( FORMAT )", "( FORMAT csv , )", "LOAD DATA INFILE 'x'", ": a", ": 1", "$ 1", "?1", "@ a", "# a", "! a", "~ a", "a & b", "a | b", "a << 1", "a >> 1", "a ** 2", "a -> b", "a DIV b", "a MOD b",
          "a XOR b", "a || b", "NOT NOT a", "+ a", "+ + 1", "- - 1", ", ,", "; ;", ". .", "( ( ) )", "1 .. 2", "1e5", "0x1f", "1_000", ".5", "5.", "'a' 'b'", "AS 'x'", "AS \"x\"", "AS x y", "AS x ( a , b )", "x ( a INT )", "TABLESAMPLE ( 10 )", "AS OF 5", "ONLY", "PIVOT"};
      Toks part;
      std::string word, phrase = t.pick(phrases);
      for (char ch : phrase + " ") {
        if (ch != ' ') {
          word += ch;
          continue;
        }
        if (word.empty()) continue;
        const unsigned char f = (unsigned char)word[0];
        part.push_back({f == '\'' ? STR : f == '?' && word.size() == 1 ? PARAM : isdigit(f) || (f == '.' && word.size() > 1 && isdigit((unsigned char)word[1])) ? NUM : islower(f) || f == '"' ? NAME : isupper(f) ? (ref::isKeyword(word) ? KW : NAME) : PUNCT, word});
        word.clear();
      }
      uint32_t at = t.below(n + 1), gone = t.chance(2, 3) ? 0 : t.below(3);
      gone = std::min(gone, n - at);
      toks.erase(toks.begin() + at, toks.begin() + at + gone);
      toks.insert(toks.begin() + at, part.begin(), part.end());
      return "dialect";
    }
    case 8: {
      // Replace by a related token.
      static const std::vector<std::vector<const char*>> groups = {
          {"+", "-", "*", "/", "%", "^", "||", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "AND", "OR", "LIKE", "ILIKE", ",", "IN", "IS", "."},
          {"(", "[", "{"},
          {")", "]", "}"},
          {"INNER", "LEFT", "RIGHT", "FULL", "CROSS", "NATURAL", "OUTER"},
          {"UNION", "INTERSECT", "EXCEPT", "MINUS"},
          {"ASC", "DESC"},
          {"ALL", "DISTINCT", "UNIQUE"},
          {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS", "YEARS"},
          {"INT", "INTEGER", "BIGINT", "LONG", "SMALLINT", "DOUBLE", "FLOAT", "REAL", "TEXT", "VARCHAR", "CHAR", "CHARACTER_VARYING", "DECIMAL", "DATE", "DATETIME", "TIME", "TIMESTAMP", "BOOLEAN", "NVARCHAR"},
          {"ROWS", "RANGE", "GROUPS"},
          {"PRECEDING", "FOLLOWING"},
          {"UPDATE", "SHARE"},
          {"NOWAIT", "SKIP", "LOCKED"},
          {"TO", "FROM", "INTO", "ON", "USING", "AS", "WITH"},
          {"TABLE", "VIEW", "INDEX", "COLUMN", "SCHEMA", "TABLES", "COLUMNS"},
          {"NULL", "TRUE", "FALSE", "DATE", "INTERVAL", "ARRAY", "CASE", "EXISTS", "NOT", "CAST", "EXTRACT"},
          {"NOT", "IF", "EXISTS", "DISTINCT", "TOP", "ALL"},
          {"WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "BY", "FOR", "UNION"},
          {"SELECT", "INSERT", "UPDATE", "DELETE", "TRUNCATE", "CREATE", "DROP", "ALTER", "PREPARE", "EXECUTE", "BEGIN", "COMMIT", "ROLLBACK", "SHOW", "DESCRIBE", "IMPORT", "COPY", "DEALLOCATE", "WITH"},
          {"COMMIT", "ROLLBACK", "BEGIN"},
          {"PRIMARY", "FOREIGN", "UNIQUE", "NULL", "NOT", "REFERENCES", "KEY"},
          {"WHEN", "THEN", "ELSE", "END"},
          {"ISNULL", "IS", "NOT", "IN", "BETWEEN"},
          {"FORMAT", "ENCODING", "NULL", "DELIMITER", "QUOTE", "FILE"},
          {"VALUES", "SET", "SELECT", "INTO"},
          {"CURRENT_ROW", "UNBOUNDED"},
          {"PREPARE", "TRANSACTION"},
          {"CASCADE", "RESTRICT", "TEMPORARY"},
          {"DATE", "INTERVAL", "CAST"},
          {"?", "1", "x", "'s'", "1.5", "NULL", "*", "-1"}};
      for (int tries = 0; tries < 8; ++tries, i = t.below(n)) {
        std::vector<const std::vector<const char*>*> fit;
        const bool atom = toks[i].kind != KW && toks[i].kind != PUNCT;
        for (auto& g : groups) {
          bool in = atom && &g == &groups.back();
          for (auto* x : g) in |= toks[i].kind != STR && toks[i].text == x;
          if (in) fit.push_back(&g);
        }
        if (fit.empty()) continue;
        std::string x = t.pick(*t.pick(fit));
        bool a = isalpha((unsigned char)x[0]) || x[0] == '-';
        toks[i] = {x == "x" ? NAME : x == "1" || x == "1.5" || x == "-1" ? NUM : x == "?" ? PARAM : x == "'s'" ? STR : x == "DELIMITER" || x == "QUOTE" ? WORD : a && x.size() > 1 ? KW : PUNCT, x};
        return "relative";
      }
      return "none";
    }
    case 0:
      toks.erase(toks.begin() + i);
      return "delete";
    case 1:
      toks.insert(toks.begin() + t.below(n + 1), randomToken(t));
      return "insert";
    case 2:
      toks[i] = randomToken(t);
      return "replace";
    case 3:
      toks.insert(toks.begin() + i, toks[i]);
      return "duplicate";
    case 4:
      if (i + 1 < n) std::swap(toks[i], toks[i + 1]);
      return "swap";
    case 5: {
      // Copy a range elsewhere.
      uint32_t len = t.range(1, std::min<uint32_t>(6, n - i));
      Toks part(toks.begin() + i, toks.begin() + i + len);
      toks.insert(toks.begin() + t.below(n + 1), part.begin(), part.end());
      return "copy";
    }
    case 6: {
      uint32_t len = t.range(1, std::min<uint32_t>(8, n - i));
      toks.erase(toks.begin() + i, toks.begin() + i + len);
      return "delete range";
    }
    default: {
      // Replace by a token of the same kind from elsewhere or a related keyword.
      uint32_t j = t.below(n);
      toks[i] = toks[j];
      return "overwrite";
    }
  }
}
uint32_t stretch(Tape& t, Toks& toks) {
  static const std::vector<const char*> seps = {",", "AND", "OR", "+", "||", "WHEN", "JOIN", "FOR", "UNION"};
  static const std::vector<const char*> ends = {"FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "UNION", "INTERSECT", "EXCEPT", "FOR", "WITH", "AND", "OR", "ELSE", "END", "WHEN", "THEN", "AS", "JOIN", "ROWS", "RANGE", "GROUPS", ","};
  std::vector<size_t> at;
  auto is = [&](const Tok& k, const std::vector<const char*>& of) {
    if (k.kind != KW && k.kind != PUNCT) return false;
    for (auto* x : of)
      if (k.text == x) return true;
    return false;
  };
  for (size_t i = 0; i < toks.size(); ++i)
    if (is(toks[i], seps)) at.push_back(i);
  if (at.empty()) return 0;
  for (int tries = 0; tries < 6; ++tries) {
    size_t i = t.pick(at), j = i + 1;
    bool keepAs = t.chance(1, 2);  // an AS may be part of the item (an alias), or end it (CAST)
    int depth = 0;
    for (; j < toks.size(); ++j) {
      auto& k = toks[j];
      bool p = k.kind == PUNCT;
      if (p && (k.text == "(" || k.text == "[")) ++depth;
      if (p && (k.text == ")" || k.text == "]") && depth-- == 0) break;
      if (p && k.text == ";") break;
      if (!depth && is(k, ends) && !(keepAs && k.text == "AS") && !(toks[i].text == "WHEN" && k.text == "THEN") && !(toks[i].text == "WITH" && k.text == "AS")) break;
    }
    if (j <= i + 1 || j - i > 40) continue;
    Toks item(toks.begin() + (long)i, toks.begin() + (long)j);
    Toks once = toks;
    once.insert(once.begin() + (long)j, item.begin(), item.end());
    if (!ref::parse(plain(once)).valid) continue;
    uint32_t n = t.chance(1, 10) ? (uint32_t)std::min<uint64_t>(std::max<uint64_t>(t.nearMined(), 1), 1100) : t.weighted({3, 3, 4, 1}) == 0 ? t.range(5, 40) : t.chance(1, 2) ? t.range(60, 140) : t.chance(1, 2) ? t.range(250, 300) : t.range(300, 1100);
    if (t.chance(1, 3)) {
      // So that the whole has a number of items around a power of two.
      uint32_t items = 2;
      for (int dir = -1; dir <= 1; dir += 2) {
        int depth = 0;
        for (size_t q = i + (size_t)dir; q < toks.size(); q += (size_t)dir) {
          auto& k = toks[q];
          if (k.kind == PUNCT && (k.text == "(" || k.text == "[")) depth += dir;
          if (k.kind == PUNCT && (k.text == ")" || k.text == "]")) depth -= dir;
          if (depth < 0 || (k.kind == PUNCT && k.text == ";")) break;
          if (depth == 0 && k.text == toks[i].text && k.kind == toks[i].kind)
            ++items;
          else if (depth == 0 && is(k, ends))
            break;
        }
      }
      uint32_t target = (1u << t.range(3, 10)) + t.below(3) - 1;
      n = target > items ? target - items : 1;
    }
    n = std::min<uint32_t>(n, 12000 / (uint32_t)item.size());
    Toks more;
    for (uint32_t q = 0; q < n; ++q)
      for (auto k : item) {
        if (k.kind == NAME && !k.text.empty() && k.text.size() < 20) k.text += "_" + std::to_string(q);
        else if (k.kind == NUM && k.text.size() < 9 && k.text.find_first_not_of("0123456789") == std::string::npos && item.size() < 8) k.text = std::to_string(q);
        else if (k.kind == STR && k.text.size() < 20 && item.size() < 4) k.text += std::to_string(q);
        more.push_back(k);
      }
    toks.insert(toks.begin() + (long)j, more.begin(), more.end());
    return n;
  }
  return 0;
}
}  // namespace gen
