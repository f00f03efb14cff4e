#include <algorithm>
#include <cctype>
#include <cmath>
#include "ref.h"

using namespace hsql;
namespace ref {
namespace {
struct SyntaxError {};

std::string lower(std::string s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
bool isDigit(char c) { return c >= '0' && c <= '9'; }

struct Parser {
  Result& r;
  std::vector<Tok>& toks;
  size_t i = 0;
  int depth = 0;
  Tok endTok;
  explicit Parser(Result& res) : r(res), toks(res.toks) {}

  struct Deeper {
    Parser& p;
    int n;
    Deeper(Parser& q, int k) : p(q), n(k) {
      p.depth += n;
      p.r.maxDepth = std::max(p.r.maxDepth, p.depth);
    }
    ~Deeper() { p.depth -= n; }
  };

  const Tok& at(size_t k = 0) const { return i + k < toks.size() ? toks[i + k] : endTok; }
  [[noreturn]] void fail() {
    r.errTok = i;
    throw SyntaxError{};
  }
  bool kw(const char* s, size_t k = 0) const { return at(k).kind == T_KW && at(k).text == s; }
  bool pu(const char* s, size_t k = 0) const { return at(k).kind == T_PUNCT && at(k).text == s; }
  bool acceptKw(const char* s) { return kw(s) ? (++i, true) : false; }
  bool acceptP(const char* s) { return pu(s) ? (++i, true) : false; }
  void expectKw(const char* s) {
    if (!acceptKw(s)) fail();
  }
  void expectP(const char* s) {
    if (!acceptP(s)) fail();
  }
  std::string ident() {
    if (at().kind != T_IDENT) fail();
    return toks[i++].text;
  }
  std::string string() {
    if (at().kind != T_STRING) fail();
    return toks[i++].text;
  }
  int64_t integer() {
    if (at().kind != T_INT) fail();
    return toks[i++].ival;
  }
  Strs idents() {
    Strs v{ident()};
    while (acceptP(",")) v.push_back(ident());
    return v;
  }
  Strs parenIdents() {
    expectP("(");
    auto v = idents();
    expectP(")");
    return v;
  }
  void tableName(Str& schema, Str& name) {
    name = ident();
    if (acceptP(".")) {
      schema = std::move(name);
      name = ident();
    }
  }

  // ---------------------------------------------------------------- expressions
  static ExprP mk(ExprType t) { return std::make_unique<Expr>(t); }
  static ExprP un(OperatorType op, ExprP a) {
    auto e = mk(kExprOperator);
    e->op = op;
    e->e1 = std::move(a);
    return e;
  }
  static ExprP bin(OperatorType op, ExprP a, ExprP b) {
    auto e = un(op, std::move(a));
    e->e2 = std::move(b);
    return e;
  }

  DatetimeField field(bool plural, bool consume = true) {
    static const std::pair<const char*, DatetimeField> f[] = {{"SECOND", kDatetimeSecond}, {"MINUTE", kDatetimeMinute}, {"HOUR", kDatetimeHour},
                                                              {"DAY", kDatetimeDay},       {"MONTH", kDatetimeMonth},   {"YEAR", kDatetimeYear}};
    if (at().kind == T_KW)
      for (auto& x : f)
        if (at().text == x.first || (plural && at().text == std::string(x.first) + "S")) {
          if (consume) ++i;
          return x.second;
        }
    return kDatetimeNone;
  }

  ExprP numberOrInterval() {
    const Tok& t = toks[i];
    if (t.kind == T_FLOAT) {
      auto e = mk(kExprLiteralFloat);
      e->fval = t.fval;
      ++i;
      return e;
    }
    int64_t v = integer();
    if (auto f = field(true)) {
      auto e = mk(kExprLiteralInterval);
      e->ival = v;
      e->dt = f;
      return e;
    }
    auto e = mk(kExprLiteralInt);
    e->ival = v;
    return e;
  }

  // A decimal number of the whole of s[p..q).
  bool decimal(const std::string& s, size_t p, size_t q, int64_t& v) {
    bool neg = false;
    if (p < q && (s[p] == '-' || s[p] == '+')) {
      if (s[p] == '+') r.gray = true;
      neg = s[p] == '-';
      ++p;
    }
    if (p >= q) return false;
    __int128 x = 0;
    for (; p < q; ++p) {
      if (!isDigit(s[p])) return false;
      x = x * 10 + (s[p] - '0');
      if (x > ((__int128)1 << 70)) return false;
    }
    if (neg) x = -x;
    if (x > INT64_MAX || x < INT64_MIN) return false;
    v = (int64_t)x;
    return true;
  }

  ExprP intervalString() {
    ++i;  // INTERVAL
    std::string s = string();
    auto e = mk(kExprLiteralInterval);
    auto f = field(false);
    size_t p = 0, n = s.size();
    if (s.find('\0') != std::string::npos) r.gray = true;
    while (p < n && blank(s[p])) {
      ++p;
      r.gray = true;  // leading blanks
    }
    if (f) {
      e->dt = f;
      if (!decimal(s, p, n, e->ival)) r.semantic = true;
      return e;
    }
    size_t q = p;
    if (q < n && (s[q] == '-' || s[q] == '+')) ++q;
    while (q < n && isDigit(s[q])) ++q;
    size_t u = q;
    while (u < n && blank(s[u])) ++u;
    if (u == q) r.gray = true;  // no blank
    for (size_t k = q; k < u; ++k)
      if (s[k] != ' ') r.gray = true;
    bool ok = decimal(s, p, q, e->ival);
    static const std::pair<const char*, DatetimeField> fs[] = {{"second", kDatetimeSecond}, {"minute", kDatetimeMinute}, {"hour", kDatetimeHour},
                                                               {"day", kDatetimeDay},       {"month", kDatetimeMonth},   {"year", kDatetimeYear}};
    std::string unit = lower(s.substr(u));
    for (auto& x : fs)
      if (unit == x.first || unit == std::string(x.first) + "s") e->dt = x.second;
    if (!ok || e->dt == kDatetimeNone) {
      r.semantic = true;
    }
    return e;
  }

  ExprP dateString() {
    ++i;
    auto e = mk(kExprLiteralDate);
    std::string s = string();
    e->name = s;
    // YYYY-MM-DD
    bool strict = s.size() == 10 && s[4] == '-' && s[7] == '-';
    for (size_t k = 0; strict && k < 10; ++k)
      if (k != 4 && k != 7 && !isDigit(s[k])) strict = false;
    if (!strict) {
      // Shorter numbers, signs and blanks within: not specified.
      bool odd = true;
      int dashes = 0;
      for (char c : s) {
        if (c == '-') ++dashes;
        else if (!isDigit(c) && c != ' ' && c != '+' && !blank(c)) odd = false;
      }
      // A number with too many digits is malformed in any reading.
      size_t run = 0, maxrun = 0;
      for (char c : s) {
        run = isDigit(c) ? run + 1 : 0;
        maxrun = std::max(maxrun, run);
      }
      if (dashes < 2 || maxrun > 4) odd = false;
      if (odd) r.gray = true;
      if (s.find('\0') != std::string::npos) r.gray = true;
      r.semantic = true;
    } else {
      int month = (s[5] - '0') * 10 + s[6] - '0', day = (s[8] - '0') * 10 + s[9] - '0';
      if (month < 1 || month > 12 || day < 1 || day > 31) r.gray = true;  // no such day
    }
    return e;
  }

  bool literalStart() {
    const Tok& t = at();
    return t.kind == T_STRING || t.kind == T_INT || t.kind == T_FLOAT || kw("TRUE") || kw("FALSE") || kw("NULL") || kw("DATE") ||
           kw("INTERVAL") || pu("?");
  }
  ExprP literal() {
    const Tok& t = at();
    if (t.kind == T_STRING) {
      auto e = mk(kExprLiteralString);
      e->name = string();
      return e;
    }
    if (t.kind == T_INT || t.kind == T_FLOAT) return numberOrInterval();
    if (kw("TRUE") || kw("FALSE")) {
      auto e = mk(kExprLiteralInt);
      e->isBool = true;
      e->ival = kw("TRUE");
      ++i;
      return e;
    }
    if (acceptKw("NULL")) return mk(kExprLiteralNull);
    if (kw("DATE")) return dateString();
    if (kw("INTERVAL")) return intervalString();
    if (pu("?")) {
      auto e = mk(kExprParameter);
      e->off = t.off;
      e->ival = (int64_t)r.params++;
      ++i;
      return e;
    }
    fail();
  }

  Type columnType() {
    Type t;
    static const std::pair<const char*, DataType> plain[] = {
        {"BIGINT", DataType::BIGINT}, {"BOOLEAN", DataType::BOOLEAN}, {"DATE", DataType::DATE}, {"DATETIME", DataType::DATETIME},
        {"DOUBLE", DataType::DOUBLE}, {"FLOAT", DataType::FLOAT},     {"INT", DataType::INT},   {"INTEGER", DataType::INT},
        {"LONG", DataType::LONG},     {"REAL", DataType::REAL},       {"SMALLINT", DataType::SMALLINT},
        {"TEXT", DataType::TEXT},     {"TIMESTAMP", DataType::DATETIME}};
    for (auto& x : plain)
      if (acceptKw(x.first)) {
        t.t = x.second;
        return t;
      }
    if (kw("CHAR") || kw("VARCHAR") || kw("CHARACTER_VARYING")) {
      t.t = kw("CHAR") ? DataType::CHAR : DataType::VARCHAR;
      ++i;
      expectP("(");
      t.length = integer();
      expectP(")");
      return t;
    }
    if (acceptKw("DECIMAL")) {
      t.t = DataType::DECIMAL;
      if (acceptP("(")) {
        t.precision = integer();
        if (acceptP(",")) t.scale = integer();
        expectP(")");
      }
      return t;
    }
    if (acceptKw("TIME")) {
      t.t = DataType::TIME;
      if (acceptP("(")) {
        t.precision = integer();
        expectP(")");
      }
      return t;
    }
    fail();
  }

  ExprP primary() {
    if (pu("(")) {
      Deeper d(*this, 3);
      ++i;
      if (kw("SELECT")) {
        auto e = mk(kExprSelect);
        e->select = selectNoParen();
        expectP(")");
        return e;
      }
      auto e = expr();
      expectP(")");
      return e;
    }
    if (acceptP("*")) return mk(kExprStar);
    if (at().kind == T_IDENT) {
      std::string a = ident();
      if (pu("(")) return function(Str{}, std::move(a));
      if (acceptP(".")) {
        if (acceptP("*")) {
          auto e = mk(kExprStar);
          e->table = a;
          return e;
        }
        std::string b = ident();
        if (pu("(")) return function(std::move(a), std::move(b));
        auto e = mk(kExprColumnRef);
        e->table = a;
        e->name = b;
        return e;
      }
      auto e = mk(kExprColumnRef);
      e->name = a;
      return e;
    }
    if (kw("CASE")) return caseExpr();
    if (acceptKw("EXTRACT")) {
      Deeper d(*this, 6);
      auto e = mk(kExprExtract);
      expectP("(");
      e->dt = field(false);
      if (e->dt == kDatetimeNone) fail();
      expectKw("FROM");
      e->e1 = expr();
      expectP(")");
      return e;
    }
    if (acceptKw("CAST")) {
      Deeper d(*this, 6);
      auto e = mk(kExprCast);
      expectP("(");
      e->e1 = expr();
      expectKw("AS");
      e->ct = columnType();
      expectP(")");
      return e;
    }
    if (acceptKw("ARRAY")) {
      Deeper d(*this, 5);
      auto e = mk(kExprArray);
      expectP("[");
      e->list = exprList();
      expectP("]");
      return e;
    }
    if (literalStart()) return literal();
    fail();
  }

  ExprP function(Str schema, std::string name) {
    Deeper d(*this, 9);
    auto e = mk(kExprFunctionRef);
    e->schema = schema;
    e->name = name;
    expectP("(");
    e->list.emplace();
    if (!acceptP(")")) {
      e->distinct = acceptKw("DISTINCT");
      e->list = exprList();
      expectP(")");
    }
    if (acceptKw("OVER")) {
      Deeper d2(*this, 4);
      expectP("(");
      e->win = std::make_unique<Window>();
      auto& w = *e->win;
      if (acceptKw("PARTITION")) {
        expectKw("BY");
        w.partition = exprList();
      }
      if (kw("ORDER")) w.order = orderBy();
      w.ftype = kRange;
      w.start = Bound{0, kPreceding, true};
      w.end = Bound{0, kCurrentRow, false};
      if (kw("RANGE") || kw("ROWS") || kw("GROUPS")) {
        w.ftype = kw("RANGE") ? kRange : kw("ROWS") ? kRows : kGroups;
        ++i;
        if (acceptKw("BETWEEN")) {
          w.start = bound();
          expectKw("AND");
          w.end = bound();
        } else {
          w.start = bound();
        }
      }
      expectP(")");
    }
    return e;
  }
  Bound bound() {
    Bound b;
    if (acceptKw("CURRENT_ROW")) return b;
    if (acceptKw("UNBOUNDED")) {
      b.unbounded = true;
    } else {
      b.offset = integer();
    }
    if (acceptKw("PRECEDING")) {
      b.type = kPreceding;
    } else {
      expectKw("FOLLOWING");
      b.type = kFollowing;
    }
    return b;
  }

  ExprP caseExpr() {
    Deeper d(*this, 7);
    ++i;
    auto e = un(kOpCase, nullptr);
    if (!kw("WHEN")) {
      e->e1 = expr();
      if (!kw("WHEN")) fail();
    }
    e->list.emplace();
    while (acceptKw("WHEN")) {
      auto w = expr();
      expectKw("THEN");
      auto t = expr();
      e->list->push_back(bin(kOpCaseListElement, std::move(w), std::move(t)));
    }
    if (acceptKw("ELSE")) e->e2 = expr();
    expectKw("END");
    return e;
  }

  // Binding strengths, weakest first (OR and AND are handled by expr()).
  enum { L_NOT = 3, L_EQ = 4, L_LT = 5, L_ISNULL = 7, L_IS = 8, L_ADD = 9, L_MUL = 10, L_POW = 11, L_CONCAT = 12, L_NEG = 13, L_INDEX = 14 };
  struct Pending {
    int kind;  // 0: unary minus, 1: NOT of an operand, 2: NOT that may apply to a predicate, 3: binary operator
    int level;
    OperatorType op;
  };
  struct Operators {
    std::vector<Pending> ops;
    std::vector<ExprP> vals;
    bool onlyPredicateNots() const {
      return std::all_of(ops.begin(), ops.end(), [](auto& p) { return p.kind == 2; });
    }
    void reduce() {
      auto p = ops.back();
      ops.pop_back();
      auto b = std::move(vals.back());
      vals.pop_back();
      if (p.kind == 3) {
        auto a = std::move(vals.back());
        vals.pop_back();
        vals.push_back(bin(p.op, std::move(a), std::move(b)));
      } else {
        vals.push_back(un(p.kind == 0 ? kOpUnaryMinus : kOpNot, std::move(b)));
      }
    }
  };

  // Operator that can follow an operand; level 0 if there is none.
  struct Follow {
    int level = 0;
    char assoc = 'l';  // l, r, n
    OperatorType op = kOpNone;
  };
  Follow follow() {
    const Tok& t = at();
    if (t.kind == T_PUNCT) {
      static const std::pair<const char*, Follow> f[] = {
          {"=", {L_EQ, 'n', kOpEquals}},      {"==", {L_EQ, 'n', kOpEquals}},  {"!=", {L_EQ, 'n', kOpNotEquals}}, {"<>", {L_EQ, 'n', kOpNotEquals}},
          {"<", {L_LT, 'n', kOpLess}},        {">", {L_LT, 'n', kOpGreater}},  {"<=", {L_LT, 'n', kOpLessEq}},    {">=", {L_LT, 'n', kOpGreaterEq}},
          {"+", {L_ADD, 'l', kOpPlus}},       {"-", {L_ADD, 'l', kOpMinus}},   {"*", {L_MUL, 'l', kOpAsterisk}},  {"/", {L_MUL, 'l', kOpSlash}},
          {"%", {L_MUL, 'l', kOpPercentage}}, {"^", {L_POW, 'l', kOpCaret}},   {"||", {L_CONCAT, 'l', kOpConcat}}, {"[", {L_INDEX, 'l', kOpNone}}};
      for (auto& x : f)
        if (t.text == x.first) return x.second;
    } else if (t.kind == T_KW) {
      if (t.text == "LIKE") return {L_EQ, 'n', kOpLike};
      if (t.text == "ILIKE") return {L_EQ, 'n', kOpILike};
      if (t.text == "NOT") return {L_NOT, 'r', kOpNot};
      if (t.text == "ISNULL") return {L_ISNULL, 'n', kOpIsNull};
      if (t.text == "IS") return {L_IS, 'n', kOpIsNull};
    }
    return {};
  }

  void prefixed(Operators& s, bool exprCtx) {
    for (;;) {
      if (acceptP("-")) {
        s.ops.push_back({0, L_NEG, kOpUnaryMinus});
      } else if (kw("NOT")) {
        ++i;
        s.ops.push_back({exprCtx && s.onlyPredicateNots() ? 2 : 1, L_NOT, kOpNot});
      } else {
        break;
      }
    }
    Deeper d(*this, 2 * (int)s.ops.size());
    s.vals.push_back(primary());
  }

  // Returns true if it stopped behind the NOT of a NOT IN.
  bool operators(Operators& s, bool exprCtx) {
    prefixed(s, exprCtx);
    for (;;) {
      Follow f = follow();
      if (!f.level) return false;
      while (!s.ops.empty()) {
        int l = s.ops.back().level;
        if (l > f.level || (l == f.level && f.assoc == 'l')) {
          s.reduce();
        } else {
          if (l == f.level && f.assoc == 'n') fail();
          break;
        }
      }
      auto postfix = [&](auto fn) { s.vals.back() = fn(std::move(s.vals.back())); };
      if (f.level == L_INDEX) {
        ++i;
        int64_t v = integer();
        expectP("]");
        postfix([&](ExprP e) {
          auto x = mk(kExprArrayIndex);
          x->e1 = std::move(e);
          x->ival = v;
          return x;
        });
      } else if (f.level == L_ISNULL) {
        ++i;
        postfix([&](ExprP e) { return un(kOpIsNull, std::move(e)); });
      } else if (f.level == L_IS) {
        ++i;
        bool neg = acceptKw("NOT");
        expectKw("NULL");
        postfix([&](ExprP e) {
          e = un(kOpIsNull, std::move(e));
          return neg ? un(kOpNot, std::move(e)) : std::move(e);
        });
      } else if (f.level == L_NOT) {
        ++i;
        if (kw("IN") && exprCtx && s.onlyPredicateNots()) return true;
        expectKw("LIKE");
        s.ops.push_back({3, L_EQ, kOpNotLike});
        prefixed(s, exprCtx);
      } else {
        ++i;
        s.ops.push_back({3, f.level, f.op});
        prefixed(s, exprCtx);
      }
    }
  }

  ExprP operand() {
    Operators s;
    operators(s, false);
    while (!s.ops.empty()) s.reduce();
    return std::move(s.vals[0]);
  }

  SelectP parenSelectNoParen() {
    Deeper d(*this, 4);
    expectP("(");
    auto x = selectNoParen();
    expectP(")");
    return x;
  }
  ExprP exists() {
    ++i;
    auto e = un(kOpExists, nullptr);
    if (!pu("(")) fail();
    if (!kw("SELECT", 1)) {
      ++i;
      fail();
    }
    e->select = parenSelectNoParen();
    return e;
  }

  // Operand, predicate or EXISTS.
  ExprP term() {
    if (kw("EXISTS")) return exists();
    if (kw("NOT") && kw("EXISTS", 1)) {
      ++i;
      return un(kOpNot, exists());
    }
    Operators s;
    bool notIn = operators(s, true);
    if (!notIn && !kw("IN") && !kw("BETWEEN")) {
      while (!s.ops.empty()) s.reduce();
      return std::move(s.vals[0]);
    }
    while (!s.onlyPredicateNots()) s.reduce();
    ExprP e = std::move(s.vals[0]);
    if (notIn || kw("IN")) {
      Deeper d(*this, 5);
      ++i;
      auto in = un(kOpIn, std::move(e));
      if (pu("(") && kw("SELECT", 1)) {
        in->select = parenSelectNoParen();
      } else {
        expectP("(");
        in->list = exprList();
        expectP(")");
      }
      e = notIn ? un(kOpNot, std::move(in)) : std::move(in);
    } else {
      Deeper d(*this, 5);
      ++i;
      auto b = un(kOpBetween, std::move(e));
      b->list.emplace();
      b->list->push_back(operand());
      expectKw("AND");
      b->list->push_back(operand());
      e = std::move(b);
    }
    for (size_t k = 0; k < s.ops.size(); ++k) e = un(kOpNot, std::move(e));
    return e;
  }
  ExprP andExpr() {
    Deeper d(*this, 2);
    auto e = term();
    while (acceptKw("AND")) e = bin(kOpAnd, std::move(e), term());
    return e;
  }
  ExprP expr() {
    Deeper d(*this, 2);
    auto e = andExpr();
    while (acceptKw("OR")) e = bin(kOpOr, std::move(e), andExpr());
    return e;
  }
  Exprs exprList() {
    Deeper d(*this, 2);
    Exprs v;
    do {
      auto e = expr();
      if (acceptKw("AS"))
        e->alias = ident();
      else if (at().kind == T_IDENT)
        e->alias = ident();
      v.push_back(std::move(e));
    } while (acceptP(","));
    return v;
  }

  ExprP extendedLiteral() {
    if (acceptP("-")) {
      if (at().kind != T_INT && at().kind != T_FLOAT && !kw("INTERVAL")) fail();
      return un(kOpUnaryMinus, kw("INTERVAL") ? intervalString() : numberOrInterval());
    }
    if (!literalStart()) fail();
    if (pu("?")) r.semantic = true;
    return literal();
  }
  Exprs extendedLiterals() {
    Exprs v;
    do {
      if (acceptKw("CAST")) {
        auto e = mk(kExprCast);
        expectP("(");
        e->e1 = extendedLiteral();
        expectKw("AS");
        e->ct = columnType();
        expectP(")");
        v.push_back(std::move(e));
      } else {
        v.push_back(extendedLiteral());
      }
    } while (acceptP(","));
    return v;
  }

  // ---------------------------------------------------------------- select
  Orders orderBy() {
    Deeper d(*this, 4);
    ++i;
    expectKw("BY");
    Orders v;
    do {
      Order o;
      o.expr = expr();
      if (acceptKw("DESC"))
        o.type = kOrderDesc;
      else
        acceptKw("ASC");
      if (at().kind == T_IDENT) {
        std::string a = lower(ident());
        std::string b = lower(ident());
        if (a == "nulls" && b == "first")
          o.nulls = First;
        else if (a == "nulls" && b == "last")
          o.nulls = Last;
        else
          r.semantic = true;
      }
      v.push_back(std::move(o));
    } while (acceptP(","));
    return v;
  }
  std::optional<Limit> limit() {
    Deeper d(*this, 6);
    if (acceptKw("LIMIT")) {
      Limit l;
      if (!acceptKw("ALL")) l.limit = expr();
      if (acceptKw("OFFSET")) l.offset = expr();
      return l;
    }
    if (acceptKw("OFFSET")) {
      Limit l;
      l.offset = expr();
      return l;
    }
    return {};
  }
  std::optional<std::vector<Locking>> lockings() {
    if (!kw("FOR")) return {};
    std::vector<Locking> v;
    while (acceptKw("FOR")) {
      Locking l;
      if (acceptKw("UPDATE")) {
        l.mode = ForUpdate;
      } else if (acceptKw("NO")) {
        expectKw("KEY");
        expectKw("UPDATE");
        l.mode = ForNoKeyUpdate;
      } else if (acceptKw("SHARE")) {
        l.mode = ForShare;
      } else {
        expectKw("KEY");
        expectKw("SHARE");
        l.mode = ForKeyShare;
      }
      if (acceptKw("OF")) l.tables = idents();
      if (acceptKw("SKIP")) {
        expectKw("LOCKED");
        l.wait = SkipLocked;
      } else if (acceptKw("NOWAIT")) {
        l.wait = NoWait;
      }
      v.push_back(std::move(l));
    }
    return v;
  }

  SelectP selectClause() {
    Deeper d(*this, 11);
    expectKw("SELECT");
    auto s = std::make_unique<Select>();
    if (acceptKw("TOP")) {
      Limit l;
      l.limit = mk(kExprLiteralInt);
      l.limit->ival = integer();
      s->limit = std::move(l);
    }
    s->distinct = acceptKw("DISTINCT");
    s->list = exprList();
    if (acceptKw("FROM")) s->from = tableRef();
    if (acceptKw("WHERE")) s->where = expr();
    if (acceptKw("GROUP")) {
      expectKw("BY");
      s->group.emplace();
      s->group->columns = exprList();
      if (acceptKw("HAVING")) s->group->having = expr();
    }
    return s;
  }
  bool setOpStart() { return kw("UNION") || kw("INTERSECT") || kw("EXCEPT"); }
  SetOp setOp() {
    SetOp o;
    o.type = kw("UNION") ? kSetUnion : kw("INTERSECT") ? kSetIntersect : kSetExcept;
    ++i;
    o.all = acceptKw("ALL");
    return o;
  }
  SetOp& push(Select& s, SetOp o) {
    if (!s.setops) s.setops.emplace();
    s.setops->push_back(std::move(o));
    return s.setops->back();
  }
  SelectP selectWithin() {
    Deeper d(*this, 2);
    if (pu("(")) return selectWithParen();
    auto s = selectClause();
    if (setOpStart()) {
      auto o = setOp();
      o.nested = selectWithin();
      push(*s, std::move(o));
    }
    return s;
  }
  SelectP selectNoParen() {
    Deeper d(*this, 5);
    auto s = selectClause();
    if (setOpStart()) {
      auto o = setOp();
      o.nested = selectWithin();
      if (kw("ORDER")) o.order = orderBy();
      o.limit = limit();
      push(*s, std::move(o));
      s->lockings = lockings();
      return s;
    }
    if (kw("ORDER")) s->order = orderBy();
    if (auto l = limit()) s->limit = std::move(l);
    s->lockings = lockings();
    return s;
  }
  SelectP selectWithParen() {
    Deeper d(*this, 2);
    expectP("(");
    auto s = pu("(") ? selectWithParen() : selectNoParen();
    expectP(")");
    return s;
  }
  SelectP selectStatement() {
    Deeper d(*this, 6);
    std::optional<std::vector<With>> with;
    if (acceptKw("WITH")) {
      with.emplace();
      do {
        With w;
        w.alias = ident();
        expectKw("AS");
        if (!pu("(")) fail();
        w.select = selectWithParen();
        with->push_back(std::move(w));
      } while (acceptP(","));
    }
    SelectP s;
    if (pu("(")) {
      s = selectWithParen();
      if (setOpStart()) {
        auto o = setOp();
        o.nested = selectWithin();
        if (kw("ORDER")) o.order = orderBy();
        o.limit = limit();
        push(*s, std::move(o));
      }
    } else {
      s = selectNoParen();
    }
    s->with = std::move(with);
    return s;
  }

  // ---------------------------------------------------------------- tables
  TableP nonJoin() {
    auto t = std::make_unique<Table>();
    if (pu("(")) {
      Deeper d(*this, 5);
      ++i;
      t->type = kTableSelect;
      t->select = selectStatement();
      expectP(")");
    } else {
      tableName(t->schema, t->name);
    }
    if (acceptKw("AS")) {
      Alias a;
      a.name = ident();
      if (pu("(")) a.columns = parenIdents();
      t->alias = std::move(a);
    } else if (at().kind == T_IDENT) {
      Alias a;
      a.name = ident();
      t->alias = std::move(a);
    }
    return t;
  }
  TableP tableAtomic() {
    Deeper d(*this, 4);
    auto left = nonJoin();
    for (;;) {
      auto t = std::make_unique<Table>();
      t->type = kTableJoin;
      t->join = true;
      if (acceptKw("NATURAL")) {
        expectKw("JOIN");
        t->jtype = kJoinNatural;
        t->left = std::move(left);
        t->right = nonJoin();
        left = std::move(t);
        continue;
      }
      if (acceptKw("INNER"))
        t->jtype = kJoinInner;
      else if (acceptKw("LEFT")) {
        t->jtype = kJoinLeft;
        acceptKw("OUTER");
      } else if (acceptKw("RIGHT")) {
        t->jtype = kJoinRight;
        acceptKw("OUTER");
      } else if (acceptKw("FULL")) {
        t->jtype = kJoinFull;
        acceptKw("OUTER");
      } else if (acceptKw("OUTER"))
        t->jtype = kJoinFull;
      else if (acceptKw("CROSS"))
        t->jtype = kJoinCross;
      else if (!kw("JOIN"))
        return left;
      expectKw("JOIN");
      t->left = std::move(left);
      t->right = tableAtomic();
      if (acceptKw("ON")) {
        t->condition = expr();
      } else {
        expectKw("USING");
        t->named = parenIdents();
      }
      left = std::move(t);
    }
  }
  TableP tableRef() {
    Deeper d(*this, 2);
    auto t = tableAtomic();
    if (!pu(",")) return t;
    auto x = std::make_unique<Table>();
    x->type = kTableCrossProduct;
    x->list.emplace();
    x->list->push_back(std::move(t));
    while (acceptP(",")) x->list->push_back(tableAtomic());
    return x;
  }

  // ---------------------------------------------------------------- statements
  int fileType() {
    std::string f = lower(ident());
    if (f == "csv") return kImportCSV;
    if (f == "tbl") return kImportTbl;
    if (f == "binary" || f == "bin") return kImportBinary;
    r.semantic = true;
    return kImportAuto;
  }
  void options(Stmt& s) {
    s.sub = kImportAuto;
    if (kw("WITH")) {
      ++i;
      if (!pu("(")) fail();
    }
    if (!acceptP("(")) return;
    do {
      if (acceptKw("FORMAT")) {
        int f = fileType();
        if (s.sub != kImportAuto) r.semantic = true;
        if (s.csv && f != kImportCSV) r.semantic = true;
        s.sub = f;
      } else if (acceptKw("ENCODING")) {
        std::string v = string();
        if (s.encoding) r.semantic = true;
        s.encoding = v;
      } else {
        std::string name = "null";
        if (!acceptKw("NULL")) name = lower(ident());
        else name = "\001null";
        std::string v = string();
        if (s.sub != kImportAuto && s.sub != kImportCSV) r.semantic = true;
        Str* dst = name == "delimiter" ? &s.delimiter : name == "quote" ? &s.quote : name == "\001null" ? &s.null : nullptr;
        if (!dst || *dst) r.semantic = true;
        if (dst) *dst = v;
        s.csv = true;
      }
    } while (acceptP(","));
    expectP(")");
  }
  bool ifNotExists() {
    if (!acceptKw("IF")) return false;
    expectKw("NOT");
    expectKw("EXISTS");
    return true;
  }
  bool ifExists() {
    if (!acceptKw("IF")) return false;
    expectKw("EXISTS");
    return true;
  }
  Refs references() {
    Refs x;
    expectKw("REFERENCES");
    tableName(x.schema, x.table);
    if (pu("(")) x.columns = parenIdents();
    return x;
  }
  void tableElement(Stmt& s) {
    if (kw("PRIMARY") || kw("UNIQUE") || kw("FOREIGN")) {
      TableConstraint c;
      c.type = kw("PRIMARY") ? ConstraintType::PrimaryKey : kw("UNIQUE") ? ConstraintType::Unique : ConstraintType::ForeignKey;
      ++i;
      if (c.type != ConstraintType::Unique) expectKw("KEY");
      c.columns = parenIdents();
      if (c.type == ConstraintType::ForeignKey) c.refs = references();
      s.tconstraints->push_back(std::move(c));
      return;
    }
    Column c;
    c.name = ident();
    c.type = columnType();
    auto add = [&](ConstraintType t) { c.constraints.push_back((int)t); };
    for (;;) {
      if (acceptKw("PRIMARY")) {
        expectKw("KEY");
        add(ConstraintType::PrimaryKey);
      } else if (acceptKw("UNIQUE")) {
        add(ConstraintType::Unique);
      } else if (acceptKw("NULL")) {
        add(ConstraintType::Null);
      } else if (acceptKw("NOT")) {
        expectKw("NULL");
        add(ConstraintType::NotNull);
      } else if (kw("REFERENCES")) {
        c.refs.push_back(references());
        add(ConstraintType::ForeignKey);
      } else {
        break;
      }
    }
    std::sort(c.constraints.begin(), c.constraints.end());
    c.constraints.erase(std::unique(c.constraints.begin(), c.constraints.end()), c.constraints.end());
    auto has = [&](ConstraintType t) { return std::count(c.constraints.begin(), c.constraints.end(), (int)t) > 0; };
    c.nullable = !has(ConstraintType::NotNull) && !has(ConstraintType::PrimaryKey);
    if (!c.nullable && has(ConstraintType::Null)) r.semantic = true;
    s.columns->push_back(std::move(c));
  }

  void create(Stmt& s) {
    s.type = kStmtCreate;
    if (acceptKw("TABLE")) {
      s.flag = ifNotExists();
      tableName(s.schema, s.name);
      if (acceptKw("FROM")) {
        s.sub = kCreateTableFromTbl;
        if (lower(ident()) != "tbl") r.semantic = true;
        expectKw("FILE");
        s.path = string();
      } else if (acceptP("(")) {
        s.sub = kCreateTable;
        s.columns.emplace();
        s.tconstraints.emplace();
        do tableElement(s);
        while (acceptP(","));
        expectP(")");
      } else {
        expectKw("AS");
        s.sub = kCreateTable;
        s.select = selectStatement();
      }
    } else if (acceptKw("INDEX")) {
      s.sub = kCreateIndex;
      s.flag = ifNotExists();
      if (at().kind == T_IDENT) s.index = ident();
      expectKw("ON");
      tableName(s.schema, s.name);
      s.names = parenIdents();
    } else {
      expectKw("VIEW");
      s.sub = kCreateView;
      s.flag = ifNotExists();
      tableName(s.schema, s.name);
      if (pu("(")) s.names = parenIdents();
      expectKw("AS");
      s.select = selectStatement();
    }
  }

  void statement(Stmt& s) {
    bool hints = true;
    if (kw("SELECT") || kw("WITH") || pu("(")) {
      s.type = kStmtSelect;
      s.select = selectStatement();
    } else if (acceptKw("PREPARE")) {
      s.type = kStmtPrepare;
      s.name = ident();
      expectKw("FROM");
      s.query = string();
    } else if (acceptKw("CREATE")) {
      create(s);
    } else if (acceptKw("INSERT")) {
      s.type = kStmtInsert;
      expectKw("INTO");
      tableName(s.schema, s.name);
      if (pu("(")) s.names = parenIdents();
      if (acceptKw("VALUES")) {
        s.sub = kInsertValues;
        expectP("(");
        s.exprs = extendedLiterals();
        expectP(")");
      } else {
        s.sub = kInsertSelect;
        if (!kw("SELECT")) fail();
        s.select = selectNoParen();
      }
    } else if (acceptKw("DELETE")) {
      s.type = kStmtDelete;
      expectKw("FROM");
      tableName(s.schema, s.name);
      if (acceptKw("WHERE")) s.where = expr();
    } else if (acceptKw("TRUNCATE")) {
      s.type = kStmtDelete;
      tableName(s.schema, s.name);
    } else if (acceptKw("UPDATE")) {
      s.type = kStmtUpdate;
      tableName(s.schema, s.name);
      expectKw("SET");
      do {
        std::string c = ident();
        expectP("=");
        s.updates.emplace_back(c, expr());
      } while (acceptP(","));
      if (acceptKw("WHERE")) s.where = expr();
    } else if (acceptKw("DROP")) {
      s.type = kStmtDrop;
      if (acceptKw("TABLE") || acceptKw("VIEW")) {
        s.sub = toks[i - 1].text == "TABLE" ? kDropTable : kDropView;
        s.flag = ifExists();
        tableName(s.schema, s.name);
      } else {
        expectKw("INDEX");
        s.sub = kDropIndex;
        s.flag = ifExists();
        s.index = ident();
      }
    } else if (acceptKw("DEALLOCATE")) {
      s.type = kStmtDrop;
      s.sub = kDropPreparedStatement;
      expectKw("PREPARE");
      s.name = ident();
    } else if (acceptKw("ALTER")) {
      s.type = kStmtAlter;
      expectKw("TABLE");
      s.flag = ifExists();
      tableName(s.schema, s.name);
      expectKw("DROP");
      expectKw("COLUMN");
      s.flag2 = ifExists();
      s.column = ident();
    } else if (acceptKw("EXECUTE")) {
      s.type = kStmtExecute;
      s.name = ident();
      if (acceptP("(")) {
        if (!pu(")")) s.exprs = extendedLiterals();
        expectP(")");
      }
    } else if (kw("BEGIN") || kw("COMMIT") || kw("ROLLBACK")) {
      s.type = kStmtTransaction;
      s.sub = kw("BEGIN") ? kBeginTransaction : kw("COMMIT") ? kCommitTransaction : kRollbackTransaction;
      ++i;
      acceptKw("TRANSACTION");
    } else if (acceptKw("SHOW")) {
      hints = false;
      s.type = kStmtShow;
      if (acceptKw("TABLES")) {
        s.sub = kShowTables;
      } else {
        expectKw("COLUMNS");
        s.sub = kShowColumns;
        tableName(s.schema, s.name);
      }
    } else if (acceptKw("DESCRIBE")) {
      hints = false;
      s.type = kStmtShow;
      s.sub = kShowColumns;
      tableName(s.schema, s.name);
    } else if (acceptKw("IMPORT")) {
      hints = false;
      s.type = kStmtImport;
      expectKw("FROM");
      s.sub = fileType();
      expectKw("FILE");
      s.path = string();
      expectKw("INTO");
      tableName(s.schema, s.name);
    } else if (acceptKw("COPY")) {
      hints = false;
      if (pu("(")) {
        s.type = kStmtExport;
        s.select = selectWithParen();
        expectKw("TO");
      } else {
        tableName(s.schema, s.name);
        s.type = kStmtImport;
        if (!acceptKw("FROM")) {
          s.type = kStmtExport;
          expectKw("TO");
        }
      }
      s.path = string();
      options(s);
      if (s.type == kStmtImport && acceptKw("WHERE")) s.where = expr();
    } else {
      fail();
    }
    if (hints && acceptKw("WITH")) {
      expectKw("HINT");
      expectP("(");
      s.hints.emplace();
      do {
        auto e = mk(kExprHint);
        e->name = ident();
        if (acceptP("(")) {
          e->list = extendedLiterals();
          expectP(")");
        }
        s.hints->push_back(std::move(e));
      } while (acceptP(","));
      expectP(")");
    }
  }

  void all(size_t textSize) {
    Deeper d(*this, 4);
    size_t begin = 0;
    for (;;) {
      auto s = std::make_unique<Stmt>();
      statement(*s);
      s->begin = begin;
      bool semi = pu(";");
      begin = semi ? toks[i].end : textSize;
      s->end = begin;
      r.stmts.push_back(std::move(s));
      if (!semi) {
        if (at().kind != T_END) fail();
        break;
      }
      ++i;
      if (at().kind == T_END) break;
    }
  }
};
}  // namespace

Result parse(const std::string& text) {
  Result r;
  r.toks = lex(text);
  for (auto& t : r.toks)
    if (t.kind == T_INVALID) r.lexical = true;
  Parser p(r);
  try {
    p.all(text.size());
  } catch (SyntaxError&) {
    r.syntax = true;
  }
  r.valid = !r.syntax && !r.semantic;
  if (!r.valid) r.stmts.clear();
  return r;
}
}  // namespace ref
