// Printing and accessors: C26, C29.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <sstream>
#include "common.h"
#include "util/sqlhelper.h"
#include "walk.h"
using namespace gen;
using namespace hsql;

namespace {
// ---------------------------------------------------------------- C26
// The summary that has to be printed, from the reference's statement.
struct Printer {
  std::string o;
  size_t base = 0;  // an indentation that all lines have
  void line(size_t ind, const std::string& s) { o += std::string(base + ind, '\t') + s + "\n"; }
  void line(size_t ind, const ref::Str& s) { line(ind, s ? *s : std::string("(nothing)")); }
  static std::string number(double d) {
    std::ostringstream s;
    s << d;
    return s.str();
  }
  static const char* op(OperatorType t) {
    switch (t) {
      case kOpBetween: return "BETWEEN";
      case kOpCase: return "CASE";
      case kOpCaseListElement: return "CASE LIST ELEMENT";
      case kOpPlus: return "+";
      case kOpMinus: return "-";
      case kOpAsterisk: return "*";
      case kOpSlash: return "/";
      case kOpPercentage: return "%";
      case kOpCaret: return "^";
      case kOpEquals: return "=";
      case kOpNotEquals: return "!=";
      case kOpLess: return "<";
      case kOpLessEq: return "<=";
      case kOpGreater: return ">";
      case kOpGreaterEq: return ">=";
      case kOpLike: return "LIKE";
      case kOpNotLike: return "NOT LIKE";
      case kOpILike: return "ILIKE";
      case kOpAnd: return "AND";
      case kOpOr: return "OR";
      case kOpIn: return "IN";
      case kOpConcat: return "CONCAT";
      case kOpNot: return "NOT";
      case kOpUnaryMinus: return "-";
      case kOpIsNull: return "IS NULL";
      case kOpExists: return "EXISTS";
      default: return "None";
    }
  }
  static const char* field(DatetimeField f) {
    switch (f) {
      case kDatetimeSecond: return "SECOND";
      case kDatetimeMinute: return "MINUTE";
      case kDatetimeHour: return "HOUR";
      case kDatetimeDay: return "DAY";
      case kDatetimeMonth: return "MONTH";
      case kDatetimeYear: return "YEAR";
      default: return "None";
    }
  }
  static std::string type(const ref::Type& t) {
    std::string n = "(" + std::to_string(t.length) + ")";
    switch (t.t) {
      case DataType::UNKNOWN: return "UNKNOWN";
      case DataType::BIGINT: return "BIGINT";
      case DataType::BOOLEAN: return "BOOLEAN";
      case DataType::CHAR: return "CHAR" + n;
      case DataType::DATE: return "DATE";
      case DataType::DATETIME: return "DATETIME";
      case DataType::DECIMAL: return "DECIMAL";
      case DataType::DOUBLE: return "DOUBLE";
      case DataType::FLOAT: return "FLOAT";
      case DataType::INT: return "INT";
      case DataType::LONG: return "LONG";
      case DataType::REAL: return "REAL";
      case DataType::SMALLINT: return "SMALLINT";
      case DataType::TEXT: return "TEXT";
      case DataType::TIME: return "TIME";
      case DataType::VARCHAR: return "VARCHAR" + n;
    }
    return "?";
  }
  void exprs(const std::optional<ref::Exprs>& v, size_t i) {
    if (v)
      for (auto& e : *v) expr(e.get(), i);
  }
  void orders(const ref::Orders& v, size_t i) {
    for (auto& x : v) {
      expr(x.expr.get(), i);
      line(i, std::string(x.type == kOrderAsc ? "ascending" : "descending"));
    }
  }
  static std::string bound(const ref::Bound& b) {
    if (b.type == kCurrentRow) return "CURRENT ROW";
    return (b.unbounded ? std::string("UNBOUNDED") : std::to_string(b.offset)) + (b.type == kPreceding ? " PRECEDING" : " FOLLOWING");
  }
  void window(const ref::Window& w, size_t i) {
    line(i, std::string("OVER"));
    if (w.partition) {
      line(i + 1, std::string("PARTITION BY"));
      exprs(w.partition, i + 2);
    }
    if (w.order) {
      line(i + 1, std::string("ORDER BY"));
      orders(*w.order, i + 2);
    }
    const char* f = w.ftype == kRows ? "ROWS" : w.ftype == kRange ? "RANGE" : "GROUPS";
    line(i + 1, f + std::string(" BETWEEN ") + bound(w.start) + " AND " + bound(w.end));
  }
  void expr(const ref::Expr* e, size_t i) {
    if (!e) return;
    switch (e->type) {
      case kExprStar: line(i, std::string("*")); break;
      case kExprColumnRef:
        line(i, e->name);
        if (e->table) {
          line(i + 1, std::string("Table:"));
          line(i + 2, e->table);
        }
        break;
      case kExprLiteralFloat: line(i, number(e->fval)); break;
      case kExprLiteralInt:
      case kExprParameter: line(i, std::to_string(e->ival)); break;
      case kExprLiteralString:
      case kExprLiteralDate: line(i, e->name); break;
      case kExprLiteralNull: line(i, std::string("NULL")); break;
      case kExprLiteralInterval:
        line(i, std::string("INTERVAL"));
        line(i + 1, std::to_string(e->ival));
        line(i + 1, std::string(field(e->dt)));
        break;
      case kExprFunctionRef:
        line(i, e->name);
        exprs(e->list, i + 1);
        if (e->win) {
          window(*e->win, i + 1);
        }
        break;
      case kExprExtract:
        line(i, std::string("EXTRACT"));
        line(i + 1, std::string(field(e->dt)));
        expr(e->e1.get(), i + 1);
        break;
      case kExprCast:
        line(i, std::string("CAST"));
        line(i + 1, type(e->ct));
        expr(e->e1.get(), i + 1);
        break;
      case kExprOperator:
        line(i, std::string(op(e->op)));
        expr(e->e1.get(), i + 1);
        exprs(e->list, i + 1);
        expr(e->e2.get(), i + 1);
        if (e->select) select(*e->select, i + 1);
        break;
      case kExprSelect: select(*e->select, i); break;
      case kExprArray: exprs(e->list, i + 1); break;
      case kExprArrayIndex:
        expr(e->e1.get(), i + 1);
        line(i, std::to_string(e->ival));
        break;
      default: line(i, std::string("(an expression of another kind)"));
    }
    if (e->alias) {
      line(i + 1, std::string("Alias"));
      line(i + 2, e->alias);
    }
  }
  void table(const ref::Table& t, size_t i) {
    switch (t.type) {
      case kTableName:
        line(i, t.name);
        if (t.schema) {
          line(i + 1, std::string("Schema"));
          line(i + 2, t.schema);
        }
        break;
      case kTableSelect: select(*t.select, i); break;
      case kTableJoin:
        line(i, std::string("Join Table"));
        line(i + 1, std::string("Left"));
        table(*t.left, i + 2);
        line(i + 1, std::string("Right"));
        table(*t.right, i + 2);
        line(i + 1, std::string("Join Condition"));
        expr(t.condition.get(), i + 2);
        break;
      case kTableCrossProduct:
        for (auto& x : *t.list) table(*x, i);
        break;
    }
    if (t.alias) {
      line(i + 1, std::string("Alias"));
      line(i + 2, t.alias->name);
      if (t.alias->columns)
        for (auto& c : *t.alias->columns) line(i + 3, c);
    }
  }
  void select(const ref::Select& q, size_t i) {
    line(i, std::string("SelectStatement"));
    line(i + 1, std::string("Fields:"));
    for (auto& e : q.list) expr(e.get(), i + 2);
    if (q.from) {
      line(i + 1, std::string("Sources:"));
      table(*q.from, i + 2);
    }
    if (q.where) {
      line(i + 1, std::string("Search Conditions:"));
      expr(q.where.get(), i + 2);
    }
    if (q.group) {
      line(i + 1, std::string("GroupBy:"));
      for (auto& e : q.group->columns) expr(e.get(), i + 2);
      if (q.group->having) {
        line(i + 1, std::string("Having:"));
        expr(q.group->having.get(), i + 2);
      }
    }
    if (q.lockings) {
      line(i + 1, std::string("Lock Info:"));
      for (auto& l : *q.lockings) {
        line(i + 2, std::string("Type"));
        line(i + 3, std::string(l.mode == RowLockMode::ForUpdate ? "FOR UPDATE" : l.mode == RowLockMode::ForNoKeyUpdate ? "FOR NO KEY UPDATE" : l.mode == RowLockMode::ForShare ? "FOR SHARE" : "FOR KEY SHARE"));
        if (l.tables) {
          line(i + 2, std::string("Target tables:"));
          for (auto& x : *l.tables) line(i + 3, x);
        }
        if (l.wait != RowLockWaitPolicy::None) {
          line(i + 2, std::string("Waiting policy:"));
          line(i + 3, std::string(l.wait == RowLockWaitPolicy::NoWait ? "NOWAIT" : "SKIP LOCKED"));
        }
      }
    }
    if (q.setops)
      for (auto& s : *q.setops) {
        line(i + 1, std::string(s.type == kSetIntersect ? "Intersect:" : s.type == kSetUnion ? "Union:" : "Except:"));
        select(*s.nested, i + 2);
        if (s.order) {
          line(i + 1, std::string("SetResultOrderBy:"));
          orders(*s.order, i + 2);
        }
        limit(s.limit, i, "SetResultLimit:", "SetResultOffset:");
      }
    if (q.order) {
      line(i + 1, std::string("OrderBy:"));
      orders(*q.order, i + 2);
    }
    limit(q.limit, i, "Limit:", "Offset:");
  }
  void limit(const std::optional<ref::Limit>& l, size_t i, const char* a, const char* b) {
    if (!l) return;
    if (l->limit) {
      line(i + 1, std::string(a));
      expr(l->limit.get(), i + 2);
    }
    if (l->offset) {
      line(i + 1, std::string(b));
      expr(l->offset.get(), i + 2);
    }
  }
  static const char* format(int f) {
    switch (f) {
      case kImportCSV: return "CSV";
      case kImportTbl: return "TBL";
      case kImportBinary: return "BINARY";
      default: return "AUTO";
    }
  }
  // False if nothing is said about statements of this kind.
  bool stmt(const ref::Stmt& s) {
    switch (s.type) {
      case kStmtSelect: select(*s.select, 0); return true;
      case kStmtImport:
        line(0, std::string("ImportStatement"));
        line(1, s.path);
        line(1, std::string(format(s.sub)));
        line(1, s.name);
        if (s.where) {
          line(1, std::string("WHERE:"));
          expr(s.where.get(), 2);
        }
        return true;
      case kStmtExport:
        line(0, std::string("ExportStatement"));
        line(1, s.path);
        line(1, std::string(format(s.sub)));
        if (s.name) line(1, s.name);
        else select(*s.select, 1);
        return true;
      case kStmtCreate:
        line(0, std::string("CreateStatement"));
        line(1, s.name);
        if (s.path) line(1, s.path);
        return true;
      case kStmtInsert:
        line(0, std::string("InsertStatement"));
        line(1, s.name);
        if (s.names) {
          line(1, std::string("Columns"));
          for (auto& c : *s.names) line(2, c);
        }
        if (s.sub == kInsertValues) {
          line(1, std::string("Values"));
          exprs(s.exprs, 2);
        } else {
          select(*s.select, 1);
        }
        return true;
      case kStmtTransaction:
        line(0, std::string("TransactionStatement"));
        line(1, std::string(s.sub == kBeginTransaction ? "BEGIN" : s.sub == kCommitTransaction ? "COMMIT" : "ROLLBACK"));
        return true;
      default: return false;
    }
  }
};
// Blanks at the ends of lines do not matter.
std::string trimLines(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\n')
      while (!o.empty() && o.back() == ' ') o.pop_back();
    o += c;
  }
  return o;
}
template <class F> std::string captured(F f) {
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  f();
  std::cout.rdbuf(old);
  return o.str();
}
std::string printed(const SQLStatement* s) {
  return captured([&] { printStatementInfo(s); });
}
// The functions that print a statement of one kind, or a part of one, from an indentation of the caller's choice.
void indented(Case& c, const SQLStatement* s, const ref::Stmt& r, size_t n) {
  auto same = [&](const char* what, const Printer& p, const std::string& got) {
    std::string want = trimLines(p.o), have = trimLines(got);
    if (want != have) c.fail(std::string(what) + " with an indentation of " + std::to_string(n) + " prints something else: " + diffText(want, have));
  };
  {
    Printer p;
    p.base = n;
    p.stmt(r);
    std::string got = captured([&] {
      switch (s->type()) {
        case kStmtSelect: printSelectStatementInfo((const SelectStatement*)s, n); break;
        case kStmtImport: printImportStatementInfo((const ImportStatement*)s, n); break;
        case kStmtExport: printExportStatementInfo((const ExportStatement*)s, n); break;
        case kStmtInsert: printInsertStatementInfo((const InsertStatement*)s, n); break;
        case kStmtCreate: printCreateStatementInfo((const CreateStatement*)s, n); break;
        case kStmtTransaction: printTransactionStatementInfo((const TransactionStatement*)s, n); break;
        default: break;
      }
    });
    same("the statement's function", p, got);
  }
  if (!s->is(kStmtSelect)) return;
  auto& q = *(const SelectStatement*)s;
  if (!q.selectList || q.selectList->size() != r.select->list.size()) return;
  for (size_t i = 0; i < q.selectList->size(); ++i) {
    Expr* e = q.selectList->at(i);
    const ref::Expr& w = *r.select->list[i];
    Printer p;
    p.base = n;
    p.expr(&w, 0);
    same("printExpression", p, captured([&] { printExpression(e, n); }));
    if (e->windowDescription && w.win) {
      Printer v;
      v.base = n;
      v.window(*w.win, 0);
      same("printWindowDescription", v, captured([&] { printWindowDescription(e->windowDescription, n); }));
      c.label("a window description on its own");
    }
  }
  {
    Printer p;
    p.base = n;
    if (r.select->order) {
      p.orders(*r.select->order, 0);
      c.label("an order on its own");
    }
    same("printOrderBy", p, captured([&] { printOrderBy(q.order, n); }));
  }
  {
    Printer p;
    p.base = n;
    p.expr(r.select->where.get(), 0);
    same("printExpression", p, captured([&] { printExpression(q.whereClause, n); }));
  }
}
void summary(Case& c) {
  Tape& t = c.tape;
  Gen g(t);
  g.maxNodes = (int)t.size(5, 40, 200);
  static const std::vector<Gen::St> kinds = {Gen::SELECT, Gen::SELECT, Gen::SELECT, Gen::SELECT, Gen::INSERT, Gen::IMPORT, Gen::COPY, Gen::CREATE_TABLE, Gen::CREATE_AS, Gen::CREATE_FROM, Gen::CREATE_VIEW, Gen::CREATE_INDEX, Gen::TRANSACTION};
  if (t.chance(1, 12)) {
    g.statement(g.anyStatement());
  } else {
    auto k = t.pick(kinds);
    if (k == Gen::SELECT) {
      static const Focus f[] = {F_ANY, F_SELECT, F_OPS, F_SETOPS, F_FROM, F_EXPR};
      g.focus = f[t.below(6)];
    }
    g.statement(k);
    c.label(statementName(k));
  }
  Layout l;
  enlarge(c, g.out, l, 150);
  c.input = render(t, g.out, l);
  auto r = ref::parse(c.input);
  SQLParserResult res;
  SQLParser::parse(c.input, &res);
  ++c.work;
  if (!r.valid || r.gray || !res.isValid() || r.stmts.size() != res.size()) {
    // Whether it is accepted is the matter of other properties.
    c.discarded = true;
    return;
  }
  std::string before = impl::dumpResultAll(res);
  const auto state = [] { return std::to_string((unsigned long)std::cout.flags()) + "/" + std::to_string(std::cout.precision()) + "/" + std::to_string(std::cout.width()) + "/" + std::to_string((int)std::cout.fill()) + "/" + std::to_string((int)std::cout.rdstate()); };
  const std::string stateBefore = state();
  // Printing is compared after several other prints, in any order and with other statements in between.
  for (size_t i = 0; i < res.size(); ++i) {
    Printer p;
    bool said = p.stmt(*r.stmts[i]);
    std::string got = printed(res.getStatement(i));
    if (said) {
      std::string want = trimLines(p.o), have = trimLines(got);
      c.nontrivial |= std::count(want.begin(), want.end(), '\n') >= 4;
      c.check(want == have, "the summary differs: " + diffText(want, have));
      if (want == have && t.chance(1, 3)) indented(c, res.getStatement(i), *r.stmts[i], t.chance(1, 10) ? t.below(200) : t.below(6));
    } else {
      c.label("no summary");
    }
    c.check(printed(res.getStatement(i)) == got, "printing again gives something else");
  }
  c.check(impl::dumpResultAll(res) == before, "printing changes the statement");
  if (state() != stateBefore) {
    std::cout.copyfmt(std::ios(nullptr));
    std::cout.clear();
    c.fail("printing leaves std::cout in another state");
  }
  for (auto* w : {"CASE", "EXISTS", "IN", "BETWEEN", "OVER", "CAST", "EXTRACT", "INTERVAL", "ARRAY", "UNION", "INTERSECT", "EXCEPT", "JOIN", "HAVING", "LIMIT", "OFFSET", "LOCKED", "NOWAIT", "ORDER", "PARTITION", "ROWS", "RANGE", "GROUPS"})
    if (hasText(g.out, w)) c.label(w);
}
const Register c26({"C26",
                    "Statements of the kinds that have a summary (all kinds of expressions, sources and clauses) and some of other kinds are parsed, printed with std::cout redirected, and compared line by line with the summary that the "
                    "reference parser's statement calls for (blanks at line ends do not matter); the functions that print a statement of one kind, an expression, an order or a window description from an indentation of the caller's choice have to print the same, indented; printing again has to give the same, and all public fields must stay as they were. Non-trivial: at least four lines.",
                    summary, 250000, 6000000});

// ---------------------------------------------------------------- C29
ColumnType someType(Tape& t) {
  static const std::vector<int64_t> n = {0, 1, -1, 2, 10, 255, 256, 65536, 4294967296LL, 4294967297LL, INT64_MAX, INT64_MIN, INT64_MIN + 1};
  auto value = [&]() -> int64_t { return t.chance(1, 4) ? (int64_t)t.bits64() : t.pick(n); };
  auto d = (DataType)t.below(16);
  int64_t a = value(), b = value(), e = value();
  return ColumnType(d, a, b, e);
}
std::string typeName(const ColumnType& k) {
  ref::Type r;
  r.t = k.data_type;
  r.length = k.length;
  r.precision = k.precision;
  r.scale = k.scale;
  return Printer::type(r);
}
bool sameText(const char* a, const char* b) { return a && b ? !strcmp(a, b) : a == b; }
struct Accessors : Walker {
  explicit Accessors(Case& c) : c(c) {}
  Case& c;
  std::vector<ColumnType> types;
  size_t aliases = 0, tables = 0, literals = 0, exprs = 0;
  static constexpr ExprType kTypes[] = {kExprLiteralFloat, kExprLiteralString, kExprLiteralInt, kExprLiteralNull, kExprLiteralDate, kExprLiteralInterval, kExprStar, kExprParameter, kExprColumnRef,
                                        kExprFunctionRef, kExprOperator, kExprSelect, kExprHint, kExprArray, kExprArrayIndex, kExprExtract, kExprCast};
  void onExpr(const Expr* e) override {
    ++exprs;
    if (!(e->hasAlias() == (e->alias != nullptr))) c.fail("Expr::hasAlias is wrong for " + impl::dumpExpr(e));
    if (!(e->hasTable() == (e->table != nullptr))) c.fail("Expr::hasTable is wrong for " + impl::dumpExpr(e));
    if (!sameText(e->getName(), e->alias ? e->alias : e->name)) c.fail("Expr::getName is wrong for " + impl::dumpExpr(e));
    bool lit = false;
    for (auto k : {kExprLiteralFloat, kExprLiteralString, kExprLiteralInt, kExprLiteralNull, kExprLiteralDate, kExprLiteralInterval, kExprParameter}) lit |= e->type == k;
    if (!(e->isLiteral() == lit)) c.fail("Expr::isLiteral is wrong for " + impl::dumpExpr(e));
    for (auto k : kTypes) if (!(e->isType(k) == (e->type == k))) c.fail("Expr::isType is wrong for " + impl::dumpExpr(e));
    aliases += e->hasAlias();
    tables += e->hasTable();
    literals += lit;
  }
  void onTable(const TableRef* t) override {
    if (!(t->hasSchema() == (t->schema != nullptr))) c.fail("TableRef::hasSchema is wrong");
    if (!sameText(t->getName(), t->alias ? t->alias->name : t->name)) c.fail("TableRef::getName is wrong");
    aliases += t->alias != nullptr;
  }
  void onStatement(const SQLStatement* s) override {
    for (int k = kStmtError; k <= kStmtShow; ++k) {
      if (!(s->is((StatementType)k) == (s->type() == k))) c.fail("SQLStatement::is is wrong");
      if (!(s->isType((StatementType)k) == (s->type() == k))) c.fail("SQLStatement::isType is wrong");
    }
  }
  void onColumnType(const ColumnType& k) override { types.push_back(k); }
};
void compareTypes(Case& c, const ColumnType& a, const ColumnType& b) {
  bool same = a.data_type == b.data_type && a.length == b.length && a.precision == b.precision && a.scale == b.scale;
  auto show = [](const ColumnType& k) { return typeName(k) + "/" + std::to_string(k.length) + "/" + std::to_string(k.precision) + "/" + std::to_string(k.scale); };
  if (!((a == b) == same && (a != b) == !same && (b == a) == same && (b != a) == !same)) c.fail("wrong comparison of " + show(a) + " and " + show(b));
}
void printType(Case& c, const ColumnType& k) {
  std::ostringstream o;
  o << k << "|";
  if (!(o.str() == typeName(k) + "|")) c.fail("a column type is printed as " + o.str() + " instead of " + typeName(k));
}
template <class A, class B>
void exchange(A& a, B& b) {
  auto x = a;
  a = (A)b;
  b = (B)x;
}
void accessors(Case& c) {
  Tape& t = c.tape;
  if (t.chance(1, 4)) {
    auto a = someType(t), b = t.chance(1, 3) ? someType(t) : a;
    c.input = "types ";
    switch (t.below(6)) {
      case 0: b.data_type = (DataType)t.below(16); break;
      case 1: b.length = t.chance(1, 2) ? a.length ^ (1LL << t.below(64)) : (int64_t)t.bits64(); break;
      case 2: b.precision = t.chance(1, 2) ? a.precision ^ (1LL << t.below(64)) : (int64_t)t.bits64(); break;
      case 3: b.scale = t.chance(1, 2) ? a.scale ^ (1LL << t.below(64)) : (int64_t)t.bits64(); break;
      case 4:
        exchange(b.length, b.precision);
        break;
      default:
        exchange(b.precision, b.scale);
    }
    for (auto* k : {&a, &b}) c.input += std::to_string((int)k->data_type) + "/" + std::to_string(k->length) + "/" + std::to_string(k->precision) + "/" + std::to_string(k->scale) + " ";
    c.nontrivial = true;
    c.label("pairs of types");
    compareTypes(c, a, b);
    compareTypes(c, a, a);
    printType(c, a);
    printType(c, b);
    ColumnType copy = a;
    compareTypes(c, a, copy);
    ColumnType standard(a.data_type);
    if (!(standard.length == 0 && standard.precision == 0 && standard.scale == 0 && standard.data_type == a.data_type)) c.fail("a column type without sizes has some");
    return;
  }
  Toks toks = statements(t, 3);
  Layout l;
  enlarge(c, toks, l, 150);
  c.input = render(t, toks, l);
  SQLParserResult res;
  SQLParser::parse(c.input, &res);
  ++c.work;
  Accessors a(c);
  auto& all = res.getStatements();
  if (!(res.size() == all.size())) c.fail("SQLParserResult::size is wrong");
  for (size_t i = 0; i < all.size(); ++i) {
    if (!(res.getStatement(i) == all[i] && res.getMutableStatement(i) == all[i])) c.fail("SQLParserResult::getStatement is wrong");
    a.statement(all[i]);
    if (all[i]->is(kStmtCreate)) {
      // Constraints by name.
      auto* k = (const CreateStatement*)all[i];
      std::vector<ConstraintType> cons;
      if (k->columns)
        for (auto* col : *k->columns)
          if (col->column_constraints) cons.insert(cons.end(), col->column_constraints->begin(), col->column_constraints->end());
      if (k->tableConstraints)
        for (auto* x : *k->tableConstraints) cons.push_back(x->type);
      for (auto x : cons) {
        std::ostringstream o;
        o << x << "|";
        const char* want = x == ConstraintType::Null ? "NULL|" : x == ConstraintType::NotNull ? "NOT NULL|" : x == ConstraintType::ForeignKey ? "FOREIGN KEY|" : x == ConstraintType::PrimaryKey ? "PRIMARY KEY|" : "UNIQUE|";
        if (!(o.str() == want)) c.fail("a constraint is printed as " + o.str() + " instead of " + want);
        c.label("constraints");
      }
    }
  }
  for (auto& x : a.types) {
    printType(c, x);
    for (auto& y : a.types) compareTypes(c, x, y);
  }
  if (a.aliases) c.label("aliases");
  if (a.tables) c.label("tables");
  if (a.literals) c.label("literals");
  if (!a.types.empty()) c.label("types");
  c.nontrivial = a.exprs > 0 || !a.types.empty();
}
const Register c29({"C29",
                    "All objects of parse results of generated statements are visited and their accessors compared with their fields; all column types of a result are compared with each other and printed; and pairs of column types "
                    "that differ in nothing, in one field by one bit, or in anything, are compared. Non-trivial: visits an expression or type, or compares types.",
                    accessors, 400000, 10000000});
}  // namespace
