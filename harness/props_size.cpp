// C28: long and deep texts.
#include <pthread.h>
#include <unistd.h>
#include <climits>
#include <cmath>
#include <cstring>
#include <time.h>
#include "common.h"
using namespace hsql;

namespace {
// Runs something on a stack of a given size; failures are passed on.
void onStack(size_t bytes, const std::function<void()>& f) {
  struct Arg {
    const std::function<void()>* f;
    bool failed = false;
    Failure failure;
  } arg{&f, false, {}};
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, bytes);
  pthread_t th;
  int rc = pthread_create(
      &th, &a,
      [](void* p) -> void* {
        auto* x = (Arg*)p;
        try {
          (*x->f)();
        } catch (Failure& e) {
          x->failed = true;
          x->failure = e;
        }
        return nullptr;
      },
      &arg);
  pthread_attr_destroy(&a);
  if (rc) {
    fprintf(stderr, "no thread with a stack of %zu bytes\n", bytes);
    _exit(77);
  }
  pthread_join(th, nullptr);
  if (arg.failed) throw arg.failure;
}
constexpr size_t kUserStack = 8u << 20;    // what a program usually has
constexpr size_t kOwnStack = 3000u << 20;  // for the harness's own recursion

struct Big {
  std::string text;
  // Checks the content; without it the text is compared with the reference parser.
  std::function<void(Case&, const SQLStatement*)> verify;
};
struct Family {
  const char* name;
  size_t max;  // elements in a thorough run
  std::function<Big(size_t n, Tape& t)> make;
};
std::string num(size_t i) { return std::to_string(i); }
std::string el(size_t i) { return "e" + std::to_string(i); }
std::string join(size_t n, const std::function<std::string(size_t)>& f, const char* sep) {
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    if (i) s += sep;
    s += f(i);
  }
  return s;
}
void same(Case& c, const char* got, const std::string& want, const char* what) {
  if (!got || want != got) c.fail(std::string(what) + " is " + (got ? std::string(got).substr(0, 80) : "missing") + " instead of " + want.substr(0, 80));
}
void count(Case& c, size_t got, size_t want, const char* what) {
  if (got != want) c.fail(std::string(what) + ": " + num(got) + " instead of " + num(want));
}
const SelectStatement* sel(Case& c, const SQLStatement* s) {
  c.check(s->type() == kStmtSelect, "not a SELECT");
  return (const SelectStatement*)s;
}
const Expr* item(Case& c, const SQLStatement* s) {
  auto* q = sel(c, s);
  c.check(q->selectList && q->selectList->size() == 1, "select list");
  return q->selectList->at(0);
}
void colRef(Case& c, const Expr* e, size_t i) {
  c.check(e && e->type == kExprColumnRef, "element " + num(i) + " is no column");
  same(c, e->name, el(i), "element");
}
void intLit(Case& c, const Expr* e, size_t i) {
  c.check(e && e->type == kExprLiteralInt, "element " + num(i) + " is no integer");
  c.check(e->ival == (int64_t)i, "element " + num(i) + " has value " + std::to_string(e->ival));
}
void refs(Case& c, const std::vector<Expr*>* v, size_t n, bool ints = false) {
  c.check(v, "no list");
  count(c, v->size(), n, "elements");
  for (size_t i = 0; i < n; ++i) ints ? intLit(c, (*v)[i], i) : colRef(c, (*v)[i], i);
}
void strs(Case& c, const std::vector<char*>* v, size_t n) {
  c.check(v, "no list");
  count(c, v->size(), n, "elements");
  for (size_t i = 0; i < n; ++i) same(c, (*v)[i], el(i), "element");
}
// A chain of one left-associative binary operator.
Family chain(const char* name, const char* op, OperatorType type, const char* before = "SELECT ", bool where = false) {
  return {name, 1000000, [=](size_t n, Tape&) {
            return Big{before + join(n, el, (std::string(" ") + op + " ").c_str()), [=](Case& c, const SQLStatement* s) {
                         const Expr* e = where ? sel(c, s)->whereClause : item(c, s);
                         for (size_t i = n; i-- > 1;) {
                           c.check(e && e->type == kExprOperator && e->opType == type, "operator " + num(i) + " is missing");
                           colRef(c, e->expr2, i);
                           e = e->expr;
                         }
                         colRef(c, e, 0);
                       }};
          }};
}
Family joins(const char* name, const char* op, std::function<std::string(size_t)> cond, JoinType type, std::function<void(Case&, const JoinDefinition*, size_t)> check) {
  return {name, 500000, [=](size_t n, Tape&) {
            std::string s = "SELECT a FROM e0";
            for (size_t i = 1; i < n; ++i) s += std::string(" ") + op + " " + el(i) + cond(i);
            return Big{s, [=](Case& c, const SQLStatement* st) {
                         const TableRef* t = sel(c, st)->fromTable;
                         for (size_t i = n; i-- > 1;) {
                           c.check(t && t->type == kTableJoin && t->join && t->join->type == type, "join " + num(i) + " is missing");
                           c.check(t->join->right && t->join->right->type == kTableName, "table " + num(i));
                           same(c, t->join->right->name, el(i), "table");
                           check(c, t->join, i);
                           t = t->join->left;
                         }
                         c.check(t && t->type == kTableName, "first table");
                         same(c, t->name, "e0", "table");
                       }};
          }};
}
// A list of names somewhere.
Family names(const char* name, const char* before, const char* after, std::function<const std::vector<char*>*(Case&, const SQLStatement*)> get) {
  return {name, 2200000, [=](size_t n, Tape&) {
            return Big{before + join(n, el, ", ") + after, [=](Case& c, const SQLStatement* s) { strs(c, get(c, s), n); }};
          }};
}
Family exprs(const char* name, const char* before, const char* after, bool ints, std::function<const std::vector<Expr*>*(Case&, const SQLStatement*)> get) {
  return {name, 2200000, [=](size_t n, Tape&) {
            return Big{before + join(n, ints ? num : el, ", ") + after, [=](Case& c, const SQLStatement* s) { refs(c, get(c, s), n, ints); }};
          }};
}
std::string bytes(size_t n, Tape& t) {
  uint32_t a = t.below(250);
  std::string s(n, 'x');
  for (size_t i = 0; i < n; ++i) {
    unsigned char b = (unsigned char)(1 + (a + i * 7 + i / 251) % 255);
    s[i] = b == '\'' || b == '"' || b == '\n' ? 'q' : (char)b;
  }
  return s;
}

// What texts in quotes and comments may be full of.
const char* const kStuff[] = {"(", ")", "()", "[", "]", ";", "?", ",", "-", "--", "--x\n", "/*", "*/", "*", "\\", "%", "\n", "\r\n", "\t", " ", "=", "@", "#", "$", ":", ".", "0", "_", "\"", "\"\"", "'", "e",
                              "SELECT ", "(SELECT ", "WITH HINT(", "CASE ", "a b", "\xc3\xa9", "\xff", "\x01", "\x80", "UNION ", "a,", "1.", "a;b", "?,", "x + "};
std::string of(size_t n, const char* what, bool keepQuote, bool keepDouble, bool keepNewline) {
  std::string s, w = what;
  s.reserve(n + w.size());
  while (s.size() < n) s += w;
  s.resize(n);
  for (auto& ch : s)
    if ((ch == '\'' && !keepQuote) || (ch == '"' && !keepDouble) || (ch == '\n' && !keepNewline)) ch = 'q';
  return s;
}
std::string doubled(const std::string& s) {
  std::string w;
  for (char ch : s) w += ch == '\'' ? std::string("''") : std::string(1, ch);
  return w;
}
void addStuff(std::vector<Family>& v) {
  for (const char* w : kStuff) {
    v.push_back({"string full of one thing", 1000000, [w](size_t n, Tape&) {
                   std::string s = of(n, w, true, true, true);
                   return Big{"INSERT INTO t VALUES ('" + doubled(s) + "')", [s](Case& c, const SQLStatement* st) {
                                auto* values = ((const InsertStatement*)st)->values;
                                c.check(values && values->size() == 1, "values");
                                same(c, values->at(0)->name, s, "string");
                              }};
                 }});
    v.push_back({"quoted name full of one thing", 1000000, [w](size_t n, Tape&) {
                   std::string s = of(n, w, true, false, false);
                   return Big{"SELECT a FROM \"" + s + "\" WHERE b", [s](Case& c, const SQLStatement* st) {
                                auto* f = sel(c, st)->fromTable;
                                same(c, f ? f->name : nullptr, s, "table");
                              }};
                 }});
    v.push_back({"comment full of one thing", 1000000, [w](size_t n, Tape&) {
                   return Big{"SELECT a, --" + of(n, w, true, true, false) + "\nb FROM t", [](Case& c, const SQLStatement* st) {
                                count(c, sel(c, st)->selectList->size(), 2, "elements");
                                same(c, sel(c, st)->selectList->at(1)->name, "b", "element");
                              }};
                 }});
    v.push_back({"PREPARE text full of one thing", 1000000, [w](size_t n, Tape&) {
                   std::string s = of(n, w, true, true, true);
                   return Big{"PREPARE p FROM '" + doubled(s) + "'", [s](Case& c, const SQLStatement* st) { same(c, ((const PrepareStatement*)st)->query, s, "query"); }};
                 }});
  }
}

std::vector<Family> makeFamilies();
const std::vector<Family>& families() {
  static const std::vector<Family> v = makeFamilies();
  return v;
}
std::vector<Family> makeFamilies() {
  std::vector<Family> v = {
      exprs("select list", "SELECT ", " FROM t", false, [](Case& c, const SQLStatement* s) { return sel(c, s)->selectList; }),
      exprs("select list of integers", "SELECT ", "", true, [](Case& c, const SQLStatement* s) { return sel(c, s)->selectList; }),
      exprs("IN list", "SELECT a FROM t WHERE b IN (", ")", true, [](Case& c, const SQLStatement* s) { return sel(c, s)->whereClause->exprList; }),
      exprs("function arguments", "SELECT f(", ")", false, [](Case& c, const SQLStatement* s) { return item(c, s)->exprList; }),
      exprs("array", "SELECT ARRAY[", "]", true, [](Case& c, const SQLStatement* s) { return item(c, s)->exprList; }),
      exprs("GROUP BY", "SELECT a FROM t GROUP BY ", "", false, [](Case& c, const SQLStatement* s) { return sel(c, s)->groupBy->columns; }),
      exprs("PARTITION BY", "SELECT f(a) OVER (PARTITION BY ", ")", false, [](Case& c, const SQLStatement* s) { return item(c, s)->windowDescription->partitionList; }),
      exprs("VALUES", "INSERT INTO t VALUES (", ")", true, [](Case&, const SQLStatement* s) { return ((const InsertStatement*)s)->values; }),
      exprs("EXECUTE", "EXECUTE p (", ")", true, [](Case&, const SQLStatement* s) { return ((const ExecuteStatement*)s)->parameters; }),
      exprs("hint arguments", "SELECT a WITH HINT (h(", "))", true, [](Case&, const SQLStatement* s) { return s->hints->at(0)->exprList; }),
      names("INSERT columns", "INSERT INTO t (", ") VALUES (1)", [](Case&, const SQLStatement* s) { return ((const InsertStatement*)s)->columns; }),
      names("view columns", "CREATE VIEW v (", ") AS SELECT a", [](Case&, const SQLStatement* s) { return ((const CreateStatement*)s)->viewColumns; }),
      names("index columns", "CREATE INDEX i ON t (", ")", [](Case&, const SQLStatement* s) { return ((const CreateStatement*)s)->indexColumns; }),
      names("alias columns", "SELECT a FROM t AS x (", ")", [](Case& c, const SQLStatement* s) { return sel(c, s)->fromTable->alias->columns; }),
      names("USING", "SELECT a FROM t JOIN u USING (", ")", [](Case& c, const SQLStatement* s) { return sel(c, s)->fromTable->join->namedColumns; }),
      names("locked tables", "SELECT a FROM t FOR UPDATE OF ", " NOWAIT", [](Case& c, const SQLStatement* s) { return sel(c, s)->lockings->at(0)->tables; }),
      names("table constraint", "CREATE TABLE t (a INT, PRIMARY KEY (", "))", [](Case&, const SQLStatement* s) { return ((const CreateStatement*)s)->tableConstraints->at(0)->columnNames; }),
      names("references", "CREATE TABLE t (a INT REFERENCES u (", "))", [](Case&, const SQLStatement* s) { return ((const CreateStatement*)s)->columns->at(0)->references->at(0)->columns; }),
      chain("+", "+", kOpPlus), chain("-", "-", kOpMinus), chain("*", "*", kOpAsterisk), chain("/", "/", kOpSlash), chain("%", "%", kOpPercentage), chain("^", "^", kOpCaret), chain("||", "||", kOpConcat),
      chain("AND", "AND", kOpAnd, "SELECT a FROM t WHERE ", true), chain("OR", "OR", kOpOr), 
      {"IS NULL", 500000, [](size_t n, Tape&) {
         std::string s = "SELECT a";
         for (size_t i = 0; i < n; ++i) s += " IS NULL";
         return Big{s, [n](Case& c, const SQLStatement* st) {
                      const Expr* e = item(c, st);
                      size_t k = 0;
                      for (; e && e->type == kExprOperator && e->opType == kOpIsNull; e = e->expr) ++k;
                      count(c, k, n, "IS NULL");
                      c.check(e && e->type == kExprColumnRef, "operand");
                    }};
       }},
      {"array indexes", 500000, [](size_t n, Tape&) {
         std::string s = "SELECT a";
         for (size_t i = 0; i < n; ++i) s += "[" + num(i) + "]";
         return Big{s, [n](Case& c, const SQLStatement* st) {
                      const Expr* e = item(c, st);
                      for (size_t i = n; i-- > 0; e = e->expr) {
                        c.check(e && e->type == kExprArrayIndex, "index " + num(i) + " is missing");
                        c.check(e->ival == (int64_t)i, "index " + num(i) + " is " + std::to_string(e->ival));
                      }
                      c.check(e && e->type == kExprColumnRef, "operand");
                    }};
       }},
      {"mixed operators", 200000, [](size_t n, Tape& t) {
         static const char* ops[] = {"+", "*", "||", "-", "^", "/", "%"};
         std::string s = "SELECT e0";
         for (size_t i = 1; i < n; ++i) s += std::string(" ") + ops[t.below(7)] + " " + el(i);
         return Big{s, nullptr};
       }},
      {"conditions", 200000, [](size_t n, Tape& t) {
         static const char* ops[] = {" AND ", " OR "};
         static const char* preds[] = {" = 1", " < 2", " IS NULL", " LIKE 'x'", " BETWEEN 1 AND 2", " IN (1, 2)", " + 1 > 3", " NOT IN (4)", ""};
         std::string s = "SELECT a FROM t WHERE ";
         for (size_t i = 0; i < n; ++i) s += (i ? ops[t.below(2)] : "") + std::string(t.chance(1, 6) ? "NOT " : "") + el(i) + preds[t.below(9)];
         return Big{s, nullptr};
       }},
      {"CASE branches", 500000, [](size_t n, Tape&) {
         std::string s = "SELECT CASE x";
         for (size_t i = 0; i < n; ++i) s += " WHEN " + num(i) + " THEN " + el(i);
         return Big{s + " ELSE y END", [n](Case& c, const SQLStatement* st) {
                      const Expr* e = item(c, st);
                      c.check(e->type == kExprOperator && e->opType == kOpCase && e->exprList, "CASE");
                      count(c, e->exprList->size(), n, "branches");
                      for (size_t i = 0; i < n; ++i) {
                        intLit(c, e->exprList->at(i)->expr, i);
                        colRef(c, e->exprList->at(i)->expr2, i);
                      }
                      same(c, e->expr ? e->expr->name : nullptr, "x", "operand");
                      same(c, e->expr2 ? e->expr2->name : nullptr, "y", "ELSE");
                    }};
       }},
      {"ORDER BY", 2200000, [](size_t n, Tape&) {
         return Big{"SELECT a FROM t ORDER BY " + join(n, [](size_t i) { return el(i) + (i % 3 == 1 ? " DESC" : i % 3 == 2 ? " ASC NULLS LAST" : ""); }, ","), [n](Case& c, const SQLStatement* st) {
                      auto* o = sel(c, st)->order;
                      c.check(o, "no ORDER BY");
                      count(c, o->size(), n, "items");
                      for (size_t i = 0; i < n; ++i) {
                        colRef(c, (*o)[i]->expr, i);
                        c.check((*o)[i]->type == (i % 3 == 1 ? kOrderDesc : kOrderAsc), "direction of item " + num(i));
                      }
                    }};
       }},
      {"UPDATE", 500000, [](size_t n, Tape&) {
         return Big{"UPDATE t SET " + join(n, [](size_t i) { return el(i) + " = " + num(i); }, ", ") + " WHERE x", [n](Case& c, const SQLStatement* st) {
                      auto* u = (const UpdateStatement*)st;
                      count(c, u->updates->size(), n, "updates");
                      for (size_t i = 0; i < n; ++i) {
                        same(c, u->updates->at(i)->column, el(i), "column");
                        intLit(c, u->updates->at(i)->value, i);
                      }
                      same(c, u->where ? u->where->name : nullptr, "x", "condition");
                    }};
       }},
      {"columns", 300000, [](size_t n, Tape&) {
         return Big{"CREATE TABLE t (" + join(n, [](size_t i) { return el(i) + " VARCHAR(" + num(i) + ")" + (i % 2 ? " NOT NULL" : ""); }, ", ") + ")", [n](Case& c, const SQLStatement* st) {
                      auto* k = (const CreateStatement*)st;
                      count(c, k->columns->size(), n, "columns");
                      for (size_t i = 0; i < n; ++i) {
                        auto* d = k->columns->at(i);
                        same(c, d->name, el(i), "column");
                        c.check(d->type.data_type == DataType::VARCHAR && d->type.length == (int64_t)i, "type of column " + num(i));
                        c.check(d->nullable == (i % 2 == 0), "nullability of column " + num(i));
                      }
                    }};
       }},
      {"column constraints", 300000, [](size_t n, Tape&) {
         std::string s = "CREATE TABLE t (a INT";
         for (size_t i = 0; i < n; ++i) s += i % 2 ? " NOT NULL" : " REFERENCES " + el(i);
         return Big{s + ")", [n](Case& c, const SQLStatement* st) {
                      auto* d = ((const CreateStatement*)st)->columns->at(0);
                      count(c, d->references->size(), (n + 1) / 2, "references");
                      for (size_t i = 0; i < n; i += 2) same(c, d->references->at(i / 2)->table, el(i), "table");
                    }};
       }},
      {"table constraints", 300000, [](size_t n, Tape&) {
         return Big{"CREATE TABLE t (" + join(n, [](size_t i) { return "UNIQUE (" + el(i) + ")"; }, ", ") + ", a INT)", [n](Case& c, const SQLStatement* st) {
                      auto* k = (const CreateStatement*)st;
                      count(c, k->columns->size(), 1, "columns");
                      count(c, k->tableConstraints->size(), n, "constraints");
                      for (size_t i = 0; i < n; ++i) same(c, k->tableConstraints->at(i)->columnNames->at(0), el(i), "column");
                    }};
       }},
      {"hints", 500000, [](size_t n, Tape&) {
         return Big{"SELECT a FROM t WITH HINT (" + join(n, [](size_t i) { return el(i) + (i % 2 ? "(" + num(i) + ")" : ""); }, ", ") + ")", [n](Case& c, const SQLStatement* st) {
                      c.check(st->hints, "no hints");
                      count(c, st->hints->size(), n, "hints");
                      for (size_t i = 0; i < n; ++i) {
                        same(c, st->hints->at(i)->name, el(i), "hint");
                        if (i % 2) intLit(c, st->hints->at(i)->exprList->at(0), i);
                      }
                    }};
       }},
      {"WITH", 200000, [](size_t n, Tape&) {
         return Big{"WITH " + join(n, [](size_t i) { return el(i) + " AS (SELECT " + num(i) + ")"; }, ", ") + " SELECT a", [n](Case& c, const SQLStatement* st) {
                      auto* w = sel(c, st)->withDescriptions;
                      c.check(w, "no WITH");
                      count(c, w->size(), n, "descriptions");
                      for (size_t i = 0; i < n; ++i) {
                        same(c, w->at(i)->alias, el(i), "name");
                        intLit(c, w->at(i)->select->selectList->at(0), i);
                      }
                    }};
       }},
      {"locking clauses", 300000, [](size_t n, Tape&) {
         std::string s = "SELECT a FROM t";
         for (size_t i = 0; i < n; ++i) s += (i % 2 ? " FOR SHARE OF " : " FOR UPDATE OF ") + el(i);
         return Big{s, [n](Case& c, const SQLStatement* st) {
                      auto* l = sel(c, st)->lockings;
                      c.check(l, "no locking clause");
                      count(c, l->size(), n, "clauses");
                      for (size_t i = 0; i < n; ++i) same(c, l->at(i)->tables->at(0), el(i), "table");
                    }};
       }},
      {"tables", 500000, [](size_t n, Tape&) {
         n = std::max<size_t>(n, 2);
         return Big{"SELECT a FROM " + join(n, el, ", "), [n](Case& c, const SQLStatement* st) {
                      auto* t = sel(c, st)->fromTable;
                      c.check(t->type == kTableCrossProduct && t->list, "no cross product");
                      count(c, t->list->size(), n, "tables");
                      for (size_t i = 0; i < n; ++i) same(c, t->list->at(i)->name, el(i), "table");
                    }};
       }},
      joins("JOIN ON", "JOIN", [](size_t i) { return " ON " + el(i); }, kJoinInner, [](Case& c, const JoinDefinition* j, size_t i) { colRef(c, j->condition, i); }),
      joins("LEFT JOIN USING", "LEFT JOIN", [](size_t i) { return " USING (" + el(i) + ")"; }, kJoinLeft,
            [](Case& c, const JoinDefinition* j, size_t i) {
              c.check(j->namedColumns && j->namedColumns->size() == 1, "USING of join " + num(i));
              same(c, j->namedColumns->at(0), el(i), "column");
            }),
      joins("NATURAL JOIN", "NATURAL JOIN", [](size_t) { return std::string(); }, kJoinNatural, [](Case& c, const JoinDefinition* j, size_t i) { c.check(!j->condition, "condition of join " + num(i)); }),
      {"parameters", 2200000, [](size_t n, Tape&) { return Big{"SELECT " + join(n, [](size_t) { return std::string("?"); }, ","), [n](Case& c, const SQLStatement* st) {
                                                              auto* l = sel(c, st)->selectList;
                                                              count(c, l->size(), n, "elements");
                                                              for (size_t i = 0; i < n; ++i)
                                                                c.check(l->at(i)->type == kExprParameter && l->at(i)->ival == (int64_t)i, "placeholder " + num(i));
                                                            }}; }},
      {"string", 16000000, [](size_t n, Tape& t) {
         std::string s = bytes(n, t), w;
         bool quotes = t.chance(1, 3);
         for (size_t i = 0; i < s.size(); ++i) w += quotes && i % 5 == 0 ? std::string("''") : std::string(1, s[i]);
         if (quotes)
           for (size_t i = 0; i < s.size(); i += 5) s[i] = '\'';
         return Big{"SELECT '" + w + "'", [s](Case& c, const SQLStatement* st) { same(c, item(c, st)->name, s, "string"); }};
       }},
      {"name", 16000000, [](size_t n, Tape& t) {
         n = std::max<size_t>(n, 1);
         std::string s(n, 'n');
         for (size_t i = 1; i < n; i += 3) s[i] = "aZ_09q"[(i + n) % 6];
         return Big{(t.chance(1, 2) ? "SELECT x AS " : "SELECT x ") + s, [s](Case& c, const SQLStatement* st) { same(c, item(c, st)->alias, s, "alias"); }};
       }},
      {"quoted name", 16000000, [](size_t n, Tape& t) {
         std::string s = bytes(std::max<size_t>(n, 1), t);
         return Big{"SELECT x AS \"" + s + "\" FROM t", [s](Case& c, const SQLStatement* st) { same(c, item(c, st)->alias, s, "alias"); }};
       }},
      {"comment", 16000000, [](size_t n, Tape& t) {
         return Big{"SELECT a, --" + bytes(n, t) + "\nb FROM t", [](Case& c, const SQLStatement* st) {
                      count(c, sel(c, st)->selectList->size(), 2, "elements");
                      same(c, sel(c, st)->selectList->at(1)->name, "b", "element");
                    }};
       }},
      {"comments", 2000000, [](size_t n, Tape&) {
         std::string s = "SELECT a,";
         for (size_t i = 0; i < n; ++i) s += "--;\n";
         return Big{s + "b", [](Case& c, const SQLStatement* st) { count(c, sel(c, st)->selectList->size(), 2, "elements"); }};
       }},
      {"blanks", 16000000, [](size_t n, Tape& t) {
         return Big{"SELECT a," + std::string(n, " \n\t\r"[t.below(4)]) + "b", [](Case& c, const SQLStatement* st) { count(c, sel(c, st)->selectList->size(), 2, "elements"); }};
       }},
      {"leading zeros", 4000000, [](size_t n, Tape&) { return Big{"SELECT " + std::string(n, '0') + "42", [](Case& c, const SQLStatement* st) { intLit(c, item(c, st), 42); }}; }},
      {"decimal places", 2000000, [](size_t n, Tape&) {
         return Big{"SELECT 2.5" + std::string(n, '0') + "1", [n](Case& c, const SQLStatement* st) {
                      auto* e = item(c, st);
                      c.check(e->type == kExprLiteralFloat && e->fval >= 2.5 && (n < 30 || e->fval == 2.5) && e->fval < 2.52, "value " + std::to_string(e->fval));
                    }};
       }},
      {"PREPARE text", 8000000, [](size_t n, Tape& t) {
         std::string s = bytes(n, t);
         return Big{"PREPARE p FROM '" + s + "'", [s](Case& c, const SQLStatement* st) { same(c, ((const PrepareStatement*)st)->query, s, "query"); }};
       }},
  };
  addStuff(v);
  return v;
}

// Nested texts: prefix^n core suffix^n.
struct Nest {
  const char *name, *before, *open, *core, *close, *after;
};
const Nest kNests[] = {
    {"parentheses", "SELECT ", "(", "a", ")", " FROM t"},
    {"scalar subqueries", "SELECT ", "(SELECT ", "a", ")", ""},
    {"subqueries in FROM", "SELECT a FROM ", "(SELECT a FROM ", "t", ") x", ""},
    {"subqueries in IN", "SELECT a FROM t WHERE ", "a IN (SELECT a FROM t WHERE ", "b", ")", ""},
    {"EXISTS", "SELECT a WHERE ", "EXISTS (SELECT a WHERE ", "b", ")", ""},
    {"function calls", "SELECT ", "f(x, ", "a", ")", ""},
    {"CASE", "SELECT ", "CASE WHEN x THEN ", "a", " END", ""},
    {"CASE ELSE", "SELECT ", "CASE x WHEN 1 THEN 2 ELSE ", "a", " END", ""},
    {"CASE WHEN", "SELECT ", "CASE WHEN ", "a", " THEN 1 END", ""},
    {"CAST", "SELECT ", "CAST(", "a", " AS INT)", ""},
    {"EXTRACT", "SELECT ", "EXTRACT(DAY FROM ", "a", ")", ""},
    {"arrays", "SELECT ", "ARRAY[", "a", "]", ""},
    {"IN lists", "SELECT ", "a IN (", "b", ")", ""},
    {"BETWEEN", "SELECT ", "(x BETWEEN ", "a", " AND y)", ""},
    {"window functions", "SELECT ", "f(x) OVER (PARTITION BY ", "a", ")", ""},
    {"unary minus", "SELECT ", "- ", "a", "", ""},
    {"NOT", "SELECT ", "NOT ", "a", "", ""},
    {"queries in parentheses", "", "(", "SELECT a", ")", ""},
    {"set operations", "", "SELECT x UNION ", "SELECT a", "", ""},
    {"set operations in parentheses", "", "(SELECT x INTERSECT ", "SELECT a", ")", ""},
    {"right-nested operators", "SELECT ", "x + (", "a", ")", ""},
    {"right-nested conditions", "SELECT a WHERE ", "x AND (y OR ", "a", ")", ""},
    {"right-nested joins", "SELECT a FROM t", " JOIN u", "", " ON x", ""},
    {"WITH", "WITH w AS (", "SELECT x FROM (", "SELECT a", ") y", ") SELECT b"},
    {"views", "CREATE VIEW v AS ", "SELECT x FROM (", "SELECT a", ") y", ""},
    {"INSERT", "INSERT INTO t ", "SELECT x FROM (", "SELECT a", ") y", ""},
    {"UPDATE", "UPDATE t SET a = ", "(", "b", ")", " WHERE c"},
    {"only opening", "SELECT ", "(", "a", "", ""},
    {"only closing", "SELECT ", "", "a", ")", ""},
};
constexpr size_t kNestCount = sizeof kNests / sizeof *kNests;

uint64_t logUniform(Tape& t, uint64_t max) {
  uint32_t b = 1;
  while ((1ull << b) <= max) ++b;
  uint64_t hi = 1ull << t.range(1, b);
  return std::min<uint64_t>(max, hi / 2 + t.below((uint32_t)(hi - hi / 2)));
}
size_t aSize(Tape& t, size_t max) {
  static const size_t edges[] = {200, 256, 1024, 4096, 8192, 10000, 16384, 32768, 65536, 131072};
  if (t.chance(1, 3)) {
    size_t e = edges[t.below(10)] + t.below(7);
    return std::min(max, e < 3 ? 0 : e - 3);
  }
  return logUniform(t, max);
}

double cpuNow() {
  timespec ts;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
// CPU time of parsing, tokenizing and destroying a text; several short runs count together.
double cost(Case& c, const std::string& text) {
  double used = 0;
  onStack(kUserStack, [&] {
    double from = cpuNow();
    {
      SQLParserResult r;
      SQLParser::parse(text, &r);
    }
    std::vector<int16_t> k;
    SQLParser::tokenize(text, &k);
    used = cpuNow() - from;
  });
  ++c.work;
  return used;
}
// Time may grow by a factor of 4 (and some for the caches) from a text to one that is four times as long. A quadratic part would be a factor of 16.
void growth(Case& c, const std::string& quarter, const std::string& whole) {
  double small = cost(c, quarter), big = cost(c, whole);
  for (int again = 0; again < 3; ++again) {
    if (big < 0.2 || big < 9.5 * small) {
      if (big >= 0.2) c.label(big < 5 * small ? "growth of time compared: less than 5" : big < 7 * small ? "growth of time compared: 5 to 7" : "growth of time compared: 7 to 9.5");
      return;
    }
    // Perhaps something else took the time.
    small = std::max(small, cost(c, quarter));
    big = std::min(big, cost(c, whole));
  }
  char text[100];
  snprintf(text, sizeof text, "%.3f s for a text, %.3f s for one four times as long", small, big);
  c.fail(std::string("time does not grow linearly: ") + text);
}
void big(Case& c) {
  Tape& t = c.tape;
  auto& fam = families();
  static const size_t kStuffFamilies = 4 * (sizeof kStuff / sizeof *kStuff);
  const size_t kLong = fam.size(), kNestN = kNestCount * 2;
  bool nested = false, broken = false;
  size_t n = 0, copies = 1;
  std::string name;
  Big b;
  const Nest* nest = nullptr;
  if (c.index < kLong) {
    // Each family at a large size.
    auto& f = fam[c.index];
    n = c.thorough ? f.max : f.max / 2;
    name = f.name;
    b = f.make(n, t);
    c.label("each family at a large size");
  } else if (c.index < kLong + kNestN) {
    nest = &kNests[(c.index - kLong) / 2];
    n = (c.index - kLong) % 2 ? (c.thorough ? 1000000 : 300000) : 10;
  } else {
    const bool every = c.index == kLong + kNestN;
    switch (every ? 2 : t.weighted({60, 30, 10})) {
      case 0: {
        const size_t plain = fam.size() - kStuffFamilies;
        auto& f = t.chance(1, 4) ? fam[plain + t.below((uint32_t)kStuffFamilies)] : fam[t.below((uint32_t)plain)];
        n = std::max<size_t>(1, aSize(t, c.thorough ? f.max / 3 : f.max / 60));
        name = f.name;
        b = f.make(n, t);
        if (t.chance(1, 5)) {
          // An error after all that.
          static const char* tails[] = {" )", " (", " 'x", " @", " SELECT", " ,", " FROM FROM"};
          b.text += tails[t.below(7)];
          broken = true;
        }
        break;
      }
      case 1:
        nest = &kNests[t.below((uint32_t)kNestCount)];
        n = t.chance(2, 3) ? 1 + t.below(250) : aSize(t, c.thorough ? 300000 : 30000);
        break;
      default: {
        // Many statements.
        copies = every ? (c.thorough ? 1100000 : 140000) : std::max<size_t>(1, aSize(t, c.thorough ? 200000 : 20000));
        static const std::vector<std::string> stmts = {"SELECT a FROM t WHERE b = ?", "INSERT INTO t VALUES (1, 'x')", "DELETE FROM t WHERE a = '?'", "COMMIT", "CREATE TABLE t (a INT NOT NULL)", "DROP TABLE t",
                                                       "EXECUTE p (1)", "UPDATE t SET a = ?, b = ?"};
        std::vector<size_t> which;
        for (size_t i = 0; i < copies; ++i) {
          which.push_back(copies > 5000 ? i * 7 % stmts.size() : t.below((uint32_t)stmts.size()));
          b.text += stmts[which.back()] + ";" + (i % 3 ? "\n" : "");
        }
        name = "statements";
        n = copies;
        c.label(name);
        SQLParserResult* res = new SQLParserResult;
        c.input = b.text;
        c.nontrivial = n >= 100;
        onStack(kUserStack, [&] { SQLParser::parse(b.text, res); });
        ++c.work;
        c.check(res->isValid(), std::string("rejected: ") + (res->errorMsg() ? res->errorMsg() : ""));
        count(c, res->size(), copies, "statements");
        std::vector<std::string> alone;
        for (auto& s : stmts) {
          SQLParserResult r;
          SQLParser::parse(s, &r);
          alone.push_back(impl::dump(r.getStatement(0)));
        }
        static const size_t params[] = {1, 0, 0, 0, 0, 0, 0, 2};
        size_t p = 0;
        for (size_t i = 0; i < copies; ++i) {
          std::string d = impl::dump(res->getStatement(i), (int64_t)p);
          c.check(d == alone[which[i]], "statement " + num(i) + ": " + diffText(alone[which[i]], d));
          p += params[which[i]];
        }
        count(c, res->parameters().size(), p, "parameters");
        onStack(kUserStack, [&] { delete res; });
        if (copies >= 4000) {
          size_t cut = 0;
          for (size_t i = 0; i < copies / 4; ++i) cut = b.text.find(';', cut) + 1;
          growth(c, b.text.substr(0, cut), b.text);
        }
        return;
      }
    }
  }
  if (nest) {
    nested = true;
    name = std::string("nested ") + nest->name;
    std::string s = nest->before;
    for (size_t i = 0; i < n; ++i) s += nest->open;
    s += nest->core;
    for (size_t i = 0; i < n; ++i) s += nest->close;
    b.text = s + nest->after;
    if (!*nest->close && n) nested = true;
  }
  c.label(nested ? "nested" : "long");
  c.label(name);
  c.input = b.text.size() > 20000 ? name + " x " + num(n) + " (" + num(b.text.size()) + " bytes, hash " + std::to_string(hashStr(b.text)) + ")" : b.text;
  c.nontrivial = n >= 100 || (nested && n >= 10);
  if (n >= 10000) c.label("10000 or more");

  SQLParserResult* res = new SQLParserResult;
  bool ran = false;
  onStack(kUserStack, [&] { ran = SQLParser::parse(b.text, res); });
  ++c.work;
  c.check(ran, "parse returned false");
  auto destroy = [&] {
    onStack(kUserStack, [&] { delete res; });
  };
  auto clean = [&] {
    c.check(!res->isValid() && res->size() == 0 && res->parameters().empty() && res->errorMsg() && *res->errorMsg(), "rejected, but not cleanly");
    c.label("rejected");
  };
  if (broken) {
    c.check(!res->isValid(), "accepted although it ends in an error");
    clean();
    destroy();
    return;
  }
  if (nested) {
    bool lopsided = std::string(nest->name).rfind("only", 0) == 0;
    if (lopsided && n) {
      c.check(!res->isValid(), "unbalanced parentheses are accepted");
      clean();
      destroy();
      return;
    }
    if (!res->isValid()) {
      c.check(n > 10, "only " + num(n) + " levels, but rejected: " + (res->errorMsg() ? res->errorMsg() : ""));
      clean();
      destroy();
      return;
    }
    c.label("accepted");
  } else {
    c.check(res->isValid(), std::string("rejected: ") + (res->errorMsg() ? res->errorMsg() : ""));
    c.check(res->size() == 1, "not one statement");
  }
  if (b.verify) {
    b.verify(c, res->getStatement(0));
    if (name == "parameters") count(c, res->parameters().size(), n, "parameters");
  } else {
    onStack(kOwnStack, [&] {
      auto r = ref::parse(b.text);
      c.check(r.valid, "the reference parser rejects it");
      std::string want = ref::dump(r), got = impl::dump(*res);
      c.check(want == got, "content differs: " + diffText(want, got));
    });
  }
  if (c.index < 1000 || t.chance(1, 4)) {
    std::vector<int16_t> tok, expect;
    SQLParser::tokenize(b.text, &tok);
    ++c.work;
    count(c, tok.size(), ref::lex(b.text).size(), "tokens");
  }
  destroy();
  if (c.index < kLong) {
    growth(c, fam[c.index].make(n / 4, t).text, b.text);
  }
}
Prop c28prop() {
  Prop p;
  p.id = "C28";
  p.rule =
      "Texts with a list, chain, name, string, comment or number of a given length (strings, quoted names and comments also full of one thing: parentheses, semicolons, quotes, keywords...; each of these families once at a large size, up to millions in thorough runs, then at random sizes with emphasis on powers of two), "
      "with an error appended in some; sequences of up to 200000 statements; and texts nested n deep in 29 ways (n = 10, a very large n, random n). Parsing and destruction run on a stack of 8 MB. Every element is checked to be "
      "in place; nested texts may be rejected from 11 levels on, but only cleanly. The CPU time for a text is compared with that for one a quarter as long. Non-trivial: 100 elements or 10 levels.";
  p.run = big;
  p.quick = 6000;
  p.thorough = 30000;
  p.workers = 8;
  p.cpuSeconds = 60;
  p.enumerated = families().size() + kNestCount * 2 + 1;
  p.memMB = 12000;
  return p;
}
const Register c28(c28prop());
}  // namespace
