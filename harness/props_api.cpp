// Statement objects built, copied and changed by hand: C31.
#ifndef NO_API
#include <algorithm>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <memory>
#include <sstream>
#include "alloc.h"
#include "common.h"
#include "util/sqlhelper.h"
#include "walk.h"
using namespace gen;
using namespace hsql;

namespace {
char* dup(const char* s) { return s ? strdup(s) : nullptr; }

// ---------------------------------------------------------------- copies, by the public constructors
SelectStatement* copySelect(const SelectStatement* q);
Expr* copyExpr(const Expr* e);
std::vector<char*>* copyStrs(const std::vector<char*>* v) {
  if (!v) return nullptr;
  auto* r = new std::vector<char*>();
  for (auto* x : *v) r->push_back(dup(x));
  return r;
}
std::vector<Expr*>* copyExprs(const std::vector<Expr*>* v) {
  if (!v) return nullptr;
  auto* r = new std::vector<Expr*>();
  for (auto* x : *v) r->push_back(copyExpr(x));
  return r;
}
std::vector<OrderDescription*>* copyOrders(const std::vector<OrderDescription*>* v) {
  if (!v) return nullptr;
  auto* r = new std::vector<OrderDescription*>();
  for (auto* x : *v) r->push_back(new OrderDescription(x->type, copyExpr(x->expr), x->null_ordering));
  return r;
}
LimitDescription* copyLimit(const LimitDescription* l) { return l ? new LimitDescription(copyExpr(l->limit), copyExpr(l->offset)) : nullptr; }
WindowDescription* copyWindow(const WindowDescription* w) {
  if (!w) return nullptr;
  auto* f = w->frameDescription;
  auto bound = [](const FrameBound* b) { return b ? new FrameBound(b->offset, b->type, b->unbounded) : nullptr; };
  return new WindowDescription(copyExprs(w->partitionList), copyOrders(w->orderList), f ? new FrameDescription(f->type, bound(f->start), bound(f->end)) : nullptr);
}
Expr* copyOperator(const Expr* e) {
  switch (e->opType) {
    case kOpBetween:
      return Expr::makeBetween(copyExpr(e->expr), copyExpr((*e->exprList)[0]), copyExpr((*e->exprList)[1]));
    case kOpCase: {
      Expr* list = nullptr;
      for (auto* x : *e->exprList) {
        Expr* one = Expr::makeCaseListElement(copyExpr(x->expr), copyExpr(x->expr2));
        list = list ? Expr::caseListAppend(list, one) : Expr::makeCaseList(one);
      }
      return Expr::makeCase(copyExpr(e->expr), list, copyExpr(e->expr2));
    }
    case kOpExists:
      return Expr::makeExists(copySelect(e->select));
    case kOpIn:
      return e->select ? Expr::makeInOperator(copyExpr(e->expr), copySelect(e->select)) : Expr::makeInOperator(copyExpr(e->expr), copyExprs(e->exprList));
    default:
      return e->expr2 ? Expr::makeOpBinary(copyExpr(e->expr), e->opType, copyExpr(e->expr2)) : Expr::makeOpUnary(e->opType, copyExpr(e->expr));
  }
}
Expr* copyExpr(const Expr* e) {
  if (!e) return nullptr;
  Expr* r;
  switch (e->type) {
    case kExprLiteralInt: r = e->isBoolLiteral ? Expr::makeLiteral(e->ival != 0) : Expr::makeLiteral((int64_t)e->ival); break;
    case kExprLiteralFloat: r = Expr::makeLiteral((double)e->fval); break;
    case kExprLiteralString: r = Expr::makeLiteral(dup(e->name)); break;
    case kExprLiteralNull: r = Expr::makeNullLiteral(); break;
    case kExprLiteralDate: r = Expr::makeDateLiteral(dup(e->name)); break;
    case kExprLiteralInterval: r = Expr::makeIntervalLiteral(e->ival, e->datetimeField); break;
    case kExprStar: r = e->table ? Expr::makeStar(dup(e->table)) : Expr::makeStar(); break;
    case kExprParameter:
      r = Expr::makeParameter((int)e->ival);
      r->ival2 = e->ival2;
      break;
    case kExprColumnRef: r = e->table ? Expr::makeColumnRef(dup(e->table), dup(e->name)) : Expr::makeColumnRef(dup(e->name)); break;
    case kExprFunctionRef:
      r = e->schema ? Expr::makeFunctionRef(dup(e->name), dup(e->schema), copyExprs(e->exprList), e->distinct, copyWindow(e->windowDescription))
                    : Expr::makeFunctionRef(dup(e->name), copyExprs(e->exprList), e->distinct, copyWindow(e->windowDescription));
      break;
    case kExprOperator: r = copyOperator(e); break;
    case kExprSelect: r = Expr::makeSelect(copySelect(e->select)); break;
    case kExprArray: r = Expr::makeArray(copyExprs(e->exprList)); break;
    case kExprArrayIndex: r = Expr::makeArrayIndex(copyExpr(e->expr), e->ival); break;
    case kExprExtract: r = Expr::makeExtract(e->datetimeField, copyExpr(e->expr)); break;
    case kExprCast: r = Expr::makeCast(copyExpr(e->expr), e->columnType); break;
    default:
      r = Expr::make(e->type);
      r->name = dup(e->name);
      r->exprList = copyExprs(e->exprList);
  }
  r->alias = dup(e->alias);
  return r;
}
Alias* copyAlias(const Alias* a) { return !a ? nullptr : a->columns ? new Alias(dup(a->name), copyStrs(a->columns)) : new Alias(dup(a->name)); }
TableRef* copyTable(const TableRef* x) {
  if (!x) return nullptr;
  auto* r = new TableRef(x->type);
  r->schema = dup(x->schema);
  r->name = dup(x->name);
  r->alias = copyAlias(x->alias);
  r->select = copySelect(x->select);
  if (x->list) {
    r->list = new std::vector<TableRef*>();
    for (auto* y : *x->list) r->list->push_back(copyTable(y));
  }
  if (auto* j = x->join) {
    auto* d = new JoinDefinition();
    d->left = copyTable(j->left);
    d->right = copyTable(j->right);
    d->condition = copyExpr(j->condition);
    d->namedColumns = copyStrs(j->namedColumns);
    d->type = j->type;
    r->join = d;
  }
  return r;
}
void common(SQLStatement* to, const SQLStatement* from) {
  to->stringLength = from->stringLength;
  to->hints = copyExprs(from->hints);
}
SelectStatement* copySelect(const SelectStatement* q) {
  if (!q) return nullptr;
  auto* r = new SelectStatement();
  common(r, q);
  r->fromTable = copyTable(q->fromTable);
  r->selectDistinct = q->selectDistinct;
  r->selectList = copyExprs(q->selectList);
  r->whereClause = copyExpr(q->whereClause);
  if (q->groupBy) {
    r->groupBy = new GroupByDescription();
    r->groupBy->columns = copyExprs(q->groupBy->columns);
    r->groupBy->having = copyExpr(q->groupBy->having);
  }
  if (q->setOperations) {
    r->setOperations = new std::vector<SetOperation*>();
    for (auto* o : *q->setOperations) {
      auto* n = new SetOperation();
      n->setType = o->setType;
      n->isAll = o->isAll;
      n->nestedSelectStatement = copySelect(o->nestedSelectStatement);
      n->resultOrder = copyOrders(o->resultOrder);
      n->resultLimit = copyLimit(o->resultLimit);
      r->setOperations->push_back(n);
    }
  }
  r->order = copyOrders(q->order);
  if (q->withDescriptions) {
    r->withDescriptions = new std::vector<WithDescription*>();
    for (auto* w : *q->withDescriptions) {
      auto* n = new WithDescription();
      n->alias = dup(w->alias);
      n->select = copySelect(w->select);
      r->withDescriptions->push_back(n);
    }
  }
  r->limit = copyLimit(q->limit);
  if (q->lockings) {
    r->lockings = new std::vector<LockingClause*>();
    for (auto* l : *q->lockings) {
      auto* n = new LockingClause();
      n->rowLockMode = l->rowLockMode;
      n->rowLockWaitPolicy = l->rowLockWaitPolicy;
      n->tables = copyStrs(l->tables);
      r->lockings->push_back(n);
    }
  }
  return r;
}
ReferencesSpecification* copyRefs(const ReferencesSpecification* r) { return r ? new ReferencesSpecification(dup(r->schema), dup(r->table), copyStrs(r->columns)) : nullptr; }
CsvOptions* copyCsv(const CsvOptions* c) {
  if (!c) return nullptr;
  auto* r = new CsvOptions();
  r->delimiter = dup(c->delimiter);
  r->null = dup(c->null);
  r->quote = dup(c->quote);
  return r;
}
SQLStatement* copyStatement(const SQLStatement* s, Tape& t) {
  SQLStatement* res = nullptr;
  switch (s->type()) {
    case kStmtSelect: return copySelect((const SelectStatement*)s);
    case kStmtImport: {
      auto* x = (const ImportStatement*)s;
      auto* r = new ImportStatement(x->type);
      r->filePath = dup(x->filePath);
      r->schema = dup(x->schema);
      r->tableName = dup(x->tableName);
      r->whereClause = copyExpr(x->whereClause);
      r->encoding = dup(x->encoding);
      r->csv_options = copyCsv(x->csv_options);
      res = r;
      break;
    }
    case kStmtExport: {
      auto* x = (const ExportStatement*)s;
      auto* r = new ExportStatement(x->type);
      r->filePath = dup(x->filePath);
      r->schema = dup(x->schema);
      r->tableName = dup(x->tableName);
      r->select = copySelect(x->select);
      r->encoding = dup(x->encoding);
      r->csv_options = copyCsv(x->csv_options);
      res = r;
      break;
    }
    case kStmtInsert: {
      auto* x = (const InsertStatement*)s;
      auto* r = new InsertStatement(x->type);
      r->schema = dup(x->schema);
      r->tableName = dup(x->tableName);
      r->columns = copyStrs(x->columns);
      r->values = copyExprs(x->values);
      r->select = copySelect(x->select);
      res = r;
      break;
    }
    case kStmtUpdate: {
      auto* x = (const UpdateStatement*)s;
      auto* r = new UpdateStatement();
      r->table = copyTable(x->table);
      if (x->updates) {
        r->updates = new std::vector<UpdateClause*>();
        for (auto* u : *x->updates) {
          auto* n = new UpdateClause();
          n->column = dup(u->column);
          n->value = copyExpr(u->value);
          r->updates->push_back(n);
        }
      }
      r->where = copyExpr(x->where);
      res = r;
      break;
    }
    case kStmtDelete: {
      auto* x = (const DeleteStatement*)s;
      auto* r = new DeleteStatement();
      r->schema = dup(x->schema);
      r->tableName = dup(x->tableName);
      r->expr = copyExpr(x->expr);
      res = r;
      break;
    }
    case kStmtCreate: {
      auto* x = (const CreateStatement*)s;
      auto* r = new CreateStatement(x->type);
      r->ifNotExists = x->ifNotExists;
      r->filePath = dup(x->filePath);
      r->schema = dup(x->schema);
      r->tableName = dup(x->tableName);
      r->indexName = dup(x->indexName);
      r->indexColumns = copyStrs(x->indexColumns);
      r->viewColumns = copyStrs(x->viewColumns);
      r->select = copySelect(x->select);
      if (x->columns) {
        // Columns and constraints in one list, as in the text. Their order among each other does not matter.
        auto* elements = new std::vector<TableElement*>();
        size_t i = 0, j = 0, m = x->tableConstraints ? x->tableConstraints->size() : 0;
        while (i < x->columns->size() || j < m) {
          if (j < m && (i == x->columns->size() || t.chance(1, 3))) {
            auto* k = (*x->tableConstraints)[j++];
            if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(k)) elements->push_back(new ForeignKeyConstraint(copyStrs(k->columnNames), copyRefs(f->references)));
            else elements->push_back(new TableConstraint(k->type, copyStrs(k->columnNames)));
          } else {
            auto* k = (*x->columns)[i++];
            auto* refs = new std::vector<ReferencesSpecification*>();
            for (auto* y : *k->references) refs->push_back(copyRefs(y));
            auto* n = new ColumnDefinition(dup(k->name), k->type, new std::unordered_set<ConstraintType>(*k->column_constraints), refs);
            n->nullable = k->nullable;
            elements->push_back(n);
          }
        }
        r->setColumnDefsAndConstraints(elements);
        delete elements;
      }
      res = r;
      break;
    }
    case kStmtDrop: {
      auto* x = (const DropStatement*)s;
      auto* r = new DropStatement(x->type);
      if (x->ifExists) r->ifExists = true;
      r->schema = dup(x->schema);
      r->name = dup(x->name);
      r->indexName = dup(x->indexName);
      res = r;
      break;
    }
    case kStmtAlter: {
      auto* x = (const AlterStatement*)s;
      auto* a = (const DropColumnAction*)x->action;
      auto* d = new DropColumnAction(dup(a->columnName));
      if (a->ifExists) d->ifExists = true;
      auto* r = new AlterStatement(dup(x->name), d);
      r->schema = dup(x->schema);
      if (x->ifTableExists) r->ifTableExists = true;
      res = r;
      break;
    }
    case kStmtShow: {
      auto* x = (const ShowStatement*)s;
      auto* r = new ShowStatement(x->type);
      r->schema = dup(x->schema);
      r->name = dup(x->name);
      res = r;
      break;
    }
    case kStmtPrepare: {
      auto* x = (const PrepareStatement*)s;
      auto* r = new PrepareStatement();
      r->name = dup(x->name);
      r->query = dup(x->query);
      res = r;
      break;
    }
    case kStmtExecute: {
      auto* x = (const ExecuteStatement*)s;
      auto* r = new ExecuteStatement();
      r->name = dup(x->name);
      r->parameters = copyExprs(x->parameters);
      res = r;
      break;
    }
    case kStmtTransaction:
      res = new TransactionStatement(((const TransactionStatement*)s)->command);
      break;
    default:
      return nullptr;
  }
  common(res, s);
  return res;
}
std::string printed(const SQLStatement* s) {
  std::ostringstream o, e;
  auto* old = std::cout.rdbuf(o.rdbuf());
  auto* olde = std::cerr.rdbuf(e.rdbuf());
  printStatementInfo(s);
  std::cout.rdbuf(old);
  std::cerr.rdbuf(olde);
  return o.str() + e.str();
}

// ---------------------------------------------------------------- places of parts in a tree
struct Places {
  std::vector<Expr**> ex;
  std::vector<TableRef**> tb;
  std::vector<SelectStatement**> se;
  std::vector<char**> st;
  std::vector<std::vector<Expr*>**> li;
  std::vector<WindowDescription**> wi;
  std::vector<LimitDescription**> lm;
  std::vector<Alias**> al;
  std::vector<std::vector<OrderDescription*>**> od;
  std::vector<std::vector<char*>**> sl;
  std::vector<std::vector<TableRef*>**> tl;
  std::vector<JoinDefinition**> jo;
  void str(char*& s) { st.push_back(&s); }
  void strs(std::vector<char*>*& v) {
    sl.push_back(&v);
    if (v)
      for (auto& x : *v) str(x);
  }
  void list(std::vector<Expr*>*& v) {
    li.push_back(&v);
    if (v)
      for (auto& x : *v) expr(x);
  }
  void orders(std::vector<OrderDescription*>*& v) {
    od.push_back(&v);
    if (v)
      for (auto* o : *v) expr(o->expr);
  }
  void limit(LimitDescription*& l) {
    lm.push_back(&l);
    if (l) expr(l->limit), expr(l->offset);
  }
  void window(WindowDescription*& w) {
    wi.push_back(&w);
    if (w) list(w->partitionList), orders(w->orderList);
  }
  void expr(Expr*& e) {
    ex.push_back(&e);
    if (!e) return;
    str(e->name), str(e->table), str(e->schema), str(e->alias);
    expr(e->expr), expr(e->expr2);
    list(e->exprList);
    select(e->select);
    window(e->windowDescription);
  }
  void table(TableRef*& x) {
    tb.push_back(&x);
    if (!x) return;
    str(x->schema), str(x->name);
    select(x->select);
    al.push_back(&x->alias);
    if (x->alias) str(x->alias->name), strs(x->alias->columns);
    tl.push_back(&x->list);
    if (x->list)
      for (auto& y : *x->list) table(y);
    jo.push_back(&x->join);
    if (x->join) {
      table(x->join->left), table(x->join->right);
      expr(x->join->condition);
      strs(x->join->namedColumns);
    }
  }
  void select(SelectStatement*& q) {
    se.push_back(&q);
    if (q) body(q);
  }
  void body(SelectStatement* q) {
    list(q->hints);
    table(q->fromTable);
    list(q->selectList);
    expr(q->whereClause);
    if (q->groupBy) list(q->groupBy->columns), expr(q->groupBy->having);
    if (q->setOperations)
      for (auto* o : *q->setOperations) select(o->nestedSelectStatement), orders(o->resultOrder), limit(o->resultLimit);
    orders(q->order);
    if (q->withDescriptions)
      for (auto* w : *q->withDescriptions) str(w->alias), select(w->select);
    limit(q->limit);
    if (q->lockings)
      for (auto* l : *q->lockings) strs(l->tables);
  }
  void csv(CsvOptions* c) {
    if (c) str(c->delimiter), str(c->null), str(c->quote);
  }
  void statement(SQLStatement* s) {
    if (s->type() == kStmtSelect) return body((SelectStatement*)s);
    list(s->hints);
    switch (s->type()) {
      case kStmtImport: {
        auto* x = (ImportStatement*)s;
        str(x->filePath), str(x->schema), str(x->tableName), str(x->encoding);
        expr(x->whereClause);
        csv(x->csv_options);
        break;
      }
      case kStmtExport: {
        auto* x = (ExportStatement*)s;
        str(x->filePath), str(x->schema), str(x->tableName), str(x->encoding);
        select(x->select);
        csv(x->csv_options);
        break;
      }
      case kStmtInsert: {
        auto* x = (InsertStatement*)s;
        str(x->schema), str(x->tableName);
        strs(x->columns);
        list(x->values);
        select(x->select);
        break;
      }
      case kStmtUpdate: {
        auto* x = (UpdateStatement*)s;
        table(x->table);
        if (x->updates)
          for (auto* u : *x->updates) str(u->column), expr(u->value);
        expr(x->where);
        break;
      }
      case kStmtDelete: {
        auto* x = (DeleteStatement*)s;
        str(x->schema), str(x->tableName);
        expr(x->expr);
        break;
      }
      case kStmtCreate: {
        auto* x = (CreateStatement*)s;
        str(x->filePath), str(x->schema), str(x->tableName), str(x->indexName);
        strs(x->indexColumns), strs(x->viewColumns);
        select(x->select);
        break;
      }
      case kStmtDrop: {
        auto* x = (DropStatement*)s;
        str(x->schema), str(x->name), str(x->indexName);
        break;
      }
      case kStmtAlter: {
        auto* x = (AlterStatement*)s;
        str(x->schema), str(x->name);
        break;
      }
      case kStmtShow: {
        auto* x = (ShowStatement*)s;
        str(x->schema), str(x->name);
        break;
      }
      case kStmtPrepare: {
        auto* x = (PrepareStatement*)s;
        str(x->name), str(x->query);
        break;
      }
      case kStmtExecute: {
        auto* x = (ExecuteStatement*)s;
        str(x->name);
        list(x->parameters);
        break;
      }
      default:
        break;
    }
  }
};
template <class T>
void freeLists(std::vector<T*>* v) {
  if (v)
    for (auto* x : *v) delete x;
  delete v;
}

std::string statementText(Tape& t, int nodes) {
  Gen g(t);
  g.maxNodes = nodes;
  g.statement(g.anyStatement());
  return render(t, g.out);
}
struct Pool {
  std::vector<Expr*> ex;
  std::vector<TableRef*> tb;
  std::vector<SelectStatement*> se;
  std::vector<char*> st;
  std::vector<std::vector<Expr*>*> li;
  std::vector<WindowDescription*> wi;
  std::vector<LimitDescription*> lm;
  std::vector<Alias*> al;
  std::vector<std::vector<OrderDescription*>*> od;
  std::vector<std::vector<char*>*> sl;
  std::vector<std::vector<TableRef*>*> tl;
  std::vector<JoinDefinition*> jo;
  void clear() {
    for (auto* x : sl) {
      for (auto* y : *x) free(y);
      delete x;
    }
    for (auto* x : tl) freeLists(x);
    for (auto* x : jo) delete x;
    for (auto* x : ex) delete x;
    for (auto* x : tb) delete x;
    for (auto* x : se) delete x;
    for (auto* x : st) free(x);
    for (auto* x : li) freeLists(x);
    for (auto* x : wi) delete x;
    for (auto* x : lm) delete x;
    for (auto* x : al) delete x;
    for (auto* x : od) freeLists(x);
    *this = Pool();
  }
};
// Exchanges the part at one of the places with one from the pool, takes it out, or puts one in.
template <class T>
bool exchange(Tape& t, const std::vector<T**>& places, std::vector<T*>& pool) {
  if (places.empty()) return false;
  T** p = t.pick(places);
  T* in = nullptr;
  if (!pool.empty() && t.chance(2, 3)) {
    size_t k = t.below((uint32_t)pool.size());
    in = pool[k];
    pool.erase(pool.begin() + (long)k);
  }
  if (*p) pool.push_back(*p);
  *p = in;
  return true;
}

SQLStatement* bare(Tape& t) {
  switch (t.below(14)) {
    case 0: return new SelectStatement();
    case 1: return new ImportStatement(t.chance(1, 2) ? kImportCSV : kImportAuto);
    case 2: return new ExportStatement(kImportTbl);
    case 3: return new InsertStatement(t.chance(1, 2) ? kInsertValues : kInsertSelect);
    case 4: return new UpdateStatement();
    case 5: return new DeleteStatement();
    case 6: return new CreateStatement((CreateType)t.below(4));
    case 7: return new DropStatement((DropType)t.below(5));
    case 8: return new AlterStatement(strdup("t"), t.chance(1, 4) ? nullptr : new DropColumnAction(strdup("c")));
    case 9: return new ShowStatement(t.chance(1, 2) ? kShowColumns : kShowTables);
    case 10: return new PrepareStatement();
    case 11: return new ExecuteStatement();
    case 12: return new TransactionStatement(kBeginTransaction);
    default: return new SelectStatement();
  }
}

// What an object owns does not depend on its kind.
bool changeKind(Tape& t, SQLStatement* s, Places& p) {
  if (t.chance(1, 3)) {
    switch (s->type()) {
      case kStmtImport: ((ImportStatement*)s)->type = (ImportType)t.below(4); return true;
      case kStmtExport: ((ExportStatement*)s)->type = (ImportType)t.below(4); return true;
      case kStmtInsert: ((InsertStatement*)s)->type = (InsertType)t.below(2); return true;
      case kStmtCreate: ((CreateStatement*)s)->type = (CreateType)t.below(4); return true;
      case kStmtDrop: ((DropStatement*)s)->type = (DropType)t.below(5); return true;
      case kStmtShow: ((ShowStatement*)s)->type = (ShowType)t.below(2); return true;
      case kStmtTransaction: ((TransactionStatement*)s)->command = (TransactionCommand)t.below(3); return true;
      default: break;
    }
  }
  if (t.chance(1, 2) && !p.tb.empty()) {
    TableRef* x = *t.pick(p.tb);
    if (!x) return false;
    x->type = (TableRefType)t.below(4);
    if (x->join) x->join->type = (JoinType)t.below(6);
    return true;
  }
  if (p.ex.empty()) return false;
  Expr* e = *t.pick(p.ex);
  if (!e) return false;
  e->type = (ExprType)t.below((uint32_t)kExprLiteralInterval + 1);
  if (t.chance(1, 2)) e->opType = t.chance(1, 2) ? kOpNone : kOpBetween;
  return true;
}

// ---------------------------------------------------------------- factory functions
// Every field of what a factory function makes.
void factories(Case& c) {
  Tape& t = c.tape;
  c.label("factory functions");
  c.input = "factory functions";
  c.nontrivial = true;
  std::unique_ptr<Expr> made;
  Expr want(kExprStar);  // only compared; owns nothing
  struct Empty {
    Expr& e;
    ~Empty() {
      e.expr = e.expr2 = nullptr;
      e.exprList = nullptr;
      e.select = nullptr;
      e.windowDescription = nullptr;
      e.name = e.table = e.schema = e.alias = nullptr;
    }
  } empty{want};
  static const int64_t ints[] = {0, 1, -1, INT64_MAX, INT64_MIN, 42, 1LL << 32, -7};
  auto sub = [&] { return Expr::makeLiteral((int64_t)t.below(100)); };
  auto name = [&] { return strdup(t.chance(1, 10) ? "" : t.chance(1, 2) ? "a" : "Name of something"); };
  auto list = [&] {
    auto* v = new std::vector<Expr*>();
    for (uint32_t n = t.below(4); n; --n) v->push_back(sub());
    return v;
  };
  static const OperatorType ops[] = {kOpPlus, kOpMinus, kOpAsterisk, kOpSlash, kOpPercentage, kOpCaret, kOpEquals, kOpNotEquals, kOpLess, kOpLessEq, kOpGreater, kOpGreaterEq, kOpLike, kOpNotLike, kOpILike, kOpAnd, kOpOr, kOpConcat};
  static const OperatorType uops[] = {kOpNot, kOpUnaryMinus, kOpIsNull, kOpExists};
  static const DatetimeField fields[] = {kDatetimeSecond, kDatetimeMinute, kDatetimeHour, kDatetimeDay, kDatetimeMonth, kDatetimeYear};
  std::vector<Expr*> elements;
  std::vector<Expr*> got;
  switch (t.below(28)) {
    case 0: want.type = kExprOperator, want.opType = uops[t.below(4)], want.expr = sub(), made.reset(Expr::makeOpUnary(want.opType, want.expr)); break;
    case 1: want.type = kExprOperator, want.opType = ops[t.below(18)], want.expr = sub(), want.expr2 = sub(), made.reset(Expr::makeOpBinary(want.expr, want.opType, want.expr2)); break;
    case 2: {
      want.type = kExprOperator, want.opType = kOpBetween, want.expr = sub(), elements = {sub(), sub()};
      made.reset(Expr::makeBetween(want.expr, elements[0], elements[1]));
      want.exprList = made->exprList;
      break;
    }
    case 3: want.type = kExprOperator, want.opType = kOpCaseListElement, want.expr = sub(), want.expr2 = sub(), made.reset(Expr::makeCaseListElement(want.expr, want.expr2)); break;
    case 4:
    case 5: {
      want.type = kExprOperator;
      Expr* l = nullptr;
      for (uint32_t n = t.range(1, 4); n; --n) {
        elements.push_back(Expr::makeCaseListElement(sub(), sub()));
        l = l ? Expr::caseListAppend(l, elements.back()) : Expr::makeCaseList(elements.back());
      }
      if (t.chance(1, 3)) {
        made.reset(l);
      } else {
        want.opType = kOpCase, want.expr = t.chance(1, 2) ? sub() : nullptr, want.expr2 = t.chance(1, 2) ? sub() : nullptr;
        made.reset(Expr::makeCase(want.expr, l, want.expr2));
      }
      want.exprList = made->exprList;
      break;
    }
    case 6: want.type = kExprLiteralInt, want.ival = ints[t.below(8)], made.reset(Expr::makeLiteral((int64_t)want.ival)); break;
    case 7: {
      static const double d[] = {0, 1.5, -2.25, 1e300, -1e-300, 0.1};
      want.type = kExprLiteralFloat, want.fval = d[t.below(6)], made.reset(Expr::makeLiteral((double)want.fval));
      break;
    }
    case 8: want.type = kExprLiteralString, want.name = name(), made.reset(Expr::makeLiteral(want.name)); break;
    case 9: want.type = kExprLiteralInt, want.isBoolLiteral = true, want.ival = t.below(2), made.reset(Expr::makeLiteral(want.ival == 1)); break;
    case 10: want.type = kExprLiteralNull, made.reset(Expr::makeNullLiteral()); break;
    case 11: want.type = kExprLiteralDate, want.name = name(), made.reset(Expr::makeDateLiteral(want.name)); break;
    case 12: want.type = kExprLiteralInterval, want.ival = ints[t.below(8)], want.datetimeField = fields[t.below(6)], made.reset(Expr::makeIntervalLiteral(want.ival, want.datetimeField)); break;
    case 13: want.type = kExprColumnRef, want.name = name(), made.reset(Expr::makeColumnRef(want.name)); break;
    case 14: want.type = kExprColumnRef, want.table = name(), want.name = name(), made.reset(Expr::makeColumnRef(want.table, want.name)); break;
    case 15: made.reset(Expr::makeStar()); break;
    case 16: want.table = name(), made.reset(Expr::makeStar(want.table)); break;
    case 17:
    case 18: {
      want.type = kExprFunctionRef, want.name = name(), want.exprList = list(), want.distinct = t.chance(1, 2);
      elements = *want.exprList;
      if (t.chance(1, 2)) want.windowDescription = new WindowDescription(nullptr, nullptr, new FrameDescription(kRows, new FrameBound(0, kPreceding, true), new FrameBound(0, kCurrentRow, false)));
      if (t.chance(1, 2)) {
        want.schema = name();
        made.reset(Expr::makeFunctionRef(want.name, want.schema, want.exprList, want.distinct, want.windowDescription));
      } else {
        made.reset(Expr::makeFunctionRef(want.name, want.exprList, want.distinct, want.windowDescription));
      }
      break;
    }
    case 19: want.type = kExprArray, want.exprList = list(), elements = *want.exprList, made.reset(Expr::makeArray(want.exprList)); break;
    case 20: want.type = kExprArrayIndex, want.expr = sub(), want.ival = ints[t.below(8)], made.reset(Expr::makeArrayIndex(want.expr, want.ival)); break;
    case 21: want.type = kExprParameter, want.ival = t.below(100000), made.reset(Expr::makeParameter((int)want.ival)); break;
    case 22: want.type = kExprSelect, want.select = new SelectStatement(), made.reset(Expr::makeSelect(want.select)); break;
    case 23: want.type = kExprOperator, want.opType = kOpExists, want.select = new SelectStatement(), made.reset(Expr::makeExists(want.select)); break;
    case 24: want.type = kExprOperator, want.opType = kOpIn, want.expr = sub(), want.exprList = list(), elements = *want.exprList, made.reset(Expr::makeInOperator(want.expr, want.exprList)); break;
    case 25: want.type = kExprOperator, want.opType = kOpIn, want.expr = sub(), want.select = new SelectStatement(), made.reset(Expr::makeInOperator(want.expr, want.select)); break;
    case 26: want.type = kExprExtract, want.datetimeField = fields[t.below(6)], want.expr = sub(), made.reset(Expr::makeExtract(want.datetimeField, want.expr)); break;
    default: want.type = kExprCast, want.columnType = ColumnType((DataType)t.below(16), (int64_t)t.below(20), (int64_t)t.below(20), (int64_t)t.below(20)), want.expr = sub(), made.reset(Expr::makeCast(want.expr, want.columnType));
  }
  const Expr& e = *made;
#define SAME(f) (e.f == want.f ? void() : c.fail("a factory function (of kind " + std::to_string(want.type) + ", operator " + std::to_string(want.opType) + ") sets another " #f))
  SAME(type), SAME(expr), SAME(expr2), SAME(exprList), SAME(select), SAME(name), SAME(table), SAME(schema), SAME(alias), SAME(fval), SAME(ival), SAME(ival2), SAME(datetimeField), SAME(isBoolLiteral), SAME(opType), SAME(distinct), SAME(windowDescription);
  if (e.columnType != want.columnType) c.fail("a factory function sets another column type");
  if (e.exprList && *e.exprList != elements) c.fail("a factory function changes the list");
}

// ---------------------------------------------------------------- fresh objects
#define ABSENT(x) ((x) ? c.fail(std::string("a new object has " #x)) : void())
void fresh(Case& c) {
  c.label("new objects");
  c.input = "new objects";
  c.nontrivial = true;
  {
    std::unique_ptr<Expr> e(Expr::make((ExprType)c.tape.below(8)));
    ABSENT(e->expr), ABSENT(e->expr2);
  }
  for (int k = 0; k <= (int)kExprLiteralInterval; ++k) {
    std::unique_ptr<Expr> e(c.tape.chance(1, 2) ? Expr::make((ExprType)k) : new Expr((ExprType)k));
    c.check(e->isType((ExprType)k), "a new expression has another type");
    ABSENT(e->expr), ABSENT(e->expr2), ABSENT(e->exprList), ABSENT(e->select), ABSENT(e->name), ABSENT(e->table), ABSENT(e->schema), ABSENT(e->alias);
    ABSENT(e->fval != 0), ABSENT(e->ival), ABSENT(e->ival2), ABSENT(e->datetimeField), ABSENT(e->isBoolLiteral), ABSENT(e->opType), ABSENT(e->distinct), ABSENT(e->windowDescription);
    c.check(e->columnType == ColumnType(DataType::UNKNOWN), "a new expression has a column type");
    ABSENT(e->hasAlias()), ABSENT(e->hasTable()), ABSENT(e->getName());
  }
  auto plain = [&](SQLStatement& s, StatementType type) {
    c.check(s.type() == type && s.is(type) && s.isType(type), "a new statement has another type");
    ABSENT(s.stringLength), ABSENT(s.hints);
  };
  {
    SelectStatement s;
    plain(s, kStmtSelect);
    ABSENT(s.fromTable), ABSENT(s.selectDistinct), ABSENT(s.selectList), ABSENT(s.whereClause), ABSENT(s.groupBy), ABSENT(s.setOperations), ABSENT(s.order), ABSENT(s.withDescriptions), ABSENT(s.limit), ABSENT(s.lockings);
    std::unique_ptr<SetOperation> o(new SetOperation());
    c.check(o->setType == kSetUnion, "a new set operation is not a UNION");
    ABSENT(o->isAll), ABSENT(o->nestedSelectStatement), ABSENT(o->resultOrder), ABSENT(o->resultLimit);
    std::unique_ptr<GroupByDescription> g(new GroupByDescription());
    ABSENT(g->columns), ABSENT(g->having);
    std::unique_ptr<LimitDescription> l(new LimitDescription(nullptr, nullptr));
    ABSENT(l->limit), ABSENT(l->offset);
  }
  for (auto k : {kTableName, kTableSelect, kTableJoin, kTableCrossProduct}) {
    std::unique_ptr<TableRef> x(new TableRef(k));
    c.check(x->type == k, "a new table has another type");
    ABSENT(x->schema), ABSENT(x->name), ABSENT(x->alias), ABSENT(x->select), ABSENT(x->list), ABSENT(x->join), ABSENT(x->hasSchema()), ABSENT(x->getName());
    std::unique_ptr<JoinDefinition> j(new JoinDefinition());
    c.check(j->type == kJoinInner, "a new join is not an inner join");
    ABSENT(j->left), ABSENT(j->right), ABSENT(j->condition), ABSENT(j->namedColumns);
  }
  for (auto k : {kImportCSV, kImportTbl, kImportBinary, kImportAuto}) {
    std::unique_ptr<ImportStatement> i(new ImportStatement(k));
    plain(*i, kStmtImport);
    c.check(i->type == k, "a new import has another format");
    ABSENT(i->filePath), ABSENT(i->schema), ABSENT(i->tableName), ABSENT(i->whereClause), ABSENT(i->encoding), ABSENT(i->csv_options);
    std::unique_ptr<ExportStatement> x(new ExportStatement(k));
    plain(*x, kStmtExport);
    c.check(x->type == k, "a new export has another format");
    ABSENT(x->filePath), ABSENT(x->schema), ABSENT(x->tableName), ABSENT(x->select), ABSENT(x->encoding), ABSENT(x->csv_options);
    std::unique_ptr<CsvOptions> v(new CsvOptions());
    ABSENT(v->delimiter), ABSENT(v->null), ABSENT(v->quote);
    std::unique_ptr<ImportExportOptions> o(new ImportExportOptions());
    ABSENT(o->encoding), ABSENT(o->csv_options);
    c.check(o->format == kImportAuto, "new options have a format");
  }
  for (auto k : {kInsertValues, kInsertSelect}) {
    std::unique_ptr<InsertStatement> s(new InsertStatement(k));
    plain(*s, kStmtInsert);
    c.check(s->type == k, "a new INSERT has another kind");
    ABSENT(s->schema), ABSENT(s->tableName), ABSENT(s->columns), ABSENT(s->values), ABSENT(s->select);
  }
  {
    std::unique_ptr<UpdateStatement> s(new UpdateStatement());
    plain(*s, kStmtUpdate);
    ABSENT(s->table), ABSENT(s->updates), ABSENT(s->where);
    std::unique_ptr<DeleteStatement> d(new DeleteStatement());
    plain(*d, kStmtDelete);
    ABSENT(d->schema), ABSENT(d->tableName), ABSENT(d->expr);
    std::unique_ptr<PrepareStatement> p(new PrepareStatement());
    plain(*p, kStmtPrepare);
    ABSENT(p->name), ABSENT(p->query);
    std::unique_ptr<ExecuteStatement> x(new ExecuteStatement());
    plain(*x, kStmtExecute);
    ABSENT(x->name), ABSENT(x->parameters);
    std::unique_ptr<AlterStatement> a(new AlterStatement(strdup("t"), new DropColumnAction(strdup("c"))));
    plain(*a, kStmtAlter);
    c.check(!strcmp(a->name, "t") && a->action->type == DropColumn && !strcmp(((DropColumnAction*)a->action)->columnName, "c"), "ALTER lost its name or action");
    ABSENT(a->schema), ABSENT(a->ifTableExists), ABSENT(((DropColumnAction*)a->action)->ifExists);
  }
  for (auto k : {kCreateTable, kCreateTableFromTbl, kCreateView, kCreateIndex}) {
    std::unique_ptr<CreateStatement> s(new CreateStatement(k));
    plain(*s, kStmtCreate);
    c.check(s->type == k, "a new CREATE has another kind");
    ABSENT(s->ifNotExists), ABSENT(s->filePath), ABSENT(s->schema), ABSENT(s->tableName), ABSENT(s->indexName), ABSENT(s->indexColumns), ABSENT(s->columns), ABSENT(s->tableConstraints), ABSENT(s->viewColumns), ABSENT(s->select);
  }
  for (auto k : {kDropTable, kDropSchema, kDropIndex, kDropView, kDropPreparedStatement}) {
    std::unique_ptr<DropStatement> s(new DropStatement(k));
    plain(*s, kStmtDrop);
    c.check(s->type == k, "a new DROP has another kind");
    unsigned char flag;  // a bool with an indeterminate value may not be read as such
    memcpy(&flag, &s->ifExists, 1);
    if (flag) c.fail("a new DROP has IF EXISTS");
    ABSENT(s->schema), ABSENT(s->name), ABSENT(s->indexName);
  }
  for (auto k : {kShowColumns, kShowTables}) {
    std::unique_ptr<ShowStatement> s(new ShowStatement(k));
    plain(*s, kStmtShow);
    c.check(s->type == k, "a new SHOW has another kind");
    ABSENT(s->schema), ABSENT(s->name);
  }
  for (auto k : {kBeginTransaction, kCommitTransaction, kRollbackTransaction}) {
    std::unique_ptr<TransactionStatement> s(new TransactionStatement(k));
    plain(*s, kStmtTransaction);
    c.check(s->command == k, "a new transaction statement has another command");
  }
  {
    // Column definitions from constraints.
    std::unordered_set<ConstraintType> k;
    for (auto x : {ConstraintType::NotNull, ConstraintType::Null, ConstraintType::PrimaryKey, ConstraintType::Unique})
      if (c.tape.chance(1, 2)) k.insert(x);
    ColumnDefinition d(strdup("c"), ColumnType(DataType::INT), new std::unordered_set<ConstraintType>(k), new std::vector<ReferencesSpecification*>());
    bool no = k.count(ConstraintType::NotNull) || k.count(ConstraintType::PrimaryKey), clash = no && k.count(ConstraintType::Null);
    c.check(d.nullable, "a new column definition is not nullable");
    c.check(d.trySetNullableExplicit() == !clash, "contradicting constraints are not noticed");
    if (!clash) c.check(d.nullable == !no, "nullability does not follow from the constraints");
  }
}

// ---------------------------------------------------------------- C31
void byHand(Case& c) {
  Tape& t = c.tape;
  if (alloc::kAvailable) alloc::fill(t.chance(1, 2) ? 0xA5 : 0xFF);
  struct NoFill {
    ~NoFill() {
      if (alloc::kAvailable) alloc::fill(-1);
    }
  } noFill;
  if (t.chance(1, 50)) return fresh(c);
  if (t.chance(1, 20)) return factories(c);
  SQLParserResult res;
  uint32_t wanted = t.range(1, 3);
  for (uint32_t i = 0; i < wanted; ++i) {
    std::string s = statementText(t, (int)t.size(5, 40, 150));
    SQLParserResult one;
    SQLParser::parse(s, &one);
    c.input += s + "\n;";
    if (!one.isValid()) continue;
    for (auto* x : one.releaseStatements()) res.addStatement(x);
    ++c.work;
  }
  // Copies.
  std::vector<SQLStatement*> copies;
  for (size_t i = 0; i < res.size(); ++i) {
    auto* s = res.getMutableStatement(i);
    std::string want = impl::dumpAll(s), pwant = printed(s);
    auto* n = copyStatement(s, t);
    if (!n) continue;
    copies.push_back(n);
    std::string got = impl::dumpAll(n);
    if (want != got) {
      for (auto* x : copies) delete x;
      c.fail("rebuilt by the public constructors, a statement differs: " + diffText(want, got));
    }
    if (pwant != printed(n)) {
      for (auto* x : copies) delete x;
      c.fail("rebuilt by the public constructors, a statement prints differently");
    }
    if (t.chance(1, 3)) {
      auto* m = copyStatement(n, t);
      delete n;
      copies.back() = m;
      if (impl::dumpAll(s) != want) {
        for (auto* x : copies) delete x;
        c.fail("deleting a copy changed the original");
      }
      if (impl::dumpAll(m) != want) {
        for (auto* x : copies) delete x;
        c.fail("deleting a copy changed its copy");
      }
    }
  }
  for (uint32_t n = t.below(3); n; --n) copies.push_back(bare(t));
  if (copies.empty()) return;
  // Changes: parts are exchanged among the statements, taken out and put in.
  Pool pool;
  size_t changes = 0;
  for (uint32_t n = t.size(0, 8, 60); n; --n) {
    SQLStatement* s = t.pick(copies);
    Places p;
    p.statement(s);
    bool done = false;
    static const char* const names[] = {"expression", "table", "query", "name", "list", "window", "limit", "alias", "order", "names", "tables", "join", "kind", "elements", "empty lists", "wrap"};
    size_t what = t.weighted({30, 10, 10, 15, 10, 5, 5, 5, 5, 5, 5, 5, 10, 5, 3, 5});
    c.input += std::string(" | ") + names[what];
    switch (what) {
      case 0: done = exchange(t, p.ex, pool.ex); break;
      case 1: done = exchange(t, p.tb, pool.tb); break;
      case 2: done = exchange(t, p.se, pool.se); break;
      case 3: done = exchange(t, p.st, pool.st); break;
      case 4: done = exchange(t, p.li, pool.li); break;
      case 5: done = exchange(t, p.wi, pool.wi); break;
      case 6: done = exchange(t, p.lm, pool.lm); break;
      case 7: done = exchange(t, p.al, pool.al); break;
      case 8: done = exchange(t, p.od, pool.od); break;
      case 9: done = exchange(t, p.sl, pool.sl); break;
      case 10: done = exchange(t, p.tl, pool.tl); break;
      case 11: done = exchange(t, p.jo, pool.jo); break;
      case 12: done = changeKind(t, s, p); break;
      case 13: {
        // Elements are taken out of lists, or put in.
        if (!p.li.empty()) {
          auto* l = *t.pick(p.li);
          if (l && t.chance(1, 4)) l->push_back(Expr::makeStar(strdup("t")));
          else if (l && !l->empty()) pool.ex.push_back(l->back()), l->pop_back();
        }
        if (!p.sl.empty()) {
          auto* l = *t.pick(p.sl);
          if (l && t.chance(1, 4)) l->push_back(strdup("c"));
          else
            for (uint32_t k = t.range(1, 3); l && !l->empty() && k; --k) free(l->back()), l->pop_back();
        }
        if (!p.tl.empty()) {
          auto* l = *t.pick(p.tl);
          if (l && t.chance(1, 4)) l->push_back(new TableRef(kTableName));
          else if (l && !l->empty()) pool.tb.push_back(l->back()), l->pop_back();
        }
        done = true;
        break;
      }
      case 14: {
        // Empty lists.
        pool.li.push_back(new std::vector<Expr*>());
        pool.sl.push_back(new std::vector<char*>());
        pool.tl.push_back(new std::vector<TableRef*>());
        pool.od.push_back(new std::vector<OrderDescription*>());
        break;
      }
      default: {
        // A part becomes an operand of a new one.
        if (p.ex.empty()) break;
        Expr** e = t.pick(p.ex);
        if (!*e) break;
        switch (t.below(4)) {
          case 0: *e = Expr::makeOpUnary(kOpNot, *e); break;
          case 1: *e = Expr::makeOpBinary(*e, kOpAnd, Expr::makeLiteral(true)); break;
          case 2: *e = Expr::makeCast(*e, ColumnType(DataType::INT)); break;
          default: *e = Expr::makeFunctionRef(strdup("f"), new std::vector<Expr*>{*e}, false, nullptr);
        }
        done = true;
      }
    }
    changes += done;
  }
  c.nontrivial = changes >= 2;
  // Destroyed in any order.
  if (t.chance(1, 2)) pool.clear();
  while (!copies.empty()) {
    size_t k = t.below((uint32_t)copies.size());
    delete copies[k];
    copies.erase(copies.begin() + (long)k);
  }
  pool.clear();
}
void byHandBalance(Case& c) {
  if (!alloc::kAvailable) return byHand(c);
  std::vector<uint32_t> tape;
  {
    Case first(c.tape);
    first.thorough = c.thorough;
    byHand(first);
    tape = first.tape.record();
    c.input = first.input;
    c.labels = first.labels;
    c.nontrivial = first.nontrivial;
    c.work = first.work;
  }
  for (size_t i = 0; i < tape.size(); ++i) c.tape.below(0xFFFFFFFFu);
  int64_t grown = 0;
  for (int k = 0; k < 4; ++k) {
    int64_t before = alloc::liveBlocks();
    {
      Case again{Tape(tape)};
      byHand(again);
    }
    grown = alloc::liveBlocks() - before;
    if (grown == 0) return;
  }
  c.fail("every run leaves " + std::to_string(grown) + " blocks of memory allocated");
}
const Register c31({"C31",
                    "Up to three random statements are parsed and rebuilt with the public constructors and factory functions; the copies have to equal the originals in every field and in print, also after the other was destroyed. "
                    "Then parts (expressions, tables, queries, names, lists, joins, windows, limits, aliases, orders) are exchanged among the copies and new, empty statements, taken out and put in, elements of lists removed and added, kinds of objects changed, and everything is destroyed in any order; "
                    "nothing may be destroyed twice or left over (AddressSanitizer; in the other build the balance of allocations). New objects must have no optional part and no flag set, whatever memory held before, and every field of what a factory function makes must be as given. "
                    "Non-trivial: at least two changes, or the check of new objects or of a factory function.",
                    byHandBalance, 60000, 2500000});
}  // namespace
#endif
