// Canonical text of reference statements and of the real statement objects: equal exactly if the two describe the same.
#include <algorithm>
#include <cstdio>
#include <cstring>
#include "ref.h"

using namespace hsql;

std::string quoteStr(const std::string& s) {
  std::string o = "'";
  char buf[8];
  for (unsigned char c : s) {
    if (c < 32 || c >= 127 || c == '\'' || c == '\\') {
      snprintf(buf, sizeof buf, "\\x%02x", c);
      o += buf;
    } else {
      o += (char)c;
    }
  }
  return o + "'";
}

namespace {
struct Out {
  std::string s;
  bool all = false;
  bool len = true;  // string lengths, if all
  void open(const char* n) {
    s += '(';
    s += n;
  }
  void close() { s += ')'; }
  void num(const char* n, int64_t v) {
    s += ' ';
    s += n;
    s += '=';
    s += std::to_string(v);
  }
  void numIf(const char* n, int64_t v) {
    if (v) num(n, v);
  }
  void dbl(const char* n, double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    if (!u) return;
    char b[40];
    snprintf(b, sizeof b, " %s=d%016llx", n, (unsigned long long)u);
    s += b;
  }
  void str(const char* n, const std::string& v) {
    s += ' ';
    s += n;
    s += '=';
    s += quoteStr(v);
  }
  void str(const char* n, const ref::Str& v) {
    if (v) str(n, *v);
  }
  void str(const char* n, const char* v) {
    if (v) str(n, std::string(v));
  }
  void key(const char* n) {
    s += ' ';
    s += n;
    s += '=';
  }
  void type(DataType t, int64_t l, int64_t p, int64_t sc) {
    if (t == DataType::UNKNOWN && !l && !p && !sc) return;
    s += " type=" + std::to_string((int)t) + "/" + std::to_string(l) + "/" + std::to_string(p) + "/" + std::to_string(sc);
  }
};

// ------------------------------------------------------------------ reference
struct RefDump : Out {
  void strs(const char* n, const std::optional<ref::Strs>& v) {
    if (v) strs(n, *v);
  }
  void strs(const char* n, const ref::Strs& v) {
    key(n);
    s += '[';
    for (auto& x : v) s += quoteStr(x) + ",";
    s += ']';
  }
  void exprs(const char* n, const ref::Exprs& v) {
    key(n);
    s += '[';
    for (auto& x : v) expr(x.get());
    s += ']';
  }
  void exprs(const char* n, const std::optional<ref::Exprs>& v) {
    if (v) exprs(n, *v);
  }
  void exprF(const char* n, const ref::ExprP& e) {
    if (!e) return;
    key(n);
    expr(e.get());
  }
  void orders(const char* n, const std::optional<ref::Orders>& v) {
    if (!v) return;
    key(n);
    s += '[';
    for (auto& o : *v) {
      open("o");
      num("type", o.type);
      exprF("e", o.expr);
      num("nulls", o.nulls);
      close();
    }
    s += ']';
  }
  void bound(const char* n, const ref::Bound& b) {
    key(n);
    open("b");
    num("type", b.type);
    num("off", b.offset);
    num("unb", b.unbounded);
    close();
  }
  void expr(const ref::Expr* e) {
    open("e");
    num("t", e->type);
    numIf("op", e->op);
    numIf("distinct", e->distinct);
    numIf("bool", e->isBool);
    str("schema", e->schema);
    str("table", e->table);
    str("name", e->name);
    str("alias", e->alias);
    dbl("fval", e->fval);
    numIf("ival", e->ival);
    if (all) numIf("ival2", e->type == kExprParameter ? (int64_t)e->off : 0);
    numIf("dt", e->dt);
    type(e->ct.t, e->ct.length, e->ct.precision, e->ct.scale);
    exprF("e1", e->e1);
    exprF("e2", e->e2);
    exprs("list", e->list);
    if (e->select) {
      key("sel");
      select(e->select.get());
    }
    if (e->win) {
      key("win");
      open("w");
      exprs("part", e->win->partition);
      orders("order", e->win->order);
      num("ft", e->win->ftype);
      bound("start", e->win->start);
      bound("end", e->win->end);
      close();
    }
    close();
  }
  void limit(const char* n, const std::optional<ref::Limit>& l) {
    if (!l) return;
    key(n);
    open("l");
    exprF("limit", l->limit);
    exprF("offset", l->offset);
    close();
  }
  void table(const ref::Table* t) {
    open("t");
    num("t", t->type);
    str("schema", t->schema);
    str("name", t->name);
    if (t->alias) {
      str("alias", t->alias->name);
      strs("acols", t->alias->columns);
    }
    if (t->select) {
      key("sel");
      select(t->select.get());
    }
    if (t->list) {
      key("list");
      s += '[';
      for (auto& x : *t->list) table(x.get());
      s += ']';
    }
    if (t->join) {
      key("join");
      open("j");
      num("type", t->jtype);
      key("l");
      table(t->left.get());
      key("r");
      table(t->right.get());
      exprF("on", t->condition);
      strs("using", t->named);
      close();
    }
    close();
  }
  void select(const ref::Select* q) {
    open("q");
    if (q->from) {
      key("from");
      table(q->from.get());
    }
    numIf("distinct", q->distinct);
    exprs("list", q->list);
    exprF("where", q->where);
    if (q->group) {
      key("group");
      open("g");
      exprs("cols", q->group->columns);
      exprF("having", q->group->having);
      close();
    }
    if (q->setops) {
      key("setops");
      s += '[';
      for (auto& o : *q->setops) {
        open("s");
        num("type", o.type);
        num("all", o.all);
        key("sel");
        select(o.nested.get());
        orders("order", o.order);
        limit("limit", o.limit);
        close();
      }
      s += ']';
    }
    orders("order", q->order);
    if (q->with) {
      key("with");
      s += '[';
      for (auto& w : *q->with) {
        open("w");
        str("alias", w.alias);
        key("sel");
        select(w.select.get());
        close();
      }
      s += ']';
    }
    limit("limit", q->limit);
    if (q->lockings) {
      key("lock");
      s += '[';
      for (auto& l : *q->lockings) {
        open("l");
        num("mode", l.mode);
        num("wait", l.wait);
        strs("tables", l.tables);
        close();
      }
      s += ']';
    }
    close();
  }
  void refs(const ref::Refs& r) {
    open("r");
    str("schema", r.schema);
    str("table", r.table);
    strs("cols", r.columns);
    close();
  }
  void csv(const ref::Stmt& t) {
    str("encoding", t.encoding);
    if (t.csv) {
      key("csv");
      open("c");
      str("delimiter", t.delimiter);
      str("null", t.null);
      str("quote", t.quote);
      close();
    }
  }
  void selF(const ref::SelectP& q) {
    if (!q) return;
    key("sel");
    select(q.get());
  }
  void stmt(const ref::Stmt& t) {
    open("stmt");
    num("type", t.type);
    if (all && len) num("len", (int64_t)(t.end - t.begin));
    exprs("hints", t.hints);
    switch (t.type) {
      case kStmtSelect:
        selF(t.select);
        break;
      case kStmtImport:
      case kStmtExport:
        num("fmt", t.sub);
        str("path", t.path);
        str("schema", t.schema);
        str("table", t.name);
        csv(t);
        selF(t.select);
        exprF("where", t.where);
        break;
      case kStmtInsert:
        num("sub", t.sub);
        str("schema", t.schema);
        str("table", t.name);
        strs("cols", t.names);
        exprs("values", t.exprs);
        selF(t.select);
        break;
      case kStmtUpdate:
        str("schema", t.schema);
        str("table", t.name);
        key("set");
        s += '[';
        for (auto& u : t.updates) {
          open("u");
          str("col", u.first);
          exprF("val", u.second);
          close();
        }
        s += ']';
        exprF("where", t.where);
        break;
      case kStmtDelete:
        str("schema", t.schema);
        str("table", t.name);
        exprF("where", t.where);
        break;
      case kStmtCreate:
        num("sub", t.sub);
        numIf("ine", t.flag);
        str("path", t.path);
        str("schema", t.schema);
        str("table", t.name);
        str("index", t.index);
        if (t.sub == kCreateIndex) strs("icols", t.names);
        if (t.sub == kCreateView) strs("vcols", t.names);
        if (t.columns) {
          key("columns");
          s += '[';
          for (auto& c : *t.columns) {
            open("c");
            str("name", c.name);
            type(c.type.t, c.type.length, c.type.precision, c.type.scale);
            num("nullable", c.nullable);
            for (int x : c.constraints) num("con", x);
            for (auto& r : c.refs) refs(r);
            close();
          }
          s += ']';
        }
        if (t.tconstraints) {
          key("constraints");
          s += '[';
          for (auto& c : *t.tconstraints) {
            open("k");
            num("type", (int)c.type);
            strs("cols", c.columns);
            if (c.refs) refs(*c.refs);
            close();
          }
          s += ']';
        }
        selF(t.select);
        break;
      case kStmtDrop:
        num("sub", t.sub);
        numIf("ie", t.flag);
        str("schema", t.schema);
        str("name", t.name);
        str("index", t.index);
        break;
      case kStmtAlter:
        numIf("ie", t.flag);
        str("schema", t.schema);
        str("name", t.name);
        open("drop");
        numIf("ie", t.flag2);
        str("col", t.column);
        close();
        break;
      case kStmtShow:
        num("sub", t.sub);
        str("schema", t.schema);
        str("name", t.name);
        break;
      case kStmtPrepare:
        str("name", t.name);
        str("query", t.query);
        break;
      case kStmtExecute:
        str("name", t.name);
        exprs("params", t.exprs);
        break;
      case kStmtTransaction:
        num("sub", t.sub);
        break;
      default:
        s += " ?";
    }
    close();
  }
};

// ------------------------------------------------------------------ implementation
struct ImplDump : Out {
  int64_t firstParam = 0;
  bool lens = true;  // nested string lengths
  void strs(const char* n, const std::vector<char*>* v) {
    if (!v) return;
    key(n);
    s += '[';
    for (auto* x : *v) s += x ? quoteStr(x) + "," : "NULL,";
    s += ']';
  }
  void exprs(const char* n, const std::vector<Expr*>* v) {
    if (!v) return;
    key(n);
    s += '[';
    for (auto* x : *v) expr(x);
    s += ']';
  }
  void exprF(const char* n, const Expr* e) {
    if (!e) return;
    key(n);
    expr(e);
  }
  void orders(const char* n, const std::vector<OrderDescription*>* v) {
    if (!v) return;
    key(n);
    s += '[';
    for (auto* o : *v) {
      if (!o) {
        s += "NULL";
        continue;
      }
      open("o");
      num("type", o->type);
      exprF("e", o->expr);
      num("nulls", o->null_ordering);
      close();
    }
    s += ']';
  }
  void bound(const char* n, const FrameBound* b) {
    if (!b) return;
    key(n);
    open("b");
    num("type", b->type);
    num("off", b->offset);
    num("unb", b->unbounded);
    close();
  }
  void expr(const Expr* e) {
    if (!e) {
      s += "NULL";
      return;
    }
    open("e");
    num("t", e->type);
    numIf("op", e->opType);
    numIf("distinct", e->distinct);
    numIf("bool", e->isBoolLiteral);
    str("schema", e->schema);
    str("table", e->table);
    str("name", e->name);
    str("alias", e->alias);
    dbl("fval", e->fval);
    numIf("ival", e->ival - (e->type == kExprParameter ? firstParam : 0));
    if (all || e->type != kExprParameter) numIf("ival2", e->ival2);
    numIf("dt", e->datetimeField);
    type(e->columnType.data_type, e->columnType.length, e->columnType.precision, e->columnType.scale);
    exprF("e1", e->expr);
    exprF("e2", e->expr2);
    exprs("list", e->exprList);
    if (e->select) {
      key("sel");
      select(e->select);
    }
    if (auto* w = e->windowDescription) {
      key("win");
      open("w");
      exprs("part", w->partitionList);
      orders("order", w->orderList);
      if (w->frameDescription) {
        num("ft", w->frameDescription->type);
        bound("start", w->frameDescription->start);
        bound("end", w->frameDescription->end);
      }
      close();
    }
    close();
  }
  void limit(const char* n, const LimitDescription* l) {
    if (!l) return;
    key(n);
    open("l");
    exprF("limit", l->limit);
    exprF("offset", l->offset);
    close();
  }
  void table(const TableRef* t) {
    if (!t) {
      s += "NULL";
      return;
    }
    open("t");
    num("t", t->type);
    str("schema", t->schema);
    str("name", t->name);
    if (t->alias) {
      str("alias", t->alias->name);
      strs("acols", t->alias->columns);
    }
    if (t->select) {
      key("sel");
      select(t->select);
    }
    if (t->list) {
      key("list");
      s += '[';
      for (auto* x : *t->list) table(x);
      s += ']';
    }
    if (auto* j = t->join) {
      key("join");
      open("j");
      num("type", j->type);
      key("l");
      table(j->left);
      key("r");
      table(j->right);
      exprF("on", j->condition);
      strs("using", j->namedColumns);
      close();
    }
    close();
  }
  void select(const SelectStatement* q) {
    if (!q) {
      s += "NULL";
      return;
    }
    open("q");
    selectBody(q);
    // A nested query is a statement too, but cannot have hints of its own.
    exprs("hints", q->hints);
    if (q->type() != kStmtSelect) num("stype", q->type());
    if (all && len) num("len", (int64_t)q->stringLength);
    close();
  }
  void selectBody(const SelectStatement* q) {
    if (q->fromTable) {
      key("from");
      table(q->fromTable);
    }
    numIf("distinct", q->selectDistinct);
    exprs("list", q->selectList);
    exprF("where", q->whereClause);
    if (auto* g = q->groupBy) {
      key("group");
      open("g");
      exprs("cols", g->columns);
      exprF("having", g->having);
      close();
    }
    if (q->setOperations) {
      key("setops");
      s += '[';
      for (auto* o : *q->setOperations) {
        open("s");
        num("type", o->setType);
        num("all", o->isAll);
        key("sel");
        select(o->nestedSelectStatement);
        orders("order", o->resultOrder);
        limit("limit", o->resultLimit);
        close();
      }
      s += ']';
    }
    orders("order", q->order);
    if (q->withDescriptions) {
      key("with");
      s += '[';
      for (auto* w : *q->withDescriptions) {
        open("w");
        str("alias", w->alias);
        key("sel");
        select(w->select);
        close();
      }
      s += ']';
    }
    limit("limit", q->limit);
    if (q->lockings) {
      key("lock");
      s += '[';
      for (auto* l : *q->lockings) {
        open("l");
        num("mode", l->rowLockMode);
        num("wait", l->rowLockWaitPolicy);
        strs("tables", l->tables);
        close();
      }
      s += ']';
    }
  }
  void refs(const ReferencesSpecification* r) {
    if (!r) {
      s += "NULL";
      return;
    }
    open("r");
    str("schema", r->schema);
    str("table", r->table);
    strs("cols", r->columns);
    close();
  }
  void csv(const CsvOptions* c) {
    if (!c) return;
    key("csv");
    open("c");
    str("delimiter", c->delimiter);
    str("null", c->null);
    str("quote", c->quote);
    close();
  }
  void selF(const SelectStatement* q) {
    if (!q) return;
    key("sel");
    select(q);
  }
  void stmt(const SQLStatement* t) {
    if (!t) {
      s += "NULL";
      return;
    }
    open("stmt");
    num("type", t->type());
    if (all && len) num("len", (int64_t)t->stringLength);
    exprs("hints", t->hints);
    switch (t->type()) {
      case kStmtSelect: {
        key("sel");
        open("q");
        selectBody((const SelectStatement*)t);
        close();
        break;
      }
      case kStmtImport: {
        auto* x = (const ImportStatement*)t;
        num("fmt", x->type);
        str("path", x->filePath);
        str("schema", x->schema);
        str("table", x->tableName);
        str("encoding", x->encoding);
        csv(x->csv_options);
        exprF("where", x->whereClause);
        break;
      }
      case kStmtExport: {
        auto* x = (const ExportStatement*)t;
        num("fmt", x->type);
        str("path", x->filePath);
        str("schema", x->schema);
        str("table", x->tableName);
        str("encoding", x->encoding);
        csv(x->csv_options);
        selF(x->select);
        break;
      }
      case kStmtInsert: {
        auto* x = (const InsertStatement*)t;
        num("sub", x->type);
        str("schema", x->schema);
        str("table", x->tableName);
        strs("cols", x->columns);
        exprs("values", x->values);
        selF(x->select);
        break;
      }
      case kStmtUpdate: {
        auto* x = (const UpdateStatement*)t;
        if (!x->table || x->table->type != kTableName || x->table->alias || x->table->select || x->table->list || x->table->join) {
          key("target");
          table(x->table);
        } else {
          str("schema", x->table->schema);
          str("table", x->table->name);
        }
        if (x->updates) {
          key("set");
          s += '[';
          for (auto* u : *x->updates) {
            open("u");
            str("col", u->column);
            exprF("val", u->value);
            close();
          }
          s += ']';
        }
        exprF("where", x->where);
        break;
      }
      case kStmtDelete: {
        auto* x = (const DeleteStatement*)t;
        str("schema", x->schema);
        str("table", x->tableName);
        exprF("where", x->expr);
        break;
      }
      case kStmtCreate: {
        auto* x = (const CreateStatement*)t;
        num("sub", x->type);
        numIf("ine", x->ifNotExists);
        str("path", x->filePath);
        str("schema", x->schema);
        str("table", x->tableName);
        str("index", x->indexName);
        strs("icols", x->indexColumns);
        strs("vcols", x->viewColumns);
        if (x->columns) {
          key("columns");
          s += '[';
          for (auto* c : *x->columns) {
            open("c");
            str("name", c->name);
            type(c->type.data_type, c->type.length, c->type.precision, c->type.scale);
            num("nullable", c->nullable);
            if (c->column_constraints) {
              std::vector<int> v;
              for (auto k : *c->column_constraints) v.push_back((int)k);
              std::sort(v.begin(), v.end());
              for (int k : v) num("con", k);
            } else {
              s += " constraints=NULL";
            }
            if (c->references)
              for (auto* r : *c->references) refs(r);
            close();
          }
          s += ']';
        }
        if (x->tableConstraints) {
          key("constraints");
          s += '[';
          for (auto* c : *x->tableConstraints) {
            open("k");
            num("type", (int)c->type);
            strs("cols", c->columnNames);
            if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(c)) refs(f->references);
            close();
          }
          s += ']';
        }
        selF(x->select);
        break;
      }
      case kStmtDrop: {
        auto* x = (const DropStatement*)t;
        num("sub", x->type);
        numIf("ie", x->ifExists);
        str("schema", x->schema);
        str("name", x->name);
        str("index", x->indexName);
        break;
      }
      case kStmtAlter: {
        auto* x = (const AlterStatement*)t;
        numIf("ie", x->ifTableExists);
        str("schema", x->schema);
        str("name", x->name);
        if (x->action && x->action->type == DropColumn) {
          auto* a = (const DropColumnAction*)x->action;
          open("drop");
          numIf("ie", a->ifExists);
          str("col", a->columnName);
          close();
        } else {
          s += " action?";
        }
        break;
      }
      case kStmtShow: {
        auto* x = (const ShowStatement*)t;
        num("sub", x->type);
        str("schema", x->schema);
        str("name", x->name);
        break;
      }
      case kStmtPrepare: {
        auto* x = (const PrepareStatement*)t;
        str("name", x->name);
        str("query", x->query);
        break;
      }
      case kStmtExecute: {
        auto* x = (const ExecuteStatement*)t;
        str("name", x->name);
        exprs("params", x->parameters);
        break;
      }
      case kStmtTransaction:
        num("sub", ((const TransactionStatement*)t)->command);
        break;
      default:
        s += " ?";
    }
    close();
  }
};
}  // namespace

namespace ref {
std::string dump(const Stmt& s) {
  RefDump d;
  d.stmt(s);
  return d.s;
}
std::string dump(const Expr& e) {
  RefDump d;
  d.expr(&e);
  return d.s;
}
std::string dumpAll(const Stmt& s) {
  RefDump d;
  d.all = true;
  d.stmt(s);
  return d.s;
}
std::string dump(const Result& r) {
  std::string s;
  for (auto& x : r.stmts) s += dump(*x) + "\n";
  return s;
}
}  // namespace ref

namespace impl {
std::string dump(const SQLStatement* s, int64_t firstParam) {
  ImplDump d;
  d.firstParam = firstParam;
  d.stmt(s);
  return d.s;
}
std::string dumpExpr(const Expr* e) {
  ImplDump d;
  d.expr(e);
  return d.s;
}
std::string dumpAll(const SQLStatement* s) {
  ImplDump d;
  d.all = true;
  d.stmt(s);
  return d.s;
}
std::string dump(const SQLParserResult& r) {
  std::string s;
  for (size_t i = 0; i < r.size(); ++i) s += dump(r.getStatement(i)) + "\n";
  return s;
}
std::string dumpResultAll(SQLParserResult& r) {
  std::string s = "valid=" + std::to_string(r.isValid()) + " msg=" + (r.errorMsg() ? quoteStr(r.errorMsg()) : "NULL") +
                  " line=" + std::to_string(r.errorLine()) + " col=" + std::to_string(r.errorColumn()) + "\n";
  for (size_t i = 0; i < r.size(); ++i) s += dumpAll(r.getStatement(i)) + "\n";
  s += "params";
  for (auto* p : r.parameters()) s += " " + dumpExpr(p);
  return s;
}
}  // namespace impl
