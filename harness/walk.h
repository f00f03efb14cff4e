// Visits every object of a statement in the order of the text, where the representation has one.
#pragma once
#include <string>
#include <unordered_set>
#include <vector>
#include "SQLParser.h"

struct Walker {
  virtual ~Walker() = default;
  virtual void object(const void*) {}  // every object and every list, once per owner
  virtual void text(const char*) {}    // every character string, once per owner
  virtual void onExpr(const hsql::Expr*) {}
  virtual void onTable(const hsql::TableRef*) {}
  virtual void onSelect(const hsql::SelectStatement*) {}
  virtual void onStatement(const hsql::SQLStatement*) {}
  virtual void onColumnType(const hsql::ColumnType&) {}
  virtual void missing(const char*) {}  // a null pointer where the representation needs an object

  void str(const char* s) {
    if (s) {
      object(s);
      text(s);
    }
  }
  void need(const void* p, const char* what) {
    if (!p) missing(what);
  }
  void strs(const std::vector<char*>* v) {
    if (!v) return;
    object(v);
    for (auto* x : *v) {
      need(x, "string in a list");
      str(x);
    }
  }
  void exprs(const std::vector<hsql::Expr*>* v) {
    if (!v) return;
    object(v);
    for (auto* x : *v) {
      need(x, "expression in a list");
      expr(x);
    }
  }
  void orders(const std::vector<hsql::OrderDescription*>* v) {
    if (!v) return;
    object(v);
    for (auto* o : *v) {
      need(o, "order description");
      if (!o) continue;
      object(o);
      need(o->expr, "ORDER BY expression");
      expr(o->expr);
    }
  }
  void limit(const hsql::LimitDescription* l) {
    if (!l) return;
    object(l);
    expr(l->limit);
    expr(l->offset);
  }
  void expr(const hsql::Expr* e) {
    if (!e) return;
    object(e);
    onExpr(e);
    onColumnType(e->columnType);
    str(e->schema);
    str(e->table);
    str(e->name);
    expr(e->expr);
    exprs(e->exprList);
    expr(e->expr2);
    if (e->select) select(e->select);
    if (auto* w = e->windowDescription) {
      object(w);
      exprs(w->partitionList);
      orders(w->orderList);
      need(w->frameDescription, "frame");
      if (auto* f = w->frameDescription) {
        object(f);
        need(f->start, "frame start");
        need(f->end, "frame end");
        if (f->start) object(f->start);
        if (f->end) object(f->end);
      }
    }
    str(e->alias);
  }
  void table(const hsql::TableRef* t) {
    if (!t) return;
    object(t);
    onTable(t);
    str(t->schema);
    str(t->name);
    if (t->select) select(t->select);
    if (t->list) {
      object(t->list);
      for (auto* x : *t->list) {
        need(x, "table in a list");
        table(x);
      }
    }
    if (auto* j = t->join) {
      object(j);
      need(j->left, "left side of a join");
      need(j->right, "right side of a join");
      table(j->left);
      table(j->right);
      expr(j->condition);
      strs(j->namedColumns);
    }
    if (t->alias) {
      object(t->alias);
      need(t->alias->name, "alias name");
      str(t->alias->name);
      strs(t->alias->columns);
    }
  }
  void select(const hsql::SelectStatement* q) {
    object(q);
    selectBody(q);
  }
  void selectBody(const hsql::SelectStatement* q) {
    onSelect(q);
    if (q->withDescriptions) {
      object(q->withDescriptions);
      for (auto* w : *q->withDescriptions) {
        need(w, "WITH description");
        if (!w) continue;
        object(w);
        str(w->alias);
        need(w->select, "WITH query");
        if (w->select) select(w->select);
      }
    }
    need(q->selectList, "select list");
    exprs(q->selectList);
    table(q->fromTable);
    expr(q->whereClause);
    if (q->groupBy) {
      object(q->groupBy);
      need(q->groupBy->columns, "GROUP BY columns");
      exprs(q->groupBy->columns);
      expr(q->groupBy->having);
    }
    if (q->setOperations) {
      object(q->setOperations);
      for (auto* o : *q->setOperations) {
        need(o, "set operation");
        if (!o) continue;
        object(o);
        need(o->nestedSelectStatement, "query of a set operation");
        if (o->nestedSelectStatement) select(o->nestedSelectStatement);
        orders(o->resultOrder);
        limit(o->resultLimit);
      }
    }
    orders(q->order);
    limit(q->limit);
    if (q->lockings) {
      object(q->lockings);
      for (auto* l : *q->lockings) {
        need(l, "locking clause");
        if (!l) continue;
        object(l);
        strs(l->tables);
      }
    }
  }
  void refs(const hsql::ReferencesSpecification* r) {
    if (!r) return;
    object(r);
    str(r->schema);
    str(r->table);
    strs(r->columns);
  }
  void csv(const hsql::CsvOptions* c) {
    if (!c) return;
    object(c);
    str(c->delimiter);
    str(c->null);
    str(c->quote);
  }
  void statement(const hsql::SQLStatement* s) {
    using namespace hsql;
    if (!s) {
      missing("statement");
      return;
    }
    object(s);
    onStatement(s);
    switch (s->type()) {
      case kStmtSelect:
        selectBody((const SelectStatement*)s);
        break;
      case kStmtImport: {
        auto* x = (const ImportStatement*)s;
        need(x->filePath, "file path");
        need(x->tableName, "table");
        str(x->schema);
        str(x->tableName);
        str(x->filePath);
        str(x->encoding);
        csv(x->csv_options);
        expr(x->whereClause);
        break;
      }
      case kStmtExport: {
        auto* x = (const ExportStatement*)s;
        need(x->filePath, "file path");
        if (!x->tableName && !x->select) missing("source of an export");
        str(x->schema);
        str(x->tableName);
        if (x->select) select(x->select);
        str(x->filePath);
        str(x->encoding);
        csv(x->csv_options);
        break;
      }
      case kStmtInsert: {
        auto* x = (const InsertStatement*)s;
        need(x->tableName, "table");
        str(x->schema);
        str(x->tableName);
        strs(x->columns);
        exprs(x->values);
        if (x->select) select(x->select);
        if (!x->select && !x->values) missing("source of an INSERT");
        break;
      }
      case kStmtUpdate: {
        auto* x = (const UpdateStatement*)s;
        need(x->table, "table");
        table(x->table);
        need(x->updates, "updates");
        if (x->updates) {
          object(x->updates);
          for (auto* u : *x->updates) {
            object(u);
            str(u->column);
            need(u->value, "value of an UPDATE");
            expr(u->value);
          }
        }
        expr(x->where);
        break;
      }
      case kStmtDelete: {
        auto* x = (const DeleteStatement*)s;
        need(x->tableName, "table");
        str(x->schema);
        str(x->tableName);
        expr(x->expr);
        break;
      }
      case kStmtCreate: {
        auto* x = (const CreateStatement*)s;
        need(x->tableName, "table");
        str(x->schema);
        str(x->tableName);
        str(x->indexName);
        strs(x->indexColumns);
        strs(x->viewColumns);
        str(x->filePath);
        if (x->columns) {
          object(x->columns);
          for (auto* c : *x->columns) {
            object(c);
            str(c->name);
            onColumnType(c->type);
            need(c->column_constraints, "constraints");
            if (c->column_constraints) object(c->column_constraints);
            need(c->references, "references");
            if (c->references) {
              object(c->references);
              for (auto* r : *c->references) refs(r);
            }
          }
        }
        if (x->tableConstraints) {
          object(x->tableConstraints);
          for (auto* c : *x->tableConstraints) {
            object(c);
            strs(c->columnNames);
            if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(c)) refs(f->references);
          }
        }
        if (x->select) select(x->select);
        break;
      }
      case kStmtDrop: {
        auto* x = (const DropStatement*)s;
        str(x->schema);
        str(x->name);
        str(x->indexName);
        break;
      }
      case kStmtAlter: {
        auto* x = (const AlterStatement*)s;
        str(x->schema);
        str(x->name);
        need(x->action, "action");
        if (x->action) {
          object(x->action);
          if (x->action->type == DropColumn) str(((const DropColumnAction*)x->action)->columnName);
        }
        break;
      }
      case kStmtShow: {
        auto* x = (const ShowStatement*)s;
        str(x->schema);
        str(x->name);
        break;
      }
      case kStmtPrepare: {
        auto* x = (const PrepareStatement*)s;
        str(x->name);
        str(x->query);
        break;
      }
      case kStmtExecute: {
        auto* x = (const ExecuteStatement*)s;
        str(x->name);
        exprs(x->parameters);
        break;
      }
      default:
        break;
    }
    exprs(s->hints);
  }
};
