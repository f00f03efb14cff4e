// Reference lexer and parser: an independent description of the supported language and of the meaning of each text.
#pragma once
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "SQLParser.h"

namespace ref {

enum Kind { T_END, T_KW, T_IDENT, T_STRING, T_INT, T_FLOAT, T_PUNCT, T_INVALID };
struct Tok {
  Kind kind = T_END;
  std::string text;  // keyword in upper case, punctuation, decoded identifier or string
  int64_t ival = 0;
  double fval = 0;
  size_t off = 0, end = 0;  // bytes in the text
  int line = 0, col = 0;
  bool quoted = false;
};
const std::vector<std::string>& keywords();
bool isKeyword(const std::string& upper);
// All tokens, T_INVALID included, without T_END.
std::vector<Tok> lex(const std::string& text);

using Str = std::optional<std::string>;
struct Expr;
struct Select;
struct Order;
using ExprP = std::unique_ptr<Expr>;
using SelectP = std::unique_ptr<Select>;
using Exprs = std::vector<ExprP>;
using Strs = std::vector<std::string>;

struct Type {
  hsql::DataType t = hsql::DataType::UNKNOWN;
  int64_t length = 0, precision = 0, scale = 0;
};
struct Order {
  hsql::OrderType type = hsql::kOrderAsc;
  ExprP expr;
  hsql::NullOrdering nulls = hsql::Undefined;
};
using Orders = std::vector<Order>;
struct Bound {
  int64_t offset = 0;
  hsql::FrameBoundType type = hsql::kCurrentRow;
  bool unbounded = false;
};
struct Window {
  std::optional<Exprs> partition;
  std::optional<Orders> order;
  hsql::FrameType ftype = hsql::kRange;
  Bound start, end;
};
struct Expr {
  explicit Expr(hsql::ExprType t) : type(t) {}
  hsql::ExprType type;
  ExprP e1, e2;
  std::optional<Exprs> list;
  SelectP select;
  Str name, table, schema, alias;
  double fval = 0;
  int64_t ival = 0;
  hsql::DatetimeField dt = hsql::kDatetimeNone;
  Type ct;
  bool isBool = false;
  hsql::OperatorType op = hsql::kOpNone;
  bool distinct = false;
  std::unique_ptr<Window> win;
  size_t off = 0;  // position of a parameter
};
struct Limit {
  ExprP limit, offset;
};
struct Alias {
  std::string name;
  std::optional<Strs> columns;
};
struct Table {
  hsql::TableRefType type = hsql::kTableName;
  Str schema, name;
  std::optional<Alias> alias;
  SelectP select;
  std::optional<std::vector<std::unique_ptr<Table>>> list;
  // join
  bool join = false;
  hsql::JoinType jtype = hsql::kJoinInner;
  std::unique_ptr<Table> left, right;
  ExprP condition;
  std::optional<Strs> named;
};
using TableP = std::unique_ptr<Table>;
struct Locking {
  hsql::RowLockMode mode = hsql::ForUpdate;
  hsql::RowLockWaitPolicy wait = hsql::None;
  std::optional<Strs> tables;
};
struct SetOp {
  hsql::SetType type = hsql::kSetUnion;
  bool all = false;
  SelectP nested;
  std::optional<Orders> order;
  std::optional<Limit> limit;
};
struct With {
  std::string alias;
  SelectP select;
};
struct GroupBy {
  Exprs columns;
  ExprP having;
};
struct Select {
  TableP from;
  bool distinct = false;
  Exprs list;
  ExprP where;
  std::optional<GroupBy> group;
  std::optional<std::vector<SetOp>> setops;
  std::optional<Orders> order;
  std::optional<std::vector<With>> with;
  std::optional<Limit> limit;
  std::optional<std::vector<Locking>> lockings;
};
struct Refs {
  Str schema, table;
  std::optional<Strs> columns;
};
struct Column {
  std::string name;
  Type type;
  std::vector<int> constraints;  // sorted, unique hsql::ConstraintType
  std::vector<Refs> refs;
  bool nullable = true;
};
struct TableConstraint {
  hsql::ConstraintType type = hsql::ConstraintType::Unique;
  Strs columns;
  std::optional<Refs> refs;
};
struct Stmt {
  hsql::StatementType type = hsql::kStmtError;
  std::optional<Exprs> hints;
  int sub = 0;        // kind within the statement type
  bool flag = false;  // IF [NOT] EXISTS
  Str schema, name, path, index, query;
  SelectP select;
  std::optional<std::vector<Column>> columns;
  std::optional<std::vector<TableConstraint>> tconstraints;
  std::optional<Strs> names;  // view, index or insert columns
  std::optional<Exprs> exprs;  // values or arguments
  ExprP where;
  std::vector<std::pair<std::string, ExprP>> updates;
  Str encoding, delimiter, null, quote;
  bool csv = false;
  bool flag2 = false;  // DROP COLUMN IF EXISTS
  Str column;
  size_t begin = 0, end = 0;  // piece of the text, including the semicolon
};
struct Result {
  bool valid = false;
  bool syntax = false;    // rejected by the grammar, at errTok
  bool semantic = false;  // breaks a rule beyond the grammar
  bool gray = false;      // contains something whose treatment is not specified
  bool lexical = false;   // contains an invalid token
  size_t errTok = 0;      // index in toks; toks.size() for the end
  int maxDepth = 0;
  std::vector<Tok> toks;
  std::vector<std::unique_ptr<Stmt>> stmts;
  size_t params = 0;
};
Result parse(const std::string& text);
// Tokens (kind and spelling) that may come next after a prefix of valid tokens are not computed; see Result::errTok.

std::string dump(const Stmt& s);
std::string dump(const Expr& e);
std::string dumpAll(const Stmt& s);
std::string dump(const Result& r);
}  // namespace ref

// Canonical form of the objects of the real parser, from public fields only.
namespace impl {
// The number of the first parameter is subtracted from those of the parameters.
std::string dump(const hsql::SQLStatement* s, int64_t firstParam = 0);
std::string dumpExpr(const hsql::Expr* e);
// With fields that the canonical form leaves out (ival2 of parameters, string lengths).
std::string dumpAll(const hsql::SQLStatement* s);
std::string dump(const hsql::SQLParserResult& r);
std::string dumpResultAll(hsql::SQLParserResult& r);
}  // namespace impl

std::string quoteStr(const std::string& s);
