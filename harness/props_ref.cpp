// Properties decided by comparison with the reference parser: C01-C06, C08-C10, C14.
#include "common.h"
using namespace gen;

namespace {
// The statement is in the language by construction; only a name clash like CURRENT ROW can spoil that.
void structural(Case& c, Gen& g) {
  if (c.tape.chance(1, 100)) {
    uint32_t n = stretch(c.tape, g.out);
    if (n) c.label(n > 250 ? "stretched by >250 items" : "stretched");
  }
  Layout l;
  if (c.tape.chance(1, 300)) enlarge(c, g.out, l, 1);
  c.input = render(c.tape, g.out, l);
  auto r = ref::parse(c.input);
  if (!r.valid) c.label(r.syntax ? "not in the language" : "breaks a rule");
  hsql::SQLParserResult res;
  compareWithReference(c, c.input, r, res);
  if (c.discarded) return;
  if (!r.valid) c.discarded = true;
}
void labelClauses(Case& c, const Toks& t) {
  static const char* k[] = {"DISTINCT", "WHERE", "GROUP", "HAVING", "LIMIT", "OFFSET", "TOP", "WITH", "FOR", "UNION", "INTERSECT", "EXCEPT", "JOIN", "NATURAL", "USING", "OVER", "CASE", "CAST",
                            "EXTRACT", "ARRAY", "IN", "EXISTS", "BETWEEN", "[", "INTERVAL", "DATE", "?", "HINT", "PARTITION", "NULL", "LIKE", "NOT", "^", "||"};
  for (auto* x : k)
    if (hasText(t, x)) c.label(x);
  if (countText(t, "SELECT") > 1) c.label("nested SELECT");
  if (t.size() > 100) c.label(">100 tokens");
}

const Register c01({"C01",
                    "SELECT statements sampled from the grammar of the query language (every clause optional, nested queries in expressions, FROM, WITH and set operations), written with random "
                    "layout and letter case; the statement object is compared field by field with that of the reference parser. Non-trivial: at least three clauses besides the select list.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.focus = F_SELECT;
                      g.maxNodes = (int)c.tape.range(10, c.tape.chance(1, 30) ? 400 : 70);
                      g.maxDepth = (int)c.tape.range(2, 4);
                      g.selectStatement(0);
                      if (c.tape.chance(1, 15)) g.hints();
                      if (c.tape.chance(1, 3)) g.p(";");
                      int clauses = 0;
                      for (auto* k : {"DISTINCT", "FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "TOP", "WITH", "FOR"}) clauses += hasText(g.out, k);
                      c.nontrivial = clauses >= 3;
                      structural(c, g);
                      labelClauses(c, g.out);
                    },
                    160000, 3000000});

// ---- C02
const char* kUn[] = {"-", "NOT"};
const char* kBin[] = {"OR", "AND", "=", "!=", "LIKE", "ILIKE", "NOT LIKE", "<", ">", "<=", ">=", "<>", "==", "+", "-", "*", "/", "%", "^", "||"};
const char* kPost[] = {"IS NULL", "IS NOT NULL", "ISNULL", "[ 1 ]", "IN ( 1 )", "NOT IN ( 1 )", "BETWEEN 1 AND 2"};
constexpr int NU = 2, NB = 20, NP = 7;
void emitOp(Gen& g, const char* s) {
  std::string w;
  for (const char* c = s;; ++c) {
    if (*c == ' ' || !*c) {
      if (!w.empty()) {
        if (w[0] >= 'A' && w[0] <= 'Z') g.out.push_back({KW, w});
        else if (w[0] >= '0' && w[0] <= '9') g.out.push_back({NUM, w});
        else g.out.push_back({PUNCT, w});
      }
      w.clear();
      if (!*c) break;
    } else w += *c;
  }
}
// Fully parenthesised form of an expression of the implementation's tree; empty if it has no such form.
bool paren(const hsql::Expr* e, std::string& o) {
  using namespace hsql;
  if (e->alias) return false;
  switch (e->type) {
    case kExprColumnRef:
      if (e->table) o += std::string("\"") + e->table + "\".";
      o += std::string("\"") + e->name + "\"";
      return true;
    case kExprLiteralNull:
      o += "NULL";
      return true;
    case kExprLiteralString:
      o += quoteString(e->name);
      return true;
    case kExprLiteralDate:
      o += "DATE " + quoteString(e->name);
      return true;
    case kExprParameter:
      o += "?";
      return true;
    case kExprFunctionRef:
      if (e->windowDescription || e->distinct) return false;
      o += (e->schema ? std::string("\"") + e->schema + "\"." : "") + "\"" + e->name + "\"(";
      for (size_t i = 0; i < e->exprList->size(); ++i) {
        o += i ? ", (" : "(";
        if (!paren((*e->exprList)[i], o)) return false;
        o += ")";
      }
      o += ")";
      return true;
    case kExprLiteralInt:
      if (e->isBoolLiteral) o += e->ival ? "TRUE" : "FALSE";
      else o += std::to_string(e->ival);
      return true;
    case kExprArrayIndex:
      o += "(";
      if (!paren(e->expr, o)) return false;
      o += ")[" + std::to_string(e->ival) + "]";
      return true;
    case kExprOperator: {
      auto bin = [&](const char* s) {
        o += "(";
        if (!paren(e->expr, o)) return false;
        o += std::string(") ") + s + " (";
        if (!paren(e->expr2, o)) return false;
        o += ")";
        return true;
      };
      switch (e->opType) {
        case kOpPlus: return bin("+");
        case kOpMinus: return bin("-");
        case kOpAsterisk: return bin("*");
        case kOpSlash: return bin("/");
        case kOpPercentage: return bin("%");
        case kOpCaret: return bin("^");
        case kOpEquals: return bin("=");
        case kOpNotEquals: return bin("!=");
        case kOpLess: return bin("<");
        case kOpLessEq: return bin("<=");
        case kOpGreater: return bin(">");
        case kOpGreaterEq: return bin(">=");
        case kOpLike: return bin("LIKE");
        case kOpNotLike: return bin("NOT LIKE");
        case kOpILike: return bin("ILIKE");
        case kOpAnd: return bin("AND");
        case kOpOr: return bin("OR");
        case kOpConcat: return bin("||");
        case kOpNot:
        case kOpUnaryMinus:
          o += e->opType == kOpNot ? "NOT (" : "- (";
          if (!paren(e->expr, o)) return false;
          o += ")";
          return true;
        case kOpIsNull:
          o += "(";
          if (!paren(e->expr, o)) return false;
          o += ") IS NULL";
          return true;
        case kOpBetween:
          o += "(";
          if (!paren(e->expr, o)) return false;
          o += ") BETWEEN (";
          if (!paren((*e->exprList)[0], o)) return false;
          o += ") AND (";
          if (!paren((*e->exprList)[1], o)) return false;
          o += ")";
          return true;
        case kOpIn:
          if (!e->exprList) return false;
          o += "(";
          if (!paren(e->expr, o)) return false;
          o += ") IN (";
          for (size_t i = 0; i < e->exprList->size(); ++i) {
            o += i ? ", (" : "(";
            if (!paren((*e->exprList)[i], o)) return false;
            o += ")";
          }
          o += ")";
          return true;
        default:
          return false;
      }
    }
    default:
      return false;
  }
}
void leaf(Gen& g, int i) {
  if (g.t.chance(1, 5))
    g.num(std::to_string(g.t.below(100)));
  else
    g.out.push_back({NAME, std::string(1, (char)('a' + i % 26))});
}
// Any operand.
void richLeaf(Gen& g) {
  Tape& t = g.t;
  switch (t.weighted({5, 3, 3, 2, 3})) {
    case 0: leaf(g, (int)t.below(t.chance(1, 2) ? 3 : 26)); break;
    case 1:
      g.out.push_back({NAME, t.chance(1, 2) ? "t" : "u"});
      g.p(".");
      leaf(g, (int)t.below(4));
      if (g.out.back().kind == NUM) g.out.back() = {NAME, "a"};
      break;
    case 2: g.literal(); break;
    case 3: g.function(1); break;
    default: g.primary(1);
  }
}
// Operators around operands, without parentheses: [un] a post bin [un] b post bin [un] c post
void flat(Gen& g, int pre[3], int bin[2], int post[3], int operands) {
  for (int i = 0; i < operands; ++i) {
    if (i) emitOp(g, kBin[bin[i - 1]]);
    if (pre[i] < NU) emitOp(g, kUn[pre[i]]);
    leaf(g, i);
    if (post[i] < NP) emitOp(g, kPost[post[i]]);
  }
}
void randomOps(Gen& g, int n, int d, bool rich) {
  for (int i = 0; i < n; ++i) {
    if (i) emitOp(g, kBin[g.t.below(NB)]);
    while (g.t.chance(1, 5)) emitOp(g, kUn[g.t.below(NU)]);
    if (d > 0 && g.t.chance(1, 6)) {
      g.p("(");
      randomOps(g, (int)g.t.range(1, 3), d - 1, rich);
      g.p(")");
    } else if (rich) {
      richLeaf(g);
    } else {
      leaf(g, (int)g.t.below(26));
    }
    while (g.t.chance(1, 8)) {
      if (rich && d > 0 && g.t.chance(1, 2)) {
        bool no = g.t.chance(1, 3);
        if (g.t.chance(1, 2)) {
          if (no) g.k("NOT");
          g.k("IN");
          g.p("(");
          for (uint32_t m = g.t.range(1, 3); m; --m) {
            randomOps(g, (int)g.t.range(1, 2), 0, true);
            if (m > 1) g.p(",");
          }
          g.p(")");
        } else {
          g.k("BETWEEN");
          richLeaf(g);
          g.k("AND");
          richLeaf(g);
        }
      } else {
        emitOp(g, kPost[g.t.below(NP)]);
      }
    }
  }
}
// Pairs: every (pre, bin, post) combination over two operands; triples of binary operators.
constexpr size_t kPairs = 3 * 3 * NB * 8 * 8, kTriples = NB * NB * NB, kSpecial = 3 * 8 * NB * NB;
const Register c02({"C02",
                    "Expressions over all operators: every combination of prefix, binary and postfix operators around two operands and every chain of three binary operators (enumerated), then random chains "
                    "with parentheses, over plain or any operands (literals, qualified columns, calls, subqueries, CASE, ...). The tree is compared with the reference parser's, and the tree written out with full parentheses must parse to the same tree. Non-trivial: accepted, with at least "
                    "two operators.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.k("SELECT");
                      int none[3] = {9, 9, 9};
                      size_t i = c.index;
                      if (i < kPairs) {
                        int pre[3] = {(int)(i % 3), (int)(i / 3 % 3), 9}, bin[2] = {(int)(i / 9 % NB), 0}, post[3] = {(int)(i / (9 * NB) % 8), (int)(i / (9 * NB * 8) % 8), 9};
                        flat(g, pre, bin, post, 2);
                        c.label("enumerated pair");
                      } else if (i < kPairs + kTriples) {
                        i -= kPairs;
                        int bin[3] = {(int)(i % NB), (int)(i / NB % NB), (int)(i / NB / NB)};
                        leaf(g, 0);
                        for (int k = 0; k < 3; ++k) {
                          emitOp(g, kBin[bin[k]]);
                          leaf(g, k + 1);
                        }
                        c.label("enumerated triple");
                      } else if (i < kPairs + kTriples + kSpecial) {
                        i -= kPairs + kTriples;
                        int bin[2] = {(int)(i % NB), (int)(i / NB % NB)};
                        int pre[3] = {9, (int)(i / NB / NB % 3), 9}, post[3] = {9, (int)(i / NB / NB / 3 % 8), 9};
                        flat(g, pre, bin, post, 3);
                        c.label("enumerated middle");
                      } else {
                        bool rich = c.tape.chance(2, 3);
                        randomOps(g, (int)c.tape.range(2, rich ? 4 : 7), 2, rich);
                        c.label(rich ? "random, any operands" : "random");
                      }
                      (void)none;
                      Layout l;
                      l.comments = c.tape.chance(1, 5);
                      c.input = render(c.tape, g.out, l);
                      auto r = ref::parse(c.input);
                      hsql::SQLParserResult res;
                      if (!compareWithReference(c, c.input, r, res)) return;
                      if (!r.valid) {
                        c.label("rejected");
                        return;
                      }
                      c.nontrivial = g.out.size() > 4;
                      auto* e = ((const hsql::SelectStatement*)res.getStatement(0))->selectList->at(0);
                      std::string p = "SELECT ";
                      if (!paren(e, p)) {
                        c.label("no parenthesised form");
                        return;
                      }
                      hsql::SQLParserResult again;
                      hsql::SQLParser::parse(p, &again);
                      ++c.work;
                      if (ref::parse(p).maxDepth > kDeep && !again.isValid()) return;
                      c.check(again.isValid(), "the parenthesised form is rejected: " + p);
                      auto* e2 = ((const hsql::SelectStatement*)again.getStatement(0))->selectList->at(0);
                      std::string a = impl::dumpExpr(e), b = impl::dumpExpr(e2);
                      c.check(a == b, "the parenthesised form " + p + " differs: " + diffText(a, b));
                      c.label("parenthesised form equal");
                    },
                    kPairs + kTriples + kSpecial + 250000, kPairs + kTriples + kSpecial + 2500000, 8, 20, 3, false, kPairs + kTriples + kSpecial, nullptr});

// ---- C03
const Register c03({"C03",
                    "Queries built around set operations: chains of UNION/INTERSECT/EXCEPT [ALL] with operands that are plain or parenthesised queries with their own ORDER BY, LIMIT, set operations and "
                    "locking clauses, inside WITH, subqueries, INSERT, CREATE VIEW and COPY; compared with the reference parser. Non-trivial: at least two set operations, or one with ORDER BY or LIMIT.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.focus = F_SETOPS;
                      g.maxNodes = (int)c.tape.range(20, 120);
                      g.maxDepth = 4;
                      g.wildNames = g.wildLiterals = c.tape.chance(1, 4);
                      switch (c.tape.weighted({70, 5, 5, 5, 5, 5})) {
                        case 0:
                          g.selectStatement(0);
                          break;
                        case 1:
                          g.k("INSERT INTO");
                          g.tableName();
                          g.selectNoParen(0);
                          break;
                        case 2:
                          g.k("CREATE VIEW");
                          g.tableName();
                          g.k("AS");
                          g.selectStatement(0);
                          break;
                        case 3:
                          g.k("COPY");
                          g.selectWithParen(0);
                          g.k("TO");
                          g.str();
                          break;
                        case 4:
                          g.k("SELECT");
                          g.p("*");
                          g.k("FROM");
                          g.p("(");
                          g.selectStatement(1);
                          g.p(")");
                          break;
                        default:
                          g.k("CREATE TABLE");
                          g.tableName();
                          g.k("AS");
                          g.selectStatement(0);
                      }
                      size_t ops = countText(g.out, "UNION") + countText(g.out, "INTERSECT") + countText(g.out, "EXCEPT");
                      bool tail = hasText(g.out, "ORDER") || hasText(g.out, "LIMIT") || hasText(g.out, "OFFSET");
                      c.nontrivial = ops >= 2 || (ops && tail);
                      c.label(ops == 0 ? "no set operation" : ops == 1 ? "1 set operation" : ops < 4 ? "2-3 set operations" : "4+ set operations");
                      if (tail) c.label("order/limit");
                      structural(c, g);
                    },
                    120000, 2500000});

// ---- C04
const Register c04({"C04",
                    "FROM clauses of comma lists, joins of every kind, nested join chains whose ON/USING close an earlier join, subqueries and aliases with columns; compared with the reference parser. "
                    "Non-trivial: at least one join or two tables.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.focus = F_FROM;
                      g.maxNodes = (int)c.tape.range(20, 100);
                      g.maxDepth = (int)c.tape.range(2, 3);
                      g.wildNames = c.tape.chance(1, 2);
                      g.wildLiterals = false;
                      g.k("SELECT");
                      g.p("*");
                      g.k("FROM");
                      g.tableRef(0);
                      if (c.tape.chance(1, 3)) {
                        g.k("WHERE");
                        g.expr(2);
                      }
                      size_t joins = countText(g.out, "JOIN");
                      c.nontrivial = joins > 0 || hasText(g.out, ",");
                      c.label(joins == 0 ? "no join" : joins == 1 ? "1 join" : joins < 4 ? "2-3 joins" : "4+ joins");
                      for (auto* k : {"NATURAL", "USING", "ON", "CROSS", "OUTER", "FULL", "LEFT", "RIGHT", "INNER", ","})
                        if (hasText(g.out, k)) c.label(k);
                      if (countText(g.out, "SELECT") > 1) c.label("subquery");
                      structural(c, g);
                    },
                    120000, 2500000});

// ---- C05
const Register c05({"C05",
                    "One to four expressions with every form (column references, stars, functions with windows and frames, CASE, CAST, EXTRACT, IN, EXISTS, BETWEEN, arrays, array indexes, subqueries) in "
                    "every place that takes an expression; compared with the reference parser. Non-trivial: contains a form other than a name or literal.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.focus = F_EXPR;
                      g.maxNodes = (int)c.tape.range(10, 80);
                      g.maxDepth = (int)c.tape.range(2, 4);
                      uint32_t place = c.tape.below(8);
                      auto forms = [&] {
                        switch (c.tape.below(8)) {
                          case 0: g.function(1); break;
                          case 1: g.caseExpr(1); break;
                          default: g.expr(0);
                        }
                      };
                      if (place == 0) {
                        g.k("DELETE FROM");
                        g.name();
                        g.k("WHERE");
                        forms();
                      } else if (place == 1) {
                        g.k("UPDATE");
                        g.name();
                        g.k("SET");
                        g.name();
                        g.p("=");
                        forms();
                      } else {
                        g.k("SELECT");
                        uint32_t n = c.tape.range(1, 4);
                        for (uint32_t i = 0; i < n; ++i) {
                          if (i) g.p(",");
                          forms();
                          if (c.tape.chance(1, 3)) {
                            if (c.tape.chance(1, 2)) g.k("AS");
                            g.name();
                          }
                        }
                        if (place >= 3) {
                          g.k("FROM");
                          g.name();
                          if (place == 4) g.k("WHERE"), forms();
                          if (place == 5) g.k("GROUP BY"), forms(), g.k("HAVING"), forms();
                          if (place == 6) g.orderBy(0);
                          if (place == 7) g.k("LIMIT"), forms(), g.k("OFFSET"), forms();
                        }
                      }
                      for (auto& t : g.out)
                        if (t.kind == KW && t.text != "SELECT" && t.text != "AS" && t.text != "FROM" && t.text != "WHERE") c.nontrivial = true;
                      structural(c, g);
                      labelClauses(c, g.out);
                    },
                    120000, 2500000});

// ---- C06
const Register c06({"C06",
                    "CREATE TABLE/VIEW/INDEX (definitions, AS query, FROM file), DROP, DEALLOCATE and ALTER statements with every optional part present or absent; compared with the reference parser. "
                    "Non-trivial: at least one optional part or list of two.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.maxNodes = 20;
                      static const Gen::St s[] = {Gen::CREATE_TABLE, Gen::CREATE_AS, Gen::CREATE_FROM, Gen::CREATE_INDEX, Gen::CREATE_VIEW, Gen::DROP, Gen::DEALLOCATE, Gen::ALTER};
                      auto k = s[c.tape.weighted({40, 6, 6, 14, 10, 12, 2, 10})];
                      g.statement(k);
                      c.label(statementName(k));
                      for (auto* w : {"IF", "PRIMARY", "FOREIGN", "REFERENCES", "UNIQUE", "NULL", "DECIMAL", "VARCHAR", "TIME", "CHAR", "HINT"})
                        if (hasText(g.out, w)) c.label(w);
                      c.nontrivial = hasText(g.out, "IF") || hasText(g.out, ".") || hasText(g.out, ",") || g.out.size() > 10;
                      structural(c, g);
                    },
                    150000, 3000000});

// ---- C08
const Register c08({"C08",
                    "INSERT (VALUES and SELECT, with and without column list), UPDATE, DELETE and TRUNCATE statements; compared with the reference parser. Non-trivial: has a WHERE, a column list, two values "
                    "or two assignments.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.maxNodes = (int)c.tape.range(5, 50);
                      static const Gen::St s[] = {Gen::INSERT, Gen::UPDATE, Gen::DELETE, Gen::TRUNCATE};
                      auto k = s[c.tape.weighted({40, 30, 25, 5})];
                      g.statement(k);
                      c.label(statementName(k));
                      for (auto* w : {"WHERE", "SELECT", "VALUES", "CAST", "HINT"})
                        if (hasText(g.out, w)) c.label(w);
                      c.nontrivial = hasText(g.out, "WHERE") || hasText(g.out, ",") || hasText(g.out, "(");
                      structural(c, g);
                    },
                    120000, 2500000});

// ---- C09
const Register c09({"C09",
                    "IMPORT and COPY statements in both directions with random option lists: valid combinations in any order, and lists with repeated, conflicting or unknown options and formats. Acceptance "
                    "and content are compared with the reference parser. Non-trivial: has options or a condition.",
                    [](Case& c) {
                      Gen g(c.tape);
                      g.maxNodes = 15;
                      if (c.tape.chance(1, 6)) {
                        g.statement(Gen::IMPORT);
                        if (c.tape.chance(1, 4))
                          for (auto& t : g.out)
                            if (t.kind == WORD) {
                              t.text = c.tape.chance(1, 2) ? "csvx" : plainName(c.tape);
                              break;
                            }
                        c.nontrivial = true;
                      } else if (c.tape.chance(1, 2)) {
                        g.statement(Gen::COPY);
                        c.nontrivial = hasText(g.out, "(") || hasText(g.out, "WHERE");
                      } else {
                        g.k("COPY");
                        if (c.tape.chance(1, 6)) {
                          g.selectWithParen(2);
                          g.k("TO");
                        } else {
                          g.tableName();
                          g.k(c.tape.chance(1, 2) ? "FROM" : "TO");
                        }
                        g.str();
                        g.copyOptions(false);
                        if (c.tape.chance(1, 4)) {
                          g.k("WHERE");
                          g.expr(2);
                        }
                        c.nontrivial = true;
                      }
                      c.input = render(c.tape, g.out);
                      auto r = ref::parse(c.input);
                      hsql::SQLParserResult res;
                      compareWithReference(c, c.input, r, res);
                      c.label(r.valid ? "accepted" : r.syntax ? "rejected by the grammar" : "conflicting options");
                      for (auto* w : {"FORMAT", "ENCODING", "NULL", "WITH", "WHERE", "SELECT"})
                        if (hasText(g.out, w)) c.label(w);
                    },
                    150000, 3000000});

// ---- C10
const Register c10({"C10",
                    "PREPARE, EXECUTE, transaction, SHOW and DESCRIBE statements, and any statement with optimizer hints, alone or in sequences in which only some statements have hints; compared with the "
                    "reference parser. Non-trivial: has arguments, hints or a table.",
                    [](Case& c) {
                      Toks all;
                      uint32_t n = c.tape.chance(1, 3) ? c.tape.range(2, 5) : 1;
                      for (uint32_t i = 0; i < n; ++i) {
                        Gen g(c.tape);
                        g.maxNodes = 8;
                        static const Gen::St s[] = {Gen::PREPARE, Gen::EXECUTE, Gen::TRANSACTION, Gen::SHOW};
                        uint32_t w = (uint32_t)c.tape.weighted({15, 30, 15, 15, 30});
                        auto k = w < 4 ? s[w] : g.anyStatement();
                        g.statement(k);
                        bool hinted = hasText(g.out, "HINT");
                        if (!hinted && k != Gen::SHOW && k != Gen::IMPORT && k != Gen::COPY && c.tape.chance(1, 2)) g.hints();
                        if (hasText(g.out, "HINT")) c.label("hints");
                        c.label(w < 4 ? statementName(k) : "other");
                        if (i) all.push_back({PUNCT, ";"});
                        all.insert(all.end(), g.out.begin(), g.out.end());
                      }
                      if (c.tape.chance(1, 2)) all.push_back({PUNCT, ";"});
                      c.nontrivial = all.size() >= 3;
                      Gen g(c.tape);
                      g.out = all;
                      structural(c, g);
                    },
                    120000, 2500000});

// ---- C14
const Register c14({"C14",
                    "Statement sequences of the language after one to four token-level changes (delete, insert, replace, replace by a related token, duplicate, swap, copy or drop a range), short random token sequences, valid texts "
                    "followed by further tokens, and every token of the language at one place of a text. Acceptance, and the content if accepted, are compared with the reference parser. Non-trivial: the changed text is not in the language, or was changed and still is.",
                    [](Case& c) {
                      Toks toks;
                      bool changed = false;
                      if (c.tape.chance(1, 100)) {
                        // Every token there is, at one place of a text or instead of one or two of its tokens.
                        toks = statements(c.tape, c.tape.chance(1, 4) ? 3 : 1);
                        uint32_t at = c.tape.below((uint32_t)toks.size() + 1), to = std::min<uint32_t>((uint32_t)toks.size(), at + c.tape.below(3));
                        Layout l;
                        l.comments = c.tape.chance(1, 4);
                        std::string head = render(c.tape, Toks(toks.begin(), toks.begin() + at), l) + "\n", tail = "\n" + render(c.tape, Toks(toks.begin() + to, toks.end()), l);
                        uint32_t valid = 0;
                        for (auto& k : everyToken()) {
                          c.input = head + k + tail;
                          auto r = ref::parse(c.input);
                          hsql::SQLParserResult res;
                          if (compareWithReference(c, c.input, r, res)) valid += r.valid;
                          c.discarded = false;
                        }
                        c.label("every token at one place");
                        c.label(valid > 20 ? "more than 20 tokens fit" : valid > 1 ? "several tokens fit" : "at most one token fits");
                        c.nontrivial = true;
                        return;
                      }
                      switch (c.tape.weighted({60, 10, 15, 15})) {
                        case 0: {
                          toks = statements(c.tape, c.tape.chance(1, 3) ? 4 : 1);
                          uint32_t n = c.tape.weighted({70, 15, 10, 5}) + 1;
                          for (uint32_t i = 0; i < n; ++i) c.label(mutate(c.tape, toks));
                          changed = true;
                          break;
                        }
                        case 1: {
                          uint32_t n = c.tape.range(1, 8);
                          for (uint32_t i = 0; i < n; ++i) toks.push_back(randomToken(c.tape));
                          c.label("random tokens");
                          changed = true;
                          break;
                        }
                        case 2: {
                          Gen g(c.tape);
                          g.maxNodes = 12;
                          g.statement(g.anyStatement());
                          toks = g.out;
                          uint32_t n = c.tape.range(1, 3);
                          for (uint32_t i = 0; i < n; ++i) toks.push_back(randomToken(c.tape));
                          c.label("suffix");
                          changed = true;
                          break;
                        }
                        default: {
                          // Cut at some token.
                          Gen g(c.tape);
                          g.maxNodes = 30;
                          g.statement(g.anyStatement());
                          toks = g.out;
                          toks.resize(c.tape.below((uint32_t)toks.size() + 1));
                          c.label("prefix");
                          changed = true;
                        }
                      }
                      Layout l;
                      l.comments = c.tape.chance(1, 4);
                      enlarge(c, toks, l, 200);
                      c.input = render(c.tape, toks, l);
                      auto r = ref::parse(c.input);
                      hsql::SQLParserResult res;
                      if (!compareWithReference(c, c.input, r, res)) return;
                      c.label(r.valid ? "accepted" : r.syntax ? "not in the grammar" : "breaks a rule");
                      c.nontrivial = changed && !toks.empty();
                    },
                    250000, 6000000});
}  // namespace
