// Generators: token sequences of the supported grammar, their rendering as text, and mutations.
#pragma once
#include <string>
#include <vector>
#include "ref.h"
#include "tape.h"

namespace gen {

enum Kind { KW, NAME, WORD, STR, NUM, PUNCT, PARAM };
struct Tok {
  Kind kind;
  std::string text;
};
using Toks = std::vector<Tok>;

// What a generated statement concentrates on.
enum Focus { F_ANY, F_SELECT, F_OPS, F_SETOPS, F_FROM, F_EXPR };

class Gen {
 public:
  explicit Gen(Tape& t) : t(t) {}
  Tape& t;
  Toks out;
  int nodes = 0;       // expressions and queries so far
  int maxNodes = 60;   // beyond, only simple ones follow
  int maxDepth = 4;
  bool params = true;
  bool wildNames = true;
  bool wildLiterals = true;
  bool idioms = true;  // phrases that are written all the time
  bool repeats = true;
  bool close = false;  // repeats many names and numbers
  Focus focus = F_ANY;
  int fixedList = 0;   // length of the next lists, if set

  // emitting
  void k(const char* words);  // keywords, separated by blanks
  void p(const char* s) { out.push_back({PUNCT, s}); }
  const Tok* earlier(Kind kind);
  enum Part { P_EXPR, P_OPERAND, P_PRIMARY, P_QUERY, P_TABLE, P_ASSIGNMENT, P_COUNT };
  std::vector<std::pair<uint32_t, uint32_t>> parts[P_COUNT];  // where they are in out
  struct Scope;
  bool again(Part part, uint32_t longest = 24);
  void name();
  void names(uint32_t max = 12);
  void tableName();
  void str();
  void strOf(const std::string& content);
  void integer();
  void smallInt();
  void floating();
  void num(const std::string& s) { out.push_back({NUM, s}); }

  // expressions
  void preparedText();
  void idiom(const char* text, int d);
  void expr(int d);
  void operand(int d);
  void primary(int d);
  void predicate(int d);
  void exprList(int d, bool aliases);
  void literal();
  void extendedLiteral();
  void extendedLiterals();
  void columnType();
  void function(int d);
  void caseExpr(int d);
  void interval();
  void date();
  void orderBy(int d);
  void frame();
  int depthLeft(int d);
  bool rich(int d);  // may nest further

  // queries
  void selectClause(int d);
  void selectNoParen(int d);
  void selectWithin(int d, int chain);
  void selectWithParen(int d);
  void selectStatement(int d);
  void parenSelect(int d);  // ( select_no_paren )
  void setOp();
  void limit(int d);
  void lockings();
  void tableRef(int d);
  void tableAtomic(int d, int joins);
  void nonJoin(int d);

  // statements
  enum St { SELECT, INSERT, UPDATE, DELETE, TRUNCATE, CREATE_TABLE, CREATE_AS, CREATE_FROM, CREATE_INDEX, CREATE_VIEW, DROP, DEALLOCATE, ALTER,
            PREPARE, EXECUTE, TRANSACTION, SHOW, IMPORT, COPY, NSTATEMENTS };
  void statement(St s);
  St anyStatement();
  void hints();
  void tableElements();
  void columnDef(bool conflictFree = true);
  void copyOptions(bool valid = true);
  void references();
  uint32_t listSize(uint32_t lo, uint32_t typical, uint32_t max);
};

// Texts of names and literals.
std::string plainName(Tape& t, bool wild = true);
std::string quotedName(Tape& t);  // with the quotes
std::string stringContent(Tape& t);
std::string quoteString(const std::string& content);
std::string intText(Tape& t);
std::string floatText(Tape& t);
std::string dateText(Tape& t);

// Layout of a token sequence.
struct Layout {
  bool comments = true;
  bool tight = true;        // leave out separators where possible
  bool randomCase = true;
  bool outer = true;        // trivia at the start and end
  bool huge = false;        // one place is very long, or very many lines
};
std::string separator(Tape& t, bool required, const Layout& l);
std::string comment(Tape& t);
std::string render(Tape& t, const Toks& toks, const Layout& l = {});
std::string plain(const Toks& toks);  // single blanks, upper case
// The whole text as another system or encoding would have it.
std::string foreign(Tape& t, const std::string& s);
std::string randomCase(Tape& t, const std::string& s);
bool needsSeparator(const std::string& a, const std::string& b);

// Token-level changes of a valid sequence; returns a description.
std::string mutate(Tape& t, Toks& toks);
// Makes one list or operator chain long: repeats an item, with other names and numbers. Returns how many items were added.
uint32_t stretch(Tape& t, Toks& toks);
// Makes one name or string very long. Returns its new length, or 0.
uint32_t swell(Tape& t, Toks& toks);
// A length at or near a power of two, or anything up to 100000.
uint32_t edgeLength(Tape& t);
// Every token of the language: keywords, punctuation, and one or more of each other kind.
const std::vector<std::string>& everyToken();
Tok randomToken(Tape& t);
// A statement sequence.
// Statements that belong together: with the names, numbers and parts of those before, or nearly equal.
struct Session {
  Session(Tape& t, int nodes) : t(t), g(t) {
    g.maxNodes = nodes;
    g.close = true;
  }
  Toks next();
  Tape& t;
  Gen g;
  uint32_t story = 0, count = 0;
  size_t first = 0, last = 0;
  Gen::St lastKind = Gen::SELECT;
};
Toks statements(Tape& t, uint32_t max, std::vector<size_t>* starts = nullptr);
const char* statementName(Gen::St s);
}  // namespace gen
