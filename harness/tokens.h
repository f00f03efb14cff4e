// The token codes of the public interface, against the reference lexer.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "ref.h"
#include "parser/bison_parser.h"

inline const std::map<std::string, int>& codes() {
  static const std::map<std::string, int> m = [] {
    std::map<std::string, int> v;
#define K(x) v[#x] = SQL_##x
    K(ADD); K(AFTER); K(ALL); K(ALTER); K(ANALYZE); K(AND); K(ARRAY); K(AS); K(ASC); K(BEFORE); K(BEGIN); K(BETWEEN); K(BIGINT); K(BOOLEAN); K(BY); K(CALL); K(CASCADE); K(CASE); K(CAST);
    K(CHAR); K(COLUMN); K(COLUMNS); K(COMMIT); K(CONTROL); K(COPY); K(CREATE); K(CROSS); K(DATE); K(DATETIME); K(DAY); K(DAYS); K(DEALLOCATE); K(DECIMAL); K(DEFAULT); K(DELETE); K(DELTA);
    K(DESC); K(DESCRIBE); K(DIRECT); K(DISTINCT); K(DOUBLE); K(DROP); K(ELSE); K(ENCODING); K(END); K(ESCAPE); K(EXCEPT); K(EXECUTE); K(EXISTS); K(EXPLAIN); K(EXTRACT); K(FALSE); K(FILE);
    K(FLOAT); K(FOLLOWING); K(FOR); K(FOREIGN); K(FORMAT); K(FROM); K(FULL); K(GLOBAL); K(GROUP); K(GROUPS); K(HASH); K(HAVING); K(HINT); K(HOUR); K(HOURS); K(IF); K(ILIKE); K(IMPORT); K(IN);
    K(INDEX); K(INNER); K(INSERT); K(INT); K(INTEGER); K(INTERSECT); K(INTERVAL); K(INTO); K(IS); K(ISNULL); K(JOIN); K(KEY); K(LEFT); K(LIKE); K(LIMIT); K(LOAD); K(LOCAL); K(LOCKED);
    K(LONG); K(MERGE); K(MINUS); K(MINUTE); K(MINUTES); K(MONTH); K(MONTHS); K(NATURAL); K(NO); K(NOT); K(NOWAIT); K(NULL); K(NVARCHAR); K(OF); K(OFF); K(OFFSET); K(ON); K(OR); K(ORDER);
    K(OUTER); K(OVER); K(PARAMETERS); K(PARTITION); K(PLAN); K(PRECEDING); K(PREPARE); K(PRIMARY); K(RANGE); K(REAL); K(REFERENCES); K(RENAME); K(RESTRICT); K(RIGHT); K(ROLLBACK); K(ROWS);
    K(SCHEMA); K(SCHEMAS); K(SECOND); K(SECONDS); K(SELECT); K(SET); K(SHARE); K(SHOW); K(SKIP); K(SMALLINT); K(SORTED); K(SPATIAL); K(TABLE); K(TABLES); K(TEMPORARY); K(TEXT); K(THEN);
    K(TIME); K(TIMESTAMP); K(TO); K(TOP); K(TRANSACTION); K(TRUE); K(TRUNCATE); K(UNBOUNDED); K(UNION); K(UNIQUE); K(UNLOAD); K(UPDATE); K(USING); K(VALUES); K(VARCHAR); K(VIEW); K(VIRTUAL);
    K(WHEN); K(WHERE); K(WITH); K(YEAR); K(YEARS); K(CURRENT_ROW); K(CHARACTER_VARYING);
#undef K
    v["=="] = SQL_EQUALS;
    v["!="] = SQL_NOTEQUALS;
    v["<>"] = SQL_NOTEQUALS;
    v["<="] = SQL_LESSEQ;
    v[">="] = SQL_GREATEREQ;
    v["||"] = SQL_CONCAT;
    return v;
  }();
  return m;
}
// The code of an invalid token is not part of the property; -1 stands for one that is no other token.
inline std::vector<int> expectedTokens(const std::vector<ref::Tok>& t) {
  std::vector<int> v;
  for (auto& k : t) switch (k.kind) {
      case ref::T_IDENT: v.push_back(SQL_IDENTIFIER); break;
      case ref::T_STRING: v.push_back(SQL_STRING); break;
      case ref::T_INT: v.push_back(SQL_INTVAL); break;
      case ref::T_FLOAT: v.push_back(SQL_FLOATVAL); break;
      case ref::T_KW: v.push_back(codes().at(k.text)); break;
      case ref::T_PUNCT: {
        auto it = codes().find(k.text);
        v.push_back(it != codes().end() ? it->second : (unsigned char)k.text[0]);
        break;
      }
      default: v.push_back(-1);
    }
  return v;
}
inline std::string compareTokens(const std::vector<int>& want, const std::vector<int16_t>& got) {
  static const std::set<int> known = [] {
    std::set<int> s{SQL_IDENTIFIER, SQL_STRING, SQL_INTVAL, SQL_FLOATVAL};
    for (auto& x : codes()) s.insert(x.second);
    return s;
  }();
  for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
    if (i >= want.size()) return "more tokens than expected, after token " + std::to_string(i);
    if (want[i] == -1) {
      if (i < got.size() && known.count(got[i])) return "token " + std::to_string(i) + " is invalid, but is given as " + std::to_string(got[i]);
      return "";  // what follows an invalid token is not specified
    }
    if (i >= got.size()) return "only " + std::to_string(got.size()) + " tokens instead of " + std::to_string(want.size());
    if (want[i] != got[i]) return "token " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
  }
  return "";
}
