#include <algorithm>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <locale.h>
#include <set>
#include "ref.h"

namespace ref {
const std::vector<std::string>& keywords() {
  static const std::vector<std::string> k = [] {
    std::vector<std::string> v;
    const char* words =
        "ADD AFTER ALL ALTER ANALYZE AND ARRAY AS ASC BEFORE BEGIN BETWEEN BIGINT BOOLEAN BY CALL CASCADE CASE CAST "
        "CHAR COLUMN COLUMNS COMMIT CONTROL COPY CREATE CROSS DATE DATETIME DAY DAYS DEALLOCATE DECIMAL DEFAULT DELETE "
        "DELTA DESC DESCRIBE DIRECT DISTINCT DOUBLE DROP ELSE ENCODING END ESCAPE EXCEPT EXECUTE EXISTS EXPLAIN EXTRACT "
        "FALSE FILE FLOAT FOLLOWING FOR FOREIGN FORMAT FROM FULL GLOBAL GROUP GROUPS HASH HAVING HINT HOUR HOURS IF "
        "ILIKE IMPORT IN INDEX INNER INSERT INT INTEGER INTERSECT INTERVAL INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT "
        "LOAD LOCAL LOCKED LONG MERGE MINUS MINUTE MINUTES MONTH MONTHS NATURAL NO NOT NOWAIT NULL NVARCHAR OF OFF "
        "OFFSET ON OR ORDER OUTER OVER PARAMETERS PARTITION PLAN PRECEDING PREPARE PRIMARY RANGE REAL REFERENCES RENAME "
        "RESTRICT RIGHT ROLLBACK ROWS SCHEMA SCHEMAS SECOND SECONDS SELECT SET SHARE SHOW SKIP SMALLINT SORTED SPATIAL "
        "TABLE TABLES TEMPORARY TEXT THEN TIME TIMESTAMP TO TOP TRANSACTION TRUE TRUNCATE UNBOUNDED UNION UNIQUE UNLOAD "
        "UPDATE USING VALUES VARCHAR VIEW VIRTUAL WHEN WHERE WITH YEAR YEARS";
    std::string w;
    for (const char* p = words;; ++p) {
      if (*p == ' ' || !*p) {
        v.push_back(w);
        w.clear();
        if (!*p) break;
      } else {
        w += *p;
      }
    }
    return v;
  }();
  return k;
}
bool isKeyword(const std::string& upper) {
  static const std::set<std::string> s(keywords().begin(), keywords().end());
  return s.count(upper) > 0;
}

static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool word(char c) { return alpha(c) || dig(c) || c == '_'; }
static std::string upper(std::string s) {
  for (auto& c : s)
    if (c >= 'a' && c <= 'z') c -= 32;
  return s;
}

// Length of FIRST <whitespace> SECOND at p, or 0.
static size_t pair(const std::string& t, size_t p, const char* first, const char* second) {
  size_t n1 = strlen(first), n2 = strlen(second);
  if (upper(t.substr(p, n1)) != first) return 0;
  size_t q = p + n1;
  if (q >= t.size() || !ws(t[q])) return 0;
  while (q < t.size() && ws(t[q])) ++q;
  if (upper(t.substr(q, n2)) != second) return 0;
  return q + n2 - p;
}

static double toDouble(const std::string& s) {
  static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0);
  return strtod_l(s.c_str(), nullptr, c);
}

std::vector<Tok> lex(const std::string& t) {
  std::vector<Tok> out;
  size_t p = 0;
  int line = 0, col = 0;
  auto advance = [&](size_t to) {
    for (; p < to; ++p) {
      if (t[p] == '\n') {
        ++line;
        col = 0;
      } else {
        ++col;
      }
    }
  };
  while (p < t.size()) {
    char c = t[p];
    if (ws(c)) {
      advance(p + 1);
      continue;
    }
    if (c == '-' && p + 1 < t.size() && t[p + 1] == '-') {
      size_t q = p;
      while (q < t.size() && t[q] != '\n') ++q;
      advance(q);
      continue;
    }
    Tok k;
    k.off = p;
    k.line = line;
    k.col = col;
    size_t q = p + 1;
    static const std::string kMin = "-9223372036854775808";
    if (alpha(c)) {
      while (q < t.size() && word(t[q])) ++q;
      size_t n = 0;
      if ((n = pair(t, p, "CURRENT", "ROW")) > q - p) {
        k.kind = T_KW;
        k.text = "CURRENT_ROW";
        q = p + n;
      } else if ((n = pair(t, p, "CHARACTER", "VARYING")) > q - p) {
        k.kind = T_KW;
        k.text = "CHARACTER_VARYING";
        q = p + n;
      } else {
        std::string w = t.substr(p, q - p), u = upper(w);
        if (isKeyword(u)) {
          k.kind = T_KW;
          k.text = u;
        } else {
          k.kind = T_IDENT;
          k.text = w;
        }
      }
    } else if (dig(c) || (c == '.' && q < t.size() && dig(t[q]))) {
      q = p;
      while (q < t.size() && dig(t[q])) ++q;
      if (q < t.size() && t[q] == '.') {
        ++q;
        while (q < t.size() && dig(t[q])) ++q;
        k.kind = T_FLOAT;
        k.text = t.substr(p, q - p);
        k.fval = toDouble(k.text);
      } else {
        k.kind = T_INT;
        k.text = t.substr(p, q - p);
        unsigned __int128 v = 0;
        bool big = false;
        for (char d : k.text) {
          v = v * 10 + (d - '0');
          if (v > (unsigned __int128)INT64_MAX) {
            big = true;
            v = INT64_MAX;
          }
        }
        k.ival = (int64_t)v;
        if (big) k.kind = T_INVALID;
      }
    } else if (c == '-' && t.compare(p, kMin.size(), kMin) == 0 && t[p + kMin.size()] != '.') {
      q = p + kMin.size();
      k.kind = T_INT;
      k.ival = INT64_MIN;
      k.text = kMin;
    } else if (c == '\'') {
      k.kind = T_INVALID;
      while (q < t.size()) {
        if (t[q] == '\0') {
          ++q;
          break;
        }
        if (t[q] == '\'') {
          if (q + 1 < t.size() && t[q + 1] == '\'') {
            k.text += '\'';
            q += 2;
            continue;
          }
          ++q;
          k.kind = T_STRING;
          break;
        }
        k.text += t[q++];
      }
    } else if (c == '"') {
      while (q < t.size() && t[q] != '"' && t[q] != '\n' && t[q] != '\0') ++q;
      if (q < t.size() && t[q] == '"' && q > p + 1) {
        k.kind = T_IDENT;
        k.quoted = true;
        k.text = t.substr(p + 1, q - p - 1);
        ++q;
      } else {
        k.kind = T_INVALID;
        q = p + 1;
      }
    } else {
      static const char* two[] = {"==", "!=", "<>", "<=", ">=", "||"};
      k.kind = T_INVALID;
      for (auto* s : two)
        if (t.compare(p, 2, s) == 0) {
          k.kind = T_PUNCT;
          k.text = s;
          q = p + 2;
        }
      if (k.kind == T_INVALID && c != '\0' && strchr("-+*/(){},.;<>=^%:?[]|", c)) {
        k.kind = T_PUNCT;
        k.text = std::string(1, c);
      }
    }
    k.end = q;
    advance(q);
    out.push_back(std::move(k));
  }
  return out;
}
}  // namespace ref
