#pragma once
#include <string>
#include "SQLParser.h"
#include "engine.h"
#include "gen.h"
#include "ref.h"

// Texts nested deeper than this may be rejected by the parser's fixed stack; the estimate of the reference parser is generous.
constexpr int kDeep = 80;

// Parses a text with the real parser and the reference, and compares acceptance and content.
// Returns false if the case does not count (unspecified or too deep).
inline bool compareWithReference(Case& c, const std::string& text, const ref::Result& r, hsql::SQLParserResult& res, bool content = true) {
  bool ran = hsql::SQLParser::parse(text, &res);
  ++c.work;
  c.check(ran, "SQLParser::parse returned false");
  if (r.gray) {
    c.label("unspecified");
    c.discarded = true;
    return false;
  }
  if (r.valid && !res.isValid()) {
    if (r.maxDepth > kDeep) {
      c.label("too deep");
      c.discarded = true;
      return false;
    }
    c.fail(std::string("a text of the language is rejected: ") + (res.errorMsg() ? res.errorMsg() : "(no message)"));
  }
  if (!r.valid && res.isValid()) c.fail("a text outside the language is accepted; it became\n" + impl::dump(res));
  if (r.valid && content) {
    std::string want = ref::dump(r), got = impl::dump(res);
    if (want != got) c.fail("content differs: " + diffText(want, got));
  }
  return true;
}
inline bool compareWithReference(Case& c, const std::string& text) {
  auto r = ref::parse(text);
  hsql::SQLParserResult res;
  return compareWithReference(c, text, r, res);
}

inline std::string safeText(const std::string& s) { return s; }
inline bool hasText(const gen::Toks& t, const char* kw) {
  for (auto& x : t)
    if (x.kind != gen::NAME && x.kind != gen::STR && x.text == kw) return true;
  return false;
}
inline size_t countText(const gen::Toks& t, const char* kw) {
  size_t n = 0;
  for (auto& x : t)
    if (x.kind != gen::NAME && x.kind != gen::STR && x.text == kw) ++n;
  return n;
}
// Once in a while, one thing in a text is very long.
inline void enlarge(Case& c, gen::Toks& toks, gen::Layout& l, uint32_t oneIn) {
  Tape& t = c.tape;
  if (!t.chance(1, oneIn)) return;
  switch (t.below(3)) {
    case 0:
      l.huge = true;
      c.label("huge layout");
      break;
    case 1:
      if (gen::swell(t, toks)) c.label("huge name or string");
      break;
    default:
      if (gen::stretch(t, toks)) c.label("long list");
  }
}
