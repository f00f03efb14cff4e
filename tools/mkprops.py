#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable in one place)."""
import json
P=[]
Y="src/parser/bison_parser.y"; L="src/parser/flex_lexer.l"; S="src/sql/statements.cpp"; E="src/sql/Expr.cpp"
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","SELECT clauses arrive in the statement object exactly as written",
  "For every SELECT in the supported language, the resulting statement contains exactly the clauses that were written: DISTINCT, the select list in order with aliases, FROM, WHERE, GROUP BY/HAVING, ORDER BY items with direction and null ordering, TOP/LIMIT/OFFSET, WITH descriptions, and row locking clauses with tables and wait policy. No clause is lost, duplicated, reordered, attached to another (sub)query, or invented, however the clauses are combined and nested.",
  ["inputs"],"all combinations and nestings of SELECT clauses, with any names, list lengths and literals",
  "Some 100 fixed queries each check a few fields; the combinations of optional clauses, list lengths and nesting are unbounded.",
  [Y,S,"src/sql/SelectStatement.h"],[("select_statement, select_no_paren, select_clause, opt_order, opt_limit, opt_locking_clause, with_clause",Y)],["SQLParser::parse","SelectStatement"])
p("C02","Operators bind by the documented precedence and associativity",
  "In every expression the operand tree is the one given by the precedence and associativity of the operators: OR < AND < NOT < equality/LIKE/ILIKE/IN/BETWEEN < ordering comparisons < IS NULL < + - < * / % < ^ < || < unary minus < array index, left-associative for binary arithmetic and logic. Parentheses override this and leave no other trace, and a fully parenthesised rewriting of an expression parses to the same tree.",
  ["inputs"],"all expressions over the supported operators, of any length and mix",
  "Tests fix the tree of a handful of expressions; the pairs, triples and longer mixes of about 25 operators are not enumerable by hand.",
  [Y,E],[("precedence declarations, unary_expr, binary_expr, logic_expr, predicate, comp_expr, in_expr, between_expr",Y),("Expr::makeOpUnary/makeOpBinary/makeBetween/makeInOperator",E)],["SQLParser::parse","Expr::opType/expr/expr2/exprList"])
p("C03","UNION/INTERSECT/EXCEPT chains keep operands, kinds, order and result clauses",
  "For every chain of set operations, parenthesised or not, each operation's kind, ALL flag and nested query are recorded in the written order and nesting. ORDER BY and LIMIT/OFFSET that follow a set operation belong to the combined result, while those inside parentheses belong to the parenthesised query, and locking clauses stay with the statement they end.",
  ["inputs"],"all nestings of set operations with and without parentheses and result clauses",
  "A dozen fixed queries with at most three operands are tested.",
  [Y,S],[("select_statement, select_within_set_operation, select_no_paren, set_operator",Y)],["SelectStatement::setOperations"])
p("C04","FROM clauses keep every table, alias, join kind and condition in structure",
  "For every FROM clause the table tree holds each table with its schema, alias and alias columns, each subquery, and each join with its kind, operands and its own ON condition or USING columns; comma-separated tables form one cross product in order. Joins nest to the left, except where a later ON or USING belongs to an earlier join.",
  ["inputs"],"all FROM clauses: tables, aliases, subqueries, comma lists, and joins in any order and nesting",
  "Tests look at a few fixed joins; most combinations of join kinds, nesting and aliases are never checked.",
  [Y,S,"src/sql/Table.h"],[("table_ref, join_clause, opt_join_type, table_alias",Y)],["SelectStatement::fromTable"])
p("C05","Every expression form is represented with all its parts",
  "Column references, stars, function calls (schema, DISTINCT, arguments, window with partition, order and frame), CASE, CAST, EXTRACT, IN, EXISTS, BETWEEN, arrays, array indexes, subqueries and aliases arrive with all their parts in order and with nothing else set. An omitted window frame or frame end has the documented default (RANGE UNBOUNDED PRECEDING; CURRENT ROW).",
  ["inputs"],"all expression forms with arbitrary sub-expressions, in every place that takes an expression",
  "Each form is tested with one or two fixed instances.",
  [Y,E,"src/sql/Expr.h"],[("function_expr, opt_window, opt_frame_clause, case_expr, cast_expr, extract_expr, in_expr, exists_expr, array_expr, expr_alias",Y),("Expr::make*",E)],["Expr"])
p("C06","CREATE, DROP and ALTER statements are represented completely",
  "For every supported CREATE TABLE/VIEW/INDEX, DROP, DEALLOCATE and ALTER statement, the statement object has the written kind, object and schema names, IF [NOT] EXISTS flag, columns with their type, length, precision and scale, column and table constraints with referenced tables and columns, view columns, file path and query. Parts that were not written are absent.",
  ["inputs"],"all DDL statements of the supported language",
  "Tests fix some column lists; types, constraints, flags and names combine freely.",
  [Y,"src/sql/CreateStatement.cpp",S],[("create_statement, column_type, column_constraints, table_constraint, references_spec, drop_statement, alter_statement",Y)],["CreateStatement","DropStatement","AlterStatement"])
p("C07","Nullability: contradicting column constraints are rejected, others respected",
  "A column is reported as not nullable exactly if its own column constraints include NOT NULL or PRIMARY KEY, in whatever order and together with whatever other constraints (table-level constraints do not count). An otherwise correct CREATE TABLE is rejected exactly if the constraints of some column include NULL and also NOT NULL or PRIMARY KEY, wherever in the statement that column is, and also when other statements precede or follow.",
  ["inputs","histories"],"all sequences of column constraints over all columns of a table, and all positions of the statement",
  "Tests check one conflict with a few orders in one-column tables.",
  [Y,"src/sql/CreateStatement.cpp"],[("ColumnDefinition::trySetNullableExplicit","src/sql/CreateStatement.cpp"),("column_def, create_statement",Y)],["ColumnDefinition::nullable","SQLParserResult::isValid"])
p("C08","INSERT, UPDATE, DELETE and TRUNCATE are represented completely",
  "For every supported INSERT, UPDATE, DELETE and TRUNCATE the target table with schema, the column list, the values or the source query, each assignment in order, and the WHERE condition are those that were written. In particular a written condition is never lost, and none appears where none was written.",
  ["inputs"],"all data-modifying statements of the supported language",
  "A few fixed statements are tested.",
  [Y,S],[("insert_statement, update_statement, delete_statement, truncate_statement, extended_literal_list",Y)],["InsertStatement","UpdateStatement","DeleteStatement"])
p("C09","COPY/IMPORT/EXPORT: options are all honoured or the statement is rejected",
  "For every import or export statement the direction, file path, table or query, format, encoding, CSV options and WHERE condition are those that were written, for any order and letter case of the options. Statements that give an option twice, an unknown option or format, or CSV options with a non-CSV format are rejected.",
  ["inputs"],"all sequences of import/export options and all sources and targets",
  "Tests check some option lists; the order, repetition and combination of options is open-ended.",
  [Y,S,"src/sql/ImportExportOptions.h"],[("import_export_options, csv_option, file_type",Y),("CsvOptions::accept_csv_option",S)],["ImportStatement","ExportStatement"])
p("C10","PREPARE, EXECUTE, transactions, SHOW and hints are represented completely",
  "PREPARE keeps the name and the exact query text, EXECUTE the name and every argument in order, BEGIN/COMMIT/ROLLBACK, SHOW and DESCRIBE their kind and table. Optimizer hints are attached, in order and with their arguments, to the statement they follow and to no other.",
  ["inputs"],"all such statements with any names, arguments and hints, on every statement kind that takes hints",
  "Few fixed statements; hints are tested on two statements.",
  [Y,S],[("prepare_statement, execute_statement, transaction_statement, show_statement, opt_hints",Y)],["PrepareStatement","ExecuteStatement","TransactionStatement","ShowStatement","SQLStatement::hints"])
p("C11","Literals have exactly the written value",
  "Integers over the whole signed 64-bit range, decimals (correctly rounded), strings (any bytes, '' for a quote), dates, intervals, booleans and NULL have exactly the value and type that was written, wherever a literal is allowed. Integers and interval durations outside the 64-bit range and malformed dates or intervals are rejected, never altered.",
  ["inputs"],"all literal texts of each kind, in all positions",
  "Tests use a few small values; value spaces are huge and errors hide at boundaries.",
  [L,Y,E],[("INTVAL, FLOATVAL, STRING rules",L),("date_literal, interval_literal, bool_literal",Y),("Expr::makeLiteral",E)],["Expr::ival/fval/name/datetimeField/isBoolLiteral"])
p("C12","Names keep every byte and letter case; keywords are case-insensitive",
  "Every identifier, quoted or not and of any length, arrives byte for byte with its letter case in the place where it was written, and words that merely contain or extend a keyword are identifiers. Every keyword is recognised in any mix of upper and lower case, and a quoted word is never a keyword.",
  ["inputs"],"all identifiers and all spellings of all keywords",
  "Tests use short lower-case names and upper-case keywords.",
  [L,E],[("IDENTIFIER rules, keyword rules, %option case-insensitive",L),("hsql::substr",E)],["names in all statement objects","SQLParser::tokenize"])
p("C13","Whitespace, line breaks, comments and letter case never change the meaning",
  "Replacing the separators between tokens by any other mix of blanks, tabs, line breaks (LF or CRLF) and -- comments, changing the letter case of keywords, or using an equivalent spelling (= and ==, != and <>, optional noise words such as AS, ASC, INNER, OUTER, TRANSACTION, a final semicolon) yields an equal result. The content of comments never has an effect.",
  ["inputs"],"all pairs of texts that differ only in layout, comments, keyword case or equivalent spellings",
  "Tests contain three comments, and hardly any layout but single blanks.",
  [L,Y],[("comment and whitespace rules",L)],["SQLParser::parse"])
p("C14","Exactly the supported language is accepted",
  "A text is accepted exactly if the whole of it is a semicolon-separated sequence of statements of the supported grammar. Inserting, deleting, replacing or swapping tokens of a valid text makes it rejected unless the result is again in the language, and no suffix or part of the text is ever ignored.",
  ["inputs"],"all token sequences, especially those a few edits away from valid statements",
  "The test files list some 100 good and 20 bad queries.",
  [Y,L],[("grammar rules",Y)],["SQLParserResult::isValid","SQLParserResult::size"])
p("C15","Text that cannot be tokenized is rejected, never truncated",
  "If a text contains, outside of strings, quoted names and comments, a character that belongs to no token, an unterminated string or quoted name, a NUL byte, or an integer that is out of range, it is rejected, wherever this is and whatever surrounds it. What precedes such a place is never accepted as a statement of its own.",
  ["inputs"],"all positions of all invalid characters and unterminated literals in all valid statements",
  "No test has an invalid character after a complete statement.",
  [L,"src/SQLParser.cpp"],[("catch-all and <<EOF>> rules",L)],["SQLParserResult::isValid"])
p("C16","Errors are reported consistently and at the offending token",
  "A rejected text yields an invalid result without statements or parameters, a non-empty message, and the zero-based line and column of the first token with which the text can no longer be continued to a valid one; if the text ends too early, a place that is not before its last token; if it breaks a rule beyond the grammar (such as an invalid date), some place in the text. An accepted text yields a valid result with at least one statement and no error message.",
  ["inputs"],"all rejected texts, with errors at any line and column, and all accepted texts",
  "Three tests look at error positions.",
  [Y,"src/SQLParser.cpp","src/SQLParserResult.cpp"],[("yyerror, YY_USER_ACTION",Y),("SQLParserResult::setErrorDetails","src/SQLParserResult.cpp")],["SQLParserResult::errorMsg/errorLine/errorColumn/isValid/size"])
p("C17","A multi-statement text means the sequence of its statements",
  "Parsing statements joined by semicolons yields the same statement objects, in order, as parsing each on its own, with the parameters of all statements in sequence. If any of them is invalid, the whole text is rejected.",
  ["inputs","histories"],"all sequences of valid and invalid statements",
  "Few fixed texts have two statements; state carried between statements needs many different neighbours.",
  [Y],[("statement_list, input",Y)],["SQLParserResult::getStatements","SQLParserResult::parameters"])
p("C18","Statement lengths cut the text into its statements",
  "The string lengths of the statements of a text are the lengths of consecutive pieces of the text that start at its beginning; each piece is the text of its statement up to and including the semicolon, together with the whitespace and comments before it. Parsing a piece on its own yields that statement.",
  ["inputs"],"all multi-statement texts with any layout and any bytes in strings and comments",
  "Two tests check the lengths of three or four plain statements.",
  [Y],[("statement_list action, YY_USER_ACTION (string_length)",Y)],["SQLStatement::stringLength"])
p("C19","Parameters are numbered left to right and listed completely",
  "For every accepted text the parameter list contains each ? placeholder of the statement objects exactly once, as the same object, ordered and numbered 0, 1, 2, ... by its position in the text, however deeply it is nested and however many there are. Question marks in strings, names and comments do not count.",
  ["inputs"],"all placements and numbers of placeholders in all statements",
  "Tests have at most a few parameters at the top level of one statement.",
  [Y,"src/SQLParserResult.cpp"],[("param_expr, input",Y),("SQLParserResult::addParameter","src/SQLParserResult.cpp")],["SQLParserResult::parameters","Expr::ival"])
p("C20","No input makes the parser crash, hang or touch invalid memory",
  "For every byte string, parsing, tokenizing, printing the result and destroying it terminate without a crash, an out-of-bounds or use-after-free access, a read of uninitialised memory or other undefined behaviour. The result is well-formed: a tree in which every object is owned exactly once.",
  ["inputs"],"all byte strings",
  "Tests run without memory checkers on benign text.",
  [L,Y,E,S,"src/util/sqlhelper.cpp"],[("lexer rules, semantic actions, destructors",Y)],["SQLParser::parse","SQLParser::tokenize","printStatementInfo"])
p("C21","All memory is released, for accepted and rejected input alike",
  "After a result (or released statements, or a token list) has been destroyed, no memory that parsing or tokenizing allocated remains allocated, whether the text was accepted or rejected, and at whatever token the error was. This also holds for results that are reused, reset, moved or assigned.",
  ["inputs","histories"],"all accepted texts, all error positions in all statements, and all ways to dispose of a result",
  "Tests run without a leak checker by default and have hardly any syntax errors.",
  [Y,E,S,"src/sql/CreateStatement.cpp","src/SQLParserResult.cpp","src/SQLParser.cpp"],[("%destructor declarations, actions with YYERROR",Y),("destructors",S)],["allocation balance around SQLParser::parse"])
p("C22","Result objects behave consistently over every sequence of operations",
  "Over every sequence of parsing into, moving, assigning, resetting, releasing statements from, adding statements to and destroying results, each result reports exactly the validity, error, statements and parameters its history implies, and every statement has exactly one owner. A reset or moved-from result is empty, invalid and can be used again like a new one.",
  ["histories"],"all finite sequences of operations over several result objects",
  "Four tests check one move, one release and one reset each.",
  ["src/SQLParserResult.cpp","src/SQLParserResult.h","src/SQLParser.cpp"],[("SQLParserResult::operator=, reset, releaseStatements, addParameter","src/SQLParserResult.cpp")],["SQLParserResult"])
p("C23","The result depends on the text alone",
  "Parsing or tokenizing the same text always gives an equal result, down to every public field and the printed summary, whatever was parsed or tokenized before (including texts that were rejected in the middle of a string or comment) and whatever the heap and stack contain.",
  ["inputs","histories"],"all texts, all sequences of earlier calls, all prior memory contents",
  "Tests parse each text once, in one order.",
  [L,Y,E,S],[("strbuf, start conditions",L),("constructors",S)],["SQLParser::parse","SQLParser::tokenize"])
p("C24","Concurrent parsing in several threads does not interfere",
  "When several threads parse, tokenize, print and destroy different texts at the same time, each gets exactly the result and output it would get alone, and no data race occurs in parsing, tokenizing and destroying.",
  ["schedules","inputs"],"all interleavings of calls in different threads, for all texts",
  "No test uses threads.",
  [L,"src/SQLParser.cpp",Y],[("reentrant scanner, pure parser, thread_local strbuf",L)],["SQLParser::parse in threads"])
p("C25","The result does not depend on the process locale",
  "Whatever locale the process has set, every text has the same result as in the C locale: numbers, keywords, contextual keywords and option names are read the same.",
  ["configurations","inputs"],"all texts under locales with other decimal separators, case rules and character sets",
  "Tests run in the C locale only.",
  [L,Y],[("FLOATVAL rule",L),("file_type, csv_option, opt_null_ordering, interval_literal",Y)],["SQLParser::parse after setlocale"])
p("C26","The printed summary shows the statement completely and in order",
  "For SELECT, INSERT, CREATE, IMPORT/COPY and transaction statements, the printed summary lists line by line, in a fixed order of clauses, what the statement contains: the fields, sources (tables with schema, alias and alias columns, both sides and condition of a join, subqueries), condition, grouping, locks, set operations with their result order and limits, order with direction, limit and offset; every expression with its operator, function or literal above its operands one level deeper, windows with partition, order and frame, casts with their type, and aliases; for INSERT the table, columns and values or query; for imports and exports path, format, table or query and condition; for CREATE the name and file path. Not printed are WITH, USING columns, the kind of a join, NULLS orderings, and schemas of tables other than sources. Printing is a function of the statement and changes nothing.",
  ["inputs"],"all statement objects the parser can produce",
  "No test checks the printed text.",
  ["src/util/sqlhelper.cpp","src/sql/CreateStatement.cpp",S],[("printStatementInfo, printExpression, printSelectStatementInfo","src/util/sqlhelper.cpp")],["stdout of printStatementInfo"])
p("C27","Tokenizing yields exactly the tokens of the text",
  "For every text the token list is the sequence of longest-match tokens of the whole text, with keywords, names, numbers, strings, operators and punctuation told apart, and whitespace and comments skipped. It is the same for every layout of the same tokens, and concatenating two texts with a separator concatenates their token lists.",
  ["inputs"],"all texts made of tokens and separators, including adjacent tokens without separators",
  "One test tokenizes five fixed statements.",
  [L,"src/SQLParser.cpp"],[("lexer rules",L),("SQLParser::tokenize","src/SQLParser.cpp")],["SQLParser::tokenize"])
p("C28","Size does not matter: long texts are parsed completely and correctly",
  "Lists, operator chains, join chains, names, strings, comments and statement sequences of any length (up to millions of elements or bytes) are parsed with every element in place, in time that grows about linearly, and the result can be destroyed with an ordinary stack. Deeply nested text (chains of set operations included) is either parsed correctly or rejected cleanly, and at least ten nested levels of parentheses, subqueries or set operations are accepted.",
  ["inputs"],"all lengths and nesting depths, around and far beyond buffer and stack sizes",
  "The longest tested statement has some hundred bytes.",
  [L,Y,E,S],[("YYINITDEPTH/YYMAXDEPTH parser stack, scanner buffer",Y),("Expr::~Expr",E),("JoinDefinition::~JoinDefinition",S)],["SQLParser::parse"])
p("C29","Accessors and column types agree with the data they describe",
  "For every object the parser produces, the convenience accessors (name or alias, has-alias, has-table, has-schema, is-literal, type tests, size and statement access) agree with its fields. Column types compare equal exactly if type, length, precision and scale are equal, and column types (CHAR and VARCHAR with their length) and constraints print as their SQL names.",
  ["inputs"],"all objects reachable from parse results and all pairs of column types",
  "Tests call each accessor on a few fixed objects.",
  [E,S,"src/sql/SQLStatement.cpp","src/sql/CreateStatement.cpp"],[("Expr::getName/isLiteral/hasAlias, TableRef::getName",E),("operator==(ColumnType), operator<<",S)],["Expr","TableRef","ColumnType","SQLStatement"])
p("C30","All entry points agree, and results do not depend on the text any longer",
  "For every text, parse and both forms of parseSQLString give the same result (a C string ends at its first NUL), and report that they could run. Parsing and tokenizing leave the text unchanged, tokenizing appends to the given list, and a result stays as it is when the text is changed or freed.",
  ["inputs"],"all texts, valid or not, through all entry points",
  "Tests use one entry point with literals that live forever.",
  ["src/SQLParser.cpp","src/SQLParser.h"],[("SQLParser::parse, SQLParser::parseSQLString, SQLParser::tokenize","src/SQLParser.cpp")],["SQLParser::parse","SQLParser::parseSQLString","SQLParser::tokenize"])
p("C31","Statement objects can be built, copied and changed by hand",
  "Rebuilding any parsed statement from its parts with the public constructors and factory functions gives a statement that is equal in every field and in print, shares nothing with the original and owns the parts it was given. New objects have the kind they were made with, no optional part and no flag set. After parts (expressions, tables, queries, names, lists, clauses) have been taken out, put in elsewhere or exchanged between statements, everything can be destroyed in any order, each part exactly once and none left over.",
  ["inputs","histories"],"all statements, all sequences of changes to them and all orders of destruction",
  "The tests look at what the parser built; they neither build nor change statement objects.",
  [E,S,"src/sql/CreateStatement.cpp","src/sql/PrepareStatement.cpp","src/sql/SQLStatement.cpp"],[("Expr::make*, Expr::~Expr",E),("constructors and destructors",S),("setColumnDefsAndConstraints, trySetNullableExplicit","src/sql/CreateStatement.cpp")],["public constructors and fields of the statement classes"])
p("C32","Results are not bound to the thread that made them",
  "A result, and statements released from it, may be read, moved, assigned, reset and destroyed in any thread, also after the thread that parsed it has ended, read by several threads at the same time, and used in a forked process. What it contains stays what the parser put there, no data race occurs among readers, and no memory is left when all is destroyed.",
  ["schedules","histories","inputs"],"all sequences of hand-overs between threads and processes, all interleavings of readers, for all texts",
  "No test uses threads or keeps a result beyond the function that made it.",
  ["src/SQLParserResult.cpp",E,S,L,"src/SQLParser.cpp"],[("move, assignment, releaseStatements, destruction","src/SQLParserResult.cpp"),("accessors","src/sql/Expr.cpp"),("thread_local strbuf",L)],["SQLParserResult in several threads"])
p("C33","A refused request for memory is reported and leaves nothing behind",
  "If malloc refuses the memory for setting up the lexer, or for a larger parser stack, the call reports it: parse or tokenize returns false and adds nothing to the result or token list, or the text is rejected with an error message and no statements. It never crashes, never returns part of the text as a valid result, keeps no memory, and the same text gives its usual result when it is parsed again, in the same result object or a new one.",
  ["inputs","histories"],"all texts and all requests for memory whose failure is reported to the caller, followed by a call that succeeds",
  "No test lets an allocation fail.",
  ["src/SQLParser.cpp",Y,L],[("hsql_lex_init checks in SQLParser::parse and tokenize","src/SQLParser.cpp"),("YYNOMEM, yyerror",Y)],["SQLParser::parse and tokenize with failing malloc"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
