"""Writes /verif/properties.jsonl (kept as a script so that the text stays easy to edit)."""
import json

LEX = "sqlvalidator/grammar/lexer.py"
SQL = "sqlvalidator/grammar/sql.py"
TOK = "sqlvalidator/grammar/tokeniser.py"
FH = "sqlvalidator/file_handler.py"
VAL = "sqlvalidator/sql_validator.py"
FMT = "sqlvalidator/sql_formatter.py"
MAIN = "sqlvalidator/main.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Formatting preserves every token of the query",
    "Formatting a supported SELECT or WITH statement yields a text with exactly the same sequence of SQL tokens as the input: none is dropped, added, duplicated or reordered. Identifiers, string literals, integers and operators come out as they were written, and keywords and function names are the same up to letter case. What is not supported (for instance tokens left over at the end of a clause) raises ParsingError instead of being dropped.",
    ["programs", "inputs"],
    "every statement of the supported grammar (clauses, joins, subqueries, expressions nested in one another) with arbitrary identifiers and values",
    "The tests compare about 200 fixed queries with fixed outputs; the combinations of an expression kind with the clause and the expression it is nested in are a product no list of examples reaches.",
    [LEX, SQL, FMT],
    [("recursive-descent parsers that must put every token in some node", LEX), ("transform()/__str__ of every node, which must print every field", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C02",
    "Formatting is idempotent",
    "Formatting an already formatted supported statement returns it unchanged, so running the formatter a second time (or --check-format after --format) never reports another change.",
    ["programs", "inputs"],
    "every statement of the supported grammar",
    "Tests format each sample once; whether the printed layout (line breaks, indentation, wrapped conditions) is parsed and printed the same again depends on the combination of constructs and on line lengths.",
    [LEX, SQL, FMT],
    [("re-indentation of nested text and line-length decisions", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C03",
    "Quoted text is opaque and kept verbatim",
    "The content of a quoted literal or quoted identifier (single, double or back quotes, with or without an r prefix, including doubled or backslash-escaped quotes and line breaks) never influences how the rest of the statement is read, and appears verbatim between the same quotes in the formatted text - even when it spells a keyword, a parenthesis, a comma, an operator or another quote character.",
    ["inputs"],
    "every content of a quoted token, at every place of the statement where a quoted token may stand",
    "Tests use a few harmless contents; the content that collides with a keyword, a bracket or a separator compared somewhere in the parser is one string among all strings.",
    [TOK, LEX, SQL],
    [("quote tokens delimit one content token", TOK), ("token scanners that must skip quoted content", TOK), ("StringParser", LEX)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C04",
    "Output is independent of input whitespace and keyword case",
    "Two texts of the same supported statement which differ only in the whitespace between tokens (kind and amount of blanks, tabs, newlines, or none around punctuation other than % and &) and in the letter case of keywords and function names have identical formatted texts.",
    ["inputs"],
    "every choice of whitespace between any two tokens and of letter case for every keyword letter",
    "Tests write each construct with one spacing and mostly one case; a case-sensitive keyword comparison or a missed separator shows only for one keyword in one position.",
    [TOK, LEX],
    [("whitespace splitting", TOK), ("lower() before each keyword comparison", LEX)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C05",
    "Clauses, list items and subqueries get their own lines",
    "In formatted text each clause keyword (FROM, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET, joins and ON/USING) begins a line at the indentation of its SELECT; when a SELECT, GROUP BY or ORDER BY list has several items each item begins its own line indented by one more blank, and a single item stays on the keyword's line. A subquery in FROM, a join, WITH or parentheses is on lines of its own, indented by one blank relative to the lines around it, and no line is empty or ends with a blank.",
    ["programs", "inputs"],
    "every combination of present clauses, item counts and nesting",
    "The layout of nested constructs depends on combinations (which clause, how many items, which nesting) of which the tests fix a sample.",
    [SQL],
    [("transform()/__str__ with replace of newline by newline plus blank", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C06",
    "Long conditions and calls are wrapped at 88 columns",
    "A top-level AND/OR condition in WHERE, HAVING or ON is printed on one line when its one-line text is shorter than 88 characters, and otherwise one operand per line with the connective at the start of each following line. The arguments of an ordinary function call (not those of COUNT, CAST or ARRAY_AGG) stay on one line when their one-line text has at most 88 characters and otherwise each argument is on its own line; this depends only on that text's length.",
    ["inputs"],
    "every combination of operand lengths (identifiers of any length), operand counts and connectives",
    "The boundary is one length in a continuum; tests have a few long and a few short samples and none at the boundary.",
    [SQL],
    [("comparison of the one-line text's length with the line length", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C07",
    "Keywords and function names in upper case, identifiers untouched",
    "In formatted text every SQL keyword, word operator, type name, date part and function name is in upper case however it was written, and every table, column and alias name keeps exactly the letter case it was written in.",
    ["programs", "inputs"],
    "every letter case of every keyword and name, in every construct of the supported grammar",
    "Tests mostly write keywords in one case; an unnormalised keyword or an upper-cased identifier needs the right construct with the right case.",
    [SQL, LEX],
    [(".upper() on printing keywords and function names", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C08",
    "Numeric literals keep their value",
    "An integer literal is printed with the same digits and a decimal literal with the same text as written, with its sign, wherever a number may stand.",
    ["inputs"],
    "every integer and decimal literal, at every place a number may stand",
    "Tests use a handful of small numbers; precision, trailing zeros, exponents and signs matter only for particular values.",
    [LEX, SQL, TOK],
    [("numeric tokens to Integer/Float nodes", LEX), ("printing of Integer/Float", SQL), ("no split of digits at the dot", TOK)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C09",
    "Splitting SQL text into tokens loses nothing",
    "For every text without backslashes, putting the tokens back together gives the text with only the whitespace outside quotes removed; outside quotes no token contains whitespace, a bracket, comma or semicolon is always a token of its own, and two-character operators (<>, <=, >=, !=, <<, >>, ||) written as a run of exactly two operator characters are one token.",
    ["inputs"],
    "every text up to a length bound over quotes, whitespace, punctuation, operator characters, letters and digits",
    "Tests tokenise a few dozen texts; interactions of quote kinds, unbalanced quotes and adjacent operators are combinatorial.",
    [TOK],
    [("recursive splitting", TOK), ("merging of two-character operators", TOK)],
    observe=["sqlvalidator.grammar.tokeniser.to_tokens"],
)
prop(
    "C10",
    "Validation resolves columns against what is in scope",
    "When only derived tables are in scope (sub-SELECTs in FROM, alone, aliased or joined, also in set operations), a query is reported invalid when an expression anywhere in its SELECT list, WHERE, GROUP BY, HAVING or ORDER BY names a column none of them exports or, unqualified, two of them export, and is not reported when each name is exported (directly, by alias, qualified by the derived table's alias, as a field of an exported column, or via * of a table). A bare alias of the SELECT list is also accepted as item of GROUP BY and ORDER BY, and the columns of a subquery's own tables hide those of the outer query. With a real table or UNNEST in scope nothing is reported, since its schema is unknown. Conditions of JOIN, DISTINCT ON and * REPLACE are not resolved.",
    ["programs", "inputs"],
    "every choice of exported and referenced names (including equal and different ones), qualifiers, aliases and clause",
    "Whether two names coincide is data; tests fix a few coincidences.",
    [SQL, VAL],
    [("known_fields of every FROM element", SQL), ("validate(known_fields) of every expression", SQL)],
    observe=["sqlvalidator.parse(...).is_valid()", "errors"],
)
prop(
    "C11",
    "Positions in GROUP BY and ORDER BY are checked against the list",
    "An integer position n in GROUP BY or ORDER BY (also inside parentheses and ROLLUP) is reported exactly when it is not between 1 and the number of SELECT items; when the SELECT list contains a star the number of columns is unknown and only positions below 1 are reported.",
    ["inputs"],
    "every integer position and every number of SELECT items, for each item of the list",
    "Tests use one or two positions; the boundary and the other items are not covered.",
    [SQL],
    [("range check of integer positions", SQL)],
    observe=["sqlvalidator.parse(...).errors"],
)
prop(
    "C12",
    "LIMIT and OFFSET accept exactly non-negative integers",
    "Validation accepts LIMIT with a non-negative integer literal (or ALL) and OFFSET with a non-negative integer literal, also in parentheses, and reports every negative number, decimal, string, boolean, NULL, column or computed expression there.",
    ["inputs"],
    "every integer and every kind of expression in LIMIT and OFFSET",
    "Tests cover three or four samples.",
    [SQL, LEX],
    [("type and sign checks of the clauses", SQL)],
    observe=["sqlvalidator.parse(...).errors"],
)
prop(
    "C13",
    "WHERE, HAVING, AND and OR require boolean operands",
    "Validation reports a WHERE or HAVING condition, or an operand of AND/OR, exactly when its type is known and is not boolean: integer, decimal, string and NULL literals, arithmetic, and columns known to be such from a derived table are reported (the bounds of BETWEEN ... AND ... are not), while comparisons, boolean literals, NOT, parenthesised conditions, functions and columns of unknown type are accepted. Derived columns count bare, qualified and in parentheses; conditions of ON and FILTER are not checked.",
    ["programs", "inputs"],
    "every operand kind in every position of conditions nested to a bound",
    "Tests cover a few literal operands in one position each.",
    [SQL],
    [("return_type and resolve_return_type", SQL), ("checks in the condition nodes", SQL)],
    observe=["sqlvalidator.parse(...).errors"],
)
prop(
    "C14",
    "A join needs ON or USING unless it is CROSS or a comma",
    "Validation reports a missing condition exactly when some join in FROM, other than CROSS JOIN or a comma, has neither ON nor USING, wherever it stands in a chain of joins or in a parenthesised or derived table.",
    ["programs"],
    "every chain of joins up to a length, of every join type, each with or without condition",
    "Tests have one join per type; chains and nesting are combinatorial.",
    [SQL, LEX],
    [("join validation", SQL), ("join parsing loop", LEX)],
    observe=["sqlvalidator.parse(...).errors"],
)
prop(
    "C15",
    "Validation always answers and is consistent",
    "For every supported statement, asking whether it is valid returns True or False and never raises; it is True exactly when the list of errors is empty, asking again gives the same answer and errors, and neither the answer nor the formatted text depends on whether the query object was formatted or validated before. Formatting through a query object gives the same text as the formatting function.",
    ["programs", "inputs", "histories"],
    "every supported statement and every order of calls on the query object",
    "Tests validate a few dozen statements once each; many node kinds are never validated in any test.",
    [VAL, SQL],
    [("lazy parsing and cached validation", VAL), ("validate() of every node kind", SQL)],
    observe=["sqlvalidator.parse(...).is_valid(), .errors, .format()"],
)
prop(
    "C16",
    "Malformed statements are reported, not raised",
    "Asking whether a text (nested within Python's recursion limit) is valid never raises and never hangs, whatever the text; a text that does not start as a SELECT or WITH statement, or in which BY is missing after GROUP, ORDER or PARTITION, or a statement cut off where something must follow (after a keyword, an operator, or an open bracket, quote or CASE), is reported as invalid with at least one error.",
    ["inputs"],
    "every truncation and deletion of required keywords in supported statements, and every short token sequence",
    "Tests cover two malformed statements.",
    [LEX, VAL],
    [("ParsingError and its handling", VAL)],
    observe=["sqlvalidator.parse(...).is_valid(), .errors"],
)
prop(
    "C17",
    "Only SELECT string literals of a file are rewritten",
    "Analysing a Python file changes nothing but string literals whose text is a SELECT statement: every other character (code, comments, other strings, layout, a uniform kind of line endings) is kept in place, and the reported number of changed queries is the number of literals that differ.",
    ["inputs", "programs"],
    "every sequence of Python tokens up to a length, with literals, comments and other tokens in any order",
    "The handling looks ahead over following tokens and recurses; tests have a dozen files with one or two strings.",
    [FH],
    [("token loop with look-ahead", FH)],
    observe=["sqlvalidator.file_handler.compute_file_content", "file content after --format"],
)
prop(
    "C18",
    "Opt-out comments apply exactly to their string",
    "A string whose next following comment (with no other string in between) contains nosqlformat is never rewritten (f-strings count as strings in between), and one whose comment contains nosqlvalidation is never reported as invalid; no other string of the file is affected, and without such a comment a string is formatted when formatting is requested and validated when validation is requested.",
    ["inputs", "programs", "configurations"],
    "every sequence of strings, comments and other tokens, every comment placement, every combination of requested actions",
    "Tests place the comments in three or four ways.",
    [FH],
    [("look-ahead for the next comment", FH)],
    observe=["sqlvalidator.file_handler.compute_file_content"],
)
prop(
    "C19",
    "A rewritten literal is a literal of the same kind with the formatted query",
    "A rewritten literal keeps its prefix and quote character, is itself one complete string literal, contains exactly the formatted query (on its own lines between triple quotes if the query has several lines), evaluates to a text with the same SQL tokens as before - also when it contains backslash escapes or line continuations - and rewriting it again leaves it unchanged.",
    ["inputs"],
    "every prefix, quote style and query, one-line and multi-line, including queries that end in a quote",
    "Tests cover about six prefix/quote combinations.",
    [FH],
    [("quote and prefix detection, re-quoting", FH)],
    observe=["sqlvalidator.file_handler.compute_file_content"],
)
prop(
    "C20",
    "Exactly the strings that start a SELECT are taken for SQL",
    "A string literal (other than an f-string) of a Python file is treated as SQL exactly when its source text between the quotes, after leading blanks, line breaks and quote characters and ignoring letter case, starts with the word SELECT followed by a blank or a line break; all other strings are left alone, whatever their prefix and quotes.",
    ["inputs"],
    "every string literal text up to a length, with every prefix and quote style",
    "Tests check a handful of strings.",
    [FH],
    [("recognition of SQL strings", FH)],
    observe=["sqlvalidator.file_handler.compute_file_content"],
)
prop(
    "C21",
    "Exit status, counts and writes match the requested action",
    "Unless --format is given no file is ever written, and the exit status is 1 exactly when --check-format found at least one query to change or --validate found at least one invalid query, otherwise 0; with --format exactly the files with at least one changed query are written, with their new content. The summary prints the total number of files and queries concerned; without an action or an input, or with conflicting actions, the status is 2 and nothing is analysed.",
    ["inputs", "configurations", "histories"],
    "every number of files with every number of changed and invalid queries, every combination of options",
    "Tests of the command line mock single files; totals over several inputs and all option combinations are not covered.",
    [FH, MAIN],
    [("accumulation of counts and exit", FH), ("option handling", MAIN)],
    observe=["sqlvalidator.main._main: exit status, output, files written"],
)
prop(
    "C22",
    "Every Python file is analysed once, whatever happens to others",
    "All .py files given on the command line or found below given directories are analysed, each exactly once even if named several times or reached through several inputs, and no other file of a directory is; a missing input or a file whose analysis fails is reported and does not stop the analysis of the others nor lose their results.",
    ["inputs", "fault_sequences", "configurations"],
    "every small set of inputs and directory trees, with repetitions, and failures at any file",
    "Tests have one file per run.",
    [FH],
    [("seen-files set", FH), ("directory walk and per-file error handling", FH)],
    observe=["sqlvalidator.main._main: output, files written"],
)

prop(
    "C23",
    "The verbose report lists every invalid query with its line and errors",
    "With --verbose-validate every invalid query of a file is listed exactly once, in file order, as its line number (where its string literal starts) followed by all errors the validation has for it, after a line with the file's name and the number of them; valid and opted-out queries are not listed, also when the file is reformatted in the same run.",
    ["inputs", "configurations"],
    "every arrangement of queries, comments and other code in a file, with every combination of options",
    "Tests do not look at the verbose report.",
    [FH],
    [("error locations", FH)],
    observe=["sqlvalidator.main._main: output"],
)
prop(
    "C24",
    "Results do not depend on what was processed before",
    "Formatting or validating a text, or analysing a string literal, gives the same result whatever other texts were formatted, validated or rejected before in the same process.",
    ["histories", "inputs"],
    "every earlier call with every text, in particular texts which differ only in letter case, whitespace or one character",
    "Each test looks at one text; what an earlier test leaves behind is not compared.",
    [SQL, LEX, TOK, VAL, FMT, FH],
    [("parsing and validation without module state", LEX), ("query objects with errors of their own", VAL)],
    observe=["sqlvalidator.format_sql", "sqlvalidator.parse(s).is_valid", "sqlvalidator.parse(s).errors"],
)
prop(
    "C25",
    "Each defect is reported once and by name, whatever else is wrong",
    "A statement with several independent defects (unknown columns, positions out of range, conditions of a wrong type, bad LIMIT or OFFSET values, joins without condition; in any clause, subquery, WITH query or set operand) has exactly one error for each of them, the same as when it is the only one. The error names the column or position, or else the clause or operator.",
    ["inputs", "programs"],
    "every set of defects at every set of places",
    "Tests have one defect per query, and look at whether there is an error or at one message.",
    [SQL],
    [("errors collected from all clauses", SQL), ("messages", SQL)],
    observe=["sqlvalidator.parse(s).errors"],
)
prop(
    "C26",
    "The verdict does not depend on how the statement is laid out",
    "A statement and its formatted text have the same errors, and so have texts of the statement which differ only in whitespace and in the letter case of keywords: formatting a file never makes a query valid or invalid.",
    ["inputs", "programs"],
    "every statement with or without defects in every layout",
    "Tests validate each query in one layout.",
    [SQL, LEX, VAL, FMT],
    [("keywords compared in lower case", LEX), ("types and star detected from the parsed query", SQL)],
    observe=["sqlvalidator.parse(s).errors", "sqlvalidator.format_sql"],
)
prop(
    "C27",
    "The work for a statement grows moderately with its size",
    "The number of steps that formatting or validating a statement takes is no exponential function of how long its lists, chains of conditions, joins or set operations are, nor of how deep its parentheses, CASE expressions, function calls, subqueries and derived tables are nested in one another, whether the statement is well formed or not: twice the length or depth takes a small multiple of the steps. The same holds for the number of reported errors.",
    ["inputs", "programs"],
    "every statement however long and deep; each construct nested in each other one",
    "The queries of the tests are small: work that doubles with each level of nesting is not noticed in them.",
    [SQL, LEX, VAL, FMT],
    [("text of nested nodes", SQL), ("columns of nested queries", SQL), ("nested statements parsed from their tokens", LEX)],
    observe=["sqlvalidator.format_sql", "sqlvalidator.parse(s).is_valid"],
)
prop(
    "C28",
    "A query is laid out the same way wherever it stands",
    "The lines of a formatted query are the same, moved to the right by one blank per level, whether it is formatted alone or stands in FROM or JOIN (with or without alias), in WITH, in a set operation, or in parentheses as an expression (SELECT list, comparison, IN); what stands around it does not change either.",
    ["inputs", "programs"],
    "every query at every place of every other one",
    "Tests compare a few nested queries with the text expected for them.",
    [SQL, FMT],
    [("layout of subqueries", SQL), ("layout of WITH queries and joins", SQL)],
    observe=["sqlvalidator.format_sql"],
)
prop(
    "C29",
    "A query has the same errors wherever it stands",
    "Putting a query as a whole into FROM or JOIN, into WITH, into a set operation, or into parentheses as an expression of a query that is itself correct gives a statement with exactly the errors of the query alone, as long as the names of the surrounding query are not visible in it.",
    ["inputs", "programs"],
    "every query with or without defects at every place of every other one",
    "Tests validate a query at one place each.",
    [SQL, LEX, VAL],
    [("scopes of nested queries", SQL), ("errors collected from nested queries", SQL)],
    observe=["sqlvalidator.parse(s).errors"],
)

with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
