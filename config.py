"""What each check explores."""
import importlib

from harness import gen

TRUST = [
    "z3 4.x decides the path conditions and the asserted properties",
    "the instrumented source behaves as the real one on the modelled values: every 5th path (or more) is replayed on the unmodified code and its outputs compared, every counterexample is reported only after it was reproduced there",
    "ASCII text; identifiers are opaque names of symbolic length which are no keywords of the parser and neither end with a suffix such as _trunc nor contain a text such as nosqlformat",
]

FILES = (
    "files, open() and the Python tokenizer are modelled (sx/world.py, harness/pytok.py); replays use real files and the real tokenizer and check that it gives the same tokens as the model"
)


def over(harness, families):
    return [(harness, c) for c in families]


def statements(harness):
    def tasks(tier):
        if tier == "quick":
            return over(harness, gen.QUICK)
        return over(harness, gen.FAMILIES) + over(harness, gen.DEEP)

    return tasks


def of(*harnesses):
    """Cases a harness module lists itself: "c03:h" uses cases(quick), "c03:x" cases_x(quick)."""

    def tasks(tier):
        out = []
        for h in harnesses:
            mod, fn = h.split(":")
            m = importlib.import_module("harness." + mod)
            out += over(h, getattr(m, "cases" if fn == "h" else "cases_" + fn)(tier == "quick"))
        return out

    return tasks


def both(*fs):
    return lambda tier: [t for f in fs for t in f(tier)]


STATEMENT_BOUNDS = (
    "statements: one expression production (23 factor, 4 term, 7 predicate, 2 boolean kinds) over 15 operand kinds at 19 positions"
    " (quick; thorough: productions nested twice), all clause combinations for 6 SELECT lists, 1-3 joins over 9 table forms, WITH with 1-3 queries,"
    " subqueries nested 3 deep in 7 positions, set operations with 2-3 operands after every clause; identifiers of length 1-9 in symbolic letter case,"
    " integers up to 99999, every choice of operators listed in harness/gen.py. Longer lists and deeper nesting are outside."
)

PROPS = {
    "C01": {
        "tasks": statements("c01:h"),
        "bounds": STATEMENT_BOUNDS,
        "oracle": "an independent lexer (harness/common.py) applied to the output gives the tokens the statement was built from",
        "assumptions": TRUST,
    },
    "C02": {
        "tasks": statements("c02:h"),
        "bounds": STATEMENT_BOUNDS,
        "oracle": "format(format(s)) == format(s)",
        "assumptions": TRUST,
    },
    "C03": {
        "tasks": of("c03:h"),
        "bounds": "46 statement templates (33 with a value, 13 with a name), quotes ' \" ` and r', contents of up to 5 (thorough 7) characters, each any printable"
        " ASCII character or a tab, one of them possibly a doubled quote, a backslash pair or a line break",
        "oracle": "the text formatted with the content is the text formatted with a neutral content of the same length, contents exchanged; tokens kept",
        "assumptions": TRUST,
    },
    "C04": {
        "tasks": of("c04:letters", "c04:spaces", "c04:gap"),
        "bounds": "statements as for C01 (quick: 4 operand kinds, 9 positions) with a symbolic letter case for each letter of each keyword; without any dispensable"
        " whitespace; with one whitespace character between all tokens; one gap of up to 1 (thorough 3) symbolic whitespace characters at any place of small statements",
        "oracle": "the formatted text equals that of the plainly written statement",
        "assumptions": TRUST,
    },
    "C05": {
        "tasks": statements("c05:h"),
        "bounds": STATEMENT_BOUNDS,
        "oracle": "line and indentation of each token with a layout role",
        "assumptions": TRUST,
    },
    "C06": {
        "tasks": of("c06:condition", "c06:call"),
        "bounds": "conditions of 1-4 (thorough 5) operands of 7 kinds in WHERE, HAVING, ON, parentheses and a subquery; calls of 1-4 arguments, nested once, at 6 places;"
        " every length of the names up to 30-120 characters each",
        "oracle": "the wrapped text is computed from the lengths by the rule of the property (harness/c06.py)",
        "assumptions": TRUST,
    },
    "C07": {
        "tasks": of("c07:h", "c07:name", "c07:call"),
        "bounds": "statements as for C01 (quick: 4 operand kinds, 8 positions) with a symbolic letter case for each letter of each keyword; 60 templates with a name of length"
        " 1-12 which may be one of 43 soft keywords (first, date, rows, ...), 10 templates with a function of such a name",
        "oracle": "each keyword and function name token in upper case, each identifier token unchanged",
        "assumptions": TRUST,
    },
    "C08": {
        "tasks": of("c08:integers", "c08:negative", "c08:digits"),
        "bounds": "49 templates; integers up to 10**30 with up to 3 leading zeros, negative ones, decimals of 2-20 (thorough 40) symbolic digits with the dot at any place",
        "oracle": "the text formatted with the number is the one formatted with another number, numbers exchanged",
        "assumptions": TRUST,
    },
    "C09": {
        "tasks": of("c09:h"),
        "sample": 20,
        "bounds": "every text of up to 3 printable ASCII characters and whitespace without backslash; every text of up to 4-6 (thorough 6-7) characters over 9 smaller alphabets",
        "oracle": "an independent segmentation of the text into quotes, quoted text and runs (harness/c09.py)",
        "assumptions": TRUST[:2],
    },
    "C10": {
        "tasks": of("c10:h", "c10:nested", "c10:around"),
        "bounds": "14 scopes of 1-3 derived tables (8 forms of sub-SELECT, 6 forms of exported item, with and without alias, joined in every way), 1-2 exported names each;"
        " a reference bare or qualified at every place of SELECT, WHERE, GROUP BY, HAVING, ORDER BY in 25 expression contexts; names of length 1-9, equal or different as the solver likes; such statements in 22 positions of another one",
        "oracle": "name resolution computed from the names and the scope (harness/c10.py)",
        "assumptions": TRUST,
    },
    "C11": {
        "tasks": of("c11:h"),
        "bounds": "every integer position (negative, 0, up to 10**9 and beyond) for SELECT lists of 1-4 items, with and without a star, in lists of 1-3 positions, parenthesised or not",
        "oracle": "1 <= n <= number of items",
        "assumptions": TRUST,
    },
    "C12": {
        "tasks": of("c12:h", "c12:computed"),
        "bounds": "every integer literal, signed or not, in up to 3 parentheses, and 30 kinds of other expressions in LIMIT and OFFSET of 10 enclosing statements",
        "oracle": "reported exactly when not a non-negative integer literal (or ALL in LIMIT)",
        "assumptions": TRUST,
    },
    "C13": {
        "tasks": of("c13:one", "c13:several", "c13:deep"),
        "bounds": "33 kinds of operands (with names of length 1-9), alone or among 2-3 (thorough 4) operands of AND/OR, in 11 wrappings nested twice, in WHERE and HAVING over 6 scopes"
        " with derived columns of 22 forms, in 10 enclosing statements",
        "oracle": "types computed next to the text (harness/c13.py)",
        "assumptions": TRUST,
    },
    "C14": {
        "tasks": of("c14:one", "c14:chain", "c14:parens"),
        "bounds": "chains of 1-3 (thorough 4) joins of 11 types with a condition, CROSS and comma, each with one of 11 conditions or none, over 12 forms of tables;"
        " joins in parentheses and derived tables on either side of up to 2 joins; in 20 enclosing statements; the words of the join in symbolic letter case",
        "oracle": "reported exactly when a join other than CROSS and comma was written without a condition",
        "assumptions": TRUST,
    },
    "C15": {
        "tasks": of("c15:h"),
        "bounds": STATEMENT_BOUNDS + " Calls: validate, validate, format, validate on one object; format, validate, format on another (quick: one of the two per group of statements).",
        "oracle": "no exception, a bool that is True exactly with an empty list of errors, equal answers and texts in every order of calls",
        "assumptions": TRUST,
    },
    "C16": {
        "tasks": of("c16:cut", "c16:edit", "c16:inside", "c16:short"),
        "bounds": "44 statements cut off after any token, within quotes too; with one token (thorough: two) deleted, doubled, exchanged or replaced by one of a list, some of them also inside of three other statements;"
        " sequences of up to 3 (thorough 4) tokens of every kind; names of length 1-9",
        "oracle": "nothing raised; reported with an error when something must follow the last token, a bracket or CASE is open, BY is missing, or it starts otherwise (harness/c16.py)",
        "assumptions": TRUST,
    },
    "C17": {
        "tasks": of("c17:h"),
        "bounds": "14 shapes of files with up to 3 strings of 16 kinds and up to 4 comments; names of length 1-9; --format, --check-format, --validate",
        "oracle": "every character outside of the SELECT strings is where it was; the number of changed strings is the one reported",
        "assumptions": TRUST + [FILES],
    },
    "C18": {
        "tasks": of("c18:h"),
        "bounds": "22 arrangements of up to 3 strings (10 kinds) and up to 3 comments (8 kinds), 8 combinations of options",
        "oracle": "which strings are rewritten or reported follows from the first comment before the next string (harness/c18.py)",
        "assumptions": TRUST + [FILES],
    },
    "C19": {
        "tasks": of("c19:h", "c19:chars"),
        "bounds": "40 texts of queries with names of length 1-9, 15 prefixes, the 4 kinds of quotes and 4 places of the literal in the file (quick: 4 prefixes in all places);"
        " 3 (thorough 4) symbolic characters out of quotes, backslash, line break and a few others at the end of 3 queries in 8 (thorough 12) kinds of literals",
        "oracle": "the rewritten literal has the same prefix and quote character, holds format_sql of its content (on lines of its own if it has several) and evaluates to the same tokens;"
        " text around it is kept, a second run changes nothing (harness/c19.py)",
        "assumptions": TRUST + [FILES],
    },
    "C20": {
        "tasks": of("c20:lead", "c20:word"),
        "bounds": "strings that start with up to 3 (thorough 4) symbolic characters before SELECT, up to 6 symbolic letters in place of it, or any one character behind it",
        "oracle": "the string is treated as a query iff its first word is SELECT in some letter case (harness/c20.py)",
        "assumptions": TRUST + [FILES],
    },
    "C21": {
        "tasks": of("c21:h", "c21:usage"),
        "bounds": "1-3 (thorough 4) files of 10 kinds with 0-6 queries each (to be changed, formatted, invalid, opted out), names and numbers symbolic;"
        " every combination of --format, --check-format and --validate, --verbose-validate; files or directories as inputs, options first or last",
        "oracle": "exit status, written files, counts and summary lines follow from what the files hold (harness/c21.py)",
        "assumptions": TRUST + [FILES],
    },
    "C22": {
        "tasks": of("c22:h"),
        "bounds": "a tree with 5 Python files and 6 others; every pair (quick: 8 x 15) and some triples of 15 ways to name files, directories and things that are missing;"
        " one file with a syntax error, no text, a link to nowhere, refused for reading or writing, or a deep query, at each of 5 places",
        "oracle": "which files are reached, once each, and which are rewritten or reported (harness/c22.py)",
        "assumptions": TRUST + [FILES],
    },
    "C23": {
        "tasks": of("c23:h"),
        "bounds": "1-3 files with up to 3 (once 6) of 12 kinds of queries (valid, invalid in one or more ways, malformed, opted out, on several lines, two on a line, after f-strings),"
        " up to 3 lines before each, names in any letter case, with no formatting action, --check-format and --format",
        "oracle": "for each invalid query, in order, the line its literal starts on (counted in harness/c23.py) and the errors the query object has for its text",
        "assumptions": TRUST + [FILES],
    },
    "C24": {
        "tasks": of("c24:h"),
        "bounds": "every pair (quick: half) of 18 statements (valid, invalid, malformed, unfinished, no SELECT; names of 1-9 characters in any letter case, literals of symbolic characters, which the"
        " two statements may share) and of 4 operations (format, validate, both on one object, handling of a literal); the two results are of runs with and without the other one before",
        "oracle": "the result in a fresh process state: the state of the modules of the package is put back to that after the import",
        "assumptions": TRUST + ["state is held in the package's module and class attributes, containers, closures, default arguments and functools caches reachable from them"],
    },
    "C25": {
        "tasks": of("c25:h"),
        "bounds": "5 statements with up to 14 places for a defect (56 kinds); each alone, each pair (quick: half), and several dozen larger sets; names of 3-9 letters, integers up to 10**6",
        "oracle": "the errors of a statement with several defects are those of the statements with one of them, which have one error each that names the column, the position or the clause",
        "assumptions": TRUST,
    },
    "C26": {
        "tasks": of("c26:h"),
        "bounds": "the statements of C10 to C14 (thorough: all of their quick cases; quick: a selection of 925), each against the same with upper case keywords, with every blank a line break and a tab, with both, and formatted",
        "oracle": "equality of the lists of errors",
        "assumptions": TRUST,
    },
    "C27": {
        "tasks": of("c27:lists", "c27:h"),
        "bounds": "36 kinds of lists and chains with 7, 14 and 28 elements (thorough: up to 56); 56 kinds of expressions in expressions and 15 of tables in tables, each nested in itself up to 18 deep and in each other one"
        " (quick: those among 18 of the expressions) up to 14 of each deep, at 4 and 2 places, with 4 innermost parts of which 2 or 3 are malformed; names of 1-30 characters, which decide the layout",
        "oracle": "at most 12 times the steps for twice the size, and 100000 for the smallest: growth as 2 to the power of a quarter of the depth, or more, is above that; growth with the cube of the size is below",
        "assumptions": TRUST + ["loops inside of built-in functions are not counted"],
    },
    "C28": {
        "tasks": of("c28:h"),
        "bounds": STATEMENT_BOUNDS + " Each family (quick: with four kinds of operands) at 16 places (quick: at 1 or 2 of them).",
        "oracle": "the lines of the query alone with blanks before them, between the fixed text of the statement around it",
        "assumptions": TRUST,
    },
    "C29": {
        "tasks": of("c29:h"),
        "bounds": "the statements of C10 to C14 (thorough: a fifth of all of their quick cases at each place; quick: about 900 pairs), each alone and at one of 22 places of another statement",
        "oracle": "equality of the lists of errors",
        "assumptions": TRUST,
    },
}

NOT_APPLICABLE = {}
_LATER = "no check built yet"
for _i in range(1, 30):
    _p = "C%02d" % _i
    if _p not in PROPS:
        NOT_APPLICABLE.setdefault(_p, _LATER)
