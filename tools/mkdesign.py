"""Writes DESIGN.md from tools/design.md, config.py, properties.jsonl, KNOWN_FINDINGS.txt and seeded/."""
import glob
import json
import os
import sys
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
import config

# seconds of the quick check alone on 8 cores, what the solver decides there and what the tests cannot reach, notes
NOTES = {
    "C01": (65, "One assertion per path compares the token lists; identifiers, integers and operators are symbolic, the shape of the statement is a tree of decisions.",
            "Open findings of this property are probed by exact text (harness/known.py) after the exploration."),
    "C02": (60, "The first output is a rope over the same variables and is parsed again on the same path, so that line breaks which depend on lengths are followed into the second run.", ""),
    "C03": (75, "Characters inside of quotes are `Ch` cells over all printable characters; the exchange of contents holds for all of them at once.", ""),
    "C04": (90, "Each letter of each keyword is a cell with two values; the comparison with the plainly written text is one query per path.", ""),
    "C05": (70, "The role of a token (clause keyword, list item, condition operand, bracket) comes from the generator, its line and column from the output.", ""),
    "C06": (80, "Lengths are integer variables: both sides of the limit of 88 columns, and exactly 88, are decided by linear arithmetic instead of by chosen examples.", ""),
    "C07": (75, "As C04, with soft keywords: a name may be any word which is a keyword elsewhere.", ""),
    "C08": (15, "Digits and values are symbolic, so that sign, leading and trailing zeros, the place of the dot and the number of digits are all covered.", ""),
    "C09": (60, "The tokenizer alone, over all short texts: every branch on a character is a solver decision over its class.", ""),
    "C10": (115, "Which names are equal is left to the solver: each partition of the names that the code can tell apart is a path, the oracle is computed over the same equalities.", ""),
    "C11": (10, "The position is an integer variable compared with the number of items.", ""),
    "C12": (12, "", ""),
    "C13": (95, "", ""),
    "C14": (25, "", ""),
    "C15": (80, "The history of calls on one object is part of the case.", ""),
    "C16": (95, "The cut or edited place and the tokens put there are decisions; endless loops end at a step limit and count as a violation when the replay does not end either.", ""),
    "C17": (26, "The text of the file is one rope, compared cell by cell outside of the literals.", ""),
    "C18": (15, "", ""),
    "C19": (16, "", ""),
    "C20": (9, "", ""),
    "C21": (5, "", ""),
    "C22": (11, "Faults (open for reading or writing refused) are part of the case, in the model and in the replay.", ""),
    "C23": (33, "", ""),
    "C24": (27, "Whether the two texts of a history agree in a name or a character is left to the solver.", ""),
    "C25": (13, "", ""),
    "C26": (135, "", ""),
    "C27": (150, "The steps are a counter of entered functions and loop iterations in the instrumented code; in the replay the lines executed are counted.", ""), "C28": (60, "The expected text is put together from the lines of the query alone, for all names and operators at once.", "WITH inside of an expression is not supported and not part of it."), "C29": (90, "", "WITH inside of an expression is not supported and not part of it."), "C30": (0, "", ""), "C31": (0, "", ""), "C32": (0, "", ""),
}


def para(text):
    return "\n".join(textwrap.wrap(text, 116, break_long_words=False, break_on_hyphens=False))


def item(text):
    return "\n".join(textwrap.wrap(text, 116, initial_indent=" * ", subsequent_indent="   ", break_long_words=False, break_on_hyphens=False))


props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    c = config.PROPS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(para(p["statement"]) + "\n")
    if c is None:
        out.append(para("Not applicable: " + config.NOT_APPLICABLE[i]) + "\n")
        continue
    secs, how, note = NOTES[i]
    harness = sorted({h for h, _ in c["tasks"]("quick")})
    b = c["bounds"]
    lines = ["Harness: " + ", ".join("`%s`" % h for h in harness) + ". Oracle: " + c["oracle"] + "."]
    if how:
        lines.append(how)
    lines.append("Bounds: " + (b if isinstance(b, str) else b("quick")).rstrip(".") + ".")
    lines.append("Tests cannot: " + p["why_tests_cant"])
    lines.append("Cost: about %d s (quick)." % secs)
    if note:
        lines.append(note)
    out.append("\n".join(map(item, lines)) + "\n")

kf = open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")).read().splitlines()
op = []
for l in kf:
    if l.startswith("open:"):
        op.append(item(l.split()[1].split("=")[1] + ": " + l.split("##", 1)[1].strip()))

rows = []
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"]))
seeds = "\n".join(item("%s `%s`: %s. Needs %s." % (a, b, d, c)) for a, b, c, d in sorted(rows))

s = open(os.path.join(VERIF, "tools", "design.md")).read()
s = s.replace("@PROPS@", "\n".join(out).rstrip()).replace("@OPEN@", "\n".join(op)).replace("@SEEDS@", seeds)
s = s.replace("@N@", str(len(props))).replace("@LAST@", props[-1]["id"]).replace("@NSEEDS@", str(len(rows)))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write(s)
print(len(s), "characters,", len(rows), "planted bugs")
