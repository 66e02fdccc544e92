import subprocess
M={
"87a5204":("C10","fields of struct columns (a.b), y.a[1] and net.host(a) were reported as unknown columns"),
"02cb691":("C10","a column qualified by a quoted alias was reported"),
"f0823a9":("C10","x.* of an aliased derived table was reported as unknown"),
"65aed5a":("C10","columns of an aliased join ((..) x join (..) y using (k)) z were reported as unknown"),
"2786555":("C13","a quoted identifier as condition (where `flag`) was reported as not boolean"),
"e858e86":("C11","select * from t order by 2 was reported: the number of columns of * is unknown"),
"be9d833":("C10","functions and qualified columns in GROUP BY were not validated"),
"a186b4b":("C10","columns exported by the star of an aliased derived table were unknown, any name was accepted"),
"cd1d2f3":("C11","only the first position in GROUP BY (1, 5) was validated"),
"973cabd":("C10","operands of NOT, CASE, arithmetic, bitwise operators, arrays and indices were not validated"),
"a0fb506":("C13","a column of known type in parentheses was accepted as condition"),
"babe4d8":("C10","a column of a subquery with the name of an outer column was reported as ambiguous"),
"88b3bc7":("C10","CURRENT_DATE and the date part of DATE_TRUNC were reported as unknown columns"),
"34f3c80":("C03","select 'a from b' style contents (keywords, brackets, commas in quotes) were read as syntax and reordered or dropped"),
"33ed807":("C07","SELECT CASE WHEN a THEN CASE WHEN b THEN c END END in upper case lost tokens"),
"f4e5402":("C01","select f(select a, b from t) was split at the comma of the inner SELECT"),
"4a72b6d":("C08","1.50 was printed as 1.5, long decimals lost digits"),
"530171d":("C01","array_agg(a respect nulls) lost RESPECT NULLS"),
"837ffa4":("C09","a!=b and a||b without blanks were no tokens of their own; C04: output depended on blanks"),
"7377435":("C04","carriage return, form feed and vertical tab were not whitespace"),
"021223d":("C03","'it''s', 'it\\'s' and quotes inside other quotes ended the string too early"),
"935a28d":("C02","a and b in THEN, ORDER BY, GROUP BY or DISTINCT ON was formatted differently the second time"),
"46ee02d":("C01","NOT LIKE and NOT BETWEEN lost NOT"),
"2faad76":("C01","a || b || c and a | b | c lost operands"),
"2e43e19":("C01","a % b lost its right operand"),
"1a7d18d":("C01","ORDER BY a NULLS LAST lost NULLS LAST"),
"abf1395":("C15","validating a query with CAST raised"),
"81f06f3":("C15","validating OVER (ORDER BY 1) raised"),
"499f533":("C15","validating a subquery used as expression raised"),
"250f998":("C12","LIMIT ALL was reported as invalid or raised"),
"f14579e":("C15","validating an ambiguous GROUP BY column raised"),
"416ef8b":("C15","validating empty parentheses raised"),
"b92c59c":("C15","validating WITH raised"),
"6f8ba02":("C14","only one side of a join was validated"),
"d39c108":("C10","set operations were not validated, their columns unknown"),
"8bc36fc":("C10","columns of UNNEST were reported as unknown"),
"27940ca":("C10","a column exported as t.a or under a quoted alias was reported as unknown"),
"1e908df":("C10","GROUP BY an alias introduced with AS was reported"),
"874b823":("C10","ORDER BY an alias of the SELECT list was reported"),
"1fe25b8":("C15","validating a join with quoted aliases raised"),
"68d5f55":("C10","unqualified columns of (select * ...) as x were reported"),
"f0635dd":("C10","quoted columns and * EXCEPT/REPLACE exported by a subquery were reported"),
"f535c62":("C16","is_valid() of malformed statements raised (many kinds)"),
"224b515":("C16","a missing ) was not reported"),
"a7f4207":("C16","a missing ] was not reported"),
"49050a0":("C16","* EXCEPT without columns was not reported"),
"7601716":("C01","tokens after LIMIT n or OFFSET n were dropped"),
"5927f65":("C22","one malformed SQL string stopped the analysis of its file"),
"2739e0f":("C18","a string that contains nosqlformat switched formatting off like a comment"),
"40ccd8d":("C19","a formatted query ending in a double quote gave a broken triple-quoted string"),
"eda0455":("C20","strings like \"rfselect\" or starting with letters of the prefix set were taken for SQL"),
"ce35f62":("C17","--format changed CRLF line endings of the whole file"),
"94e498b":("C01","CAST(a AS NUMERIC(1, 2)) and DOUBLE PRECISION lost tokens"),
"3bf1f67":("C01","- a and + a lost tokens or their operand"),
"ab453cc":("C08","DATE '2020-01-01' changed its text"),
"02a067e":("C03","tokens after r'...' were dropped"),
"bdc0d90":("C01","CAST AS ARRAY<STRUCT<..>> and - - a lost tokens"),
"5f817bf":("C08","-0 and 007 were printed as 0 and 7"),
"46ce492":("C01","UNION DISTINCT and INTERSECT/EXCEPT DISTINCT lost DISTINCT"),
"1591409":("C01","a set operation after WHERE, GROUP BY, ... was dropped; C10: columns were looked up in the wrong query"),
"ceb2e11":("C03","lines of multi-line literals were indented"),
"818bc7e":("C01","unsupported syntax was silently dropped from the formatted text"),
"94ac8b5":("C01","a column named yes or no could not be formatted (was printed as TRUE or FALSE)"),
"5274663":("C08","ARRAY_AGG(a LIMIT 0) lost its limit, LIMIT 007 its zeros"),
"6810466":("C09","a two-character operator after another operator character was split: < || gave < | |"),
"83f5521":("C16","tokens a statement or window could not use were ignored by is_valid()"),
"d13f035":("C16","operators without operand and empty SELECT lists were accepted"),
"d32b298":("C17","--format put blanks around continuation lines and other tokens of the file in other places"),
"443a85f":("C19","a line continued by a backslash inside of a string got the backslash into its middle: 'select a, \\\\<newline>b from t'"),
"463321d":("C19","a query that ends with a backslash after formatting was rewritten to a literal without an end: 'select \\\\ '"),
"6421bc4":("C19","an escaped quote was separated from its backslash: 'select \\\\\"\"'"),
"c8efb3b":("C18","a nosqlformat comment after an f-string switched formatting of the string before it off"),
"b657352":("C10","the date part of TIMESTAMP_TRUNC was reported as an unknown column"),
}
o=subprocess.run("git -C /repo log --reverse --format=%h",shell=True,capture_output=True,text=True).stdout.split()
lines=["# fixed: property=<id> <commit in /repo> <what failed>","# open: property=<id> <probe of harness/known.py> ## <what fails>"]
for h in o:
    if h in M: lines.append("fixed: property=%s %s %s"%(M[h][0],h,M[h][1]))
    elif h!="31e09d4": print("missing",h)
import json
O=[
("C01",{"kind":"tokens","sql":"select a -- c\nfrom t","ref":["SELECT","a","-- c","FROM","t"]},"SQL comments are not supported: -- is printed as - - (select a -- c<newline>from t)"),
("C01",{"kind":"exact","sql":"select 1.5e-3 from t","text":"1.5e-3"},"a decimal with a signed exponent is split: 1.5e-3 is printed as 1.5e - 3"),
("C01",{"kind":"exact","sql":"select a ->> b from t","text":"->>"},"the operators ->, ->> and => are printed as several tokens: a - > > b"),
("C03",{"kind":"exact","sql":"select b'x' from t","text":"b'x'"},"a blank is put between the prefix b or rb and its literal: b 'x'"),
("C01",{"kind":"formats","sql":"(select a from t) union all (select b from u)"},"a statement that starts with a parenthesis cannot be formatted"),
]
O.append(("C01",{"kind":"formats","sql":"select a from t join u on left(b, 1) = c"},"the functions LEFT and RIGHT in ON are taken for a join (select a from t join u on left(b, 1) = c)"))
for p,probe,what in O:
    if probe.get("ref"): probe={"kind":"exact","sql":probe["sql"],"text":"-- c"}
    lines.append("open: property=%s %s ## %s"%(p,json.dumps(probe),what))
open("/verif/KNOWN_FINDINGS.txt","w").write("\n".join(lines)+"\n")
