#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX = ["crates/lexer/src/lexer.rs", "crates/lexer/src/icu.rs"]
FMT = ["crates/localiser/src/formatter.rs", "crates/localiser/src/tree.rs"]
LOC = ["crates/localiser/src/localiser.rs"]
TESTS = "The existing tests format a fixed list of strings"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("C01", "Tokenising loses nothing",
     "For any string and grammar, the tokens joined in order give back exactly the string. The reported lengths in bytes, characters, graphemes and tokens and the positions of every token agree with the string, and no token is empty.",
     ["inputs"], "every string (ASCII, any Unicode), every set of grammar characters",
     "The lexer's unit tests tokenise two sample strings; positions and joins depend on every mix of character classes and UTF-8 lengths.",
     LEX, [("tokenise, add_previous_characters", LEX[0])])
prop("C02", "Every character is classified by what it is",
     "A syntax character listed in the grammar gives a grammar token of its own, other syntax and white-space characters of the Unicode pattern sets give tokens of those kinds, and everything else gives identifier tokens. A run of white space, of syntax or of identifier characters gives one token and never swallows a character of another kind.",
     ["inputs", "configurations"], "every Unicode scalar value, every sequence of classes, every grammar",
     "Tests see about twenty characters in two strings.", LEX, [("tokenise", LEX[0]), ("pattern syntax and white space sets", LEX[1])])
prop("C03", "Formatting never panics or hangs",
     "Formatting any pattern string with any values, and any text given as a date and time, ends with a text or an error. It never panics, overflows, or runs without end.",
     ["inputs"], "every pattern string, every placeholder value of every type, every text in place of a date",
     "The panics sit in rarely met combinations of syntax characters, values and option names; tests use well-formed patterns.",
     FMT + ["crates/localiser/src/command.rs"], [("pattern parser states", FMT[0]), ("tree of nodes", FMT[1]), ("ISO parsing", FMT[0])])
prop("C04", "Literal text comes out exactly as written",
     "The text of a pattern string outside its patterns is given out unchanged, in order and in full, with each escape giving the escaped character and each literal section giving its content. This holds in the main string and in named strings alike.",
     ["inputs"], "every pattern string with a meaning", TESTS + " without unusual white space, neighbouring escapes or syntax characters.",
     FMT, [("parser states for text, escapes and literal sections", FMT[0])])
prop("C05", "Placeholders are replaced by exactly their values",
     "Every placeholder of a pattern string is replaced by its text value unchanged, whatever that text contains, and the text around it stays. A missing value or a value of a type the pattern does not take is an error, never a partial or empty text.",
     ["inputs"], "every pattern with placeholders, every value of every type", TESTS + " with a few plain values.",
     FMT, [("placeholder replacement", FMT[0])])
prop("C06", "Plural, ordinal and select choose the right named string",
     "For a number, a plural or ordinal pattern gives the named string of the number's category under the language's rules, or of `other` when that category has no selector, with number signs replaced by the number in the language's notation. A select pattern gives the named string of the selector equal to the value, or of `other` otherwise.",
     ["inputs", "configurations"], "every number of every numeric type, every subset of selectors, every language's rules, every select value",
     "Tests use a handful of small numbers in English; category rules differ at 11-14, at fractions, at multiples of a million and by language.",
     FMT, [("selection of named strings, number signs", FMT[0])])
prop("C07", "Malformed pattern strings are rejected",
     "A pattern string that breaks the documented syntax (unbalanced or misplaced grammar characters, unknown keywords, unknown options or option values, missing or unknown named strings) gives an error. It never gives a text.",
     ["inputs"], "every pattern string", "Tests only hold a few malformed strings.", FMT, [("parser states and option checks", FMT[0])])
prop("C08", "Decimal patterns show the number under the chosen options",
     "A decimal pattern shows the value of the number in the digits and separators of the language, with the sign shown as the sign option says and grouping as the group option says. The digits are never altered, and defaults apply when an option is left out.",
     ["inputs", "configurations"], "every number of every numeric type, every combination and order of options, several languages",
     "Tests show a few numbers with one or two option combinations.", FMT, [("decimal options", FMT[0])])
prop("C09", "ISO dates and times are read and shown as the moment they name",
     "A date, time, or both, given as a value or in any documented ISO form, is shown as exactly that moment in the language and at the lengths the options give. A text that names no real moment is an error.",
     ["inputs", "configurations"], "every digit string in the documented ISO forms, every combination of options",
     "Tests use one or two dates; slices for signs, years beyond four digits, basic and extended forms, fractions and zones differ.",
     FMT, [("ISO decoding of date and time", FMT[0]), ("date and time options", FMT[0])])
prop("C10", "Commands get exactly their parameters, once, in place",
     "A command in a pattern string is called with its name's function and the parameters as written, in order; a delayed command gets the current values of placeholders instead of their names. Its text takes the pattern's place, and an unknown or failing command is an error; names in the command registry are unique and find the function they were given with.",
     ["inputs", "histories"], "every command pattern, every parameter list, every value, every history of registrations",
     "Tests call two commands with fixed parameters.", FMT + ["crates/localiser/src/command.rs"],
     [("command nodes and delayed commands", FMT[0]), ("CommandRegistry", "crates/localiser/src/command.rs")])
exec(open(os.path.join(V, "tools", "more.py")).read())
CLAIMED = [p["id"] for p in P if p["id"] not in NA]
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
TECH = "symbolic execution of the LLVM IR of the real code (own engine) with Z3 deciding every branch and assertion over all inputs within the bounds; counterexamples replayed natively"
man = dict(version=1, setup_cmd="true",
           hooks=dict(guard="none", enable="no hooks: the checks use the public API of /repo's crates as built from the working tree", source_commits=[]),
           checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=TECH,
                        level="model_checking", level_note="bounded: holds for every input within the bounds listed per run in the evidence file and in DESIGN.md; outside them nothing is claimed") for i in CLAIMED],
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
