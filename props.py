"""Which harness entries decide which property, and within which bounds."""
COMMON_MERGE = ["CodePointInversionList::contains", "slice::contains"]
COMMON_ASSUMPTIONS = [
    "The encoding is the LLVM IR rustc 1.99.1 makes of /repo's crates, of the standard library and of the ICU4X crates in the dev profile (overflow checks on), after LLVM -O1; compiler and IR semantics are trusted as the engine implements them, and sampled path witnesses are re-run natively and compared.",
    "ICU data is the compiled-in data of the ICU4X crates; no external data provider is modelled.",
    "SipHash is replaced by a constant (every HashMap key lands in one bucket); no harness asserts anything that depends on the iteration order of a HashMap.",
    "Memory allocation never fails; one thread (the default features use Rc/RefCell; the `sync` feature is outside).",
]
K40 = "40 representative code points of all token classes, UTF-8 lengths and grapheme classes"
SK = list(range(10, 24))
SKT = "14 pattern skeletons (literals, named strings, selectors, placeholders) with free ASCII characters and free representative code points"
NUM = "every subset of the selectors, numbers base + free byte for N bases up to 10^18 (2 quick, 6 thorough), signed, unsigned and decimal, languages with different rules"
SQLITE = [
    "SQLite itself is executed from its C source (the version the libsqlite3-sys crate ships) for the encoding; the native replay uses the SQLite library of the system",
    "files, directories and the clock are a model in memory (harness/sqlite/models.c): no I/O errors other than missing files and reading a directory, one process",
]
PROPS = {
    "C01": dict(runs=[
        dict(entry="h_lex_ascii", quick=[5], thorough=[7], covers=[1, 2], bound="every ASCII string of at most N bytes (N = 5 quick, 7 thorough), grammar {}`#"),
        dict(entry="h_lex_uni", quick=[3], thorough=[4], covers=[1, 2],
             bound=f"every string of at most N code points (3 quick, 4 thorough) over {K40}"),
    ]),
    "C02": dict(runs=[
        dict(entry="h_class_any", quick=[17], thorough=[17], covers=[1, 2, 3, 4], bound="every Unicode scalar value as a one-character string"),
        dict(entry="h_class_ascii", quick=[5], thorough=[7], covers=[1, 2, 3, 4], bound="every ASCII string of at most N bytes (5 quick, 7 thorough)"),
        dict(entry="h_class_uni", quick=[2], thorough=[4], covers=[1, 2, 3, 4], bound=f"every string of at most N code points (2 quick, 4 thorough) over {K40}"),
        dict(entry="h_class_grammar", quick=[3], thorough=[5], covers=[1, 2, 3, 4], bound="every grammar of one or two ASCII characters, every ASCII string of at most N bytes (3 quick, 5 thorough)"),
    ]),
    "C03": dict(runs=[
        dict(entry="h_total", quick=[65535, 0], thorough=[65535, 0], covers=[1, 2] + list(range(10, 26)),
             bound="16 pattern skeletons with free characters in every syntactic position, a first placeholder of every type, a second of type text"),
        *[dict(entry="h_total", tiers=("thorough",), thorough=[65535, k], covers=[1, 2] + list(range(10, 26)), bound=f"the same, second placeholder of type number {k} of 12") for k in (1, 3, 5, 8, 10)],
        dict(entry="h_total_ascii", quick=[5], thorough=[7], covers=[1, 2], bound="every ASCII pattern string of at most N bytes (5 quick, 7 thorough)"),
        dict(entry="h_total_iso", quick=[3], thorough=[4], covers=[1, 2], bound="every ASCII text of at most N characters (3 quick, 4 thorough) as the value of a date and time pattern"),
    ]),
    "C04": dict(runs=[
        dict(entry="h_ref_ascii", quick=[5, 1], thorough=[6, 1], covers=[1, 2, 3, 4, 5], bound="every ASCII pattern string of at most N bytes (5 quick, 6 thorough)"),
        dict(entry="h_ref_skel", quick=[16383, 1], thorough=[16383, 1], covers=[1, 2, 3, 4, 5] + SK, bound=SKT),
    ]),
    "C05": dict(runs=[
        dict(entry="h_ref_ascii", quick=[5, 2], thorough=[6, 2], covers=[1, 2, 3, 4, 5], bound="every ASCII pattern string of at most N bytes (5 quick, 6 thorough)"),
        dict(entry="h_ref_skel", quick=[16383, 2], thorough=[16383, 2], covers=[1, 2, 3, 4, 5] + SK, bound=SKT),
        dict(entry="h_place_value", quick=[2], thorough=[4], covers=[1, 2], bound=f"values of every type; text of at most N code points (2 quick, 4 thorough) over {K40}"),
        dict(entry="h_types", quick=[], thorough=[], covers=[1, 2, 3], bound="every value type x every kind of pattern x present or missing"),
    ]),
    "C06": dict(runs=[
        dict(entry="h_plural", quick=[0, 2], thorough=[0, 6], covers=[2], bound=NUM),
        dict(entry="h_plural", quick=[1, 2], thorough=[1, 6], covers=[2], bound="ordinal: " + NUM),
        dict(entry="h_plural_fraction", quick=[], thorough=[], covers=[2], bound="numbers with up to two fraction digits (trailing zeros kept) and floats"),
        dict(entry="h_plural_two", quick=[], thorough=[], covers=[2] + list(range(10, 17)), bound="7 patterns with two symbolic numbers: shared branches, patterns within branches, number signs in branches"),
        dict(entry="h_select", quick=[], thorough=[], covers=[2, 3], bound="every ASCII value of at most 3 characters, every type of text, selectors with two free characters"),
        dict(entry="h_types", quick=[], thorough=[], covers=[1, 2, 3], bound="every value type x every kind of pattern x present or missing"),
    ]),
    "C07": dict(runs=[
        dict(entry="h_ref_ascii", quick=[5, 6], thorough=[6, 6], covers=[1, 2, 3, 4, 5], bound="every ASCII pattern string of at most N bytes (5 quick, 6 thorough)"),
        dict(entry="h_ref_skel", quick=[16383, 6], thorough=[16383, 6], covers=[1, 2, 3, 4, 5] + SK, bound=SKT),
        dict(entry="h_decimal_bad", quick=[], thorough=[], covers=[2, 3, 4], bound="decimal options with free characters"),
        dict(entry="h_date_bad", quick=[], thorough=[], covers=[2, 3, 4], bound="date_time options with free characters"),
        dict(entry="h_command", quick=[262143], thorough=[262143], covers=[1, 2, 3] + list(range(10, 28)), bound="18 command skeletons with free characters"),
    ]),
    "C08": dict(runs=[
        dict(entry="h_decimal", quick=[0, 2], thorough=[0, 6], covers=[2], bound="English: every combination of sign and group options; numbers base + free byte, unsigned, signed, decimal, float; all orders of the options"),
        dict(entry="h_decimal", quick=[1, 1], thorough=[1, 6], covers=[2], bound="the same in further languages (other digits, other grouping)"),
        dict(entry="h_decimal_bad", quick=[], thorough=[], covers=[2, 3, 4], bound="options with free characters"),
    ]),
    "C09": dict(runs=[
        dict(entry="h_iso", quick=[0, 26], thorough=[0, 30], covers=[1, 2] + list(range(10, 36)), bound="26 ISO forms (30 thorough) with free digits"),
        dict(entry="h_iso_bad", quick=[], thorough=[], covers=[1, 2], bound="8 ISO forms with one free ASCII character"),
        dict(entry="h_date_options", quick=[], thorough=[], covers=[1, 2], bound="every combination of the lengths of date and time, in either order, two languages, values of the three date and time types"),
        dict(entry="h_date_bad", quick=[], thorough=[], covers=[2, 3, 4], bound="options with free characters"),
    ]),
    "C10": dict(runs=[
        dict(entry="h_command", quick=[262143], thorough=[262143], covers=[1, 2, 3] + list(range(10, 28)), bound="18 command skeletons with free characters, a free two-character value, present and delayed execution"),
        dict(entry="h_command_registry", quick=[], thorough=[], covers=[1, 2], bound="every history of 3 insertions and lookups with ASCII names of at most 2 characters"),
        dict(entry="h_supplied_commands", quick=[3], thorough=[6], covers=[1, 2, 3], bound="every ASCII text of at most N characters (3 quick, 6 thorough), every type and number of parameters"),
    ]),
    "C11": dict(runs=[
        dict(entry="h_cache", quick=[3, 0], thorough=[4, 0], covers=[1, 2], bound="every history of at most N (3 quick, 4 thorough) calls out of 12 kinds, free values"),
        dict(entry="h_cache", quick=[2, 1], thorough=[2, 1], covers=[1, 2, 3], bound="every history of two calls: literal or pattern, 2 components, 3 identifiers, 3 languages, fallback on or off, free values"),
    ]),
    "C12": dict(runs=[
        dict(entry="h_lookup", quick=[3], thorough=[3], covers=[1, 2],
             bound="every set of languages of the string out of 4, every default out of 4, every requested language out of 5, fallback and caching on or off, literal or pattern, 3 components, free values"),
    ]),
    "C13": dict(runs=[
        dict(entry="h_nested", quick=[2], thorough=[3], covers=[1, 2], bound="every nesting of localisation data of at most N levels (2 quick, 3 thorough) over 7 strings, free leaf text, 2 languages, fallback and caching on or off"),
    ]),
    "C14": dict(runs=[
        dict(entry="h_defaults", quick=[1], thorough=[2], covers=[1, 2, 3], bound="every initial setting, N changes of defaults (1 quick, 2 thorough), each of the 8 ways to format, each with every own setting"),
        dict(entry="h_script", quick=[], thorough=[], covers=[1], bound="10 languages x 10 scripts"),
    ]),
    "C15": dict(runs=[
        dict(entry="h_registry", quick=[2, 14], thorough=[3, 9], covers=[1, 2, 3] + list(range(10, 19)), bound="every history of N requests (2 over 14 forms quick, 3 over 9 forms thorough) with free ASCII characters"),
    ]),
    "C16": dict(runs=[
        dict(entry="h_script_direction", quick=[0], thorough=[0], covers=[1, 2, 3, 4, 5], bound="every four-letter script code"),
        dict(entry="h_script_direction", tiers=("thorough",), thorough=[2], covers=[1, 4], bound="every two-letter language code"),
        dict(entry="h_script", quick=[], thorough=[], covers=[1], bound="10 languages x 10 scripts"),
    ]),
    "C17": dict(sqlite=True, runs=[
        dict(entry="h_sql_strings", quick=[1, 4, 1], thorough=[2, 4, 1], covers=list(range(1, 9)), bound="every database or pair of databases of N records (1 quick, 2 thorough), 4 forms of language tags with free letters, free identifier letter and text; 5 requested languages, 3 requested components"),
        dict(entry="h_sql_strings", quick=[2, 4, 0], thorough=[3, 4, 0], covers=list(range(1, 9)), bound="N records (2 quick, 3 thorough), identifier and component of the first record free"),
    ], assumptions=SQLITE),
    "C18": dict(sqlite=True, runs=[
        dict(entry="h_sql_details", quick=[1, 1, 1, 0], thorough=[2, 1, 1, 0], covers=list(range(1, 7)), bound="N free contributors (1 quick, 2 thorough) and one free string, two components, one or both of the file of all and the file of the component, every default language"),
        dict(entry="h_sql_details", quick=[2, 1, 0, 1], thorough=[3, 1, 0, 0], covers=[2, 4, 6], bound="N free contributors (2 quick, 3 thorough), one free string, one component"),
        dict(entry="h_sql_details", quick=[0, 2, 1, 1], thorough=[0, 3, 1, 0], covers=[2, 4, 6], bound="one contributor for each language, N free strings (2 quick, 3 thorough)"),
    ], assumptions=SQLITE),
    "C19": dict(sqlite=True, runs=[
        dict(entry="h_sql_schema", quick=[0], thorough=[0], covers=list(range(1, 14)), bound="every single change out of 11 kinds at every table and column of the schema, free letter of the changed name, versions of at most 3 free ASCII characters"),
        dict(entry="h_sql_schema", tiers=("thorough",), thorough=[1], covers=list(range(1, 14)), bound="the same through try_new()"),
        dict(entry="h_sql_open", quick=[2], thorough=[3], covers=list(range(1, 14)), bound="every directory of at most N entries (2 quick, 3 thorough) of 9 kinds, free letters in the names of components"),
    ], assumptions=SQLITE),
}
