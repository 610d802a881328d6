NA = {}
PROV = ["crates/provider/sqlite3/src/provider.rs"]
prop("C11", "Caching never changes what is said",
     "A localiser with caching gives, for any history of calls, the text and language each call gives without caching. The one documented exception is asking for the literal text of a string that was cached as a pattern, which is an error.",
     ["histories", "inputs"], "every sequence of literal and pattern requests over components, identifiers, languages, fallback and caching settings and values",
     "Tests format each string once or twice in one language; stale cache entries need particular sequences.",
     LOC + FMT, [("pattern and literal caches", LOC[0]), ("reuse of the parsed pattern", FMT[0])])
prop("C12", "The nearest string is found, and told in its own language",
     "The string given is the one of the requested language or of its nearest parent language; only if there is none and fallback is on, the default language's is used in the same way. The language returned is that of the string found, and numbers in it are shown in that language; with no string, or a failing provider, the call is an error.",
     ["inputs", "configurations"], "every set of available languages, requested language, default language, fallback and caching setting, values",
     "Tests ask for one or two languages that exist.", LOC, [("literal, format, fallback", LOC[0])])
prop("C13", "Nested texts and errors are told from the inside out",
     "Localisation data within placeholder values is formatted first, in the requested language and with the same settings, and its text takes the placeholder's place; this holds at any depth and for errors carrying such data. When any part fails, the whole is an error.",
     ["inputs"], "every nesting of localisation data, language, fallback and caching setting",
     "Tests nest once.", LOC, [("format_localisation_data, format_error", LOC[0])])
prop("C14", "Defaults apply exactly where a call leaves something out",
     "Language, fallback and caching given in a call are used for it; what is left out comes from the defaults last set, and setting one default leaves the others. Without caching every call asks the provider; with caching a repeated pattern is not asked for again. The default language and its script data are those of the last setting.",
     ["histories", "configurations"], "every initial setting, every sequence of changes, every way to format",
     "Tests set defaults once.", LOC, [("defaults and the with_defaults methods", LOC[0])])
prop("C15", "Language tags are canonical, unique and complete",
     "Requesting a tag gives its canonical form (case, separators, order of variants) or an error when it is not a well-formed language identifier. Every spelling of one tag gives the same tag object, the ICU language of a tag is that tag, and the lists hold every canonical tag and every other spelling exactly once, for any history of requests.",
     ["inputs", "histories"], "every string as a tag, every history of requests",
     "Tests request en_ZA once.", ["crates/utility/src/language.rs"], [("LanguageTagRegistry", "crates/utility/src/language.rs")])
prop("C16", "Script data is the data of the language's script",
     "The script data of a language tag is that of its script, given or implied by the language, and of no other. Its horizontal direction is the one the script is written in, and every listed direction pairs a horizontal with a vertical one; what is no known script has no data.",
     ["inputs"], "every script code, every language code", "Tests look at one script.",
     ["crates/localiser/src/script.rs", "crates/utility/src/script.rs"] + LOC, [("script data table", "crates/localiser/src/script.rs"), ("script_data_for_language_tag", LOC[0])])
prop("C17", "The provider gives the stored string of the nearest language",
     "For any stored strings, the SQLite3 provider gives the string of the component and identifier asked for in the language asked for; if there is none, of a language having additional subtags, and only then the same of the next shorter language. The file of all components goes before the component's own file, an exact request gives that language or nothing, and an unknown component is an error.",
     ["inputs", "configurations"], "every content of the database files, every language tag, component and identifier asked for",
     "Tests read the few shipped strings, all in en-ZA.", PROV, [("find_strings, string, strings, string_exact_match", PROV[0]), ("query_pattern", PROV[0])])
prop("C18", "Repository, component and identifier details add up",
     "The details the SQLite3 provider gives (languages, counts, ratios to the default language, totals, contributors, default languages, components) are those of the stored records of both kinds of files, each language and contributor once. A component without a default language, or an unknown one, is an error.",
     ["inputs", "configurations"], "every content of the database files, one or both kinds of files",
     "Tests compare the totals of the shipped databases.", PROV, [("build_cache, component_details, repository_details, identifier_details", PROV[0])])
prop("C19", "Only databases of the expected schema are taken, other files are ignored",
     "The shipped schema is accepted, also with additional tables or columns; a database that lacks a table or column of it, has a column of another name, type, nullability, default or key, or has another version or none, is refused. A provider is made exactly of the `.sqlite3` files of a directory and knows exactly their components; anything else in the directory is ignored, and it is an error if the path is no directory or has no such file.",
     ["inputs", "configurations"], "every single deviation from the schema, every version text, every content of the directory",
     "Tests open the shipped directory only.", PROV, [("try_new", PROV[0]), ("verify_schema", PROV[0])])
