#![allow(clippy::all)]
//! Harnesses: each `h_*` function states one property over symbolic inputs of the real library code.
#[macro_use]
pub mod sym;
mod mock;
mod p_lexer;
mod p_localiser;
mod p_number;
mod p_pattern;
mod p_registry;
mod p_sqlite;
mod p_values;
mod spec;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// Name and body of every harness.
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
        /// Exported symbols for the engine.
        pub mod exported {
            $( #[no_mangle] pub extern "C" fn $f() { super::$m::$f() } )*
        }
    };
}
entries! {
    p_lexer::h_lex_ascii,
    p_lexer::h_lex_uni,
    p_lexer::h_class_ascii,
    p_lexer::h_class_uni,
    p_lexer::h_class_grammar,
    p_lexer::h_class_any,
    p_localiser::h_cache,
    p_localiser::h_lookup,
    p_localiser::h_nested,
    p_localiser::h_defaults,
    p_localiser::h_script,
    p_registry::h_registry,
    p_registry::h_script_direction,
    p_registry::h_tagged,
    p_sqlite::h_sql_strings,
    p_sqlite::h_sql_details,
    p_sqlite::h_sql_schema,
    p_sqlite::h_sql_open,
    p_number::h_plural,
    p_number::h_plural_fraction,
    p_number::h_plural_two,
    p_number::h_decimal,
    p_number::h_decimal_bad,
    p_values::h_place_value,
    p_values::h_types,
    p_values::h_select,
    p_values::h_iso,
    p_values::h_iso_bad,
    p_values::h_date_options,
    p_values::h_date_bad,
    p_values::h_command,
    p_values::h_command_registry,
    p_values::h_supplied_commands,
    p_values::h_total,
    p_values::h_total_ascii,
    p_values::h_total_iso,
    p_pattern::h_ref_ascii,
    p_pattern::h_ref_skel,
}
