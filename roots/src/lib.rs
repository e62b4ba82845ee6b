//! Never executed. Names every public entry point of the analysed crates with concrete
//! type parameters, so that the compiler resolves every call behind them.
#![allow(clippy::all)]
pub mod models;

use piston_meta::bootstrap::{self, Convert};
use piston_meta::meta_rules::*;
use piston_meta::optimize;
use piston_meta::tokenizer::{read_data, TokenizerState};
use piston_meta::*;
use piston_meta_search::Search;
use read_token::ReadToken;
use std::sync::Arc;

type Toks = Vec<Range<MetaData>>;
type E = Range<ParseError>;

// --- parsing -------------------------------------------------------------------------------
pub fn r_rule_parse(r: &Rule, t: &mut Toks, s: &TokenizerState, rt: &ReadToken, refs: &[Rule],
                    i: &mut IndentSettings) -> ParseResult<TokenizerState> {
    r.parse(t, s, rt, refs, i)
}
pub fn r_parse(a: &Syntax, b: &str, c: &mut Toks) -> Result<(), E> { parse(a, b, c) }
pub fn r_parse_with_indent(a: &Syntax, b: &str, c: &mut Toks, d: &IndentSettings) -> Result<(), E> {
    parse_with_indent(a, b, c, d)
}
pub fn r_parse_errstr(a: &Syntax, b: &str, c: &mut Toks) -> Result<(), String> { parse_errstr(a, b, c) }
pub fn r_parse_errstr_with_indent(a: &Syntax, b: &str, c: &mut Toks, d: &IndentSettings) -> Result<(), String> {
    parse_errstr_with_indent(a, b, c, d)
}
pub fn r_indent_default() -> IndentSettings { IndentSettings::default() }
pub fn r_read_data(t: &mut Toks, d: Range<MetaData>, s: &TokenizerState) -> TokenizerState { read_data(t, d, s) }
pub fn r_tokenizer_new() -> TokenizerState { TokenizerState::new() }
pub fn r_update_refs(s: &mut Syntax) { update_refs(s) }
pub fn r_rule_update_refs(r: &mut Rule, n: &[Arc<String>]) { r.update_refs(n) }

// --- syntax --------------------------------------------------------------------------------
pub fn r_syntax(s: &str) -> Result<Syntax, E> { syntax(s) }
pub fn r_syntax_errstr(s: &str) -> Result<Syntax, String> { syntax_errstr(s) }
pub fn r_syntax_new() -> Syntax { Syntax::new() }
pub fn r_syntax_push(s: &mut Syntax, n: Arc<String>, r: Rule) { s.push(n, r) }
pub fn r_syntax_optimize(s: Syntax) -> Syntax { s.optimize() }
pub fn r_load(a: &str, b: &str) -> Toks { load_syntax_data(a, b) }
pub fn r_optimize_rule(r: &Rule, refs: &[Rule]) -> Rule { optimize::optimize_rule(r, refs) }
pub fn r_unique_byte(r: &Rule, refs: &[Rule]) -> Option<u8> { optimize::unique_byte(r, refs) }
pub fn r_unique_table(s: &Select, refs: &[Rule]) -> ([u8; 256], usize) { optimize::unique_table_from_select(s, refs) }
pub fn r_rules() -> Syntax { bootstrap::rules() }
pub fn r_convert(d: &[Range<MetaData>], i: &mut Vec<Range>) -> Result<Syntax, ()> { bootstrap::convert(d, i) }

// --- convert cursor ------------------------------------------------------------------------
fn at<'a>(d: &'a [Range<MetaData>], k: usize) -> Convert<'a> {
    let mut c = Convert::new(d);
    c.update(Range::new(0, k));
    c
}
pub fn u_new_len(d: &[Range<MetaData>]) -> usize { Convert::new(d).remaining_data_len() }
pub fn u_new_ignore(d: &[Range<MetaData>]) -> Range { Convert::new(d).ignore() }
pub fn u_len(d: &[Range<MetaData>], k: usize) -> usize { at(d, k).remaining_data_len() }
pub fn u_update(d: &[Range<MetaData>], k: usize, r: Range) -> (usize, Range) {
    let mut c = at(d, k);
    c.update(r);
    (c.remaining_data_len(), c.subtract(Convert::new(d)))
}
pub fn u_subtract(d: &[Range<MetaData>], k: usize, m: usize) -> Range { at(d, m).subtract(at(d, k)) }
pub fn u_source(d: &[Range<MetaData>], k: usize, m: usize) -> Option<Range> { at(d, m).source(at(d, k)) }
pub fn u_start_node(d: &[Range<MetaData>], k: usize, n: &str) -> Result<Range, ()> { at(d, k).start_node(n) }
pub fn u_end_node(d: &[Range<MetaData>], k: usize, n: &str) -> Result<Range, ()> { at(d, k).end_node(n) }
pub fn u_ignore(d: &[Range<MetaData>], k: usize) -> Range { at(d, k).ignore() }
pub fn u_string(d: &[Range<MetaData>], k: usize, n: &str) -> Result<(Range, Arc<String>), ()> { at(d, k).meta_string(n) }
pub fn u_f64(d: &[Range<MetaData>], k: usize, n: &str) -> Result<(Range, f64), ()> { at(d, k).meta_f64(n) }
pub fn u_bool(d: &[Range<MetaData>], k: usize, n: &str) -> Result<(Range, bool), ()> { at(d, k).meta_bool(n) }

// --- reports -------------------------------------------------------------------------------
pub fn r_json_write(w: &mut Vec<u8>, d: &[Range<MetaData>]) -> Result<(), std::io::Error> { json::write(w, d) }
pub fn r_json_write_string(w: &mut Vec<u8>, s: &str) -> Result<(), std::io::Error> { json::write_string(w, s) }
pub fn r_json_print(d: &[Range<MetaData>]) { json::print(d) }
pub fn r_err_new<'a>(t: &'a str) -> ParseErrorHandler<'a> { ParseErrorHandler::new(t) }
pub fn r_err_write(h: &mut ParseErrorHandler, w: &mut Vec<u8>, e: E) -> Result<(), std::io::Error> { h.write(w, e) }
pub fn r_err_write_msg(h: &mut ParseErrorHandler, w: &mut Vec<u8>, r: Range, m: &str) -> Result<(), std::io::Error> {
    h.write_msg(w, r, m)
}
pub fn r_err_error(h: &mut ParseErrorHandler, e: E) { h.error(e) }
pub fn r_stderr_unwrap(s: &str, r: Result<u8, E>) -> u8 { stderr_unwrap(s, r) }
pub fn r_display(e: &ParseError, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }

// --- equality and cloning ------------------------------------------------------------------
macro_rules! eqs { ($($f:ident $t:ty),*) => { $(pub fn $f(a: &$t, b: &$t) -> bool { a == b })* } }
eqs!(q_rule Rule, q_syntax Syntax, q_metadata MetaData, q_parse_error ParseError, q_select Select,
     q_fast_select FastSelect, q_sequence Sequence, q_node Node, q_not Not, q_optional Optional,
     q_repeat Repeat, q_separate_by SeparateBy, q_lines Lines, q_number Number, q_tag Tag, q_text Text,
     q_until_any UntilAny, q_until_any_or_whitespace UntilAnyOrWhitespace, q_whitespace Whitespace);
macro_rules! clones { ($($f:ident $t:ty),*) => { $(pub fn $f(a: &$t) -> $t { a.clone() })* } }
clones!(k_rule Rule, k_syntax Syntax, k_metadata MetaData, k_select Select,
     k_fast_select FastSelect, k_sequence Sequence, k_node Node, k_not Not, k_optional Optional,
     k_repeat Repeat, k_separate_by SeparateBy, k_lines Lines, k_number Number, k_tag Tag, k_text Text,
     k_until_any UntilAny, k_until_any_or_whitespace UntilAnyOrWhitespace, k_whitespace Whitespace,
     k_state TokenizerState, k_indent IndentSettings);

// --- search --------------------------------------------------------------------------------
type F<'a> = fn(Search<'a>) -> Result<u8, E>;
pub fn s_new<'a>(d: &'a [Range<MetaData>]) -> Search<'a> { Search::new(d) }
pub fn s_for_string<'a>(s: &'a Search<'a>, n: &str, v: &str, f: F<'a>) -> Result<u8, E> { s.for_string(n, v, f) }
pub fn s_for_f64<'a>(s: &'a Search<'a>, n: &str, v: f64, f: F<'a>) -> Result<u8, E> { s.for_f64(n, v, f) }
pub fn s_for_bool<'a>(s: &'a Search<'a>, n: &str, v: bool, f: F<'a>) -> Result<u8, E> { s.for_bool(n, v, f) }
pub fn s_for_node<'a>(s: &'a Search<'a>, n: &str, f: F<'a>) -> Result<u8, E> { s.for_node(n, f) }
pub fn s_for_end_node<'a>(s: &'a Search<'a>, n: &str, f: F<'a>) -> Result<u8, E> { s.for_end_node(n, f) }
pub fn s_bool(s: &mut Search, n: &str) -> Result<bool, E> { s.bool(n) }
pub fn s_f64(s: &mut Search, n: &str) -> Result<f64, E> { s.f64(n) }
pub fn s_string(s: &mut Search, n: &str) -> Result<Arc<String>, E> { s.string(n) }
pub fn s_node(s: &mut Search, n: &str) -> Result<(), E> { s.node(n) }
pub fn s_end_node(s: &mut Search, n: &str) -> Result<(), E> { s.end_node(n) }
