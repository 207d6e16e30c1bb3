//! Analysis roots.  Nothing here is ever executed: the crate only gives the
//! MIR extractor concrete instantiations of the public API of minifier.
#![allow(dead_code, clippy::all)]
use minifier::{css, js, json};
use std::fmt::{self, Display};
use std::io::{self, Read, Write};

/// An output sink / input source about which nothing is known.
pub struct Sink(u8);
impl Write for Sink {
    fn write(&mut self, _b: &[u8]) -> io::Result<usize> {
        loop {}
    }
    fn flush(&mut self) -> io::Result<()> {
        loop {}
    }
}
pub struct Source(u8);
impl Read for Source {
    fn read(&mut self, _b: &mut [u8]) -> io::Result<usize> {
        loop {}
    }
}

pub fn root_css_minify(s: &str) -> Result<css::Minified<'_>, &'static str> {
    css::minify(s)
}
pub fn root_css_display(m: &css::Minified<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(m, f)
}
pub fn root_css_write(m: css::Minified<'_>, w: Sink) -> io::Result<()> {
    m.write(w)
}

pub fn root_js_tokenize(s: &str) -> Result<js::Tokens<'_>, &'static str> {
    js::tokenize(s)
}
pub fn root_js_minify(s: &str) -> Result<js::Minified<'_>, &'static str> {
    js::minify(s)
}
pub fn root_js_simple_minify(s: &str) -> Result<js::Tokens<'_>, &'static str> {
    js::simple_minify(s)
}
pub fn root_js_display(m: &js::Minified<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(m, f)
}
pub fn root_js_tokens_display(m: &js::Tokens<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(m, f)
}
pub fn root_js_write(m: js::Minified<'_>, w: Sink) -> io::Result<()> {
    m.write(w)
}
pub fn root_js_token_display(m: &js::Token<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(m, f)
}
pub fn root_js_clean_tokens(t: js::Tokens<'_>) -> js::Tokens<'_> {
    js::clean_tokens(t)
}
pub fn root_js_clean_token(t: &js::Token<'_>, n: &Option<&js::Token<'_>>) -> bool {
    js::clean_token(t, n)
}
pub fn any_keep(_t: &js::Token<'_>) -> bool {
    loop {}
}
pub fn root_js_clean_tokens_except(t: js::Tokens<'_>) -> js::Tokens<'_> {
    js::clean_tokens_except(t, any_keep)
}
pub fn root_js_clean_token_except(t: &js::Token<'_>, n: &Option<&js::Token<'_>>) -> bool {
    js::clean_token_except(t, n, &any_keep)
}
pub fn any_replace<'a>(_t: &js::Token<'a>) -> Option<js::Token<'a>> {
    loop {}
}
pub fn root_js_replace_tokens_with(t: js::Tokens<'_>) -> js::Tokens<'_> {
    js::replace_tokens_with(t, any_replace)
}
pub fn root_js_get_var(t: &js::Tokens<'_>, pos: usize) -> Option<(usize, Option<usize>)> {
    js::get_variable_name_and_value_positions(t, pos)
}
pub fn root_js_aggregate_strings(t: js::Tokens<'_>) -> js::Tokens<'_> {
    js::aggregate_strings(t)
}
pub fn root_js_aggregate_strings_sep<'a>(t: js::Tokens<'a>, s: js::Token<'a>) -> js::Tokens<'a> {
    js::aggregate_strings_with_separation(t, s)
}
pub fn root_js_aggregate_array<'a>(t: js::Tokens<'a>, name: &str) -> js::Tokens<'a> {
    js::aggregate_strings_into_array(t, name)
}
pub fn any_filter(_t: &js::Tokens<'_>, _p: usize) -> bool {
    loop {}
}
pub fn root_js_aggregate_array_filter<'a>(t: js::Tokens<'a>, name: &str) -> js::Tokens<'a> {
    js::aggregate_strings_into_array_filter(t, name, any_filter)
}
pub fn root_js_aggregate_array_sep<'a>(
    t: js::Tokens<'a>,
    name: &str,
    s: js::Token<'a>,
) -> js::Tokens<'a> {
    js::aggregate_strings_into_array_with_separation(t, name, s)
}
pub fn root_js_aggregate_array_sep_filter<'a>(
    t: js::Tokens<'a>,
    name: &str,
    s: js::Token<'a>,
) -> js::Tokens<'a> {
    js::aggregate_strings_into_array_with_separation_filter(t, name, s, any_filter)
}

pub fn root_json_minify_display(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(&json::minify(s), f)
}
pub fn root_json_minify_write(s: &str, w: Sink) -> io::Result<()> {
    json::minify(s).write(w)
}
/// One caller of the streaming reader: an unbounded sequence of reads with
/// buffers of arbitrary size.
pub fn any_buf<'a>() -> &'a mut [u8] {
    loop {}
}
pub fn any_more() -> bool {
    loop {}
}
pub fn deliver(_b: &[u8], _n: usize) {
    loop {}
}
pub fn root_json_stream(src: Source) -> io::Result<()> {
    let mut r = json::minify_from_read(src);
    while any_more() {
        let b = any_buf();
        let n = r.read(b)?;
        deliver(b, n);
    }
    Ok(())
}
pub fn root_json_stream_retry(src: Source) {
    let mut r = json::minify_from_read(src);
    while any_more() {
        let b = any_buf();
        if let Ok(n) = r.read(b) {
            deliver(b, n);
        }
    }
}

#[cfg(feature = "html")]
pub fn root_html_minify(s: &str) -> String {
    minifier::html::minify(s)
}
