#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {
    'C01': ('abstract interpretation over MIR (zones, character boundaries, last token): every panic edge unreachable',
            'Every reachable panic site of CSS tokenisation, cleaning and rendering (assert terminators, slicing, '
            'unwrap/expect, explicit panics, UTF-8 boundaries) is shown unreachable for every text. Assumes inputs '
            'shorter than 2^31 bytes and memory not exhausted.'),
    'C02': ('abstract interpretation over MIR (zones, character boundaries, induction over recursion): every panic edge '
            'unreachable',
            'Every reachable panic site of JavaScript tokenisation, cleaning (every public function) and rendering is '
            'shown unreachable for every text and, for rendering and cleaning, every token sequence. Assumes inputs '
            'shorter than 2^31 bytes and memory not exhausted; string aggregation is C14, not this.'),
    'C03': ('abstract interpretation over MIR (zones, character sets): every panic edge unreachable',
            'Every reachable panic site of the in-memory and the streaming JSON minifier (assert terminators, '
            'slicing, unwrap/expect, explicit panics, UTF-8 boundaries) is shown unreachable for every text, byte '
            'stream, chunking and read error. Assumes inputs shorter than 2^31 bytes and memory not exhausted.'),
    'C09': ('abstract interpretation of the minifier against the RFC 8259 lexical automaton with an output FIFO',
            'Product of the program over MIR with the JSON lexical automaton: what is written is exactly the '
            'significant characters read, in order, for every valid JSON text.'),
    'C18': ('abstract interpretation of main over MIR with a model of the file system and command line (typestate, effects)',
            'For every type option, extension, output option and I/O fault: output files are opened, replaced or removed only '
            'after the input was read and minified, every failure is reported, no panic is reachable, the program ends only '
            'after the last file. clap and std::fs are modelled; terminal output is assumed to succeed.'),
    'C19': ('abstract interpretation of main over MIR: provenance of the written text and of the output path',
            'For every combination of type option, extension class and output option the text written is exactly the output of '
            'the right minifier applied to the whole input, and the target path is the requested one or derived from the input. '
            'clap and std::path are modelled by name.'),
    'C21': ('abstract interpretation with a fault injected at every sink and source call (typestate)',
            'From every I/O call that may fail, on every path, the failure reaches the caller as the returned error '
            'and no success is returned nor output attempted after it; for all texts and fault positions.'),
    'C04': ('abstract interpretation of the tokenizer in product with a monitor of the text (zones, typestate over slices)',
            'For every text that CSS minification accepts: the tokens render the text they were read from, gaps being white space '
            'and ordinary comments, tokens removed afterwards are white space or comments, and the rendering loops write every '
            'token once. Assumes inputs shorter than 2^31 bytes.'),
    'C11': ('abstract interpretation of the tokenizer in product with a monitor of the text (typestate over comments)',
            'For every text: the text of every license comment is rendered by a token that no later step removes, and no '
            'token that stays covers text of an ordinary comment. JavaScript: for texts as in C05.'),
    'C20': ('abstract interpretation of CSS minification in product with lexical automata of the text',
            'For every text: no path returns success after an unterminated string or comment, a closing brace or bracket '
            'without an opening one, or a bracket inside brackets was read.'),
    'C05': ('abstract interpretation of the JavaScript tokenizer in product with a monitor of the text (zones, typestate over '
            'slices, lexical automaton)',
            'For every text whose strings, templates and block comments are terminated, and whose templates have no ${: each '
            'token renders exactly the text that follows the tokens before it, only comments may be left out, success means the '
            'tokens reach the end, and the rendering loops write every token once. The text of templates with ${ is not '
            'followed (C02 covers that code); flags of regular expressions are not compared.'),
    'C22': ('abstract interpretation of the JavaScript tokenizer in product with a monitor of the text (character classes at '
            'both ends of the slice, constant text of the keyword)',
            'For every text as in C05: where a keyword token is pushed, the text it was read from is the keyword letter for '
            'letter, the character behind cannot go on with the word, and the token before does not end in one.'),
    'C06': ('abstract interpretation of the cleaning in product with a monitor of the elements moved (typestate)',
            'For every token sequence: each token taken from the input is appended unmodified and in order, or is white space, '
            'an ordinary comment, or a semicolon met before anything was kept; nothing else is appended, replaced or cut off.'),
    'C07': ('abstract interpretation of the token rendering loops over MIR: relation (kind, separator, kind)',
            'For every ordered pair of word-like token kinds the text written between two adjacent tokens is shown '
            'to be white space, for every token sequence. Covers the rendering loops, not which tokens the lexer or the '
            'cleaning leave adjacent.'),
    'C12': ('abstract interpretation of both rendering loops over MIR and comparison of the relations they realise',
            'The formatting loop and the writing loop are each shown to render every element once, in order, by the '
            'same implementation and with the same separators, for every sequence of elements. '
            'Assumes fmt::Write and io::Write deliver the text they are given.'),
    'C13': ('exhaustive path interpretation of the recognition and rendering tables over MIR',
            'For every variant of every symbol table: the text(s) recognised as it (all paths of TryFrom) and the text '
            'rendered for it (all paths of Display) are computed from MIR and compared, and no two spellings map to '
            'one symbol.'),
    'C15': ('interprocedural taint dataflow over MIR: hash-iteration order to a total sort',
            'Every value produced in hash-iteration order, and every read of time, randomness, environment or an '
            'address, is shown not to reach a result, or to pass a sort whose comparator is a total order on '
            'distinct keys. Assumes std collections and sort behave as documented.'),
    'C16': ('call-graph SCC enumeration and abstract interpretation of the depth argument over MIR',
            'Every recursive cycle reachable from the public entry points has its depth bounded by a constant '
            '(interval analysis of the depth argument), or recurses only structurally on a value of logarithmic '
            'size. Does not bound stack frames in bytes.'),
    'C23': ('call-graph effect analysis over resolved MIR callees, and a compile with -F unsafe_code',
            'No callee with an effect outside the given reader/writer is reachable from the public API, no '
            'mutable static or thread-local is used, and the crate compiles with unsafe code forbidden. '
            'std and dependency bodies are judged by path.'),
}

NA = {
    'C08': 'White space "that carries meaning" is defined by nesting (calc(), rules in rules, selectors against '
           'declarations), i.e. by unbounded context of a malformed-tolerant grammar the code approximates; no sound '
           'abstraction in reach separates the cases where dropping is wanted from those where it is not.',
    'C10': 'Equality of two runs (chunked and whole) over arbitrary read and output buffer sizes; the single-run parts are '
           'claimed as C03 (no panic) and C21 (errors reach the caller).',
    'C14': 'Freshness is a statement about the set of names returned by a counter against the set of all identifiers; the '
           'sets are collected in hash maps whose contents the analysis does not relate to the tokens.',
    'C17': 'The behaviour is encoded in regular expressions executed by the regex crate over serialised HTML; deciding it '
           'needs the HTML parsing rules, which are not in the code.',
    'C24': 'Idempotence relates two runs of the whole pipeline on texts related by the first run; no static '
           'abstraction in reach relates the token stream of an arbitrary text to the token stream of its own '
           'rendering (the single-run parts are claimed as C04, C05 and C09).',
    'C25': 'A relational bound on total byte lengths (output <= input) needs an exact sum over all tokens; the '
           'zone domain used here bounds positions, not accumulated rendered lengths.',
    'C26': 'Equality of the JavaScript parse (automatic semicolon insertion, regex/division ambiguity) needs a '
           'JavaScript grammar and equivalence over all programs; a lexical minifier has no structure in its code '
           'from which that could be read statically.',
}


def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    m = {'version': 1,
         'setup_cmd': 'bash tools/setup.sh',
         'checks': [], 'not_applicable': []}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 engine/check.py %s' % p,
                                'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py %s' % p,
                                'evidence_file': 'evidence/%s.json' % p,
                                'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'Check not built yet.')})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


main()
