"""C06: the default JavaScript cleaning drops white space, ordinary comments and idle semicolons only."""
import cleanjs

ROOTS = ('root_js_minify', 'root_js_clean_tokens')


def run(c):
    c.rule('Rule: abstract interpretation of the cleaning over an arbitrary token sequence in product with a monitor: every '
           'token taken from the input, in order, is appended to the result unmodified, or dropped; dropped are only white '
           'space, ordinary comments, and semicolons while nothing was appended yet; all of the input is looked at and '
           'the result is the sequence that was appended to. For minify() the tokens are those of the whole source.')
    p = c.prog('lib')
    for root in ROOTS:
        I, h, out, ab, calls = cleanjs.analyse(p, root)
        c.count('functions analysed', len(I.stats['fns']))
        c.count('kinds of tokens kept', len(h.same))
        c.count('tokens taken (abstract)', h.taken)
        n = 0
        for (k, m), w in sorted(h.bad.items()):
            n += 1
            c.violation('%s: %s' % (root, m), '%s at %s' % (m, w))
        if ab or h.und or not h.taken or not h.same:
            c.undecided(root, 'not resolved: %s %s' % (ab, sorted(m for _, m in h.und)[:5]))
        blank = h.blanks(I)
        for lab, (w, taint) in sorted(h.cut.items()):
            key = '%s: %s is dropped' % (root, lab)
            if lab == 'Comment' or lab in blank:
                c.ok(key, w)
            elif taint or '?' in lab:
                c.undecided(key, 'depends on what is not modelled (%s)' % w)
            else:
                n += 1
                c.violation(key, 'a %s token%s is dropped at %s' % (
                    lab, ' that follows a statement' if lab == h.semi else '', w))
        for lab, w in sorted(h.idle.items()):
            c.ok('%s: %s is dropped before the first token' % (root, lab), w)
        ends = 0
        for s, v in out:
            if not h.on(s):
                continue                # the error of the tokenizer
            m = h.done(I, s, v)
            ends += 1
            if m is None:
                if s.taint:
                    c.undecided('%s: the result' % root, 'depends on what is not modelled: %s' % sorted(s.taint)[:4])
                continue
            n += 1
            key = '%s: %s' % (root, m)
            if s.taint or not h.taken or h.und:
                c.undecided(key, 'depends on what is not modelled')
            else:
                c.violation(key, m)
        c.count('returning states', ends)
        if not ends:
            c.undecided(root, 'no return with tokens is reached')
        elif not n and not ab and not h.und:
            for lab in sorted(h.same):
                c.ok('%s: %s is appended unmodified, in order' % (root, lab), root)
            c.ok('%s: the result is what was appended' % root, root)
