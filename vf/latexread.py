"""A reader for the LaTeX that the exporter writes: gives back what is
typeset, or complains about anything that is not plain text and groups."""
import re

SYMBOLS = '&%$#_{}'
WORDS = {'textbackslash': '\\', 'textasciitilde': '~',
         'textasciicircum': '^'}


class Bad(Exception):
    pass


def columns(line):
    """Columns of an interlinear line '{..} {..}\\\\': lists of the texts of
    its space separated parts are not told apart here; a column is a string.
    """
    cols, pos = [], 0
    if not line.endswith('\\\\'):
        raise Bad('line does not end in \\\\: %r' % line)
    line = line[:-2]
    while pos < len(line):
        if line[pos] == ' ':
            pos += 1
            continue
        if line[pos] != '{':
            raise Bad('column expected at %d: %r' % (pos, line))
        text, pos = group(line, pos + 1)
        cols.append(text)
    return cols


def group(s, pos):
    out = []
    while True:
        if pos >= len(s):
            raise Bad('unbalanced braces: %r' % s)
        c = s[pos]
        if c == '}':
            return ''.join(out), pos + 1
        t, pos = atom(s, pos)
        out.append(t)


def text(s):
    out, pos = [], 0
    while pos < len(s):
        t, pos = atom(s, pos)
        out.append(t)
    return ''.join(out)


def atom(s, pos):
    c = s[pos]
    if c == '{':
        return group(s, pos + 1)
    if c == '\\':
        n = s[pos + 1:pos + 2]
        if n and n in SYMBOLS:
            return n, pos + 2
        m = re.compile(r'\\([a-zA-Z]+)').match(s, pos)
        if not m or m.group(1) not in WORDS:
            raise Bad('command at %d: %r' % (pos, s))
        end = m.end()
        # the space after a command word is swallowed
        if s[end:end + 1] == ' ':
            end = len(s) - len(s[end:].lstrip(' '))
        return WORDS[m.group(1)], end
    if c in '&%$#_}~^\n\r':
        raise Bad('bare %r at %d: %r' % (c, pos, s))
    return c, pos + 1


def documents(out, ids):
    """[(igt id or None, lines or None)] of an exported file; ids: the ids of
    the igts that cannot be exported, in order."""
    lines = out.split('\n')
    for must in ('\\begin{document}', '\\end{document}'):
        if lines.count(must) != 1:
            raise Bad('%d times %s' % (lines.count(must), must))
    body = lines[lines.index('\\begin{document}') + 1:
                 lines.index('\\end{document}')]
    found = []
    k = 0
    while k < len(body):
        l = body[k]
        if not l.strip() or l.strip() == '%':
            k += 1
        elif l.startswith('%'):
            found.append(('skipped', l))
            k += 1
        elif l.startswith('\\begin{exe}'):
            j = k
            while j < len(body) and body[j] != '\\end{exe}':
                j += 1
            if j == len(body):
                raise Bad('example without end')
            found.append(('example', body[k + 1:j]))
            k = j + 1
        else:
            raise Bad('stray line: %r' % l)
    return found


def example(lines):
    """(interlinear lines as columns, translations)"""
    if not lines or not lines[0].startswith('\\ex'):
        raise Bad('example does not start with \\ex: %r' % lines)
    rows, trans = [], []
    for l in lines[1:]:
        if l.startswith('\\trans '):
            trans.append(text(l[len('\\trans '):]))
        elif trans:
            raise Bad('a line after the translations: %r' % l)
        else:
            rows.append(columns(l))
    # \gll, \glll etc. announce the number of lines
    m = re.match(r'\\ex\s*\\g(l*)\s*$', lines[0])
    if m and len(m.group(1)) != len(rows):
        raise Bad('%d lines after %r' % (len(rows), lines[0]))
    return rows, trans
