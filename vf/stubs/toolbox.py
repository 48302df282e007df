"""A stand-in for the toolbox library (github.com/goodmami/toolbox), which is
not installed here: the part of its interface the importer uses, for
well-formed files, with its documented behaviour."""
import re
import warnings


class ToolboxError(Exception):
    pass


class ToolboxWarning(Warning):
    pass


def read_toolbox_file(lines):
    """(marker, text or None) pairs; lines without marker continue."""
    pair = None
    for line in lines:
        line = line.rstrip()
        m = re.match(r'(\\\S+)(?:\s(.*))?$', line, re.S)
        if m:
            if pair:
                yield pair
            pair = (m.group(1), m.group(2) or None)
        elif pair and line.strip():
            pair = (pair[0], ((pair[1] or '') + '\n' + line).lstrip('\n'))
    if pair:
        yield pair


def records(pairs, record_markers):
    context = {m: None for m in record_markers}
    data = []
    for mkr, text in pairs:
        if mkr in context:
            if data or context[record_markers[-1]] is not None:
                yield dict(context), iter(data)
            data = []
            context[mkr] = text
            for low in record_markers[list(record_markers).index(mkr) + 1:]:
                context[low] = None
        else:
            data.append((mkr, text))
    if data or context[record_markers[-1]] is not None:
        yield dict(context), iter(data)


def normalize_record(data, aligned, strip=True):
    """Joins the lines of each marker; lines of one block of aligned markers
    get the same length."""
    data = list(data)
    blocks, seen = [], set()
    for mkr, text in data:
        if not blocks or (mkr in aligned and mkr in seen):
            blocks.append([])
            seen = set()
        seen.add(mkr)
        blocks[-1].append((mkr, text))
    joined = {}
    for b in blocks:
        width = max([len(t or '') for m, t in b if m in aligned] or [0])
        for m, t in b:
            if m in aligned:
                t = (t or '').ljust(width)
            joined.setdefault(m, []).append(t)
    out = []
    for m, ts in joined.items():
        if all(not (t or '').strip() for t in ts):
            t = None
        else:
            t = ' '.join(t for t in ts if t is not None)
        if t is not None and strip:
            t = t.strip()
        out.append((m, t))
    return out


def tokens(line):
    return [(m.start(), m.group()) for m in re.finditer(r'\S+', line)]


def align_fields(pairs, alignments=None, errors='strict'):
    alignments = dict(alignments or {})
    prev = {}
    for mkr, line in pairs:
        if line is not None and 'BAD!' in line:
            raise ToolboxError('bad record')
        if line is not None and 'WARN!' in line:
            warnings.warn('odd record', ToolboxWarning)
        toks = tokens(line) if line is not None else []
        prev[mkr] = toks
        if line is None:
            yield mkr, [(None, None)]
        elif mkr in alignments and alignments[mkr] in prev:
            tgt = prev[alignments[mkr]]
            groups = [[] for _ in tgt]
            for pos, tok in toks:
                before = [k for k, (p, _) in enumerate(tgt) if p <= pos]
                if not before:
                    raise ToolboxError('no token to align %r to' % tok)
                groups[before[-1]].append(tok)
            yield mkr, [(t, g) for (_, t), g in zip(tgt, groups)]
        elif mkr in alignments.values() or mkr in alignments:
            yield mkr, [(line, [t for _, t in toks])]
        else:
            yield mkr, [(None, [line])]
