"""Independent reference implementation of alignment expressions.

An AST is [[id, spans], delim, [id, spans], ...] where spans is None (whole
item) or [[start, end], delim, [start, end], ...]. Delimiters are '+' and ','.
"""
from hypothesis import strategies as st

JOIN = {'+': '', ',': ' '}


def render(ast):
    out = []
    for i, x in enumerate(ast):
        if i % 2:
            out.append(x)
        else:
            out.append(render_selection(x))
    return ''.join(out)


def render_selection(sel):
    _id, spans = sel
    if spans is None:
        return _id
    return '%s[%s]' % (_id, ''.join(
        x if j % 2 else '%d:%d' % (x[0], x[1]) for j, x in enumerate(spans)))


def parse(expr):
    """Character scanner for well-formed expressions (or space lists)."""
    ast = []
    i, n = 0, len(expr)
    while i < n:
        if ast:
            assert expr[i] in '+,', expr
            ast.append(expr[i])
            i += 1
        j = i
        while j < n and expr[j] not in '+,[':
            j += 1
        _id = expr[i:j]
        assert _id and _id[0].isascii() and _id[0].isalpha(), expr
        spans = None
        if j < n and expr[j] == '[':
            k = expr.index(']', j)
            spans = []
            cur = ''
            for c in expr[j + 1:k]:
                if c in '+,':
                    spans.extend([cur, c])
                    cur = ''
                else:
                    cur += c
            spans.append(cur)
            spans = [x if m % 2 else [int(y) for y in x.split(':')]
                     for m, x in enumerate(spans)]
            j = k + 1
        ast.append([_id, spans])
        i = j
    return ast


def ids(ast):
    return [x[0] for x in ast[::2]]


def evaluate(ast, values):
    """values: id -> str or None"""
    out = []
    for i, x in enumerate(ast):
        if i % 2:
            out.append(JOIN[x])
            continue
        _id, spans = x
        v = values[_id]
        if v is None:
            v = ''
        if spans is None:
            out.append(v)
        else:
            for j, y in enumerate(spans):
                out.append(JOIN[y] if j % 2 else v[y[0]:y[1]])
    return ''.join(out)


def expand(ast):
    out = []
    for i, x in enumerate(ast):
        if i % 2 or x[1] is None:
            out.append(x)
        else:
            for j, y in enumerate(x[1]):
                out.append(y if j % 2 else [x[0], [y]])
    return out


def compress(ast):
    out = [ast[0]]
    for k in range(1, len(ast), 2):
        delim, (_id, spans) = ast[k], ast[k + 1]
        last = out[-1]
        if spans is not None and last[1] is not None and last[0] == _id:
            out[-1] = [_id, last[1] + [delim] + spans]
        else:
            out.extend([delim, [_id, spans]])
    return out


offsets = st.one_of(st.integers(0, 4), st.integers(-3, 9),
                    st.integers(-12, 15))


FAR = [10, 11, 99, 100, 1000, 10000, 20003, 65537, 123456789012]


@st.composite
def asts(draw, id_strategy, max_sel=4, max_spans=3, whole_bias=True,
         offsets=offsets):
    n = draw(st.integers(1, max_sel))
    # now and then, many of something
    big = draw(st.integers(0, 29)) if max_sel > 1 and max_spans > 1 else 0
    if big == 29:
        n = draw(st.sampled_from([9, 10, 13]))
    elif big == 28:
        max_spans = draw(st.sampled_from([9, 12]))
    elif big == 27:
        offsets = st.one_of(offsets, st.sampled_from(
            FAR + [-10, -100]))
    out = []
    for i in range(n):
        if i:
            out.append(draw(st.sampled_from('+,')))
        # repeat the previous id now and then
        if i and draw(st.integers(0, 3)) == 3:
            _id = out[-2][0]
        else:
            _id = draw(id_strategy)
        m = draw(st.integers(0, max_spans))
        spans = None
        if m:
            spans = []
            for j in range(m):
                if j:
                    spans.append(draw(st.sampled_from('+,')))
                spans.append([draw(offsets), draw(offsets)])
        out.append([_id, spans])
    return out
