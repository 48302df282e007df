"""Records what the exporter asks to be written."""
calls = []


def make_skeleton(path, relations, item_rows):
    rows = [list(dict(r).items()) for r in item_rows]
    calls.append((path, relations, rows))
