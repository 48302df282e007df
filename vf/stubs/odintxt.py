"""A stand-in for odintxt (github.com/xigt/odin-utils), which is not installed
here: one JSON object per line is one block."""
import json


def odin_blocks(lines):
    for line in lines:
        if line.strip():
            yield json.loads(line)
