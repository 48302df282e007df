"""C14: a rejected edit changes nothing."""
from vf import edits
from vf.core import Sub

ID = 'C14'
TECHNIQUE = ('stateful model-based testing with invalid edits injected at '
             'any point of the history')
RULE = ('Cases are histories of container edits with invalid ones in between '
        '(wrong kind, taken id, absent child, id or position, also inside '
        'bulk edits); each must raise and leave contents, lookups, parents '
        'and offered children as they were; non-trivial = an invalid edit '
        'was tried on a container that had been edited before.')
ASSUMPTIONS = ['children are in one container at a time',
               'of a rejected bulk addition the children before the '
               'offending one may be kept']


def check(case, ctx):
    edits.run(case, ctx, invalid=True)


SUBS = [Sub('edits', lambda: edits.cases(invalid=True), check, quick=1000)]
