"""C13: containers stay coherent under any sequence of edits."""
from vf import edits
from vf.core import Sub

ID = 'C13'
TECHNIQUE = ('stateful model-based testing of all container kinds against a '
             'list with unique ids')
RULE = ('Cases are a container kind, a pool of children and a sequence of '
        'edits on two containers, everything observable being compared with '
        'a plain list (by identity) after each edit; non-trivial = more than '
        'two edits took place.')
ASSUMPTIONS = ['children are in one container at a time',
               'ids of contained children are changed only together with an '
               'index refresh (see C12)',
               'corpora are in full mode (other modes: C04)']


def check(case, ctx):
    edits.run(case, ctx, invalid=False)


SUBS = [Sub('edits', edits.cases, check, quick=1000)]
