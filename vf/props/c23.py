"""C23: XigtPath predicates keep exactly the satisfying nodes."""
from vf import xpath
from vf.core import Sub

ID = 'C23'
TECHNIQUE = ('grammar-based generation of paths with predicates over '
             'generated corpora against a reference evaluator')
RULE = ('Cases are a corpus, a start node and up to four paths with '
        'predicates (existence, = and != with arbitrary literals, nested, '
        'repeated) at any step; results are compared by identity and order; '
        'non-trivial = a path with a predicate finds something.')
ASSUMPTIONS = ['prefixes are declared on the corpus; references name existing '
               'objects where values are asked for',
               'literals are in double quotes, quotes and backslashes in them '
               '(and sometimes other characters) being escaped with a '
               'backslash']


def check(case, ctx):
    xpath.check(case, ctx, preds=True)


SUBS = [Sub('predicates', lambda: xpath.cases(True), check, quick=900)]
