"""C22: a XigtPath selects exactly the nodes it describes."""
from vf import xpath
from vf.core import Sub

ID = 'C22'
TECHNIQUE = ('grammar-based generation of paths over generated corpora '
             'against a reference evaluator')
RULE = ('Cases are a corpus, a start node and up to four paths generated from '
        'the grammar (steps, wildcards, prefixes, descendants, attributes, '
        'functions, groups), written with and without white space; results '
        'are compared by identity and order; non-trivial = a path of several '
        'steps or over descendants finds something.')
ASSUMPTIONS = ['prefixes are declared on the corpus; references name existing '
               'objects where values are asked for',
               'attributes, texts and values end a path; functions of '
               'references are applied to tiers and items']


def check(case, ctx):
    xpath.check(case, ctx, preds=False)


SUBS = [Sub('paths', lambda: xpath.cases(False), check, quick=900)]
