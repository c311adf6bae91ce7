"""Arrays and the list/queue/stack libraries behave as sequences."""
from .c07 import C07


class C08(C07):
    id = 'C08'
    main = 'a'
    rule = ('a case is a history of 2..40 container operations (arrays first) with a model; non-trivial when at least 5 '
            'different kinds of operation ran')
    assumptions = ['reading past the end of an array (which grows it) is left out of the model']


PROP = C08()
