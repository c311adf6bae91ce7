"""Contexts and states are isolated from one another and own what they were given."""
from .c15 import C15


class C16(C15):
    id = 'C16'
    multi = True
    quick = 8000
    thorough = 160000
    rule = ('a case is a history of up to 70 host operations over up to three states and five contexts at a time, made from shared, owned and borrowed images, with contexts and states destroyed '
            'at any point and everything accounted for at the end; non-trivial when at least two contexts were made')
    assumptions = C15.assumptions

    def nontrivial(self, case):
        return case['ctxs'] >= 2


PROP = C16()
