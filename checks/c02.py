from c01 import common

LEVEL = 'exploration'
TECHNIQUE = 'generated type matrix under ASan/UBSan; reported size, depth, flags, predicates and printed text compared with std type traits'
NOTE = ('Every reported fact of every generated type is compared with an independent std-trait computation, and tens of '
        'thousands of flag sets are printed and parsed back; the types are a random sample of the type algebra.')
RULE = ('an evaluation is one type description or one printed flag set judged; distinct counts type spellings and flag sets')
ASSUMPTIONS = ['the compiler traits (std::is_*) are right']
MIN_EVALS = 5000


def run(ctx):
    common(ctx, 'describe')
