"""C06: products with tables of row multiples, element by element"""
from elevel import *
def jobs(tier):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        J += [Job('%s w=%d' % (f, w), product, f, w, timeout=300 if f == '_mzed_mul_newton_john' else 120) for f in ('_mzed_mul_newton_john', '_mzed_mul_newton_john0', '_mzed_mul_naive')]
    import c08
    J += [j for j in c08.entries([x for x in c08.PUBLIC if 'newton_john' in x[0]])]
    import c06t
    return J + c06t.jobs(tier)
