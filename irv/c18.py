"""C18: the table of irreducible polynomials. Closed obligations about the constants in the IR of gf2e.c, decided by evaluation:
every entry is irreducible by trial division, and the list of a degree is the complement of the products of smaller degrees."""
import re
from core import *

def glob(M, name):
    for m in M:
        g = m.globs.get(name)
        if g is not None and 'external' not in g.split('[')[0]: return g
    raise Unsupported('no definition of ' + name)
def ints(M, name):
    """values of a constant integer array"""
    g = glob(M, name); m = re.search(r'constant \[(\d+) x i\d+\] (.*?)(, align.*)?$', g)
    if not m: raise Unsupported('%s is not a constant integer array: %s' % (name, g[:80]))
    n, b = int(m.group(1)), m.group(2)
    if b.startswith('zeroinitializer'): return [0] * n
    v = [int(x) for x in re.findall(r'i\d+ (-?\d+)', b)]
    if len(v) != n: raise Unsupported('%s: cannot read the initialiser' % name)
    return v
def ptrs(M, name):
    g = glob(M, name); m = re.search(r'\[(\d+) x ptr\] \[(.*?)\]', g)
    if not m: raise Unsupported('%s is not an array of pointers' % name)
    v = [x.strip().split()[-1] for x in m.group(2).split(',')]
    if len(v) != int(m.group(1)): raise Unsupported('cannot read ' + name)
    return v
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1; b >>= 1
    return r
def gmod(a, b):
    d = b.bit_length()
    while a.bit_length() >= d: a ^= b << (a.bit_length() - d)
    return a
def degree(M, d):
    T = ptrs(M, 'irreducible_polynomials'); post = []; fn = 'irreducible_polynomials[%d]' % d
    if d >= len(T): return {'functions': [fn], 'obligations': [(fn + ' exists', 'post', ('refuted', 'table has %d entries' % len(T)))], 'assumed': [], 'paths': 1}
    t = T[d]
    if not t.startswith('@'): return {'functions': [fn], 'obligations': [(fn + ' is a table', 'post', ('refuted', t))], 'assumed': [], 'paths': 1}
    L = ints(M, t[1:]); cnt, ps = L[0], L[1:]
    P = lambda c, w, why: post.append((fn + ': ' + w, 'post', 'proved' if c else ('refuted', why)))
    P(cnt == len(ps), 'starts with the number of polynomials that follow', 'count %d, %d entries' % (cnt, len(ps)))
    # complement of the products of two polynomials of smaller degree
    red = bytearray(1 << (d + 1))
    for i in range(1, d // 2 + 1):
        for a in range(1 << i, 2 << i):
            for b in range(1 << (d - i), 2 << (d - i)): red[gmul(a, b)] = 1
            if d > 10: break
        if d > 10: break
    small = [p for i in range(1, d // 2 + 1) for p in range(1 << i, 2 << i)]
    sm = []
    for p in small:     # irreducible factors are enough for trial division
        if all(gmod(p, q) for q in sm if 2 * (q.bit_length() - 1) <= p.bit_length() - 1): sm.append(p)
    irr = lambda p: all(gmod(p, q) for q in sm)
    for p in ps:
        P(p.bit_length() - 1 == d, '0x%x has degree %d' % (p, d), 'degree %d' % (p.bit_length() - 1))
        P(irr(p), '0x%x is irreducible' % p, 'reducible')
    P(len(set(ps)) == len(ps), 'no polynomial is listed twice', 'repeated entry')
    want = {p for p in range(1 << d, 2 << d) if irr(p)}
    P(not want - set(ps), 'every irreducible polynomial of degree %d is listed' % d, 'missing ' + ', '.join('0x%x' % p for p in sorted(want - set(ps))[:5]))
    if d <= 10: P(want == {p for p in range(1 << d, 2 << d) if not red[p]}, 'lemma: trial division agrees with the complement of all products', '')
    # Gauss: sum over the divisors e of d of e * (number of irreducible polynomials of degree e) is 2^d
    mu = lambda n: 0 if any(n % (q * q) == 0 for q in range(2, n + 1)) else (-1) ** sum(1 for q in range(2, n + 1) if n % q == 0 and all(q % r for r in range(2, q)))
    P(len(want) * d == sum(mu(e) * 2 ** (d // e) for e in range(1, d + 1) if d % e == 0), 'lemma: Gauss count', '')
    return {'functions': [fn], 'obligations': post, 'assumed': ['the constants of the compiled translation unit are those of the source'], 'paths': 1}
def jobs(tier):
    from run import Job
    return [Job('table of degree %d' % d, degree, d) for d in range(1, 17)]
