"""Small enumeration helpers (all deterministic, simplest first)."""
import itertools


def strings(alphabet, maxlen, minlen=1):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def vectors(values, n):
    """All vectors, fewest deviations from values[0] first."""
    rest = values[1:]
    for k in range(n + 1):
        for where in itertools.combinations(range(n), k):
            for vals in itertools.product(rest, repeat=k):
                v = [values[0]] * n
                for w, x in zip(where, vals):
                    v[w] = x
                yield tuple(v)
