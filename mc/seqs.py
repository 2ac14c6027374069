"""Exhaustive operation sequences"""
import itertools


def first_shards(ops, depth):
    """Shards all len(ops)**depth sequences by their first two operations"""
    k = 2 if depth > 2 else 1
    return list(itertools.product(range(len(ops)), repeat=k))


def sequences(n, depth, prefix=()):
    for rest in itertools.product(range(n), repeat=depth - len(prefix)):
        yield prefix + rest
