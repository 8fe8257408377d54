"""Small helpers the algorithms rely on: pairs of positions and lists without repetitions."""
from random import Random

from jinete.utils import remove_duplicates, sample_index_pairs
from jinete.utils.random import ncr


@unroll(8)
@cases("size", [0, 1, 2, 3, 4])
def law_remove_duplicates(size, a: int, b: int, c: int, d: int):
    given = [a, b, c, d][:size]
    kept = []
    for x in given:
        if not any(x == y for y in kept):
            kept.append(x)
    return remove_duplicates(given), kept


@unroll(24)
@cases("n", [2, 3, 4, 5, 6])
def law_every_pair(n, count: int, random: Random):
    """When no more than count pairs exist, they are all given, each of them once."""
    if count < n * (n - 1) // 2:
        return None, None
    pairs = list(sample_index_pairs(n, count, random))
    return (set(pairs), len(pairs)), ({(i, j) for i in range(n) for j in range(i + 1, n)}, n * (n - 1) // 2)


@unroll(24)
@cases("n", [2, 3, 4, 5, 6])
def law_every_pair_without_generator(n, count: int):
    if count < n * (n - 1) // 2:
        return None, None
    pairs = list(sample_index_pairs(n, count))
    return (set(pairs), len(pairs)), ({(i, j) for i in range(n) for j in range(i + 1, n)}, n * (n - 1) // 2)


@unroll(24)
def law_pairs_of_two(m: int):
    """n over 2, for every n of at least 4."""
    if m < 0:
        return None, None
    n = m + 4
    return ncr(n, 2), n * (n - 1) // 2


@unroll(24)
def law_of_one(m: int):
    if m < 0:
        return None, None
    return ncr(m + 2, 1), (m + 2) // 1


@unroll(24)
def law_of_none(n: int):
    if n < 0:
        return None, None
    return ncr(n, 0), 1


@unroll(24)
def law_of_three(m: int):
    if m < 0:
        return None, None
    n = m + 6
    return ncr(n, 3), n * (n - 1) * (n - 2) // 6


@unroll(100)
@cases("n, r", [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (5, 0), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5)])
def law_small(n, r):
    chosen = [[]]
    for i in range(n):
        chosen = chosen + [x + [i] for x in chosen]
    return ncr(n, r), len([x for x in chosen if len(x) == r])
