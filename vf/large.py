"""
Large inputs: trees of hundreds of nodes, paths of a hundred parts, dozens of primitives and constraints

Cases are a handful of numbers, from which everything else is drawn by a seeded generator.
"""

import random

from hypothesis import strategies as st


def sizes(lo, hi, **kw):
    return st.fixed_dictionaries(dict(n=st.integers(lo, hi), seed=st.integers(0, 10 ** 6), **kw))


def tree(n, shape, rng, sizes=100):
    """Nested [value, [[key, child], ...]] of n nodes with values below `sizes`"""
    nodes = [[0, []]]
    for i in range(1, n):
        j = {"wide": 0 if rng.random() < 0.9 else rng.randrange(i), "deep": i - 1 if rng.random() < 0.95 else rng.randrange(i),
             "bushy": rng.randrange(i)}[shape]
        node = [rng.randrange(sizes), []]
        key = rng.choice([f"k{i}", str(i), f"Line{i}", f"{chr(97 + i % 26)}{i}", "a" if all(k != "a" for k, _ in nodes[j][1]) else f"a{i}"])
        nodes[j][1].append([key, node])
        nodes.append(node)
    return nodes[0]


SHAPES = st.sampled_from(["wide", "deep", "bushy"])


def fresh(d):
    """Not the smallest case, which every worker would start from"""
    return d["seed"] > 0
