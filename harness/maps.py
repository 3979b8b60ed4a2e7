"""Maps for regionalisation."""
from lib import *


def graph(kind, n, rng):
    """undirected edges (0-based, i < j)"""
    E = set()
    if kind == "rook":
        for i in range(n):
            E |= {(i, i + 1)} if (i + 1) % 4 and i + 1 < n else set()
            E |= {(i, i + 4)} if i + 4 < n else set()
    elif kind == "ring":
        E = {(i, (i + d) % n) for i in range(n) for d in (1, 2)}
    elif kind == "star":
        E = {(0, i) for i in range(1, n)} | {(i, i + 1) for i in range(1, n - 1, 3)}
    else:
        m = n if kind == "sym" else (n // 2 if kind == "two" else n - 1)
        for a, b in ((0, m), (m, n)):
            E |= {(int(rng.integers(a, j)), j) for j in range(a + 1, b)}
            E |= {tuple(int(v) for v in rng.choice(np.arange(a, b), 2, replace=False)) for _ in range(b - a) if b - a > 1}
    p = rng.permutation(n)
    return sorted({tuple(sorted((int(p[i]), int(p[j])))) for i, j in E if i != j})
