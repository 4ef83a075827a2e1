"""Properties about the containers and allocators (T01)."""
from core import *
from harness import analyse, cover, QUIET
import runtime

EXTRA = ["source/allocator_pool.cpp", "source/hash_pearson.cpp"]
REPLACE = dict(QUIET, **runtime.STREAMS)


def job(harness, args, where):
    return dict(harness="verif_h_" + harness, args=args, replace=REPLACE, where="source/" + where, limit=2000000)


def t01(tier):
    rep = Report("T01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    pairs = [(0, 0)] + [(a, 0) for a in range(1, 120)] + [(a, b) for a in range(1, 120 if deep else 60) for b in range(1, 60 if deep else 30)]
    for n, (a, b) in enumerate(pairs):
        jobs.append(job("pool", [2 + n % 3, 3, n, (64, 200, 1000)[n % 3], a, b], "allocator_pool.cpp"))
        jobs.append(job("array", [2 + n % 3, 4, 1 + n % 3, (4, 6, 8)[n // 3 % 3], a, b], "dynamic_array.h"))
        jobs.append(job("keys", [0, 2 + n % 3, 4, n, a, b], "binary_tree.h"))
        jobs.append(job("keys", [1, 2 + n % 3, 4, n, a, b], "hash_table.h"))
    for n in range(200 if deep else 40):
        jobs.append(job("pool", [1, 19, n, (1, 32, 64, 200, 1000)[n % 5], 0, 0], "allocator_pool.cpp"))
        jobs.append(job("array", [1, 1 + 5 * n % 97, 1 + n % 7, 4 + n % 9, 0, 0], "dynamic_array.h"))
        jobs.append(job("keys", [n % 2, 1, 1 + n, n, 0, 0], ("binary_tree.h", "hash_table.h")[n % 2]))
    t = analyse(rep, ["h_containers.cpp"], jobs, extra=EXTRA, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the pool of memory, the growing array, the tree and the hash table used by one to three threads, with the others coming in before any one or two of the atomic operations, and a happens-before analysis of every access.",
          "memory given out twice, not aligned or lost; an element or a key lost, repeated or out of order; accesses of two threads to the same memory that are not ordered; an operation that does not end")
    return finish(rep)
