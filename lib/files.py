"""Properties about files: what is written, read and mapped, when all goes well and when it does not (F01)."""
from core import *
from harness import analyse, cover
import index, search

REPLACE = dict(search.REPLACE, **{"std::runtime_error::runtime_error(char const*)": "verif_nothing", "std::out_of_range::out_of_range(char const*)": "verif_nothing"})
INIT = [search.INIT[0], "_GLOBAL__sub_I_h_files", search.INIT[2]]


def job(harness, args, where="source/file.h"):
    return dict(harness="verif_h_" + harness, args=args, replace=REPLACE, init=INIT, where=where)


def f01(tier):
    rep = Report("F01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    buffers = (0, 1, 2, 3, 7, 16, 40, 64, 65, 1000)
    for buffer in buffers:
        for seed in range(1, 30 if deep else 5):
            pieces = 4 + (buffer + seed * 5) % 13
            jobs.append(job("write", [buffer, seed, pieces, 1 << 40, 0]))
            for space in (0, 1, 5, 20, 33, 64, 65, 90, 127, 128, 150, 200, 280) if deep else (seed % 3, 20 + seed, 64 + buffer % 3, 130 + seed):
                for late in (0, 1):
                    jobs.append(job("write", [buffer, seed, pieces, space, late]))
            if buffer != 0:
                jobs.append(job("seek", [buffer, seed, 30 if deep else 14]))
    for fault in range(9):
        for length in (0, 1, 2, 63, 64, 65, 400) if deep else (0, 1, 2, 65):
            jobs.append(job("whole", [length, fault], "source/file.cpp"))
    for length in (0, 1, 16, 63, 200, 500):
        for gives in (0, 1, 16, 40, 199, 1000):
            for seed in range(1, 12 if deep else 3):
                for terminal in (0, 1):
                    jobs.append(job("stream", [length, seed, gives, terminal], "source/instream_file.cpp"))
    for version in (1, 2):
        for documents, terms, seed in ((1, 1, 1), (10, 4, 2), (33, 5, 1)):
            jobs.append(job("full", [version, documents, terms, seed, 0, 0, 1], "source/serialise_jass_v1.cpp"))
            for space in range(0, 1500, 37) if deep else (0, 1, 30, 60, 100, 150, 250, 400, 700, 10000):
                for late in (0, 1):
                    jobs.append(job("full", [version, documents, terms, seed, space, late, 0], "source/serialise_jass_v1.cpp"))
    t = analyse(rep, ["h_files.cpp"], jobs, extra=index.index_sources() + search.SOURCES + search.TOOL, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the file class, of reading files in pieces, and of writing an index, on free bytes: writes of all sizes through buffers of all sizes, seeks and reads, and with a disk that is full after some "
          "number of bytes (told at once, or only when flushing and closing), that can be read only in part, or that refuses to open, stat, map or close.",
          "a byte that is not where it was written; a failure that the caller is not told of; contents that are not in the file")
    return finish(rep)
