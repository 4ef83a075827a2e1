"""Properties about indexes: built in memory (I01, I05), written and read back (I02, I03), and the codecs they name (I04)."""
from core import *
from harness import analyse, cover, QUIET

INDEX_SOURCES = ["source/%s.cpp" % s for s in ("allocator_pool", "allocator_memory", "file", "compress_integer", "compress_integer_all", "serialise_jass_v1", "serialise_jass_v2",
                 "deserialised_jass_v1", "deserialised_jass_v2")]
CLEARING = "unsigned char* std::__uninitialized_default_n_a<unsigned char*, unsigned long, JASS::allocator_cpp<unsigned char>>("
DESTROYING = "void std::_Destroy<unsigned char*, JASS::allocator_cpp<unsigned char>>("
WHOLE = dict(QUIET, **{CLEARING: "verif_buffer", DESTROYING: "verif_nothing"})
INIT = ["_GLOBAL__sub_I_compress_integer_all.cpp", "_GLOBAL__sub_I_h_index"]
SMALL = dict(QUIET, **{"unsigned long JASS::hash_pearson::hash<8ul>(JASS::slice const&)": "verif_hash"})


def index_sources():
    import glob
    return INDEX_SOURCES + sorted(rel(p) for p in glob.glob(os.path.join(REPO, "source", "compress_integer_*.cpp")) if not p.endswith("_all.cpp"))


def i01(tier):
    rep = Report("I01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    sizes = range(1, 80) if deep else (1, 2, 3, 4, 15, 16, 17, 24, 25, 39, 40, 41, 60, 79)
    w = "source/index_postings.h"
    for n in sizes:
        for s in range(1, 25 if deep else 7):
            jobs.append(dict(harness="verif_h_accumulate", args=[n, s, (26, 7, 14)[s % 3] if n > 30 else (27, 8, 3)[s % 3], 1 + s % 4, 0], where=w))
            jobs.append(dict(harness="verif_h_accumulate", args=[n, s, 20, 1 + s % 2, n if s % 2 else n // 2], where=w))
            jobs.append(dict(harness="verif_h_amounts", args=[n, s, 1 + s % 4], where=w))
            for distinct in (1, 2, 5, 16):
                jobs.append(dict(harness="verif_h_impact_order", args=[n, s, distinct], where=w))
    jobs += [dict(harness="verif_h_long_order", args=[n, s], where=w) for n, s in ([(66001, 3), (140000, 6)] if deep else [(70001, 3)])]
    for j in jobs:
        j["replace"] = SMALL
    t = analyse(rep, ["h_postings.cpp"], jobs, extra=["source/allocator_pool.cpp", "source/hash_pearson.cpp", "source/compress_integer_variable_byte.cpp", "source/compress_integer.cpp"], archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of postings as they accumulate: the gaps between documents are any of a given width and the amounts any that do not saturate (or the listed ones, that do).",
          "linearising or impact ordering gives something other than what was added; an access outside the arrays")
    return finish(rep)


def round_trips(rep, tier, version):
    deep = tier == "thorough"
    jobs = []
    where = "source/serialise_jass_v%d.cpp" % version
    bases = (0, 4294967290, 1234567890123, (1 << 35) - 3, (1 << 28) - 9, (1 << 42) + 3, 0, (1 << 49) - 40)
    n = 0
    for letter in "sqGgD":
        for align in (1, 2, 4, 8, 16) if deep else (1, 16):
            if letter == "q" and version == 1 and align % 16:
                continue                                    # documented: this codec needs an alignment of 16
            for terms in ((1, 2, 3, 4, 6, 10) if deep else (1, 2, 3, 6)):
                for postings in ((1, 2, 9, 16, 17, 34) if deep else (1, 9, 34)):
                    for seed in (range(1, 4) if deep else (1, 2)):
                        for distinct in (0, 3, 16) if letter == "s" else (0,):
                            n += 1
                            # with several impacts the gaps are sums, which must not overflow
                            widest = (3, 9, 17, 24)[(n + postings) % 4] if postings < 30 else (3, 9, 17, 22)[(n + postings) % 4]
                            jobs.append(dict(harness="verif_h_v%d" % version, args=[ord(letter), align, terms, postings, seed, widest, distinct, bases[n % len(bases)] & (~15 if letter == "q" else ~0), 1 + n % 7], replace=WHOLE, init=INIT, where=where, unaligned=int(letter == "q" and version == 2 and n % 16 != 0)))
    jobs += [dict(harness="verif_h_long_v%d" % version, args=a, replace=WHOLE, init=INIT, where=where) for a in ([[66000, 3, 5], [98000, 7, 0]] if deep else [[66000, 3, 5]])]
    t = analyse(rep, ["h_index.cpp"], jobs, extra=index_sources(), archs=("AVX-512", "AVX2") if deep else ("AVX-512",))
    cover(rep, t, "Abstract interpretation of writing an index and reading it back, over files that are arrays of abstract bytes: document ids, terms and primary keys are free (ids apart from the widths of the gaps, "
          "terms apart from their length and the top of their first byte), and files may start beyond 4 GB so that positions need all their bits.",
          "a term, posting, impact or primary key that reads back differently, a term that is not found, or one found that was never indexed; an access outside a file or buffer")
    return finish(rep)


def i02(tier):
    return round_trips(Report("I02", "other", tier), tier, 1)


def i03(tier):
    return round_trips(Report("I03", "other", tier), tier, 2)


def i04(tier):
    rep = Report("I04", "proof", tier)
    jobs = [dict(harness="verif_h_" + h, args=[], init=INIT, replace=WHOLE, where=w) for h, w in (("codec_names", "source/serialise_jass_v1.cpp"), ("registry", "source/compress_integer_all.cpp"))]
    t = analyse(rep, ["h_index.cpp"], jobs, extra=index_sources())
    cover(rep, t, "Abstract interpretation of the codec registry: for each letter an index can carry and each command line switch, the class (vtable) of the codec that comes out.",
          "a letter, switch or name that gives another codec than the one it stands for")
    return finish(rep)


def i05(tier):
    rep = Report("I05", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for n in (range(1, 61) if deep else (1, 2, 3, 5, 8, 13, 21, 34)):
        for s in range(1, 30 if deep else 6):
            for c in range(0, 3):
                for d in (2, 5, 16):
                    jobs.append(dict(harness="verif_h_dictionary", args=[n, s, c, d], replace=SMALL, where="source/binary_tree.h"))
    for n in (30, 80) + ((200,) if deep else ()):
        for s in range(1, 20 if deep else 4):
            for c in range(0, 3):
                for start in (0, 1, 3, 4, 7, 8, 15, 16, 31):
                    jobs.append(dict(harness="verif_h_dictionary_keys", args=[n, s, c, start], replace=SMALL, where="source/binary_tree.h"))
    t = analyse(rep, ["h_postings.cpp"], jobs, extra=["source/allocator_pool.cpp", "source/hash_pearson.cpp", "source/compress_integer_variable_byte.cpp", "source/compress_integer.cpp"], archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the dictionary on free keys (any bytes, apart from the length and the top of the first byte, which fix their order) and free values, with the hash fixed by the harness "
          "(all keys collide, many do, few do), and on known keys that are hard to tell apart (zero bytes, common starts, top bits, lengths).", "a key that finds another key's element or none, a key lost or changed, iteration that misses or repeats a key")
    return finish(rep)
