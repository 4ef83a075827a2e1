"""Properties about indexing a collection: what is in the index (B01), its impacts (B02)."""
from core import *
from harness import analyse, cover, QUIET
import runtime

SOURCES = ["source/%s.cpp" % s for s in ("parser", "parser_fasta", "stem", "stem_porter", "instream_document_trec", "instream_document_fasta", "instream_document_unicoil_json", "instream_memory", "allocator_pool", "allocator_memory",
                                         "hash_pearson", "compress_integer", "compress_integer_variable_byte")]
REPLACE = dict(QUIET, **runtime.STREAMS, **{"std::type_info::operator==(": "verif_same_type", "strchr": "verif_strchr", "strpbrk": "verif_strpbrk"})


def jobs_of(shapes, impacts):
    where = "source/index_manager_sequential.h" if not impacts else "source/quantize.h"
    return [dict(harness="verif_h_build", args=list(s) + [impacts], replace=REPLACE, init=["_GLOBAL__sub_I_h_build.cpp"], where=where) for s in shapes]


def run(rep, jobs):
    return analyse(rep, ["h_build.cpp"], jobs, extra=[s for s in SOURCES if os.path.exists(os.path.join(REPO, s))], archs=("AVX-512",), flags=["-I" + os.path.join(REPO, "tools")])


def b01(tier):
    rep = Report("B01", "other", tier)
    deep = tier == "thorough"
    shapes = []
    for seed in range(1, 12 if deep else 4):
        for documents in (0, 1, 2, 3, 7, 16) + ((40,) if deep else ()):
            for format in (0, 1, 2, 3, 11, 13, 18):
                shapes.append((format, documents, seed, (0, 3, 12, 40)[(seed + documents) % 4] if format < 10 else 30, (1, 2, 3, 31, 4, 8, 16)[(seed + documents + format) % 7], 0))
        shapes.append((0, 2, seed, 1100 + seed, 3, 0))
    t = run(rep, jobs_of(shapes, 0))
    cover(rep, t, "Abstract interpretation of the indexer's own main function on collections in memory, with recorders for exporters: every document, word, weight and primary key is compared with those the collection was made of.",
          "a word or document missing from, or made up in, what an exporter is given; a wrong weight, primary key, order or number of documents; an access outside memory")
    return finish(rep)


def b02(tier):
    rep = Report("B02", "other", tier)
    deep = tier == "thorough"
    shapes = []
    for seed in range(1, 12 if deep else 5):
        for documents in (1, 2, 3, 7, 16) + ((40,) if deep else ()):
            for size in (0, 1, 4, 40):
                shapes.append(((0, 1, 13)[(seed + documents + size) % 3], documents, seed, size, (1, 3, 31)[(seed + documents) % 3], seed % 2))
        shapes.append((0, 3, seed, 1100 + seed, 3, 0))
    t = run(rep, jobs_of(shapes, 1))
    cover(rep, t, "Abstract interpretation of the indexer's main function: every impact an exporter is given is compared with the place of that posting's BM25 score between the least and the greatest of the collection.",
          "an impact outside 1 to the largest, or not where the score is; exporters that are given different impacts")
    return finish(rep)


def x01(tier):
    rep = Report("X01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for seed in range(1, 12 if deep else 4):
        for terms in (0, 1, 2, 5, 8, 9):
            for documents in (1, 2, 7, 20, 150) if deep else (1, 2, 7, 20):
                for style in (0, 1, 2):
                    n = seed + terms + documents + style
                    jobs.append([style, 1 + n % 2, terms, documents, seed, (0, 0, 5)[n % 3], (1, 3, 12)[(n + terms) % 3], 0])
        for wrong in (1, 2, 3, 4, 5):
            for documents in (2, 7):
                jobs.append([seed % 3, 1, 4, documents, seed, 0, 3, wrong])
    jobs.append([1, 1, 1, 150, 2, 0, 3, 0])
    jobs = [dict(harness="verif_h_ciff", args=a, replace=dict(REPLACE, **{"JASS::file::read_entire_file(": "verif_read_entire_file", "exit": "verif_exit", "printf": "verif_printf"}), init=["_GLOBAL__sub_I_h_ciff.cpp"], where="tools/ciff_lin.h") for a in jobs]
    t = analyse(rep, ["h_ciff.cpp"], jobs, extra=[s for s in SOURCES if os.path.exists(os.path.join(REPO, s))], archs=("AVX-512",), flags=["-I" + os.path.join(REPO, "tools")])
    cover(rep, t, "Abstract interpretation of the CIFF converter's main function on files written field by field as protocol buffer encoders do, with recorders for exporters: every posting, impact and primary key is compared with those of the file.",
          "a posting, impact, term or primary key that is not the file's; a file with something unexpected in it that is indexed; an access outside the file")
    return finish(rep)
