"""Properties about text: documents into tokens (P01), queries into terms (P02)."""
from core import *
from harness import analyse, cover, QUIET
import runtime
import itertools

PARSER = ["source/parser.cpp", "source/parser_query.cpp", "source/allocator_pool.cpp", "source/allocator_memory.cpp"]
KINDS = range(32)


def p01(tier):
    rep = Report("P01", "other", tier)
    deep = tier == "thorough"
    jobs = [("tokens", [0, 0, 0, 0]), ("tokens", [1, 0, 0, 0])]
    for length in (2, 3, 4) if deep else (2, 3):
        jobs += [("tokens", [length] + list(c) + [0] * (4 - length)) for c in itertools.product(KINDS, repeat=length - 1)]
    jobs += [("texts", [n, s]) for n in ((4, 5, 6, 8, 12, 20, 40) if deep else (4, 6, 8, 12, 20, 40)) for s in range(400 if deep else 40)]
    jobs += [("long_token", [w, n, p]) for w in range(7) for n in (1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1030, 1500) for p in (0, 2, 16, 17, 20, 21, 10, 3)
             if not (w == 3 and p == 10)]
    jobs += [("tags", [a, b]) for a in range(8) for b in range(8)]
    jobs += [("utf8", [highest]) for highest in range(21)]
    t = analyse(rep, ["h_parser.cpp"], [dict(harness="verif_h_" + h, args=a, where="source/unicode.h" if h == "utf8" else "source/parser.cpp") for h, a in jobs], extra=PARSER, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the tokeniser over documents made of pieces, each of a kind (letter, digit, space, mark-up, broken UTF-8, ...) and, where it is ASCII, any of several characters of the kind; "
          "every document of up to three (thorough: four) of the 32 pieces, longer ones, tags with every way of quoting in them, and tokens around the longest that can be held.",
          "a token of the wrong kind or text, one lost or made up, or one longer than its buffer; an access outside the document")
    return finish(rep)


def p02(tier):
    rep = Report("P02", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for raw in (0, 1):
        jobs += [("query", [0, 0, 0, 0, raw]), ("query", [1, 0, 0, 0, raw])]
        for length in (2, 3, 4) if deep else (2, 3):
            jobs += [("query", [length] + list(c) + [0] * (4 - length) + [raw]) for c in itertools.product(KINDS, repeat=length - 1)
                     if length < 4 or not (set(c) & {5, 6, 7, 9, 10, 11, 12, 13, 14, 26, 27, 28, 29, 30, 31})]
        jobs += [("queries", [n, s, raw]) for n in (4, 6, 8, 12, 20, 40) for s in range(200 if deep else 20)]
    t = analyse(rep, ["h_parser.cpp"], [dict(harness="verif_h_" + h, args=a, where="source/parser_query.cpp") for h, a in jobs], extra=PARSER, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the query parser over queries made of the same pieces as documents are, in memory of exactly the size the parser asks for.",
          "a word of the query missing, made up, counted wrongly or written differently than in a document; an access outside the query or the memory for its words")
    return finish(rep)



def p03(tier):
    rep = Report("P03", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for header in range(10):
        jobs += [("fasta", [header, 0, k, 0, 0, 0, 0]) for k in (1, 5)]
        for k in (1, 2, 3, 5, 8, 13) if deep else (1, 3, 5):
            for seed in range(1, 30 if deep else 7):
                for length in (0, 1, 4, 5, 12, 40) if deep else (0, 4, 5, 30):
                    jobs.append(("fasta", [header, 1, k, seed, length, (seed + length + header) % 7, seed % 3 == 0 and length < 6]))
    jobs += [("fasta_long", [k, length]) for k in (1, 100, 1022, 1023, 1024, 1025, 1026, 2000) for length in (0, 99, 1023, 1024, 1025, 1030, 3000)]
    for pairs in (0, 1, 2, 3, 6, 20):
        for seed in range(1, 60 if deep else 13):
            jobs.append(("unicoil", [pairs, seed, seed % 3, seed // 3 % 3, (seed + pairs) % 6, 0]))
    jobs += [("unicoil", [2, 5, 0, 0, 0, letters]) for letters in (1000, 1023, 1024, 1025, 1100)]
    t = analyse(rep, ["h_formats.cpp"], [dict(harness="verif_h_" + h, args=a, replace=dict(QUIET, **runtime.STREAMS), where="source/parser_unicoil_json.h" if h == "unicoil" else "source/parser_fasta.cpp") for h, a in jobs], extra=PARSER[:1] + PARSER[2:] + ["source/parser_fasta.cpp"], archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the FASTA and uniCOIL parsers over documents in memory of exactly their size: headers of ten kinds, runs of bases of either case broken by white space and by what is not a base, "
          "vectors of terms of free letters and weights around every limit.",
          "a run of bases or a term lost, repeated, made up, cut, wrongly weighted or not indexed; an access outside the document or the token")
    return finish(rep)


def p04(tier):
    rep = Report("P04", "other", tier)
    deep = tier == "thorough"
    replace = dict(runtime.STREAMS, **{"void std::_Destroy<std::__cxx11::basic_ostringstream<": "verif_nothing", "exit": "verif_exit"})
    jobs = []
    for layout in range(7):
        for topics in (0, 1, 2, 3, 5) if not deep else (0, 1, 2, 3, 4, 5, 8, 12):
            for seed in range(1, 40 if deep else 9):
                n = layout + topics + seed
                jobs.append(dict(harness="verif_h_topics", args=[layout, topics, seed, n % 7, n % 3], replace=replace, init=["_GLOBAL__sub_I_h_topics.cpp"], where="source/channel_trec.cpp"))
    t = analyse(rep, ["h_topics.cpp"], jobs, extra=PARSER + ["source/channel_trec.cpp"], archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the topic reader on files of topics in the TREC and the ClueWeb format, over several lines or all on one, with every set of wanted fields.",
          "a query with the wrong number or words, lost or made up; a use of memory that was never written, or outside the file")
    return finish(rep)
