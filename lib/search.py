"""Properties about searching: complete (S01) and anytime (S02) search, threads (S03), oracles (S04), an engine that is not ready (S05)."""
from core import *
from harness import analyse, cover
import index, runtime

SOURCES = ["anytime/JASS_anytime_api.cpp", "source/parser_query.cpp", "source/top_k_limit.cpp", "source/threads.cpp"]
REPLACE = {k: v for k, v in dict(index.WHOLE, **runtime.STREAMS).items() if "query_term_list::query_term_list" not in k}
REPLACE.update({"JASS::deserialised_jass_v1::read_index(": "verif_read_index", "JASS::query_term_list::query_term_list()": "verif_term_list", "strchr": "verif_strchr"})
TOOL = ["source/channel_file.cpp", "source/channel_trec.cpp", "source/instream_file.cpp", "source/parser.cpp"]
INIT = ["_GLOBAL__sub_I_compress_integer_all.cpp", "_GLOBAL__sub_I_h_search", "_GLOBAL__sub_I_JASS_anytime_api"]
API = "anytime/JASS_anytime_api.cpp"
CODECS = "sqGgD"


def job(harness, args, where=API):
    return dict(harness="verif_h_" + harness, args=args, replace=REPLACE, init=INIT, where=where)


def run(rep, jobs, explanation, rule, deep):
    t = analyse(rep, ["h_search.cpp"], jobs, extra=index.index_sources() + SOURCES, archs=("AVX-512", "AVX2") if deep else ("AVX-512",))
    cover(rep, t, explanation, rule)
    return finish(rep)


def indexes(deep):
    """(version, codec, documents, terms, seed)"""
    n = 0
    for version in (1, 2):
        for codec in CODECS:
            if version == 2 and codec == "q":
                continue                    # known finding of I03: the lists are not aligned as this codec needs
            for documents, terms in ((1, 1), (7, 4), (10, 3), (20, 4), (33, 5), (60, 6)) if not deep else ((1, 1), (2, 2), (7, 4), (10, 3), (16, 4), (20, 4), (25, 5), (33, 5), (48, 6), (60, 6), (64, 7)):
                n += 1
                for seed in range(n, n + (4 if deep else 1)):
                    yield version, ord(codec), documents, terms, seed


def s01(tier):
    rep = Report("S01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for n, (v, c, d, t, s) in enumerate(indexes(deep)):
        for k in (1, 2, 5, 10, 100) if deep else (1 + n % 4, 5, 10 + n % 2 * 90):
            jobs.append(job("search", [v, c, d, t, s, k, 0, 0, 0, 1]))
            if t > 2:
                jobs.append(job("search", [v, c, d, 3, s, k, 0, 0, 0, 0]))
    return run(rep, jobs, "Abstract interpretation of indexing, writing, loading and searching a collection with the search engine's programming interface, on queries with repeated, unknown and no known terms. Primary keys "
               "(and, without stop words in the way, terms) are free bytes; the output is compared byte for byte with an exhaustive evaluation written out in TREC format.",
               "a query id, key, rank or score in the output that exhaustive evaluation does not give, or one that is missing", deep)


def s02(tier):
    rep = Report("S02", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for n, (v, c, d, t, s) in enumerate(indexes(deep)):
        for mode, amounts in ((1, (0, 1, 2, 5, 9, 20, 40)), (2, (0, 1, 1100, 20, 50, 99, 1301, 1799)), (3, (0, 10, 1023, 50, 100, 300, 1150, 1607, 1799, 2001))):
            for a in amounts:
                n += 1
                if deep or n % 4 == 0:
                    jobs.append(job("search", [v, c, d, t, s, 3 + n % 9, n // 4 % 2, mode, a, 1]))
        jobs.append(job("search", [v, c, d, t, s, 1 + n % 12, 1, 0, 0, 1]))
    return run(rep, jobs, "Abstract interpretation of searches with a budget of postings (a number, a percentage of the query's postings, a percentage of the documents), and of scores that must be scaled down to fit.",
               "more postings processed than the budget, segments not taken in order of impact, results that are not those of the processed postings, or scaled scores out of proportion", deep)


def s03(tier):
    rep = Report("S03", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for n, (v, c, d, t, s) in enumerate(indexes(deep)):
        for threads in (1, 2, 3, 4, 7) if deep else (2, 3 + n % 3):
            for order in range(3):
                for mode, amount in ((0, 0), (2, 40), (4, 0)):
                    n += 1
                    if deep or n % 5 == 0:
                        jobs.append(job("threads", [v, c, d, t, s, 4, threads, order, mode, amount, 1 + n % 2, 0]))
    for v in (1, 2):
        for threads in (2, 3):
            for order in (1, 2):
                for preempt in range(1, 60 if deep else 25):
                    jobs.append(job("threads", [v, ord("s"), 10, 4, 2, 3, threads, order, 0, 0, 1, preempt]))
    return run(rep, jobs, "Abstract interpretation of searches shared out between threads. Threads are interpreted one after the other in three orders, and with one thread interrupted by another before each of its atomic operations; every pair of accesses to a byte, one of them a write, by threads that are "
               "neither ordered by creation and joining nor hold a common mutex, is looked for, so the absence of data races does not depend on the order interpreted.",
               "two accesses that race; an answer that differs from the one without threads; a query answered twice or not at all; a thread not waited for", deep)


def s04(tier):
    rep = Report("S04", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for n, (v, c, d, t, s) in enumerate(indexes(deep)):
        if c == ord("s") or deep:
            for k in (1, 2, 3, 5, 10, 40):
                for what in range(4):
                    jobs.append(job("oracle", [v, d, t, s, k, what]))
    return run(rep, jobs, "Abstract interpretation of searches with an oracle that says what the lowest score of the top k is: exactly, less, more, and more than a score can be.",
               "a document in the results that exhaustive evaluation would not put there, one that is listed twice, or fewer results than there are documents", deep)


def s05(tier):
    rep = Report("S05", "other", tier)
    jobs = [job("misuse", [v, w]) for v in (1, 2) for w in range(0, 60 if tier == "thorough" else 8)]
    return run(rep, jobs, "Abstract interpretation of the programming interface before an index is loaded, when loading fails, when it is loaded again, and on empty queries.",
               "a call that is not refused, or that leaves the engine in a state in which later calls go wrong", False)


def s06(tier):
    rep = Report("S06", "other", tier)
    deep = tier == "thorough"
    replace = dict(REPLACE, **{"std::type_info::operator==(": "verif_same_type", "exit": "verif_exit", "void std::_Destroy<std::__cxx11::basic_ostringstream<": "verif_nothing"})
    init = [INIT[0], "_GLOBAL__sub_I_h_tool", INIT[2]]
    collections = ((10, 4, 2), (20, 4, 3), (33, 5, 1)) if not deep else tuple((d, t, s) for d, t in ((7, 4), (10, 4), (20, 4), (33, 5), (60, 6)) for s in range(1, 5))
    modes = [(0, 0), (1, 1), (1, 9), (1, 40), (2, 20), (2, 50), (2, 1301), (3, 10), (3, 50), (3, 105), (3, 1844), (3, 300), (3, 1150), (4, 0), (5, 0), (5, 40), (5, 5000), (6, 30), (6, 1844), (7, 1), (7, 20)]
    def tool(*args):
        return dict(harness="verif_h_tool", args=list(args), replace=replace, init=init, where="anytime/JASS_anytime.cpp")
    jobs, n = [], 0
    for version in (1, 2):
        for documents, terms, seed in collections:
            for layout in range(7):
                for mode, amount in modes:
                    n += 1
                    r = n * 2654435761 >> 7
                    if deep or n % 8 == 0:
                        jobs.append(tool(version, documents, terms, seed, (10, 1, 3, 100)[r % 4], mode, amount, (r >> 3) % 16, layout, 1 + (r >> 8) % 3))
    for mode, amount in modes:
        jobs.append(tool(1 + amount % 2, 20, 4, 3, 100, mode, amount, amount % 16, 0, 1 + mode % 2))
    for version in (1, 2):
        jobs.append(tool(version, 10, 4, 2, 10, 0, 0, version, 7, 1))
    t = analyse(rep, ["h_tool.cpp"], jobs, extra=index.index_sources() + SOURCES + TOOL, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the whole search tool from main(): command lines with every option in the short and the long form, query files of every layout (a query a line, blank lines, carriage returns, no last end of "
          "line, TREC topics, nothing), and one to three threads; the ranking and the statistics written are compared with an exhaustive evaluation of each query under the options given.",
          "a query that is not answered, or answered without an option that was given; a result of one query given for another")
    return finish(rep)
