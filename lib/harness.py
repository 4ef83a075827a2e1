"""Harnesses: C++ drivers in /verif/harness that call the repository's code on free abstract values and state obligations.

They are compiled to IR together with the current sources and handed to the abstract interpreter (tool/absint.cpp); nothing is executed."""
from core import *
import codec, itertools

HDIR = os.path.join(VERIF, "harness")
HFLAGS = ["-include", os.path.join(HDIR, "verif_std.h")]


def h(name):
    return os.path.join(HDIR, name)


def judge(rep, arch, jobs, results, table, where=None):
    """every obligation of every job; a definite failure is a violation, an undetermined one is only recorded"""
    by = {j["id"]: j for j in jobs}
    for r in results:
        j = by[r["id"]]
        name = re.sub(r"^verif_h_", "", j["harness"])
        t = table.setdefault("%s (%s)" % (name, arch), {"jobs": 0, "discharged": 0, "undetermined": 0, "violated": 0})
        t["jobs"] += 1
        t["most_steps"] = max(t.get("most_steps", 0), r.get("steps", 0))
        label = "%s(%s)" % (name, ", ".join(str(a) for a in j.get("args", [])))
        rep.ok(r["ok"])
        t["discharged"] += r["ok"]
        for b in r["bad"]:
            if b["status"] == "violated":
                t["violated"] += 1
                rep.violate("%s:%s" % (name, slug(b["what"])), j.get("where") or where or "harness", "%s: %s, for %s on %s" % (b["what"], b["why"], label, arch))
            else:
                t["undetermined"] += 1
                rep.obligations += 1
                rep.note("undischarged: %s: %s %s" % (label, b["what"], b["why"]))
        st = r["status"]
        if st != "done":
            if st in ("oob-read", "oob-write", "threw", "bad-pointer", "bad-free", "exits", "use-after-free", "double-free", "bad-delete", "misaligned", "data-race", "deadlock", "endless", "uninitialised"):
                t["violated"] += 1
                m = re.search(r"((?:source|anytime|tools)/[\w./]+:\d+)", r.get("why", ""))
                rep.violate("%s:%s" % (name, st), m.group(1) if m else j.get("where") or where or "harness", "%s, for %s on %s" % (r.get("why", st), label, arch))
            else:
                t["undetermined"] += 1
                rep.obligations += 1
                rep.note("undischarged: %s %s: %s" % (label, st, r.get("why", "")))


def slug(s):
    return re.sub(r"[^a-z0-9]+", "-", s.lower()).strip("-")[:70]


def analyse(rep, files, jobs, archs=("AVX-512", "AVX2"), flags=(), extra=(), table=None, where=None, stubs="", empty=False):
    """compile the harness files (and the repository sources in extra), interpret the jobs, judge them"""
    table = {} if table is None else table
    for arch in archs:
        bc = bitcode([h(f) for f in files] + [p if p.startswith("/") else os.path.join(REPO, p) for p in extra], BASE_FLAGS + (ARCH if arch == "AVX-512" else ARCH_V3) + HFLAGS + list(flags))
        js = [dict(j, id=str(k)) for k, j in enumerate(jobs) if arch in j.get("archs", (arch,))]
        res, blocks = codec.run_jobs(bc, js, stubs=stubs)
        judge(rep, arch, js, res, table, where)
    for name, t in table.items():
        if not t["discharged"] and not t["violated"] and (t["undetermined"] or not empty):
            raise AnalysisError("%s: nothing could be decided about %s" % (rep.prop, name))
    return table


def cover(rep, table, explanation, rule, **more):
    rep.cover = dict({"explanation": explanation, "harnesses": table, "rule": rule}, **more)


# ---- V01: SIMD primitives
def v01(tier):
    rep = Report("V01", "other", tier)
    jobs = []
    w = "source/simd.h"
    full = range(0, 129) if tier == "thorough" else [0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128]
    both = ("AVX-512", "AVX2")
    for n in full:
        jobs.append(dict(harness="verif_h_cumulative_sum_256", args=[n]))
        jobs.append(dict(harness="verif_h_cumulative_sum_512", args=[n], archs=("AVX-512",)))
        if n <= 96:
            jobs.append(dict(harness="verif_h_d1", args=[n, 0], where="source/compress_integer.h"))
            jobs.append(dict(harness="verif_h_d1", args=[n, 1], where="source/compress_integer.h"))
    jobs.append(dict(harness="verif_h_cumulative_sum_register_256", args=[]))
    jobs.append(dict(harness="verif_h_cumulative_sum_register_512", args=[], archs=("AVX-512",)))
    for n in range(0, 11):
        jobs.append(dict(harness="verif_h_bzero64", args=[n]))
    strides = [1, 2, 3, 4, 5, 7, 8] if tier == "quick" else range(1, 10)
    for bits in (8, 16, 32):
        for b in range(0, 4):
            for s in strides:
                for r in (1, 3, 5, 7):
                    jobs.append(dict(harness="verif_h_gather_256_%d" % bits, args=[b, s, r]))
                    jobs.append(dict(harness="verif_h_scatter_256_%d" % bits, args=[b, s, r]))
                    if r < 4:
                        jobs.append(dict(harness="verif_h_scatter_128_%d" % bits, args=[b, s, r]))
                    jobs.append(dict(harness="verif_h_gather_512_%d" % bits, args=[b, s, r], archs=("AVX-512",)))
                    jobs.append(dict(harness="verif_h_scatter_512_%d" % bits, args=[b, s, r], archs=("AVX-512",)))
    t = analyse(rep, ["h_simd.cpp"], jobs, where=w)
    cover(rep, t, "Abstract interpretation of the SIMD primitives over free lane values: every result word must be the same function of the input words as its scalar definition.",
          "no definite difference between the SIMD result and the scalar definition, no access outside the arrays")
    return finish(rep)


# ---- V02: accumulators
def v02(tier):
    rep = Report("V02", "other", tier)
    deep = tier == "thorough"
    tables = {"accumulator_2d_8": "2d", "accumulator_2d_16": "2d", "accumulator_2d_64": "2d"}
    for e in ("8", "16"):
        for b in ("8", "4"):
            tables["accumulator_counter_%s_%s" % (e, b)] = "counter"
            tables["accumulator_counter_interleaved_%s_%s" % (e, b)] = "counter_interleaved"
    tables["accumulator_counter_interleaved_8_8_1"] = tables["accumulator_counter_interleaved_8_8_16"] = "counter_interleaved"
    t = {}
    for ids in (False, True):
        jobs = []
        for name, kind in sorted(tables.items()):
            if ids and kind != "2d":
                continue
            where = "source/accumulator_%s.h" % kind
            for docs in (range(1, 80) if deep else (1, 2, 7, 16, 21, 25, 33, 50)):
                for width in ((1, 2, 3, 4, 7) if kind == "2d" else (0,)):
                    for rew in ((0, 1, 2, 14, 15, 16, 17, 31) if deep else (0, 1, 14, 15)):
                        jobs.append(dict(harness="verif_h_" + name, args=[docs, width, rew, 1 + (docs + rew) % 3, docs % 2, 1 + docs % 3], where=where))
                jobs.append(dict(harness="verif_h_" + name, args=[docs, 0, 1, 1, 0, 1], where=where))
            for before, docs in ((10, 50), (50, 10), (33, 200), (200, 33), (64, 64)):
                for w0, w1 in ((1, 3), (3, 1), (2, 2)):
                    for held in (256, 0, 1, 2, 3, 4, 5, 6, 255):
                        jobs.append(dict(harness="verif_h_again_" + name, args=[before, w0, docs, w1, held], where=where))
            for rew in (range(236, 276) if deep else (253, 254, 255, 256, 257)):
                # a counter that wraps around: stale flags of every age
                jobs.append(dict(harness="verif_h_" + name, args=[23, 2, rew, 1 + rew % 5, 0, 1], where=where))
                jobs.append(dict(harness="verif_h_" + name, args=[9, 2, rew, 300, 0, 1], where=where))
        for v, archs in (("256_8", ("AVX-512", "AVX2")), ("256_16", ("AVX-512", "AVX2")), ("512_8", ("AVX-512",)), ("512_16", ("AVX-512",))):
            if ids and v.startswith("256"):
                archs = ("AVX2",)           # with query ids the AVX-512 build only ever uses the 512-bit access
            for docs in (range(17, 120, 3) if deep else (17, 40, 64, 100)):
                for width in (1, 2, 3, 5):
                    for start, step in ((0, 1), (3, 2), (1, 7), (5, 5), (0, docs // 2 + 1), (2, 3)):
                        for used in (0, 1, 3, 10):
                            for rew in (0, 2):
                                if not docs % step == 0 or step == 1:
                                    jobs.append(dict(harness="verif_h_vector_" + v, args=[docs, width, rew, start, step, used], archs=archs, where="source/accumulator_2d.h"))
        analyse(rep, ["h_accumulator.cpp"], jobs, flags=["-DUSE_QUERY_IDS"] if ids else [], table=t)
    cover(rep, t, "Abstract interpretation of every accumulator table on memory with arbitrary contents: earlier queries write arbitrary values, and the values read in this query must be zero or exactly what this query wrote.",
          "a read that is not zero before the first write of a query, or is not the value written, for some contents; an access outside the table")
    return finish(rep)


# ---- V03: top-k
QUIET = {"JASS::query_term_list::query_term_list": "verif_nothing", "JASS::query_term_list::~query_term_list": "verif_nothing"}


def weak_orders(n):
    return [r for r in itertools.product(range(1, n + 1), repeat=n) if set(r) == set(range(1, max(r) + 1))]


def rising(docs, ranks):
    """the running totals of each document only grow"""
    last = {}
    for d, x in zip(docs, ranks):
        if last.get(d, 0) >= x:
            return False
        last[d] = x
    return True


def pack(v):
    return sum(x << (4 * i) for i, x in enumerate(v))


def topk_jobs(documents, postings, oracle, step, at=0):
    """every way to give the running totals of `postings` postings on `documents` documents an order; with oracle: every place of the guess among them"""
    jobs = []
    n = at
    orders = weak_orders(postings + (1 if oracle else 0))
    for docs in itertools.product(range(documents), repeat=postings):
        for r in orders:
            bound = 0
            if oracle:
                r, bound = r[:-1], r[-1]
                if bound == 1:          # a guess is at least 2
                    r, bound = tuple(x + 1 for x in r), 2
            if not rising(docs, r):
                continue
            for k in range(1, documents + 1):
                n += 1
                if n % step:
                    continue
                jobs.append(dict(harness="verif_h_query_heap_clean", args=[documents, k, postings, pack(docs), pack(r), n // step % 3 % 2, bound], replace=QUIET, where="source/query_heap_clean.h"))
                if not oracle:
                    jobs.append(dict(harness="verif_h_query_heap", args=[documents, k, postings, pack(docs), pack(r), n // step % 3 % 2], replace=QUIET, where="source/query_heap.h"))
    return jobs


TOPK_SOURCES = ["source/%s.cpp" % s for s in ("allocator_pool", "allocator_memory", "parser_query", "compress_integer", "top_k_qsort", "compress_integer_variable_byte",
                "compress_integer_elias_gamma_simd_vb", "compress_integer_elias_gamma_simd", "compress_integer_none", "compress_integer_simple_8b")]


def v03(tier):
    rep = Report("V03", "other", tier)
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = {}
    jobs = []
    for d, p in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (3, 4)):
        for oracle in (False, True):
            jobs += topk_jobs(d, p, oracle, 1 if deep or p < 4 else 5, seed)
    if deep:
        jobs += topk_jobs(3, 5, False, 13, seed) + topk_jobs(4, 5, False, 61, seed) + topk_jobs(3, 5, True, 101, seed)
    for n in range(0, 6):
        for w in range(0, max(1, n ** n), 1 if deep or n < 5 else 11):
            for k in range(0, n + 1):
                jobs.append(dict(harness="verif_h_top_k_qsort", args=[n, w, 1, k], where="source/top_k_qsort.h"))
                if k:
                    jobs.append(dict(harness="verif_h_heap", args=[n, w, 1, k], where="source/heap.h"))
                    jobs.append(dict(harness="verif_h_top_k_heap", args=[n, w, 1, k], where="source/top_k_heap.h"))
    for n in ((7, 8, 9, 12, 16, 25, 39, 40, 41, 48, 64, 100) if deep else (7, 8, 12, 40, 41, 50)):
        for w in range(0, 40 if deep else 10):
            for distinct in (2, 3, n):
                for k in (1, 3, n):
                    jobs.append(dict(harness="verif_h_top_k_qsort", args=[n, w, distinct, k], where="source/top_k_qsort.h"))
                if n < 13:
                    for k in (1, 2, 4, n - 1):
                        jobs.append(dict(harness="verif_h_heap", args=[n, w, distinct, k], where="source/heap.h"))
                        jobs.append(dict(harness="verif_h_top_k_heap", args=[n, w, distinct, k], where="source/top_k_heap.h"))
    for n in range(1, 16 if deep else 11):
        for s in range(0, 12 if deep else 6):
            for at in range(0, n, 1 if deep or n < 6 else 2):
                for becomes in range(1, 2 * n + 2, 2):
                    for how in range(0, 3):
                        if deep or (n + s + at + becomes + how) % 3 == 0:
                            jobs.append(dict(harness="verif_h_beap", args=[n, s, at, becomes, how], where="source/beap.h"))
    for codec_name in ("variable_byte", "elias_gamma_simd_vb", "none", "simple_8b"):
        for n in (range(1, 70) if deep else (1, 2, 3, 4, 5, 8, 15, 16, 17, 20, 31, 32, 33, 48)):
            for s in range(0, 9 if deep else 3):
                jobs.append(dict(harness="verif_h_segments_" + codec_name, args=[150, 150, n, s, (0, 2, 3)[s % 3], n % 2], replace=QUIET, where="source/query_heap_clean.h"))
                jobs.append(dict(harness="verif_h_segments_" + codec_name, args=[40, 5, n, s, (0, 2, 1)[s % 3], 1], replace=QUIET, where="source/query_heap_clean.h"))
                jobs.append(dict(harness="verif_h_exported_" + codec_name, args=[100, n, s], replace=QUIET, where="source/query_heap_clean.h"))
    analyse(rep, ["h_topk.cpp"], jobs, archs=("AVX-512",), extra=TOPK_SOURCES, table=t)
    analyse(rep, ["h_topk.cpp"], jobs if deep else [j for j in jobs if "segments" in j["harness"] or "exported" in j["harness"]] + jobs[::23], archs=("AVX2",), extra=TOPK_SOURCES, table=t)
    other = [j for j in jobs if j["harness"] == "verif_h_query_heap"]
    for flag in ("-DACCUMULATOR_64s", "-DACCUMULATOR_POINTER_BEAP", "-DPRE_SIMD"):
        sub = {}
        archs = ("AVX-512",)
        analyse(rep, ["h_topk.cpp"], other if deep else other[::9], archs=archs, flags=[flag], extra=TOPK_SOURCES, table=sub)
        for name, row in sub.items():
            t["%s %s" % (name, flag)] = row
    cover(rep, t, "Abstract interpretation of query processing on free scores: only the order of the documents' running totals (and of an oracle's guess) is fixed, one weak order per job, and every weak "
          "order of up to the stated number of postings is enumerated, so the results hold for all scores. The list that comes out must be the k best of exhaustive evaluation, ordered on score then document id.",
          "a result that is missing, extra, out of place, or carries another score or key than exhaustive evaluation gives, for the order of totals in the job")
    return finish(rep)
