"""C01-C03: every codec, by abstract interpretation of its encoder and decoder (tool/absint.cpp).

The domain tracks, for every bit of every value, whether it is 0, 1, 'bit b of input integer k' (possibly complemented) or unknown.
One job fixes only the *widths* of the integers in the list (the position of each integer's highest set bit); everything below the highest
bit stays a free symbol.  A discharged job therefore covers every list with that width profile: the decoder provably returns, bit for bit,
the provenance symbols the encoder was given, and no load or store leaves the objects it was given."""
import glob, json, os, random, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from core import *

CODECS = ("none carry_8b simple_9 simple_8b simple_16 bitpack_64 elias_gamma elias_delta bitpack_128 bitpack_256 qmx_jass_v1 relative_10 "
          "carryover_12 variable_byte qmx_improved qmx_original stream_vbyte simple_9_packed elias_delta_simd simple_16_packed simple_8b_packed "
          "elias_gamma_simd bitpack_32_reduced elias_gamma_bitwise elias_delta_bitwise elias_gamma_simd_vb lyck_16 nybble_8").split()
WORD = [c for c in CODECS if c.startswith(("simple", "carry", "relative", "lyck", "bitpack"))]
BYTE = [c for c in CODECS if c not in WORD]
# the widest integer each codec documents that it stores; a wider one has to be refused
MAXW = dict(lyck_16=16, nybble_8=8, simple_9=28, simple_16=28, simple_9_packed=28, simple_16_packed=28, relative_10=28, carryover_12=28)
STUBS = "JASS::query::query|JASS::query_heap|JASS::query_maxblock|JASS::query_bucket"
DECODE_SLACK = 64 * 64              # query.h: "we add 64 so that decompressors can overflow" (64 SIMD words)


def absint():
    return build_tool("absint")


def sources():
    s = sorted(p for p in glob.glob(os.path.join(REPO, "source", "compress_integer*.cpp")) if not p.endswith("_all.cpp"))
    return [os.path.join(VERIF, "tool", "codecs.cpp")] + s


def profiles(name, tier, rnd):
    W = MAXW.get(name, 32)
    slow = "bitwise" in name
    out = []
    lens = [1, 2, 3, 7, 16] if slow else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 24, 27, 28, 29, 30, 31, 32, 33, 36, 40, 57, 58, 59, 60, 61, 63, 64, 65, 96, 100, 120, 128, 129, 180, 240, 256, 257, 300]
    for w in range(1, W + 1):
        for n in lens:
            out.append([w] * n)
    if slow:
        for w in range(1, W + 1):
            out.append([w, 1, W, w, 3])
        for _ in range(40 if tier == "quick" else 200):
            out.append([rnd.randint(1, W) for _ in range(rnd.choice([3, 6, 12]))])
        return out
    # the extremes of each width, which decide every comparison with a power of two
    for w in range(1, W + 1):
        for e in (100, 200):
            for n in (1, 2, 9, 70):
                out.append([w + e] * n)
            out.append([rnd.choice([w + e, w, rnd.randint(1, W) + 100, rnd.randint(1, W) + 200]) for _ in range(40)])
    # two runs of different widths, the boundary sweeping over the codeword sizes
    ws = sorted(set([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 19, 20, 21, 24, 28, W]) & set(range(1, W + 1)))
    for a in ws:
        for b in ws:
            if a != b:
                out.append([a] * rnd.choice([1, 2, 3, 5, 8, 16, 29, 64]) + [b] * rnd.choice([1, 2, 3, 5, 8, 16, 29, 64]))
                out.append([a] * rnd.choice([3, 7, 15, 28, 60]) + [b] * rnd.choice([4, 9, 20, 61]) + [a] * rnd.choice([1, 2, 30]))
    # one wide integer among narrow ones, at every position of the first codewords
    for p in range(0, 40):
        for lo in (1, 3, 7):
            if lo < W:
                row = [lo] * 45
                row[p] = W if p % 2 else min(W, lo + 1 + p % 9)
                out.append(row)
    # staircases
    out.append([w for w in range(1, W + 1)])
    out.append([w for w in range(W, 0, -1)])
    out.append([w for w in range(1, W + 1) for _ in range(4)])
    out.append([w for w in range(W, 0, -1) for _ in range(17)])
    if name.startswith(("qmx", "elias_gamma_simd", "elias_delta_simd", "bitpack_256", "bitpack_128")):
        per = {1: 128, 2: 64, 3: 40, 4: 32, 5: 24, 6: 20, 7: 36, 8: 16, 9: 28, 10: 12, 12: 20, 16: 8, 21: 12, 32: 4}
        for w in range(1, W + 1):
            k = next(v for b, v in sorted(per.items()) if b >= w)
            for reps in ((2, 5, 9, 15, 16, 17) if tier == "quick" else range(1, 20)):
                out.append([w] * (k * reps + rnd.choice([0, 0, 1, 4, 9])))
    def mixed():
        n = rnd.choice([5, 12, 30, 61, 70, 130, 200, 400])
        mode = rnd.randrange(4)
        row = []
        if mode == 0:
            row = [rnd.randint(1, W) for _ in range(n)]
        elif mode == 1:
            while len(row) < n:
                row += [rnd.randint(1, W)] * rnd.choice([1, 2, 3, 5, 8, 16, 33, 64])
        elif mode == 2:
            m = rnd.randint(1, W)
            row = [rnd.randint(1, m) for _ in range(n)]
        else:
            m = rnd.randint(1, W)
            row = [rnd.randint(max(1, m - 2), m) for _ in range(n)]
            if rnd.random() < .5:
                row[rnd.randrange(n)] = rnd.randint(1, W)
        return row[:n]
    for _ in range(150 if tier == "quick" else 3000):
        out.append(mixed())
    return out


def wide_profiles(name):
    """integers the codec cannot store: they have to be refused or to survive"""
    W = MAXW.get(name, 32)
    out = []
    for w in range(W + 1, 33):
        for n in (1, 2, 5, 28, 29, 33, 64):
            out.append([w] * n)
            for p in {0, 1, n // 2, n - 1}:
                if p < n:
                    row = [1] * n
                    row[p] = w
                    out.append(row)
                    row = [min(W, 7)] * n
                    row[p] = w
                    out.append(row)
    return out


DECIDED = ("ok", "done", "refused", "mismatch", "oob-read", "oob-write", "overlong", "threw", "bad-pointer", "bad-free", "exits", "use-after-free", "double-free", "bad-delete", "misaligned", "data-race", "deadlock", "endless", "uninitialised")


def undetermined(r):
    return r["status"] not in DECIDED or any(b["status"] != "violated" for b in r.get("bad", ()))


def refuted(r):
    return r["status"] in DECIDED and r["status"] not in ("ok", "done", "refused") or any(b["status"] == "violated" for b in r.get("bad", ()))


def run_jobs(bc, jobs, par=8, stubs=STUBS, most=240):
    """interpret the jobs; those that stay undetermined are refined: their abstract input is narrowed to single points (all free bits 0, all 1, some 0 and some 1),
    where a failure is definite.  Nothing is discharged this way: an undetermined obligation that no point refutes stays undetermined."""
    if os.environ.get("VERIF_PIN"):                 # a development aid: every job at one point of its abstract input
        jobs = [dict(j, pin=int(os.environ["VERIF_PIN"])) for j in jobs]
    results, blocks = run_jobs_once(bc, jobs, par, stubs)
    open_ = [r for r in results if undetermined(r) and not refuted(r)]
    if open_:
        by = {j["id"]: j for j in jobs}
        step = max(1, len(open_) * 4 // most)
        again = [dict(by[r["id"]], id="%s@%d" % (r["id"], p), pin=p) for r in open_[::step] for p in (1, 2, 3, 4)]
        more, _ = run_jobs_once(bc, again, par, stubs)
        found = {}
        for m in more:
            if refuted(m):
                found.setdefault(m["id"].rsplit("@", 1)[0], m)
        for k, r in enumerate(results):
            if r["id"] in found:
                m = found[r["id"]]
                results[k] = dict(m, id=r["id"], ok=r.get("ok", 0), bad=[b for b in m.get("bad", ()) if b["status"] == "violated"])
    return results, blocks


def run_jobs_once(bc, jobs, par=8, stubs=STUBS):
    """absint over the jobs, shared out between 8 processes -> (results, merged block coverage)"""
    work = tempfile.mkdtemp(prefix="absint", dir=BUILD)
    try:
        a, b = os.path.join(work, "j"), os.path.join(work, "o")
        with open(a, "w") as f:
            json.dump(jobs, f)
        rc, o, e = sh([absint(), bc, a, b, stubs, str(par)])
        if os.environ.get("ABSINT_TRACE"):
            print(e[-3000:])
        if rc:
            raise AnalysisError("absint failed: rc=%d %s" % (rc, e[-500:]))
        results, blocks = [], {}
        for k in range(par):
            with open(b + ".%d" % k) as f:
                r = json.load(f)
            results += r["results"]
            for fn, e in r["blocks"].items():
                if "unittest" in fn:
                    continue
                cur = blocks.setdefault(fn, {"blocks": e["blocks"], "missing": None})
                miss = set(e["uncovered_lines"])
                cur["missing"] = miss if cur["missing"] is None else cur["missing"] & miss
        return results, blocks
    finally:
        shutil.rmtree(work, ignore_errors=True)


def sweep(bc, per_codec):
    """per_codec: {name: [job]} -> {name: (results, blocks)}"""
    jobs = []
    for name, js in per_codec.items():
        for j in js:
            jobs.append(dict(j, id=name + "/" + j["id"], ctor="verif_ctor_" + name, encode="verif_encode_" + name, decode="verif_decode_" + name, size_of="verif_size_" + name, dslack=DECODE_SLACK))
    jobs.sort(key=lambda j: -len(j["widths"]) * (50 if "bitwise" in j["id"] else 1))
    results, blocks = run_jobs(bc, jobs)
    out = {n: ([], blocks) for n in per_codec}
    for r in results:
        name, r["id"] = r["id"].split("/", 1)
        out[name][0].append(r)
    return out


def show(row):
    """a width profile, run-length encoded"""
    out = []
    for w in row:
        w = w if w < 100 else "2^%d" % (w - 101) if w < 200 else "2^%d-1" % (w - 200)
        if out and out[-1][0] == w:
            out[-1][1] += 1
        else:
            out.append([w, 1])
    s = " ".join("%dx%s" % (n, w) if n > 1 else str(w) for w, n in out)
    return s if len(s) < 200 else s[:200] + "..."


def first_codeword_holds(row):
    """Carry-8b's 57-bit first codeword holds the whole list: the case its own unit test expects to be refused (known finding)"""
    return any(len(row) <= n and max(x % 100 for x in row) <= w for n, w in ((57, 1), (28, 2), (19, 3), (14, 4), (11, 5), (9, 6), (8, 7), (7, 8), (6, 9), (5, 11), (4, 14), (3, 19), (2, 28), (1, 57)))


def judge_roundtrip(rep, name, arch, jobs, results, W):
    rows = {j["id"]: j for j in jobs}
    tally = {}
    for r in sorted(results, key=lambda r: len(rows[r["id"]]["widths"])):
        j = rows[r["id"]]
        st = r["status"]
        tally[st] = tally.get(st, 0) + 1
        wide = max(w % 100 for w in j["widths"]) > W
        if st == "ok" or (st == "refused" and wide):
            rep.ok()
        elif st == "refused":
            key = "%s:refuses" % name
            if name == "carry_8b" and first_codeword_holds(j["widths"]):
                key = "carry_8b:refuses-what-fits-in-its-first-codeword"
            rep.violate(key, where_of(r, name), "%s encoder refuses a list it has to store: bit widths [%s] (%s)" % (name, show(j["widths"]), arch))
        elif st in ("mismatch", "oob-read", "oob-write", "overlong", "threw", "misaligned", "endless", "uninitialised"):
            rep.violate("%s:%s" % (name, st), where_of(r, name), "%s: %s, for the list whose integers have bit widths [%s] (%s)" % (name, r.get("why", st), show(j["widths"]), arch))
        else:
            rep.obligations += 1
            rep.note("undischarged: %s [%s] %s: %s" % (name, show(j["widths"]), st, r.get("why", "")))
    return tally


def where_of(r, name):
    m = re.search(r"(source/[\w./]+:\d+)", r.get("why", ""))
    return m.group(1) if m else "source/compress_integer_%s.cpp" % name


def roundtrip(prop, tier, names):
    rep = Report(prop, "other", tier)
    seed = os.environ.get("VERIF_SEED", "1")
    table = {}
    total = 0
    for arch, flags in (("AVX-512", ARCH), ("AVX2", ARCH_V3)):
        bc = bitcode(sources(), BASE_FLAGS + flags)
        per = {}
        for name in names:
            rnd = random.Random("%s/%s" % (name, seed))
            ps = profiles(name, tier, rnd) + wide_profiles(name)
            if arch == "AVX2" and tier == "quick":
                ps = ps[::3]
            per[name] = [dict(id=str(k), widths=row, capacity=len(row) * 16 + 4096) for k, row in enumerate(ps)]
        res = sweep(bc, per)
        for name in names:
            t = judge_roundtrip(rep, name, arch, per[name], res[name][0], MAXW.get(name, 32))
            total += len(per[name])
            blocks = {fn: {"blocks": e["blocks"], "blocks_never_reached_at_lines": sorted(x for x in e["missing"] if x)} for fn, e in res[name][1].items()
                      if re.search(r"::(encode|decode|pack|write_out|decodeArray)", fn) and "compress_integer_" + name in fn}
            table["%s (%s)" % (name, arch)] = {"width_profiles": len(per[name]), "outcome": t, "functions": blocks}
            rep.need("discharged profiles of " + name, t.get("ok", 0), 20)
    rep.cover = {"explanation": "Abstract interpretation of every codec's encode() and decode() over LLVM IR with a bit-provenance domain. Each width profile fixes the position of the "
                 "highest set bit of each integer and leaves all lower bits symbolic, so one profile stands for every list of integers with those widths. Discharged: decode(encode(list)) returns "
                 "exactly the provenance of list, within the encoded bytes plus padding and the decode slack that query.h allocates.", "profiles": total, "codecs": table,
                 "rule": "status must be ok for lists of positive integers no wider than the codec's documented width; refused or ok for wider ones",
                 "architectures": ["x86-64-v4 (AVX-512 path)", "x86-64-v3 (AVX2 path)"]}
    return finish(rep)


def c01(tier):
    return roundtrip("C01", tier, WORD)


def c02(tier):
    return roundtrip("C02", tier, BYTE)


def c03(tier):
    rep = Report("C03", "other", tier)
    seed = os.environ.get("VERIF_SEED", "1")
    table = {}
    bc = bitcode(sources(), BASE_FLAGS + ARCH)
    per = {}
    for name in CODECS:
        rnd = random.Random("cap/%s/%s" % (name, seed))
        W = MAXW.get(name, 32)
        jobs = []
        slow = "bitwise" in name
        rows = [([w] * n) for w in sorted({1, 3, 8, 9, 17, W} & set(range(1, W + 1))) for n in ((1, 2, 4) if slow else (1, 2, 5, 33, 70))]
        for _ in range(4 if slow else 12):
            rows.append([rnd.randint(1, W) for _ in range(rnd.choice([3, 4] if slow else [3, 10, 40, 90]))])
        for w in sorted({1, 2, 7, 8, 14, 15, 16, 21, 22, 24, 28, 29, 32, W} & set(range(1, W + 1))):
            rows.append([w + 100] * 2)
            rows.append([w + 200])
        if not slow:
            rows.append([1] * 300)
            rows.append([min(W, 5)] * 200 + [W] * 3)
        for row in rows:
            n = len(row)
            if tier == "thorough":
                caps = range(0, min(5 * n + 300, 1300))
            elif slow:
                caps = list(range(0, 5 * n + 12)) + [64, 200]
            else:
                caps = list(range(0, min(5 * n + 30, 90), 1 if n < 6 else 2)) + list(range(90, min(5 * n + 200, 420), 5))
            for cap in caps:
                jobs.append(dict(widths=row, capacity=cap))
        for k, j in enumerate(jobs):
            j["id"] = str(k)
        per[name] = jobs
    res = sweep(bc, per)
    for name in CODECS:
        rows = {j["id"]: j for j in per[name]}
        tally = {}
        for r in sorted(res[name][0], key=lambda r: (len(rows[r["id"]]["widths"]), rows[r["id"]]["capacity"])):
            j = rows[r["id"]]
            st = r["status"]
            tally[st] = tally.get(st, 0) + 1
            if st in ("ok", "refused"):
                rep.ok()
            elif st in ("oob-write", "oob-read", "overlong", "mismatch", "threw", "misaligned", "endless", "uninitialised"):
                rep.violate("%s:%s" % (name, st), where_of(r, name), "%s: with a destination of %d byte(s) and integers of widths [%s]: %s" % (name, j["capacity"], show(j["widths"]), r.get("why", st)))
            else:
                rep.obligations += 1
                rep.note("undischarged: %s cap %d [%s] %s: %s" % (name, j["capacity"], show(j["widths"]), st, r.get("why", "")))
        table[name] = {"capacity_and_profile_pairs": len(per[name]), "outcome": tally}
        rep.need("capacities at which %s refuses or fits" % name, len(tally), 1)
    rep.cover = {"explanation": "Abstract interpretation of every encoder for each (destination size, width profile) pair: every store is checked against the bounds of the destination object, and what is "
                 "returned as a success is decoded again and compared with the input's provenance, so a silently shortened encoding is a mismatch.", "codecs": table,
                 "rule": "no load or store outside the given objects; return 0, or a length within the destination whose decoding is the input"}
    return finish(rep)
