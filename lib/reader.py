"""Properties about reading collections (R01, R02)."""
from core import *
from harness import analyse, cover, QUIET
import runtime

READERS = ["source/%s.cpp" % s for s in ("instream_document_trec", "instream_document_fasta", "instream_document_warc", "instream_document_unicoil_json", "instream_memory", "allocator_pool", "allocator_memory")]
RESIZE = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::resize(unsigned long)"
REPLACE = dict(QUIET, **runtime.STREAMS)


def job(harness, args, where):
    return dict(harness="verif_h_" + harness, args=args, replace=REPLACE, where="source/%s.cpp" % where)


def r01(tier):
    rep = Report("R01", "other", tier)
    deep = tier == "thorough"
    jobs = []
    big = 1 << 30
    for n in (0, 1, 2, 3, 5, 8) + ((13, 21) if deep else ()):
        for seed in range(1, 40 if deep else 9):
            for size, block in ((16, big), (31, big), (64, big), (200, big), (1000, big), (4000, big), (64, 1), (100, 7), (500, 40)) if not deep else [(s, b) for s in (16, 17, 20, 31, 32, 64, 100, 128, 200, 333, 1000, 4000) for b in (1, 7, 40, big)]:
                if not deep and (seed + size + n) % 3:
                    continue
                jobs.append(job("tagged", [0, n, seed, size, block], "instream_document_trec"))
                jobs.append(job("tagged", [1, n, seed, size, block], "instream_document_trec"))
                jobs.append(job("fasta", [n, seed, size, block], "instream_document_fasta"))
    for a in range(6):
        for b in range(6):
            for c in range(6):
                jobs.append(job("tag_pieces", [a, b, c, 16 + (a * 3 + b * 5 + c) % 24, (big, 5)[(a + b + c) % 2]], "instream_document_trec"))
    t = analyse(rep, ["h_reader.cpp"], jobs, extra=READERS, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the TREC, HTML and FASTA readers on collections made of tags, broken tags, white space and free letters, with buffers smaller and larger than a document and sources that deliver any number of bytes at a time.",
          "a document or primary key that is not, byte for byte, what the collection has; a document lost, repeated or made up; an access outside the buffer; reading that does not end")
    return finish(rep)


def r02(tier):
    rep = Report("R02", "other", tier)
    deep = tier == "thorough"
    jobs = []
    big = 1 << 30
    for n in (0, 1, 2, 3, 5, 8) + ((13, 18) if deep else ()):
        for seed in range(1, 60 if deep else 13):
            for block in (big, 1, 7, 40):
                for crlf in (0, 1):
                    for line in (32, 33, 64, 200):
                        if deep or (seed + line + block + n) % 3 == 0:
                            jobs.append(job("warc", [n, seed, line, block, crlf], "instream_document_warc"))
                for size in (64, 100, 150, 300, 1000):
                    if n and (deep or (seed + size + block) % 2 == 0):
                        jobs.append(job("unicoil", [n, seed, size, block], "instream_document_unicoil_json"))
    for bytes in (10, 49):
        jobs.append(job("warc_content", [bytes], "instream_document_warc"))
    for j in jobs:
        j["init"] = ["_GLOBAL__sub_I_instream_document_warc"]
        j["replace"] = dict(REPLACE, **{RESIZE: "verif_resize", "strchr": "verif_strchr"})
    t = analyse(rep, ["h_reader.cpp"], jobs, extra=READERS, archs=("AVX-512",))
    cover(rep, t, "Abstract interpretation of the WARC and uniCOIL readers on collections with free letters, header lines around the length of what they are read into, both ends of line, truncation, buffers smaller and larger than a document and sources that deliver any number of bytes at a time.",
          "a document or primary key that is not, byte for byte, what the collection has; a document lost, repeated or made up; an access outside the buffer; reading that does not end")
    return finish(rep)
