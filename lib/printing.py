"""Properties about what is printed and exported (X02)."""
from core import *
from harness import analyse, cover, QUIET
from index import index_sources, WHOLE
import runtime

REPLACE = dict(WHOLE, **runtime.STREAMS, **{"std::type_info::operator==(": "verif_same_type", "void std::_Destroy<std::__cxx11::basic_ostringstream<": "verif_nothing", "sprintf": "verif_sprintf", "snprintf": "verif_snprintf", "JASS::deserialised_jass_v1::read_index(": "verif_read_index"})
INIT = ["_GLOBAL__sub_I_compress_integer_all.cpp", "_GLOBAL__sub_I_h_print"]
MORE = ["source/serialise_ci.cpp", "source/serialise_integers.cpp", "source/serialise_forward_index.cpp"]


def x02(tier):
    rep = Report("X02", "other", tier)
    deep = tier == "thorough"
    jobs = []
    for version in (1, 2):
        for letter in "sgGD":
            for terms in (1, 2, 3, 5, 8):
                for seed in range(1, 10 if deep else 4):
                    n = terms + seed + ord(letter)
                    jobs.append(dict(harness="verif_h_print", args=[version, ord(letter), terms, seed, (1, 2, 9, 17, 40)[n % 5], (1, 3, 10)[n % 3], (0, 0, 1, 2, 3)[n % 5]], where="tools/JASSv1_to_human.cpp"))
    for format, where in enumerate(("forward_index", "integers", "ci")):
        for terms in (0, 1, 2, 3, 5, 8):
            for seed in range(1, 20 if deep else 6):
                jobs.append(dict(harness="verif_h_export", args=[format, terms, seed, (1, 2, 9, 17, 40)[(terms + seed) % 5], (1, 3, 10)[(terms + seed) % 3]], where="source/serialise_%s.cpp" % where))
    for j in jobs:
        j.update(replace=REPLACE, init=INIT)
    t = analyse(rep, ["h_print.cpp"], jobs, extra=index_sources() + MORE, archs=("AVX-512",), flags=["-I" + os.path.join(REPO, "tools")])
    cover(rep, t, "Abstract interpretation of the index printer's main function, and of the forward, integer and compiled exporters, on indexes written by the real serialisers into memory: every byte that comes out is compared with the postings that went in.",
          "a posting, impact, document number or primary key printed or exported wrongly, lost or made up; an access outside memory")
    return finish(rep)
