"""Properties about the tools: their command lines (L01)."""
from core import *
from harness import analyse, cover, QUIET
import runtime

REPLACE = dict(QUIET, **runtime.STREAMS, **{"std::type_info::operator==(": "verif_same_type"})
TOOLS = [("anytime/JASS_anytime.cpp", "parameters"), ("tools/JASS_index.cpp", "command_line_parameters"), ("tools/JASS_eval.cpp", "parameters"), ("tools/JASSv1_to_human.cpp", "parameters")]


def l01(tier):
    rep = Report("L01", "other", tier)
    t = {}
    for tool, name in TOOLS:
        jobs = [dict(harness="verif_h_switch", args=[w, l, j, v, f]) for w in range(20) for l in (0, 1) for j in (0, 1) for v in range(9) for f in (0, 1)]
        jobs += [dict(harness="verif_h_switch_missing", args=[w, l]) for w in range(20) for l in (0, 1)] + [dict(harness="verif_h_switch_unknown", args=[w]) for w in range(8)]
        for j in jobs:
            j.update(replace=REPLACE, init=["_GLOBAL__sub_I_h_switches.cpp"], where=tool)
        got = analyse(rep, ["h_switches.cpp"], jobs, archs=("AVX-512",), flags=['-DTOOL="%s"' % os.path.join(REPO, tool), "-DTABLE=" + name, "-I" + os.path.join(REPO, "anytime"), "-I" + os.path.join(REPO, "tools")], empty=True)
        t.update({"%s: %s" % (tool, k): v for k, v in got.items()})
    cover(rep, t, "Abstract interpretation of the command line parser on the table of switches of each tool, as it is in the source: every switch, by either name, with its value separate or joined, without its value, and what is not a switch.",
          "a switch that does not set its own option to the value given, that sets another, or that is accepted without the value it needs")
    return finish(rep)
