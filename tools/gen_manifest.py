"""Source of /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = ("TLA+ (ParamStore.tla): exhaustive TLC design models; their behaviours replayed on the code, and TLC validation of traces "
         "recorded from the code")
STORE_NOTE = ("Exhaustive only within the bounds of the design models (MC_Store: 3-4 views, 2-3 writes on trees of 3-4 names; MC_Views: "
              "2-3 views, 3-4 operations); beyond, every recorded random history is decided by TLC. Trusts TLC, the rational arithmetic "
              "override, and that the driver records what the public interface returned.")
CLAIMS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    CLAIMS[p] = (STORE, STORE_NOTE)
for p in ("C09", "C10"):
    CLAIMS[p] = ("TLA+ (TimeConv.tla): conversion laws on all small cases by TLC (MC_Conv), cases replayed on the code, TLC validation of "
                 "recorded conversions",
                 "The laws are exhaustive for grids of three steps and small integer values; recorded conversions on random grids are each "
                 "compared with the exact rational result (relative tolerance 1e-9). Trusts TLC and the arithmetic override.")
CLAIMS["C11"] = ("TLA+ (Units.tla): unit algebra over the whole catalogue of names by TLC (MC_Units), every pair replayed on the code, "
                 "TLC validation of recorded conversions",
                 "All documented names, aliases, upper-case and joint spellings are converted against their base and a set of other units "
                 "(thorough: all pairs); compound units are sampled. The specification holds its own table of factors. Trusts TLC.")
CLAIMS["C12"] = ("TLA+ (Metrics.tla): registry of contexts explored by TLC (MC_Contexts), every history and table entry replayed on the code, "
                 "TLC validation of recorded conversions",
                 "Every table entry in every unit form is replayed; histories of conversions with and without contexts are exhaustive to "
                 "length 2 (thorough: 3) over a menu of 12 and sampled beyond. The specification holds its own copy of the metric table.")
DICE_T = ("TLA+ (Dice.tla on ParamStore.tla): models explored by TLC (MC_Dice), their behaviours replayed on the code, and TLC "
          "validation of recorded sessions with models")
DICE_N = ("Exhaustive for two models of the same inputs, three time steps and 5-7 operations; random sessions with any inputs, units, "
          "periods and grids are each decided by TLC on exact arithmetic (relative tolerance 1e-9). Trusts TLC and its overrides.")
CLAIMS["C13"] = ("TLA+ (Adapter.tla): all call sequences with failing hooks by TLC (MC_Adapter), replayed on the code, and TLC "
                 "validation of recorded hook calls",
                 "Exhaustive for one adapter and 6-7 calls in the order the protocol asks of the caller, each hook failing at any time; longer "
                 "sessions with several adapters are sampled. Hooks are observed by wrapping the documented methods of the adapter class.")
CLAIMS["C14"] = CLAIMS["C15"] = (DICE_T, DICE_N)
CLAIMS["C26"] = ("TLA+ (Calendar.tla): the calendar walked day by day by TLC (MC_Calendar), and TLC validation of recorded "
                 "normalisations of time points",
                 "The calendar formulas are exhaustive over the years walked (thorough: 0001-9999); representations and values are sampled, "
                 "with weight on edges of years, months and ranges. Time zones other than UTC are not covered.")
CLAIMS["C27"] = ("TLA+ (Calendar.tla): all grids over the spans of MC_Calendar checked against the definition of boundaries by TLC, "
                 "replayed on the code, and TLC validation of recorded grids",
                 "Exhaustive for the rules and days of MC_Calendar; random rules, dates (years 8-9600), times of day and spans beyond. "
                 "Month, quarter, year and week rules; ticks and semi-months are not covered.")
FRAME_T = ("TLA+ (Frame.tla): laws of the operations on every frame of a small universe by TLC (MC_Frame), its histories replayed on "
           "the code, and TLC validation of recorded sequences of operations on data frames")
FRAME_N = {
    "C16": "all menus of filters on three small frames to depth 2 (thorough: 3); random frames, patterns, levels and regular "
           "expressions beyond. Levels are checked with patterns that have no '*' but at the end.",
    "C17": "all menus of time filters on three small frames to depth 2 (thorough: 3); random times (years 1-9999), ranges and names beyond.",
    "C18": "all appends of two of three small frames and their results, all policies, in place or not, to depth 2; random frames beyond.",
    "C19": "all histories of nine operations on two frames to depth 2 (thorough: 3); random histories of up to nine operations on seven "
           "frames beyond. After every event all frames are looked at through the public interface.",
    "C20": "all selections, contexts and units of a menu to depth 2; random frames with units of the whole catalogue beyond.",
    "C21": "kinds of timeseries, grids and extrapolations of a menu to depth 2 (thorough: 3); random frames, grids and resampling rules "
           "beyond, each value compared with the exact rational result (relative tolerance 1e-9).",
    "C22": "forms of input and output are sampled (columns, wide and long tables, series, csv; Excel is not installed here).",
    "C23": "parameter types and target times of a menu to depth 2 (thorough: 4); random frames of one run beyond.",
    "C24": "all edits of a menu on three small frames to depth 2 (thorough: 3); random edits beyond.",
    "C25": "all statistics of a menu on three small frames and their filtered parts to depth 2 (thorough: 4); random frames beyond.",
}
for p, x in FRAME_N.items():
    CLAIMS[p] = (FRAME_T, "Exhaustive over " + x + " Trusts TLC, the rational arithmetic override and that the driver records what the "
                 "public interface returned." if not x.startswith("forms") else "The " + x)
NA = {}

if __name__ == "__main__":
    props = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
    m = {"version": 1,
         "setup_cmd": "bash tools/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Specifications in specs/ (TLA+, TLC); drivers of the code in harness/; entry point checks/run.py."}
    for p in props:
        if p in CLAIMS:
            m["checks"].append({"property": p, "quick_cmd": "python3 checks/run.py " + p,
                                "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
                                "evidence_file": "evidence/%s.json" % p,
                                "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "not claimed yet: the specification of this part is being written")})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
