"""writes MANIFEST.json and the rule texts of dst/conf.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {
"P01": "distinct sessions (recipes, markets, log setting, thread count) in which at least one auction/query ran while its inputs were watched; hash of the judged inputs",
"P02": "distinct sessions containing at least one auction or optimal-trade computation whose outcome was compared with its isolated re-execution; hash of inputs",
"P03": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade",
"P04": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade",
"P05": "distinct (mechanism, recipe, market, misreports) sessions in which at least one misreport was compared with truth-telling",
"P06": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade",
"P07": "distinct (mechanism, recipe, market) sessions whose optimal trade has at least one deal",
"P08": "distinct price histories (clock requests answered, direct or inside auctions)",
"P09": "distinct (mechanism, recipe, market) sessions with at least one completed call",
"P10": "distinct operation histories on markets",
"P11": "distinct (recipe or tree, market) sessions with at least one optimal-trade computation",
"P12": "distinct (experiment parameters, crash point, file-fault plan) histories in which at least one fault fired or one row was written",
"P13": "distinct (experiment, parameters, seed) runs that wrote at least one row",
"P14": "distinct (files, listing order, request history, fault plan) histories",
"P15": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade",
"P16": "distinct (mechanism, recipe, market) sessions compared with the reference model",
"P17": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade",
"P18": "distinct (session, logging plan) pairs in which the trace log was on or its sink failed at least once",
}
RULES.update({
"P21": "distinct (tree, counts, market) sessions with distinct bids in every category and a positive optimum",
"P22": "distinct sessions by the prices the superseded clocks went through and the markets of the superseded auctions",
"P23": "distinct sessions by the bids drawn",
"P24": "distinct sequences of refused requests",
"P25": "distinct (tree, agent counts, category sizes, queries) histories",
"P19": "distinct sessions in which at least one clock was started (recipes, limit, counts); hash of all starts",
"P20": "distinct (mechanism, recipe, market) sessions with at least one auction ending in trade whose printed description was compared with its figures",
})
RULES["P26"] = "distinct (programs in order, chosen experiments, sizes, faults) histories"
RULES["P27"] = "distinct (operation, fault) sequences around which the process-wide state was compared"
NOTE = {
"P27": "the state compared is the list in ops.world(): what is not on it (memory, CPU time, C-library state) is not watched; in sessions of several threads only the state before and after the whole session is compared",
"P26": "experiments are cut to at most 2 sizes of at most 6 and 2 rounds; two series whose versions share one results file with other columns are not run in one results folder; the random search script and the unfinished multi-buyer demo are left out",
"P24": "kinds of malformed requests listed in the statement; negative recipe counts and a second root in a recipe structure are accepted by the code today and are not judged",
"P25": "trees up to 12 categories; order of paths is the order of the structure",
"P21": "distinct bids, optimum whose deals are attributable to recipes; ties are out of scope because the statement is false for them (section 6 of DESIGN.md)",
"P22": "the old multi-buyer auction is an unfinished prototype (IndexError on most markets) and is left out",
"P23": "the shape of a distribution is judged on fair seeded streams of 800 draws with bounds no fair stream leaves; coarser deviations than that are caught, finer ones are not",
"P19": "recipe trees and forests up to 12 categories (closed-form optimum), refused starts for empty, ragged and mutually including recipe sets",
"P20": "expected text re-rendered from the announced figures; bids of mixed int/float type skipped where equal values print differently",
"P01": "seeded schedules + interruptions; snapshots of every caller object after every schedule slice, not after every instruction",
"P02": "each outcome is compared with its isolated re-execution in a fresh process; outcome differences that need more than 6 markets or 3 threads are not reached",
"P03": "float prices compared with a stated tolerance; bids below 1e7 in magnitude",
"P04": "float prices compared with a stated tolerance",
"P05": "sampled misreports (boundary values around bids and prices), single deviator; trade reduction only with unit recipes (the non-unit case is known finding KF1)",
"P06": "optimum recomputed exactly (Fractions) by an independent solver",
"P07": "ties and equal gains handled by the weakest reading; small/medium markets",
"P08": "clock read through public methods; tolerance for floats starting at -1e8",
"P09": "bound is a line budget generous by at least 10x over measured cost; LP solver not counted",
"P10": "reference model = sorted lists; numeric bids only",
"P11": "trees up to about 7 categories; optimum by exhaustive/DP reference on small markets, cross-agreement on larger ones",
"P12": "crash points = source lines of the repository's experiment code; the third-party table writer is real but not instrumented",
"P13": "rows recomputed from the markets captured at the auction call",
"P14": "scratch directories with generated CSV files",
"P15": "lottery settled by seeded draw and in expectation",
"P16": "ties in category choice resolved by the weakest reading (any tied choice accepted)",
"P17": "float prices compared with a stated tolerance",
"P18": "log sink failures are those logging itself swallows; handlers attached to the repository's loggers",
}
NA = {}
def main():
    conf = json.load(open(os.path.join(ROOT, "dst/conf.json")))
    for p, r in RULES.items():
        if p in conf["props"]: conf["props"][p]["rule"] = r
    json.dump(conf, open(os.path.join(ROOT, "dst/conf.json"), "w"), indent=1)
    checks = [{"property": p, "quick_cmd": "python3 dst/check.py %s --tier quick" % p, "thorough_cmd": "python3 dst/check.py %s --tier thorough" % p,
               "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults, judged against a reference model",
               "level": "exploration", "level_note": NOTE[p]} for p in sorted(conf["props"])]
    m = {"version": 1, "setup_cmd": "python3 dst/selftest.py", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
    for p in RULES:
        if p not in conf["props"]: m["not_applicable"].append({"property": p, "reason": "check under construction"})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
