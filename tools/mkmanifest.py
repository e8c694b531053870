"""writes MANIFEST.json"""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("reference-model monitor: each reported factor against an independent Bishop model",
            "Every factor observed on generated models and circles matched an independently written Bishop solution; surfaces whose verdict rests on rounding are not decided."),
    "C02": ("reference-model monitor of load effects recovered from reported factors",
            "Driving moments recovered from frictionless factors match independent statics for every observed surface, also with loads on slice edges; drawn loads inside the model."),
    "C03": ("online invariant monitor of the result list and getters, with re-analysis of entries",
            "Order, uniqueness, filter, minimum and self-consistency of every observed result list."),
    "C04": ("online geometry monitor of every analysed surface",
            "End points, circle and arc of every observed surface against closed-form geometry; requested circles and points present."),
    "C05": ("online monitor of surface end points against limits and minimum distance",
            "No observed surface left the limits or fell short of the distance, for generated models, loads and limits."),
    "C06": ("offline coverage monitor of the recorded surfaces of each search",
            "Ends, gaps, radii, count and load-side entry points of each observed search; ranges no arc can use are not demanded."),
    "C07": ("history monitor: random call histories against direct construction",
            "Results and plots of interleaved, superseded and repeated calls equal those of direct construction."),
    "C08": ("history monitor: add/remove histories against never added",
            "Results and plots after random additions and removals equal those of a model that never had them."),
    "C09": ("history monitor: every reader after every mutator, then against a fresh model",
            "No reader presented old results after any generated change; new analyses equal fresh ones."),
    "C10": ("fault-injecting monitor: rejected calls, state fingerprint before and after",
            "All generated invalid calls raise ValueError and leave results, plots and later behaviour unchanged."),
    "C11": ("interleaving monitor: slopes in turns and in threads with forced switches, against each alone",
            "Sequential interleavings with shared objects and thread schedules with a 1e-6 s switch interval gave each slope the results it has alone."),
    "C12": ("repetition monitor over analyses, readers and plots, also across processes",
            "Repeated and reordered reads and analyses, also in a fresh process with another hash seed, are identical and change nothing."),
    "C13": ("metamorphic monitor on pairs of executions",
            "Monotonicity and proportionality hold on every observed well-conditioned pair."),
    "C14": ("reference-model monitor of geometry queries and outline",
            "Outline, extents and both intersection queries match closed-form geometry at every queried point."),
    "C15": ("monitor of figure data against the specification",
            "Strata, loads, water, limit markers and table of every observed figure match the model entered."),
    "C16": ("monitor of figure data against the result list",
            "Every trace of the observed plots corresponds to one result and the reverse, with label, colour and order."),
    "C17": ("online monitor of every analysis step, re-analysis of each reported offset",
            "Steps, bracket, pairs, return value and final state of every observed dynamic analysis; the loop's quality beyond that is not judged."),
    "C18": ("differential monitor: HTTP responses of the real application against the library",
            "Surfaces and plot in the response equal those of the library for every observed submission."),
    "C19": ("history monitor: several visitors, per-visitor session model, in turns and in threads",
            "Every observed response matches the visitor's own last action; the external image converter is replaced by one that records the figure."),
    "C20": ("hostile-workload monitor of HTTP answers",
            "No server error for any observed request history, including tampered forms and extreme values."),
    "C21": ("metamorphic monitor on equivalent settings, exact solution for tolerance and cap",
            "Clamps, partial updates, defaults and normalised inputs are equivalent on every observed pair."),
    "C22": ("metamorphic monitor on equivalent models",
            "Splits, permutations and scalings left the factor of every observed surface unchanged."),
    "C23": ("monitor of the real page in a headless browser under random visits, against a record of the actions",
            "The pages, their own scripts and the real plotting library run in the Chromium that kaleido brings; everything seen, drawn and submitted in the observed visits matched."),
    "C24": ("fault-injecting history monitor: real server processes killed at chosen database writes or moments, against a per-visitor model",
            "After every observed crash, restart or reload each visitor's page and reports were those of one complete submission; PDF files decoded in part of the histories. Power loss (unsynced files) is not simulated."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = [
    dict(
        property=i, quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        technique="runtime monitoring: " + NOTES[i][0], level="exploration",
        level_note=NOTES[i][1] + " Exploration of generated executions, no proof.",
    )
    for i in ids
]
json.dump(
    dict(version=1, setup_cmd="python3 check.py setup", checks=checks,
         not_applicable=[],
         notes="No hooks in /repo: monitors observe public results from outside."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
