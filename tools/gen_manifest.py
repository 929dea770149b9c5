"""Writes MANIFEST.json from the table below (run from /verif)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "/opt/venv/bin/python -B mc/run.py"
MC = "model checking: "
T = {
 "P01": (MC + "bounded exhaustive execution of the real matcher over all small map pairs and enumerated outcomes of its random draws",
         "every pair of maps within the stated sizes/tolerances is executed on the freshly built matcher; validity of the pairing is checked from its definition. Trusts: sizes beyond the bounds behave alike; erand48 is the only randomness (replaced at link time)."),
 "P02": (MC + "bounded exhaustive execution of the real matcher compared with an exact assignment model",
         "every pair of maps in the listed spaces is executed in both argument orders and compared with the exact optimum. Bounded to <=6/<=7 matchable pixels, as the property says."),
 "P03": (MC + "bounded exhaustive execution of both threshold evaluators against a counting model",
         "every listed prediction x ground truth x threshold list x option combination is executed and compared with counts from the definition."),
 "P04": (MC + "bounded exhaustive execution over predictions, annotator sets and all annotator orders",
         "all annotator multisets up to 3 maps over small images, in every order, compared with the definition."),
 "P05": (MC + "bounded exhaustive execution over predictions, boundaries and regions against a pixel-wise model",
         "every boundary x region on small images, directly and through the evaluator, compared with brute-force distances."),
 "P06": (MC + "exhaustive execution of both thinning implementations on every small binary image (and enlarged/cut-out families)",
         "every binary image of the listed sizes is executed; topology decided by component labelling; both implementations and every pass limit compared."),
 "P07": (MC + "bounded exhaustive execution of the suppression kernel and the full preprocessing against a reference definition",
         "every small multi-level strength map x orientation maps x parameters on the freshly built kernel; the full preprocessing on enumerated stroke images. Pixels decided by rounding noise may go either way."),
 "P08": (MC + 'exhaustive execution of both boundary computations on every small region and ignore mask against brute-force distances',
         'every region x ignore mask on small images, both computations and modes, plus enlarged families; compared with brute-force nearest-pixel distances.'),
 "P09": (MC + 'bounded exhaustive execution of the edge generators over label and instance maps against a per-class model',
         'every label/instance map of the listed spaces; both the functions and the transforms; compared with brute-force bands per class and instance.'),
 "P10": (MC + 'stateless exploration of every worker schedule (controlled process pool with yield points, bounded preemptions) of the real code',
         'all task assignments and completion orders for up to 4-5 workers and labels, preemptions inside tasks at the boundary computation; call sequences; conformance with the OS pool. Tasks are atomic between yield points.'),
 "P11": (MC + 'exhaustive execution of encoders, decoders and file formats over bounded code spaces',
         'all code values on the enumerated planes (each class bit alone and in combination) through every format and scale; channel independence is exercised for all pairs of bits, not all 2^32 codes.'),
 "P12": (MC + 'exhaustive execution of every conversion over all small label maps',
         'every label map over a small alphabet (plus all 256 label values) on small images, compared with pixel-wise definitions.'),
 "P13": (MC + 'bounded exhaustive execution of both score aggregations over all small count tables against scores from the definitions',
         'every combination of per-threshold counts of up to 3 images x 3 thresholds from the listed options, plus families of long curves; larger tables are assumed to behave alike.'),
 "P14": (MC + 'stateless exploration of every worker schedule (controlled process pool with yield points, bounded preemptions) of the real parallel runner and score aggregation',
         'all chunk assignments and completion orders up to 5 tasks x 3 workers (4 x 7), preemptions inside tasks, failing tasks, conformance with the OS pool. Tasks are atomic between yield points.'),
 "P15": (MC + 'exhaustive execution of all short sequences of save operations, files parsed back',
         'all sequences of up to 3 saves from 24 operations x 4 root styles, a fine value grid; other values are assumed to be formatted alike.'),
 "P17": (MC + 'exhaustive execution of all short sequences of configuration calls and constructor pairs on real evaluators over distinguishing dataset trees',
         'every sequence of up to 2 (thorough: 3) of 13-16 configurations per evaluator, with rejected ones; scores compared with those computed by definition for the last configuration.'),
 "P18": (MC + 'bounded exhaustive execution of the single-sample pipeline from disk against counts computed from the decoded content',
         'every 3-level prediction x ground truth on a 2x3 patch (quick: every fourth prediction), single pixels at every position and scale, label maps over 6 labels, annotator sets.'),
 "P16": (MC + 'exhaustive execution of category-list requests on real evaluators and dataset trees, reports parsed back',
         'all single categories, all orders of small subsets, all/none, consecutive evaluations, for five evaluators; reports compared with scores computed by definition.'),
 "P19": (MC + 'bounded exhaustive execution of every specification (values, types, command strings) on the real parsing and evaluation',
         'all threshold counts to 400 (thorough 2000), all sequences up to 3 (4) over a value pool, type/shape alphabet, a grammar of well-formed/malformed strings for every command.'),
 "P25": (MC + 'exhaustive execution of all option combinations up to pairs (thorough: triples) of every evaluation command in its own process, outputs compared with scores by definition',
         'option values are a small alphabet per option; the datasets make each option change the scores.'),
 "P26": (MC + 'exhaustive fault injection: every needed file (each kind of damage), pairs of missing files, directories and name lists, on real evaluators with sequential and pooled execution',
         'small trees of 3 samples x 2 categories; seven kinds of damage; failure and recovery histories complete-damaged-complete.'),
 "P24": (MC + 'exhaustive execution of the helpers on enumerated directory trees and option combinations, task lists, and all request sequences up to 3 (loggers in a fresh process each)',
         'alphabet of 9 file names, 3 directory names, 6 directory contents, 9 suffix arguments; 25 logger requests; one open finding (child logger requested before its parent).'),
 "P23": (MC + 'bounded exhaustive execution of both plotting functions on result files written by the real savers, axes read back',
         'all listed curve shapes, pairs/triples (quick: strided) in every score order, names, colours, human reference; up to 4 algorithms.'),
 "P21": (MC + 'exhaustive execution of the SBD conversion functions, all short sequences of conversions and the conversion script on annotations written to disk, outputs compared with brute-force boundaries',
         'bounded: interiors up to 2x3 pixels and wider ones, up to 20 instances, sequences up to length 3, trees of up to 4 samples; thinning is taken from the code (decided by P06)'),
 "P22": (MC + 'exhaustive execution of the Cityscapes conversion functions, of short sequences of conversions and of the conversion script on trees written to disk, outputs compared with brute-force boundaries',
         'bounded: maps of up to 9x9 pixels over 10 pixel states, 432 option combinations, trees of up to 5 images; quick strides the codes'),
 "P20": (MC + 'exhaustive execution of call sequences (pairs, triples, long rotations, all interleavings of two evaluators) each in a fresh process, results compared with the same call alone in a new process',
         'bounded: 44 operations on 3 inputs, sequences up to length 3 (quick: strided) and long rotations; matcher randomness pinned'),
 "P27": (MC + 'every sequence of timer and progress-bar operations and clock advances up to a depth on the real modules, under a clock owned by the explorer',
         'every sequence of 5 (quick) to 6 timer operations, 7-8 check_time operations, 4-5 bar updates over terminal and bar widths, all task counts up to 6 with each failing task'),
 "P28": (MC + 'exhaustive execution of the batch suppression helpers on every small directory of maps and of the file helpers in every operation sequence up to a depth, against a model of the directory',
         'five file names x formats, 18 file operations to depth 2 (3 strided in quick, complete in thorough)'),
 "P29": (MC + "every case of the enumerated spaces runs in extensions rebuilt with AddressSanitizer, UndefinedBehaviorSanitizer and assertions, under an explorer that owns the matcher's random draws",
         'exhaustive within the stated bounds; the monitor sees accesses of the compiled extensions only'),
}
NA = {
 "N01": "needs the full published predictions and MATLAB, which are not here; agreement with another program's numbers is not a state space to explore",
 "N02": "a statistical statement about natural images and random draws; enumeration decides only the small-graph regime, which is claimed as P02",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in T:
        t, note = T[p]
        checks.append(dict(property=p, quick_cmd="%s %s quick" % (RUN, p), thorough_cmd="%s %s thorough" % (RUN, p),
                           evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=note))
na = [dict(property=p, reason=NA.get(p, "no check built yet")) for p in props if p not in T]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B mc/setup.py", checks=checks, not_applicable=na,
         notes="All checks: build /repo's current tree in a scratch copy (extensions linked with mc/rngshim.c), then enumerate the listed spaces in 8 forked workers. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
