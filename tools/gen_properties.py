"""Writes /verif/properties.jsonl (kept as a script so the prose stays editable)."""
import json, os
L='pyEdgeEval/'
def P(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[L+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
ps=[]
add=lambda *a,**k: ps.append(P(*a,**k))
T5="The one stable test runs five BSDS images with five thresholds and compares eight aggregate numbers to 1e-2; "
add("P01","Boundary matching is a valid one-to-one, in-tolerance pairing",
 "For any two equally sized binary boundary maps and any tolerance, every reported correspondence joins a set pixel of the first map to a set pixel of the second at most tolerance x image-diagonal apart, no pixel takes part in two correspondences, and the two returned maps describe the same pairing (each gives the 1-based, column-major position of the partner; 0 means unmatched). The reported costs are the outlier cost in pixels and, when anything can be matched, the summed distance of the pairs plus that outlier cost for every unmatched pixel of either map. Unset pixels are never reported as matched, the input maps are left unchanged, and this holds whatever random choices the matcher makes internally and however the inputs are typed or laid out in memory.",
 ["inputs","configurations","schedules"],"all pairs of binary maps, all tolerances, all dtypes/layouts, every outcome of the matcher's internal random generator",
 T5+"a stray, doubled or out-of-range match on particular geometries or random draws moves those numbers by less than the tolerance.",
 ["_lib/correspond_pixels.pyx","_lib/src/match.cc","_lib/src/csa.cc","_lib/src/kofn.cc","_lib/src/Random.cc"],
 [("bipartite graph over pixels within maxDist, solved as an assignment problem","_lib/src/match.cc matchEdgeMaps"),("random outlier edges","_lib/src/kofn.cc"),("copy in/out of Fortran-ordered buffers","_lib/correspond_pixels.pyx")],["pyEdgeEval._lib.correspond_pixels"])
add("P02","Boundary matching is optimal when the match graph is complete",
 "When few enough pixels can be matched that the matcher keeps every candidate connection (at most six on the smaller and seven on the larger side), the number of matched pairs is the largest any valid pairing can achieve, and among such pairings the summed distance (in hundredths of a pixel) is the smallest. Hence neither precision nor recall is under-counted, and swapping the two maps leaves the number of matches unchanged.",
 ["inputs","configurations"],"all pairs of binary maps in that regime and all tolerances",
 T5+"a greedy, off-by-one or sub-optimal match changes individual images only slightly.",
 ["_lib/src/match.cc","_lib/src/csa.cc","_lib/correspond_pixels.pyx"],
 [("cost-scaling assignment over integer weights with outlier cost","_lib/src/csa.cc"),("search window ceil(maxDist), d2 <= maxDist^2","_lib/src/match.cc")],["pyEdgeEval._lib.correspond_pixels"])
add("P03","Per-threshold precision/recall counts for one ground truth",
 "For every requested threshold, in the order given and independently of the others, a predicted pixel counts when its strength is at least the threshold (after the optional suppression, then the optional thinning); the four returned counts are the matched ground-truth pixels, all ground-truth pixels, the matched predicted pixels and all predicted pixels. When the ground truth is empty every predicted pixel is a false positive, unless the caller asked to skip absent ground truth, in which case all counts are zero; the binary and the multi-label evaluators agree when no internal-prediction removal is requested.",
 ["inputs","configurations"],"all predictions, ground truths, threshold lists (unsorted, repeated, equal to strengths), and all option combinations",
 T5+"it never reaches empty ground truths, ties at a threshold, unsorted thresholds, suppression or the single-ground-truth evaluators.",
 ["common/binary_label/evaluate_boundaries.py","common/multi_label/evaluate_boundaries.py"],
 [("per-threshold loop","common/*/evaluate_boundaries.py evaluate_boundaries_threshold")],["evaluate_boundaries_threshold (binary_label and multi_label)"])
add("P04","Counts against several annotators of one image",
 "With several ground truths for one image, ground-truth pixels and matched ground-truth pixels are summed over all annotators, while a predicted pixel is counted once in total and is correct when it matches in at least one annotator's map. The result does not depend on the order of the annotators, and one annotator gives the same counts as the single-ground-truth evaluation.",
 ["inputs","configurations"],"all predictions, all lists of ground truths (including empty maps and duplicates), thresholds and options",
 T5+"double counting or dropping of a particular annotator on particular thresholds is invisible at that tolerance.",
 ["common/binary_label/evaluate_boundaries.py"],[("accumulated OR of matches and summed recall","common/binary_label/evaluate_boundaries.py evaluate_boundaries_threshold_multiple_gts")],["evaluate_boundaries_threshold_multiple_gts"])
add("P05","Internal-prediction removal and absent-category skipping",
 "When internal predictions are to be removed, a predicted pixel is dropped exactly when it lies inside the category's region and further than tolerance x image-diagonal from every ground-truth boundary pixel; predictions outside the region or near the boundary are always kept, and nothing is removed when the ground truth is empty. The region may be a boolean or an integer (0/1) mask. Removal happens after thresholding and thinning and before matching, so the dropped pixels count neither as predictions nor as matches.",
 ["inputs","configurations"],"all predictions, boundaries, regions, tolerances and option combinations",
 "No stable test runs the multi-label evaluator at all.",
 ["common/multi_label/options.py","common/multi_label/evaluate_boundaries.py"],[("distance to boundary > buffer and inside region","common/multi_label/options.py kill_internal_prediction")],["kill_internal_prediction","evaluate_boundaries_threshold(kill_internal=True)"])
add("P06","Thinning keeps shape topology and reaches a fixed point",
 "Thinning a binary image only removes pixels, keeps every 8-connected component as exactly one component, neither creates nor fills holes, and thinning the result again changes nothing. The two thinning implementations offered give the same result, stopping after k passes equals applying a single pass k times, no pass leaves the image as it is, and the input image is not modified.",
 ["inputs"],"all binary images, of any shape, dtype and layout, and all iteration limits",
 T5+"thinning is applied to five images and checked only through aggregate scores; the second implementation is never run.",
 ["preprocess/thin/thin.py","preprocess/thin/bwmorph_thin.py"],[("lookup-table sub-iterations until stable","preprocess/thin/thin.py binary_thin"),("same tables, 8-bit","preprocess/thin/bwmorph_thin.py")],["binary_thin","bwmorph_thin"])
add("P07","Non-maximum suppression follows its definition at every pixel",
 "Suppression keeps an edge pixel exactly when no bilinearly interpolated strength within the radius along the edge normal (coordinates clamped to the image) exceeds the multiplier times its own strength, and scales kept strengths linearly to zero towards the image border over the border radius; it never increases a strength or creates one where there was none. The full preprocessing (triangle smoothing, orientation estimation, suppression, optional 8-bit output) agrees with that definition for integer and floating point inputs and leaves its input unchanged.",
 ["inputs","configurations"],"all strength and orientation maps, image shapes, radii, border radii and multipliers",
 "No test runs the suppression.",
 ["_lib/src/benms.cc","_lib/nms.pyx","preprocess/nms/fast_nms.py","preprocess/nms/toolbox.py"],[("interpolation along the normal, border ramp","_lib/src/benms.cc"),("triangle filter, gradients","preprocess/nms/toolbox.py")],["pyEdgeEval._lib.nms","fast_nms"])
add("P08","A region's boundary band is exactly the pixels within the radius",
 "For a region mask and an ignore mask, a pixel belongs to the region's boundary exactly when the sum of its Euclidean distance out of region-or-ignored and its Euclidean distance into the region is positive and at most the radius (only the first distance in internal-only mode). So no boundary arises between a region and ignored pixels beyond that rule or at the image border, an empty or image-filling region has none, and the exact OpenCV and the SciPy computation agree.",
 ["inputs","configurations"],"all region and ignore masks, image shapes, radii and both computation paths",
 "No test generates boundaries from masks.",
 ["utils/distance_transforms.py"],[("two distance transforms, sum compared with radius","utils/distance_transforms.py mask2bdry")],["mask2bdry"])
add("P09","Multi-class and instance-sensitive edge generation",
 "Every class of a label map gets exactly its own region's boundary, independent of the other classes except through the ignored ones; ignored and absent classes are blank, and optional thinning applies per class. Instance-sensitive edges of a class are the union of its region boundary and the boundaries of each of its instances (identified by label*1000+instance), so they always contain the insensitive edges, and instances of other classes never leak in.",
 ["inputs","configurations"],"all label and instance maps, ignore sets, radii",
 "No test generates edges.",
 ["edge_tools/mask2edge_loop.py","edge_tools/transforms.py"],[("per-label loop, instance lookup","edge_tools/mask2edge_loop.py"),("Mask2Edge / InstanceMask2Edge","edge_tools/transforms.py")],["loop_mask2edge","loop_instance_mask2edge","mask2edge","Mask2Edge","InstanceMask2Edge"])
add("P10","Multi-process edge generation equals the sequential one",
 "Edge generation spread over worker processes returns exactly what the sequential version returns, for every number of workers and every order in which workers pick up and finish labels. Consecutive calls with different images, parameters or sizes do not influence each other.",
 ["schedules","inputs","histories"],"all worker counts, completion orders, label maps and call sequences",
 "No test runs the multi-process version; schedules are left to the OS.",
 ["edge_tools/mask2edge_mp.py"],[("shared arrays filled by label index","edge_tools/mask2edge_mp.py")],["mp_mask2edge","mp_instance_mask2edge"],state=[("var_dict","per-process view of the shared arrays","edge_tools/mask2edge_mp.py")])
add("P11","Multi-label edge maps survive encoding and decoding",
 "Encoding a stack of K binary edge maps as an RGB image (K up to 24) or a 32-bit map (K up to 32) and decoding it with K classes gives back the same stack, for every combination of classes at a pixel, through PNG, TIFF and raw binary files alike. Class k always occupies bit k, decoding fewer classes yields the first ones, more than 24 classes are rejected by the RGB encoding rather than corrupted, and loading at a reduced scale picks existing pixel codes rather than blending them.",
 ["inputs","configurations"],"all class subsets per pixel, class counts, image shapes, file formats and dtypes",
 "No test touches the encodings.",
 ["common/multi_label/edge_encoding.py","common/multi_label/edge_decoding.py","utils/convert_formats.py"],[("bit k <-> class k","common/multi_label/edge_*coding.py")],["rgb_multilabel_encoding","default_multilabel_encoding","decode_png","decode_tif","binary_multilabel_decoding","load_scaled_edge","edge_onehot2multilabel"])
add("P12","Label-format conversions are exact at every pixel",
 "One-hot conversion sets channel i exactly where the mask has the i-th listed label; train-id conversion of masks maps listed labels and sends everything else to 255, and of edges moves each label's channel to its train id; collapsing multi-label edges marks exactly the pixels with at least one class. Instance maps are renumbered per category in order of appearance as category*1000+n with background 0, and border clearing overwrites exactly the requested border width and nothing else.",
 ["inputs","configurations"],"all masks over small label alphabets, shapes, label lists, mappings and border widths",
 "No test touches these conversions.",
 ["utils/convert_formats.py","common/multi_label/utils.py"],[("comparisons per label","utils/convert_formats.py"),("convert_inst_seg, add_ignore_pixel","common/multi_label/utils.py")],["mask2onehot","mask_label2trainId","edge_label2trainId","edge_multilabel2binary","convert_inst_seg","add_ignore_pixel"])
add("P13","Dataset scores aggregate per-image counts as defined",
 "Precision, recall and F are computed from counts summed over all images at each threshold; ODS is the best F along the piecewise-linear interpolation (100 steps) of that curve with its threshold, recall and precision; OIS sums the counts at each image's own best threshold (the first listed if several are equally good); AUC and AP are the standard 0.01-step area and 101-point interpolated average precision. All scores lie in [0, 1], zero denominators give zero rather than errors, a perfect detector scores 1 (AP included), per-image results keep the images' order and names, and image order does not change dataset scores.",
 ["inputs","configurations"],"all tables of per-image counts, threshold lists and image orders",
 T5+"AP, per-image and per-threshold outputs are not asserted at all.",
 ["common/metrics.py","common/binary_label/calculate_metrics.py","common/multi_label/calculate_metrics.py"],[("summation, interpolation, OIS, AUC, AP","common/*/calculate_metrics.py"),("interpolated_max_scores","common/metrics.py")],["calculate_metrics (both)","compute_rec_prec_f1","interpolated_max_scores"])
add("P14","Parallel evaluation equals sequential under every completion order",
 "Running tasks over several worker processes yields exactly one result per task, in task order when order is requested (and some permutation of the same results otherwise), whichever order the tasks finish in, for every worker count and batch size. A task that fails makes the run fail with that error instead of dropping or shifting results, no worker process outlives the run in either case, and dataset scores computed in parallel equal the sequential ones.",
 ["schedules","fault_sequences","configurations"],"all completion orders of up to 5 tasks, worker counts, batch sizes, and a failure at each task",
 "The stable test runs one OS-chosen schedule and compares only aggregates at 1e-2; its own comment notes nproc>1 differing.",
 ["utils/progressbar.py","common/binary_label/calculate_metrics.py","common/multi_label/calculate_metrics.py"],[("Pool.imap with keep_order","utils/progressbar.py track_parallel_progress")],["track_parallel_progress","track_progress","calculate_metrics(nproc>1)"])
add("P15","Saved reports contain the computed results, complete and in order",
 "The per-image, per-threshold and overall result files contain every computed row once, in order, with each value in its documented column to six decimals, for one dataset directory or one directory per category. Saving again into the same directory replaces the old results completely, and saving creates missing directories.",
 ["inputs","histories"],"all result tables (row counts, extreme values, names), and all sequences of saves",
 "The stable test saves nothing.",
 ["common/binary_label/io.py","common/multi_label/io.py"],[("fixed-width writers","common/*/io.py")],["save_results","save_category_results","save_overall_metric","result files"])
add("P16","Multi-category evaluation keeps categories apart and averages them",
 "Evaluating a list of categories (a number, a list in any order, or none for all) evaluates each requested category exactly once and in order, stores each under its own class directory, reports each category's own numbers under its own class name, and reports as summary the mean over exactly the requested categories. Invalid categories are rejected, and an evaluation with saving disabled writes nothing.",
 ["inputs","configurations","histories"],"all category lists up to length 3, all evaluators, and repeated evaluations on one evaluator",
 "No stable test runs a multi-label evaluator.",
 ["evaluators/base.py","evaluators/cityscapes.py","evaluators/sbd.py","common/multi_label/io.py"],[("loop over categories, nanmean, tables","evaluators/base.py evaluate")],["BaseMultilabelEvaluator.evaluate","overall_eval_bdry.txt","results.txt","class_XXX/"])
add("P17","Evaluation protocol settings depend only on the last configuration",
 "After any sequence of configuration calls, the settings used by an evaluation are exactly those of the last call: pre-SEAL means tolerance 0.02, non-instance edges, internal removal and absent skipping; post-SEAL with instances disables both options and without instances enables both; custom mode takes what was given; re-annotated SBD never removes or skips. Thin or raw and instance or semantic select the matching ground-truth files of the right split, the half-scale evaluator ignores the scale, and unsupported combinations (a scale outside (0, 1], pre-SEAL with instances on Cityscapes) are rejected, leaving the settings as they were; a rejected setting of the sample names likewise leaves the earlier samples.",
 ["configurations","histories"],"all configurations over small domains and all configuration sequences up to length 3, for all evaluators",
 "The stable test uses one configuration of one evaluator.",
 ["evaluators/bsds.py","evaluators/sbd.py","evaluators/cityscapes.py","evaluators/half_cityscapes.py","evaluators/otf_cityscapes.py"],[("set_eval_params / eval_params","evaluators/*.py"),("path construction","evaluators/*.py evaluate_category")],["eval_params","files opened by evaluate"])
add("P18","Per-sample evaluation reads and prepares files faithfully",
 "Evaluating one sample from disk equals evaluating its decoded content: prediction strengths are the 8-bit values over 255, prediction, ground truth and segmentation are brought to the same scaled size with nearest-neighbour sampling, the ground truth is the requested category's own channel, and the region for internal removal is the category's own label (SBD label ids start at 1, Cityscapes train ids at 0). SBD predictions are cleared on a 5-pixel border, BSDS uses every annotator, on-the-fly Cityscapes ground truth equals edges generated from the label and instance maps with the scale's radius, and a prediction equal to the ground truth scores precision and recall 1.",
 ["inputs","configurations"],"all categories, label/instance layouts over small alphabets, scales, shapes and option combinations",
 "The stable test runs only the BSDS loader on five images.",
 ["datasets/bsds.py","datasets/sbd.py","datasets/cityscapes.py","datasets/otf_cityscapes.py"],[("_evaluate_single","datasets/*.py")],["bsds_eval_single","sbd_eval_single","cityscapes_eval_single","otf_cityscapes_eval_single"])
add("P19","Threshold and category specifications mean what is documented",
 "A threshold count n means n values evenly spaced strictly inside (0, 1), from 1/(n+1) to n/(n+1); a float, list or array means exactly those values in that order; anything else or a multi-dimensional array is rejected. On the command line, \"[a, b, c]\" lists and plain numbers of thresholds and categories reach the evaluation unchanged, malformed ones stop before any evaluation starts, and out-of-range categories are rejected.",
 ["inputs","configurations"],"all specifications over a small grammar of strings and values",
 "The stable test uses thresholds=5 only and never the command line.",
 ["common/utils.py","helpers/evaluate_bsds500.py","helpers/evaluate_cityscapes.py","helpers/evaluate_sbd.py"],[("check_thresholds","common/utils.py"),("string parsing","helpers/evaluate_*.py")],["check_thresholds","evaluate_* entry points"])
add("P20","Results do not depend on earlier calls and inputs stay unmodified",
 "Any call of the evaluation, matching, thinning, suppression, edge-generation or encoding functions returns the same result whatever calls were made before it in the process (up to the random choice between equally good matchings), and leaves the arrays, lists and dictionaries it was given (including default options and evaluator sample lists) unchanged. Changing a returned result afterwards does not change later results.",
 ["histories","inputs"],"all sequences up to length 3 over an alphabet of calls sharing arrays",
 "The stable test makes two evaluations in one process and looks only at aggregates.",
 ["common/binary_label/evaluate_boundaries.py","common/multi_label/evaluate_boundaries.py","preprocess/thin/thin.py","edge_tools/mask2edge_loop.py","edge_tools/mask2edge_mp.py","evaluators/base.py","evaluators/sbd.py"],[("fresh arrays per call","throughout"),("sample_names deep copy","evaluators/base.py")],["return values of repeated calls","input arrays after calls"])
add("P21","SBD conversion writes the ground truth the annotations define",
 "Converting an SBD sample writes, for raw and thin settings, instance-insensitive and instance-sensitive edges whose decoded channel k holds exactly the boundary of category k+1 after marking a 5-pixel image border as ignored, plus label, train-id and instance maps consistent with the annotation. Re-annotated ground truth is the category boundary, united with its instance boundaries in the instance-sensitive case; the annotation readers return what the file holds for any number of instances; and samples never influence each other.",
 ["inputs","configurations"],"small annotations over 2-3 categories and up to 3 instances, raw/thin, instance/semantic",
 "The SBD test needs data that is not in the repository and does not pass here.",
 ["helpers/convert_sbd.py"],[("routine, convert_mat2np, reanno_routine","helpers/convert_sbd.py")],["files written by routine / reanno_routine"])
add("P22","Cityscapes conversion writes each requested ground truth correctly",
 "Converting a Cityscapes tree writes, for every annotated train and val image and for nothing else, exactly the requested edge files (full and half scale, raw and thin, instance or semantic, png, tif or bin), whose decoded channels equal edges generated from the label and instance maps with labels 2 and 3 ignored, mapped to the 19 train ids and scaled as requested. Train-id segmentations and split lists name every image once, and parallel conversion writes the same files as sequential. Unknown formats and thinning with a radius other than 1 are refused, and the comparison mode reports exactly the files whose edges differ.",
 ["inputs","configurations"],"small trees of cities and images, label/instance layouts, scales, formats, sensitivities, worker counts",
 "No test runs the conversion.",
 ["helpers/convert_cityscapes.py"],[("convert_label_to_semantic_edges, convert_cityscapes","helpers/convert_cityscapes.py")],["files written by convert_cityscapes and convert_label_to_semantic_edges"])
add("P23","Precision-recall plots show the saved results",
 "Plotting one or more result directories written by the evaluators draws, for each algorithm, its saved precision-recall points (those with recall of at least 0.001) and labels it with its saved ODS F score, best first, without mixing algorithms, names or colours, and whatever the number of thresholds of each. The printed ODS, OIS and AP figures are the saved ones.",
 ["inputs","configurations"],"all sets of up to 3 algorithms over small result tables and their orders",
 "No test plots anything.",
 ["visualization/pr_curve.py","common/binary_label/visualize.py"],[("load, sort by ODS, plot","visualization/pr_curve.py plot_pr_curve")],["matplotlib axes and printed lines after plot_pr_curve"])
add("P24","Directory scanning and logging report each item exactly once",
 "Scanning a directory yields, as paths relative to it, every non-hidden file with the requested suffix exactly once, descending into subdirectories only when asked and ignoring case only when asked; a path that is not an existing directory is an error. The progress helpers call the function once per task in order and return all results, and a log message goes exactly once to each destination of the requested logger however often loggers were requested before.",
 ["inputs","histories"],"all directory trees over a small alphabet of names, all option combinations; all sequences of logger requests up to length 3",
 "No test covers these helpers.",
 ["utils/path.py","utils/progressbar.py","utils/logger.py"],[("scandir","utils/path.py"),("get_logger registry","utils/logger.py"),("track_progress","utils/progressbar.py")],["scandir","track_progress","track_iter_progress","get_logger","print_log"])
add("P25","Command-line evaluation runs the evaluation its options describe",
 "Each evaluation command evaluates the given predictions against the given dataset root with exactly the options passed (categories, tolerance, thresholds, scale, split, raw or thin, suppression, instance sensitivity, prediction suffix, pre-SEAL, workers, output directory) and documented defaults for the rest, subject to the protocol's fixed settings. Results land in the requested output directory, or in a fresh directory under the predictions when none is given.",
 ["configurations"],"all combinations of command-line options up to two non-default at once, for every command",
 "No test runs the command-line helpers.",
 ["helpers/evaluate_bsds500.py","helpers/evaluate_cityscapes.py","helpers/evaluate_sbd.py"],[("argument parsing and forwarding","helpers/evaluate_*.py")],["arguments reaching the evaluator, files written"])
add("P26","Evaluation never scores silently on missing or incomplete data",
 "When a sample's ground truth, segmentation or prediction file is missing, sample names are absent or empty, or a dataset directory does not exist, the evaluation fails with an error instead of returning scores, and no summary of the failed evaluation is saved. A file that was cut off (by an interrupted write or copy) is never scored as if it were complete: the evaluation fails unless what remains still holds the complete content. Evaluating with everything present succeeds for the same inputs.",
 ["fault_sequences","configurations"],"removal of each file or directory an evaluation needs, one and two at a time, and every truncation point of each, for every evaluator, sequential and parallel",
 "The stable test has all files present.",
 ["evaluators/base.py","evaluators/bsds.py","evaluators/sbd.py","evaluators/cityscapes.py","evaluators/otf_cityscapes.py","utils/progressbar.py"],[("existence assertions","evaluators/*.py _before_evaluation, evaluate_category"),("exceptions through the pool","utils/progressbar.py")],["exceptions from evaluate, files in save_dir"])
add("P27","Timers, progress bars and sequential tracking report what happened",
 "A timer reports the time since it was started and since it was last checked, refuses to answer while it is not running, and as a context manager prints the time its block took; check_time reports the time since the same id was last checked, without mixing ids. A progress bar shows how many of the tasks are done, the rate, the elapsed and remaining time rounded to seconds, and a bar filled in proportion that never exceeds the requested width, 60% of the terminal or what the line leaves. Sequential tracking runs every task once, in order, with the given keyword arguments, for a list or an (iterable, count) pair, ends with an error when a task fails, prints nothing with no_bar, and rejects anything that is not tasks.",
 ["histories","inputs"],"all sequences of timer and bar operations and clock advances up to a depth, all task counts, forms and failing tasks",
 "No test covers the timer, and the output of the progress bar is never looked at.",
 ["utils/timer.py","utils/progressbar.py"],[("Timer, check_time","utils/timer.py"),("ProgressBar, track_progress, track_iter_progress","utils/progressbar.py")],["Timer methods","check_time","text written by ProgressBar","track_progress","track_iter_progress"])
add("P28","Batch suppression and file helpers touch exactly the files they are asked to",
 "Suppressing a directory of maps writes, for every map (of the requested format), one 8-bit image with the map's own name holding its suppressed version, leaves existing results and the inputs as they are, and writes nothing else; suppressing one image returns what it saves and refuses lossy files. mkdir_or_exist creates the directory with its parents, symlink makes the requested link and replaces an existing link or file only when allowed to (never what a link points to), and check_file_exist accepts exactly existing files; otherwise they fail and leave everything unchanged.",
 ["histories","inputs"],"all small directories of maps; all sequences of file operations up to length 3 from several directories",
 "No test covers these helpers.",
 ["preprocess/nms/fast_nms.py","utils/path.py"],[("nms_results, nms_all_results, nms_process_one_image","preprocess/nms/fast_nms.py"),("mkdir_or_exist, symlink, check_file_exist","utils/path.py")],["files written by nms_results / nms_all_results / nms_process_one_image","directory contents after mkdir_or_exist / symlink"])
add("P29","The native matcher and suppression never crash, overrun or keep memory",
 "For every pair of maps and every map with orientations - any size, dtype, memory layout and values, NaN and infinities in maps and orientations included - and all finite parameters, the native matching and suppression read and write only inside their own arrays, meet their internal consistency checks whatever the random draws are, never end the process, and give back all memory they took once the results are released. Arguments that cannot be handled (shapes that differ, tolerances or outlier costs out of range, non-numeric data) are refused with a Python exception.",
 ["inputs","configurations"],"all small pairs of maps, all numbers of matchable pixels per side with the extremes of the random draws, all small maps with orientations over listed values",
 "An access just outside an array, a forgotten release or a violated internal check usually leaves the scores of a test unchanged; the assertions are compiled out of the tested build.",
 ["_lib/src/match.cc","_lib/src/kofn.cc","_lib/src/benms.cc","_lib/src/Matrix.cc","_lib/correspond_pixels.pyx","_lib/nms.pyx"],[("graph construction and assignment","_lib/src/match.cc, _lib/include/csa.hh"),("interpolation and border suppression","_lib/src/benms.cc"),("array bindings","_lib/*.pyx")],["correspond_pixels","nms","fast_nms"])
add("N01","Scores agree with the reference MATLAB toolboxes",
 "On the published benchmarks the dataset scores agree with those of the original MATLAB toolboxes to within 0.01%.",
 ["inputs"],"all published predictions of the three benchmarks",
 T5+"the full benchmarks and MATLAB are not available to the tests.",
 ["common/binary_label/evaluate_boundaries.py"],[("port of the MATLAB toolboxes","throughout")],["overall results"])
add("N02","Matching large images loses almost no optimal matches",
 "On images with many boundary pixels, where the matcher keeps only a random sample of connections, the number of matches is almost always within a few pixels of the best possible.",
 ["inputs"],"all natural images and random draws",
 T5+"the loss is statistical.",
 ["_lib/src/match.cc"],[("degree-6 outlier connections","_lib/src/match.cc")],["pyEdgeEval._lib.correspond_pixels"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in ps: f.write(json.dumps(p)+'\n')
print(len(ps))
