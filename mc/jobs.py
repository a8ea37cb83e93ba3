"""Which harnesses decide which property."""
SCHED = ["mc/sched.cpp"]
SCHED_ASSUME = [
    "schedules are enumerated exhaustively up to the stated deviation bound (a deviation is a preemption of a runnable thread, an early expiry of a timed wait, or a spurious wakeup); which waiter a notification wakes and which thread runs after a block are enumerated for free",
    "scheduling points: mutex, condition-variable, future, once, thread create/join, sleep and yield operations (and atomics, in the race build); code between two points is atomic, which the happens-before race detector of the race build justifies (it flags any conflicting unsynchronised access on an explored schedule)",
    "sequentially consistent memory; OS threads are reused between executions; time is virtual",
]
ENUM_ASSUME = ["inputs are enumerated exhaustively within the bounds given in DESIGN.md for this property; the code under test is compiled from /repo's working tree with GPU back-ends off"]

JOBS, META = {}, {}

def add(prop, level, rule, jobs, assumptions):
    JOBS[prop] = jobs
    META[prop] = {"level": level, "rule": rule, "assumptions": assumptions}

def sched_jobs(name, src, modules, parts, bq=240, bt=1500, modes=("asan", "race"), **kw):
    return [dict(name=name, src=src + SCHED, modules=modules, mode=m, parts=parts, budget_q=bq, budget_t=bt, replayable=True, **kw) for m in modes]

add("P01", "model_checking", "every schedule of the scenario's threads within the deviation bound, executed on the real pool; each scenario is a distinct client program",
    sched_jobs("h_pool", ["harness/h_pool.cpp"], ["utils"], ["pool-drain", "pool-wait", "pool-2prod", "pool-dep", "pool-rounds", "pool-nested", "pool-args", "pool-many", "pool-chain"]), SCHED_ASSUME)
add("P02", "model_checking", "every schedule of the scenario's threads within the deviation bound, executed on the real semaphore; each scenario is a distinct client program",
    sched_jobs("h_pool", ["harness/h_pool.cpp"], ["utils"], ["sem-mutex", "sem-prodcons", "sem-try", "sem-timed", "sem-mixed", "sem-avail", "sem-patience", "sem-many"]), SCHED_ASSUME)

SMALLCACHE = ("-DLITIV_VERIF_CACHE_MIN_SIZE=64",)
add("P03", "model_checking", "every request/lifecycle history of the given depth over 7 packet-size streams, with every schedule within the deviation bound, executed on the real precacher; each delivered packet is compared with the loader's",
    sched_jobs("h_prec", ["harness/h_prec.cpp"], ["datasets"], ["prec-seq", "prec-long", "prec-burst", "prec-sched", "prec-life", "prec-throw", "prec-slow", "prec-many"], extra=SMALLCACHE), SCHED_ASSUME)
add("P04", "model_checking", "every queueing history of the given depth with every schedule within the deviation bound, executed on the real writer with 1-2 writing threads, blocking and dropping, failing callbacks, restarts and concurrent stop",
    sched_jobs("h_prec", ["harness/h_prec.cpp"], ["datasets"], ["wr-1w-block", "wr-2w-block", "wr-1w-drop", "wr-2w-drop", "wr-1w-throw", "wr-2w-throw", "wr-dtor", "wr-1w-long", "wr-2prod", "wr-stoprace", "wr-gate", "wr-many"], extra=SMALLCACHE), SCHED_ASSUME)

def enum_job(name, src, modules, parts, mode="asan", bq=300, bt=1500, **kw):
    return dict(name=name, src=src, modules=modules, mode=mode, parts=parts, budget_q=bq, budget_t=bt, **kw)

CXX = lambda *parts: [enum_job("h_cxx", ["harness/h_cxx.cpp"], ["utils"], list(parts))]
IO = lambda *parts: [enum_job("h_io", ["harness/h_io.cpp"], ["utils"], list(parts))]
FS = lambda *parts: [enum_job("h_fs", ["harness/h_fs.cpp"] + SCHED, ["utils"], list(parts))]
FSS = lambda *parts: sched_jobs("h_fs", ["harness/h_fs.cpp"], ["utils"], list(parts))
add("P06", "model_checking", "every sequence of 38 buffer operations (construct, copy in, assign, move, insert, erase, resize, swap...) up to depth 4 (5 in the thorough tier), executed on the real container next to a std::vector model",
    CXX("autobuffer"), ENUM_ASSUME)
add("P07", "model_checking", "every table shape/interval/size in the bounds, queried on a grid finer than its cells and at and beyond both ends; copies, moves and assignments of tables included",
    CXX("lut"), ENUM_ASSUME)
add("P08", "model_checking", "every format x matrix type x shape round trip; every truncation length; every write-failure point; every value of every header byte",
    IO("archive-rt", "archive-trunc", "archive-fault", "archive-hdr"), ENUM_ASSUME)
add("P09", "model_checking", "every list of up to 3 matrices of a catalogue of types, shapes and empties, packed and unpacked",
    IO("pack"), ENUM_ASSUME)
add("P10", "model_checking", "every schedule of two or three processes/threads creating the same directory, every failing system call, every subset of directory entries, every filter combination, every preallocation size and failure point",
    sched_jobs("h_fs", ["harness/h_fs.cpp"], ["utils"], ["fs-mkdir"], modes=("asan",)) + FS("fs-fault", "fs-list", "fs-filter", "fs-prealloc"), SCHED_ASSUME + ENUM_ASSUME)
add("P11", "model_checking", "every vector over a small alphabet up to the length bound, every string over a small alphabet up to the length bound",
    CXX("vec") + FS("strings"), ENUM_ASSUME)
add("P27", "model_checking", "every message length up to 5000 bytes, every error text of a catalogue of format specifiers, every schedule of threads logging concurrently within the deviation bound",
    FSS("log") + FS("fmt"), SCHED_ASSUME + ENUM_ASSUME)

MATH = lambda *parts: [enum_job("h_math", ["harness/h_math.cpp"], ["utils"], list(parts))]
add("P12", "model_checking", "every pair of vectors of 1-4 channels over boundary values of each element type, every masked array of a catalogue, every pair of descriptors with few set or cleared bits, every pair of small histograms, through every overload",
    MATH("dist", "bitdist", "emd"), ENUM_ASSUME)
add("P13", "model_checking", "every small matrix, knot set, query position, bit pattern and sample multiset in the bounds, compared with a direct evaluation of the definition",
    MATH("numeric", "linalg"), ENUM_ASSUME)
add("P14", "model_checking", "every lane x every value x every second lane over several backgrounds, every word quadruple over boundary values, compared with scalar code",
    MATH("simd"), ENUM_ASSUME)
LBSP = lambda *parts: [enum_job("h_lbsp", ["harness/h_lbsp.cpp"], ["features2d"], list(parts))]
add("P17", "model_checking", "every pixel offset x intensity x threshold of the comparison pattern, every keypoint position (integer and quarter-pixel) of every small image size, dense and sparse outputs compared with the definition",
    LBSP("lbsp-threshold", "lbsp-pattern", "lbsp-images", "lbsp-fractional", "lbsp-derived"), ENUM_ASSUME)

MAT = lambda *parts: [enum_job("h_mat", ["harness/h_mat.cpp"], ["utils"], list(parts))]
add("P15", "model_checking", "every random draw of a full period x every origin, border and image size in the bounds; every 3x3 kernel shape; every log-polar mask of the listed sizes and bin counts",
    MAT("positions"), ENUM_ASSUME)
add("P16", "model_checking", "every element type x channel count x view x shape in the bounds, every sub-pixel position on an eighth-pixel grid, every shift by quarters of a pixel, colour cube, packed conversions for every width, every shape up to 4 dimensions",
    MAT("mat-views", "mat-subpix", "mat-colours", "mat-shapes"), ENUM_ASSUME)

VID = lambda *parts: [enum_job("h_video", ["harness/h_video.cpp"], ["video"], list(parts))]
add("P18", "model_checking", "every draw at every random decision of one or two frames for every intensity around the thresholds (reachable traces compared as sets with a reference model), plus constant and sequential draws over longer histories",
    VID("vibe", "pbas", "lobster"), ENUM_ASSUME)
add("P19", "model_checking", "every image size in the bounds x scene x draw policy x history (fresh, re-initialised, refused calls, views, regions of interest) for every algorithm",
    VID(*["contract%d" % i for i in range(7)]), ENUM_ASSUME)

MET = lambda *parts: [enum_job("h_metrics", ["harness/h_metrics.cpp"], ["datasets"], list(parts))]
add("P22", "model_checking", "every byte triple, every single-pixel difference x memory layout of small maps, every counter quadruple and error list over boundary values, every grouping of small accumulators; each compared with a direct evaluation of the definition",
    MET("bin-pixels", "bin-metrics", "stereo", "stereo-colour", "accumulators"), ENUM_ASSUME)

DSET = lambda *parts: [enum_job("h_datasets", ["harness/h_datasets.cpp", "mc/sched.cpp"], ["datasets"], list(parts), extra=SMALLCACHE)]
add("P25", "model_checking", "every subset of a catalogue of files, every directory tree of three groups, every frame-to-ground-truth map, every history of requests up to the depth bound on stream arrays, every output of a catalogue x region of interest, every history of feature layouts",
    DSET("load-images", "load-large", "load-video", "load-tree", "load-gt", "load-varray", "load-iarray", "archive"), ENUM_ASSUME)
add("P23", "model_checking", "every combination of 7 batch histories over a tree of three batches x 4 resets x 6 reporting levels, for single, array and disparity evaluation, evaluation off and counting only",
    DSET("report-single", "report-array", "report-stereo", "report-off", "report-none", "report-long"), ENUM_ASSUME)
add("P05", "model_checking", "every sequence of 12 life-cycle operations on two batches up to depth 4 (5 in the thorough tier), executed next to a reference model; every schedule of threads awaiting the final values within the deviation bound",
    DSET("life-single", "life-array") + sched_jobs("h_datasets", ["harness/h_datasets.cpp"], ["datasets"], ["wait-count", "wait-time", "wait-both", "wait-2counts", "wait-2times", "wait-group", "wait-regroup", "wait-restart"], extra=SMALLCACHE), SCHED_ASSUME + ENUM_ASSUME)

FEAT = lambda *parts: [enum_job("h_feat", ["harness/h_feat.cpp"], ["features2d"], list(parts))]
add("P24", "model_checking", "every pair of small images over a few values for mutual information, every window, parameter set, texture and view for the dense descriptors, every small shape for shape contexts, every history of up to 3 calls (dense, keypoints, masks, reused outputs, other sizes) on one extractor, keypoints at all quarter positions",
    FEAT("mi-pairs", "mi-class", "lss", "dasc-rf", "dasc-gf", "sc-absolute", "sc-maps", "feat-history0", "feat-history1", "feat-history2", "feat-positions", "feat-large"), ENUM_ASSUME)

IMG = lambda *parts: [enum_job("h_imgproc", ["harness/h_imgproc.cpp"], ["imgproc"], list(parts))]
add("P21", "model_checking", "every small image over boundary values x every mask x kernel, window, grid or mode in the bounds, each compared with a direct evaluation of the definition",
    IMG("thin", "hist", "blur", "integral", "nms", "localmax", "affinity", "warp", "gmm", "imwarp", "img-large"), ENUM_ASSUME)

add("P20", "model_checking", "every image size, channel count, scale count, scene, pattern and threshold in the bounds, each compared with a reference implementation of the definition",
    [enum_job("h_edges", ["harness/h_edges.cpp"], ["imgproc"], ["edge-sizes0", "edge-sizes1", "edge-patterns", "edge-scales", "edge-dense", "edge-canny"])], ENUM_ASSUME)

add("P26", "model_checking", "every cost matrix of small assignment problems, every pair of small boundary maps, every list of confidence values and thresholds, every list of counters over boundary values, each compared with exhaustive search or a direct evaluation of the definition",
    [enum_job("h_bsds", ["harness/h_bsds.cpp"], ["datasets", "bsds500"], ["assign", "kofn", "match0", "match1", "levels", "scores", "colours", "files"])], ENUM_ASSUME)
add("P28", "model_checking", "every cost table over the listed value sets for pairs, triples and chains of variables, every small function for the bound computations, every small multi-label problem, through every solver; each minimum is compared with exhaustive search over all labellings",
    [enum_job("h_sospd", ["harness/h_sospd.cpp"], ["sospd"], ["pairs", "triples", "chains", "functions", "multi"])], ENUM_ASSUME)
add("P29", "model_checking", "every camera angle, field of view, image size and position of the grids, every history of camera commands and of tracking results up to the depth bound, compared with an independent double-precision geometry, a software renderer and a reference model",
    [enum_job("h_vptz", ["harness/h_vptz.cpp"], ["vptz"], ["geometry", "translator", "camera", "playback", "evaluate"])], ENUM_ASSUME)
add("P30", "model_checking", "every group list, region size pair, scale, alignment, frame count, annotated subset and access order in the bounds, and every listed defect at every place of the data set",
    [enum_job("h_published", ["harness/h_published.cpp", "mc/sched.cpp"], ["datasets"], ["cdnet", "wallflower", "pets", "bsds"], extra=SMALLCACHE)], ENUM_ASSUME)
add("P31", "model_checking", "every draw, value and neighbourhood on one modelled pixel, every history of the listed scenes, regions and sizes, each frame's mask and background compared with a reference of the feedback model",
    [enum_job("h_subsense", ["harness/h_subsense.cpp"], ["video"], ["subsense-pixel", "subsense-colours", "subsense-neighbourhoods", "subsense-feedback", "subsense-frames", "subsense-large"], mode="fast")], ENUM_ASSUME)
