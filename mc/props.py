"""Property catalogue; `python3 mc/props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, state=state, observe=observe, hook=hook))

U = "modules/utils/include/litiv/utils/"
US = "modules/utils/src/"
D = "modules/datasets/include/litiv/datasets/"
DS = "modules/datasets/src/"
SCHED = "stateless model checking of the real code under a controlled scheduler (deviation-bounded exhaustive DFS over schedules), with a happens-before race detector"

prop("P01", "Worker pool runs every queued task exactly once, results reach their futures",
     "Every task handed to a worker pool runs exactly once, on one of the pool's threads, with exactly the arguments given at the call, and its result or exception is delivered through the returned future. Destroying the pool waits for every queued task to finish, and no schedule of producers, workers and tasks (including tasks that queue others or wait for earlier ones while a thread remains available) deadlocks or loses a wakeup. The pool has no data races.",
     ["schedules", "programs"], "all interleavings of 1-3 workers and 1-2 producers, tasks that return, throw, wait on earlier tasks or queue more tasks, up to the deviation bound; sessions of 60-300 tasks",
     "the unit test runs a handful of tasks on whatever schedule the OS picks; lost wakeups and drain-on-destruction bugs need a specific interleaving",
     [U + "cxx.hpp"], [("task queue and worker loop", U + "cxx.hpp WorkerPool::queueTask / entry / ~WorkerPool")], SCHED,
     "exhaustive within the deviation bound for each client program; assumes sequentially consistent memory")
prop("P02", "Semaphore permits are conserved and no waiter is lost",
     "At any time the number of successful acquisitions of a semaphore never exceeds its initial count plus the releases made so far, and count() is the exact difference whenever no operation is in progress. A blocked acquirer always proceeds once enough releases have been made, on every schedule; a non-blocking attempt succeeds iff a permit is available at that moment, and a timed attempt fails only after its timeout elapsed without a permit becoming available to it. The semaphore has no data races.",
     ["schedules", "programs"], "all interleavings of 2-4 threads mixing blocking, non-blocking and timed acquisition with releases, up to the deviation bound; counts up to 5 billion",
     "no unit test reaches contended schedules, spurious wakeups or timeouts that race with a release",
     [U + "cxx.hpp"], [("counting under a mutex with a condition variable", U + "cxx.hpp Semaphore")], SCHED,
     "exhaustive within the deviation bound for each client program; assumes sequentially consistent memory")
prop("P03", "Data precacher serves every request with the loader's own packet",
     "Whatever the order of requests, the packet sizes (including ones larger than the cache), the cache size, idle periods, and starts and stops in between, a data precacher returns for each index exactly the bytes and shape its loader would return for it, keeps the latest returned packet valid until the next request, and never deadlocks. A loader error reaches the requester exactly once, and the precacher serves later requests correctly again after a restart. Starting, stopping and destroying are safe in any order on every schedule, without data races.",
     ["schedules", "histories", "fault_sequences"], "all request/idle/start/stop histories up to depth 3-5 over 7 packet-size streams (and passes over 50 packets) with a 64-byte cache, one failing packet, all schedules up to the deviation bound",
     "the tests use a sequential scan of equal-sized packets on one schedule; ring-buffer wrap-around, back-jumps and error paths are never exercised",
     [D + "utils.hpp", DS + "utils.cpp"], [("ring-buffer precaching thread", DS + "utils.cpp DataPrecacher::entry / getPacket")], SCHED + "; exhaustive request histories",
     "exhaustive within depth and deviation bounds; the hook only lowers the minimum cache size so that small packets fill it", hook="LITIV_VERIF_CACHE_MIN_SIZE lowers the minimum cache size")
prop("P04", "Asynchronous writer hands over every accepted packet, intact and bounded",
     "Every packet accepted by a data writer is passed to its writing callback exactly once with the bytes it had when queued, except when a newer version of the same index replaced it while still waiting; for one index versions are written in queueing order and never concurrently. Packets are dropped only when dropping is allowed and the queue is full, in which case the call says so; the queue never holds more bytes than its limit; stopping or destroying the writer first writes everything still queued, and a callback error is reported once by the stop call without losing other packets. A queue call that races with stop still gets its packet written, and no schedule deadlocks or races.",
     ["schedules", "histories", "fault_sequences"], "all queueing histories up to depth 2-3 over 2-3 indices and two packet sizes, 1-2 writing threads, one or two producers, blocking and dropping, failing callbacks, restart and concurrent stop; all schedules up to the deviation bound; all histories of depth 4-5 with the writers held; sessions of 60 packets",
     "tests queue packets from one thread and look at the final files; lost/duplicated/corrupted packets need a specific interleaving",
     [D + "utils.hpp", DS + "utils.cpp"], [("packet queue and writing threads", DS + "utils.cpp DataWriter::queue / entry / stopAsyncWriting")], SCHED + "; exhaustive queueing histories",
     "exhaustive within depth and deviation bounds; the hook only lowers the minimum cache size", hook="LITIV_VERIF_CACHE_MIN_SIZE lowers the minimum queue size")

ENUM = "bounded exhaustive enumeration of inputs and operation histories on the real code, each execution compared with a reference model"
prop("P06", "Small-buffer container behaves like a resizable array, always aligned",
     "After any sequence of insertions, resizes, reservations, clears, copies and moves between buffers (with the same or different inline capacities, moved-from and self-referencing operands included), an auto buffer holds exactly the elements a plain dynamic array would, at correctly aligned addresses, in its inline storage exactly when it says so. Checked access rejects every index outside the buffer, and no sequence reads or writes outside its storage. Aligned vectors return storage with the requested alignment at every size.",
     ["histories"], "all sequences of 38 operations over three buffers up to depth 4 (5 thorough), all sizes 0..70 of aligned vectors",
     "the unit tests run one short scripted sequence; moves of heap/inline storage combine in many ways",
     [U + "cxx.hpp"], [("inline/heap storage switch", U + "cxx.hpp AutoBuffer"), ("aligned allocation", U + "cxx.hpp AlignedMemAllocator")], ENUM,
     "all operation sequences up to the depth, under the address sanitizer")
prop("P07", "Lookup tables return the function value of the nearest sample",
     "For every domain, bin count and safety margin, a lookup table returns for any position inside its domain the function's value at a sample at most half a step away (rounded lookup) or at the sample just below (truncated lookup), saturates at the end samples within its safety margin, and reports its domain, step and size exactly. This stays true after the table is moved, move-assigned or re-initialised. An empty domain is rejected.",
     ["inputs", "histories"], "8 bin counts x 3 margins x 7 domains x both storage kinds, each looked up at every eighth of a bin, before and after moves and re-initialisation",
     "the tests look up a few points of two tables",
     [U + "cxx.hpp"], [("lookup index computation", U + "cxx.hpp LUT")], ENUM, "exhaustive over the listed grid")
prop("P08", "Matrix archives read back what was written, or fail loudly",
     "A matrix written to an archive in any of the supported file formats is read back with identical dimensions, type and bit-exact content, whatever its element type, channel count, shape, continuity and values, and the input is left untouched. When the file system refuses any part of the data, writing reports an error instead of returning normally. Reading a binary or plain-text archive truncated at any byte, or a binary archive with a corrupted header, either reports an error or returns a matrix consistent with the file, without crashing, unbounded allocation or silently wrong content.",
     ["inputs", "crash_points", "fault_sequences"], "all formats x 7 depths x 1-4 channels x 8 shapes x 4 variants; every truncation length; every write-failure offset; every header byte x 256 values",
     "tests write and read a few small arrays on a healthy disk",
     [U + "opencv.hpp", US + "opencv.cpp"], [("archive reader and writer", US + "opencv.cpp cv/lv write, read")], ENUM + "; every truncation and write-failure point injected",
     "exhaustive over the listed grid; truncation of the OpenCV-parsed formats is excluded (third-party parser)")
prop("P09", "Packing matrices into one buffer and unpacking restores them exactly",
     "Packing any list of matrices (empty ones, mixed types, shapes and non-continuous views included) and unpacking with the recorded layout yields matrices identical to the originals. The packed buffer is exactly as large as the contents require, inputs stay untouched, and unpacking a buffer whose size contradicts the layout is rejected rather than read out of bounds.",
     ["inputs"], "all lists of up to 3 matrices out of a catalogue of types, shapes, empties and views",
     "tests pack one or two fixed lists",
     [U + "opencv.hpp", US + "opencv.cpp"], [("pack/unpack", US + "opencv.cpp packData / unpackData")], ENUM, "exhaustive over the catalogue, under the address sanitizer")
prop("P10", "Filesystem helpers list, filter, create and preallocate exactly as asked",
     "Directory creation succeeds whenever the directory exists when the call returns, also when several threads or processes create it at once, and reports failure only when it does not exist; listings return every regular file (or sub-directory) once, sorted, and nothing else; path filters keep and remove exactly the paths that contain the given tokens. Preallocating a binary file keeps the bytes it already had, extends it to the requested size (zero-filled where asked) with the stream placed at its start, or reports an error when the space cannot be had.",
     ["schedules", "inputs", "fault_sequences"], "all schedules of concurrent creators, all failing system calls, all subsets of a set of entry kinds and names, all filter token combinations, all small sizes and failure points",
     "tests use one existing temporary directory and no failing call",
     [U + "platform.hpp", US + "platform.cpp"], [("directory and file helpers", US + "platform.cpp createDirIfNotExist, getFilesFromDir, getSubDirsFromDir, filterFilePaths, createBinFileWithPrealloc")], SCHED + "; exhaustive input and fault enumeration",
     "exhaustive within the listed bounds; system calls are interposed in scratch directories only")
prop("P11", "Vector and string helpers agree with their definitions",
     "For every input sequence: index sorting returns a sorting permutation; unique values and unique indices give each distinct value once in ascending order, at its first occurrence; concatenation, filtering, index lookup, cumulative sums and ranges equal their definitions. Splitting a string at a delimiter gives its fields in order (only an empty last field is dropped), and case-insensitive comparison, token search, clamping to a length (cut at the end or padded in front) and wide-string conversion follow their definitions for every string.",
     ["inputs"], "all vectors over {0,1,2} up to length 5 (pairs included), all binary vectors of length 17, all small ranges, all strings over a 3-letter alphabet up to length 6",
     "tests check a few sample vectors and strings; ties and empties are not covered",
     [U + "cxx.hpp", U + "platform.hpp"], [("vector helpers", U + "cxx.hpp sort_indices, unique, unique_indices, filter_in/out, indices_of, cumulativeSum, make_range"), ("string helpers", U + "cxx.hpp / platform.hpp split, putf, compare_lowercase")], ENUM, "exhaustive over the listed bounds")
prop("P27", "Messages are formatted, printed and reported verbatim, also concurrently",
     "Formatted strings contain exactly the formatted text at every length, and safe printing writes the whole text to its stream as one uninterrupted unit even when several threads print at once. Error and assertion messages reach the caller's exception verbatim, whatever characters (such as percent signs) they contain. The verbosity setting is respected on every schedule without data races.",
     ["schedules", "inputs"], "all message lengths 0..5000, a catalogue of messages with format characters, all schedules of concurrent loggers up to the deviation bound",
     "tests never format long or format-like messages and never log from two threads under control",
     [U + "cxx.hpp", U + "defines.hpp.in", U + "platform.hpp"], [("formatting and logging", U + "cxx.hpp putf, safe_print, log; defines.hpp.in lvError/lvAssert")], SCHED + "; exhaustive input enumeration", "exhaustive within the listed bounds")
prop("P12", "Pixel, vector, binary-descriptor and histogram distances match definitions",
     "Absolute, squared and Euclidean distances between scalars, arrays, pointers and vectors of any supported element type equal their mathematical definition at every value including the type's extremes, without wrap-around; masked and multi-element forms sum the selected elements only. Colour distortion and mixed colour distance (8-bit and floating-point) match their definition, and are zero for equal or grey pairs. Population counts, Hamming and gradient-magnitude distances are exact for every bit pattern, and plain and circular one-dimensional earth mover's distances give the minimal transport cost.",
     ["inputs"], "all pairs of 1-4 channel vectors over boundary values of 8 element types; all 8/16-bit words and all 32/64-bit words with few set or cleared bits; all pairs of histograms with up to 5 bins and 4 units",
     "tests compare a handful of values; wrap-around needs particular channel values in particular types",
     [U + "math.hpp"], [("distance overloads", U + "math.hpp L1dist, L2dist, cdist, cmixdist, hdist, gdist, EMDL1dist"), ("population count", U + "math.hpp")], ENUM, "exhaustive over the listed value sets")
prop("P13", "Numeric, interpolation, linear-algebra and mixture-model helpers are correct",
     "Linear interpolation, nearest-sample search, even spacing, power-of-two and bit expansion helpers return what their definition says for every sorted knot set, request and word, and requests outside the domain are rejected. Fast approximations of reciprocal, square root and reciprocal root stay within their documented relative error over the whole exponent range. Determinants, inverses and linear solves are right for every small matrix (singular ones are reported, inputs kept), and a Gaussian mixture learned from labelled samples has the samples' weights, means and covariances and evaluates their density.",
     ["inputs"], "all matrices of order 1-4 over small integer alphabets, all knot subsets of 7 positions x 27 value patterns x requests, all 16-bit words, all sample multisets up to a length",
     "tests use a few well-conditioned samples",
     [U + "math.hpp"], [("numeric helpers", U + "math.hpp")], ENUM, "exhaustive over the listed bounds")
prop("P14", "Vectorised helpers give the same results as scalar arithmetic",
     "Horizontal sums, minima and maxima, lane extraction, comparison, unpacking, filling and per-lane multiplication of vector registers equal the scalar computation for every lane position and every lane value, including values with the sign bit set.",
     ["inputs"], "6 backgrounds x 16 lanes x 256 values x a second lane; all byte pairs; all quadruples over 10 boundary words",
     "tests exercise random registers; a wrong shuffle or signedness shows only for particular lanes and values",
     [U + "simd.hpp"], [("vector helpers", U + "simd.hpp")], ENUM, "exhaustive over the listed bounds")
prop("P17", "LBSP descriptors equal the pattern's definition at every pixel",
     "Each bit of a local binary similarity descriptor tells whether the pixel at that bit's fixed offset differs from the reference value by more than the threshold, for every image size, channel count, reference image, and absolute or relative threshold. Keypoints that are too close to the border are dropped, the others are described in order at the pixel they lie on, and dense, sparse and reshaped outputs agree. Input images stay untouched, nothing is read outside the image, and distances and border validation derived from the descriptors follow their definitions.",
     ["inputs"], "all offsets x intensities x thresholds around a pixel; all image sizes from 1x1 to 9x9 with all integer and quarter-pixel keypoints, 1/3/4 channels, with and without reference",
     "tests describe a few images at a few keypoints",
     ["modules/features2d/include/litiv/features2d/LBSP.hpp", "modules/features2d/src/LBSP.cpp"], [("descriptor extraction", "modules/features2d/include/litiv/features2d/LBSP.hpp computeDescriptor*"), ("keypoint filtering", "modules/features2d/src/LBSP.cpp")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

prop("P15", "Sampled and neighbour positions follow their windows and stay inside the image",
     "For every draw, a sampled or neighbour position is the origin shifted by an offset of the stated window (3x3, 5x5, 7x7 or a given kernel) and clamped to the image minus its border; over a full period of draws every offset comes up as often as its weight, symmetric offsets equally often and no closer offset less often. Log-polar masks number every covered cell once, excluding the centre, with the ring and angular bin of the published definition: logarithmically growing rings, equal sectors.",
     ["inputs"], "all draws of a period x all images up to 10x10 x borders 0-3 x all origins; all 511 3x3 kernels; log-polar masks of sizes 3-41",
     "tests sample a few positions; the distribution and every clamped corner need all draws and origins",
     [U + "opencv.hpp", US + "opencv.cpp"], [("position drawing", U + "opencv.hpp getSamplePosition/getNeighborPosition"), ("log-polar mask", US + "opencv.cpp getLogPolarMask")], ENUM, "exhaustive over the listed bounds")
prop("P16", "Matrix helpers read exactly the elements they are given, views included",
     "Element-wise comparison, printing, single-channel views, sub-selection, squeezing, concatenation, mask filtering of keypoints, sub-pixel access and shifting use exactly the elements of the matrix passed, also when it is a view into a larger one, and never touch memory outside it. Sub-pixel values are the bilinear mix of the four surrounding pixels under the chosen border mode at any coordinate, also negative ones, and so are shifts by fractions of a pixel, with the chosen fill outside the image; HSL and packed YCbCr conversions and label colour maps follow their definitions. Size and type descriptions of matrices compare, convert and print consistently, and aligned matrices keep every row aligned.",
     ["inputs"], "7 depths x 1-4 channels x 4 view kinds x shapes up to 4x4; all 2-5 dimensional shapes over {1,2,3}; sub-pixel grid of 1/8; all shifts by quarters of a pixel; colour cube; widths 1-40",
     "tests use a few continuous matrices; strides, tails, borders and shapes combine",
     [U + "opencv.hpp", US + "opencv.cpp"], [("matrix helpers", U + "opencv.hpp"), ("conversions", US + "opencv.cpp")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

V = "modules/video/include/litiv/video/"
VS = "modules/video/src/"
prop("P18", "ViBe, PBAS and LOBSTER classify and update as their models prescribe",
     "A pixel is foreground exactly when fewer than the required number of its stored background samples match it within the algorithm's intensity (and, for LOBSTER, descriptor) thresholds; PBAS thresholds and update rates follow its feedback rules. Background pixels may replace one of their own samples and one sample of a direct neighbour, each with the configured probability and with every sample and neighbour reachable, while foreground pixels never change the model. The initial samples come from the pixel's neighbourhood in the first frame, a model refresh replaces the requested share of samples, and the mask is the classification cleaned by the algorithm's median filter.",
     ["inputs", "histories"], "all random draws per decision, all intensities around the thresholds, 1 and 3 channels, several rates, sample counts and frame histories; sets of possible results compared with a reference model",
     "the subtractors have no tests, and their behaviour depends on random draws",
     [VS + "BackgroundSubtractorViBe.cpp", VS + "BackgroundSubtractorPBAS.cpp", VS + "BackgroundSubtractorLOBSTER.cpp"], [("sample-consensus models", VS + "BackgroundSubtractor{ViBe,PBAS,LOBSTER}.cpp apply/initialize/refreshModel")], ENUM + "; conformance of all reachable traces to a reference model", "exhaustive over the listed draws, values and histories")
prop("P19", "Every background subtractor honours the segmentation contract on any clip",
     "Every background subtractor returns a mask of the frame's size holding only background or foreground, without changing the frame, reading outside the frame or writing outside the mask it was given; a scene that does not change shows no foreground, an abrupt change of the whole frame shows foreground in the middle of the image, and pixels well outside the region of interest never become foreground; a region set later restarts the model from the current background image. Results only depend on the frames and the random draws: re-initialising gives the same results as a new object, and frames may be reused by the caller after each call. Misuse (before initialisation, wrong size or type, images too small) is refused and leaves no trace in later results.",
     ["inputs", "histories"], "seven algorithm/channel variants x all image sizes up to 11x11 x 5 scenes x constant and seeded draws x re-initialisation histories x view and region-of-interest layouts",
     "the subtractors have no tests",
     [V + "BackgroundSubtractionUtils.hpp", VS + "BackgroundSubtractionUtils.cpp", VS + "BackgroundSubtractorViBe.cpp", VS + "BackgroundSubtractorPBAS.cpp", VS + "BackgroundSubtractorLOBSTER.cpp", VS + "BackgroundSubtractorSuBSENSE.cpp", VS + "BackgroundSubtractorPAWCS.cpp", VS + "BackgroundSubtractorLBSP.cpp"], [("subtractor interface", V + "BackgroundSubtractionUtils.hpp initialize/apply"), ("implementations", VS)], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

prop("P22", "Evaluation counts, scores and accumulations match their definitions",
     "Counting a binary output against its ground truth puts every pixel in exactly one class (true/false positive/negative, or ignored when out of scope, unknown or outside the region of interest; shadow false alarms are also counted apart), and every derived score equals its textbook formula, without overflow and with zero for empty denominators. Disparity errors are the absolute differences at every pixel whose ground truth is valid for its type and inside the region, with statistics to match; coloured masks show the same decisions pixel by pixel. Totals and averages accumulated over packets, streams and batches equal the direct computation over their union (averages weighted by what each operand already holds), in any order and with not yet evaluated operands; mismatched inputs are refused.",
     ["inputs", "histories"], "all (output, ground truth, region) byte triples over 10 (thorough: all) region values, all single-pixel differences in shapes up to 4x4 in 27 memory layouts, all counter quadruples over 12 magnitudes up to 2^40, all error lists up to length 4 over threshold values, all type pairs of disparity maps, all groupings of small accumulators",
     "tests evaluate a few random maps; class boundaries, memory layouts, magnitudes and groupings combine",
     [D + "metrics.hpp", DS + "metrics.cpp"], [("pixel counting", DS + "metrics.cpp BinClassif::accumulate, StereoDispErrors::accumulate"), ("scores", D + "metrics.hpp BinClassifMetrics, StereoDispErrorMetrics"), ("accumulation", DS + "metrics.cpp IMetricsAccumulator_/IMetricsCalculator_")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

prop("P25", "Data sets mirror their directories and deliver exactly the stored packets",
     "A data set lists its groups and batches exactly as its directories (minus skipped names) do, with matching names, paths, packet counts and load sizes, and refuses missing or empty ones. Every input, ground truth or feature packet requested, in any order, with or without precaching and per stream or packed, equals the stored file (after the requested channel alignment and rescaling, with its declared size and type) at the position the batch maps it to, and is empty where nothing is mapped. Outputs and features archived by a batch read back exactly as pushed (binary masks greyed outside the region of interest), without altering the caller's data, and an output that cannot be archived is reported.",
     ["inputs", "histories"], "all subsets of 8 directory entries x scales x alignment; all trees of 3 groups over 8 kinds x skip tokens; all frame-to-ground-truth maps of up to 3-4 frames; all request histories of depth 3-4 over 13 requests for 1-3 input and 1-2 ground truth streams; 22 outputs x 17 regions; all histories of 3 feature layouts; directories of up to 130 images, 168 batches; frame directories and video files through the default parser",
     "tests load a handful of data sets sequentially; stale packets, index maps, directory kinds and archive paths combine",
     [D + "utils.hpp", DS + "utils.cpp", "modules/datasets/include/litiv/datasets.hpp"], [("tree creation", D + "utils.hpp DatasetHandler / DataGroupHandler"), ("packet loading", DS + "utils.cpp IIDataLoader, IDataLoader_, IDataProducer_"), ("archives", DS + "utils.cpp IDataArchiver")], ENUM, "exhaustive over the listed bounds, under the address sanitizer; precaching threads run under a virtual clock on one schedule (P03 explores their schedules)")

prop("P23", "Group metrics and reports aggregate exactly the outputs their batches processed",
     "At every level of a data set, output counts, processing times and classification counts (or disparity errors) are the sums over the batches below, scores computed from totals use those sums, and averaged scores are the plain mean over the batches that processed outputs; resetting a level clears exactly the batches below it. Each pushed output is evaluated against the ground truth and region of interest of its own frame, and its coloured mask shows the same. Reports are written for exactly the levels that processed outputs, one file per level at its output location, each listing its own and its descendants' values (per stream and averaged over streams for arrays) with the matching count and speed.",
     ["inputs", "histories"], "all 343 combinations of 7 histories over three batches (two in a group, one bare group) x 4 resets, reports of all 6 handlers, for 5 kinds of data sets; sessions of 300 outputs per batch",
     "no test writes or reads an evaluation report of more than one batch",
     [D + "eval.hpp", DS + "eval.cpp", D + "metrics.hpp", D + "utils.hpp"], [("recursive metrics", D + "metrics.hpp MetricRetriever_"), ("evaluators", D + "eval.hpp DataEvaluatorWrapper_"), ("reports", DS + "eval.cpp IDataReporter_")], ENUM, "exhaustive over the listed histories, under the address sanitizer")
prop("P05", "Batches count, time and report the outputs of their current processing run",
     "After any sequence of starting, stopping, pushing, resetting and precaching, a batch reports processing between start and stop only, precaching between its start and the end of processing or precaching, and counts the distinct outputs pushed since the last start or reset; groups report any activity and the sum of counts below them. Outputs pushed while not processing are refused without effect, evaluation results accumulate until they are reset, and starting twice or stopping twice changes nothing. Threads that await the final count or time of a batch or a group receive exactly the values of the run being processed once it stops, on every schedule, without deadlock or data race, and again on every later request.",
     ["histories", "schedules"], "all sequences of 12 operations up to depth 4-5 on two batches; all schedules of 1-2 waiters, two processing threads, restarts and resets within the deviation bound",
     "tests start and stop a batch once, on one schedule",
     ["modules/datasets/include/litiv/datasets.hpp", D + "utils.hpp", DS + "utils.cpp"], [("processing run", "modules/datasets/include/litiv/datasets.hpp WorkBatch::startProcessing/stopProcessing"), ("counting", DS + "utils.cpp IDataCounter")], SCHED + "; exhaustive operation sequences against a reference model", "exhaustive within depth and deviation bounds; assumes sequentially consistent memory")

IM = "modules/imgproc/"
prop("P21", "Image operations equal their definitions on every image, mask and layout",
     "Histograms, medians (the upper middle value of the unmasked pixels), masked median filters, neighbourhood consensus, integral images, non-maximum suppression, directional local maxima, patch affinities (square root of the summed squared differences, or normalised mutual information), flow-based remapping and temporal differences give at every pixel what their definition gives, for every mask, size, channel count and output buffer, never touching inputs or pixels outside the image, and refuse unusable inputs. Thinning returns the one-pixel-wide skeleton of the selected published algorithm without moving or adding pixels. Warping sends each target control point to its source point and all other pixels by the weighted rigid or similarity transform (bilinear between grid nodes, scaled by the strength, the identity for fewer than two points), and colour mixtures assign every pixel to its most likely component and re-estimate weights, means and covariances from exactly the pixels assigned to them.",
     ["inputs"], "all small images over boundary values x all masks x kernels x output buffers, all sizes up to about 11x11, all binary images of up to 4x4 for thinning, all patch pairs in small images, all two-point correspondences on a lattice x grids x modes x strengths, all six-pixel images over four colours for mixtures",
     "tests run each operation on one or two images; borders, masks, degenerate inputs and layouts combine",
     [IM + "include/litiv/imgproc.hpp", IM + "src/imgproc.cpp", IM + "include/litiv/imgproc/imwarp.hpp", IM + "src/imwarp.cpp"], [("pixel operations", IM + "src/imgproc.cpp"), ("templates", IM + "include/litiv/imgproc.hpp nonMaxSuppression, isLocalMaximum_*, GMM"), ("warping", IM + "src/imwarp.cpp ImageWarper")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

prop("P20", "Edge detectors mark exactly the edges their definition selects",
     "Multi-scale texture edge detection marks, at their own position, exactly the pixels whose gradient (the number of comparison-pattern neighbours that differ in the strongest channel, limited by all coarser scales) is maximal over two pixels along its direction, reaches the low threshold and is connected through such pixels to one reaching the high threshold; Canny detection equals the standard algorithm on the smoothed image. Masks are binary and of the image's size, confidence maps accumulate the masks of all thresholds (normalised when asked), out-of-range thresholds mean the default, and unusable inputs or parameters are refused. This holds for every image size (even smaller than the pattern), channel count and scale count, without touching the input or memory outside the buffers, and does not depend on images processed before.",
     ["inputs", "histories"], "all sizes from 1x1 to 13x13 (20x20) x 1-4 channels x 1-4 scales x 11 scenes x 6 thresholds; all 3x3 patterns x 4 contrasts x all thresholds and all 4x4 and block patterns (strided in the quick tier); sizes around 12-41 for 2-4 scales; detectors reused throughout",
     "no test checks the content of an edge mask; borders, small levels, reuse and thresholds combine",
     [IM + "src/EdgeDetectorLBSP.cpp", IM + "include/litiv/imgproc/EdgeDetectorLBSP.hpp", IM + "src/EdgeDetectorCanny.cpp", IM + "include/litiv/imgproc/EdgeDetectorCanny.hpp", "modules/features2d/include/litiv/features2d/LBSP.hpp"], [("texture edges", IM + "src/EdgeDetectorLBSP.cpp"), ("Canny", IM + "src/EdgeDetectorCanny.cpp")], ENUM, "exhaustive over the listed bounds, under the address sanitizer; OpenCV's Canny and GaussianBlur are the oracle for the second detector")

F = "modules/features2d/include/litiv/features2d/"
FS_ = "modules/features2d/src/"
prop("P24", "Dense descriptors and similarity scores equal their published definitions",
     "Mutual information (sparse or dense histograms, fast or exact, normalised or not), local self-similarity, adaptive self-correlation (recursive or guided filtering) and shape context (absolute, relative or rotation invariant) values equal their published definitions at every position of every image, views included, without changing the image or touching memory outside it. Results depend only on the image, keypoints and parameters: reusing an extractor or an output matrix, whatever was described before, gives the same results as new ones, and a keypoint is described like the pixel its position rounds to. Keypoints too close to the border are removed or refused, and masks and regions of interest exclude exactly the pixels they should.",
     ["inputs", "histories"], "all pairs of images up to 4 pixels over {0,1,255} x 3 quantification steps; windows 1-5; 3-30 parameter sets per descriptor x textures x views x sizes; all shapes up to 3x3 plus larger patterns; all histories of 3 operations out of 10; quarter-pixel keypoints",
     "tests compare a few stored descriptors of one image, computed once per extractor",
     ["modules/features2d/include/litiv/features2d.hpp", F + "MI.hpp", FS_ + "MI.cpp", F + "LSS.hpp", FS_ + "LSS.cpp", F + "DASC.hpp", FS_ + "DASC.cpp", F + "SC.hpp", FS_ + "SC.cpp"], [("mutual information", "modules/features2d/include/litiv/features2d.hpp calcJointProbHist/calcMutualInfo"), ("self-similarity", FS_ + "LSS.cpp ssdescs_impl"), ("self-correlation", FS_ + "DASC.cpp dasc_*_impl"), ("shape context", FS_ + "SC.cpp scdesc_fill_*")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

prop("P26", "The boundary benchmark counts and scores edge maps as BSDS500 defines",
     "At each confidence threshold, an edge map's detections are thinned and matched one-to-one to every human annotation, within the distance tolerance and with the largest possible number of matches, giving exactly the benchmark's counts of matched and existing boundary pixels. Per-image best scores, the scores of the whole set at each threshold, the best point of the interpolated curve, the maxima and the area under the precision-recall curve follow from those counts exactly as the benchmark defines them, merged sets score like the set of all their images, and reports list these values. The underlying assignment solver returns a perfect matching of minimum total cost for every graph that has one.",
     ["inputs"], "all cost matrices up to 3x3 (4x4 with few costs); all subset draws; all pairs of small boundary maps around three cells and several image shapes; all confidence maps over threshold-straddling levels; all counter lists over boundary values; data sets of 1-3 images with 1-3 annotations",
     "the benchmark has no unit test; thresholds, ties, tolerances and degenerate counts combine",
     [DS + "impl/BSDS500.cpp", D + "impl/BSDS500.hpp", "3rdparty/bsds500/src/csa.cpp", "3rdparty/bsds500/src/kofn.cpp"], [("matching", DS + "impl/BSDS500.cpp MetricsAccumulator_::accumulate"), ("scores", DS + "impl/BSDS500.cpp MetricsCalculator_::updateScores"), ("assignment", "3rdparty/bsds500")], ENUM, "exhaustive over the listed bounds, under the address sanitizer; where several maximum matchings exist, any of them is accepted")

SP = "3rdparty/sospd/include/litiv/3rdparty/sospd/"
prop("P28", "Energy minimisation finds the true minimum of sums of submodular terms",
     "For every sum of constant, unary and submodular clique terms, each flow algorithm and bound function labels every variable so that the total energy is the minimum over all labellings, and the energy of any labelling (or of the solution) is reported exactly. Multi-label minimisation starts from the cheapest individual labels, never raises the energy, gives each variable its old or its proposed label, and takes the best such mixture whenever the terms are submodular in that choice. Bounds of arbitrary functions lie on their documented side and are submodular, and submodularity tests, normalisations and linear updates are exact; no memory outside the problem is touched.",
     ["inputs"], "all 2-variable tables over 3 values x 3 scales x 256 unaries; all 3-variable tables over {0,1,2} x 27 unaries; chains, cycles, stars and overlapping cliques of up to 5 variables; all functions of 2-3 variables for the bounds; 2-3 labels x 2-3 variables x proposal kinds; 3 flow algorithms",
     "the library has no test of its own; a wrong flow or bound still returns a plausible labelling",
     [SP + "submodular-ibfs.hpp", SP + "flow-solver.hpp", SP + "sos-graph.hpp", SP + "submodular-functions.hpp", SP + "multilabel-energy.hpp", SP + "sospd.hpp"], [("flow", SP + "flow-solver.hpp"), ("graph", SP + "sos-graph.hpp"), ("bounds", SP + "submodular-functions.hpp"), ("multi-label", SP + "sospd.hpp")], ENUM, "exhaustive over the listed bounds, under the address sanitizer")

VP = "modules/vptz/"
prop("P29", "The virtual PTZ camera shows, moves and evaluates by exact spherical geometry",
     "Pixels and viewing angles convert into each other by the pinhole projection of the camera's field of view and angles (targets behind it are reported as such), pictures show the panorama in each pixel's direction, and centring on a pixel turns to its direction, reporting the turn taken along the shorter way; ground truth points and boxes are translated between views accordingly and invalid angles, sizes and positions are refused without effect. During playback the frame shown is the one the elapsed (waiting, motion and communication) time selects, and playback ends after the last frame. Tracking evaluation records for every frame the point error, offset and box overlap against that frame's own ground truth (-1 when the target is out of view), and averages and ratios over exactly the frames of the test.",
     ["inputs", "histories"], "5 image sizes x 4 fields of view x 12 pan x 7 tilt angles x all pixels and a 15-degree target grid; all boxes of a catalogue; all histories of 3 turns out of 12; all playback histories of 4 moves out of 3 from every frame at 2 rates; all evaluation histories of 2-3 frames over 16 tracker/aim choices, single and in sets",
     "the camera has no tests; sign, wrap-around, rounding and out-of-view cases combine",
     [VP + "src/virtualptz.cpp", VP + "include/litiv/vptz/virtualptz.hpp"], [("geometry", VP + "src/virtualptz.cpp PTZPointXYtoHV / PTZPointHVtoXY / GTTranslator"), ("camera", VP + "src/virtualptz.cpp Camera"), ("evaluation", VP + "src/virtualptz.cpp Evaluator")], ENUM, "exhaustive over the listed bounds, under the address sanitizer; the graphics library is replaced by a software renderer with the same matrices")

prop("P30", "Published data sets are read exactly as their documented layouts define",
     "CDnet (2012 and 2014), Wallflower, PETS2001 and BSDS500 directories yield exactly their published groups and sequences, and each frame, ground truth, region of interest and annotation stack requested in any order is the one its file name or position designates (converted to the declared channels and scaled by nearest neighbour), and none where the data set has none. Regions are the common area of the two region images, thermal and turbulence sequences are grey, results are archived under the names the official evaluation expects. Incomplete or inconsistent data sets are refused.",
     ["inputs", "histories"], "2 CDnet versions x 4 region pairs x 3-5 scales x alignment x file kinds x 3 access patterns; all Wallflower sequences of 1-4 frames x annotated position; all annotated subsets of 1-4 frame videos with all request histories of length 3; BSDS500 groups x orientations x annotation counts x 4 scales; 10, 8, 7 and 6 kinds of defects at every place",
     "the published data is not available to the tests",
     [D + "impl/CDnet.hpp", D + "impl/Wallflower.hpp", D + "impl/PETS2001.hpp", D + "impl/BSDS500.hpp", DS + "utils.cpp"], [("parsers", D + "impl/*.hpp DataProducer_::parseData"), ("loading", DS + "utils.cpp IDataProducer_<DatasetSource_Video>")], ENUM, "exhaustive over the listed bounds, under the address sanitizer; small synthetic data sets in the published layouts")

prop("P31", "SuBSENSE classifies, learns and adapts as its feedback model prescribes",
     "SuBSENSE marks a pixel as foreground before cleaning exactly when fewer than the required background samples match its colours and binary patterns within the pixel's current thresholds; background pixels update their own samples and those of a neighbour at the pixel's current rate, and static foreground next to background is absorbed. Per-pixel thresholds, rates, modulators, running averages and blink and instability flags, and the global pattern thresholds, follow the published feedback rules frame after frame; frames of at least 320x240 also scale their learning rates and partly reset the model when the whole scene changes. The final mask is the raw one closed, hole-filled and median-filtered; initial samples pair the colour and the pattern of one drawn position, also next to image borders and regions of interest.",
     ["inputs", "histories"], "all draws on one modelled pixel over 3-frame histories, all values and neighbourhoods, 60-frame feedback histories, textured frames of 5x5 to 13x13, regions of interest, clips of 320x240 and more",
     "the subtractor has no tests, and its behaviour depends on long histories and random draws",
     [VS + "BackgroundSubtractorSuBSENSE.cpp", V + "BackgroundSubtractorSuBSENSE.hpp", VS + "BackgroundSubtractorLBSP.cpp"], [("feedback model", VS + "BackgroundSubtractorSuBSENSE.cpp initialize/apply/refreshModel"), ("initial descriptors", VS + "BackgroundSubtractorLBSP.cpp initialize_common")], ENUM + "; conformance of every frame to a reference model", "exhaustive over the listed draws, values and histories")

NOT_APPLICABLE = []

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            if p["hook"]: a["hook_needed"] = p["hook"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "python3 mc/run.py --build-all",
         "hooks": {"guard": "LITIV_VERIF_CACHE_MIN_SIZE", "enable": "-DLITIV_VERIF_CACHE_MIN_SIZE=64 (only for the harnesses of P03, P04, P05, P23, P25 and P30)", "source_commits": ["29baa93"]},
         "checks": [{"property": p["id"], "quick_cmd": "python3 mc/run.py %s quick" % p["id"], "thorough_cmd": "python3 mc/run.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in na],
         "not_applicable": NOT_APPLICABLE,
         "notes": "All checks build from /repo's working tree into /verif/build (git-ignored). See DESIGN.md."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
