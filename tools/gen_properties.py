#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, then run."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

NT="The nine stable tests exercise only Bayer cosmetic correction, debayering, 2D Gauss/unsharp kernels and the median; "

p("C01","Image statistics always describe the current pixels",
 "Whenever a processing step hands an image on, the minimum, maximum, mean, standard deviation, location, scale and noise it reports are those of the pixels the image holds at that moment, never of pixels before a modification or of a replaced pixel buffer. No step reads an image's statistics between changing the pixels and refreshing them.",
 ["inputs","programs"],"All operators, all parameter settings, all sequences of operators.",
 NT+"no test runs an operator and then asks for statistics, and staleness depends on which statistics happened to be cached by earlier steps.",
 ["internal/stats/stats.go","internal/fits/pixelops.go","internal/fits/rgb.go","internal/fits/fits.go","internal/ops"],
 [("lazily cached statistics and their invalidation","internal/stats/stats.go"),("in-place pixel operations","internal/fits/pixelops.go, internal/fits/rgb.go, internal/fits/project.go"),("operators that overwrite or replace pixel data","internal/ops/pre, internal/ops/stretch, internal/ops/hsl, internal/ops/rgb, internal/ops/post, internal/ops/stack")])

p("C02","Failures to read, write or process files are always reported",
 "If any file-system, stream, decoding or encoding operation, or any processing step, fails, the failure reaches the caller as an error: a step never reports success after a failed read, write, flush, close, decode or upstream step.",
 ["fault_sequences","inputs"],"Every fallible I/O call and every step invocation in the program, every point of failure.",
 NT+"no test injects an I/O fault or checks a returned error.",
 ["internal/fits","internal/ops","internal/rest/serve.go","cmd/nightlight/main.go"],
 [("readers","internal/fits/read.go, internal/fits/tiff16.go"),("writers","internal/fits/write.go, internal/fits/tiff16.go, internal/fits/writejpg.go"),("save and statistics export operators","internal/ops/operator.go, internal/ops/ref/exportstats.go"),("promise evaluation and error aggregation","internal/ops/operator.go")])

p("C03","A successful save leaves exactly the saved content on disk",
 "When writing an output file reports success, the file has been truncated to exactly the new content, everything buffered or compressed has been flushed and finished in the right order, and the file has been closed. Overwriting a longer existing file leaves no stale bytes behind.",
 ["histories","fault_sequences"],"All output formats (FITS, gzipped FITS, TIFF, JPEG, CSV statistics), any pre-existing file content.",
 NT+"no test writes a file at all, let alone over an existing one.",
 ["internal/fits/write.go","internal/fits/tiff16.go","internal/fits/writejpg.go","internal/ops/ref/exportstats.go"],
 [("FITS/gzip writer","internal/fits/write.go"),("TIFF writer","internal/fits/tiff16.go"),("JPEG writer","internal/fits/writejpg.go"),("CSV statistics writer","internal/ops/ref/exportstats.go")])

p("C04","Every frame promised to a step is evaluated, none is silently forgotten",
 "Every frame promise a step receives or creates is either evaluated, handed on in its outputs, or the step fails with an error; optional side outputs (saved intermediate images) are really produced. No step evaluates the same input promise a second time to produce its output.",
 ["programs","histories"],"All operator graphs and all combinations of optional outputs.",
 NT+"no test builds an operator sequence.",
 ["internal/ops/operator.go","internal/ops/pre","internal/ops/ref","internal/ops/rgb","internal/ops/stack","internal/ops/hsl"],
 [("promises and their evaluation","internal/ops/operator.go"),("intermediate saves","internal/ops/pre/preprocess.go, internal/ops/pre/background.go"),("reference frame and batch evaluation","internal/ops/ref/refframe.go, internal/ops/stack/stackbatches.go")])

p("C05","Every operator can be submitted by its JSON type and behaves as submitted",
 "Every operator is registered under exactly one distinct type name. Decoding a JSON job yields that operator with the submitted values, documented defaults for omitted fields, and processing behaviour bound to the decoded object itself rather than to a default instance; every parameter has its own distinct JSON name, and unknown types are rejected with an error.",
 ["programs","inputs"],"All operator types, all subsets of fields present in the JSON.",
 NT+"no test decodes a job.",
 ["internal/ops"],
 [("operator registry and sequence decoding","internal/ops/operator.go"),("per-operator JSON decoding with defaults","internal/ops/*/*.go")])

p("C06","The web block editor only produces jobs the engine understands",
 "Every block the web editor offers has a code generator, and every job object a generator emits names an operator type the engine accepts, only uses parameter names that operator reads, and gives them values of the kind the parameter has; everything the user enters in a block reaches the job, choices offered for a mode are defined modes, and a job or nested step list of a single block is carried out like a longer one.",
 ["programs","inputs"],"All blocks in the toolbox and all generator definitions.",
 "The web front end has no tests; the mismatch only shows when a user submits the particular block.",
 ["web/js/blocks.js","web/js/codegen.js","web/js/toolbox.js","internal/ops"],
 [("block definitions, toolbox and generators","web/js"),("operator JSON tags","internal/ops")])

p("C07","Concurrently processed frames never race on shared state",
 "State shared between frames that are processed concurrently (execution context, operator objects, shared counters, output files, package variables) is only modified under a lock held by every concurrent accessor, in per-frame disjoint slots, or before concurrency starts. Every lock taken is released on every path out of the function, including error paths.",
 ["schedules"],"All interleavings of frame processing with any concurrency limit.",
 NT+"they are single-threaded and cannot sample schedules.",
 ["internal/ops","internal/fits","internal/stats"],
 [("shared execution context","internal/ops/operator.go"),("reference selection lock","internal/ops/ref/refframe.go"),("statistics export lock","internal/ops/ref/exportstats.go"),("stacking counters","internal/ops/stack/stack.go")])

p("C08","Parallel work is bounded and complete before results are used",
 "Every function that fans work out to goroutines waits for all of them before it returns or reads their results, every worker gives its concurrency slot back on every path including failure, a slot is acquired before each worker starts, and the number of simultaneously running workers never exceeds the limit.",
 ["schedules"],"All schedules, all worker outcomes, all sizes of work lists.",
 NT+"no test observes goroutine completion.",
 ["internal/ops/operator.go","internal/fits/pixelops.go","internal/ops/stack/stack.go","internal/ops/ref/refframe.go"],
 [("promise materialization with a concurrency limiter","internal/ops/operator.go"),("parallel pixel operations","internal/fits/pixelops.go"),("parallel stacking","internal/ops/stack/stack.go")])

p("C09","A dropped frame never crashes a later step",
 "A step may drop a frame (for example by quality filtering or failed alignment) by producing no image; every later step treats a missing image as nothing to do or as an error, and never dereferences it.",
 ["programs","inputs"],"All operator sequences after a dropping step.",
 NT+"no test chains operators.",
 ["internal/ops"],
 [("unary operator base","internal/ops/operator.go"),("dropping steps","internal/ops/ref/filter.go, internal/ops/post/postprocess.go"),("consumers of several frames","internal/ops/ref, internal/ops/rgb, internal/ops/stack")])

p("C10","Jobs only read image files inside the working directory tree",
 "No image file is opened for reading on behalf of a job unless its name has first been checked to be relative and free of parent-directory components; a name failing the check is rejected or skipped, including names produced by wildcard expansion, and calibration and reference frames.",
 ["inputs","programs"],"All file names and patterns a job can contain, all operators that read files.",
 NT+"no test submits a path.",
 ["internal/ops/operator.go","internal/ops/pre/preprocess.go","internal/ops/ref/refframe.go"],
 [("path check and load operators","internal/ops/operator.go"),("dark, flat and reference frame loading","internal/ops/pre/preprocess.go, internal/ops/ref/refframe.go")])

p("C11","Memory-limited batch stacking covers every input frame exactly once",
 "When frames are stacked in several batches, the batches together contain every input frame exactly once for every number of frames and every memory limit; randomising the assignment only permutes the frames, and each batch enters the combined result weighted by the number of frames it holds.",
 ["inputs","configurations"],"All frame counts, image sizes, memory and thread limits.",
 NT+"no test reaches batch partitioning, and the failing combinations are sparse in (frames, memory, threads).",
 ["internal/ops/stack/stackbatches.go"],
 [("batch partitioning and batch loop","internal/ops/stack/stackbatches.go")])

p("C12","Stacking weights stay with the frame they were computed for",
 "In every weighted stacking mode, each sample is multiplied by the weight of the frame it came from, whatever reordering, clipping or skipping of samples takes place, and a requested weighting is either applied or rejected with an error.",
 ["inputs"],"All pixel values, weights, stacking modes and weighting modes.",
 NT+"no test stacks frames.",
 ["internal/ops/stack/stack.go"],
 [("weighted stackers","internal/ops/stack/stack.go")])

p("C13","Missing samples never contaminate a stacked pixel",
 "In every stacking mode, a sample that is not a number is excluded from the pixel it belongs to, and a pixel without any valid sample gets the designated fallback value instead of the result of an empty computation.",
 ["inputs"],"All frames with arbitrary patterns of missing pixels, all stacking modes.",
 NT+"no test stacks frames, and alignment produces missing samples only at data-dependent borders.",
 ["internal/ops/stack/stack.go"],
 [("sample gathering in each stacker","internal/ops/stack/stack.go")])

p("C14","FITS pixels are decoded and encoded in the standard's byte layout",
 "For each sample type of the FITS standard (8, 16, 32 and 64 bit integers, 32 and 64 bit floats) every pixel is assembled from the right number of big-endian bytes with the right signedness and then scaled and offset as the header says, and any other sample type is rejected. Written pixels are big-endian 32 bit floats matching the declared sample type.",
 ["inputs"],"All sample types, all pixel values, all header scale/offset values.",
 NT+"no test reads or writes a FITS file.",
 ["internal/fits/read.go","internal/fits/write.go"],
 [("sample type dispatch and decoders","internal/fits/read.go"),("encoder","internal/fits/write.go")])

p("C15","Written FITS headers are well formed and readable back",
 "Every header record written is exactly 80 characters, header and data are padded to multiples of 2880 bytes, the header ends with an END record, and the mandatory keywords as well as every keyword that carries image geometry, scaling and exposure are written under names the reader interprets. The other entries which were read from a file are written as well, each once and with its own value.",
 ["inputs"],"All images, all header keys, values and comments.",
 NT+"no test writes a header.",
 ["internal/fits/write.go","internal/fits/read.go"],
 [("header record writers and padding","internal/fits/write.go"),("header interpretation","internal/fits/read.go")])

p("C16","Unknown or unsupported modes are rejected, known modes are all implemented",
 "Wherever behaviour is selected by a mode value that a job or command line can set (stacking, weighting, alignment, histogram matching, reference selection, export range, colour filter array, output format), every defined mode is implemented, and any other value produces an error instead of being treated silently as some other mode or producing empty results.",
 ["inputs","configurations"],"All values of each mode parameter, defined or not.",
 NT+"only one colour filter array pattern is tested.",
 ["internal/ops"],
 [("mode dispatch","internal/ops/operator.go, internal/ops/stack/stack.go, internal/ops/post/postprocess.go, internal/ops/ref/refframe.go, internal/ops/pre/debayer.go, internal/ops/pre/badpixels_bayer.go")])

p("C17","Exported samples always lie in the range of the output format",
 "When pixels are converted to the integer samples of TIFF or JPEG output, every value, including values outside the selected export range, infinities and missing values, is first brought into the representable range, identically for monochrome and colour output; no conversion wraps around.",
 ["inputs"],"All pixel values including NaN and infinities, all export ranges.",
 NT+"no test exports an image.",
 ["internal/fits/tiff16.go","internal/fits/writejpg.go"],
 [("TIFF export","internal/fits/tiff16.go"),("JPEG export","internal/fits/writejpg.go")])

p("C18","Job parameters cannot crash the process",
 "A numeric parameter of a job is checked before it is used as a divisor, an allocation size, an index or a loop step, an operator a job leaves null is tested for before it is used, and no operator reachable from a job deliberately panics or terminates the process; a bad value yields an error or a defined result.",
 ["inputs"],"All values of all numeric job parameters, including zero and negative ones.",
 NT+"no test submits a hostile or degenerate parameter.",
 ["internal/ops","internal/fits","internal/rest/serve.go"],
 [("operator parameters","internal/ops"),("helpers they reach","internal/fits, internal/stats, internal/star")])

p("C19","Operators reject a wrong number of inputs instead of crashing",
 "Every operator given fewer or more input frames than it can handle returns an error; no operator accesses an input that may not be there or silently ignores surplus inputs.",
 ["programs"],"All operator sequences, i.e. any number of inputs to any operator.",
 NT+"no test builds an operator sequence.",
 ["internal/ops"],
 [("input checks of each operator","internal/ops")])

p("C20","Calibration masters and shared reference data stay unmodified",
 "Once published to the shared execution context, the dark frame, flat frame, luminance frame, alignment reference stars and reference histogram are never modified by the processing of any frame, so each frame is processed against the same masters whatever the order.",
 ["histories","schedules"],"All operator sequences and processing orders.",
 NT+"no test calibrates or aligns several frames.",
 ["internal/ops","internal/fits"],
 [("shared execution context","internal/ops/operator.go"),("calibration","internal/ops/pre/preprocess.go"),("reference selection and use","internal/ops/ref/refframe.go, internal/ops/post/postprocess.go")])

p("C21","Neutral settings leave pixels untouched",
 "An operator whose documented strength, window, radius, sigma, factor or file-name setting is at its off value (zero, empty, or factor one where documented) passes the image through with unchanged pixels and does not fail.",
 ["inputs"],"All images; every operator with a documented off setting.",
 NT+"no test runs an operator at its off setting.",
 ["internal/ops"],
 [("early exits of each operator","internal/ops"),("documentation of off values","README.md, cmd/nightlight/main.go")])

p("C22","Processing loops always make progress",
 "Every loop whose exit depends on data advances towards its exit on every iteration, whatever the pixel values, header contents and parameters: no input can make a processing step run forever.",
 ["inputs"],"All pixel contents and parameters, including constant images, NaN and values outside sampling bounds.",
 NT+"tests use benign data on a handful of functions.",
 ["internal/stats","internal/star","internal/ops","internal/fits","internal/qsort"],
 [("iterative estimators and samplers","internal/stats/stats.go"),("partitioning, clustering and clipping loops","internal/qsort, internal/star, internal/ops")])

p("C23","Repeated runs produce the same files",
 "Running the program again on the same inputs and settings gives the same output files: their content and order do not depend on map iteration order, wall-clock time, randomly seeded random numbers, or the order in which concurrently processed frames complete.",
 ["schedules","histories"],"All runs on the same inputs and settings.",
 NT+"no test compares two runs.",
 ["internal/fits/write.go","internal/ops"],
 [("header serialization","internal/fits/write.go"),("result ordering","internal/ops/operator.go, internal/ops/stack")])

p("C24","The server confines itself before it serves, or does not start",
 "When confinement is requested, the process changes its root directory, moves into that new root, and then gives up its user id, in this order; any failure of one of these stops the program, and all of it happens before the HTTP server accepts requests.",
 ["configurations","fault_sequences"],"All combinations of confinement options and all failures of the individual steps.",
 "The server and its sandbox have no tests, need root, and are left out of the build.",
 ["internal/rest/sandbox_unix.go","internal/rest/serve.go","cmd/nightlight/main.go"],
 [("sandbox","internal/rest/sandbox_unix.go"),("server start","cmd/nightlight/main.go")])

p("C25","The same engine exists on every supported platform",
 "On every supported operating system and processor architecture the program type-checks, offers the same functions with the same signatures, and processor-specific fast paths are only taken after checking that the processor supports them, and only for inputs whose size they can handle, so that they never touch memory outside the arrays they are given.",
 ["configurations"],"Linux, macOS and Windows on amd64 and arm/arm64.",
 "Tests run on one platform only.",
 ["internal/median","internal/stats","internal/rest"],
 [("architecture variants","internal/median, internal/stats"),("operating system variants","internal/rest")])

p("C26","Every documented command and option takes effect",
 "Every command the documentation or usage text lists is implemented, every command-line option influences the run, and an unknown command is rejected.",
 ["configurations"],"All commands and all options.",
 "The command line program has no tests and is left out of the build.",
 ["cmd/nightlight/main.go","README.md"],
 [("command dispatch and option wiring","cmd/nightlight/main.go")])

p("C27","Parallel decomposition covers every pixel exactly once",
 "When an image is split into work packages for parallel processing, the packages are disjoint, together cover all pixels of all channels, and the split makes progress for every image size, including sizes smaller than the number of workers.",
 ["inputs","configurations"],"All image sizes and CPU counts.",
 NT+"no test runs a parallel pixel operation.",
 ["internal/fits/pixelops.go","internal/ops/stack/stack.go"],
 [("parallel pixel operations","internal/fits/pixelops.go"),("parallel stacking","internal/ops/stack/stack.go")])

p("C28","Colour filter array patterns are interpreted the same way everywhere",
 "For each supported colour filter array pattern, the position of the red, green and blue photosites used by debayering and by cosmetic correction is the one spelled out by the pattern name, in upper or lower case.",
 ["inputs","configurations"],"All supported patterns, both users of the pattern.",
 NT+"only the RGGB pattern is tested.",
 ["internal/ops/pre/debayer.go","internal/ops/pre/badpixels_bayer.go"],
 [("pattern to offset tables","internal/ops/pre/debayer.go, internal/ops/pre/badpixels_bayer.go")])

p("C29","Every operator parameter has its own effect",
 "Every parameter of every operator is used by its processing, the values given when an operator is constructed end up in the parameters of the same meaning, and no two parameters are confused on the way from the operator to the pixel function that uses them.",
 ["inputs","programs"],"All operators and all parameter values.",
 NT+"no test varies operator parameters.",
 ["internal/ops","internal/fits/pixelops.go"],
 [("operator constructors and parameters","internal/ops"),("pixel function parameter records","internal/fits/pixelops.go, internal/fits/rgb.go")])

p("C30","Dynamically typed values always have the type their user expects",
 "Wherever a value is passed through a dynamically typed parameter or container (pixel function parameters, tree payloads, decoded images, response writers), the receiving code either handles every type that can arrive or is only ever given the type it requires; no input leads to a type conversion failure.",
 ["inputs","programs"],"All call paths to each conversion, all decoded image kinds.",
 NT+"no test reaches these conversions.",
 ["internal/fits/pixelops.go","internal/fits/rgb.go","internal/fits/tiff16.go","internal/star"],
 [("pixel function parameter records","internal/fits/pixelops.go, internal/fits/rgb.go"),("decoded TIFF images","internal/fits/tiff16.go"),("tree payloads","internal/star/kdtree3p.go, internal/star/align.go")])

p("C31","Having nothing to work with never crashes a run",
 "Wherever a median, an extreme value, a nearest neighbour, a first or a last element is taken from a collection, the collection has the elements which are taken, for every input: pixels missing in all frames, background cells full of stars or of one value only, rows without any pixel below a threshold, images of a single pixel or with a single axis, too few stars to form a triangle, no frames to select a reference from. Every image which is read or made has at least two axes and one pixel. Positions calculated from measured values, which may be not a number because of missing pixels, are limited before they select anything.",
 ["inputs"],"All accesses at constant positions or at positions relative to the length, in all functions, with the requirement followed to where the collection is made.",
 NT+"these collections are empty only for unusual inputs which no test samples.",
 ["internal/qsort","internal/stats","internal/star","internal/ops","internal/fits"],
 [("medians and quantiles","internal/qsort/qsort.go"),("gathering across frames","internal/ops/stack/stack.go"),("background cells","internal/ops/pre/background.go"),("banding","internal/ops/pre/banding.go"),("nearest neighbours","internal/star/kdtree2.go, internal/star/kdtree3p.go"),("axes of images","internal/fits/read.go, internal/fits/tiff16.go, internal/fits/fits.go")])

p("C32","Images of different dimensions are never combined pixel by pixel",
 "Wherever pixels of one image are combined with those of another one - stacking frames, adding up batches, subtracting a dark frame, dividing by a flat frame, joining colour channels, applying a luminance image - the two have the same dimensions, or the step fails with an error before any pixel is combined. Only calibration masters may have other dimensions, if the number of pixels is the same.",
 ["inputs"],"All accesses to pixels at positions which go as far as another image does, for all frames, channels and masters.",
 NT+"frames of different sizes are mixed up or crash only for combinations of inputs no test has.",
 ["internal/ops/stack","internal/ops/pre/preprocess.go","internal/ops/rgb/rgb.go","internal/ops/hsl/hsl.go","internal/fits"],
 [("stacking","internal/ops/stack/stack.go, internal/ops/stack/stackbatches.go"),("calibration","internal/ops/pre/preprocess.go"),("channels and luminance","internal/ops/rgb/rgb.go, internal/ops/hsl/hsl.go, internal/fits/rgb.go"),("comparison of dimensions","internal/fits/fits.go")])

p("C34","Color steps work on images with three color planes only",
 "A step which works on color channels is applied only to an image which has three planes along its last axis; given any other image - mono, or a cube of another depth - it fails with an error instead of taking thirds of the picture for channels. Images are saved as one plane only if they have no other, and as color only if they have three. Code which takes the planes apart takes each of them.",
 ["inputs"],"All operators and exports, all axes an image can have.",
 NT+"a step in the wrong place of a pipeline, or a cube as input, is a combination no test has.",
 ["internal/ops/hsl/hsl.go","internal/ops/rgb/rgb.go","internal/ops/operator.go","internal/fits"],
 [("color operators","internal/ops/hsl/hsl.go, internal/ops/rgb/rgb.go"),("export","internal/ops/operator.go (OpSave), internal/fits/tiff16.go, internal/fits/writejpg.go"),("planes","internal/fits/pixelops.go, internal/fits/rgb.go, internal/stats/stats.go (NewStatsForChannel)")])

p("C33","The dimensions of an image describe its pixels",
 "For every image, the product of its axes is its number of pixels, and the array of pixels has that length: whatever is read, made, stacked, debayered, binned, projected, or combined of channels, for any number of axes. An image made empty and then filled in is filled in on all of its planes.",
 ["inputs"],"All functions setting axes, number of pixels or array of pixels of an image, for all axes and all sizes.",
 NT+"agreement of three fields for all sizes, parities and numbers of planes is not shown by the few sizes a test has.",
 ["internal/fits","internal/ops/pre/preprocess.go","internal/ops/pre/debayer.go","internal/ops/stack/stack.go"],
 [("constructors","internal/fits/fits.go (NewImageFromNaxisn, NewImageFromImage, NewImageBinNxN), internal/fits/rgb.go"),("reading","internal/fits/read.go, internal/fits/tiff16.go"),("steps","internal/ops/pre/preprocess.go (OpDebayer, OpBackExtract), internal/fits/project.go, internal/ops/stack/stack.go")])

# not applicable to static analysis here
def n(id,title,statement,text,files,mech):
    p(id,title,statement,["inputs"],text,NT+"the property is quantitative and holds over a continuum of inputs.",files,mech)

n("N01","Alignment recovers the true transformation",
 "If two frames show the same star field shifted, rotated and scaled, alignment either finds a transformation mapping the stars onto each other within a fraction of a pixel, or rejects the frame.",
 "All star fields and all similarity transformations.",["internal/star/align.go","internal/ops/post/postprocess.go"],[("triangle matching and refinement","internal/star/align.go")])
n("N02","Star detection finds real stars and no noise",
 "Every isolated star significantly above the background is detected once with a centroid and half-flux radius close to the true ones, and noise or hot pixels are not reported as stars.",
 "All star fields, noise levels and detection settings.",["internal/star/findstars.go"],[("star detection","internal/star/findstars.go")])
n("N03","Stacked values are the intended robust estimates",
 "The stacked value of each pixel equals the mathematically defined median, mean, sigma-clipped, winsorized or linear-fit-clipped estimate of the valid samples within floating point tolerance.",
 "All sample sets, modes and clipping bounds.",["internal/ops/stack/stack.go"],[("stackers","internal/ops/stack/stack.go")])
n("N04","Statistics estimators converge to the true location and scale",
 "The reported location, scale, noise and mode approximate the true ones of the pixel distribution within statistical tolerance.",
 "All pixel distributions.",["internal/stats"],[("estimators","internal/stats/stats.go, internal/stats/histogram.go, internal/stats/noise.go")])
n("N05","Tone curves are monotonic and map black to black and white to white",
 "Gamma, midtone, partial gamma and black point adjustments are monotonic on [0,1] and keep values in [0,1].",
 "All pixel values and curve parameters.",["internal/fits/pixelops.go"],[("tone curves","internal/fits/pixelops.go")])
n("N06","Colour space conversions are mutually inverse",
 "Converting an in-gamut colour from linear RGB to a perceptual colour space and back returns the original colour within floating point tolerance.",
 "All colours.",["internal/fits/pixelops.go","internal/fits/rgb.go","internal/fits/oklab.go"],[("conversions","internal/fits")])
n("N07","Batch stacking stays within the configured memory",
 "The memory in use during stacking stays below the configured limit.",
 "All frame counts and sizes.",["internal/ops/stack/stackbatches.go"],[("batch partitioning","internal/ops/stack/stackbatches.go")])
n("N08","Background extraction removes gradients without removing objects",
 "After background extraction a smooth gradient is flattened and compact objects keep their flux within tolerance.",
 "All images and grid settings.",["internal/ops/pre/background.go"],[("background model","internal/ops/pre/background.go")])
n("N09","Resampling preserves flux and registers to sub-pixel accuracy",
 "Projecting an image onto the reference grid samples every destination pixel at the inversely transformed position by bilinear interpolation, with missing values only outside the source.",
 "All images and transformations.",["internal/fits/project.go"],[("projection","internal/fits/project.go")])
n("N10","Processor-specific and portable kernels agree numerically",
 "The vectorised and the portable implementation of median filtering, statistics and noise estimation return the same results within floating point tolerance for every image width and height.",
 "All images, in particular widths not a multiple of the vector length.",["internal/median","internal/stats"],[("assembly kernels","internal/median/median3x3_amd64.s, internal/stats/stats_amd64.s, internal/stats/noise_amd64.s")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for e in P:
        assert len(e["title"])<=80,(e["id"],len(e["title"]))
        f.write(json.dumps(e,ensure_ascii=False)+"\n")
print(len(P))
