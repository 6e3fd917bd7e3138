"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

MULT = "src/viqa/multiple.py"; LOAD = "src/viqa/utils/loading.py"; MISC = "src/viqa/utils/misc.py"
EXP = "src/viqa/utils/export.py"; MET = "src/viqa/_metrics.py"; VIS = "src/viqa/utils/visualization.py"
FR = "src/viqa/fr_metrics/"; NR = "src/viqa/nr_metrics/"

p("C01", "A batch gives every pair the result it would get on its own",
  """For every list of image pairs, in any order and with any repetition or sharing of images, and for any
  per-pair or global region of interest, a batch run assigns to each pair exactly the metric values
  obtained by scoring that pair alone in a fresh run. Shortcuts for repeated images and pairs never change a value.""",
  ["histories", "inputs"],
  "every sequence of pairs over a set of images of different shapes, every assignment of regions of interest, every mix of full- and no-reference metrics",
  "There is no test of batch mode at all; the reuse logic depends on what the previous rows were, so a defect shows only for particular row sequences.",
  [MULT], [("reuse of loaded images and previous results", MULT + ":BatchMetrics.calculate"), ("one-pair calculation", MULT + ":_calc")],
  [("previous reference/modified image and results", "what may be reused for the next row", MULT + ":BatchMetrics.calculate")],
  ["returned results and the results attribute"])
p("C02", "Batch and multi-metric reports contain exactly the computed results",
  """After a batch or multi-metric calculation, the result keys are the metric names in the given metric order (no-reference
  metrics once for the reference with suffix _r and once for the modified image with suffix _m), and the exported CSV holds exactly one row per
  pair in pair order with the pair number, the two image names as written in the pairs file and the values under the right column.
  Report files go to the requested directory under results.csv, metadata.txt, image_comparison names, prefixed by the project name if given,
  only the requested kinds are written, existing files are replaced completely, a wrong extension is rejected, and the metadata
  lists each metric with its data range and its own parameters.""",
  ["inputs", "configurations", "histories"],
  "every metric list, pair list, report option combination, project name and history of earlier reports to the same directory",
  "No test exercises reporting; the content of files depends on combinations of options and previous files.",
  [MULT, EXP], [("CSV export", MULT + ":BatchMetrics.export_results, MultipleMetrics.export_results"), ("report", MULT + ":report"), ("metadata", EXP + ":export_metadata")],
  observe=["files in the report directory"])
p("C03", "Pairs files are read faithfully, and malformed batch set-ups are rejected",
  """A batch reads exactly the rows of its pairs file, in order, whichever of comma, semicolon or tab separates the columns, in whatever
  order the columns stand and whatever extra columns there are. Constructing a batch fails with a ValueError when one of the two required
  columns is missing, when the number of regions differs from the number of pairs, when the numbers of metrics and parameter sets differ, or when a list element is not a metric
  or not a dictionary.""",
  ["inputs"], "every delimiter, column order, extra column, row list and set-up error combination",
  "Not tested at all; the delimiter is guessed from the header line.",
  [MULT], [("pairs reader", MULT + ":_read_pairs"), ("argument checks", MULT + ":_MultipleInterface.__init__, BatchMetrics.__init__")])
p("C04", "Scoring and loading never modify the caller's images, parameters or files",
  """Loading, cropping, normalising, resizing, scoring, batch running and exporting leave every array, tensor, image object, parameter dictionary, list
  and image file the caller passed in unchanged: values, shape and type are the same afterwards as before, whether the call succeeded or raised.""",
  ["inputs", "histories"], "every operation on every kind of input (array, image object, tensor, path), successful or failing, alone or in sequence",
  "Tests look at returned scores only and never compare the inputs before and after.",
  [LOAD, MULT, FR + "mad.py", MISC], [("copies instead of in-place operations", LOAD + ":normalize_data, crop_image"), ("parameter handling", MULT + ":_calc")])
p("C05", "A metric's score does not depend on what it scored before",
  """A score depends only on the images and parameters of that call (for SNR and CNR also on the region given last, if none is given): any earlier history of successful or failed calls on the same or on other metric objects,
  of the same or of another kind, leaves it unchanged. The remembered score of a metric object is always the value returned by its own last successful call (none before the first one), failed calls leave
  it unchanged, and printing, comparing or exporting never change it.""",
  ["histories"], "every interleaving of successful and failing score, print, export and compare calls on several metric objects",
  "Tests score once or twice per object with equal settings; module-level state and remembered parameters need particular call sequences to matter.",
  [MET, FR + "mad.py", NR + "snr.py", NR + "cnr.py"], [("score bookkeeping", "score() of every metric"), ("module globals", FR + "mad.py:M,N,BLOCK_SIZE,STRIDE")],
  [("score_val", "the remembered score", MET + ":Metric")])
p("C06", "The same image scores the same however it is passed in",
  """For every metric, an image given as a plain array, as the library's own image object, as a tensor, or as a path (string or path object) to a file holding
  that image gives the same score, as does any memory layout (strides, order, views) of the same array. The same holds for loading: all of them yield an image object with the same values, shape and element type.""",
  ["inputs", "configurations"], "every combination of representation for the two images, every metric, 2D and 3D",
  "Tests pass plain contiguous arrays, plus a few data files that are not available.",
  [LOAD, MET], [("input dispatch", LOAD + ":load_data"), ("pair loading", LOAD + ":_check_imgs")])
p("C07", "The same pixel values score the same in every numeric type",
  """Two images with identical pixel values but stored in different numeric types (8-bit, 16-bit or 32-bit integers, single or double precision floats) get the same
  score from every metric up to floating-point rounding (MAD up to the half precision it uses internally); integer wrap-around never influences a score.""",
  ["inputs"], "every metric, every numeric type pair, every image",
  "Tests use one type per call and never compare types; wrap-around needs particular pixel values.",
  [FR + "gsm.py", FR + "ssim.py", MISC, NR + "snr.py"], [("conversion to float before arithmetic", MISC + ":_to_float"), ("integer look-up table", FR + "mad.py:_pixel_to_lightness")])
p("C08", "Binary volumes and image files are read voxel by voxel as declared",
  """Loading a raw volume or a header/raw pair with declared size X, Y, Z yields an image of shape (X, Y, Z) whose element (x, y, z) is the file's element number x + X*y + X*Y*z in the
  declared element type. Size and element type come from the file name for raw files and from the header otherwise; a file whose length does not match the declared size, a missing or unsupported size or
  type declaration, an unsupported extension or input kind, or an image that is not 2D or 3D is rejected with an error, a ValueError unless the declaration is missing altogether.
  """,
  ["inputs"], "every size, element type, file content, header layout and file name",
  "The loading tests need data files that are not in the repository, so no stable test reads any file.",
  [LOAD], [("binary layout", LOAD + ":_load_binary"), ("name parsing", LOAD + ":load_raw, _parse_bitdepth"), ("header parsing", LOAD + ":load_mhd")])
p("C09", "Normalisation maps the image linearly onto the requested range",
  """Normalising a non-constant image to 1, 255 or 65535 maps its minimum to 0, its maximum to the range end and every other pixel linearly in between (rounded down for the integer ranges; values small enough that their products with the range are exact in double precision), and returns the matching element type
  (single float, 8-bit, 16-bit); an explicitly given input range replaces minimum and maximum; 8-bit images normalised to 255 stay as they are. Any other range, a missing input range or a
  non-numeric image is rejected with a ValueError, and metrics with normalisation score exactly the normalised images.""",
  ["inputs"], "every numeric input type and pixel content, every supported range, with automatic or explicit input range",
  "Normalisation is only tested through file loading on missing data files; overflow needs particular types and values.",
  [LOAD, MET], [("linear map", LOAD + ":normalize_data"), ("normalisation when loading", LOAD + ":load_data")])
p("C10", "Cropping and regions of interest select exactly the requested block",
  """Cropping an image, loading it with a region of interest, or scoring with a region of interest (in a metric, in a batch or over several metrics) uses exactly the block of the image (of the normalised image, if normalisation is on) from start (inclusive) to end (exclusive) on every axis, for 2D, colour and 3D images, and all these ways give the same score as
  scoring the block cut out beforehand. A block with a larger extent than the image on any axis is rejected with a ValueError.""",
  ["inputs", "configurations"], "every image shape and every region inside it, every entry point taking a region",
  "No test uses regions of interest.",
  [LOAD, MET, MULT], [("cropping", LOAD + ":crop_image"), ("roi on loading", LOAD + ":load_data"), ("roi in batches", MULT + ":_calc")])
p("C11", "Images that cannot be compared are rejected, never scored",
  """Every full-reference metric rejects a pair of images with different shapes, different element types, unsupported dimensionality or unsupported input kinds with a ValueError, accepts every pair that agrees, and
  rejects a missing data range or a colour setting that the image does not fit. A rejected call returns no value and leaves the remembered score alone.""",
  ["inputs"], "every pair of shapes, element types, dimensionalities and input kinds for every full-reference metric",
  "Tests check a few mismatches for four of the ten metrics.",
  [LOAD, MET], [("pair check", LOAD + ":_check_imgs"), ("constructor checks", MET + ":Metric.__init__")])
p("C12", "RMSE and PSNR are exact for every image pair",
  """RMSE equals the square root of the mean squared pixel difference and PSNR equals ten times the decimal logarithm of the squared data range over that mean (infinite for identical images), for 2D and 3D images of any shape, value range and numeric type, without
  overflow. PSNR decreases exactly when the mean squared difference grows.""",
  ["inputs"], "every image pair, numeric type, data range and shape",
  "Tests check identical, random and all-zero/all-one pairs against inequalities only.",
  [FR + "rmse.py", FR + "psnr.py"], [("RMSE", FR + "rmse.py:RMSE.score"), ("PSNR", FR + "psnr.py:PSNR.score")])
p("C13", "SSIM and UQI implement their published formula on every window",
  """SSIM is the mean over all fully contained windows of luminance, contrast and structure similarity (raised to the given exponents) with the constants (K1*range)^2 and (K2*range)^2, using a uniform window with sample covariance of the requested odd size or the
  11-tap Gaussian window with population covariance, in 2D and 3D; UQI is the same with a uniform window and both constants zero. Invalid settings (even or too large window, negative
  constants or width) are rejected with a ValueError and colour images are scored channel-wise with the given weights.""",
  ["inputs", "configurations"], "every image pair, window size, constants, exponents and data range",
  "Tests compare only identical and very different images with inequalities; no test covers UQI.",
  [FR + "ssim.py", FR + "uqi.py"], [("local statistics", FR + "ssim.py:structural_similarity"), ("UQI constants", FR + "uqi.py:UQI.score")])
p("C14", "Full-reference metrics reach their optimum exactly for identical images",
  """For every image compared with itself, RMSE and MAD are 0, PSNR is infinite, and SSIM, UQI, MS-SSIM, FSIM, VIFp, VSI and GSM are 1 (up to rounding). RMSE, PSNR, SSIM, UQI, MS-SSIM, FSIM and VSI do not change when the two images are
  swapped, no pair scores better than the optimum for these metrics, and RMSE and PSNR (and SSIM for clear differences) are strictly worse than the optimum for images that differ.""",
  ["inputs"], "every image pair large enough for the metric, 2D and 3D",
  "Tests sample a few random images for six of the ten metrics.",
  [FR], [("each metric's formula", FR + "*.py")])
p("C15", "SNR is mean over standard deviation of exactly the requested region",
  """For a centre and radius the region is, on every axis, the pixels from centre-radius (inclusive) to centre+radius (exclusive) for cubic regions, and the pixels within Euclidean distance radius for spherical regions, or the
  whole image for full and original; the score is mean divided by population standard deviation of exactly these pixels, 0 if the deviation is 0. For colour images the three values use the luminance mean
  and the YUV channel deviations (or the separate RGB channels preceded by the grey value). Non-integer centres or radii, regions leaving the image on any side, centres of the wrong dimension and unknown region types are rejected, and
  what a call does not give of centre and radius is taken from the previous call.""",
  ["inputs", "histories"], "every image, centre, radius, region type and colour mode, 2D and 3D",
  "All value tests need data files that are missing; stable tests check error messages only.",
  [NR + "snr.py", MISC], [("region masks", MISC + ":_to_cubic, _to_spherical"), ("formula", NR + "snr.py:signal_to_noise_ratio")])
p("C16", "CNR compares exactly the requested signal and background regions",
  """CNR is the difference of the means of the signal and the background region divided by the population standard deviation of the background region, 0 if that is 0, with the two regions built from
  their own centre and the common radius as cubic, spherical or whole-image regions. Swapping the roles changes the score accordingly, pixels outside the regions never matter, and
  invalid centres, radii, dimensions and region types are rejected; what a call does not give of the centres and the radius is taken from the previous call.""",
  ["inputs", "histories"], "every image, pair of centres, radius and region type, 2D and 3D",
  "Value tests need missing data files; stable tests check all-zero images and error messages.",
  [NR + "cnr.py", MISC], [("region masks", MISC + ":_to_cubic, _to_spherical"), ("formula", NR + "cnr.py:contrast_to_noise_ratio")])
p("C17", "Automatic region detection finds the largest foreground region",
  """Thresholding by percentiles marks exactly the pixels above the lower and up to the upper percentile; detection closes and then erodes the foreground with the cross-shaped neighbourhood and returns a centre of maximal distance to the
  background, that distance rounded down as radius, and the requested cube, ball or eroded region around it. The returned region lies inside the image, automatic SNR and CNR score exactly these regions whatever centre is passed, and images that are not
  binary are rejected with a ValueError.""",
  ["inputs"], "every image, pair of percentiles, number of iterations and region type, 2D and 3D",
  "No test covers automatic detection.",
  [MISC, NR + "snr.py", NR + "cnr.py"], [("thresholding", MISC + ":_get_binary"), ("distance transform", MISC + ":find_largest_region")])
p("C18", "Volume scores are built from the slices of the requested axis",
  """For FSIM, GSM, MAD, MS-SSIM, VIFp and VSI, scoring slice k of axis d of a volume equals scoring that 2D slice, and scoring the volume along axis d equals the mean of the scores of all slices of that
  axis. A missing or invalid axis, or a slice number that is not an integer, is rejected with a ValueError, a slice outside the volume is rejected, and for 2D images axis and slice are ignored.""",
  ["inputs", "configurations"], "every volume, axis, slice and metric; every combination of given and missing axis and slice",
  "Tests check FSIM and MAD volumes only for identical or different images, never against slice scores.",
  [FR + "fsim.py", FR + "gsm.py", FR + "mad.py", FR + "msssim.py", FR + "vif.py", FR + "vsi.py", MISC], [("slice dispatch", "score() of the six metrics"), ("tensor layout", MISC + ":_check_chromatic")])
p("C19", "MAD's block statistics describe exactly the block they are assigned to",
  """For every image shape (also non-square and not divisible), block size of at least two and stride, each stride-sized cell holds the sample standard deviation, skewness and kurtosis of the block of pixels starting at that cell, computed without reading or writing outside the image, for any memory layout of the
  input, and all memory is released afterwards. MAD itself accepts every image larger than two blocks with every valid block size and overlap, and rejects too large or non-positive blocks and invalid overlaps with a ValueError.""",
  ["inputs", "configurations"], "every image shape, memory layout, block size and overlap",
  "Tests use square images with the default block size and overlap only.",
  [FR + "mad.py", FR + "stat_utils/statisticsmodule.c", MISC], [("block loops", FR + "stat_utils/statisticsmodule.c"), ("block assignment", FR + "mad.py:_high_quality"), ("blocks", MISC + ":_extract_blocks")])
p("C20", "Metrics compare by score and fuse as the weighted sum of their scores",
  """Comparing two metric objects, or a metric object with a number, gives the result of comparing their remembered scores for all six operators, also after later scoring. Linear fusion returns the sum over all metrics of score times
  its own weight, in any order of the metrics, and refuses lists of different lengths with a ValueError.""",
  ["inputs", "histories"], "every pair of scores, every operator, every metric and weight list and every order of them",
  "One doctest with two metrics; comparisons are not tested.",
  [MET, "src/viqa/fusion.py"], [("rich comparisons", MET + ":Metric"), ("weighted sum", "src/viqa/fusion.py:fuse_metrics_linear_combination")])
p("C21", "Exporting scores and image statistics writes exactly what is known",
  """Exporting metrics writes a CSV with a Metric/Value header and one row for each scored metric in the given order and none for unscored metrics, replacing any earlier file, adding the .csv extension if it is missing, and the returned dictionary holds the same values and n/a for
  unscored metrics. Printing a score prints the remembered score rounded to the requested decimals. Exporting image statistics writes one header row and one value row with the computed statistics, and no file without path or name. Neither export changes any metric or image.""",
  ["inputs", "histories"], "every list of scored and unscored metrics, file name, and sequence of exports",
  "No test covers exports of metrics or image statistics.",
  [EXP, LOAD, MET], [("metric export", EXP + ":export_results"), ("statistics export", LOAD + ":ImageArray.describe")])
p("C22", "Image objects calculate like plain arrays and report correct statistics",
  """Arithmetic, comparisons, in-place and reduction operations, slicing and output arguments on image objects give the same values, shapes and element types as on plain arrays, results of element-wise operations are image objects again, and
  operands are never changed by accident. The statistics computed for an image (mean, median, variance, standard deviation, skewness, kurtosis, minimum, maximum, histogram) are those of its pixels at that time, for integer and float images alike.""",
  ["inputs", "programs", "histories"], "every sequence of operations on image objects of every numeric type",
  "No test covers the image class.",
  [LOAD], [("ufunc dispatch", LOAD + ":ImageArray.__array_ufunc__"), ("statistics", LOAD + ":ImageArray.calculate_statistics")])
p("C23", "Interactive region selection stores and shows exactly the region that is scored",
  """Opening the region selection starts from the given or remembered region and rejects invalid ones; afterwards, moving sliders or the region menu changes nothing in the metric until the user saves. Saving stores exactly the displayed centre(s), radius and region type, scoring with the stored values
  (for cubic regions also without any) scores exactly that region, and several selections open at the same time stay apart. Whatever order they are moved in, the sliders allow exactly the regions inside the image, and every
  view, in the selection or of a metric, marks exactly the region that is scored.""",
  ["histories", "inputs"], "every sequence of slider moves, menu choices, region calculations and saves, for 2D and 3D images, SNR and CNR",
  "Interactive selection has no test.",
  [NR + "snr.py", NR + "cnr.py", VIS], [("widget callbacks", NR + "snr.py:SNR.set_centers"), ("widget callbacks", NR + "cnr.py:CNR.set_centers")],
  [("slider values, saved parameters", "the dialog state", NR + "snr.py, cnr.py")])
p("C24", "Comparison images and views show the requested slice of both images",
  """The comparison image shows, on the left the reference and on the right the modified image (resized and cropped like for scoring), exactly the requested slice of the requested axis with every pixel, and
  prints every result under its own name; image views show the three requested slices with lines marking the other two. Requests without or with more than one axis, slices outside the image, wrong extensions and wrong dimensionality are rejected.""",
  ["inputs", "configurations"], "every image shape, axis, slice number, region and result set",
  "Only the absence of errors of one view is tested by a doctest.",
  [EXP, VIS, LOAD], [("slice selection", EXP + ":export_image"), ("views", VIS + ":visualize_3d, visualize_2d")])
p("C25", "Modified images of another size are resized to the reference before scoring",
  """When a batch, a multi-metric run or a comparison image gets a modified image of another size than the reference, the modified image is interpolated with the requested order over the whole value range to exactly the reference's shape and element
  type (values that fit it) before any region is cut out, and images of equal size are used untouched. The reference is never resized.""",
  ["inputs", "configurations"], "every pair of shapes and element types, every interpolation order",
  "No test covers images of different size in runs with several metrics.",
  [LOAD, MULT], [("resizing", LOAD + ":_resize_image"), ("use before cropping", MULT + ":_calc")])
p("C26", "Colour images are reduced to grey or scored in colour as configured",
  """Without the colour setting a pair of RGB images gets, from every metric and in every run of several metrics, the score of its luminance images (0.2125 R + 0.7154 G + 0.0721 B), for any bit depth. With it, RMSE, PSNR, SSIM, MS-SSIM, FSIM, VIFp and VSI score the RGB images themselves: RMSE and PSNR over all channel values, SSIM
  as mean of the channel scores times the given weights (rejecting missing weights), MS-SSIM as mean of the channel scores, images with equal channels like grey ones, and differences in hue alone are seen. With it, grey images are rejected with a ValueError. Only images with three
  axes and three channels count as RGB, so grey images three pixels wide are scored as they are.""",
  ["inputs", "configurations"], "every RGB or grey image, bit depth and colour setting for every metric",
  "Tests contain a single colour case per metric with data files that are missing.",
  [LOAD, MISC], [("colour detection", LOAD + ":_check_imgs"), ("luminance", MISC + ":_to_grayscale"), ("channel layout", MISC + ":_check_chromatic")])
p("C27", "Gradient kernels and gradient similarity follow their definition",
  """Every directional kernel is an antisymmetric difference operator with the documented weights: its entries sum to zero, it responds to no constant image, and the kernels of one family are rotations of one another. Filtering gives at every pixel the mean of |kernel times pixel| over the window
  centred there, for every border mode, and convolution equals correlation with the flipped kernel. Gradient similarity takes for each image the response (edges mirrored) to the kernel with the largest mean absolute response and combines, at every pixel where the stronger of both responses G is not zero, the structure
  similarity (2(1-R)+K)/(1+(1-R)^2+K) of R = |difference of the responses| / G and K = c / largest absolute response with the luminance similarity 1-(difference/range)^2, weighted by p times the structure similarity; images without any gradient have structure similarity 1. It is insensitive to adding a constant to both images.""",
  ["inputs"], "every kernel, every image, border mode and constants",
  "Kernels are not tested; GSM has no test.",
  ["src/viqa/kernels.py", FR + "gsm.py", MISC], [("kernels", "src/viqa/kernels.py"), ("gradient similarity", FR + "gsm.py:gradient_similarity"), ("filtering", MISC + ":correlate_convolve_abs")])
p("C28", "The scripts keep voxels in place",
  """Cropping a volume file by a factor keeps exactly the central block (size divided by the factor, rounded down, on every axis), and its file name declares exactly the size written, so that loading it gives the central block of the loaded original; thinning projections keeps exactly every n-th projection
  unchanged from the first; combining a stack puts the slices one after another in the order of the file names into a file whose name declares its size. Wrong sizes, types or factors below two are rejected and nothing is written. The pairs script lists exactly once every combination of a reference and a modified file whose name starts with the reference's, in a form the batch reader
  accepts, whatever the target folder holds, and copies exactly these files if requested; the mat script writes every volume stretched from 0 to 1.""",
  ["inputs"], "every volume size, element type, factor and set of file names",
  "The scripts have no tests.",
  ["src/scripts/crop_image.py", "src/scripts/reduce_projections.py", "src/scripts/combine_stack.py", "src/scripts/write_to_csv.py", "src/scripts/write_to_mat.py"], [("scripts", "src/scripts/*.py")])

p("C29", "Documented metric settings reach the reference formula",
  """MS-SSIM, FSIM, VIFp, VSI and MAD, and the log-Gabor filter responses MAD is built on, follow their published formula with every setting the documentation lists, in the given combination: leaving a setting out equals giving its documented default,
  a given value is used (not ignored, not exchanged with another one, not applied to the other image), the reference is the first and the modified image the second argument, and the data range of the object is used. MAD's two thresholds replace its two betas only together, and its display function counts
  only with the monitor taken into account; asking for the monitor without a display function or giving a wrong number of weights is a ValueError.""",
  ["inputs", "configurations"], "every combination of documented settings, every image, data range, colour setting and slice",
  "Tests pass at most one setting per metric and compare to nothing; a swapped or dropped setting changes no tested number.",
  [FR + "msssim.py", FR + "fsim.py", FR + "vif.py", FR + "vsi.py", FR + "mad.py", MISC], [("settings handed on", "score() of the five metrics"), ("MAD formula", FR + "mad.py:most_apparent_distortion"), ("filters", MISC + ":gabor_convolve")])
p("C30", "Documented warnings come exactly in the situations they announce",
  """A call warns exactly when its documentation says it does, every time and in the documented category, and not otherwise: a data range without normalising, images that are already normalised, cropping that removes nothing or ignores the z axis of a 2D image, a slice or axis for a 2D image (an axis or slice number of 0 included) or an axis without slice for a volume, colour reduced to grey, one of MAD's thresholds
  alone or with betas, SSIM exponents that are not integers (which are cast), automatic centres, repeated pairs skipped by a batch (one warning per skipped pair), per-pair and global regions at once, statistics that are not written, views and comparison images with settings or results that do not apply. Printing a score gives the metric's name and its remembered value
  to the requested decimals, and before the first score warns and prints no value, without an error.""",
  ["inputs", "histories", "configurations"], "every combination of image kind, setting and earlier calls",
  "A few warnings are tested once; absence of warnings, combinations and repetition are not.",
  [LOAD, MULT, MET, EXP, FR + "mad.py", FR + "ssim.py", FR + "fsim.py"], [("warnings", "warn() calls of the loading, scoring, batch and export functions"), ("printing", "print_score() of every metric")])

p("C31", "Computations at the same time do not influence one another",
  """Computations on different metric objects, image objects and batches are independent: whatever runs at the same time in
  other threads, in every interleaving, each computation (scoring, loading, normalising, statistics, filters, batch and
  multi-metric runs with their exports) gives exactly the outcome it gives alone, and every object remembers only its own
  score and parameters. One object's settings never reach another.""",
  ["schedules", "histories", "inputs"],
  "every pair or group of computations with any settings and image sizes, every point at which one is interrupted by the others",
  "All tests run one computation at a time; shared state shows only if another computation runs between two particular steps.",
  [FR + "mad.py", FR + "ssim.py", NR + "snr.py", NR + "cnr.py", MET, LOAD, MULT, MISC],
  [("scoring", MET + ":Metric and the score methods"), ("loading", LOAD + ":load_data"), ("MAD block settings", FR + "mad.py:most_apparent_distortion")],
  [("module and class level state", "must not carry settings of one computation", "src/viqa")],
  ["outcome, score_val and parameters of every computation"])
p("C32", "Interrupted and failing calls leave no trace, and finished calls no side effect",
  """Whatever call (scoring, loading, statistics, filters, batch and multi-metric runs, reports, exports, views) is cut off at any
  point by an interruption or by an error inside it, the interruption reaches the caller, and afterwards the images, parameters
  and lists passed in are unchanged, the object remembers either what it remembered before or the whole new result, other objects
  are untouched, and every later call gives exactly what it gives undisturbed. Neither cut off nor finished calls change settings
  of the process (random generators, numpy error handling, warning filters, working directory, environment, matplotlib and torch
  settings, open files), and an export that cannot be written fails instead of being lost silently.""",
  ["crash_points", "histories", "inputs"],
  "every line of the library as the point where a call ends, in every history of finished and cut off calls of several objects",
  "Tests only make calls that run to their end or are rejected at the start; they never look at what the process shares.",
  [FR + "mad.py", FR + "ssim.py", NR + "snr.py", NR + "cnr.py", MET, LOAD, MULT, MISC, EXP],
  [("scoring", MET + ":Metric and the score methods"), ("batch", MULT + ":BatchMetrics.calculate"), ("exports", EXP + ":export_results")],
  [("settings of the process", "borrowed settings are given back on every way out", "src/viqa")],
  ["outcome and value of every call, score_val, results and statistics, process settings, files"])
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    keep = P
    with open(out, "w") as f:
        for x in keep:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(keep))
