#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place for the list; run after editing."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

I=["inputs"]
p("C01","Parallel variants give exactly the sequential result on any thread pool",
"Every function with a _parallel counterpart (filter, filter_clamped, laplacian_filter, sharpen3x3, the map_* family, crop, match_template with and without mask) returns bit for bit the same image as the sequential function. Functions that use threads internally (warp family, rotate, equalize_histogram) return the same image whatever the number of threads in the pool.",
["inputs","schedules","configurations"],"all images, kernels, closures, rectangles, templates and projections, and every rayon pool size",
"unit tests compare a few fixed images on the default pool; the claim is for every size, kernel shape and split of the work",
["src/filter/mod.rs","src/map.rs","src/compose.rs","src/template_matching.rs","src/geometric_transformations.rs","src/contrast.rs"],
[("filter_parallel row split","src/filter/mod.rs:filter_parallel"),("par_chunks_mut over rows","src/geometric_transformations.rs:warp_inner"),("MatchTemplate::match_template_parallel","src/template_matching.rs")])
p("C02","In-place (_mut) variants agree with the copying variants; inputs untouched",
"For every pair of functions f and f_mut, applying f_mut to a copy of the image gives exactly the image f returns. f itself leaves its input unchanged, and the output has the input's dimensions.",
I,"all images and arguments of every f/f_mut pair: drawing, threshold, contrast, morphology, noise, compose, rotation, maps, flood fill, suppression, distance transform, warp_into",
"few pairs are compared at all by the tests, each on one image",
["src/drawing","src/contrast.rs","src/morphology.rs","src/noise.rs","src/compose.rs","src/geometric_transformations.rs","src/map.rs","src/distance_transform.rs"],
[("copying variant clones and calls the _mut variant","src/*: f calls f_mut")])
p("C03","2-D kernel filtering is exact correlation with replicated edges",
"Each output channel of filter/filter_clamped is f (or the saturating conversion) of the sum over the kernel of weight times the input pixel at the kernel offset from the anchor (width/2, height/2), with coordinates outside the image replaced by the nearest edge pixel. This holds for kernels of any size including even sizes and kernels larger than the image, for every channel independently; laplacian_filter and sharpen3x3 are this correlation with their documented kernels.",
I,"all images (gray, colour, integer and float), kernels of any dimension, output pixel types",
"tests use a few 3x3 kernels on tiny images; edge handling depends on kernel size, parity and image size",
["src/filter/mod.rs","src/kernel.rs","src/filter/sharpen.rs"],
[("clamped coordinates in the correlation loop","src/filter/mod.rs:filter"),("Kernel::get_unchecked row-major index","src/kernel.rs")])
p("C04","Separable, 1-D and Gaussian filters equal their 2-D definition",
"horizontal_filter and vertical_filter are 1-D correlations anchored at len/2 with replicated edges, and separable_filter is the horizontal pass followed by the vertical pass (on float images, the 2-D correlation with the outer product). gaussian_blur_f32 is this filter with the normalised truncated Gaussian of radius ceil(2*sigma): it preserves constant images, stays within the input's range and is symmetric; sharpen_gaussian is input + amount*(input - blurred), saturated.",
I,"all images and 1-D kernels of any length relative to the image, all sigma > 0 and amounts",
"the implementation has separate code for margins, interior and kernels longer than the image; the tests hit each with one kernel",
["src/filter/mod.rs","src/filter/sharpen.rs"],
[("margin/interior split","src/filter/mod.rs:horizontal_filter, vertical_filter"),("gaussian_kernel_f32","src/filter/mod.rs")])
p("C05","Box and median filters are the mean and median of the replicated window",
"box_filter returns the mean of each (2*x_radius+1) by (2*y_radius+1) window, rounded down along rows and then columns; median_filter returns, per channel, the median of the window; windows are extended by replicating edge pixels. This holds for any radii, including radii larger than the image and zero.",
I,"all images, all radii",
"both are incremental sliding-window algorithms whose errors depend on position, radius parity and image size",
["src/filter/box_filter.rs","src/filter/median.rs","src/integral_image.rs"],
[("running sums","src/integral_image.rs:row_running_sum, column_running_sum"),("sliding histograms","src/filter/median.rs")])
p("C06","Bilateral filter equals its weighted-window definition",
"Each output channel of bilateral_filter is the weighted mean over the (2*radius+1) square window (edges replicated) with weights spatial Gaussian times range weight, up to rounding. Outputs never leave the range of the window's values and constant images are unchanged.",
I,"all images, radii, spatial and colour sigmas",
"the tests compare one or two constant-ish images; weights vary with every offset and value difference",
["src/filter/bilateral.rs"],
[("precomputed spatial weights and range weights","src/filter/bilateral.rs")])
p("C07","Gradient images equal the kernel responses they are defined by",
"gradients and the sobel/scharr/prewitt/roberts helpers return, per pixel and channel, the rounded-down Euclidean magnitude of the horizontal and vertical kernel correlations with replicated edges; horizontal_* and vertical_* return the signed correlation itself. Multi-channel gradient maps apply the user's reduction to the per-channel magnitudes.",
I,"all images, kernels and reductions",
"tests use one or two 3x3 images",
["src/gradients.rs","src/kernel.rs"],[("gradients: filter twice and combine","src/gradients.rs")])
p("C08","Rotations, flips, crops, translations and pasting move pixels exactly",
"rotate90/180/270, flip_horizontal/vertical, crop, translate and replace place every source pixel at its mathematically determined position (translate fills from the nearest edge pixel, replace covers exactly the part of the top image that lies inside the bottom image), and overlay blends the top pixel onto the bottom pixel at exactly those positions. Consequently four quarter turns, two half turns and two flips are the identity.",
I,"all image sizes (odd, even, 1xN), pixel types, offsets and rectangles including ones that touch or cross the border",
"border rows/columns, odd middles and offsets beyond the image need specific sizes the tests do not have",
["src/geometric_transformations.rs","src/compose.rs"],
[("index arithmetic","src/geometric_transformations.rs:rotate90, rotate180_mut, translate"),("clipped copy loops","src/compose.rs:replace_mut, overlay_mut")])
p("C09","Projections compose, invert and fit control points consistently",
"(p*q) applied to a point equals p applied to (q applied to the point), p.and_then(q) is q*p, p.invert() undoes p and inverting twice changes nothing; translate, rotate and scale map points by their formulas. from_matrix returns None for singular matrices and otherwise a map acting as the homogeneous matrix does; from_control_points maps the four given points to their targets.",
I,"all projections built from translations, rotations, scalings, matrices and control points, and all points away from the horizon",
"the class-specific fast paths and stored inverses can disagree for combinations no test builds",
["src/geometric_transformations.rs"],
[("transformation classes and cached inverse","src/geometric_transformations.rs:Projection")])
p("C10","Warping samples the input at the inverse-mapped position",
"Each output pixel of warp/warp_into/warp_with/rotate is the requested interpolation (nearest, bilinear, bicubic) of the input at its pre-image, or the default pixel when the interpolation neighbourhood is not inside the input image. Identity maps and integer translations reproduce pixels exactly, and interpolated values stay within the sampled range for nearest and bilinear.",
I,"all images, projections, user mappings, interpolation modes and output sizes",
"pre-images land on fractional, negative and border positions only for particular maps",
["src/geometric_transformations.rs"],
[("interpolate_nearest/bilinear/bicubic","src/geometric_transformations.rs"),("warp dispatch on class","src/geometric_transformations.rs:warp_into")])
p("C11","Drawing clips exactly at the canvas border and writes only the given colour",
"Drawing any shape (lines, anti-aliased lines, polygons filled or hollow, rectangles, circles, ellipses, crosses, curves, text) on a canvas gives exactly the visible part of the same drawing on a larger canvas, never panics, and leaves pixels outside the shape untouched. Non-blending shapes write only the requested colour.",
I,"all shapes with coordinates inside, crossing and far outside the canvas, on all canvas sizes",
"clipping bugs need a particular alignment of shape and border; tests draw fully visible shapes and a few clipped ones",
["src/drawing"],[("bounds checks before draw_pixel","src/drawing/*.rs"),("Canvas trait","src/drawing/canvas.rs")])
p("C12","Line drawing visits a connected, straight, complete set of pixels",
"A line between integer end points covers exactly max(|dx|,|dy|)+1 pixels, one per step along the major axis, contains both end points, is 8-connected, and every pixel lies within half a pixel of the ideal line; the iterator, the pixel iterators and draw_line_segment agree. An anti-aliased line puts weights in [0,1] summing to 1 on the two pixels around the ideal position at every step. A cubic Bezier curve is drawn as connected short segments that stay close to the curve and join its end points.",
I,"all end points in all octants, inside and outside the image",
"the tests check a handful of segments; octant, sign and length combinations are unbounded",
["src/drawing/line.rs"],[("BresenhamLineIter error accumulation","src/drawing/line.rs"),("plot_wu_line","src/drawing/line.rs")])
p("C13","Filled and outlined shapes cover exactly their geometric region",
"Filled and hollow rectangles are exactly their pixel sets; a circle's outline lies within one pixel of the radius, is 8-symmetric and bounds the filled circle, and ellipses likewise with their two radii; a filled polygon contains every pixel strictly inside it by the even-odd rule, none more than one pixel outside, and its edges. Crosses are the five-pixel plus.",
I,"all rectangles, radii (including zero), and polygons (convex, concave, self-intersecting, degenerate) in any position",
"tests compare a few golden drawings",
["src/drawing/conics.rs","src/drawing/polygon.rs","src/drawing/rect.rs","src/drawing/cross.rs"],
[("midpoint circle/ellipse","src/drawing/conics.rs"),("scanline polygon fill","src/drawing/polygon.rs")])
p("C14","Flood fill recolours exactly the connected region of the seed",
"flood_fill sets to the fill colour exactly those pixels reachable from the start through 4-neighbours of the start pixel's colour and no others. It terminates for every image, seed and colour, including a fill colour equal to the seed's colour.",
I,"all images, start points and fill colours","span filling has many turn cases (concave regions, spirals, one-pixel corridors) that a fixed picture does not reach",
["src/drawing/fill.rs"],[("span stack","src/drawing/fill.rs:flood_fill_mut")])
p("C15","Distance transforms give the exact distance to the nearest foreground pixel",
"distance_transform returns for each pixel the L1, L-infinity or (rounded-up) L2 distance to the nearest non-zero pixel, saturated at 255; euclidean_squared_distance_transform returns the exact squared distance as f64. Images without foreground are 255 (infinity) everywhere.",
I,"all binary images of all sizes","the two-pass and parabola-envelope algorithms go wrong only for particular arrangements",
["src/distance_transform.rs"],[("forward/backward passes","src/distance_transform.rs"),("lower envelope of parabolas","src/distance_transform.rs")])
p("C16","Binary morphology is thresholded distance, with the lattice laws",
"dilate with norm and radius k sets exactly the pixels within distance k of foreground, erode keeps exactly those farther than k from every background pixel, open is erode then dilate and close is dilate then erode. Hence erosion and dilation are dual, monotone, open is anti-extensive, close is extensive, and both are idempotent away from border effects.",
I,"all binary images, norms and radii","tests check single pixels and small blobs with radius 1 or 2",
["src/morphology.rs","src/distance_transform.rs"],[("distance transform then threshold","src/morphology.rs")])
p("C17","Grayscale morphology is min/max over the mask",
"grayscale_dilate and grayscale_erode return at each pixel the maximum, respectively minimum, of the image over the mask's points placed there (only points inside the image count; empty neighbourhoods give the neutral value), open and close are their compositions. Mask constructors (square, diamond, disk, from image) contain exactly the documented offsets.",
I,"all gray images and masks of any shape and centre","a mask with an off-centre or empty support at the border is not in the tests",
["src/morphology.rs"],[("Mask and mask_reduce","src/morphology.rs")])
p("C18","Connected components are exactly the connectivity classes",
"connected_components gives background pixels label 0 and two foreground pixels the same label exactly when they have the same value and are joined by a 4- or 8-connected path of that value; labels are 1..n with none skipped. The disjoint-set forest answers like a naive partition after any sequence of unions.",
["inputs","histories"],"all images, background values and both connectivities; all sequences of union/find operations",
"merging of provisional labels depends on the global shape (spirals, combs) that fixed pictures do not cover",
["src/region_labelling.rs","src/union_find.rs"],[("two-pass labelling","src/region_labelling.rs"),("DisjointSetForest","src/union_find.rs")])
p("C19","Contours trace every border of every component, with the right nesting",
"find_contours_with_threshold returns one outer border per 8-connected foreground component and one hole border per enclosed 4-connected background region, each a closed walk of 8-adjacent foreground pixels that touch that region, and the parent links reproduce the nesting of components and holes. Border pixels are complete: the border consists of exactly the component's pixels 4-adjacent to that background region.",
I,"all images and thresholds, with components touching every image edge","tests have a few hand-drawn nestings",
["src/contours.rs"],[("Suzuki border following","src/contours.rs")])
p("C20","Convex hull and minimum rectangles are valid and minimal",
"convex_hull returns the strictly convex polygon, in consistent orientation, whose corners are input points and which contains all of them. min_area_rect returns four corners of a rectangle containing all points (up to integer rounding) with area no larger than any rectangle aligned with a hull edge.",
I,"all finite point sets, including duplicates, collinear and single points","degenerate and duplicate point sets break orientation sorts; tests use a few fixed sets",
["src/geometry.rs"],[("Graham scan","src/geometry.rs:convex_hull"),("rotating calipers","src/geometry.rs:rotating_calipers")])
p("C21","Polygon length, area and simplification obey their definitions",
"arc_length is the sum of the edge lengths (with the closing edge when closed), contour_area style measures follow the shoelace formula, and approximate_polygon_dp keeps a subsequence of the points including both ends such that every dropped point lies within epsilon of the line through the kept points around it; a closed curve's simplification does not repeat its first point.",
I,"all point sequences and epsilons","recursion splits depend on the data; tests check one or two curves",
["src/geometry.rs"],[("Douglas-Peucker recursion","src/geometry.rs:approximate_polygon_dp")])
p("C22","Thresholding follows its rule at every pixel; automatic levels are optimal",
"threshold maps every pixel by the documented rule of its mode, adaptive_threshold compares each pixel with the mean of its clipped neighbourhood, otsu_level returns a level maximising between-class variance and kapur_level one maximising total entropy of the two classes.",
I,"all gray images, thresholds, modes, radii and offsets","optimality and border windows are claims over all histograms and positions",
["src/contrast.rs","src/integral_image.rs"],[("threshold_mut","src/contrast.rs"),("otsu/kapur incremental search","src/contrast.rs")])
p("C23","Histogram equalisation, matching and stretching are monotone and exact",
"equalize_histogram maps each level v to floor(255*cdf(v)/n); stretch_contrast maps the input range linearly to the output range and saturates outside, leaving an alpha channel alone; match_histogram maps each source level to the target level whose cumulative fraction is nearest. All three are monotone functions of the input level alone.",
I,"all gray images and valid bounds","closeness and saturation at every level pair is not settled by one image",
["src/contrast.rs"],[("histogram lookup tables","src/contrast.rs")])
p("C24","Histograms, percentiles, extremes and error metrics count correctly",
"histogram and cumulative_histogram count every pixel of every channel once, percentile returns the smallest level with at least p percent of pixels at or below it, min_max returns each channel's extremes, and root_mean_squared_error and peak_signal_to_noise_ratio follow their formulas.",
I,"all images and percentiles","tests use one small image each",
["src/stats.rs"],[("counting loops","src/stats.rs")])
p("C25","Integral images answer every rectangle sum and variance exactly",
"After integral_image (or the squared and padded/row/column running sums) every inclusive rectangle sum equals the direct sum of the pixels, the variance equals the direct variance, and running sums equal the sum of the replicated window. This holds per channel for every rectangle in the image.",
I,"all images and all rectangles","every rectangle position matters, in particular those touching the border",
["src/integral_image.rs"],[("prefix sums","src/integral_image.rs")])
p("C26","Non-maximum suppression keeps exactly the dominant local maxima",
"suppress_non_maximum keeps exactly the pixels of the image that are maximal in their (2r+1) square neighbourhood and sets the others to zero, and local_maxima returns exactly the scored points not dominated by a stronger one within the radius. Of equal values within the radius the lexicographically first wins, so no two results are within the radius of each other.",
I,"all score images, point sets and radii","block-skipping search errors need specific alignments of maxima and blocks",
["src/suppress.rs"],[("block decomposition","src/suppress.rs")])
p("C27","FAST corners are exactly the pixels passing the segment test",
"corners_fast9/12 return exactly the pixels at least three pixels from the border whose circle of 16 has at least 9/12 contiguous pixels all brighter than centre+threshold or all darker than centre-threshold, and the score is the largest threshold, from the given one, at which the pixel is still a corner. oriented_fast keeps corners by score and measures orientation by the intensity centroid of the part of the 31x31 patch that lies in the image.",
I,"all gray images and thresholds","the early-exit tests and the 16 rotations of an arc are only sampled by the tests",
["src/corners.rs"],[("is_corner_fast9/12","src/corners.rs"),("fast_corner_score bisection","src/corners.rs")])
p("C28","Canny output is exactly the hysteresis closure of thin edges",
"canny's output is binary and its border pixels are never edges; with equal thresholds it is the thinned strong-edge set, raising thresholds never adds pixels, and canny(low, high) is exactly the union of the 8-connected components of canny(low, low) that contain a pixel of canny(high, high).",
I,"all gray images and threshold pairs low <= high","hysteresis connectivity depends on the shape of edge chains in every direction",
["src/edges.rs"],[("hysteresis","src/edges.rs"),("non_maximum_suppression","src/edges.rs")])
p("C29","Hough line detection reports exactly the accumulator peaks",
"detect_lines returns exactly the (r, theta) cells whose vote count reaches the threshold and that survive suppression within the radius, where each foreground pixel votes once per angle for its signed distance truncated to an integer (of equal counts within the radius the first is kept). draw_polar_line draws the line satisfying x cos + y sin = r clipped to the image, and intersection_points returns both ends of that clipped line.",
I,"all binary images and options","votes for steep, negative-r and border lines differ by quadrant",
["src/hough.rs"],[("accumulator","src/hough.rs:detect_lines"),("intersection_points","src/hough.rs")])
p("C30","Haar features equal the signed sums over their blocks",
"evaluating a Haar feature on the integral image equals the sum of its positive blocks minus the sum of its negative blocks, and the enumeration for a frame yields exactly the distinct features that fit, as many as number_of_haar_features says.",
I,"all images, feature types, block sizes and positions","each feature type has its own corner-weight table",
["src/haar.rs"],[("combine_alternating and offsets","src/haar.rs")])
p("C31","HOG descriptors distribute and normalise gradient mass correctly",
"cell_histograms adds each pixel's gradient magnitude to the spatially and orientationally adjacent bins by linear interpolation, conserving the total away from borders; hog normalises each block to at most unit length in the documented order. Unsatisfiable options are reported as an error and never panic. render_hist_grid draws every cell's orientation star in that cell's own window.",
["inputs","configurations"],"all images and options, valid and invalid","interpolation weights and option validation are claims over all sizes",
["src/hog.rs"],[("add_pixel trilinear interpolation","src/hog.rs"),("HogSpec::from_options","src/hog.rs")])
p("C32","Local binary patterns and their bit tables are exact",
"local_binary_pattern sets bit i exactly when the i-th clockwise neighbour is darker than the centre and is None on the border; min_shift, count_transitions and the lookup tables agree with their definitions for all 256 values.",
I,"all gray images and positions, all 256 patterns","tests cover one neighbourhood",
["src/local_binary_patterns.rs"],[("neighbour order","src/local_binary_patterns.rs"),("tables","src/local_binary_patterns.rs")])
p("C33","Template matching scores equal their formulas; extremes are correct",
"match_template and match_template_with_mask return at each offset the documented score (sum of squared errors, cross correlation, plain or normalised, weighted by the mask) of the template against that window, with output dimensions image - template + 1 (a zero normaliser leaves the score unnormalised); larger templates and masks of another size are refused. find_extremes returns the first smallest and largest values in row-major order with their locations.",
I,"all images, templates, masks, methods","tests use one 3x3 example per method",
["src/template_matching.rs"],[("methods::*::score_at","src/template_matching.rs")])
p("C34","Seams are connected and have minimal total energy",
"find_vertical_seam returns one column per row (bottom to top), consecutive columns at most one apart, whose summed energy is minimal among all such seams (energy being the mean over the channels of the Sobel gradient magnitude); remove_vertical_seam deletes exactly those pixels, shrink_width removes seams until the target width, and draw_vertical_seams marks the removed pixels in the original image.",
["inputs","histories"],"all images and numbers of seams removed in sequence","minimality is a claim over all seams; mapping drawn seams back needs several removals",
["src/seam_carving.rs"],[("dynamic programming and trace back","src/seam_carving.rs:find_vertical_seam")])
p("C35","Binary descriptors encode every test pair; matching respects the threshold",
"a BRIEF descriptor has one bit per test pair telling which of the two smoothed intensities is larger, descriptors of the same patch are equal and Hamming distance counts differing tests; key points whose patch would leave the image and unsupported lengths are errors. match_binary_descriptors returns only pairs from the two lists with distance below the threshold, each first descriptor at most once, an equal descriptor always when there is one, and the same result for the same seed.",
I,"all images, key points, test pairs, descriptor sets, thresholds and seeds","each bit position and pair must be independently right",
["src/binary_descriptors/mod.rs","src/binary_descriptors/brief.rs"],[("brief_impl bit packing","src/binary_descriptors/brief.rs"),("locality-sensitive hashing","src/binary_descriptors/mod.rs")])
p("C36","Perceptual hashes follow the low-frequency DCT and metric laws",
"phash sets each of its bits exactly when the corresponding low-frequency DCT coefficient of the reduced image exceeds their mean, so equal images hash equally and brightness-preserving mirror relations follow. hamming_distance is a metric on hashes.",
I,"all gray images with intensities in [0, 1]","tests compare a few stored photographs",
["src/image_hash"],[("dct2d and bit packing","src/image_hash/phash.rs, src/image_hash/bits.rs")])
p("C37","Noise generators are seeded, bounded and hit their stated statistics",
"gaussian_noise and salt_and_pepper_noise give the same image for the same seed, salt_and_pepper changes pixels only to black or white at close to the requested rate with both values about equally often, rate 0 changes nothing and rate 1 every pixel, and Gaussian noise has the requested mean and standard deviation before saturation.",
I,"all images, rates, means, standard deviations and seeds","statistics over seeds are not asserted by any test",
["src/noise.rs"],[("StdRng seeded generators","src/noise.rs")])
p("C38","Pixel maps, channel functions and saturating conversions are exact",
"map_* apply the function once to every (sub)pixel at its own coordinates, channel extraction and embedding are inverse, map_pixels2 rejects mismatched sizes, weighted sums and interpolation are the clamped linear combination, and Clamp conversions saturate at the target type's limits and otherwise agree with the value.",
I,"all images and closures; all numeric values of every supported type pair","boundary values of every conversion pair are not enumerated by the tests",
["src/map.rs","src/pixelops.rs","src/definitions.rs","src/math.rs"],[("Clamp implementations","src/definitions.rs"),("map functions","src/map.rs"),("weighted_sum","src/pixelops.rs")])
p("C39","Rectangle containment and intersection agree with the set of pixels",
"A Rect contains exactly the points between left/right and top/bottom inclusive, and intersect returns the rectangle of exactly the common points or None when there are none. right and bottom are the last contained coordinates, saturating at the largest i32.",
I,"all rectangles and points in the i32 range","touching, nested and disjoint configurations at the boundary need exhaustive combinations",
["src/rect.rs"],[("intersect","src/rect.rs")])
p("C40","Operations on tiny, thin or empty-content images never panic or corrupt memory",
"Every operation accepts images down to one pixel, one-pixel-wide strips and images without content, with any valid parameters, and returns an image of the documented size without panicking or reading outside the image. Functions using unchecked access never index out of bounds.",
I,"all operations on all image sizes from 1x1 with parameters at their extremes","unchecked indexing is safe only if every size and parameter combination keeps indices in range",
["src"],[("unsafe_get_pixel / get_unchecked uses","src/filter, src/corners.rs, src/contrast.rs, src/geometric_transformations.rs, src/template_matching.rs, src/hog.rs"),])
p("C41","Rendered text stays inside its measured box and blends by coverage",
"draw_text places the letters by the font's advance widths and kerning, changes only pixels inside the text's layout box (text_size wide and high, up to glyph overhang), blends the colour by glyph coverage so fully covered pixels get exactly the colour, translating the position translates the drawing, and empty text changes nothing with size (0, 0). Text size grows monotonically with appended characters.",
I,"all strings, scales and positions","tests render one string per case",
["src/drawing/text.rs"],[("layout_glyphs","src/drawing/text.rs")])
p("C42","The display window shows the image it is given",
"display_image and display_multiple_images open one resizable window per image with the given title, the requested size (each side at least 150 pixels, also as the minimum size) and within the right edge of the screen. Each shows its own image, unchanged if it fits, otherwise shrunk with its aspect ratio kept, centred on white, blended by alpha; after a resize it is shown again for the new size. Q or a close request hides that window only; the functions return exactly when every window has been closed, on Escape or on quit, and never panic.",
["inputs","histories"],"all lists of non-empty images of any pixel type, window sizes, and sequences of resizes, key presses and close requests","needs a display and a sequence of user events; no test opens a window",
["src/window.rs"],[("scaling and placement","src/window.rs:resize_to_fit, render_image_to_canvas"),("event loop","src/window.rs:display_multiple_images")])
p("C43","Comparison helpers, image literals and point arithmetic are exact",
"pixel_diffs lists exactly the differing positions in row-major order with both values; pixel_diff_summary is None exactly for equal images; assert_pixels_eq!, assert_pixels_eq_within! and assert_dimensions_match! panic exactly when the images differ, differ by more than the tolerance, or differ in size; and the description names the differing pixels and their values. The gray_image!, rgb_image! and rgba_image! literals hold their values row by row, and Point addition and subtraction act on each coordinate.",
I,"all pairs of images of any pixel type, tolerances, literal values and points","the helpers are used by the tests, which only meet the case where they stay silent",
["src/utils.rs","src/point.rs"],[("pixel_diffs and describe_pixel_diffs","src/utils.rs"),("literal macros","src/utils.rs:gray_image!, rgb_image!, rgba_image!"),("Add, AddAssign, Sub, SubAssign","src/point.rs")])
p("C44","Generic functions treat a view of an image like an image of its own",
"Every function that accepts any image view or canvas (all drawing functions, Haar feature drawing, connected components, local maxima suppression, local binary patterns, error metrics, pixel comparison) gives on a window of a larger image exactly what it gives on a copy of that window. It never accesses a pixel outside the window, and leaves the rest of the larger image unchanged.",
I,"all images, all windows of them, all shapes and arguments","the tests only pass whole ImageBuffers, for which out-of-window accesses cannot be told apart",
["src/drawing","src/haar.rs","src/region_labelling.rs","src/suppress.rs","src/local_binary_patterns.rs","src/stats.rs","src/utils.rs"],
[("Canvas for GenericImage and Blend","src/drawing/canvas.rs"),("generic image parameters","src/*: I: GenericImage")])
p("C45","Arguments outside a stated domain are refused, those inside accepted",
"Every function with a stated precondition enforces it exactly: crop, replace and overlay (window or corner inside the image), match_template and its mask (template not larger than the image, mask of the template's size), Kernel::new and Kernel::get, separable_filter (equal lengths), filter (equal channel counts), gaussian_blur_f32 (positive sigma), bilateral_filter, find_extremes, min_max and the line pixel iterators (non-empty images), percentile (at most 100), stretch_contrast, adaptive_threshold, canny, row_running_sum and column_running_sum, map_pixels2 and the error metrics (equal sizes), shrink_width, find_vertical_seam and remove_vertical_seam, Mask::from_image (at most 511 pixels a side), Rect sizes, approximate_polygon_dp, min_area_rect and draw_hollow_polygon, Haar features, local binary patterns, DisjointSetForest indices, BRIEF key points, lengths and bit subsets. Arguments violating the condition by as little as one panic (or give an error or None where the signature says so) instead of yielding a result; arguments meeting it, including those exactly on the limit, are accepted and give a result of the stated size. This holds in builds with and without overflow checks.",
I,"all arguments on either side of every stated limit, including limits near the largest integers","the tests try one or two bad arguments per function, rarely the ones next to the limit, and unsafe code relies on the conditions",
["src"],[("assertions at function entry","src/compose.rs:crop, replace, overlay; src/template_matching.rs:ImageTemplate::new, ImageTemplateMask::new; src/seam_carving.rs; src/contrast.rs; src/stats.rs; src/integral_image.rs"),("conditions unsafe code relies on","src/union_find.rs:root, find, union; src/haar.rs:evaluate; src/filter/mod.rs; src/binary_descriptors/brief.rs:brief_impl")])
p("C46","Results do not depend on how the crate is built",
"The crate built without its rayon feature, without debug assertions and without overflow checks gives, for the same arguments, exactly the results of the build with all three: the same values, sizes and orders for every image operation, drawing function, feature detector and point-set function. No operation relies on a side effect of an assertion, on arithmetic that overflows, or on code that only one of the builds contains.",
I,"all operations, all arguments, all build configurations","the test suite runs in one configuration; code under cfg(not(feature = \"rayon\")) is never executed by it",
["src"],[("sequential alternatives","src/geometric_transformations.rs:warp_inner; src/contrast.rs:equalize_histogram_mut"),("debug assertions and overflow-checked arithmetic","src/filter, src/template_matching.rs, src/morphology.rs, src/image_hash"),("features","Cargo.toml")])
p("C47","Operations do not depend on earlier or concurrent calls",
"Every operation is a pure function of its arguments: an image operation, drawing function, feature detector, matcher or point-set function gives the same result whatever calls were made before it in the process (of the same operation with other images, sizes or parameters, or of others, on the same or another thread), in whatever order a history of calls is made, and while other calls run at the same time in other threads. No buffer, table or random generator is carried over from one call to the next.",
["inputs","histories","schedules"],"all histories of calls, all interleavings of concurrent calls","each unit test makes one call, or a few with the same arguments, in one thread",
["src"],[("buffers and tables built per call","src/filter, src/contrast.rs, src/distance_transform.rs, src/hog.rs, src/image_hash, src/union_find.rs"),("seeded random generators","src/noise.rs, src/corners.rs, src/binary_descriptors"),("rayon pools","src/map.rs, src/gradients.rs, src/template_matching.rs")])
p("C48","Operations ignore what an image's buffer holds beyond its pixels",
"An image is its size and its pixels: image buffers may be longer than their pixels need (ImageBuffer::from_raw accepts any buffer that is large enough, as when buffers are reused), and what lies beyond the pixels makes no difference to any operation. Every image operation, feature detector, matcher and point-set function gives for such an image exactly the pixels and values it gives for an image in a buffer of its own size, without a panic; operations in place, and those that write into an image passed to them, leave the same pixels.",
I,"all operations, all images, any number and value of further elements in the buffer of an input or output image","the tests only make images whose buffers are exactly as long as their pixels, and so can not tell iteration over pixels from iteration over the buffer",
["src"],[("iteration over a buffer by rows","src/morphology.rs:mask_reduce; src/geometric_transformations.rs:warp_inner"),("sums over a buffer","src/template_matching.rs:square_sum, mult_square_sum"),("raw buffer accesses","src/map.rs, src/filter, src/integral_image.rs, src/contrast.rs")])
p("C49","Generic operations treat all pixel types alike",
"Operations that move, compare, order or add up pixels and are generic over the pixel type give the same picture whatever the pixels are made of (grey, grey with alpha, RGB or RGBA; signed and unsigned integers of 8 to 64 bits, 32 and 64 bit floats, with values up to the limits of the type): flips, rotations by quarter turns, translation, cropping, pasting, nearest-neighbour warps, seam removal, flood fill and solid drawing put the same pixels in the same places; connected components, maxima suppression, extremes and pixel comparison report the same positions; and kernel filters, separable filters and integral images give the same numbers in every type that can hold them.",
I,"all images, all pixel types the operations accept, all values of those types","the tests use 8 bit grey or RGB almost throughout: wide, signed and floating point pixels, alpha channels and large values are not sampled",
["src"],[("generic image operations","src/compose.rs, src/geometric_transformations.rs, src/drawing, src/seam_carving.rs:remove_vertical_seam"),("comparisons","src/region_labelling.rs, src/suppress.rs, src/stats.rs:min_max, src/template_matching.rs:find_extremes, src/utils.rs:pixel_diffs"),("sums","src/filter/mod.rs, src/integral_image.rs")])
p("C50","Operations without a preferred direction commute with mirrors and turns",
"Mirroring, transposing or turning an image, together with the kernel, mask, template, radii or position an operation takes, mirrors, transposes or turns its result: this holds for kernel, box, median, bilateral, Gaussian and sharpening filters, gradients, distance transforms, binary and grayscale morphology, connected components, contours with their parents, adaptive thresholds, maxima suppression, FAST corners with their scores, local binary patterns (with their bits permuted), template matching with and without a mask and flood fill; histograms, percentiles, automatic levels and histogram mappings do not depend on where pixels are.",
I,"all images, all seven symmetries of the square, all parameters","the tests compare fixed small images in one orientation; an operation that treats left and right, top and bottom or rows and columns differently passes them, and large images have no expected result to compare with",
["src"],[("filters","src/filter, src/gradients.rs"),("distances and morphology","src/distance_transform.rs, src/morphology.rs"),("regions, corners and matching","src/region_labelling.rs, src/contours.rs, src/corners.rs, src/suppress.rs, src/template_matching.rs, src/local_binary_patterns.rs")])
p("C51","Neighbourhood operations are local; borders act as the pixels they stand for",
"The result of an operation with a bounded neighbourhood (filters, medians, gradients, morphology, capped distances, adaptive thresholds, maxima suppression, FAST corners, local binary patterns, template matching) at a pixel depends only on the pixels within its reach: processing a tile with that margin gives the tile of the result on the whole image. At the border, filters act as if the nearest pixel were repeated outside, and dilation, erosion and distance transforms as if nothing were there: writing those pixels out around the image changes nothing.",
I,"all images, all tiles, all parameters","the tests use single small images; state carried from one row, column or block to the next, or a border handled differently at some distance from the corner, needs pairs of images of different extents",
["src"],[("running state along rows and columns","src/filter/box_filter.rs, src/filter/median.rs, src/filter/mod.rs:horizontal_filter, vertical_filter"),("borders","src/filter/mod.rs:filter, src/morphology.rs, src/distance_transform.rs"),("windows","src/contrast.rs:adaptive_threshold, src/suppress.rs, src/corners.rs, src/template_matching.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
