"""Single source of properties.jsonl and MANIFEST.json:  /opt/venv/bin/python tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
S = "gradslam/structures/"
G = "gradslam/geometry/"
O = "gradslam/odometry/"
L = "gradslam/slam/"
D = "gradslam/datasets/"

P = []


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state or []))


HIST = "explicit-state exploration of every operation history to a depth on the real code, in lockstep with a reference model"
SWEEP = "exhaustive enumeration of a bounded argument space on the real code, each case judged by an executable reference model"
TRUST = " Trusts: PyTorch/NumPy arithmetic, the reference model in lib/ and checks/, small-scope bounds stated in the evidence; CPU only."

prop("C01", "List and padded views of a point cloud batch always agree",
     "Whatever sequence of reads, assignments, in-place operations, copies and appends a batch of point clouds goes through, its list "
     "view and its padded view of points, normals, colors and features describe the same values: padded entries equal list entries, "
     "padding holds zeros (or the documented fill), the non-padding mask and per-cloud counts match the list lengths. "
     "The has-points/normals/colors/features flags and batch length always reflect what is stored.",
     ["histories"], "every history of public operations, from every construction form (ragged lists, padded tensors, empty), regardless of which view was read before",
     "tests read each view once on a fresh object; stale caches only show after mixed read/assign/in-place histories",
     [S + "pointclouds.py", S + "structutils.py"],
     [("lazy padded/list materialisation", S + "pointclouds.py:Pointclouds._compute_padded"), ("setters of both forms", S + "pointclouds.py")],
     HIST, "Every history up to depth 3 (quick) or 4 (thorough) over the full alphabet of reads, assignments, in-place operations, appends and copies from several initial batches." + TRUST)
prop("C02", "Copies, clones and results of point clouds never share fate with the source",
     "Out-of-place operations (arithmetic, rotation, transform, projection, indexing, clone, detach, device moves) leave their operand "
     "unchanged and return a batch with the documented values; after a clone or out-of-place result, in-place changes to either object are never visible in the other. "
     "Detached copies carry no gradient history while the original keeps its own.",
     ["histories"], "every history interleaving copies with in-place operations on either object",
     "tests check a single copy once; aliasing shows only when a later in-place operation hits one of the aliased objects",
     [S + "pointclouds.py"], [("clone/detach/to", S + "pointclouds.py:Pointclouds.clone"), ("__getitem__", S + "pointclouds.py:Pointclouds.__getitem__")],
     HIST, "Two-register machine (original, copy); every history to depth 4 (quick)." + TRUST)
prop("C03", "Geometric operations act on every point exactly as the formula says",
     "Scaling, offsetting, dividing, rotating, rigidly transforming and pinhole-projecting a batch of point clouds applies the stated formula "
     "to every point (rotation also to normals), leaves every other attribute and the padding untouched, gives the same result in place and out of place, "
     "and rejects operands of unsupported type or shape without modifying the batch.",
     ["inputs"], "every operation, operand shape (single, per-cloud), multiplication side, batch shape and internal form",
     "tests use one or two random matrices on equal-sized clouds",
     [S + "pointclouds.py"], [("rotate_/transform_/scale_/offset_/pinhole_projection_", S + "pointclouds.py")],
     SWEEP, "Complete product over bounded operands incl. all chains of 2-3 operations." + TRUST)
prop("C04", "Indexing, appending and constructing point cloud batches lose and invent nothing",
     "Selecting clouds by integer, slice, list, boolean or integer tensor returns exactly the clouds Python/NumPy indexing of the list would, with all their attributes; "
     "appending a batch concatenates every attribute cloud by cloud, and construction from lists or padded tensors stores exactly what was given. "
     "Invalid indices, mismatched attribute shapes, or appending batches with different attributes are rejected without changing anything.",
     ["inputs"], "every index expression over the batch, every pair of batch shapes and attribute sets to append, every constructor form",
     "tests index with a handful of indices and append equal-sized clouds",
     [S + "pointclouds.py"], [("__getitem__", S + "pointclouds.py:Pointclouds.__getitem__"), ("append_points", S + "pointclouds.py:Pointclouds.append_points")],
     SWEEP, "Complete index domain for batches of up to 3 clouds, complete append and constructor products." + TRUST)
prop("C05", "Exporting point clouds to Open3D and Plotly keeps every point and color",
     "Exporting one cloud of a batch to an Open3D point cloud or a Plotly figure yields exactly that cloud's points, in order, with its normals and its colors in the range the target expects, "
     "when the corresponding options ask for them, and without padding points of other clouds. "
     "Subsampling to a maximum number of points keeps each point paired with its own color, and exporting never modifies the batch.",
     ["inputs"], "every cloud index, attribute combination, option combination, color scale and subsample size",
     "tests need open3d and look at one random cloud",
     [S + "pointclouds.py"], [("open3d/plotly", S + "pointclouds.py:Pointclouds.plotly")])
prop("C06", "Derived maps of an RGB-D batch always follow its images, intrinsics and poses",
     "Whatever sequence of reads, assignments and layout changes an RGB-D batch goes through, the depth-validity mask and the local and global vertex and normal maps it reports "
     "are the ones computed from its current depth, intrinsics and poses in its current channel layout.",
     ["histories"], "every history of reads, image/intrinsics/pose assignments, layout conversions and copies",
     "tests read each map once on a fresh object, so stale caches never show",
     [S + "rgbdimages.py"], [("cached maps and setters", S + "rgbdimages.py")],
     HIST, "Every history to depth 3 (quick) / 4 (thorough) over reads, assignments and conversions." + TRUST)
prop("C07", "Indexing, copying and re-laying-out RGB-D batches preserve content and isolation",
     "Indexing an RGB-D batch by any documented index (integers, slices, lists, tensors, and pairs of these) returns exactly the frames NumPy indexing would, keeping batch and time dimensions; "
     "empty selections and out-of-range indices are rejected. Converting channel layout there and back is lossless, clones and detached copies are independent of the original, and out-of-place conversions leave the original alone.",
     ["inputs", "histories"], "every index expression over the batch and time dimensions; every history of copies, conversions and assignments on original and copy",
     "tests use a few integer indices and one copy",
     [S + "rgbdimages.py"], [("__getitem__", S + "rgbdimages.py:RGBDImages.__getitem__"), ("clone/detach/to/to_channels_first", S + "rgbdimages.py")])
prop("C08", "Vertex and normal maps are the back-projection of valid depth, and zero elsewhere",
     "For every pixel with positive depth the vertex map holds the pinhole back-projection of that pixel, and the global maps hold it (and the normal) transformed by the frame's pose; "
     "pixels without valid depth hold zero vertices and normals. Normals have unit length or are zero and point along the cross product of neighbouring vertex differences; results do not depend on channel layout or on other frames of the batch.",
     ["inputs"], "every small depth image with holes, intrinsics, poses, layout and batch composition",
     "tests compare a few real frames with stored results; hole patterns and batch composition are not varied",
     [S + "rgbdimages.py"], [("_compute_vertex_map/_compute_normal_map/_compute_global_vertex_map", S + "rgbdimages.py")])
prop("C09", "Turning frames into point clouds keeps every valid pixel exactly once",
     "Converting an RGB-D frame into a point cloud yields one point per pixel with valid depth (or per pixel if filtering is off), in image order, each with that pixel's own vertex, normal, and color, global or local as requested, for each batch element separately; "
     "aggregating frames into a map appends exactly those points and keeps the earlier ones unchanged.",
     ["inputs", "histories"], "every validity pattern, batch size, option and sequence of frames",
     "tests convert a single frame with dense depth",
     [S + "utils.py", L + "fusionutils.py"], [("pointclouds_from_rgbdimages", S + "utils.py"), ("update_map_aggregate", L + "fusionutils.py")])
prop("C10", "Fusion correspondences are exactly the close, similar, best and unique pairs",
     "The correspondences used for fusion pair a map point with the pixel it projects to only when it lies in front of the (zero-skew pinhole) camera and inside the image, between the centres of its outermost pixels, the pixel has valid depth, the distance is below the distance threshold and the normals agree beyond the angle threshold; "
     "every map point is used at most once and every pixel takes the candidate with the highest confidence (then the closest). Nothing else qualifies and nothing that qualifies is missing.",
     ["inputs"], "every placement of a few map points relative to a small frame, with every confidence ordering, batch composition and threshold",
     "tests use one scene with fixed expected indices",
     [L + "fusionutils.py"], [("find_active_map_points/find_similar_map_points/find_best_unique_correspondences", L + "fusionutils.py")])
prop("C11", "Fusing a frame averages matched points by confidence and adds the rest",
     "Fusing a frame into a map replaces each matched map point's position, normal and color by the confidence-weighted mean with its pixel (confidences being positive) and adds the confidences, appends every unmatched valid pixel once with its own confidence, and leaves all other map points unchanged. "
     "Total confidence therefore grows by exactly the confidence of the frame's valid pixels, and with out-of-place mode the map passed in is left unchanged.",
     ["inputs", "histories"], "every correspondence pattern, batch composition and sequence of fused frames",
     "tests compare point counts of a single fused frame",
     [L + "fusionutils.py"], [("fuse_with_map/update_map_fusion/get_alpha", L + "fusionutils.py")])
prop("C12", "A SLAM run is the fold of its steps and reports the poses it used",
     "Processing a sequence in one call equals stepping through its frames one at a time: the same map and the same poses, where the first pose is the given one (identity if absent), each later pose is the odometry estimate composed with the previous pose (ground-truth odometry: the frame's own pose), and each frame is mapped with the reported pose. "
     "Options left out take their documented default values. The inputs handed to a run, and maps passed to an out-of-place step, are not modified. Runs are independent: steps of several runs may alternate in any order, on one SLAM object or several, without changing any of them.",
     ["histories", "configurations"], "every sequence of small frames, odometry mode, mapping mode, batch size, and split of the sequence into calls",
     "tests run one sequence end to end and compare the final cloud loosely",
     [L + "icpslam.py", L + "pointfusion.py"], [("forward/step/_localize/_map", L + "icpslam.py:ICPSLAM")])
prop("C13", "ICP returns the composed increments of its least-squares steps",
     "Point-to-plane alignment builds its linear system only from nearest-neighbour pairs within the distance threshold, solves the damped normal equations, and returns the initial transform left-composed with the increments it accepted: an increment that lowers the error is kept and halves the damping, any other is dropped and doubles it. The result is a rigid transform, the identity when clouds already coincide, and the exact correction when a single step suffices. "
     "It ignores the padding of batches, options left out take their documented default values, and the inputs are unchanged.",
     ["inputs", "configurations"], "every small source/target configuration, threshold, damping, initial transform and iteration count",
     "tests run on one synthetic surface with one transform and a loose tolerance",
     [O + "icputils.py", O + "icp.py"], [("solve_linear_system/gauss_newton_solve/point_to_plane_ICP", O + "icputils.py")])
prop("C14", "Differentiable ICP follows its soft accept/reject damping schedule",
     "Each iteration of differentiable ICP evaluates a candidate increment at the current damping, scales the damping and gates the pose update by the documented smooth functions of the old and new errors, and the returned transform is the composition of the gated updates applied to the initial transform: always rigid, "
     "equal to plain ICP when the candidate always improves with a saturated gate. Every branch combination of improving and worsening iterations follows the same rule, and options left out take their documented default values.",
     ["histories", "configurations"], "every sequence of improving/worsening error patterns to a number of iterations, and every parameter setting of the gates",
     "tests run one converging example",
     [O + "icputils.py", O + "gradicp.py"], [("point_to_plane_gradICP", O + "icputils.py")])
prop("C15", "Rigid-transform algebra obeys the group laws",
     "Exponential maps give rigid transforms that agree with the matrix exponential for every twist, including tiny and zero rotation; composing, inverting and taking relative transforms obey associativity, identity and inverse laws and agree with applying them to points; quaternion and axis-angle conversions agree with the rotation they denote, for a quaternion and its negative. "
     "All of them treat each batch element independently.",
     ["inputs"], "every combination of bounded rotations (all cube rotations, generic, near-zero, near-pi) and translations, batched and unbatched",
     "tests use one or two random transforms",
     [G + "se3utils.py", G + "geometryutils.py"], [("so3_exp/se3_exp", G + "se3utils.py"), ("compose/inverse/relative", G + "geometryutils.py")])
prop("C16", "Projection and back-projection are inverse and handle degenerate depth",
     "Projecting points into the image and back-projecting with their depth returns the same points, homogenising and unhomogenising are inverse, pixel-coordinate normalisation round-trips on images of at least two pixels a side, and the closed-form inverse of an intrinsics matrix is its inverse. "
     "Points at zero depth never produce NaN or infinite values, and inputs of unsupported type or shape are rejected.",
     ["inputs"], "every point of a grid incl. zero and negative depth, intrinsics, image size, batch shape",
     "tests use random positive-depth points with one intrinsics matrix",
     [G + "projutils.py", G + "geometryutils.py"], [("project_points/unproject_points/inverse_intrinsics", G + "projutils.py")])
prop("C17", "Plotly animations of an RGB-D batch show exactly the chosen sequence",
     "Rendering one sequence of a batch yields one Plotly frame per time step, named and ordered by time step, whose color image and (when asked for) depth image show that sequence's pixels in either channel layout, "
     "with colors brought to the 0..255 range and depths multiplied by the announced power of ten that uses the 8-bit range best; the figure starts at the first frame and its slider and play button reach every frame. "
     "Sequences without valid depth can be rendered, and rendering never modifies the batch.",
     ["inputs"], "every batch shape, layout, sequence index, depth and color range and option combination",
     "one structure test needs open3d and only checks that a figure is produced",
     [S + "rgbdimages.py", S + "structutils.py"], [("plotly frames", S + "rgbdimages.py:RGBDImages.plotly"), ("image encoding", S + "structutils.py:img_to_b64str")])
prop("C18", "The TUM reader returns time-aligned frames, windows and poses",
     "Every sample of a TUM dataset is a window of frames at the requested stride and dilation whose color, depth and ground-truth pose are those associated in time, frame by frame and in order, relative to the window's first pose, with intrinsics scaled to the requested image size; "
     "the dataset's length equals the number of such windows inside the requested start and end for each requested sequence. Samples are independent of each other: reading one again gives the same, whatever was done to an earlier sample.",
     ["inputs", "configurations"], "every small choice of sequences, timestamp pattern, sequence length, stride, dilation, start, end and channel options",
     "tests read one bundled sequence with one configuration",
     [D + "tum.py"], [("window construction", D + "tum.py:TUM.__init__"), ("_findAssociations", D + "tum.py")])
prop("C19", "The ICL reader returns frames, windows and poses of the same instant",
     "Every sample of an ICL dataset is a window of frames at the requested stride and dilation whose color image, depth image and pose belong to the same frame number, in order, with poses relative to the window's first frame and intrinsics scaled to the image size; "
     "the dataset's length equals the number of such windows inside the requested start and end for each requested trajectory. Samples are independent of each other: reading one again gives the same, whatever was done to an earlier sample.",
     ["inputs", "configurations"], "every small directory layout, sequence length, stride, dilation, start, end and option set",
     "tests read one bundled trajectory with one configuration",
     [D + "icl.py"], [("window construction", D + "icl.py:ICL.__init__"), ("_loadPoses", D + "icl.py")])
prop("C20", "The ScanNet reader returns sequences whose images, poses and labels belong together",
     "A ScanNet dataset holds one sample per listed sequence of the requested scenes, whatever their lengths: the frames from the requested start to the requested end (the sequence's own end by default), in order, whose color, depth, pose and semantic label belong to the same frame, "
     "with poses relative to the first of them and that sequence's intrinsics scaled to the requested image size; frame ranges that leave a sequence are rejected; reading a sample again gives the same, whatever was done to an earlier one. Label remapping to the 20-class benchmark follows the fixed table without altering its input.",
     ["inputs", "configurations"], "every small set of scenes and sequence lengths, start, end, scene choice and option set; every label value",
     "no test exercises the ScanNet reader on data of its own",
     [D + "scannet.py"], [("window construction", D + "scannet.py:Scannet.__init__"), ("nyu40_to_scannet20", D + "scannet.py")])
prop("C21", "Dataset utilities are exact and leave their inputs unchanged",
     "Image normalisation, channel reordering, intrinsics scaling, pose-to-transform conversion, quaternion poses to matrices and label colorisation return exactly the documented result for every supported shape and number kind, keep batch elements independent, "
     "and never modify the array or tensor passed in.",
     ["inputs"], "every supported rank, dtype, container kind, scale factor and value grid",
     "tests use single random arrays",
     [D + "datautils.py"], [("scale_intrinsics/channels_first/poses_to_transforms", D + "datautils.py")])
prop("C22", "TUM trajectory files and timestamp association are read faithfully",
     "Reading a trajectory or image list returns every data line of the file keyed by its timestamp and skips only comments, blank lines and poses with NaNs or an all-zero quaternion; poses become rigid matrices of the stored translation and rotation. "
     "Association pairs two timestamp lists one to one, only within the maximum difference always preferring the closest remaining pair, and returned in order of time.",
     ["inputs"], "every small set of timestamps and offsets, every arrangement of comment/blank/separator lines",
     "no direct test of these functions on adversarial files",
     [D + "tumutils.py"], [("read_trajectory/read_file_list/associate", D + "tumutils.py")])
prop("C23", "Configuration freezing and merging never corrupt a configuration",
     "A frozen configuration node, and every node below it, rejects attribute assignment until it is unfrozen; merging from another configuration, a file or a list sets exactly the named existing keys, rejects unknown keys and incompatible types, and leaves everything else and the source of the merge unchanged. "
     "Keys marked as deprecated are skipped and keys marked as renamed are rejected wherever they appear.",
     ["histories"], "every history of assignments, freezes, merges and registrations over a small nested key space and value domain",
     "tests check one operation at a time on one configuration file",
     ["gradslam/config/cfgnode.py"], [("CfgNode", "gradslam/config/cfgnode.py")])
prop("C24", "Configurations survive saving, loading and cloning",
     "Writing a configuration out and loading it back, from text or from an open YAML or Python file, yields an equal configuration (tuples come back from YAML as lists); a clone is equal to and independent of its source. "
     "Values given as text are decoded to the number, boolean, list, tuple or string they denote, and values of unsupported type are rejected.",
     ["inputs"], "every nested configuration over a bounded key and value domain, every textual value of a list",
     "tests dump one configuration",
     ["gradslam/config/cfgnode.py"], [("dump/load_cfg/clone", "gradslam/config/cfgnode.py")])
prop("C25", "The pipeline stays differentiable end to end with correct gradients",
     "From input color, depth, intrinsics and poses to the fused or aggregated map and through rigid transforms and point cloud operations, gradients flow, are finite, and equal the derivative of the computed values wherever those are smooth (they are finite everywhere); "
     "pixels without valid depth get zero gradient, and padding never contributes.",
     ["inputs", "configurations"], "every pipeline stage and composition, hole pattern, batch composition and input leaf",
     "tests check that a gradient exists in a few places",
     [S + "rgbdimages.py", L + "fusionutils.py", G + "se3utils.py"], [("autograd through the pipeline", L + "icpslam.py")])
prop("C26", "Ground-truth odometry returns the exact relative pose of consecutive frames",
     "Ground-truth odometry returns, for every batch element, the rigid transform that composed with the first frame's pose yields the second's, independent of frame content and of the other batch elements; "
     "it rejects frames without poses or batches of unequal length and modifies neither frame.",
     ["inputs"], "every pair of bounded poses, batch sizes and invalid combinations",
     "tests use one sequence",
     [O + "groundtruth.py"], [("provide", O + "groundtruth.py")])
prop("C27", "Downsampling keeps whole points at the documented rate",
     "Downsampling a frame keeps exactly the pixels of the strided image grid that have valid depth, and downsampling a point cloud keeps the points at the strided positions, each with its own normal and color and in order, separately for each batch element and whatever the channel layout; "
     "the input is not modified.",
     ["inputs"], "every ratio, image size, hole pattern, batch composition and layout",
     "tests check shapes for one ratio",
     [O + "icputils.py"], [("downsample_pointclouds/downsample_rgbdimages", O + "icputils.py")])
prop("C30", "List and padded representations of ragged tensors convert into each other without loss",
     "Padding a list of matrices places every item in its own slot at the top left, fills the rest with the pad value, and honours requested sizes (refusing sizes that would drop data); splitting by the original sizes "
     "returns every item exactly, for any mix of sizes including empty items. Neither direction modifies its input or converts its type, and gradients reach exactly the original entries.",
     ["inputs"], "every list of small matrices, pad size, pad value, number kind and split",
     "only used indirectly, in tests that need open3d",
     [S + "structutils.py"], [("conversion", S + "structutils.py:list_to_padded")])
prop("C28", "Computation stays on the device of its inputs and gives there what it gives on the CPU",
     "Point clouds, RGB-D batches and every geometric, odometry, fusion and SLAM operation on tensors work on whichever device their inputs are on: values and gradients are those of the same call on the CPU, every tensor "
     "of the result is on that device (for a SLAM run, the device given to the SLAM object), and tensors of two devices never meet in one operation. Moving a container (to, cpu, a device argument of a constructor) moves everything it holds, including masks, counts, both "
     "list and padded forms and maps computed before the move, changes no value, leaves the container it was moved from as it was, and returns that very container exactly when it is there already and no copy is asked for; "
     "appending a batch that is on another device is refused.",
     ["configurations", "histories"], "every public tensor operation and option x device, every short history of moves and operations of a container, every SLAM class x odometry x device argument",
     "tests run on the CPU unless a GPU is present",
     [S + "pointclouds.py", S + "rgbdimages.py", L + "icpslam.py", O + "icputils.py", G + "geometryutils.py"], [("to/cpu", S + "pointclouds.py"), ("to/cpu", S + "rgbdimages.py"), ("device", L + "icpslam.py")])
prop("C31", "Malformed arguments are refused, and a refused call leaves no trace",
     "A tensor, structure, odometry, fusion or SLAM function given one argument that is not of the kind it documents (tensor, Pointclouds, RGBDImages, list, number), not of the documented shape (rank, trailing size, batch size, sequence length, "
     "sizes that must match), lacking an attribute it needs (poses, normals, colors, features), or an index out of range, raises an error wherever the function checks for it: TypeError for a wrong kind, ValueError for a wrong shape or a missing attribute, IndexError for an index. "
     "A refused call, assignment or in-place operation leaves all its arguments and the object it was called on as they were (the frame of an in-place SLAM step may keep a pose it was given before mapping was refused), "
     "and the next correct call on the same objects gives what it would have given had the refused call never been made.",
     ["inputs", "histories"], "every function, every malformed value of each of its arguments, every short history of refused and correct calls",
     "tests try one or two malformed arguments per function and never look at the objects afterwards",
     [G + "geometryutils.py", G + "projutils.py", S + "pointclouds.py", S + "rgbdimages.py", O + "icputils.py", O + "icp.py", O + "gradicp.py", O + "groundtruth.py", L + "fusionutils.py", L + "icpslam.py"],
     [("argument checks", L + "fusionutils.py:find_similar_map_points"), ("argument checks", O + "icputils.py:gauss_newton_solve"), ("_assert_set_padded/_assert_set_list", S + "pointclouds.py")])
prop("C29", "Reconstruction of real sequences converges to the true trajectory",
     "On real sequences of adequate overlap, odometry converges to the true camera motion within the accuracy of the method.",
     ["inputs"], "every real-scale sequence",
     "tests use one short sequence",
     [O + "icputils.py"], [("point_to_plane_gradICP", O + "icputils.py")],
     na="a convergence claim over a continuous, unbounded input space with no bounded state space to enumerate; exact one-step behaviour is decided under C13/C14 instead")


NOTES = {
    "C05": (SWEEP, "Every small batch x attributes x color range x history leading to it x export option, and every outcome of the random subsampling (permutations enumerated), each exported entry traced to its source point."),
    "C17": (SWEEP, "Batch shape x layout x depth range x color range x options, frames decoded from the rendered images and compared; all grey levels through the encoder."),
    "C25": (SWEEP, "Every stage and composition x hole pattern x layout x batch x subset of leaves, and every short history of cloud operations, autograd against central differences of the same code in double precision."),
    "C30": (SWEEP, "Every list of up to 3 small matrices x pad size x pad value x number kind, and every split of small padded tensors, against the entry-by-entry definition."),
    "C31": (HIST, "Every function x every malformed value of each argument x every history of refused calls around correct ones, in lockstep with a second set of objects that never saw the refused calls; only refusals the code declares are demanded."),
    "C07": (HIST, "Every index expression of the documented kinds over small batches, plus two-register histories of copies and conversions."),
    "C08": (SWEEP, "Every hole pattern of small frames x intrinsics x poses x layout x batch composition, compared with a per-pixel formula."),
    "C09": (SWEEP, "Every hole pattern, option and batch composition, and every short sequence of aggregated frames."),
    "C10": (SWEEP, "Every map of one or two candidate points (triples of a subset; quadruples thorough) against a brute-force definition of the correspondences."),
    "C11": (HIST, "Every partial matching of map points to valid pixels of small frames, and every history of fused frames from a pool, against a point-by-point model."),
    "C12": (HIST, "Every sequence over a pool of views x modes x odometries: the run against the fold of its own steps (all in/out-of-place patterns) and against an independent model; every interleaving of the steps of two runs against each run alone."),
    "C13": (SWEEP, "Complete small linear systems, every source placement on a grid, sign patterns of 6-twists, each against a brute-force double-precision run of the same iteration."),
    "C14": (SWEEP, "Starts x gate settings x iteration counts, covering every improve/worsen pattern reached, each against a brute-force double-precision run of the soft schedule."),
    "C15": (SWEEP, "Twist grid on both sides of every branch, every pair and triples of a pool of rigid transforms (all cube rotations), quaternion grids, against double-precision definitions."),
    "C16": (SWEEP, "Point grid incl. zero and negative depth x intrinsics x tensor layout x matrix broadcasting, intrinsics grid, image sizes, against per-point definitions."),
    "C18": (SWEEP, "Length x seqlen x dilation x stride x start x end, options, sequence choices, and every pattern of early/late/missing depth images and poses on synthetic sequences whose files identify their frame."),
    "C19": (SWEEP, "Length x seqlen x dilation x stride x start x end, options, trajectory choices, missing poses and files on synthetic trajectories whose files identify their frame."),
    "C20": (SWEEP, "Sequence lengths x start x end, scene choices, options on synthetic scenes whose files identify their frame; every pair of labels."),
    "C21": (SWEEP, "Rank x number kind x container x layout, ratio pairs, quaternion grids, pose sequences and labellings, each against its definition, with mutation probes."),
    "C22": (SWEEP, "Every arrangement of a few lines of 12-15 kinds, and every pair of timestamp subsets x offset x tolerance, judged by the definition."),
    "C23": (HIST, "Every history to depth 2 over ~90 operations (3 over a reduced alphabet; thorough: 3 and 4), clones left behind and merge sources watched throughout."),
    "C24": (SWEEP, "Value x position x dump options, tree x file form x loader, clone x flags x side mutated, text x original type, unsupported values x entry point."),
    "C26": (SWEEP, "Every ordered pair of a pool of rigid poses incl. all cube rotations, batched; every invalid combination."),
    "C28": (HIST + "; " + SWEEP, "Every public operation x options, and every short history of moves and operations of a container, run on the CPU and on a second torch device (lib/second, built from source here: host memory, CPU kernels, refuses mixed operands like CUDA), values and gradients compared."),
    "C27": (SWEEP, "Every hole pattern of small frames and every subset of points x ratio x layout x batch, against a pixel-by-pixel definition."),
}
for p in P:
    if p["id"] in NOTES:
        p["technique"], p["note"] = NOTES[p["id"]][0], NOTES[p["id"]][1] + TRUST


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) or not p["technique"]:
            na.append({"property": p["id"], "reason": "check not built yet"})
        else:
            checks.append({"property": p["id"],
                           "quick_cmd": "%s run.py %s --tier quick" % (PY, p["id"]),
                           "thorough_cmd": "%s run.py %s --tier thorough" % (PY, p["id"]),
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "%s tools/setup.py" % PY, "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed: every check drives the public API of the code in /repo directly. "
                  "KNOWN_FINDINGS.txt lists repaired and recorded defects; DESIGN.md explains each check."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed;", len(na), "not claimed")


if __name__ == "__main__":
    main()
