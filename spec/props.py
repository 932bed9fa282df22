ALL = ["inputs"]; HIST = ["histories", "inputs"]
PG = I + "slam_optimizer/pose_graph.h"; SP = I + "slam_optimizer/slam2d_policy.h"; ET = I + "utils/eigen_tools.h"
VG = I + "ndt/voxel_grid2d.h"; NC = I + "ndt/ndt_cell.h"; NCC = S + "ndt/ndt_cell.cpp"
prop("C01", "Graph ids, lookups and counts stay correct over add/remove",
 "After any sequence of adding and removing edges, looking up an id returns exactly the edge that was added under that id, or reports out of range if the id was never issued or its edge was removed; ids are never reused while alive, removing reports whether something was removed, and the reported counts equal the number of live elements.",
 HIST, "all add/remove histories within the bound, all ids queried",
 "pose_graph_test removes a few fixed edges; the guarantee quantifies over every history and every id, including ids at and past the end.",
 [PG], [("addEdge/removeEdge/getEdge slot reuse and range checks", PG)], ["Graph::getEdge, getNode, removeEdge, edgeCount, nodeCount"],
 [("edges_/unused slots", "slot id to edge, empty when removed", PG)])
prop("C02", "Graph iteration visits every live element exactly once",
 "Iterating nodes or edges from begin to end, with mutable or const iterators and with prefix or postfix increment, visits every live element exactly once in id order, never a removed one, and never reads outside the graph's storage.",
 HIST, "all subsets of removed edges, all iterator kinds", "The tests iterate one graph with one interior removal; first/last/all-removed patterns and the end position are not reached.",
 [PG], [("NodeIterator/EdgeIterator skipping of removed slots", PG)], ["beginEdge/endEdge/cbeginEdge/cendEdge, beginNode/endNode"])
prop("C03", "Node adjacency lists match the live edges",
 "After any sequence of adding and removing edges, each node's outgoing and incoming edge lists contain exactly the live edges that leave and enter it, each once, and every stored pose, measurement and information reads back as it was given.",
 HIST, "all histories and endpoint choices (self loops and parallel edges included) within the bound",
 "The tests check a couple of fixed topologies and no removal.", [PG], [("addEdge/removeEdge maintenance of node lists", PG)], ["Node::getEdgesIn, getEdgesOut"])
prop("C04", "A point addresses one in-range cell and reads back what was stored",
 "For every cell size, extent and point, a point reported inside the grid addresses exactly one cell of the grid's storage and the point lies in that cell's square; a point outside is reported as absent; a cell stored at a point is found again from every point of the same square and from no point of another square.",
 ALL, "all cell sizes, grid extents and points within the bound, cell borders included",
 "The unit test samples a handful of points away from cell borders.", [VG], [("isInside/calcCoordinates/calcIndex/enlargeToFit", VG)], ["addCell, cellExists, operator[], getCellPtr, isInside, removeCell, getCentroid"])
prop("C05", "Enlarging the grid keeps every stored cell where it was",
 "Growing the grid in any combination of directions, explicitly or by adding a far point, keeps every stored cell readable at its old position and unchanged, creates no other cell, never shrinks the grid, and covers the requested extent.",
 HIST, "all extents, contents and growth amounts within the bound", "The unit test enlarges fixed grids and checks one cell.", [VG], [("enlargeGrid index remapping", VG)], ["enlarge, addCell, getValidCells, width, height"])
prop("C06", "Translating the grid moves every cell by the requested amount",
 "After translating by a whole number of cells, the cell found at each position is the one that was the opposite offset away; cells moved past the border are dropped and no cell is duplicated or wrapped to another row or column.",
 ALL, "all translations (also larger than the grid), extents and contents within the bound", "The unit test only translates vertically and reads one cell.", [VG], [("translate, moveLeft/Right/Up/Down", VG)], ["translate, operator[], cellExists, getValidCells"])
prop("C07", "The reported number of valid cells equals the cells stored",
 "After any sequence of adding, removing, ray tracing, translating, growing and clearing, the reported number of valid cells equals the number of cells the grid actually holds, which are exactly those returned by the list of valid cells.",
 HIST, "all operation histories within the bound", "One fixed history is tested.", [VG], [("valid_cells_ maintenance", VG)], ["validCells, getValidCells, getValidCellsPtr"], [("valid_cells_", "number of non-empty cells", VG)])
prop("C08", "Copies of a grid are equal and independent",
 "A copied or copy-assigned grid has the same extents, cell size and cells as the original; later changes to either do not affect the other; a moved-to grid holds what the source held; a clone is an empty grid with the same cell size.",
 ALL, "all contents (empty slots included) and extents within the bound", "No test copies a grid with empty slots.", [VG], [("copy constructor, copy/move assignment, clone", VG)], ["VoxelGrid2D copy/move/assign/clone"])
prop("C09", "Ray tracing returns the connected cells along the segment",
 "Tracing a ray that starts inside the grid returns existing or freshly created cells that the segment passes through, in order from the start cell, each step to a neighbouring cell, without repeats, ending at or next to the cell of the ray's end or at the grid's border; a ray starting outside returns nothing; degenerate rays terminate.",
 ALL, "all start and end points within the bound, zero-length rays included", "The unit test traces fixed rays and none of zero or sub-cell length.", [VG], [("rayTrace stepping", VG)], ["rayTrace"])
prop("C10", "Neighbourhood queries return exactly the cells in the window",
 "Asking for the neighbours of a point in a given radius returns exactly the stored cells whose grid row and column differ by at most the radius, once each, in row order, and nothing when the point is outside.",
 ALL, "all contents, points and radii within the bound", "Sparse fixed contents are tested.", [VG], [("getNeighbors window clipping", VG)], ["getNeighbors"])
prop("C11", "Cell occupancy stays within its limits",
 "Whatever sequence of points, merges, transforms and ray updates a cell receives, its raw occupancy stays a number within the configured limits [-1,1], grows with hits and falls with misses by the configured amounts, setting it stores the given percentage, and the percentage reported is the one of the raw value (100 at the upper limit).",
 HIST, "all update histories within the bound, all values", "No baseline test touches the cell.", [NC, NCC], [("updateOccupancy clamping, getOccupancy", NCC)], ["getOccupancy, getOccupancyRescaled, updateOccupancy"])
prop("C12", "Merging cells gives the pooled mean and covariance",
 "Merging two Gaussian cells yields the number of points, mean and (conditioned) sample covariance of the union of their points, with the number of points capped at the configured window; merging a cell without a Gaussian changes nothing, and merging into a cell without one takes the other cell over; the other cell is only read.",
 ALL, "all means, covariances and counts within the bound", "No baseline test touches the cell.", [NC, NCC], [("NDTCell::operator+= recursive update", NCC)], ["operator+=, getMean, getCov, points"])
prop("C13", "A cell's Gaussian is the sample mean and covariance of its points",
 "Computing the Gaussian from buffered points yields their sample mean and sample covariance (after the documented conditioning), or no Gaussian when there are too few points, and empties the buffer; folding in further batches equals computing over all points.",
 HIST, "all point batches within the bound", "No baseline test touches the cell.", [NC, NCC], [("computeGaussian batch and recursive formulas", NCC)], ["addPoint, computeGaussian, getMean, getCov"])
prop("C14", "A Gaussian cell always has a usable covariance and inverse",
 "Whenever a cell reports a Gaussian, its covariance is symmetric and positive definite with bounded condition number (no eigenvalue below a hundredth of the largest) and its stored inverse is the inverse of that covariance, also for flat, elongated and coinciding point sets and points far from the origin.",
 ALL, "all covariances (singular, ill-conditioned, rank deficient) within the bound", "No baseline test touches the cell.", [NC, NCC], [("rescaleCovar eigenvalue conditioning", NCC)], ["hasGaussian, getCov, getInvCov"])
prop("C15", "Transforming a cell transforms its Gaussian rigidly",
 "Transforming a Gaussian cell maps its mean by the rigid transform and its covariance by the rotation on both sides, keeps the inverse consistent and keeps point count, occupancy and Gaussian flag; a cell without a Gaussian is left as it is.",
 ALL, "all rigid transforms and Gaussians within the bound", "No baseline test touches the cell.", [NC, NCC], [("NDTCell::transform", NCC)], ["transform, getMean, getCov, getInvCov"])
prop("C16", "A ray through a cell lowers or raises occupancy only as specified",
 "Updating a cell with a ray never touches the parameters of its Gaussian, changes occupancy by the configured amounts depending on how likely the ray's most likely point is and whether it is the ray's end, drops the Gaussian exactly when the occupancy is used up, and is defined for every ray, including rays of length zero and rays through the mean.",
 ALL, "all rays and Gaussians within the bound", "No baseline test touches the cell.", [NC, NCC], [("updateOccupancy(start,end), calcMaxLikelihoodOnLine", NCC)], ["updateOccupancy, getOccupancy"])
prop("C17", "Serialising a cell reports its state",
 "The message built from a cell carries its mean, covariance, raw occupancy and number of points exactly, for every state of the cell.",
 ALL, "all cell states within the bound", "No baseline test touches the cell.", [NC, NCC], [("NDTCell::serialize/toString", NCC)], ["serialize"])
prop("C18", "Pose and rigid transform convert back and forth without loss",
 "Converting a pose (x, y, heading) to a rigid transform and back returns the same position and the same heading up to full turns, the transform's matrix is the homogeneous matrix of the pose, and applying it to a point rotates then translates it.",
 ALL, "all poses within the bound, float and double", "The tests convert a few poses.", [ET], [("vecToTrans, transToVec conversions", ET)], ["eigt::getTransFromPose, getPoseFromTransform, getAngle, getDisplacement"])
prop("C19", "Frame changes are inverse to each other and compose",
 "The relative transform between two poses applied to the first gives the second; changing frame back and forth is the identity; composing transforms composes poses; resulting headings are normalised.",
 ALL, "all pairs of poses within the bound", "The tests use fixed poses.", [ET], [("transBtwPoses, transBtwFrames, transformPose", ET)], ["eigt:: frame functions"])
prop("C20", "Angle normalisation keeps the direction and lands in range",
 "Normalising an angle returns a value in [-pi, pi] that differs from the input by a whole number of turns, leaves values already in range unchanged, is idempotent, and angle differences are the shortest signed difference.",
 ALL, "all angles within the bound", "Fixed angles only.", [ET], [("normalizeAngle, angleDiffence", ET)], ["eigt::normalizeAngle, angleDiff"])
prop("C21", "Planar and 3D transform conversions agree",
 "Embedding a planar transform into 3D and projecting back returns the same transform, the embedded transform moves planar points exactly as the planar one and leaves height unchanged, for every mix of scalar types.",
 ALL, "all planar transforms within the bound", "One fixed case.", [ET], [("convertFromTransform, convertToTransform", ET)], ["eigt::convertFromTransform, convertToTransform"])
prop("C22", "The SE2 edge error is the measurement residual in the right frame",
 "The error of a pose-graph edge is the difference between the measured and the predicted relative pose expressed in the measurement's frame, with its angle normalised, and is zero exactly when the predicted relative pose equals the measurement.",
 ALL, "all poses and measurements within the bound", "The tests evaluate one edge.", [SP], [("Slam2d_Policy::calcError", SP)], ["Slam2d_Policy::calcError, Edge error"])
prop("C23", "SE2 edge Jacobians are the derivatives of the edge error",
 "The Jacobian blocks of an edge are the exact partial derivatives of its error with respect to the two poses at every linearisation point.",
 ALL, "all poses and measurements within the bound", "The tests compare one linearisation point.", [SP], [("Slam2d_Policy Jacobian blocks", SP)], ["calcJacobianBlocks"])
prop("C24", "Adding a pose increment keeps poses valid",
 "Applying an increment to a pose adds the positions and the headings and normalises the heading, and so does updating a node's pose.",
 ALL, "all poses and increments within the bound", "One fixed case.", [SP, PG], [("addPoses", SP)], ["Slam2d_Policy::addPoses, Node::addToPose"])
SWS = S + "slam_optimizer/switchable_constraints/"; MMS = S + "slam_optimizer/max_mixture/"
prop("C25", "A switch variable always stays within [0,1]",
 "Whatever increments the optimiser applies, the switch vertex's estimate stays in [0,1] and equals the clamped running value; setting, saving, restoring and reading it back preserve it.",
 HIST, "all increment sequences within the bound, infinities excluded", "No baseline test touches it.", [SWS + "vertex_switchLinear.cpp"], [("VertexSwitchLinear::oplusImpl clamp", SWS + "vertex_switchLinear.cpp")], ["VertexSwitchLinear"])
prop("C26", "A switchable edge's error is the SE2 error weighted by its switch",
 "The switchable edge's error is the ordinary SE2 residual scaled by the switch value, and its Jacobians with respect to both poses and the switch are its exact derivatives.",
 ALL, "all poses, measurements and switch values within the bound", "No baseline test touches it.", [SWS + "edge_se2Switchable.cpp"], [("EdgeSE2Switchable::computeError/linearizeOplus", SWS + "edge_se2Switchable.cpp")], ["EdgeSE2Switchable"])
prop("C27", "The switch prior pulls towards its measurement",
 "The prior's error is measurement minus estimate with constant derivative -1, and setting a measurement stores it together with its inverse use in the optimiser.",
 ALL, "all values within the bound", "No baseline test touches it.", [SWS + "edge_switchPrior.cpp"], [("EdgeSwitchPrior::computeError/linearizeOplus", SWS + "edge_switchPrior.cpp")], ["EdgeSwitchPrior"])
prop("C28", "A mixture edge uses its most likely component",
 "Evaluating a max-mixture edge selects the component with the largest weighted likelihood, and its error and information are those of the selected component for the current poses.",
 ALL, "all component weights, informations and poses within the bound", "No baseline test touches it.", [MMS + "edge_se2_mixture.cpp", MMS + "edge_se2_pointxy_mixture.cpp"], [("computeBestEdge / getNegLogProb", MMS + "edge_se2_mixture.cpp")], ["EdgeSE2Mixture, EdgeSE2PointXYMixture"])
prop("C29", "Robust edges survive writing and reading back",
 "Writing a switch vertex, switchable, prior or mixture edge to a stream and reading it back gives an object with the same measurement, information, weights and components.",
 ALL, "all values within the bound", "No baseline test touches it.", [MMS + "edge_se2_mixture.cpp", SWS + "edge_se2Switchable.cpp"], [("read/write", MMS + "edge_se2_mixture.cpp")], ["read, write"])
prop("C30", "Covariance inversion returns a proper inverse or refuses",
 "Inverting a covariance succeeds exactly when it can be made positive definite by flooring its small eigenvalues, and then returns the inverse of the adjusted matrix, which is returned as well; a rejected matrix leaves the outputs' meaning to the caller.",
 ALL, "all symmetric 3x3 matrices within the bound", "Not tested.", [I + "utils/covariance_inverse.h"], [("covarInverse eigenvalue floor", I + "utils/covariance_inverse.h")], ["covarInverse"])
prop("C31", "Concatenating uncertain poses propagates covariance exactly",
 "Concatenating a covariance with a relative transform and its covariance gives the first-order propagated covariance, stays symmetric, and is neutral for zero covariances and the identity transform.",
 ALL, "all covariances and transforms within the bound", "Not tested.", [I + "utils/covariance_wrapper.h"], [("CovarianceWrapper::addToCovar", I + "utils/covariance_wrapper.h")], ["CovarianceWrapper"])
prop("C32", "Splitting a string loses nothing and always terminates",
 "Splitting a text by a separator terminates for every text and separator, gives the pieces that joined by the separator reproduce the text, and no piece contains the separator.",
 ALL, "all texts and separators within the bound", "Not tested.", [I + "utils/string_tools.h"], [("split", I + "utils/string_tools.h")], ["split"])
RT = I + "registration/ndt_reg_tools.h"
prop("C33", "The line search step follows More-Thuente's rules",
 "Each trial step of the line search is the minimiser of the interpolating cubic or parabola that the published rules choose, on either side of the interval's lower end, lies strictly between the two points when they bracket a minimum, and is cut back towards the interval's other end in the third case; updating the interval keeps the lowest value met at its lower end, keeps a descent direction into the interval, shrinks it, and reports convergence exactly when the slope vanishes; the auxiliary function and its derivative are as defined.",
 ALL, "all function and derivative values within the bound", "Not tested.", [RT], [("trialValueSelectionMT, updateIntervalMT, auxilaryFunction_PsiMT", RT)], ["trialValueSelectionMT, updateIntervalMT, auxilaryFunction_PsiMT, auxilaryFunction_dPsiMT"])
prop("C34", "Score, gradient and Hessian accumulate component-wise",
 "Registration scores start from zero, adding them adds value, gradient and Hessian entry by entry and leaves the operands alone, clearing derivatives clears every block, and the fitted parameters make the Gaussian approximation agree with the negative log-likelihood of the outlier mixture at the mean, at one standard deviation and far away.",
 ALL, "all values within the bound", "Not tested.", [RT], [("ScoreAndDerivatives, FittingParams, JacobianHessianDerivatives", RT)], ["ScoreAndDerivatives, FittingParams, JacobianHessianDerivatives"])
prop("C35", "Registration poses and matrices convert without loss",
 "Converting a registration pose (x, y, heading) to a 4x4 matrix gives the homogeneous matrix that rotates about the vertical axis and then translates in the plane, converting back returns the pose with its heading wrapped to (-pi, pi], products of matrices compose poses, and double and single precision agree.",
 ALL, "all poses within the bound, float and double", "Not tested.", [RT], [("vecToMat, matToVec", RT)], ["vecToMat, matToVec"])

NG = I + "ndt/ndt_grid2d.h"
prop("C36", "A map built from scans holds every point in the right cell",
 "Initialising a map from a scan, or merging a scan or another map taken from another pose, puts every point, moved into the frame of the map, exactly once into the Gaussian cell it belongs to; content merged earlier is kept, cells too sparse for a Gaussian are left out, a map that may not grow drops only what lies outside, and the cloud of means lists exactly the Gaussian cells.",
 HIST, "all positions of the points of the scans and of the relative pose within the bound", "Not tested.", [NG], [("NDTGrid2D::initialize, mergeIn, mergeInTraced, createGrid", NG)], ["NDTGrid2D::initialize, initializeSimple, mergeIn, mergeInTraced, getGaussianCells, getMeans"])
