# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both).
PROPS = []
def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, state=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, state=state, observe=observe, na=na))

prop('P01', 'Consensus result is the best hypothesis of its own run',
 'A sample-consensus run (single or multi-camera) reports success exactly when it found at least one hypothesis in that run; the reported model is then the '
 'hypothesis with the most correspondences strictly within the threshold (the earliest one on ties), the reported sample is the one that produced it, and '
 'the reported inliers are exactly the correspondences strictly within the threshold of that model, in order. Running the same object again, with whatever happened before, gives '
 'a result that depends on the new run only.',
 ['inputs', 'histories', 'fault_sequences'],
 'For every pool of correspondences, every sequence of sampler and generator answers (no sample, failed hypothesis, hypothesis with any set of inliers, scores exactly on the threshold or not a number), every parameter setting, and one or two consecutive runs.',
 'The tests run the loop on a single random scene whose answers are always benign; failures, ties, thresholds that are hit exactly and reuse of the object never occur.',
 ['include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp', 'include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'],
 [('best hypothesis selection and final inlier extraction', 'Ransac<PROBLEM_T>::computeModel, MultiRansac<PROBLEM_T>::computeModel'), ('inlier selection and counting', 'SampleConsensusProblem::selectWithinDistance, countWithinDistance and the multi versions')],
 'stateless exploration of the real loop under a scripted environment (all answer sequences up to a depth), compared with a reference automaton',
 'All answer sequences up to the depth that fits the budget for every configuration; the environment after that depth is constant (four variants).',
 state=[('inliers_, model_, model_coefficients_', 'result of the last run', 'SampleConsensus / MultiSampleConsensus')])
prop('P02', 'Consensus loop stops when it should, and always stops',
 'A sample-consensus run (single or multi-camera) evaluates no more hypotheses than the maximum number of iterations, tolerates at most ten times as many failed ones, and '
 'ends at once when no sample can be drawn. Otherwise it ends exactly when the number of evaluated hypotheses reaches the number that gives the requested confidence '
 'for the best inlier ratio so far, log(1-p)/log(1-w^s) with s the (total) sample size, and it reports the number of evaluated hypotheses.',
 ['inputs', 'histories', 'fault_sequences'],
 'For every sequence of sampler and generator answers, every maximum, confidence, sample size and inlier ratio within the bound, and one or two consecutive runs.',
 'Termination and the adaptive number of iterations depend on the whole history of hypotheses, failures included; the tests see a few histories and never check the count.',
 ['include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp'],
 [('adaptive stopping rule', 'Ransac<PROBLEM_T>::computeModel, MultiRansac<PROBLEM_T>::computeModel')],
 'stateless exploration of the real loop under a scripted environment (all answer sequences up to a depth), compared with a reference automaton',
 'As P01; a required number of iterations within 1e-7 of an integer is not judged (rounding).',
 state=[('iterations_', 'number of evaluated hypotheses', 'SampleConsensus::iterations_')])
prop('P03', 'Least-median result is the least-median hypothesis',
 'A least-median-of-squares run returns the hypothesis whose median squared distance over all correspondences is smallest (the earliest on ties, mean of the two middle '
 'values for an even number, negative distances counted as zero), together with its sample and the correspondences whose distance does not exceed the threshold; it fails exactly when no hypothesis could be '
 'scored or no threshold was set. It scores no more hypotheses than the maximum, tolerates at most ten times as many failures, and always ends.',
 ['inputs', 'histories', 'fault_sequences'],
 'For every sequence of sampler, generator and score answers over a small alphabet of distances, pools of 1 to 5 correspondences, and one or two consecutive runs.',
 'The tests contain no check of the least-median loop beyond one random scene; order statistics, ties and failing hypotheses need many histories.',
 ['include/opengv/sac/implementation/Lmeds.hpp'],
 [('median penalty and selection', 'Lmeds<PROBLEM_T>::computeModel')],
 'stateless exploration of the real loop under a scripted environment (all answer sequences up to a depth), compared with a reference automaton',
 'Pools of up to five correspondences, scores from a two or four letter alphabet.')
prop('P04', 'Random samples are valid, unbiased and bounded in effort',
 'A drawn sample has exactly the requested size for every camera, consists of distinct indices of the current pool, and, given a uniform random source, every ordered sample is '
 'equally likely whatever was drawn before. Candidates that fail the quality test are redrawn, at most the stated number of times; the returned sample is the one that passed; when '
 'the pool is too small, drawing reports so and stops the consensus loop. Drawing never changes the pool, and objects built without a random seed draw identical sequences.',
 ['inputs', 'histories'],
 'For every answer of the random source up to equivalence, every pool and sample size within the bound, every position of the first acceptable candidate, and every sequence of pool changes and draws up to the stated length.',
 'Uniformity and absence of duplicates are statements about all outcomes of the random source; a test sees a handful of draws.',
 ['include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'],
 [('partial Fisher-Yates shuffle', 'drawIndexSample'), ('retry and insufficient pool', 'getSamples'), ('pool', 'setIndices, setUniformIndices, getIndices')],
 'exhaustive enumeration of the answers of the random source (harness-owned generator), exact counting of outcomes; explicit-state operation sequences',
 'Exact probabilities for pools of up to 7 (quick) or 8 (thorough) indices; validity also for larger ones.',
 state=[('shuffled_indices_, indices_', 'permutation and pool', 'SampleConsensusProblem, MultiSampleConsensusProblem')])
prop('P05', 'Multi-camera sampling spreads the sample fairly over cameras',
 'For every multi-camera problem, the numbers of samples allotted to the cameras add up exactly to the sample size of the algorithm, differ by at most one between cameras that '
 'have room, and never depend on anything but the sample size, the number of cameras and the random start. The allotment is made afresh for every '
 'draw, stays valid for every value the random source can return, and the drawn sample has exactly those numbers.',
 ['inputs', 'configurations'],
 'For every problem and algorithm, 1 to 8 (quick) or more cameras, and every answer class of the random source including its extremes.',
 'Which camera starts is random and the extreme values of the source never occur in a test; the sums are never checked.',
 ['src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp'],
 [('allotment of the sample', 'getSampleSizes')],
 'exhaustive enumeration of problems, camera counts and answers of an interposed random source on the real problems',
 'The start camera is drawn from rand(), which the harness supplies; values are the extremes and representatives of every residue and fraction class.')
prop('P06', 'Multi-camera adapters keep frames and indices apart',
 'For every multi-camera adapter, the (camera, index) pairs and the serialised indices 0..n-1 correspond one to one, frame by frame and in order, empty cameras included, and converting '
 'a list of per-camera index lists yields exactly the serialised indices of those pairs in the same order. Reading a correspondence or its camera parameters through the serialised index or through the pair '
 'gives the data that was handed in, and per-camera and total counts are right.',
 ['inputs', 'configurations'],
 'For every number of cameras and correspondences per camera within the bound (zero included), every pair, and every small index list with repetitions.',
 'The tests use a fixed number of equally filled cameras; empty or unequal ones and list conversion are never compared with anything.',
 ['src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/relative_pose/CentralRelativeMultiAdapter.cpp', 'src/relative_pose/NoncentralRelativeMultiAdapter.cpp', 'src/relative_pose/MANoncentralRelativeMulti.cpp', 'include/opengv/relative_pose/RelativeMultiAdapterBase.hpp', 'include/opengv/absolute_pose/AbsoluteMultiAdapterBase.hpp'],
 [('serialisation of multi indices', 'convertMultiIndex, convertMultiIndices, multiFrameIndex, multiPairIndex, multiCorrespondenceIndex')],
 'exhaustive enumeration of adapter shapes and index lists on the real adapters (ASan/UBSan build) against a reference serialisation',
 'All shapes of up to 5 (quick) or 6 (thorough) cameras within a bound on correspondences per camera, and regular patterns of up to 20 cameras.',
 state=[('multiFrameIndices_/multiPairIndices_, multiKeypointIndices_, singleIndexOffsets_', 'index tables', 'the multi adapters')])
prop('P07', 'Adapters give back what was put in, and priors are independent',
 'Every adapter (central, non-central, weighted, point-cloud, and the Matlab array versions) returns exactly the bearing vectors, points, camera offsets, camera rotations, weights and number of '
 'correspondences it was given, at every index, whatever the constructor. The pose priors start at the values given to the constructor (identity and zero otherwise), '
 'each setter changes its own value only, and no read changes anything.',
 ['inputs', 'histories', 'configurations'],
 'For every adapter type and constructor, sizes from 0 to 40 with arbitrary camera assignment, and every sequence of prior-setting operations up to the stated length.',
 'No test reads data back from an adapter; a wrong index or a shared prior only shows up as a poor pose.',
 ['src/absolute_pose/CentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteAdapter.cpp', 'src/relative_pose/CentralRelativeAdapter.cpp', 'src/relative_pose/CentralRelativeWeightingAdapter.cpp', 'src/relative_pose/NoncentralRelativeAdapter.cpp', 'src/relative_pose/MANoncentralRelative.cpp', 'src/point_cloud/PointCloudAdapter.cpp', 'src/point_cloud/MAPointCloud.cpp'],
 [('accessors', 'the getters of all adapters'), ('priors', 'sett/setR, sett12/setR12 of the adapter base classes')],
 'explicit-state exploration of operation sequences on the real adapters (ASan/UBSan build) against a reference record of what was put in',
 'Sequences of up to 3 (quick) or 4 (thorough) setter operations from six, with a full read after each.')
prop('P09', 'Scores are the documented reprojection distances',
 'For every sample-consensus problem, the score of a correspondence under a model is 1 minus the cosine between the measured and the reprojected bearing vector (for relative '
 'problems the sum over both views of the triangulated point; for rotation only and point clouds the documented distance), computed in the frame of the camera that made the measurement. '
 'A list of indices is scored in its own order and only for those indices, inlier selection and counting agree with the scores and the strict threshold, and scoring leaves the data unchanged.',
 ['inputs', 'configurations'],
 'For every problem class and algorithm, every model of a finite family (exact, perturbed, mirrored and far off), every camera rig, and every small index list including permutations and repetitions.',
 'Tests only look at the inliers of one run; a score in the wrong frame or for the wrong index is hidden by the consensus.',
 ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/RotationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/EigensolverSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp'],
 [('scores', 'getSelectedDistancesToModel'), ('selection', 'selectWithinDistance, countWithinDistance')],
 'exhaustive enumeration of a finite grid of scenes, models and index lists on the real problems against independently written scores',
 'Finite family of scenes; scores within 1e-9 of a threshold are not judged.')
prop('P10', 'A sample of exact correspondences yields the true model',
 'For every sample-consensus problem and algorithm, a sample of exact, non-degenerate correspondences gives a hypothesis equal to the true model (up to the scale that is not '
 'observable), for central, non-central and multi-camera rigs and for non-central problems treated as central. The hypothesis depends only on the sampled correspondences and is chosen by '
 'consistency with the whole sample, a degenerate or failed one is reported as such, and a success always comes with a filled-in model.',
 ['inputs', 'configurations'],
 'For every scene of a finite family (rotations, translations, point arrangements, rigs, numbers of cameras) and several ordered samples of each.',
 'The tests run whole consensus loops in which other samples make up for a wrong disambiguation or frame conversion.',
 ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/RotationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/EigensolverSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp'],
 [('hypotheses', 'computeModelCoefficients')],
 'exhaustive enumeration of a finite grid of exact scenes and ordered samples on the real problems against the true model',
 'Exact data; where a solver has several solutions or known numerical limits only the cases that the sample determines are judged.')
prop('P11', 'Consensus recovers the truth despite outliers',
 'On exact data with any subset of gross outliers that leaves a clear majority, a consensus run (Ransac, Lmeds, MultiRansac) with every problem and algorithm succeeds, its '
 'inliers are exactly the true inliers in order, and its model is the true one. Refining the model on those inliers reaches the true model too.',
 ['inputs', 'configurations'],
 'For every scene of a finite family, every problem and algorithm, and every subset of outliers up to the stated size (thinned evenly where there are too many).',
 'A test has one random set of outliers and prints the result; which correspondences are outliers, their positions and the problem variants are never varied or judged.',
 ['include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/Lmeds.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp', 'src/sac_problems'],
 [('consensus loop with real problems', 'Ransac, Lmeds, MultiRansac computeModel'), ('refinement', 'optimizeModelCoefficients')],
 'exhaustive enumeration of outlier subsets (fault patterns) over a grid of exact scenes, complete real runs against the truth',
 'Up to 4 of 10 (or 3 of 12, 2 of 22) outliers; confidence 1-1e-9; sampling from the fixed seed of the problems.')
AP = ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules/main.cpp']
RP = ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp']
GRIDT = 'exhaustive enumeration of a finite grid of scenes on the real solvers against the true pose'
prop('P12', 'Minimal absolute-pose solvers contain the true pose',
 'From exact, non-degenerate correspondences, the two-point solver (known orientation) gives the true position and the three-point solvers of Kneip and Gao return at most four candidates, '
 'all of them proper poses, with the true camera pose among them. The generalised three-point solver returns the true viewpoint pose among its candidates for rigs of several cameras, '
 'except for a bounded share of poses where its elimination is ill-conditioned.',
 ['inputs', 'configurations'],
 'For every pose of a grid of 232 rotations and 27 translations, several point sets and arrangements (around, in front, planar), camera rigs and index triples.',
 'The tests print the result of one random scene; which branch, frame or quadrant of the closed form is wrong depends on the pose.',
 AP + ['src/absolute_pose/modules/gp3p'], [('solvers', 'p2p, p3p_kneip, p3p_gao, gp3p')], GRIDT,
 'Configurations close to a critical one (by the conditioning of the exact problem) are not judged; gp3p may miss up to 30 % of the poses of one block (11 % observed).')
prop('P13', 'N-point absolute-pose solvers recover the pose',
 'From six or more exact correspondences EPnP recovers the camera pose, and from six (GPnP) or five (UPnP, coplanar points included) the viewpoint pose of one or several cameras is recovered, whatever subset of a larger scene is selected and whatever the '
 'unselected data are. Small disturbances of the bearing vectors change the pose by a small amount only.',
 ['inputs', 'configurations'],
 'For every pose of a grid of 232 rotations and 27 translations, numbers of points from 3 to 33, six camera rigs, several point sets, and null spaces of every dimension up to five in GPnP.',
 'The tests print the result of one random scene, never look at a subset with different data elsewhere, and contain no bound on the error.',
 AP + ['src/absolute_pose/modules/Epnp.cpp', 'src/absolute_pose/modules/upnp2.cpp', 'src/absolute_pose/modules/upnp4.cpp', 'src/absolute_pose/modules/gpnp5'],
 [('solvers', 'epnp, gpnp, upnp')], GRIDT,
 'UPnP with three or four points (another solver) is judged by its share of correct poses, as is EPnP on coplanar points; disturbances of 1e-4 and 2e-3; GPnP with few disturbed points may be off in 20 % of a block.')
prop('P14', 'Central relative-pose solvers contain the true motion',
 'From exact, non-degenerate correspondences, the two-point translation, two-point and n-point rotation, five-point (Stewenius, Nister, Kneip), seven- and eight-point solvers return the true translation direction, rotation or essential matrix '
 'among at most ten candidates, for minimal and larger index lists in any order, and eigenvalue minimisation started nearby reaches the true rotation. Candidates of Nister satisfy all epipolar constraints.',
 ['inputs', 'configurations'],
 'For every pose of a grid of 232 rotations and 26 translation directions, several point sets and arrangements (around, in front, planar) and index lists.',
 'The tests print the result of one random scene; the solvers have pose-dependent numerical branches and candidate selections.',
 RP + ['src/relative_pose/modules/fivept_nister/modules.cpp', 'src/relative_pose/modules/fivept_stewenius/modules.cpp', 'src/relative_pose/modules/fivept_kneip', 'src/relative_pose/modules/eigensolver/modules.cpp'],
 [('solvers', 'twopt, twopt_rotationOnly, rotationOnly, fivept_stewenius, fivept_nister, fivept_kneip, sevenpt, eightpt, eigensolver')], GRIDT,
 'Configurations close to a critical one are not judged; bounded shares of a block may fail for fivept_nister (10 %), fivept_kneip (85 %, its elimination is ill-conditioned), eigensolver (50 %, local minima) and fivept_stewenius at rotations about coordinate axes (30 %).')
prop('P15', 'Generalised relative-pose solvers recover motion and scale',
 'From exact correspondences between multi-camera rigs, the seventeen-point solver recovers rotation and translation including scale for 17 or more correspondences, within one camera or across cameras. '
 'The six-point solver and the generalised eigensolver find the true motion in at least a fixed share of scenes.',
 ['inputs', 'configurations'],
 'For every pose of a grid of rotations and translations, rigs with two cameras, three, four and one per correspondence, and correspondences within and across cameras.',
 'The tests print the result of one random scene; metric scale and cross-camera frames are never judged.',
 RP + ['src/relative_pose/modules/sixpt', 'src/relative_pose/modules/ge/modules.cpp'], [('solvers', 'seventeenpt, sixpt, ge')], GRIDT,
 'sixpt (15 % must be right, 35 % observed) and ge (30 %, 37 % observed) have known local minima and ill-conditioned eliminations, so only the share is judged; seventeenpt is strict for generic rotations.')
prop('P16', 'Point-cloud alignment is the best rigid motion',
 'Rigid alignment of two point clouds returns a proper rotation and the translation that together minimise the sum of squared distances over the selected correspondences, for three points or more, planar '
 'clouds and disturbed data included, and exactly the true motion for exact data. For any 3x3 cross-covariance matrix the returned rotation is a proper rotation reaching the maximal trace.',
 ['inputs'],
 'For every integer cross-covariance matrix within a bound, and clouds of 3 to 20 points under a grid of motions with several index lists.',
 'A test aligns one random cloud; reflections, planar and rank-deficient data need particular matrices.',
 ['src/math/arun.cpp', 'src/point_cloud/methods.cpp'], [('alignment', 'math::arun, math::arun_complete, point_cloud::threept_arun')],
 'exhaustive enumeration of integer matrices and of a finite grid of clouds on the real code against an independent optimum',
 'Cross-covariance entries in a small integer range; the optimum is computed in extended precision by a different method.')
prop('P17', 'Triangulation returns the common point of two rays',
 'For every pair of camera poses with non-parallel rays, both triangulation methods return the point where the rays meet, in the frame of the first camera; for rays that do not meet, the second one returns the midpoint of '
 'the shortest connection. The orientation of the cameras and of the rays, including rays at right angles to the optical axis, does not matter.',
 ['inputs'],
 'For every pose of a grid of rotations and translations and every point of a lattice around the cameras.',
 'Tests use points in front of both cameras only.',
 ['src/triangulation/methods.cpp'], [('triangulation', 'triangulation::triangulate, triangulation::triangulate2')],
 'exhaustive enumeration of a finite grid of poses and points on the real code against the exact geometry',
 'Rays closer than a stated angle to parallel are not judged.')
prop('P18', 'Polynomial root finders return exactly the real roots',
 'Closed-form cubic and quartic solvers return the real parts of all roots with multiplicity. The Sturm solver returns every distinct real root once and nothing else, its bound contains all roots, '
 'its chain counts the roots of every interval, each bracket holds one root, and both its root finders end for every polynomial and agree.',
 ['inputs'],
 'For every polynomial with small integer coefficients up to degree 5 or more, products of small integer roots with complex pairs up to degree 10, trinomials up to degree 20, and scaled versions.',
 'No test calls these functions directly; the special polynomials (multiple roots, missing terms, roots on a bound) never occur in random scenes.',
 ['src/math/roots.cpp', 'src/math/Sturm.cpp'], [('closed forms', 'o3_roots, o4_roots'), ('Sturm sequences', 'Sturm::findRoots, findRoots2, bracketRoots, evaluateChain, evaluateChain2, computeLagrangianBound')],
 'exhaustive enumeration of polynomials with integer coefficients or integer roots on the real code against exact root counting',
 'Coefficients and roots from small integer ranges; polynomials with roots too close for double precision are not judged for the closed forms.')
prop('P19', 'Rotation parametrisations are inverse to each other',
 'Converting a rotation to a unit quaternion or to Cayley parameters and back gives the same rotation, whatever its axis and angle (Cayley: except half turns), and converting parameters to a rotation and back gives the same '
 'parameters (quaternions up to sign). The reduced Cayley form is the rotation times one plus the squared norm.',
 ['inputs'],
 'For every integer quaternion within a bound (rotations about coordinate axes and half turns included) and angles from 1e-12 up to a half turn about a family of axes.',
 'Special rotations (identity, half turns, zero components) have their own branches that random scenes never reach.',
 ['src/math/quaternion.cpp', 'src/math/cayley.cpp'], [('conversions', 'rot2quaternion, quaternion2rot, rot2cayley, cayley2rot, cayley2rot_reduced')],
 'exhaustive enumeration of integer quaternions and of a family of axes and angles on the real code against exact conversion',
 'Integer components within a bound; tolerance 1e-6 for rotations to quaternions near special angles.')
prop('P20', 'Gauss-Jordan elimination reduces exactly the leading block',
 'Elimination with row exchange turns every matrix with a regular leading block into its reduced form: identity in the pivot columns down to the requested row, the remaining columns equal to the solution of the linear system, '
 'no row lost or duplicated, and every row within the row space of the input.',
 ['inputs'],
 'For every matrix of small size with entries from a small integer range and every exit row, and structured matrices of larger size.',
 'It is only ever called with one pattern from inside a solver; row exchange and early exit positions are not exercised.',
 ['src/math/gauss_jordan.cpp'], [('elimination', 'math::gauss_jordan')],
 'exhaustive enumeration of integer matrices on the real code against extended-precision elimination',
 'Matrices whose leading block is singular are outside the property.')
prop('P21', 'Operations on different objects can run in parallel',
 'Two operations that run at the same time in different threads, on different objects or both only reading the same adapter, return exactly what each of them returns when it runs alone. No operation of the library '
 'shares hidden mutable state with another one, and none writes to memory the other one uses.',
 ['schedules', 'inputs'],
 'For every pair of operations of the library (solvers, refinements, triangulation, alignment, root finders, hypothesis generation, consensus runs) with separate or shared read-only data, and every point at which one of them is interrupted by the other.',
 'Multi-camera systems run these solvers from several threads; the tests are single-threaded, and a race shows itself only under particular interleavings.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/math/Sturm.cpp', 'src/math/gauss_jordan.cpp', 'src/math/arun.cpp', 'src/math/roots.cpp'],
 [('independence of concurrent calls', 'all functions of absolute_pose, relative_pose, point_cloud, triangulation, math and sac, which keep their state in local variables')],
 'stateless exploration of thread interleavings of the real code: a scheduler owned by the harness preempts at instrumented basic-block edges (all schedules with one preemption, thinned with two), plus free runs under ThreadSanitizer',
 'Scheduling points are the first occurrence(s) of every basic-block edge of the library in a call; two threads; rand() is replaced by a per-thread generator.')
prop('P22', 'Results do not depend on what was called before',
 'Every operation of the library returns, for the same input, the same result whatever was called before it in the same process, on the same or other data. It does not change the correspondences and weights of its adapter, '
 'and operations other than the consensus problems and the relative-pose and point-cloud refinements do not change its priors either.',
 ['histories', 'inputs'],
 'For every ordered pair of operations and a family of ordered triples, over several data sets with different poses and numbers of correspondences.',
 'A test calls each method once per process on one data set; a stale cache or static workspace only shows itself in particular sequences of calls.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/math/Sturm.cpp'],
 [('functions of their input only', 'all functions of absolute_pose, relative_pose, point_cloud, triangulation, math and sac')],
 'explicit exploration of all sequences of operations up to a depth on the real code, against the result of the same operation in a fresh process',
 'Depth two for all operations, three for the cheap ones; about seventy operations on two to four data sets.')
prop('P08', 'Results depend only on the selected correspondences',
 'Every pose solver, refinement, alignment and triangulation gives for a list of indices exactly the result it gives for an adapter that holds only those correspondences, in that order, whatever the other correspondences are (not '
 'even finite). The overload without a list means all correspondences, explicit indices mean the list of them, minimal solvers use the first ones of a longer list, and solvers for many correspondences do not depend on their order. '
 'It makes no difference through which adapter class (central, non-central, multi-camera, weighted, array-based, user-defined) the same data are passed.',
 ['inputs', 'configurations'],
 'For every solver with every overload, every ordered selection of a pool for the minimal solvers, families of sub-lists of every size, direction and stride for the others, all adapter classes, and disturbed data.',
 'Tests pass all correspondences of one adapter class; an index applied to the wrong array, or a loop that reads the i-th instead of the selected correspondence, stays invisible there.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'include/opengv/Indices.hpp'],
 [('selection', 'Indices, every method with indices or index0/index1/index2 arguments'), ('abstraction from the data', 'AbsoluteAdapterBase, RelativeAdapterBase, PointCloudAdapterBase and their subclasses')],
 'exhaustive enumeration of selections, overloads and adapter classes on the real code, compared with the run on the selected data alone',
 'Pools of 6 to 8 correspondences for complete ordered selections; strided windows of all sizes otherwise; independence of the order within 1e-4 and, for the iterative solvers, in most cases only.')
prop('P23', 'Weights act like repetition of correspondences',
 'The weighted eigenvalue solvers (central and generalised) ignore a correspondence of weight zero (except that the first one fixes the sign of the translation), treat double weight like a repeated correspondence, do not depend on the common scale of '
 'the weights, equal the unweighted solver for uniform weights, and use the weights of the selected correspondences only.',
 ['inputs', 'configurations'],
 'For every subset of up to two (quick) or three (thorough) correspondences with changed weights, several scales, and a family of disturbed scenes.',
 'No test uses weights at all.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/CentralRelativeWeightingAdapter.cpp'],
 [('weighted summation terms', 'relative_pose::eigensolver and relative_pose::ge with useWeights')],
 'exhaustive enumeration of weight assignments on the real code, compared with runs on repeated or removed correspondences',
 'The generalised solver converges loosely: it is judged within half the disturbance and in at least half of the cases.')
prop('P24', 'Non-linear refinement never worsens a pose and reaches the truth',
 'From every starting pose, optimize_nonlinear (absolute, relative, point clouds; all correspondences or a list of them) returns a proper pose whose sum of squared errors over the selected correspondences is not larger than at the start. '
 'From starts near the true pose on exact data it ends at the true pose (up to the scale of a central relative pose). The start is the prior in the adapter.',
 ['inputs', 'configurations'],
 'For every pose of the lattice (rotations of the cube and neighbours, translations), camera rig, index list and starting pose of the two families (27 disturbances of the truth, far poses).',
 'The one test per problem starts from one disturbed pose and asserts nothing about the result.',
 ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp'],
 [('functor and packing of the pose', 'optimize_nonlinear')],
 'exhaustive enumeration of scenes and starts on the real code, costs recomputed independently of the library',
 'Flat valleys (scale of central relative poses, small rigs): the arrival is judged per scene over all nearby starts (at most 40% may end elsewhere).')
prop('P25', 'The Matlab interface returns what the C++ library returns',
 'For every method name of the Matlab function and every legal form of call (both data sets with or without prior, with or without a list of indices, 3-, 4- and 6-row data) the outputs hold exactly what the same C++ operation returns on the same data: '
 'poses as 3x4 blocks, 1-based indices, all candidates in order, inliers and iteration counts. Malformed calls (unknown name, wrong sizes or number of arguments) are refused with a message and touch nothing.',
 ['inputs', 'configurations'],
 'For every method, form of call, index list, prior and number of outputs, over the data of several scenes.',
 'The Matlab interface has no tests at all, and is not even built by the test suite.',
 ['matlab/opengv.cpp', 'matlab/opengv_donotuse.cpp', 'matlab/opengv_experimental1.cpp', 'matlab/opengv_experimental2.cpp'],
 [('marshalling', 'mexFunction')],
 'exhaustive enumeration of forms of calls of the real mexFunction through a stand-in for the Matlab API, compared with direct calls of the library',
 'Consensus runs are compared under the same random numbers; runs that find no model are not judged.')
prop('P26', 'The Python interface returns what the C++ library returns',
 'Every exported function of the Python module returns, for every array layout and parameter, exactly what the corresponding C++ operation returns on the same data: candidate lists in order, poses as 3x4 row-major arrays, points and indices by row; '
 'consensus functions use the given threshold, iteration limit and probability, and the algorithm named.',
 ['inputs', 'configurations'],
 'For every function, algorithm name, parameter set, number of correspondences and memory layout, over the data of several scenes.',
 'The Python tests are not part of the test suite and call each function once on one random scene.',
 ['python/pyopengv.cpp', 'python/types.hpp'],
 [('marshalling', 'pyopengv')],
 'exhaustive enumeration of calls of the real binding code through a stand-in for pybind11, compared with direct calls of the library',
 'pybind11 itself is replaced by a stand-in that stores the registered functions; runs that find no model are not judged.')
prop('P27', 'Degenerate data never break an operation',
 'Whatever the data (coincident, collinear, coplanar, opposite, vanishing, huge, tiny or non-finite points and directions), every solver, refinement, triangulation, alignment and consensus run ends without exception, abort, undefined behaviour or access '
 'outside its memory. It gives at most as many candidates as its equations have solutions, and consensus runs keep their iteration limit.',
 ['inputs'],
 'For every ordered pair of 19 arrangements of points and directions, several camera rigs and numbers of correspondences, and every operation.',
 'Tests use random data in general position only; real consensus runs sample degenerate and repeated correspondences all the time.',
 ['src/absolute_pose', 'src/relative_pose', 'src/point_cloud', 'src/triangulation', 'src/math', 'include/opengv/sac'],
 [('every operation', 'absolute_pose, relative_pose, point_cloud, triangulation, sac')],
 'exhaustive enumeration of data arrangements and operations on the real code built with address, bounds and undefined-behaviour checks',
 'Null-offset pointer arithmetic inside Eigen is not judged; the values of the results are the subject of other properties.')
prop('P28', 'An object that was used before behaves like a new one',
 'Whatever was done with a consensus problem, a consensus object (Ransac, Lmeds, MultiRansac), an EPnP object, a Sturm chain or an adapter before - other samples, pools, thresholds, failed runs, other data behind the same adapter - its next operation '
 'gives exactly what a newly built object in the same configuration gives.',
 ['histories', 'configurations'],
 'For every sequence of operations up to the depth on every kind of object, the last operation being compared with a new object at every step.',
 'The tests build every object once, use it once and throw it away; state that leaks from one use into the next never shows.',
 ['include/opengv/sac', 'src/sac_problems', 'src/absolute_pose/modules/Epnp.cpp', 'src/math/Sturm.cpp', 'src/absolute_pose', 'src/relative_pose'],
 [('reusable objects', 'SampleConsensusProblem, SampleConsensus, Epnp, Sturm, adapters')],
 'exhaustive enumeration of all operation sequences up to a depth on the real objects, each compared with a new object',
 'Priors in the adapters are set before every operation (consensus problems overwrite them, see P22); random numbers restart with every operation; a run that fails is compared in its verdict and count only.',
 state=[('shuffled index list, result members, work arrays, coefficient chain', 'what an object keeps between operations', 'SampleConsensusProblem, SampleConsensus, Epnp, Sturm')])
prop('P29', 'Minimal absolute pose solvers return every pose the data allow',
 'From three correspondences p3p_kneip, p3p_gao and gp3p return every camera pose that puts the three points on their bearing vectors in front of the cameras, not only the one a test generated: each well-conditioned solution of the equations is among '
 'the candidates, whatever camera observes what, on exact, disturbed and unrelated data. There are never more than four (p3p) or eight (gp3p) candidates.',
 ['inputs'],
 'For every scene of a grid of rotations, translations, rigs and disturbances; every real solution, found independently by Newton iterations from enumerated starts.',
 'Tests look for one known pose on a few random scenes; a lost root shows only where the true pose lies on it, or when RANSAC draws it.',
 ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules', 'src/math/roots.cpp'],
 [('candidates', 'p3p_kneip, p3p_gao, gp3p')],
 'exhaustive enumeration of scenes on the real solvers, compared with all solutions found by Newton iterations from every start of a grid',
 'p3p_gao and gp3p are numerically weak on some data: of their solutions a share may be lost per block of scenes (4 % and 35 %); p3p_kneip may lose 0.2 % (next to its own singular configurations).')
prop('P30', 'Minimal relative pose solvers return all solutions, and solutions only',
 'From five, six or seven correspondences the minimal relative solvers (fivept_stewenius, fivept_nister, fivept_kneip, sixpt, sevenpt) return every real solution of the equations their correspondences define, and what the five- and seven-point '
 'solvers return satisfies these equations: epipolar constraints, singularity and the essential-matrix conditions (complex candidates included). There are at most 10 candidates (20 for fivept_kneip, 3 for sevenpt, 64 for sixpt).',
 ['inputs'],
 'For every scene of a grid of motions, rigs, index lists and disturbances; solutions found independently by Newton iterations from enumerated starts.',
 'Tests look at the number of candidates or the best of them on a few random scenes.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/modules', 'src/math/Sturm.cpp'],
 [('candidates', 'fivept_stewenius, fivept_nister, fivept_kneip, sixpt, sevenpt')],
 'exhaustive enumeration of scenes on the real solvers, compared with all solutions found by Newton iterations from every start of a grid; candidates put back into the equations',
 'Solvers that lose solutions for numerical reasons (nister, kneip, sixpt) are judged by the share of a block of scenes.')
prop('P31', 'Estimates from many correspondences are the optimum they are defined by',
 'On disturbed data rotationOnly, threept_arun, triangulate, triangulate2, eightpt and the null spaces of sevenpt and the five-point solvers are the least-squares optimum of their defining error. The nonlinear refinements end at a point '
 'where no small motion lowers their cost, and upnp returns stationary points of its error, the best first.',
 ['inputs'],
 'For every scene of a grid of motions, rigs, disturbances, numbers and lists of correspondences.',
 'Tests use exact or hardly disturbed data, on which a wrongly weighted or half-used set of correspondences still gives the right pose.',
 ['src/relative_pose', 'src/absolute_pose', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/math/arun.cpp'],
 [('estimates', 'rotationOnly, threept_arun, triangulate, triangulate2, eightpt, optimize_nonlinear, upnp')],
 'exhaustive enumeration of disturbed scenes on the real estimators; results compared with optima computed by other methods, or probed in every direction',
 'Refinements and upnp are judged by the share of a block of scenes, since their methods do not guarantee the optimum.')
prop('P32', 'Outputs of the eigenvalue solvers belong to their rotation',
 'What eigensolver and ge return besides the rotation is what that rotation implies: eigenvalues and eigenvectors of the correspondence matrix at the returned rotation, in the documented order, and the translation along the eigenvector of the smallest one, with its '
 'length given by the data. This holds for every list of correspondences, with and without weights.',
 ['inputs'],
 'For every scene of a grid of motions, rigs, disturbances, numbers, lists and weights of correspondences and starting rotations.',
 'Tests print these outputs, and compare none of them.',
 ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/eigensolver', 'src/relative_pose/modules/ge'],
 [('eigensolver output', 'eigensolver, ge, eigensolverOutput_t, geOutput_t')],
 'exhaustive enumeration of scenes on the real solvers; every output recomputed from the returned rotation by an independent method',
 'Eigenvalues are those of the cost the library minimises (scaled by the Cayley denominator).')
prop('P33', 'Results do not depend on the frames the data are given in',
 'When the world is moved, its scale changed, the body frame rotated or moved, a viewpoint rotated or the two views exchanged, with the data changed accordingly, each solver returns the accordingly changed result, on exact and disturbed data. '
 'This holds for all candidates, also those off the true pose.',
 ['inputs'],
 'For every scene of a grid of motions and disturbances, every change of frame and every solver it applies to.',
 'Tests know the true pose and check nothing but that; on disturbed data there is no reference at all.',
 ['src/absolute_pose', 'src/relative_pose'],
 [('solvers', 'absolute_pose::*, relative_pose::*')],
 'exhaustive enumeration of scenes and changes of frame; the real solvers are run in both frames and their results compared',
 'Solvers that are numerically weak are judged by the share of a block of scenes; those whose method depends on the frame by design are left out for that change.')
prop('P34', 'Every selected correspondence counts in an estimate',
 'Each estimator for many correspondences (epnp, gpnp, upnp, five-, seven-, eight- and seventeen-point solvers, rotationOnly, eigensolver, ge, threept_arun, the refinements) uses every correspondence it was given, wherever it stands and however long the list is: '
 'moving any single bearing vector or point moves the estimate. Giving all correspondences twice or in another order leaves the estimate as it is.',
 ['inputs', 'configurations'],
 'For every estimator, lists of 10 to 257 correspondences, every place in the list (a family of places in long lists), both data of the correspondence, several scenes and rigs.',
 'On exact data an estimator that drops or repeats correspondences still gives the right pose, and tests use a single list of fixed length.',
 ['src/absolute_pose', 'src/relative_pose', 'src/point_cloud/methods.cpp'],
 [('estimators', 'epnp, gpnp, upnp, eightpt, seventeenpt, rotationOnly, eigensolver, ge, threept_arun, optimize_nonlinear')],
 'exhaustive enumeration of scenes, list lengths and moved correspondences on the real estimators',
 'Repetition and order are judged by the share of a block of scenes (not at all for gpnp, which is not stable enough for it).')

prop('P35', 'Estimates change in proportion to disturbances of the data',
 'A small disturbance of bearing vectors or points moves the estimate of every pose solver, refinement, alignment and triangulation by no more than a small multiple of the disturbance times the conditioning of the scene (how strongly the exact data determine the pose). '
 'For minimal solvers this holds for the candidate next to the true pose, for lists longer than the minimum for the estimate itself.',
 ['inputs', 'configurations'],
 'For every solver, four sizes of disturbance (1e-6 to 5e-3), minimal and longer lists (up to 100), all kinds of rigs, 192 rotations and several sets of points; scenes whose conditioning makes the disturbance a large one are left out by that number, not by the outcome.',
 'On exact data a solver that chooses a wrong branch, drops a constraint or has a coarse threshold still finds the pose; with noise tests print errors without judging them.',
 ['src/absolute_pose', 'src/relative_pose', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp'],
 [('estimators', 'all solvers, optimize_nonlinear, threept_arun, triangulate, triangulate2')],
 'exhaustive enumeration of scenes and disturbances on the real estimators; the limit comes from the Jacobian of the scene',
 'Judged by the share of a block of scenes for the methods that are numerically weak (gp3p, sixpt, ge, five-point solvers with more than five correspondences). EPnP is not judged on coplanar points, for which it is not made; refinements stop at their tolerance.')
