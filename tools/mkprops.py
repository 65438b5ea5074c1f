import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ALL=["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs","src/ray_intersection.rs","src/linearize.rs","src/lib.rs"]
cache=[("pose cache","matrices and isometries derived once from rotation and camera centre, shared read-only by every call","src/extrinsics.rs ExtrinsicsCache"),("intrinsic cache","3x4 matrix derived once from the lens parameters","src/intrinsics_perspective.rs cache_p")]
p("C01","Concurrent calls on shared cameras never influence each other",
 "Cameras, poses, lens models and ray bundles can be shared by reference between any number of threads. Under every interleaving of their calls, including calls on other cameras and the creation, cloning and destruction of cameras meanwhile, each call returns bit for bit what the same call with the same arguments returns when it is made alone in a fresh process.",
 ["schedules"],"every interleaving of calls by any number of caller threads, at the granularity of single memory accesses, over every public operation, scalar type and camera model",
 "All existing tests are single-threaded and call each operation once or twice; no test shares a camera between threads.",
 ALL,[("all operations take &self and own their temporaries; caches are filled in constructors only","src/camera.rs Camera::{world_to_pixel,pixel_to_world,as_camera_matrix}"),("no interior mutability, no statics; #![deny(unsafe_code)]","src/lib.rs"),("auto Send + Sync of Camera and its parts","src/camera.rs struct Camera")],
 ["return values of every public operation"],cache)
p("C02","A stalled caller never holds up other callers",
 "If a thread stops running at an arbitrary instant inside any call, calls made by other threads on the same or on other cameras still complete, with the right result, within a bounded number of their own steps. The stalled call completes with the right result once it is resumed.",
 ["schedules","fault_sequences"],"every stall point inside every public operation, and every schedule of the remaining threads",
 "No test runs two threads, and none suspends one inside a call.",
 ALL,[("operations are lock-free: no locks, no shared mutable state","src/camera.rs, src/extrinsics.rs, src/ray_intersection.rs")],
 ["completion and return values of calls made while another is stalled"],cache)
p("C03","A call interrupted by a panic leaves no trace",
 "A call cut short by unwinding, because a user-supplied number type, point storage or camera model panics in the middle of it, fails as that one call only. Whatever the instant of the interruption, shared cameras and inputs are unchanged, and every later or concurrent call, including a retry of the interrupted one, returns exactly what it would have returned had the interruption never happened.",
 ["crash_points","histories"],"every interruption instant (each scalar operation, each element read, each model callback) of every public operation, and every following history",
 "No test interrupts a call; the panic path through generic code is never executed.",
 ALL,[("operations work on locals and return a new value; nothing is taken out of or put back into a shared place","src/camera.rs, src/extrinsics.rs, src/ray_bundle_types.rs, src/ray_intersection.rs")],
 ["return values of calls following the interrupted one"],cache)
p("C04","Results depend on the arguments alone, not on history or environment",
 "The result of a call is, bit for bit, a function of its arguments. It is the same whatever sequence of successful and failing calls and of camera lifetimes came before, whichever thread makes it (one that is unwinding from a panic included), and whatever the clock, the random source, environment variables, program arguments, thread names, files, the processor's count and features and the addresses at which objects lie happen to be, even if the machine refuses threads or nobody takes what is printed.",
 ["histories"],"every history of calls and object lifetimes over every public operation, and every value the environment can return",
 "Tests make one short call sequence each, in a fresh process and one environment; none repeats a call after an adversarial history.",
 ALL,[("no statics, thread-locals, clocks, randomness or environment access anywhere in the crate","src/lib.rs and all modules")],
 ["return values of every public operation"],cache)
p("C05","Saved cameras and rays are restored exactly after a restart",
 "A camera, lens model, pose or ray bundle that was completely saved reads back after a restart with exactly the parameters that were saved, equal to the original, and gives bit-identical answers to every call. This holds for all finite parameter values in single and double precision, for text and binary formats with named or positional fields in any field order, and however the reader and writer split the stream.",
 ["crash_points","fault_sequences","configurations"],"every parameter set, serialization format and key style, field order, stream split, non-fatal stream fault and crash point of the save/restart/load cycle",
 "Five tests round-trip one fixed object each through one JSON string; positional formats, other field orders, f32, ray bundles in general pose, behaviour after reload and partial I/O are not exercised.",
 ["src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/camera.rs","src/lib.rs","src/ray_bundle_types.rs"],
 [("hand-written Deserialize rebuilding the skipped caches, map and sequence visitors","src/extrinsics.rs ExtrinsicParametersVisitor; src/intrinsics_perspective.rs IntrinsicParametersPerspectiveVisitor"),("derived Serialize/Deserialize","src/camera.rs Camera; src/lib.rs RayBundle; src/ray_bundle_types.rs; src/intrinsics_orthographic.rs")],
 ["deserialized object: accessors, equality, all operations"],cache)
p("C06","Damaged saved data is rejected or read as written, never half-loaded",
 "Loading data that is truncated, torn, bit-flipped, spliced or has fields missing, repeated or of the wrong type never panics and never hangs. It either fails, or yields exactly the object that would be built afresh from the parameter values that the damaged data spell out; data that end early, lack a parameter or repeat one are always rejected.",
 ["fault_sequences","inputs"],"every truncation point and every corruption, splice, omission, repetition and retyping of saved data, in every format",
 "No test deserializes anything but a string just written by the same test.",
 ["src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/camera.rs","src/lib.rs","src/ray_bundle_types.rs"],
 [("missing, duplicate and length checks in the visitors, cache always rebuilt from what was read","src/extrinsics.rs visit_seq/visit_map; src/intrinsics_perspective.rs visit_seq/visit_map"),("derived Deserialize","src/camera.rs, src/lib.rs, src/ray_bundle_types.rs, src/intrinsics_orthographic.rs")],
 ["Result of deserialization; accessors and behaviour of what it returns"],cache)
p("C07","Storage failures while saving or loading always reach the caller",
 "When the writer, the reader or the format underneath fails at any point of saving or loading a camera, lens model, pose or ray bundle, the operation reports a failure; it reports success only if everything was transferred. A retry after the fault has cleared gives exactly what an undisturbed attempt gives.",
 ["fault_sequences","crash_points"],"every position of a failing read, write or format event in every save and load, alone or in sequence, with retries",
 "Tests serialize to and from an in-memory string that cannot fail.",
 ["src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/camera.rs","src/lib.rs","src/ray_bundle_types.rs"],
 [("? on every next_key, next_value and next_element","src/extrinsics.rs, src/intrinsics_perspective.rs visitors"),("derived Serialize propagates errors","src/camera.rs, src/extrinsics.rs, src/intrinsics_perspective.rs")],
 ["Result of serialize and deserialize"])
p("C08","Saved data stays interchangeable with the released version",
 "Cameras, lens models, poses and ray bundles saved by release 0.15.3 load with the same meaning, and what is saved now loads with the same meaning in release 0.15.3. This holds in text and binary formats, with named and with positional fields, through any sequence of upgrades, rollbacks and re-saves.",
 ["histories","configurations"],"every sequence of saves and loads by old and new versions sharing one store, over every object, parameter set and format",
 "Tests only read back what the same build wrote, so a change made on both sides, such as a renamed or reordered field, passes them.",
 ["src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/camera.rs","src/lib.rs","src/ray_bundle_types.rs"],
 [("field names and order of the serialized structs","src/camera.rs Camera; src/extrinsics.rs ExtrinsicParameters; src/intrinsics_perspective.rs; src/intrinsics_orthographic.rs; src/lib.rs RayBundle; src/ray_bundle_types.rs")],
 ["serialized bytes; Result of deserialization"])
p("C09","Fixed-size camera work needs no heap",
 "Building cameras and poses, projecting points, casting and transforming rays, composing and decomposing projection matrices and linearizing, all on data of fixed size, complete with the same results, failure results included, when every heap allocation is refused. Where memory is needed, as for dynamically sized batches and for intersecting rays, a refused allocation ends in an allocation failure and never in a wrong result.",
 ["fault_sequences"],"every pattern of refused allocations during every public operation, over all argument values including those that take error and special-case paths",
 "Tests run with an allocator that never fails and do not look at allocations; CI only checks that the crate links without std.",
 ALL,[("owned storage of fixed-size matrices is a stack array; no_std build without alloc","src/camera.rs, src/extrinsics.rs, src/intrinsics_perspective.rs, src/ray_bundle_types.rs; Cargo.toml features"),("ray intersection is the only part needing alloc","src/ray_intersection.rs; src/lib.rs cfg(feature = \"alloc\")")],
 ["return values and process survival under a refusing allocator"])
p("C10","Memory use stays bounded over unlimited use",
 "However many calls are made, and however many of them fail, are interrupted by a panic or break off on damaged data, the memory that remains in use once their results are dropped stays below a fixed bound.",
 ["histories","fault_sequences"],"every long history of calls over every public operation, with failing, interrupted and broken-off calls mixed in",
 "Tests make a handful of calls per process and never look at memory.",
 ALL,[("no retained state; temporaries are owned locals, released on success, error and unwinding","src/ray_intersection.rs, src/camera.rs, src/extrinsics.rs, src/intrinsics_perspective.rs")],
 ["bytes allocated by calls and not released"])
p("C11","User-supplied camera models get every point exactly once, faults included",
 "For a camera built around a user-supplied lens model, each projection or ray-casting call hands the whole batch to the model exactly once, each point in camera coordinates, unmodified and in order, and returns the model's answer unchanged apart from the change of frame. A fault in the model (invalid values for some points, a panic, a call back into the same or another camera) shows up in exactly that answer and affects no other point, call or camera.",
 ["fault_sequences","histories"],"every sequence of calls and of model faults, reentrant calls included, over all batch sizes and poses",
 "Tests only use the two built-in models, never a failing or reentrant one.",
 ["src/camera.rs","src/extrinsics.rs","src/ray_bundle_types.rs","src/lib.rs"],
 [("one delegation to the model per call","src/camera.rs Camera::{world_to_pixel,pixel_to_world}"),("row-by-row frame change","src/extrinsics.rs world_to_camera, ray_camera_to_world; src/ray_bundle_types.rs to_pose")],
 ["calls recorded at the model boundary; return values"])
p("C12","The model self-check accepts sound models and rejects every faulty one",
 "The published round-trip self-check for lens models passes for every model whose round trip stays within the given tolerance on the given grid, and panics for every model that, at any single grid pixel and in any coordinate, deviates by more than the tolerance or answers with an invalid value. The grid covers every pixel position from the border, in steps, over the whole image.",
 ["fault_sequences","configurations"],"every single-fault and multi-fault placement (pixel, coordinate, direction, size) in the model under check, and every grid geometry",
 "The tests run the self-check on sound models only, so a self-check that never fails would pass them.",
 ["src/intrinsic_test_utils.rs"],
 [("grid generation","src/intrinsic_test_utils.rs generate_uv_raw"),("comparison with tolerance","src/intrinsic_test_utils.rs roundtrip_intrinsics")],
 ["panic or normal return of the self-check; points seen by the model"])
p("C13","The example renderer never reports success for an incomplete file",
 "Whatever errors, short or interrupted writes the operating system returns while the cube-rendering example creates and writes its drawings, it exits successfully only if every drawing file is complete. If a file could not be written completely the program ends with a failure status instead of success.",
 ["fault_sequences","crash_points"],"every sequence of failing, short and interrupted open and write calls, and every kill point, during a run of the example",
 "The example is only compiled by the tests, never run, and never with failing I/O.",
 ["examples/render-cube.rs"],
 [("write_all and ? on every I/O result","examples/render-cube.rs SvgWriter::save, main")],
 ["exit status and contents of the files written"])
# pure functions
F="every input in the stated domain; the operation is a pure function"
def n(id,title,st,why,files,mech,obs=None): p(id,title,st,["inputs"],F,why,files,mech,obs)
n("N01","Perspective projection follows the pinhole equations",
 "For every finite lens parameter set with non-zero focal lengths and every camera-frame point with non-zero depth, the pixel is ((fx*x + skew*y)/z + cx, fy*y/z + cy) up to rounding. The result for a point does not depend on the other points of its batch or on how the batch is stored.",
 "One parameter set is tried, on a grid.",["src/intrinsics_perspective.rs"],[("matrix product and division","src/intrinsics_perspective.rs camera_to_pixel")])
n("N02","Orthographic projection is the scaled and shifted x and y",
 "For every finite parameter set with non-zero scales and every camera-frame point, the pixel is (sx*x + cx, sy*y + cy) up to rounding, whatever the depth.",
 "One parameter set is tried, on a grid.",["src/intrinsics_orthographic.rs"],[("scale and offset","src/intrinsics_orthographic.rs camera_to_pixel")])
n("N03","Every point on a pixel's ray projects back to that pixel",
 "For every camera and pixel, every point on the ray cast through the pixel, at any non-zero distance, projects back to that pixel up to rounding.",
 "Two cameras and one distance per ray are tried.",["src/camera.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs"],[("inverse of the projection","pixel_to_camera in both intrinsics modules; to_pose in src/ray_bundle_types.rs")])
n("N04","World/camera conversion is a rigid motion and its exact inverse",
 "For every pose the conversions between world and camera frames preserve distances and handedness, are mutually inverse up to rounding, map the camera centre to the origin, and agree with the pose, matrix, rotation and translation the pose reports.",
 "One pose is tried.",["src/extrinsics.rs"],[("caches derived from rotation and centre","src/extrinsics.rs from_rotation_and_camcenter, from_pose")])
n("N05","Looking from a point towards a point gives the requested view",
 "For every camera centre, different target and up direction not parallel to the view, the constructed pose has that centre, looks at the target, and has its up direction in the half-plane of the requested up direction, with right-handed axes.",
 "Three fixed views are tried.",["src/extrinsics.rs"],[("look_at construction","src/extrinsics.rs from_view, forward, up, right")])
n("N06","Decomposing a projection matrix gives a camera with the same projection",
 "For every 3x4 matrix of full rank in its left 3x3 part, the camera obtained from it has positive focal lengths, a proper rotation and the same projection as the matrix; composing a camera's matrix and decomposing it again gives back the same camera.",
 "One camera and one regression matrix are tried.",["src/camera.rs"],[("RQ decomposition and sign fixing","src/camera.rs rq, rq_decomposition, pmat2cam_center, as_camera_matrix")])
n("N07","The best intersection of rays minimises the squared distances",
 "For every set of two or more rays that are not all parallel the returned point minimises the sum of squared distances to their lines, independently of ray order and direction lengths; fewer than two rays are reported as an error.",
 "One pair of rays that meet exactly is tried.",["src/ray_intersection.rs"],[("normal equations and pseudo-inverse","src/ray_intersection.rs best_intersection_of_rays, my_pinv")])
n("N08","The linearization is the derivative of the projection",
 "At every world point of non-zero depth the returned 2x3 matrix is the derivative of the pixel coordinates with respect to the point, up to rounding, for every perspective camera.",
 "One camera, one point, one offset along one axis is tried.",["src/linearize.rs"],[("closed-form Jacobian","src/linearize.rs linearize_at")])
n("N09","Only normalized upper-triangular matrices are accepted as lens matrices",
 "A 3x4 matrix is accepted exactly when its entries outside the lens parameters have their normalized values up to rounding; an accepted matrix yields exactly its five lens parameters and any other is reported as invalid.",
 "Seven fixed perturbations of one matrix are tried.",["src/intrinsics_perspective.rs"],[("entry checks","src/intrinsics_perspective.rs from_normalized_3x4_matrix")])
n("N10","Ray bundles report consistent origins, directions and points",
 "For both bundle kinds and every pose the reported origins, directions, single ray, points on the rays and points at a given distance are consistent with each other: each point lies on its ray, and the point at distance d lies at distance d from its origin.",
 "Two fixed bundles of two rays are tried.",["src/lib.rs","src/ray_bundle_types.rs"],[("bundle accessors","src/ray_bundle_types.rs directions, centers, point_on_ray, point_on_ray_at_distance, to_single_ray")])
n("N11","No argument value makes a call panic or run forever",
 "For all floating-point arguments, infinities and invalid values included, every operation other than the self-check returns after a bounded amount of work, with a value or an error, and does not panic.",
 "Only finite, well-conditioned arguments are tried.",["src/ray_intersection.rs","src/camera.rs","src/extrinsics.rs","src/linearize.rs"],[("iteration cap of the singular value decomposition","src/ray_intersection.rs my_pinv")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
