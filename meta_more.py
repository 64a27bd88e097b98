ZOO_TECH = ("TLA+ specification Zoo (TLC): every component denotes a closure (implementation, properties, operations, live referents); its relocation invariants are checked on all bounded histories, "
            "which are replayed, with random ones, into the real library over all built-in components; TLC validates each recorded trace (ZooTrace): equal closures must show equal behaviour digests")
prop("C04", "Saving and loading the state preserves every component's behaviour",
     "After the state, or a self-contained part of it, is saved and loaded back, in the same or another place, every component behaves as the saved one did: same implementation, same parameters (also optional ones), same references, same accumulated content (film pixels, scene graph, acceleration structure, aspect ratio, scheduler settings), same results of every query, and the same rendered image for the same seed. A save that cannot be written completely is reported as an error.",
     ["inputs", "histories"], "all built-in component types, all their optional properties, all histories of construction, replacement, scene edits, builds and renders before and after the round trip",
     "The tests round-trip three components and compare a few fields; most built-in components, optional properties, built scenes and renderers are never saved, loaded and then used.",
     ["include/lm/serial.h", "include/lm/serialtype.h", "src/user.cpp", "src/scene.cpp", "src/accel/accel_sahbvh.cpp", "src/texture", "src/material", "src/light", "src/camera", "src/medium", "src/phase", "src/volume", "src/mesh", "src/model", "src/film", "src/renderer", "src/scheduler.cpp"],
     [("LM_SERIALIZE_IMPL of each component", "src/**"), ("save_state_to_file and load_state_from_file", "src/user.cpp")],
     [("serialized members", "the part of a component's state that is written", "src/**")],
     ["results of every interface function on fixed inputs", "film content after rendering"], tech=ZOO_TECH,
     note="all histories of length 2 (thorough: 3) over a sub-catalogue, sampled histories over the full catalogue; behaviour compared on fixed inputs")

LOOP_TECH = ("TLA+ specification Loop (TLC): the loop algorithm (MCLoop) is shown to refine it and to terminate on every interleaving of the bounded model; its schedules are forced on the real loop, "
             "and traces recorded from gated and free-running loops, schedulers and reporters (under a virtual clock) are validated by TLC against the specification (LoopTrace)")
prop("C08", "A parallel loop processes every index exactly once on valid threads",
     "For every number of samples, configured number of threads, calling thread and interleaving, a parallel loop calls the process function exactly once for each index and for no other, with a thread id below the configured number of threads, never two samples at the same time under one thread id, with as many threads at work as configured, and returns only when no call is running. If a callback throws, the loop ends with one of the thrown exceptions in the caller, a single-threaded loop processes nothing after it, and later loops are unaffected.",
     ["schedules", "fault_sequences", "configurations"], "all interleavings of workers, all loop sizes, all thread-count settings (positive, zero, negative), failing samples and failing progress callbacks, nested and concurrent loops, any calling thread",
     "The tests run one loop of fixed size with the default configuration; interleavings, exceptions from several threads, nested or concurrent loops and calls from other threads are not controlled.",
     ["src/parallel/parallel_openmp.cpp", "src/parallel/parallel.cpp", "include/lm/parallel.h"],
     [("worksharing loop with captured exceptions", "src/parallel/parallel_openmp.cpp"), ("thread-count configuration", "src/parallel/parallel_openmp.cpp")],
     [("cancellation flag and captured exception", "failure of any sample", "src/parallel/parallel_openmp.cpp")],
     ["calls of the process function", "outcome of the loop"], tech=LOOP_TECH, note="all interleavings of the model with up to 3-4 threads and 3-5 samples; sampled schedules of the real loop")
prop("C09", "Reported progress is truthful and every report is opened and closed once",
     "Progress values of a loop or scheduler run never decrease, never exceed the number of samples really processed or the announced total, lag behind by at most the update interval per thread, start from zero in each loop and are reported by the calling thread. Each scheduler run announces its own mode and total once before any sample, reports only in that mode, and ends the report exactly once, also when it fails. Composite reporters pass every start and end to all parts in order, and updates unless a configured delay holds them back.",
     ["schedules", "histories"], "all interleavings of workers, update intervals, sequences of loops, failing runs, compositions of reporters and timings of updates",
     "No test looks at progress values or at the protocol between schedulers and reporters; timing-dependent reporters cannot be tested reproducibly without controlling the clock.",
     ["src/parallel/parallel_openmp.cpp", "src/progress.cpp", "src/scheduler.cpp", "include/lm/progress.h"],
     [("per-thread counts added to a shared count", "src/parallel/parallel_openmp.cpp"), ("scoped reports", "include/lm/progress.h"), ("multiplexed and delayed reporters", "src/progress.cpp")],
     [("processed", "samples counted so far", "src/parallel/parallel_openmp.cpp")],
     ["calls of the progress callback", "calls received by a reporter", "log messages of the default reporter"], tech=LOOP_TECH, note="all interleavings of the bounded model; sampled runs of the real code under a virtual clock")
prop("C10", "Schedulers hand out exactly the samples they promise",
     "A sample-based scheduler processes every pair of pixel and sample index (per-pixel) or every sample index (per-image) exactly once and returns the configured number, also when the product exceeds 32 bits. A time-based scheduler processes whole passes, each sample of a pass exactly once and with consecutive sample indices across passes, starts a further pass exactly while the time limit is not exceeded, runs at least one, and returns the number of samples processed. A failing sample ends the run with its exception.",
     ["schedules", "inputs"], "all film sizes, sample counts, time limits, pass sizes, thread counts and interleavings",
     "The tests do not run schedulers at all or only through one renderer; time-based termination and sample numbering cannot be observed without controlling time.",
     ["src/scheduler.cpp", "include/lm/scheduler.h"],
     [("flattened sample index", "src/scheduler.cpp"), ("time-limited pass loop", "src/scheduler.cpp")],
     [("render_time, spp, samples_per_iter", "configuration of a scheduler", "src/scheduler.cpp")],
     ["calls of the process function", "value returned by the scheduler"], tech=LOOP_TECH, note="sampled configurations; exact oracle computed by TLC, with arbitrary-precision arithmetic for large sample numbers")
prop("C11", "Film updates are exact and atomic, and saved images hold the film",
     "Every pixel operation (set, splat, update with a function, incremental average) changes exactly the addressed pixel, raster positions address the pixel containing them and are clamped to the film when outside, and film-wide operations (accumulate, rescale, clear) change every pixel and nothing else, or nothing at all when sizes differ. Operations from several threads take effect one after another: no update is lost and no color is torn. A saved image holds exactly the film's content in the right orientation, and saving reports failure when nothing was written.",
     ["schedules", "histories", "inputs"], "all interleavings of pixel operations from several threads, all histories of film operations, all raster positions, all supported formats",
     "The tests never touch a film from several threads; lost updates need particular interleavings, and image orientation, clamping and size mismatches are not tested.",
     ["src/film/film_bitmap.cpp", "include/lm/film.h"],
     [("compare-and-exchange loop on a pixel", "src/film/film_bitmap.cpp"), ("conversion of raster positions", "include/lm/film.h"), ("image writers", "src/film/film_bitmap.cpp")],
     [("data_", "atomic pixel values", "src/film/film_bitmap.cpp")],
     ["pixel buffer", "files written", "return value of saving"],
     tech="TLA+ specification Film (TLC): the compare-and-exchange algorithm (MCFilm) is shown linearizable on every interleaving of the bounded model; its schedules are forced on the real film, and traces of sequential histories, concurrent programs and files are validated by TLC (concurrent results must be reachable by some interleaving)",
     note="all interleavings of up to 3 (thorough: 4) threads in the model; sampled histories and free-running concurrency on the real film")
prop("C06", "A name creates what is registered under it, plugins included",
     "At every point of every history of registrations, unregistrations, plugin loads and unloads, creating a component by name yields an instance of the implementation last registered under that name or under the key the name is an alias of, reporting that key, and yields nothing when there is none. Loading a plugin makes exactly its implementations available, loading it twice has no further effect, unloading it (alone, or all) takes exactly them away, unreadable or missing files are reported as errors without any effect, and loading a directory loads exactly the plugin files in it. Each instance is released by the implementation that created it, and built-in implementations are never affected.",
     ["histories", "inputs"], "all histories of registering, overriding, aliasing, creating, destroying, loading and unloading plugins, by path and by directory",
     "The tests register and create a few fixed components and load one plugin; overriding, aliases that hide keys, repeated loads and unloads, and broken plugin files are not covered.",
     ["src/component.cpp", "include/lm/component.h"],
     [("map of create and release functions with aliases", "src/component.cpp"), ("plugin handles by path", "src/component.cpp"), ("release function kept by each instance", "include/lm/component.h")],
     [("function map", "key to create and release functions", "src/component.cpp"), ("plugins", "path to handle", "src/component.cpp")],
     ["component creation by name", "enumeration of registered names", "release of instances"],
     tech="TLA+ specification Registry (TLC): all histories of the bounded model, replayed into the real library with real plugins; TLC validates each recorded trace (RegistryTrace)",
     note="all histories of length 3 (thorough: 4) of the operation menu; sampled longer histories with plugin files and directories")
prop("C12", "The scene holds exactly what was added, under the composed transforms",
     "For every history of creating primitive, group and instance nodes, linking them, adding models, resetting, building and state loading, the scene holds exactly the nodes that were created, with the assets they were given; a traversal visits every primitive once for each path from the root, with the product of the transforms along the path; camera, medium and environment light are the ones last registered; after a build the lights are exactly the light primitives in the scene with their transforms, and light indices and nodes correspond. Invalid additions (missing or contradictory assets, a second environment light, missing parents or children, children of primitives) are refused and change nothing that is traversed.",
     ["histories", "inputs"], "all histories of scene graph operations on graphs without cycles, shared subgraphs included, all transforms",
     "The tests build a few fixed graphs of two or three nodes and check one traversal; invalid operations, instancing, resets, models and lights under nested transforms are not covered.",
     ["src/scene.cpp", "include/lm/scene.h", "include/lm/scenenode.h"],
     [("node list and recursive traversal", "src/scene.cpp"), ("light indices rebuilt at build", "src/scene.cpp")],
     [("nodes", "all scene nodes by index", "src/scene.cpp"), ("lights", "light primitives with global transforms", "src/scene.cpp")],
     ["traversal of primitive nodes", "nodes by index", "camera, medium and light queries", "scene requirement checks"],
     tech="TLA+ specification SceneGraph (TLC): invariants on all bounded histories, which are replayed into the real scene together with random ones; TLC validates each recorded trace (SceneTrace), transforms compared exactly over the integers",
     note="all histories of length 3 (thorough: 4 on the model) over a menu of operations; sampled longer histories")
prop("C13", "Ray queries return the nearest hit, and visibility agrees with the geometry",
     "For every scene and every ray and range, intersection reports a hit exactly when the ray meets a triangle of the scene within the range, and then the nearest one: its primitive, face, parameter, barycentric coordinates and transform, and at scene level the position, the geometry and shading normals carried by the transforms and the interpolated texture coordinates; otherwise the environment light, if any, for unbounded rays, and else nothing. Two points see each other exactly when no triangle lies between them, both ways. The range of a ray in a box is the exact one. The result does not depend on the number of threads building the acceleration structure, nor on saving and loading.",
     ["inputs", "configurations", "schedules"], "all triangle soups (flat, degenerate, overlapping, transformed, mirrored, instanced), rays (axis-parallel, through vertices and edges, within planes), ranges and builder threads",
     "The tests shoot a few rays at one small mesh; nearest-hit correctness over all configurations needs an exact oracle, which floating-point expectations in tests cannot give.",
     ["src/accel/accel_sahbvh.cpp", "src/scene.cpp", "include/lm/scene.h", "include/lm/math.h", "src/mesh/mesh_raw.cpp", "include/lm/surface.h"],
     [("parallel construction of the hierarchy", "src/accel/accel_sahbvh.cpp"), ("traversal with shrinking range", "src/accel/accel_sahbvh.cpp"), ("slab test", "include/lm/math.h"), ("surface point and normal transform", "src/scene.cpp")],
     [("hierarchy nodes and triangle indices", "what rays are tested against", "src/accel/accel_sahbvh.cpp")],
     ["intersection at acceleration structure and scene level", "visibility queries", "range of a ray in a bound"],
     tech="TLA+ specifications Geometry and SceneGraph (TLC) decide hits exactly over integer coordinates; the construction algorithm is model checked (MCBvh); traces of queries recorded from the real code are validated by TLC (SceneTrace)",
     note="exact integer oracle; scenes and rays are sampled from small integer coordinates, hits on triangle boundaries may be reported or not")

SAMP = ("TLA+ specification Sampling (TLC): %s; the real routines are driven over scenes and evenly spread random numbers, and TLC validates each recorded trace (SamplingTrace) in fixed-point arithmetic: ")
prop("C18", "Discrete choices follow their weights",
     "For every list of non-negative weights with a positive sum, a discrete distribution returns for each number in [0,1) the entry whose share of the total contains it, never an entry without weight or outside of the list, and reports for each entry its weight divided by the total and zero elsewhere; the two-dimensional distribution does the same over its cells. The choice of a component of a material and of a light of a scene returns a valid index, with the reported probabilities being those of the choice, adding up to one, and equal to the configured weights of mixtures.",
     ["inputs", "configurations"], "all weight lists, random numbers, materials and mixtures, incident directions, and numbers of lights",
     "The tests do not look at discrete distributions or component selection; zero weights, the ends of the list and the boundaries between entries need particular numbers.",
     ["include/lm/math.h", "src/material", "src/scene.cpp", "include/lm/path.h"],
     [("Dist and Dist2", "include/lm/math.h"), ("sample_component and pdf_component of materials", "src/material"), ("sample_light_selection", "src/scene.cpp")],
     [("cumulative weights", "partial sums of the weights", "include/lm/math.h")],
     ["entries returned for given random numbers", "reported probabilities"],
     tech=SAMP % "proportional choice in one and two stages is model checked (MCChoice) and its weight lists are replayed" + "the entry returned for each number is the one the specification owns the number to",
     note="all weight lists up to length 4 with weights up to 2 (thorough: 3), sampled longer ones; evenly spaced numbers")
prop("C20", "Samples, weights, densities and values agree",
     "For every sampling routine of materials, phase functions, lights and cameras (directions, positions, primary rays, direct connections), each sample is drawn with the density the routine reports for it, its weight times that density is the value of the sampled quantity, every outcome with a nonzero value has a positive density, densities are non-negative and add up to the probability of drawing anything, directions are normalised, and samples found again by ray intersection have the same value and density. Thus the mean of the weights is the integral of the value. Geometry terms and densities converted between solid angle, projected solid angle and area are related by the cosines and the squared distance. Delta components report zero density and value when asked to evaluate delta functions.",
     ["inputs", "configurations"], "all materials, lights, cameras and phase functions with their parameters, surface orientations, incident directions, scene transforms, and random numbers",
     "The tests render no images that are compared and never compare densities with samples; a wrong density still gives plausible images.",
     ["include/lm/path.h", "include/lm/surface.h", "src/material", "src/light", "src/camera", "src/phase", "include/lm/math.h"],
     [("sample and pdf functions of each component", "src/material, src/light, src/camera, src/phase"), ("path sampling interface", "include/lm/path.h"), ("conversion between measures", "include/lm/surface.h")],
     [("parameters of the components", "e.g. roughness, areas, transforms", "src")],
     ["samples, weights, densities and values returned by the path interface"],
     tech=SAMP % "the estimator contract is shown to imply an unbiased mean on all bounded instances (MCSampling)" + "weight times density is the value for every draw, tallies over bins match the densities integrated over them, sums of weights match integrated values",
     note="sampled configurations, 50000 low-discrepancy draws each; tolerance 0.7 percentage points per bin, 1e-4 relative for single samples")
prop("C22", "Materials obey the laws of scattering",
     "A mirror reflects about the normal, a mask passes light straight on, a glass reflects and refracts according to its index of refraction, with the same probability and the same path backwards, with the scaling of radiance in one transport direction only, and by total internal reflection where there is no refraction. The share of reflected light is Schlick's approximation of the Fresnel reflectance. Materials without such transmission give the same value when incident and outgoing directions are exchanged, and transport in one direction is the adjoint of transport in the other, also where the shading normal differs from the geometric one. No material returns more energy than it received (mixtures: with weights adding up to at most one), and a diffuse material returns exactly its reflectance.",
     ["inputs", "configurations"], "all materials with their parameters, surface orientations, incident and outgoing directions on both sides, and both transport directions",
     "The tests do not evaluate materials.",
     ["src/material", "include/lm/math.h", "include/lm/surface.h"],
     [("reflection and refraction", "include/lm/math.h"), ("eval and sample of materials", "src/material")],
     [("index of refraction, reflectance, weights", "parameters of a material", "src/material")],
     ["sampled directions and weights", "values for exchanged directions", "mean weight over all directions"],
     tech=SAMP % "paths across interfaces keep the tangential component, are reversible and restore the radiance scale (MCOptics)" + "sampled directions satisfy the laws, exchanged directions have equal values, mean weights stay below one",
     note="sampled directions and parameters")
prop("C23", "Camera rays and raster positions are inverse and oriented as configured",
     "For every pinhole camera, the ray through a raster position starts at the camera position, has unit length and is mapped back to the same raster position; the center of the raster looks along the view direction, the raster's vertical and horizontal axes point up and to the right of the view, and the angles at its borders are given by the vertical field of view and the aspect ratio. Directions outside of the view have no raster position and no importance. The view and projection matrices map points along a ray to its raster position, and a camera given by a matrix is the same as the one given by position, center and up vector.",
     ["inputs", "configurations"], "all positions, view directions, up vectors, fields of view, aspect ratios, both ways of construction, and raster positions",
     "The tests do not check camera geometry.",
     ["src/camera/camera_pinhole.cpp", "include/lm/camera.h", "include/lm/path.h"],
     [("primary_ray and raster_position", "src/camera/camera_pinhole.cpp"), ("view_matrix and projection_matrix", "src/camera/camera_pinhole.cpp")],
     [("u_, v_, w_, tf_, aspect_", "basis, half height and aspect ratio", "src/camera/camera_pinhole.cpp")],
     ["primary rays", "raster positions", "importance", "matrices"],
     tech=SAMP % "a camera on the integer lattice is model checked for round trip, orientation and borders (MCCamera) and its orientations are replayed" + "directions, raster positions and matrices satisfy the lattice relations",
     note="all 24 axis orientations in both forms of construction, sampled oblique ones; an 8 by 8 raster grid")
prop("C24", "Media attenuate and scatter by their optical depth",
     "For every homogeneous or heterogeneous medium and ray segment, transmittance is the exponential of the negative optical depth of the density along the segment inside the medium, sampled distances have the corresponding distribution and lie within the segment and the medium, their weight is the albedo, and flights that pass through have weight one. Flights and transmittance in a scene end at the nearest surface, are blocked by surfaces in between, reach the environment where there is one, and are unattenuated without a medium. Density fields (constant, sphere, gaussian, checker, and sums of them) take the value and color their description gives at each point, never exceed their reported maximum, and are negligible outside of their reported bound.",
     ["inputs", "configurations"], "all media, density fields and combinations, ray origins, directions and segments, and random numbers",
     "The tests do not sample media or volumes; a wrong majorant, bound or segment offset only shifts a distribution.",
     ["src/medium", "src/volume", "include/lm/medium.h", "include/lm/volume.h"],
     [("delta tracking and ratio tracking", "src/medium/medium_heterogeneous.cpp"), ("analytic sampling", "src/medium/medium_homogeneous.cpp"), ("density fields", "src/volume")],
     [("density, bound, albedo", "parameters of media and volumes", "src/medium, src/volume")],
     ["estimated transmittance", "distribution of sampled distances", "field values"],
     tech=SAMP % "delta tracking through cells of all densities is model checked to give the product of transmittances (MCMedium)" + "estimated transmittances and distance distributions match the exponential of the optical depth, fields match their definition",
     note="sampled media and rays with 20000 flights each; tolerance 1.6 percentage points; piecewise constant densities along the rays")

prop("C16", "Wavefront OBJ models load as described",
     "For every Wavefront OBJ file and its MTL files, loading gives exactly the described geometry: every face as a fan of triangles over all its vertices, in order, with the positions, normals and texture coordinates its indices (absolute or relative) refer to, in meshes grouped as in the file under the material in use, with the parameters, texture and emission the MTL file gives it, regardless of line endings, spacing, comments, unknown commands, number notation and line or name length. A file that refers to a missing material, library, vertex or attribute, or has faces with too few or mixed vertices, is refused with an error and nothing is accessed out of bounds. The loader of the tinyobjloader plugin gives the same triangles with the same materials for files of triangles, and refuses indices that refer to nothing.",
     ["inputs", "configurations"], "all sequences of OBJ and MTL commands and the ways to write them as text",
     "The tests load one small model; index forms, polygons, group and material order and malformed files are unbounded.",
     ["src/objloader/objloader_simple.cpp", "plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp", "src/model/model_wavefrontobj.cpp", "src/mesh/mesh_wavefrontobj.cpp", "include/lm/objloader.h"],
     [("parser of OBJ and MTL files", "src/objloader/objloader_simple.cpp"), ("creation of meshes, materials and lights", "src/model/model_wavefrontobj.cpp")],
     [("OBJSurfaceGeometry", "positions, normals, texture coordinates", "include/lm/objloader.h")],
     ["triangles of meshes", "materials and lights of primitives", "errors"],
     tech="TLA+ specification ObjFile (TLC): all bounded files are model checked (MCObj: no triangle is lost, each is under the material in use) and replayed as text into the real loader; TLC validates each recorded trace (ObjTrace)",
     note="all command sequences up to length 5 over two menus, sampled longer and richer ones in free notation; coordinates are quarters")

TRANS = "TLA+ specification Transport (TLC): %s; the real renderers and path functions are run and TLC validates each recorded trace (TransportTrace): "
prop("C25", "All renderers estimate the same image",
     "For every scene, the expected image of each renderer is the sum over all light paths from a light to the camera with at most the given number of vertices of emission, scattering, visibility and importance, so path tracing in every sampling mode and primary ray mode, light tracing, bidirectional path tracing in both implementations and the volumetric path tracers agree with each other wherever their strategies can sample the paths, with closed forms where they exist (enclosures of one reflectance and emission, a floor under an even sky, under a point, a distant or an area light with an occluder), ranges of path lengths add up, and no image holds negative or non-finite values. Ending paths at random and weighting strategies change the noise only.",
     ["inputs", "configurations"], "all scenes, cameras, materials, lights, media, path length limits and sampling modes",
     "The tests do not compare renderings; a wrong weight, density or termination probability only changes brightness by some percent.",
     ["src/renderer", "include/lm/path.h", "include/lm/bidir.h", "src/film/film_bitmap.cpp"],
     [("path tracing modes and their weights", "src/renderer/renderer_pt.cpp"), ("light tracing", "src/renderer/renderer_lt.cpp"), ("bidirectional path tracing", "src/renderer/renderer_bdpt.cpp, renderer_bdptopt.cpp"), ("volumetric path tracing", "src/renderer/renderer_volpt.cpp")],
     [("throughput, MIS weights, film", "running estimate of a sample", "src/renderer")],
     ["mean and standard error of every pixel over repeated renderings"],
     tech=TRANS % "estimators of every strategy on all small discrete scenes are model checked to have the path sum as expectation (MCTransport)" + "images of known and of common scenes by all renderers agree within their standard errors",
     note="15 scenes with sampled materials, lights and limits; 4 pixels and the whole image; differences below 5 standard errors (about 1 percent) are not seen; not compared: two-vertex paths by light tracing, paths by strategies that cannot sample them (documented in DESIGN.md), media in renderers without media")
prop("C26", "Bidirectional paths: strategies, densities and weights are consistent",
     "For every path assembled from a light and a camera subpath: it runs from a light endpoint to the camera endpoint over exactly the vertices of the subpaths; the strategies that can sample it are the ones whose joined vertices do not scatter in a single direction and whose end vertices have extent or can be connected to; its density is positive only for those; the measurement contribution is the same for every strategy; contribution divided by density is the sampling weight; and the weights of multiple importance sampling follow the power heuristic of the densities and add up to one.",
     ["inputs", "configurations"], "all scenes, path lengths, materials, endpoints and random numbers",
     "The tests do not sample bidirectional paths.",
     ["include/lm/bidir.h", "include/lm/path.h", "include/lm/surface.h"],
     [("Path", "include/lm/bidir.h"), ("sampling and evaluation of endpoints, directions and components", "include/lm/path.h"), ("geometry term and density conversion", "include/lm/surface.h")],
     [("Path::vs", "vertices from the light to the camera", "include/lm/bidir.h")],
     ["densities, contributions, weights and samplability of sampled paths"],
     tech=TRANS % "the estimator weighted over all strategies is model checked on all small discrete scenes to be unbiased (MCTransport)" + "the samplable strategies of each kind of path are those of the specification, values, densities and weights satisfy the identities",
     note="about 40 scenes with all light types and materials, paths of up to 6 vertices, relative tolerance 1e-4")

prop("C14", "The log shows exactly the messages at or above its threshold, whole, in order",
     "In every history of messages, indentations, thresholds and initializations, and with messages from any number of threads, the log shows every message whose severity is not below the threshold, each of its lines with the header of its level and place and the indentation in force, and no other message; a progress message occupies the current line of a terminal until the next message, of whatever length, replaces it without remains, and the last one of a progress stays. Lines of concurrent messages are never interleaved and those of one thread stay in order. Without a logger messages are written as they are, and an indentation ends where it began.",
     ["histories", "schedules", "inputs"], "all histories of log calls, message texts (empty, with newlines, of any length), severities, thresholds, indentations, and schedules of concurrent threads",
     "The tests never read the log.",
     ["src/logger.cpp", "include/lm/logger.h"],
     [("header, indentation and lines of a message", "src/logger.cpp"), ("threshold and lifetime of the logger", "src/logger.cpp"), ("ScopedIndent", "include/lm/logger.h")],
     [("severity, indentation, previous message", "state of the logger", "src/logger.cpp")],
     ["characters written to the standard output"],
     tech="TLA+ specification Logger (TLC): what a reader of a terminal sees is model checked for all bounded histories (MCLogger) against the reader's view; all of them and longer ones are replayed into the real logger, and TLC plays the recorded characters on the specified terminal and compares (LoggerTrace)",
     note="all histories of the menu up to length 3 (thorough: 4), sampled longer ones and concurrent messages of 2 to 8 threads")
prop("C15", "Services exist exactly between init and shutdown; every init starts afresh",
     "In every history of initializing, shutting down and resetting the framework and its services (logger, parallel, progress, OBJ loader), each service works exactly while it is initialized and otherwise reports that it is not, operations on assets before any initialization are refused with an error and never crash, shutting down twice is refused, and every initialization starts with no assets and default settings whatever happened before. Saving reports success exactly when the state was written.",
     ["histories", "fault_sequences"], "all histories of initialization, shutdown, reset, loads and saves, of the whole framework and of single services",
     "The tests initialize once in one order.",
     ["src/user.cpp", "src/logger.cpp", "src/parallel", "src/progress.cpp", "src/objloader", "include/lm/component.h"],
     [("init, shutdown, reset", "src/user.cpp"), ("holder of a context", "include/lm/component.h")],
     [("context instances", "the services in use", "src/user.cpp")],
     ["results and errors of calls", "assets after each step", "number of threads"],
     tech="TLA+ specification Life (TLC): all bounded histories are model checked (MCLife: every start is afresh) and replayed into the real library; after each step everything is looked at, and TLC validates each recorded trace (LifeTrace)",
     note="all histories up to length 3 (thorough: 4), sampled ones up to 20")

prop("C17", "Components check their properties; what they become depends on nothing else",
     "For every built-in component and every set of properties given to it: construction succeeds exactly when every required property is present and every given one is well formed (of the right type and size, a known name where a name is expected, a reference to a component of the right kind), and otherwise reports an error, leaving what was there before unchanged, without crashing then or later. What is constructed is a function of the effective values alone: writing a documented default out is the same as leaving the property away, properties the component does not know and the order of properties have no effect, and every property the component knows takes effect.",
     ["configurations", "inputs"], "all components, sets of properties with present, missing, default, unknown and malformed values, and histories of reconstructions",
     "The tests construct components with a few complete, valid sets of properties.",
     ["include/lm/json.h", "src/material", "src/texture", "src/light", "src/camera", "src/phase", "src/volume", "src/medium", "src/film", "src/mesh", "src/renderer", "src/scheduler.cpp", "src/progress.cpp"],
     [("reading of properties", "include/lm/json.h"), ("construct() of each component", "src")],
     [("members set by construct()", "effective properties", "src")],
     ["result of loading the asset", "behaviour of the component (digest of its evaluations, rendered image)"],
     tech="TLA+ specification Props (TLC): the schema of 38 components; all configurations within a distance of the base are model checked (MCProps: meaning is independent of order, unknown names and written-out defaults; every single fault is noticed) and replayed into the real components, whose behaviour is digested; TLC validates each recorded trace (PropsTrace): same meaning, same behaviour; next to the base, different meaning, different behaviour",
     note="all configurations with one deviation from the base, sampled ones with two (thorough: all with three); two sample values per property; conversions between numeric types are not judged")
prop("C19", "Renderings are reproducible by their seed and depend on nothing else",
     "For every scene and renderer: with one thread, rendering with the same seed gives the same image bit by bit whatever was rendered before, after reinitialization, reset, reload, a saved and restored state or a rebuild of the scene; a different seed, and every rendering without a seed, gives a different image; renderers without randomness give the same image with any number of threads. With any number of threads the samples of the threads are independent: the noise of the image is that of the number of samples.",
     ["histories", "configurations", "schedules"], "all histories of renderings with scenes, renderers, seeds, numbers of threads and interruptions by the life cycle of the framework",
     "The tests do not render twice; correlated threads look like a slightly noisier image.",
     ["include/lm/math.h", "include/lm/parallel.h", "src/renderer", "src/scheduler.cpp"],
     [("seeding of the generators of the threads", "src/renderer"), ("random number generator", "include/lm/math.h")],
     [("rngs", "generator of each thread", "src/renderer")],
     ["images bit by bit", "variance of images over seeds for 1 and n threads"],
     tech="TLA+ specification Repro (TLC): seeds given to threads and histories of renderings are model checked (MCRepro: a seed determines the image, streams of the threads are different); the histories and longer ones are rendered with the real library, and TLC validates each recorded trace (ReproTrace)",
     note="9 renderers, sampled scenes; the noise of 6 to 8 threads may exceed that of one by at most the bound of the specification; images without any light path are exempt")
prop("C21", "Textures and environment maps show their picture",
     "For every picture (1 to 4 components, any size, flipped or not) and all texture coordinates, a texture shows the texel of the cell of the repeated unit square which holds the coordinate, gray pictures as gray colors, with the alpha component exactly where the picture has one; an environment map shows, in each direction, the texel at its azimuth (turned by the rotation) and polar angle, multiplied by the scale, and sampled directions carry the density by which they are drawn; a file which is not a picture is refused.",
     ["inputs", "configurations"], "all pictures, coordinates (also negative and beyond one), directions, rotations and scales",
     "The tests do not read textures.",
     ["src/texture", "src/light/light_env.cpp", "src/ext"],
     [("texel of a coordinate", "src/texture/texture_bitmap.cpp"), ("direction to map coordinate and back", "src/light/light_env.cpp")],
     [("data_, w_, h_, c_", "the picture", "src/texture/texture_bitmap.cpp")],
     ["texel values", "radiance by direction", "sampled directions and densities"],
     tech="TLA+ specification Picture (TLC): all small pictures are model checked (MCPicture: each texel is shown on a cell of its own, rotation is a shift); pictures of all shapes are written as files, loaded and looked at through the real components, and TLC validates each recorded trace (PictureTrace)",
     note="pictures up to 40 by 40, coordinates in the interior of cells, 26 directions of the integer lattice for environments, 8-bit files")
prop("C27", "Ray casting shows the nearest surface under each pixel",
     "For every scene, the ray caster gives each pixel the color of the nearest surface along the ray through its center: its reflectance (or the constant color) with the documented shading by the angle to the normal unless switched off, the absolute normal if asked for, the radiance of the environment where no surface is met, or else the background color.",
     ["inputs", "configurations"], "all scenes, cameras, image sizes and options of the ray caster",
     "The tests do not compare pixels.",
     ["src/renderer/renderer_raycast.cpp", "src/camera/camera_pinhole.cpp", "src/scene.cpp", "src/accel", "src/film/film_bitmap.cpp"],
     [("pixel loop and options", "src/renderer/renderer_raycast.cpp"), ("primary rays", "src/camera/camera_pinhole.cpp"), ("nearest hit", "src/accel/accel_sahbvh.cpp")],
     [("film", "pixels", "src/film/film_bitmap.cpp")],
     ["every pixel of the image"],
     tech="TLA+ specification Picture (TLC): which rectangle is seen where is decided exactly in integers; all small scenes are model checked (MCPicture) and rendered by the real ray caster, larger ones sampled; TLC validates each recorded trace (PictureTrace)",
     note="rectangles parallel to the image at integer positions, pixels whose ray runs along a border or the shared diagonal of two triangles are not judged")
prop("C28", "Values keep their meaning across the Python boundary",
     "For every value handed from Python to the library and back, by any route (properties as a dictionary or as keyword arguments, results, callbacks): null, booleans, integers of 64 bits, floats, texts, lists and dictionaries arrive as they are; tuples, ranges and arrays of floats as lists; a component as its locator; anything else is refused with an exception, also inside of a list or dictionary. Arrays are taken as vectors and matrices with the elements numpy shows, whatever their memory layout, and arrays of another size, dimension or element type are refused with TypeError. Matrices made by the library's functions are the transforms of their names. Pixels of a film appear where they were set.",
     ["inputs"], "all nested values, all routes, all array layouts (views, transposed, reversed, strided)",
     "The Python tests hand over a few small values in contiguous arrays.",
     ["include/lm/pylm.h", "src/pylm.cpp", "lightmetrica/__init__.py"],
     [("conversion between Python objects and Json", "include/lm/pylm.h"), ("conversion between numpy arrays and vectors and matrices", "include/lm/pylm.h"), ("bindings", "src/pylm.cpp")],
     [("value", "the converted value", "include/lm/pylm.h")],
     ["value or exception on the other side"],
     tech="TLA+ specification Bridge (TLC): what becomes of each value and which element of a buffer a view shows; all small values and views are model checked (MCBridge) and sent through the real Python module by every route, larger ones are sampled; TLC validates each recorded trace (BridgeTrace)",
     note="values nested up to 3 levels; the module is compiled from the tree and loaded in the Python of the tests")
prop("C29", "Components written in Python behave as native ones",
     "For every history of registering Python classes, loading, creating, holding, dropping, resetting, saving and loading: the objects in the asset tree are the Python objects of the classes registered at the time, an object exists exactly as long as the tree or a variable refers to it (once constructed; an object whose construction fails is gone and changes nothing), the library's references see the object now under the name, a saved state restores the values given by its save function, and a state that cannot be restored leaves everything as it was. A call of a function by the library reaches that function of that object once with the same arguments and ends with its answer or its exception; a function the class does not define is refused. Loops of the library with Python bodies run each index once and pass on an exception.",
     ["histories", "schedules"], "all histories of operations on two keys, names and variables; all functions of the interfaces",
     "The Python tests look at a few instances once; lifetimes and failures are not tested.",
     ["include/lm/pylm.h", "src/pylm.cpp", "src/component.cpp", "src/assetgroup.cpp", "src/user.cpp"],
     [("registration, creation and release of Python classes", "include/lm/pylm.h"), ("functions dispatched to Python", "src/pylm.cpp"), ("asset tree", "src/assetgroup.cpp")],
     [("owner_ref_", "Python object of a component", "include/lm/component.h"), ("assets_", "asset tree", "src/assetgroup.cpp")],
     ["objects born and died", "values of objects by name and variable", "calls seen by Python", "results and exceptions"],
     tech="TLA+ specifications PyWorld, Dispatch and Loop (TLC): all short histories of objects and calls are model checked (MCPyWorld, MCDispatch) and replayed with the real Python module, longer ones are sampled; TLC validates each recorded trace (PyWorldTrace, DispatchTrace, LoopTrace)",
     note="textures as the kind of component for histories, 12 interfaces for calls (functions whose argument types Python can make); memory of the C++ part of a released object is not observed")
