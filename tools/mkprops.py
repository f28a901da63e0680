"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every traced event is recorded exactly once under its own throw",
 "When `pvtrace-cli simulate` finishes with OK, its database holds exactly the events that the workers traced (only the end-ray events with --end-rays): each once, with its own ray state, event kind and metadata, in the order in which that ray's history happened. Events of one thrown ray share one throw id, different thrown rays never share one, the throw ids are 0..N-1 for N thrown rays, and the progress bar ends at exactly N and never passes it. This holds for every number of workers (default, one, more than rays, ...), every way the rays split between them, and every interleaving of workers, recorder and main thread.",
 ["schedules", "configurations"],
 "all interleavings of worker processes, queue, recorder thread and main thread; all assignments of tasks to pool processes; all ray/worker/end-rays/render settings",
 "tests/test_cli.py style runs sample whichever interleaving the machine gives, with one or two workers, and only look at counts; the failing schedules (one pool process taking two tasks, empty-queue windows, bursts past the queue bound) are never forced",
 ["pvtrace/scene/scene.py", "pvtrace/cli/main.py", "pvtrace/data/schema.sql"],
 [("worker tags each event and puts it on a bounded managed queue", "pvtrace/scene/scene.py:do_simulation_add_to_queue"),
  ("recorder thread drains the queue and writes rows", "pvtrace/cli/main.py:monitor_queue"),
  ("shutdown handshake (queue empty, stop flag, join)", "pvtrace/cli/main.py:simulate")],
 [("global_ids", "map from (worker, index) to throw id", "pvtrace/cli/main.py:monitor_queue")],
 ["rows of tables ray and event in the produced .sqlite3", "progress bar updates"])

prop("C02", "A crash never leaves a torn or misleading results database",
 "If `pvtrace-cli simulate` is killed, or the machine loses power, at any instant, the results database still opens and passes an integrity check, and it holds a gap-free prefix of what was being recorded: every ray row has exactly one event row and the reverse, and what is there equals what the workers sent, in order. Events already committed when a process is killed stay; running the same command again with --overwrite then gives a complete fresh database; and once OK is printed a kill loses nothing.",
 ["crash_points", "fault_sequences"],
 "every system call on the database and its journal as crash point, with every subset of not-yet-synced writes lost or torn on power loss",
 "no test kills the command; the property ranges over all crash points and all lost or torn unsynced writes",
 ["pvtrace/cli/main.py", "pvtrace/data/schema.sql"],
 [("one transaction per ray+event pair", "pvtrace/cli/main.py:monitor_queue"),
  ("database created before the run starts, old file removed on overwrite", "pvtrace/cli/main.py:simulate")],
 [], ["the database file and journal as left on disk, reopened by sqlite"])

prop("C03", "The simulate command always ends and never claims success after a loss",
 "Whatever goes wrong while `pvtrace-cli simulate` runs (a worker raises or is killed, the queue's manager process dies, the database is locked, read-only, full or gives I/O errors, the live view fails, the user interrupts), the command ends in bounded time instead of hanging, and it reports failure (an exception or non-zero exit, no OK) whenever any traced event is missing from the database. If no fault happens it ends with OK.",
 ["fault_sequences", "schedules"],
 "all single and double faults at every operation of the recorder, the workers, the queue and the disk, under all interleavings",
 "the tests inject no fault at all; liveness ranges over all fault positions and schedules",
 ["pvtrace/cli/main.py", "pvtrace/scene/scene.py"],
 [("error propagation from the recorder thread to the command", "pvtrace/cli/main.py:simulate"),
  ("error propagation from worker processes", "pvtrace/scene/scene.py:Scene.simulate")],
 [], ["return/exception of the command", "printed OK", "database rows", "virtual time"])

prop("C04", "Multi-process tracing yields N complete independent histories or fails",
 "`Scene.simulate(n, workers=w)` without a queue returns exactly n complete ray histories whatever n and w are, in whatever order and on whichever pool processes the tasks run; the workers' random streams differ from each other, and fixing the caller's NumPy seed makes the result a function of that seed alone. If a worker fails or is killed the call raises instead of hanging or returning fewer histories.",
 ["schedules", "fault_sequences", "configurations"],
 "all n and w, all assignments of tasks to processes and completion orders, worker failures at any event",
 "tests call simulate with a handful of sizes on real processes; they neither control which process runs which task nor kill workers",
 ["pvtrace/scene/scene.py"],
 [("splitting, seeding and gathering", "pvtrace/scene/scene.py:Scene.simulate"), ("per-task reseed", "pvtrace/scene/scene.py:do_simulation")],
 [], ["returned list of histories", "exception"])

prop("C05", "Analysis commands report exactly what the recorded events imply",
 "`pvtrace-cli count|spectrum|time` run against a results database, during the simulation or after it, reports exactly the rays a direct reading of the recorded events gives for that question (reflected, entering, escaping, lost, reacted, killed; with normal, facet and source filters), each ray counted once, for a consistent snapshot that only grows. Count, spectrum and time agree on which rays they cover, a query that matches nothing yields an empty answer instead of an error, and a database recorded with --end-rays gives the same answers as a full recording of the same rays.",
 ["schedules", "histories", "inputs"],
 "all interleavings of analysis commands with a running recorder, all event histories, all filters",
 "tests query one finished database with fixed expectations; nothing runs a query while rows arrive, nor compares the commands with each other or with a reference over arbitrary histories",
 ["pvtrace/cli/db.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", "pvtrace/scene/scene.py"],
 [("query builders", "pvtrace/cli/db.py"), ("end ray classification", "pvtrace/scene/scene.py:is_end_ray")],
 [], ["stdout and output files of the analysis commands"])

prop("C06", "Engine results do not depend on threads or their interleaving",
 "For a given scene, starting rays and seed, the compiled engine gives identical histories, rays, fates, recorder counts, spectra and irradiance maps (sums up to floating-point summation order) for every number of threads and every interleaving of them. No ray is lost, duplicated or filed under another ray, and threads never write into each other's results.",
 ["schedules", "configurations"],
 "all interleavings at memory-access granularity of all thread counts, all scenes and bundle sizes",
 "the tests compare one and two threads on the interleavings the machine happens to give; lost updates need a particular preemption",
 ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py"],
 [("per-ray random streams seeded from seed and index", "pvtrace/engine/_kernel.pyx"), ("per-thread accumulators merged after the loop", "pvtrace/engine/_kernel.pyx")],
 [], ["EngineResult arrays, histories and recorder results"])

prop("C07", "Engine recorders count every ray event, sampled or not",
 "A recorder's count, rays, spectrum and maps equal what one obtains by applying the recorder's definition (node, facet or volume, event kind, source or wavelength conditions, bins) to the complete event histories of all rays of the run, provided no history exceeds the event budget. They do not change when only every k-th history is kept, when no history is kept, or when other recorders are added or removed.",
 ["inputs", "histories", "configurations"],
 "all scenes, recorder sets, event sequences and history sampling settings, under all thread interleavings",
 "tests cover a few recorders on fixed scenes with all histories kept",
 ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/tally.py", "pvtrace/engine/recorder.py", "pvtrace/engine/api.py"],
 [("tallying inside the trace loop", "pvtrace/engine/_kernel.pyx"), ("recorder compilation", "pvtrace/engine/compiler.py")],
 [], ["RecorderResult of simulate and simulate_stream"])

prop("C08", "A streamed engine run is the same run in instalments",
 "Running n rays as a stream of bundles of any size gives, once all bundles are taken, the same histories, fates and recorder totals as one run of these n starting rays with the same seed, the rays taking the scene's lights in turn throughout. The cumulative recorder results after k bundles equal those of the rays so far, each earlier result stays unchanged when later bundles arrive, and stopping early or pausing the consumer changes nothing already delivered.",
 ["configurations", "histories", "schedules"],
 "all n, bundle sizes, light counts, seeds, stop points and interleavings of consumer and other engine runs",
 "tests stream one scene with one light and a bundle size that divides evenly",
 ["pvtrace/engine/api.py", "pvtrace/engine/emit.py"],
 [("bundle loop, per-bundle ray offset, cumulative results", "pvtrace/engine/api.py:simulate_stream"), ("vectorised emission", "pvtrace/engine/emit.py:emit_bundle")],
 [], ["sequence of stream results against simulate()"])

prop("C09", "Studio runs never mix: one run at a time per connection, cleanly stopped",
 "On a studio connection the messages of different runs never interleave: after a run's started message come only its own bundles, with numbers and totals increasing in order, until its single end message; a run started later is reported only after that. A stop is honoured within one further bundle and never cancels or delays a run requested after it, and runs on other connections are not affected.",
 ["schedules", "histories"],
 "all timings of run, stop, run-again and disconnect requests against bundle computation, on any number of connections",
 "the studio tests run one client that waits for each answer; races between stop, run and bundle completion never occur in them",
 ["pvtrace/studio/server.py"],
 [("websocket message loop and run task", "pvtrace/studio/server.py:create_app"), ("executor hand-off per bundle", "pvtrace/studio/server.py")],
 [("stop flag", "asks the run to end", "pvtrace/studio/server.py")], ["messages received by each websocket client"])

prop("C10", "A studio run reports on the document it started with",
 "Every bundle of a studio run describes the document version that was current when the run started: rays, recorder list and tallies are those that an undisturbed engine run of that version gives for the rays so far, even while the document is edited, replaced or fails to validate during the run. The totals after the last bundle cover exactly the requested number of rays.",
 ["schedules", "histories"],
 "all interleavings of edits, uploads and runs by several clients with bundle computation",
 "tests never edit the document while a run is in progress",
 ["pvtrace/studio/server.py", "pvtrace/engine/api.py"],
 [("scene captured by the run", "pvtrace/studio/server.py"), ("document apply replaces the scene", "pvtrace/studio/server.py:Studio.apply")],
 [], ["bundle messages compared with an undisturbed run of the same version"])

prop("C11", "Document edits are atomic: applied as asked or not at all",
 "Whatever sequence of document replacements, patches, uploads and saves clients send, in any interleaving, the studio's document text, parsed scene and scene payload always describe one and the same version, equal to applying the accepted edits one after another to the starting document. A rejected edit, for any reason including a failing disk, gets an error answer and changes nothing, no accepted edit is lost, valid edits are accepted, an uploaded file can be used by its name, and edits leave no temporary files behind.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences and interleavings of valid and invalid edits with disk faults at any write",
 "tests apply single edits to a good document and look at one answer at a time",
 ["pvtrace/studio/server.py", "pvtrace/cli/parse.py"],
 [("parse into a candidate, then swap", "pvtrace/studio/server.py:Studio.apply"), ("patch operations", "pvtrace/studio/server.py:_patch")],
 [], ["GET document, patch and put answers, files in the document folder"])

prop("C12", "Saving and uploading replace files all-or-nothing",
 "If studio crashes, the machine loses power, or the disk fills up or errors while a document is saved or a spectrum or mesh uploaded, the file on disk is afterwards either the complete previous content or the complete new content. Once a save or upload has been answered as successful the new content survives a crash, and a failed one is answered as failed and leaves the previous file intact and no stray files (only if nothing but making the rename itself durable failed may the new content already be in place; after a crash a hidden temporary file may remain).",
 ["crash_points", "fault_sequences"],
 "every system call of a save or upload as crash or error point, with any subset of unsynced writes lost or torn",
 "no test crashes or fills the disk",
 ["pvtrace/studio/server.py"],
 [("file replacement", "pvtrace/studio/server.py")],
 [], ["files in the document folder after the simulated crash or error", "HTTP status"])

prop("C13", "Every studio run ends with one answer, and faults do not outlive it",
 "Each run request on a studio connection leads to exactly one end message: done when it completed or was stopped, error with a reason when the request is malformed, the scene cannot be simulated or the engine fails. Malformed messages do not disturb a run in progress or the connection, and when a client disconnects, at any instant, its background work ends within one further bundle and other clients carry on.",
 ["fault_sequences", "schedules"],
 "all malformed requests, engine failures at any bundle, send failures and disconnects at any instant",
 "tests send well-formed requests over a connection that never breaks to an engine that never fails",
 ["pvtrace/studio/server.py"],
 [("run task and websocket handler", "pvtrace/studio/server.py:create_app")],
 [], ["messages per request", "engine bundles still computed after disconnect"])

prop("C14", "The live view shows whole single-ray histories and stays bounded",
 "While `pvtrace-cli simulate` renders to a live view, each history drawn is the exact event sequence of one thrown ray, taken from the rays selected by --render-every (and the first of each worker), never a mix of rays and never drawn twice. At no time does the view hold more than --render-max complete ray histories besides the one being drawn: older ones are removed completely, markers included, and the newest stay.",
 ["schedules", "configurations"],
 "all interleavings of workers, all numbers of rays, workers and render settings",
 "the renderer is not tested under the recorder at all",
 ["pvtrace/cli/main.py", "pvtrace/scene/renderer.py"],
 [("history sampling in the recorder thread", "pvtrace/cli/main.py:monitor_queue"), ("history deque and removal", "pvtrace/scene/renderer.py:MeshcatRenderer.add_history")],
 [], ["commands sent to the meshcat visualizer"])

prop("C15", "Every photon history is complete and physically consistent",
 "For any scene, any outcome of the random draws and any step or path limits, a ray's history is finite, starts with its generation, ends with exactly one terminal event (exit, reaction, non-radiative loss or kill) and nothing follows it. In between, distance and time never decrease and grow with the straight-line distance over the local speed of light, only absorption is followed by emission or scattering from the same component, position and wavelength stay unchanged across events that do not move or shift the photon, emitted wavelengths lie in the emission spectrum and within the limit of the emission method, directions stay unit length, each reflection or transmission lies on the surface of the node it names with a container and neighbour that match the geometry, and a ray over its limits is killed in the node where it was.",
 ["histories", "inputs"],
 "all sequences of random draws (including extreme ones) in generated scenes, all step and path limits",
 "tests follow a few rays with whatever the generator gives and check single quantities",
 ["pvtrace/algorithm/photon_tracer.py", "pvtrace/scene/scene.py", "pvtrace/material/material.py", "pvtrace/material/component.py", "pvtrace/material/surface.py", "pvtrace/light/ray.py"],
 [("trace loop", "pvtrace/algorithm/photon_tracer.py:step_forward")],
 [], ["histories of photon_tracer.step_forward/follow and Scene.simulate"])

prop("C16", "The compiled engine follows the same physics as the Python tracer",
 "Given the same scene, the same starting rays and the same random outcomes, the compiled engine and the Python tracer take the same decisions: event for event the same kind, node, container, neighbour, component and normal, with positions, directions, wavelengths, travelled distances and times equal to rounding error, and the same emitted starting rays. A scene the engine cannot represent is refused with an error rather than traced differently.",
 ["histories", "inputs", "programs"],
 "all scenes the engine accepts, all sequences of random draws, all emission methods and limits",
 "the engine tests compare averages over many rays with tolerances, which hide rare or small disagreements, on a few scenes",
 ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/compiler.py", "pvtrace/engine/emit.py", "pvtrace/algorithm/photon_tracer.py"],
 [("scene compiler", "pvtrace/engine/compiler.py"), ("trace kernel", "pvtrace/engine/_kernel.pyx")],
 [], ["EngineResult histories against photon_tracer histories"])

prop("C17", "LSC bookkeeping accounts for every thrown ray, across repeats and faults",
 "After any sequence of LSC simulate, show and report calls, counts(), spectrum() and summary() equal what is obtained directly from the rays traced: every ray of every call that returned is booked exactly once with where and how it first met something and where and how it was last seen before leaving, being absorbed or being given up; a call that fails or is interrupted part-way books nothing and the reports remain those of the earlier calls; reports read after a call include it. Rays start as their light was placed and aimed, the lights taking turns; they meet a solar cell without reflection or deflection and never pass a mirror; each facet is reported under the name of the side it is on.",
 ["histories", "fault_sequences"],
 "all sequences of simulate, interrupt and report calls, all devices and ray outcomes",
 "the only tests of the device are skipped; they simulate once and compare three fractions with a tolerance",
 ["pvtrace/device/lsc.py"],
 [("entrance/exit store and counts", "pvtrace/device/lsc.py:LSC.simulate")],
 [], ["LSC.simulate results, counts() and spectrum()"])

prop("C18", "Geometry queries are exact for every ray and shape",
 "Intersections, normals, containment and surface tests of boxes, spheres, cylinders and meshes agree with the exact geometry for every ray and every placement in the scene graph, and coordinate conversions between nodes are inverse to each other.",
 ["inputs"], "all shapes, rays and transforms",
 "tests use a handful of axis-aligned cases",
 ["pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/mesh.py", "pvtrace/geometry/utils.py", "pvtrace/scene/node.py"],
 [("intersection routines", "pvtrace/geometry")])
prop("C19", "Distributions sample what they are given",
 "For every tabulated spectrum, sampling by cumulative probability and looking up a value are inverse to each other, stay inside the tabulated range, and reproduce the table's shape.",
 ["inputs"], "all tables and probabilities", "tests use a few tables",
 ["pvtrace/material/distribution.py"], [("cumulative inversion", "pvtrace/material/distribution.py")])
prop("C20", "Interface optics conserve energy",
 "For all angles and refractive indices reflectivity lies in [0, 1], total internal reflection starts exactly at the critical angle, and reflected and refracted directions obey the law of reflection and Snell's law.",
 ["inputs"], "all angles and index pairs", "tests use a few angles",
 ["pvtrace/material/utils.py", "pvtrace/material/surface.py"], [("Fresnel formulae", "pvtrace/material/utils.py")])
prop("C21", "A scene file means the same as the scene built in Python",
 "Every scene file the schema accepts parses into exactly the scene graph it describes (geometry, placement, materials, surfaces, lights and their distributions), and files the schema rejects are refused with an error that names the problem.",
 ["programs"], "all scene files", "tests parse a few example files",
 ["pvtrace/cli/parse.py", "pvtrace/cli/pvtrace-schema-scene-spec.json"], [("parser", "pvtrace/cli/parse.py")])

prop("C22", "The studio page shows one version and its own run, whatever the network does",
 "After any actions of the user on the studio page and any delay, reordering or loss of its requests, their answers or its connection, once everything has been answered the editor text, the 3D view, the lists and the inspector all show the server's current document, and that document is what the user's accepted edits give when made one after another in the order the user made them: no edit is dropped, made twice or made out of order, and none undoes an earlier one it does not concern. A request that is refused, fails or gets no answer is reported on the page and leaves it showing the document. Progress, ray paths, statistics, plots, bin readouts and face heatmaps show exactly what the messages of the latest started run said; an edit accepted in reactive mode asks for a run. The page shows when it has lost the server, comes back by itself and can run again. No exception leaves the page's code. (The page is the only editor of its document; text typed and not yet applied may be replaced as a whole by the text of a later accepted edit; an edit whose answer was lost may stay unseen until the next accepted one.)",
 ["schedules", "fault_sequences", "histories"],
 "all sequences of user actions, all delays, losses and reorderings of requests, answers and socket messages, connection losses at any point",
 "the page has no tests; its races need particular orders of user actions, answers and messages",
 ["pvtrace/studio/static/app.js", "pvtrace/studio/static/index.html", "pvtrace/studio/server.py"],
 [("edits and answers", "pvtrace/studio/static/app.js:patch"), ("document loading and applying", "pvtrace/studio/static/app.js:applyDocument"), ("run messages", "pvtrace/studio/static/app.js:connect"), ("heatmaps and plots", "pvtrace/studio/static/app.js:refreshHeatmaps")],
 [], ["the studio page in the browser and its requests to the server"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fp:
    for p in P:
        fp.write(json.dumps(p) + "\n")
