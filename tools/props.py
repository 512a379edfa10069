import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/arc_utilities/"; S="src/arc_utilities/"

p("C01","An acknowledged compressed save reads back identically",
"When saving a byte buffer with the compressed-file writer returns without an exception, loading that path afterwards returns exactly the bytes that were saved, whatever was at that path before. If the storage refused, shortened or lost any part of the data while it was being opened, written, flushed or closed, the save raises an exception instead of returning normally.",
["fault_sequences","inputs","histories"],"every buffer, every sequence of earlier saves to the same paths, and every placement of open/write/close failures, short writes, interrupted calls and full disks inside a save",
"No existing test touches the file writer; the failures that matter (a write error that only surfaces when buffered data is flushed or the file is closed) need a disk that fails on demand.",
[S+"zlib_helpers.cpp"],[("stream state checked after write and close","zlib_helpers.cpp CompressAndWriteToFile"),("zlib framing with checksum","zlib_helpers.cpp CompressBytes")],["CompressAndWriteToFile return/throw","LoadFromFileAndDecompress result"])
p("C02","A damaged, torn or half-written compressed file is never misread",
"Loading a compressed file that was truncated, torn by a crash in the middle of a save, bit-flipped at rest, hit by read errors, or is being overwritten by another writer at the same time either returns exactly the bytes of one save to that path or raises an exception. It never returns other bytes, and never hangs or crashes the process; the same holds for decompressing a damaged in-memory buffer.",
["crash_points","fault_sequences","schedules","inputs"],"every crash point inside a save, every truncation length, single stored-bit flip and read fault, every interleaving of one writer with one reader",
"There is no test of loading at all, and no test can place a crash or a concurrent overwrite between two system calls.",
[S+"zlib_helpers.cpp"],[("stream end and checksum required before data is returned","zlib_helpers.cpp DecompressBytes"),("short read detected","zlib_helpers.cpp LoadFromFileAndDecompress")],["LoadFromFileAndDecompress","DecompressBytes"])
p("C03","Saves too large for one file round-trip through numbered parts",
"A buffer larger than a single compressed file can hold is saved as consecutively numbered part files and loads back as exactly the saved bytes, in order, regardless of which larger or smaller saves were made to the same path before. A failure while writing any part makes the save raise an exception, and an error in any part that exists makes the load raise an exception rather than return data with that part missing, truncated or altered. After a save that failed or was cut short by a crash, the path loads as exactly one of the buffers saved there or raises an exception, never as a mixture.",
["histories","fault_sequences","inputs"],"every history of saves of different sizes to one path and every single-part I/O failure or damage",
"The part size is 4 GiB, so no test has ever run this path; leftovers from earlier saves need a history, not a sample.",
[S+"zlib_helpers.cpp"],[("recursive per-part save","zlib_helpers.cpp CompressAndWriteToFile"),("part enumeration until the first missing index","zlib_helpers.cpp LoadFromFileAndDecompress")],["CompressAndWriteToFile","LoadFromFileAndDecompress"],hook="part size: 4 GiB in production; overridden in simulation")
p("C04","Measured durations equal elapsed monotonic time",
"Every duration returned by a stopwatch or recorded by the profiler equals the monotonic time that passed since that particular stopwatch or named timer was last started or reset, to within floating-point rounding. Wall-clock jumps, other timers, recording, and reports never change it; reading or recording does not restart a timer, while starting or resetting one again does, at that instant and for that timer only.",
["histories","schedules"],"every sequence of start/read/record/reset operations on many timers, with arbitrary delays between clock reads and arbitrary forward and backward wall-clock jumps",
"Existing timing tests sleep on the real clock with loose bounds and can neither jump the wall clock nor check exact values.",
[I+"timing.hpp",S+"timing.cpp"],[("steady clock difference","timing.hpp Stopwatch::operator()"),("one stopwatch per name","timing.cpp Profiler::startTimer/record")],["Stopwatch()","GlobalStopwatch","Profiler::record","Profiler::recordDouble","Profiler::getData"])
p("C05","Profiler history and reports are complete and survive bad disks",
"For every name the profiler returns exactly the samples recorded for it since it was last cleared, in order, and recording a timer that was never started raises an error and changes nothing. A report appended to a file that stores data without errors contains every requested name with its exact call count and totals (or, for full dumps, every sample of every name under the limit) after the previous content, which is preserved. A disk that refuses or fails the report never crashes the program and never changes the recorded data.",
["histories","fault_sequences"],"every sequence of profiler operations and reports with every placement of open, write and close failures",
"The existing tests only check that writing a report runs; they never read one back and never see a failing disk.",
[S+"timing.cpp",I+"timing.hpp"],[("append-only report file","timing.cpp writeGroupSummary/writeAll"),("per-name sample vectors","timing.cpp addData/getData")],["Profiler::getData","report file content"])
p("C06","Concurrent log messages are whole lines, each exactly once",
"Messages logged to one logger by any number of threads appear in the log file each exactly once, as one complete line with unmodified text, and messages of any one thread appear in the order that thread logged them. A message whose logging call returned before another call started is written before it. This holds for every thread interleaving.",
["schedules"],"every interleaving of several threads logging to one logger",
"No test constructs a logger, and a data race on the stream only shows under particular preemptions.",
[I+"log.hpp"],[("mutex around the stream","log.hpp Log::logMessage")],["log file content"])
p("C07","Logged messages survive crashes, copies and moves of the logger",
"Once a logging call has returned on a healthy disk, its line is in the file even if the process is killed at any later instant, and a killed process leaves whole earlier lines followed by at most one partial line. Copying, copy-assigning, moving or move-assigning loggers loses no line already logged, never truncates the file, and the new owner appends to the same file as its source; opening a new logger starts an empty file (plus the date line when a header is requested) and raises an exception when the file cannot be opened.",
["crash_points","histories","fault_sequences"],"every sequence of construct/copy/move/assign/log operations on several loggers and files, with a process kill or an open/write failure at any system call",
"No test exercises copying or moving loggers, and none can kill the process between two calls.",
[I+"log.hpp"],[("flush per message","log.hpp Log::logMessage"),("append-mode reopen","log.hpp copy/move operations"),("truncate on construction","log.hpp Log::Log")],["log file content at the crash point"])
p("C08","Creating a directory succeeds despite races or says so",
"When creating a directory (with missing parents) returns normally, the directory exists; when it does not exist at the end because the file system refused, an exception is raised. Another process creating or having created the same directory or any parent at any moment in between never makes it fail, and it never removes or alters anything that already existed.",
["schedules","fault_sequences"],"every interleaving with other creators of the same path and every placement of mkdir/stat failures",
"No test calls it; the race window between the existence check and the creation is invisible to sequential tests.",
[I+"filesystem.hpp",I+"log.hpp"],[("check, create recursively, re-check","filesystem.hpp CreateDirectory")],["CreateDirectory return/throw","resulting directory tree"])
p("C09","Parallel distance matrices equal the sequential definition",
"For every dataset, team size and thread interleaving, the parallel pairwise-distance matrix of one dataset holds distance(i,j) for i<j at both (i,j) and (j,i) and zero on the diagonal, bit-identical to the sequential version. For two datasets the matrix has one row per element of the first and one column per element of the second with entry (i,j) equal to the distance between first[i] and second[j]; the squared-distance matrix of a point set is likewise independent of threading.",
["schedules","inputs","configurations"],"every thread-team size and interleaving of memory accesses, every dataset size including empty and one, and different-sized first and second datasets",
"The builds under test never enable OpenMP, and only one small example is printed, not checked.",
[I+"arc_helpers.hpp",I+"eigen_helpers.hpp"],[("disjoint writes per row/column","arc_helpers.hpp BuildDistanceMatrixParallel"),("parallel squared distances","eigen_helpers.hpp CalculateSquaredDistanceMatrix")],["returned matrix"])
p("C10","Parallel k-nearest-neighbours returns the k nearest",
"For every item set, K, team size (also one that changes between parallel regions) and interleaving, the parallel k-nearest-neighbour query returns min(K, number of items) entries with distinct valid item indices, each with its true distance, and no item left out is closer than one returned. Items at infinite distance may be left out. The multiset of returned distances equals that of the sequential query when all distances are finite.",
["schedules","inputs","configurations"],"every thread-team size, including teams that shrink or grow between regions, and every interleaving; every K and every pattern of tied distances",
"No test calls the parallel query and the test builds have OpenMP disabled.",
[I+"arc_helpers.hpp"],[("per-thread candidate lists merged after the loop","arc_helpers.hpp GetKNearestNeighborsParallel")],["returned index/distance list"])
p("C11","Parallel Hausdorff distance equals the sequential value",
"For every pair of point sets, team size (also one that changes between parallel regions) and interleaving, the directed Hausdorff distance equals the maximum over the first set of the minimum distance to the second set, and no memory outside the result is touched. Threading never changes the value.",
["schedules","inputs","configurations"],"every team size and its changes between regions, every interleaving, all set sizes including empty ones",
"Nothing tests it, and parallel mode is off in every build that is tested.",
[I+"simple_hausdorff_distance.hpp"],[("per-thread maxima reduced after the loop","simple_hausdorff_distance.hpp ComputeDistance")],["returned distance"])
p("C12","Parallel hierarchical clustering matches the sequential result",
"For every dataset, threshold and link strategy, clustering returns a partition: every input element appears in exactly one cluster, no complete-link cluster is wider than the threshold, and merging stopped only because the closest remaining pair exceeds the threshold. When all pairwise distances are distinct, the parallel build returns the same clusters and the same closest distance as the sequential algorithm for every team size (also one that changes between regions) and interleaving.",
["schedules","inputs","configurations"],"every team size and interleaving, both link strategies, thresholds below, between and above the distances, ties included for the partition part",
"The only existing program prints one random example without checking it and runs without OpenMP.",
[I+"simple_hierarchical_clustering.hpp",I+"arc_helpers.hpp"],[("per-thread minima reduced after each loop","simple_hierarchical_clustering.hpp GetClosestPair")],["returned clusters and distance"])
p("C13","Growing a roadmap keeps it consistent under any schedule",
"Extending or building a roadmap adds exactly the sampled states that pass the validity check (already-present states once, unless duplicates are requested), in sampling order, and stops as soon as the termination check asks. Each added state is linked to its K nearest earlier states whose edge is valid, in both directions and with the distance of that direction as weight (symmetric distance if so declared), also when start and goal states are added for a query; the parallel and sequential builds give the same roadmap when distances are distinct.",
["schedules","histories","inputs"],"every stream of samples, every termination point, team size and interleaving, symmetric and asymmetric distances",
"No test builds a roadmap with the planner, in parallel or otherwise.",
[I+"simple_prm_planner.hpp",I+"arc_helpers.hpp",I+"graph.hpp"],[("nearest neighbours before insertion, parallel edge checks, serial edge insertion","simple_prm_planner.hpp AddNodeToRoadmap"),("termination polled per sample","simple_prm_planner.hpp ExtendRoadMap")],["roadmap nodes and edges"])
p("C14","Refreshing roadmap edges is schedule-independent and two-sided",
"Refreshing a roadmap sets the weight of every edge to the current distance when the edge is valid and to infinity when it is not, identically in the source's outgoing and the target's incoming record, and changes nothing else, for every team size and interleaving. Path queries on a roadmap leave the caller's roadmap unchanged when they take it as read-only, and a returned path starts at a start state, ends at the goal, uses existing finite edges only, and its reported cost is the sum of its edge costs and minimal for that roadmap.",
["schedules","histories","inputs"],"every team size and interleaving, changing edge validity between refreshes, parallel edges between the same nodes",
"The refresh routine is not instantiated by any test.",
[I+"simple_prm_planner.hpp",I+"graph.hpp",I+"dijkstras.hpp"],[("linkage check then parallel per-node update","simple_prm_planner.hpp UpdateRoadMapEdges"),("working copy for read-only queries","simple_prm_planner.hpp QueryPath*")],["edge weights","query results"])
p("C15","K-means terminates with a self-consistent labelling at any clock",
"Clustering with an automatically seeded initialisation terminates and returns, for every clock reading used as seed, one label per element below the number of clusters, such that every element is labelled with a nearest centre computed from that same labelling; elements that are all different never get one label only. The averaging function only ever sees non-empty sets of the given elements; in the weighted form each element always contributes with its own weight, also in preliminary clustering of a random subset.",
["schedules","inputs"],"every value of the clock used to seed the initialisation, data sizes, cluster counts and weights; data with at least as many distinct elements as clusters",
"The seed is the real clock, so a test sees one arbitrary initialisation per run and cannot repeat it; no test exists.",
[I+"simple_kmeans_clustering.hpp"],[("clock-seeded distinct initial centres","simple_kmeans_clustering.hpp Cluster/ClusterWeighted"),("iterate until labels repeat","simple_kmeans_clustering.hpp CheckForConvergence")],["returned labels","arguments seen by the averaging function"])
p("C16","Bounded random samplers never leave their bounds",
"Every draw of the truncated normal sampler lies within its lower and upper bounds (the mean itself when the deviation is zero) and every call returns after a moderate number of generator words for every random stream, also one with extreme words in it and however narrow or far from the mean the bounds are; over many draws the empirical distribution follows the truncated normal it was constructed for. Random rotations are unit quaternions, and Euler angles stay within one turn, for every generator output; over many draws both are uniform over the rotations.",
["inputs","schedules"],"all bound/mean/deviation combinations with finite or one-sided infinite bounds (two-sided bounds on either side of the mean included) and all random word streams, with extreme words at any place",
"No test draws a sample; the failing regions need bounds far from the mean.",
[I+"arc_helpers.hpp"],[("case split on standardised bounds with accept-reject","arc_helpers.hpp TruncatedNormalDistribution"),("Shoemake quaternion construction","arc_helpers.hpp RandomRotationGenerator")],["returned samples"])
p("C17","Shortcut smoothing only takes validated shortcuts",
"For every random stream, path smoothing returns a subsequence of the input path with the same first and last state in which every pair of neighbours was either adjacent in the input path or accepted by the edge-validity check during that call; an accepted shortcut is taken. It goes on until the iteration limit or the failure limit is reached or two states are left, and no further, never lengthens the path, and leaves the input unmodified.",
["schedules","inputs"],"every random stream and every validity function, including ones whose answer changes between calls",
"No test calls the smoother.",
[I+"path_utils.hpp"],[("index clamping and replace-by-edge","path_utils.hpp ShortcutSmoothPath")],["returned path","edge checks made"])
p("C18","A graph random walk that returns is a real simple path",
"For every random stream, a random walk on a graph from a start to a reachable goal returns a node sequence that begins at the start, ends at the goal, follows existing edges only and contains no node twice. It stops as soon as the goal is reached for the first time.",
["schedules","inputs"],"every random stream and every graph in which the walk cannot get stuck",
"No test runs the random walk.",
[I+"dijkstras.hpp"],[("loop erasure","dijkstras.hpp GraphRandomWalk::PerformRandomWalk")],["returned node list"])
p("C19","Reseeding a generator restarts exactly the same stream",
"After seeding any of the library's random number generators with a value, the words it produces depend only on that value, however much was drawn or discarded before; discarding n words is the same as drawing n words; copies continue identically and independently. The words are those of the published SplitMix64, xorshift128+ and xorshift1024* generators, the latter two with their state filled by SplitMix64.",
["histories"],"every history of draw/discard/copy/reseed operations on every generator",
"No test seeds a generator twice.",
[I+"arc_helpers.hpp"],[("seed expands a splitmix stream into the state","arc_helpers.hpp *PRNG::seed")],["generated words"])
p("C20","The C++ topic listener hands out the newest message, never a stale one",
"Reading a topic listener returns the most recently delivered message (or none before the first), never a torn or older one, under every interleaving of deliveries and readers. Waiting for a new message returns only a message delivered after the wait began, returns within one polling period plus scheduling delay once one is delivered, and raises an error when ROS shuts down instead of hanging. Waiting hides no message from other readers or waiters, and a listener may be destroyed while messages arrive.",
["schedules","fault_sequences"],"every interleaving of the delivery thread with readers and waiters, dropped, delayed and duplicated messages, and shutdown at any point",
"No ROS is available to the test suite, so nothing exercises the listener.",
[I+"listener.hpp"],[("mutex around the stored message","listener.hpp callback/get"),("clear then poll","listener.hpp waitForNew")],["get","waitForNew"])
p("C21","The Python topic listener returns the latest message, isolated",
"Reading a topic listener returns a value equal to the most recent message delivered, or nothing if none has been delivered and blocking is off; a blocking read returns only once a message exists or ROS is shutting down. Returned messages are independent copies: changing one affects neither later reads nor other readers; and the optional callback is invoked exactly once per delivered message, in delivery order, starting from the very first message, however early it arrives.",
["schedules","fault_sequences"],"every interleaving of message delivery (also during construction) with readers, and shutdown at any point",
"The listener needs ROS, which the tests do not have; delivery during construction is a race window.",
[S+"listener.py"],[("lock and deep copy","listener.py Listener.get"),("subscription in the constructor","listener.py Listener.__init__")],["get result","callback invocations"])
p("C22","Waiting returns exactly when the condition holds or ROS stops",
"Waiting for a condition returns only after the condition evaluated true or ROS was shut down, and returns within one polling interval (plus the condition's own run time) of either happening, never earlier and never hanging. While it keeps waiting it warns after the configured delay, not before, never when warnings are disabled, and throttled; exceptions of the condition propagate.",
["schedules","fault_sequences"],"every time at which the condition turns true, shutdown happens or the clock jumps relative to the polls",
"The helper needs ROS and real time; tests cannot steer either.",
[S+"ros_helpers.py"],[("poll loop with shutdown check and warning","ros_helpers.py wait_for")],["return time","warnings logged"])
p("C23","Starting a managed transform returns only once it is visible",
"Starting to send a managed transform returns only after that exact transform has been received back through the transform tree for its frames, and keeps re-sending it (as the static or dynamic transform asked for, about ten times a second, with fresh time stamps) until it is stopped. However many transform messages are lost, delayed, duplicated or reordered, it returns within a bounded time once messages get through again.",
["fault_sequences","schedules"],"every pattern of loss, delay, duplication and reordering on the transform topic and every thread interleaving, including transforms published earlier for the same frames",
"The existing tests of this class need a ROS master and are not run; real networks cannot be made to lose chosen messages.",
[S+"reliable_tf.py",S+"tf2wrapper.py"],[("sender thread per frame pair","reliable_tf.py start_send/send_at_rate"),("block until the received transform is close","reliable_tf.py start_send")],["transforms published","lookup result at return"])
p("C24","Stopping or replacing a managed transform leaves no sender behind",
"After stopping a managed transform (or closing the manager, or after its destruction) returns, nothing further is published for those frames and its thread has ended; stopping an unknown pair is harmless and other managed transforms keep being sent. Starting again for the same frames replaces the old transform: from then on only the new one is published. Once ROS shuts down every sender ends by itself.",
["schedules","histories"],"every history of start/stop/replace/close operations and every interleaving with the sender threads",
"Needs ROS and thread schedules that tests cannot control.",
[S+"reliable_tf.py"],[("exit event and join","reliable_tf.py stop_send/close")],["messages published after return","live threads"])
p("C25","A transform lookup waits for data, and ends on shutdown",
"A transform lookup blocks until the transform between the two frames is available and then returns its matrix; it raises an interrupt if ROS shuts down while the transform is unavailable, and returns nothing (rather than raising) when the transform library reports a lookup, connectivity or extrapolation failure. It never returns a matrix that was not the transform of those frames at the time of the lookup.",
["schedules","fault_sequences"],"every arrival time, loss pattern, frame-tree change and shutdown point relative to the polls",
"Needs a transform network that can be delayed and cut at chosen instants.",
[S+"tf2wrapper.py"],[("poll with timeout and shutdown check","tf2wrapper.py get_transform_msg"),("exceptions mapped to None","tf2wrapper.py get_transform")],["get_transform result"])
p("C62","An object is moved into a frame by the transform of its own time",
"Transforming a stamped point, vector or pose into a frame returns the same thing expressed in that frame, by the transform between the two frames at the object's own time stamp (the newest one for stamp zero), marked with the target frame and that stamp, in the type asked for; the object handed in is not changed. It waits for that transform no longer than the timeout given, not at all if none is given, and succeeds if the transform arrives in that time. If it is still missing then the transform library's error is raised: never another transform, an untransformed object or nothing.",
["schedules","fault_sequences"],"every arrival time of every transform relative to the call and its deadline, lost and late messages, library failures, shutdown, and threads transforming at once",
"Needs a transform network that can be delayed and cut at chosen instants; no test transforms anything.",
[S+"tf2wrapper.py"],[("hand-over of object, frame, timeout and type","tf2wrapper.py transform_to_frame")],["returned object","raised error"])
p("C26","Published transforms carry what was asked, and static ones persist",
"Every transform sent through the wrapper, in matrix, pose or translation/quaternion form, is published once with the given parent and child frames, the given or current time stamp and an equal rigid motion. After any sequence of static sends a subscriber that joins late and receives only the last static broadcast knows the most recent static transform of every child sent so far, and nothing is mixed between static and dynamic transforms.",
["histories","fault_sequences"],"every sequence of static and dynamic sends for repeated and different frames, with late-joining and message-losing subscribers",
"Static transforms are only visible to late subscribers; nothing tests them without ROS.",
[S+"tf2wrapper.py",S+"transformation_helper.py"],[("accumulated static list re-sent as a whole","tf2wrapper.py send_transform*")],["published messages","late subscriber's view"])
p("C27","A timed call ends by its deadline with exactly one outcome",
"A call run under a timeout gives exactly one of: its own result with 'not timed out', its own exception, or no result with 'timed out', and 'timed out' is reported only if the deadline elapsed before the call completed. No timeout error escapes to the caller, the alarm is off once it returns or raises, so it can never interrupt later code, and a call that exceeds its deadline is interrupted at the deadline.",
["schedules","crash_points"],"every instant at which the alarm can be delivered relative to the call's completion, including between its return and the alarm being switched off, and calls that return, raise or never finish",
"Real alarms cannot be aimed at a particular instruction; the existing tests that use it need ROS.",
[S+"catches.py"],[("alarm set, cleared in finally, outer handler","catches.py catch_timeout")],["return value/exception","pending alarms afterwards"])
p("C28","Time-limited generators lose, repeat and invent nothing",
"With retry-on-timeout, the items produced are the items of successive fresh runs of the generator, each run abandoned exactly at an item that exceeded its time limit and the last run complete, with the timeout callback invoked once per abandoned run and before any item of the next run. With skip-on-timeout the items produced are exactly those that the one run of the generator delivers within the limit, in order, until it ends (a generator that does not handle being interrupted ends with that). Time the consumer spends between items never counts against the limit, and exceptions of the generator propagate.",
["schedules","fault_sequences"],"every pattern of slow items, alarm delivery instants and consumer delays",
"Nothing tests these helpers, and real slow items would make tests take minutes.",
[S+"catches.py"],[("per-item timed next","catches.py retry_on_timeout/skip_on_timeout")],["items yielded","callback invocations"])
p("C29","ROS nodes opened by the context are always shut down, once",
"Code run inside the ROS context or the decorator runs only after both the C++ and the Python node were initialised with the expected names (the C++ node is the name prefixed with cpp_), and both are shut down exactly once afterwards, whether the code returns, raises or is interrupted. A node that was started is also shut down when initialising the other one, or shutting it down, fails or is interrupted. The decorated function's arguments, result and exceptions pass through unchanged.",
["fault_sequences","crash_points"],"every point at which initialisation, the wrapped code or an interrupt raises",
"Needs ROS; failures inside initialisation or the body are never exercised.",
[S+"ros_init.py"],[("context manager exit","ros_init.py RosContext.__exit__"),("decorator","ros_init.py with_ros")],["sequence of init/shutdown calls"])
p("C30","Connection helpers report connected only when it is true",
"Getting a connected publisher returns a publisher only if at the last check it had a connection for every subscriber the master listed for the topic it publishes on (under the resolved, possibly remapped name), and otherwise raises an error; waiting for publishers to connect returns silently only if every publisher had a subscriber, and otherwise raises or warns, as asked, naming exactly the unconnected ones. Both keep checking for at least a fifth of a second and finish within a bounded number of checks, and succeed whenever the connections are established before the checks run out.",
["schedules","fault_sequences"],"every order and delay in which subscribers connect, disconnect and appear on the master",
"The existing tests need a ROS master and only see an immediately connected and a never connected topic.",
[S+"ros_helpers.py"],[("bounded connection polling","ros_helpers.py get_connected_publisher/try_to_connect")],["return/raise/warn","connection state at that moment"])
p("C31","Chosen output paths never clobber existing files or directories",
"The path chosen to avoid overwriting had no directory entry of any kind (also no symbolic link to nothing) when it was chosen, lies in the same directory, has a name derived from the wanted one with all its extensions, and is the wanted path itself when that is free. Preparing an output directory reports success only if the directory exists then, never alters an existing one, creates parents only when told to, and reuses an existing one, or one somebody else made meanwhile, only after consent; every other ending is a refusal or an exception.",
["schedules","fault_sequences","inputs"],"every set of existing names and every interleaving with other processes creating or deleting entries, and every user answer including end of input",
"The one existing test checks a single fixed name pattern in a quiet directory.",
[S+"filesystem_utils.py"],[("probe successive numbered names","filesystem_utils.py no_overwrite_path"),("exists check, prompt, exclusive mkdir","filesystem_utils.py mkdir_and_ask")],["returned path","directory state","return value"])
p("C32","Removing a tree removes that tree and nothing outside it",
"Removing a directory tree deletes the directory and everything inside it and never deletes or changes anything outside it: symbolic links inside the tree are removed themselves and their targets are left alone. If something cannot be removed an exception is raised, the tree's root is left in place, and nothing outside was touched.",
["inputs","schedules","fault_sequences"],"every tree shape including symbolic links to files, directories, ancestors and nothing, other file types, and other processes adding or removing entries or the file system refusing an operation at any point",
"No test removes a tree.",
[S+"filesystem_utils.py"],[("recursive unlink","filesystem_utils.py rm_tree")],["file system before and after"])
p("C33","Clean-up tools delete only confirmed directories below the limit",
"The clean-up scripts offer for deletion exactly the directories directly inside the given roots that were below the size or file-count limit when they were measured (a symbolic link counts as one file and is neither followed nor offered; a directory that cannot be read completely is not offered), and delete exactly the offered ones, only after an affirmative answer; any other answer, end of input or interrupt deletes nothing. Directories at or above the limit and plain files are never deleted.",
["inputs","fault_sequences","schedules"],"every directory layout, limit and user answer, with other processes changing the tree and I/O errors while it is being measured",
"No test runs the scripts.",
[S+"filesystem_utils.py","scripts/remove_small_directories.py","scripts/remove_directories_with_few_files.py",S+"conversions.py"],[("measure, list, ask, delete","scripts and filesystem_utils.py ask_to_remove_directories"),("size parsing","conversions.py parse_file_size")],["prompted list","file system before and after"])
p("C34","Waiting for a controller button ends with a press",
"Waiting for a controller button returns only when the newest controller message received shows that button or axis away from zero, or ROS is shutting down, and returns within one polling interval of such a message becoming the newest. Every state read comes from one single message, with each field carrying that message's own button or axis.",
["schedules","fault_sequences"],"every interleaving of controller messages (lost, delayed, bursts) with the polls and shutdown at any point",
"Needs ROS and a controller.",
[S+"xbox.py",S+"ros_helpers.py",S+"listener.py"],[("poll the latest message","xbox.py wait_for_button"),("field mapping","ros_helpers.py joy_to_xbox")],["return time","state fields"])
p("C35","Guarded calls swallow errors only when asked, never interrupts",
"With catching enabled, a guarded call returns the function's result, or the substitute value if the function raised an ordinary error at any point; with catching disabled every exception propagates unchanged. Interrupts and exit requests always propagate, the function is run exactly once with the given arguments, and nothing else is altered.",
["fault_sequences","crash_points"],"every point inside the function at which an error, allocation failure, interrupt or exit request strikes",
"The three existing tests cover one exception type at one point.",
[S+"conditional_try.py"],[("except Exception","conditional_try.py conditional_try")],["return/raise","calls made"])
p("C36","Console helpers restore the terminal and leak nothing",
"Reading a single key returns the next input byte (or end-of-file) exactly once, consumes only that byte, and leaves the terminal mode as it was found, whatever the input does. Waiting for input returns the line typed without its newline, and checking for a debugger answers from the process status even with short or interrupted reads and leaves no descriptor open however often it is called.",
["fault_sequences","histories"],"every split of the input into reads, interrupted, failing and end-of-file reads, and any number of repeated calls",
"No test uses the console helpers; failing terminals and thousands of repetitions are outside unit tests.",
[I+"arc_helpers.hpp"],[("disable and restore canonical mode","arc_helpers.hpp GetChar"),("status parsing","arc_helpers.hpp IsDebuggerPresent")],["terminal attributes","bytes consumed","open descriptors"])
p("C37","Time-stamp strings name one real instant; sleeps last long enough",
"A generated time-stamp string denotes the local wall-clock instant (to the second, or second and millisecond) at which it was read, with all parts taken from the same instant, even when the clock advances or jumps between its internal steps. Sleeping lasts at least the requested time of the monotonic clock even if it is interrupted.",
["schedules","fault_sequences"],"every clock reading, including second, day and year roll-overs between two clock reads, clock jumps and interrupted sleeps",
"Tests cannot place a roll-over between two clock reads.",
[I+"arc_helpers.hpp"],[("single clock read split into fields","arc_helpers.hpp GetCurrentTimeAsStringWithMilliseconds"),("sleep_for","arc_helpers.hpp Sleep")],["returned string","simulated clock"])

p("C38","The tree planner returns only real paths and stops when told",
"Every path returned by the single-tree planner begins at the root of the tree, ends at a state the goal check accepted, and each of its steps is a link the propagation function proposed from the nearest neighbour (or from an earlier state of the same propagation); one path is returned per accepted goal (the first one for single-path planning, none if there was no goal), and every propagated state enters the tree exactly once, in order, before the next target is drawn. Each iteration is preceded by a termination check that said to go on, with a time limit no iteration begins after the limit has passed on the monotonic clock and planning does not give up earlier; goal bias is the fraction of targets that are goals, and statistics and callbacks report exactly what happened. A tree kept or saved from an earlier call resumes where it stopped; empty trees, states never filled in, broken links and propagated states that name themselves or later states as parent are refused with std::invalid_argument; exceptions of the user's functions reach the caller.",
["schedules","inputs","histories","fault_sequences"],"every sequence of samples, neighbours, propagations and goals, every moment at which planning is told to stop or the clock passes the limit, every way the wall clock jumps, and every single damaged link in a given tree",
"The header was never compiled by any test; stopping at each possible moment and resuming needs a controlled clock and stop signal.",
[I+"simple_rrt_planner.hpp"],[("parent index arithmetic and tree growth","simple_rrt_planner.hpp SimpleHybridRRTPlanner::PlanMultiPath"),("linkage check","simple_rrt_planner.hpp CheckTreeLinkage"),("termination and goal wrappers","simple_rrt_planner.hpp SimpleHybridRRTPlanner::Plan")],["returned paths and statistics","the tree handed back","calls to the user's functions"])
p("C39","The bidirectional planner joins its two trees correctly",
"Every path returned by the bidirectional planner runs from the root of the start tree along its links to one side of an accepted connection and on from the other side along the links of the goal tree to its root; one path is returned per accepted connection (the first one for single-path planning). Connections are checked between all pairs of states present at the beginning and between every state newly propagated towards a state of the other tree and that state (callbacks name the start-tree state first); only the active tree grows, targets are taken from the whole other tree with the given probability and the active tree is exchanged with the given probability after each iteration. Stopping, resuming, refusing broken trees, statistics and exceptions are as for the single-tree planner.",
["schedules","inputs","histories","fault_sequences"],"every sequence of samples, neighbours, propagations, connections and random words, every moment at which planning is told to stop, every pair of trees from earlier calls and every single damaged link in one of them",
"The header was never compiled by any test, and which tree is active at a connection depends on the random stream.",
[I+"simple_rrt_planner.hpp"],[("goal bridges","simple_rrt_planner.hpp SimpleHybridBiRRTPlanner::PlanMultiPath"),("path extraction","simple_rrt_planner.hpp ExtractSolutionPath"),("active tree exchange","simple_rrt_planner.hpp SimpleHybridBiRRTPlanner::PlanMultiPath")],["returned paths and statistics","the trees handed back","calls to the user's functions"])

p("C40","A trajectory answers the same however it was asked before",
"The position and velocity a time-optimal trajectory reports for an instant depend only on the trajectory and that instant, not on which instants it was asked for before, in which order, or how often: clocks may run on, stand still, go back or jump. A copy of a trajectory answers like its source from the first question on, independently of it, also from other threads and after the source is gone; copied and assigned paths likewise keep working when their source is destroyed.",
["histories","schedules"],"every order of instants a controller's clock can produce, every moment of copying and destroying, and every interleaving of threads that each own a copy",
"Tests do not query trajectories at all; the cached segment only matters for particular orders of questions and lifetimes.",
[I+"time_optimal_trajectory_parametrization.hpp",S+"time_optimal_trajectory_parametrization.cpp"],[("cached trajectory segment","time_optimal_trajectory_parametrization.cpp Trajectory::GetTrajectorySegment"),("copying of path segments","time_optimal_trajectory_parametrization.cpp Path::Path, Path::operator=")],["returned positions and velocities","reported durations"])
p("C46","Time-warping costs do not depend on earlier or failed evaluations",
"The warping cost an evaluator returns for two sequences is the cost of their cheapest alignment: 0 for two empty sequences, infinite when exactly one is empty. It does not depend on what the same evaluator (or the one it was copied from) evaluated before, on evaluations that were ended by an exception of the distance function, on the size it was created for, or on evaluators in other threads; exceptions of the distance function reach the caller.",
["histories","fault_sequences"],"every sequence of evaluations with one evaluator, with the distance function failing at any call",
"No test; leftovers of earlier evaluations only matter for particular successions of sizes and failures.",
[I+"simple_dtw.hpp"],[("reused cost matrix","simple_dtw.hpp SimpleDTW::InitializeMatrix"),("cheapest-neighbour recursion","simple_dtw.hpp SimpleDTW::EvaluateWarpingCost")],["returned costs","exceptions"])

p("C54","A C++ node started from Python is set up exactly as asked",
"Initialising the C++ node from Python starts it under the given name, with exactly the given command line arguments and exactly the options asked for (anonymous name, no rosout, no signal handlers), whether given by position or keyword or left at their defaults, and sets the level of the logger of that name as asked; a log level other than 0 to 4 is refused before anything is changed. Once it has returned, one background thread handles all messages of the process, in order and one at a time, until ROS is shut down by the program or from outside, and then ends. When ROS refuses or fails, its error reaches the caller and no thread is left running by a node that was not running before.",
["schedules","fault_sequences","histories"],"every combination of arguments, every failure of ROS on the way, every moment of messages, of a second initialisation and of a shutdown",
"It needs a ROS master and Python; no test starts it.",
["src/roscpp_initializer.cpp"],[("options and arguments handed to ros::init","roscpp_initializer.cpp init_node"),("background spinner","roscpp_initializer.cpp init_node"),("names and defaults of the arguments","roscpp_initializer.cpp PYBIND11_MODULE")],["what ROS is initialised with","logger levels","threads that handle messages","exceptions"])
p("C55","Parameters are read as one value the server held, else defaulted",
"Asking for a parameter of any supported type, or for a vector, returns a value the parameter server held under that name at some moment during the call; only if the name was at some moment absent or not convertible to that type, or the master did not answer, it gives the default, nothing (optional) or std::invalid_argument naming the parameter and the asking function (required), as asked, and never a partially or not at all filled value. The spin loop handles the messages that arrive within its period, in order, in the calling thread, lets exceptions of callbacks through, and returns within one loop period (plus running callbacks) of ROS being shut down, not before.",
["schedules","fault_sequences","inputs"],"every moment at which other nodes set or delete the parameter, every failing answer, every type and default, and every moment of messages and shutdown",
"Needs a parameter server changed by other nodes during the call; no test reads a parameter.",
[I+"ros_helpers.hpp"],[("one request, then value or default","ros_helpers.hpp ROSHelpers::GetParam, GetVector"),("required and optional parameters","ros_helpers.hpp ROSHelpers::GetParamRequired, GetParamOptional"),("spin loop","ros_helpers.hpp ROSHelpers::Spin")],["returned values","exceptions","when the loop ends"])

p("C56","Multivariate Gaussian samples follow the mean and covariance asked for",
"Every sample of the multivariate Gaussian distribution is finite, has the dimension of the mean and lies in the mean plus the range of the covariance, also for covariances of lower rank including zero. Over many samples their mean and covariance, off-diagonal terms included, approach those asked for, and successive samples are uncorrelated, whichever generator feeds it, whatever extreme words that generator gives, and whatever other distributions draw from the same generator in between.",
["fault_sequences","inputs","histories"],"every mean and covariance of a few dimensions, of full or lower rank, every word stream with extreme words at any position and other users of the generator in between",
"No test draws from it; a wrong factor or a shared draw only shows in the joint distribution over thousands of samples, and rank-deficient covariances take a second code path.",
[I+"arc_helpers.hpp"],[("Cholesky factor of the covariance, eigenvectors when it has none","arc_helpers.hpp MultivariteGaussianDistribution::CalculateNormTransform"),("independent unit normals, scaled and shifted","arc_helpers.hpp MultivariteGaussianDistribution::Sample")],["returned samples"])

p("C57","A robot model stands exactly where it was last put",
"After every accepted change of its position or base a robot model reports exactly that position, each joint brought into its limits or wrapped, and places every link where that position and base put it, whatever positions, bases, copies and refused changes came before, in whatever order its joints are listed, and whatever threads move copies of it or read it at the same time; its inverse base transform is the inverse of its base transform and its Jacobians predict how points on its links move. A change that is refused or fails (wrong number of joints, values that are not finite, no memory) raises an exception and changes nothing, and a robot's own position can always be given back to it. A description that is not one tree of existing, uniquely named links is refused.",
["histories","schedules","fault_sequences","inputs"],"every kinematic tree and listing of its joints, every history of positions, bases, copies and refused or failing changes, and every interleaving of threads that use copies of one robot or read one robot",
"No test includes a robot model; links that depend on the previous position or half applied changes only show in a history.",
[I+"simple_linked_robot_model.hpp",I+"simple_se2_robot_model.hpp",I+"simple_se3_robot_model.hpp",I+"simple_robot_models.hpp"],
[("forward kinematics from the root outwards","simple_linked_robot_model.hpp SimpleLinkedRobot::UpdateTransforms"),("all values checked before any is taken","simple_linked_robot_model.hpp SimpleLinkedRobot::SetConfig"),("description checked on construction","simple_linked_robot_model.hpp SimpleLinkedRobot::SanityCheckRobotModel"),("pose kept with the configuration","simple_se2_robot_model.hpp SimpleSE2Robot::SetConfig")],
["GetPosition","link transforms","Jacobians","exceptions"])

p("C42","A graph holds exactly the nodes and edges that were added",
"After every sequence of added nodes and edges, changed values, weights and validities, copies, saves and loads, a graph holds exactly those nodes and edges, every edge at both of its ends, passes its own linkage check, and answers queries for nodes, edges, reverse edges and (when every edge goes both ways) connected components accordingly, also for several threads at once. An addition that is refused (unknown node, edge from a node to itself) or fails (no memory) raises an exception and changes nothing; a successful one returns the edge that was added, parallel edges included. A node list with links out of range, to the node itself, or missing at one end is refused.",
["histories","schedules","fault_sequences","inputs"],"every history of additions, changes, copies and loads, every failing allocation in it, every damaged node list and every interleaving of threads that read one graph",
"One small graph is stored and loaded in a test; half added edges need a failing allocation between two insertions, and parallel edges and components are never tested.",
[I+"graph.hpp",I+"serialization.hpp"],
[("edge entered at both ends, or at none","graph.hpp Graph::addEdgeBetweenNodes, addEdgesBetweenNodes"),("linkage check","graph.hpp Graph::CheckGraphLinkage"),("component marking","graph.hpp Graph::markConnectedComponentUndirected"),("recursive element serialisers","graph.hpp Graph::serializeSelf, deserializeSelf")],
["nodes and edges","returned edges","components","exceptions"])

p("C45","A voxel grid holds what was last written to each cell",
"After every history of writes through any overload by index or by location, resets, changed default and outside values, moved origins, copies, clones, saves and loads, a voxel grid reports in every cell the value last written to that cell (or to its whole chunk), else the default it was made with, and outside of it the outside value together with 'not found'; every location, also on borders and just outside, belongs to one cell, whose centre is the one reported. A write outside, a refused size (not positive, not finite) and a failing allocation in a write or a copy change no cell. Threads that write different existing cells or read one grid do not disturb each other.",
["histories","schedules","fault_sequences","inputs"],"every geometry, every history of writes, resets, copies and loads, every failing allocation in it, and every interleaving of threads on different cells",
"No test uses a voxel grid; aliased cells at the lower borders, stale chunks and lost cells after a failed conversion only show against a record of all writes.",
[I+"voxel_grid.hpp",I+"dynamic_spatial_hashed_voxel_grid.hpp",I+"serialization_eigen.hpp"],
[("index arithmetic and bounds","voxel_grid.hpp VoxelGrid::PointInFrameToGridIndex, IndexInBounds"),("chunk lookup and conversion between chunk and cells","dynamic_spatial_hashed_voxel_grid.hpp DynamicSpatialHashedVoxelGrid::SetCellValue, SetChunkValue, GetContainingChunkRegion"),("stored and loaded state","voxel_grid.hpp VoxelGrid::SerializeSelf, DeserializeSelf")],
["cell reads","statuses","exceptions","loaded grids"])

p("C41","Graph searches return a cheapest real path and its true cost",
"Every search (Dijkstra, A* and lazy A* on graphs, generic A*, the A* planner; admissible heuristics, for the planner consistent ones) returns a path along edges that exist and are allowed at that moment, with minimal cost, and reports exactly that cost, or an empty path and infinite cost exactly when the goal cannot be reached; a random walk returns a path without repeated nodes along existing edges. It leaves the graph as it was, whatever was changed between queries and however many threads search the same graph; out-of-range nodes and equal start and goal of an A* search are refused, and a failing user function, random generator or allocation is passed on. The planner's reported time is the elapsed time, whatever happens to the wall clock, and a stored Dijkstra result loads back equal.",
["histories","schedules","fault_sequences","inputs"],"every directed graph with non-negative weights, every history of changes and queries, every failure point of user functions and allocations, and every interleaving of threads searching one graph",
"Tests search two small fixed graphs with Dijkstra; inconsistent heuristics, changes between queries, failing user functions and clock jumps are never exercised.",
[I+"dijkstras.hpp",I+"arc_helpers.hpp",I+"simple_astar_planner.hpp"],
[("priority-queue search with re-expansion","dijkstras.hpp SimpleGraphAstar::PerformLazyAstar; arc_helpers.hpp GenericAstarSearch"),("backpointers to path and cost","arc_helpers.hpp ExtractAstarResult"),("reverse search from the goal","dijkstras.hpp SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm"),("monotonic planning time","simple_astar_planner.hpp SimpleAStarPlanner::Plan")],
["paths and costs","exceptions","the graph afterwards","planning time"])

p("C43","Serialised values survive storage and transport, or the damage is stopped",
"Serialising a value (integers, floating point numbers with any bit pattern, structs, strings, vectors, maps, pairs and nestings of them, native or network order, Eigen vectors, matrices and isometries, ROS messages) appends its documented layout to the buffer, changes no byte that was there, and reports the number of bytes appended; network order is big-endian. Deserialising at that position returns an equal value and exactly that number of bytes, whatever stands before and behind it and however many threads serialise or read at the same time. Of a buffer that is cut at any byte or whose bytes are damaged, nothing outside is read, every value that arrived whole still reads back equal, and a value that did not is never returned from a cut buffer: an assertion or exception stops the reader, and running out of memory is reported by an exception.",
["inputs","fault_sequences","schedules"],"every value of every supported type at every position, every cut and damaged byte of the stream, every failing allocation and every interleaving of threads with their own or shared streams",
"Tests round-trip a few values in clean buffers of their own; torn streams, values at the very end of a buffer, failing allocations and threads are never exercised.",
[I+"serialization.hpp",I+"serialization_eigen.hpp",I+"serialization_ros.hpp"],
[("fixed-size values, copied or byte-swapped, with bounds assertions","serialization.hpp SerializeFixedSizePOD, DeserializeNetworkFixedSizePOD"),("count, then elements","serialization.hpp DeserializeVector, DeserializeMap, DeserializeString"),("headers for dynamic sizes only","serialization_eigen.hpp SerializeEigen, DeserializeEigen"),("messages as ROS lays them out","serialization_ros.hpp RosMessageSerializationWrapper")],
["bytes in the buffer","deserialised values and counts","assertions and exceptions","memory accesses"])

p("C44","Base64 texts survive transport, or damage stays where it is",
"Encoding yields the standard padded base64 text of the bytes, and decoding that text, also without padding or in the URL-safe alphabet, returns exactly these bytes, for every length and however many threads encode and decode at the same time. Of a text that was cut, all bytes that were received in full are decoded and at most one more; a character damaged into any byte value affects only the bytes of its group of four; and neither makes the decoder touch memory outside of the text or its tables; running out of memory is reported by an exception.",
["inputs","fault_sequences","schedules"],"every byte string, every cut and damaged character of its text, every failing allocation and every interleaving of threads",
"No test encodes or decodes anything; damaged texts and texts of unusual length are where table lookups and padding go wrong.",
[S+"base64_helpers.cpp"],[("table lookup per character","base64_helpers.cpp Decode"),("last group by padding or length","base64_helpers.cpp Decode, Encode")],["decoded bytes","encoded text","memory accesses"])

p("C58","Every text received is spoken once, whole, as it is",
"Of every text message a sender publishes, the speech node makes espeak say exactly this text, once, from beginning to end: it is never taken for options or for commands of a shell, and nothing else is said. The texts of one sender are spoken one after the other in the order they were sent, however close together they come. An espeak that is missing, cannot be started or fails costs at most the texts of these moments; the node goes on speaking later ones, and ends when ROS shuts down.",
["schedules","fault_sequences","inputs"],"every text, every interleaving of several senders, every duration and failure of espeak",
"Nothing tests the node; it needs ROS and a sound device.",
["scripts/tts_node.py"],[("one program per message, waited for in the subscriber's thread","tts_node.py cb")],["what espeak is made to say, when and in which order"])

p("C59","An optional value is there exactly after it was given one",
"A Maybe holds exactly the value it was last given by construction, Set, assignment of a value or of another Maybe, or change through Get, and none if it never was given one; reading one that holds none raises invalid_argument. If copying the value fails or memory runs out on the way, the exception is passed on and the Maybe holds what it held before: in particular it never claims a value it was not given. No operation changes another Maybe.",
["histories","fault_sequences"],"every history of operations on several optional values and every failing copy or allocation in it",
"No test uses a Maybe; copies that fail are never exercised.",
[I+"maybe.hpp"],[("flag set only after the value was copied","maybe.hpp Maybe::Set, operator="),("checked access","maybe.hpp Maybe::Get, GetImmutable")],["validity","values","exceptions"])

p("C63","Grid neighbours are exactly the valid cells around, each once",
"Asking for the neighbours of a configuration on a two- or three-dimensional grid returns, each once and exactly as rounded to the grid, those of the cells at most one step away in every dimension that lie within the bounds (rounded to the grid as well), differ from the configuration itself and were accepted by the validity check during this call; every such cell is asked about and no other. Nothing is returned for a configuration too far outside the bounds. A failing callback or allocation is passed on and leaves nothing behind for later or concurrent calls.",
["inputs","fault_sequences"],"every cell, step, bound and validity, changing between two checks or not, and every failing callback or allocation",
"No test asks for neighbours.",
[I+"get_neighbours.hpp"],[("bounds clipped and rounded","get_neighbours.hpp *DimensionalXConnected".replace("X","8"))],["returned cells","cells asked about"])
p("C64","Appending a trajectory keeps both whole, or changes nothing",
"Appending one trajectory to another leaves the points it has as they are and adds those of the other behind them, in order and exactly as given except that each time is later by the time of the last point it had; joint names and frame are taken over only where it has none, and nothing else of it changes. A trajectory whose joint names differ in any way, also by being fewer or more, or whose times do not fit, is refused with an exception; that or a failing allocation leaves the extended trajectory exactly as it was, so that the same call can be repeated. The appended trajectory is never changed, may be empty or the extended one itself, and several threads may append the same one at once.",
["histories","fault_sequences","schedules"],"every succession of pieces, every failing allocation, every time at the limits, and threads that share pieces",
"No test appends trajectories; it needs ROS messages.",
[I+"trajectory_utils.h",S+"trajectory_utils.cpp"],[("names compared, times shifted","trajectory_utils.cpp trajectory_utils::append")],["points, joint names and header of both trajectories","exceptions"])
p("C60","A first-order deformation is a connected path of valid cells",
"The search returns a path from the first to the last cell of the grid that moves by at most one row and column per step, visits no cell twice, stays in the grid, and goes only through cells that the validity check accepted during this search (the first cell is taken as given). It returns no path exactly when there is none, also while cells change: it finds one if there is one through cells that stayed valid, and none if there is none through cells that ever were. It asks only about cells of the grid and always ends; a failing validity check or allocation is passed on and leaves nothing behind for later or concurrent searches.",
["inputs","fault_sequences","schedules"],"every grid, every change of cells between two checks, every failing check or allocation, and threads searching at the same time",
"No test searches a grid.",
[S+"first_order_deformation.cpp"],[("best-first search with back pointers","first_order_deformation.cpp GetFirstOrderDeformation")],["the path","cells asked about","exceptions"])

p("C52","Resampled and upsampled paths keep their ends, spacing and count",
"Resampling a path, or a part of it, returns one that begins with the part's first state, goes through its states in order and ends with its last (states at no distance from the one before are left out), filled up with evenly spread points so that no two neighbours are further apart than asked, using no more points than that takes; an empty part is refused. Upsampling returns exactly the number of states asked for, all states of the part among them in order, the longest remaining gap always split first; a part that already has that many or more comes back as it is. When a callback fails or memory runs out that very failure is passed on, the caller's path stays as it was, and the same request made again, or by several threads at the same time, is answered as if nothing had happened.",
["inputs","fault_sequences","schedules"],"every path and part, every failing callback or allocation, and threads asking at the same time",
"No test resamples a path.",
[I+"path_utils.hpp"],[("per-segment interpolation","path_utils.hpp ResamplePathPartial"),("priority queue of gaps","path_utils.hpp UpsamplePathPartial")],["returned path","caller's path","exceptions"])

# pure functions: not applicable
def na(id,title,statement,text,why,files,mech,obs,over=("inputs",)):
    p(id,title,statement,list(over),text,why,files,mech,obs)
na("C47","Time-optimal trajectories respect limits and follow the path",
"A valid trajectory starts and ends at the path's ends at rest, stays on the path, and never exceeds the velocity or acceleration limits.",
"every path and limits","No test.",[S+"time_optimal_trajectory_parametrization.cpp"],[("phase-plane integration","time_optimal_trajectory_parametrization.cpp")],["sampled trajectory"])
na("C48","Interpolation and angle arithmetic stay exact at the ends",
"Interpolating with ratio 0 or 1 returns the endpoints, revolute arithmetic wraps into one turn, and distances are non-negative and zero for equal values.",
"every pair of values and ratio","A few values are sampled.",[I+"math_helpers.hpp",I+"eigen_helpers.hpp"],[("closed-form arithmetic","eigen_helpers.hpp")],["returned values"])
na("C49","Thin-plate splines interpolate their control points",
"A thin-plate spline maps each control point to its template.",
"every control point set","No enabled test.",[I+"thin_plate_spline.hpp"],[("linear solve","thin_plate_spline.hpp")],["mapped points"])
na("C50","Polynomial trajectories meet their boundary conditions",
"Planned polynomial trajectories match the requested positions and derivatives at both ends.",
"every boundary condition","Four examples are tested.",[S+"trajectory_planning.py"],[("linear system","trajectory_planning.py")],["polynomial values"])
na("C51","Sequence helpers partition and pair without loss",
"Chunking, zipping, nested updates and uniqueness helpers keep every element in order exactly as documented for every sequence length.",
"every sequence","A few examples.",[S+"algorithms.py",S+"dict_tools.py"],[("itertools","algorithms.py")],["returned sequences"])
na("C53","Transform conversions are mutually inverse",
"Converting between matrices, poses, quaternions and transform messages and back preserves the rigid motion.",
"every rigid transform","The test needs ROS.",[S+"transformation_helper.py",S+"conversions.py"],[("closed-form conversions","transformation_helper.py")],["converted values"])
na("C61","Densified and travelled Python paths stay on the path",
"Densifying keeps every waypoint with no gap above the limit; travelling along a path moves by the distance asked and stays on it.",
"every path and distance","A few examples.",[S+"path_utils.py"],[("interpolation","path_utils.py")],["returned path"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        n=x["statement"].count(". ")+1
        assert n<=3,(x["id"],n)
        f.write(json.dumps(x)+"\n")
print(len(P))
