# One entry per claimed property: how it is built, which scenario decides it, what is real and what is a stub.
DISK = "in-memory file system behind open/read/write/close/stat/mkdir..., fault injecting"
PROPS = {}


def cpp(pid, harness, srcs, rule, real, stub, **kw):
    PROPS[pid] = dict(kind="cpp", harness=harness, srcs=srcs, rule=rule, real=real, stub=stub, **kw)


ZREAL = ["src/arc_utilities/zlib_helpers.cpp", "zlib", "libstdc++ file streams", "boost::filesystem"]
cpp("C01", ["zlib"], ["zlib_helpers"],
    "Random sequences of saves and loads (sizes 0 to 2 MiB, compressible and not, relative and absolute paths, other content already there), "
    "one fault family per run out of: refused open, write error, short writes, EINTR, loss at close, full disk, allocation failure; or several "
    "threads saving to different paths under a random schedule.", ZREAL, [DISK, "thread scheduler", "allocator failures"])
cpp("C02", ["zlib"], ["zlib_helpers"],
    "One save, then one damage: truncation, flipped bits, a crash or write error inside a second save (optionally with power loss), read faults "
    "during the load, or other processes overwriting the file while it is read.", ZREAL, [DISK, "process crash", "thread scheduler"],
    assume=["damage that leaves one complete zlib stream whose checksum still matches (Adler-32 collisions, decided by an inflate in the harness) cannot be detected by the format and is not held against the code"])
cpp("C03", ["zlib"], ["zlib_helpers"],
    "Sequences of saves of 0 to 12 parts (part size drawn per run through the guarded hook) to one path, each optionally under disk faults, "
    "then damage or read faults in any part.", ZREAL, [DISK, "part size (hook): 1..62 bytes instead of 4 GiB"],
    assume=["damage that leaves one complete zlib stream whose checksum still matches (Adler-32 collisions, decided by an inflate in the harness) cannot be detected by the format and is not held against the code"])
TREAL = ["include/arc_utilities/timing.hpp", "src/arc_utilities/timing.cpp", "std::chrono"]
cpp("C04", ["timing"], ["timing"],
    "Random histories of starting, reading, resetting and recording several stopwatches and named timers while simulated time passes in steps "
    "of nanoseconds to days, the clock moves on during calls, and the wall clock jumps both ways.", TREAL, ["clocks", DISK], space="clock behaviours and call histories")
cpp("C05", ["timing"], ["timing"],
    "Random histories of recording, clearing, printing and reporting, with reports written to healthy disks or under one fault family (refused open, "
    "write errors, short writes, full disk, close error); after each report the file is parsed and compared with a reference history.", TREAL, ["clocks", DISK])
LREAL = ["include/arc_utilities/log.hpp", "include/arc_utilities/filesystem.hpp", "libstdc++ file streams", "boost::filesystem"]
cpp("C06", ["log"], [],
    "Two to four threads log one to four messages each (empty to 20 kB) to one logger under a random schedule with short and interrupted writes; "
    "invocation and return of every call are stamped and compared with the file.", LREAL, ["thread scheduler", DISK])
cpp("C07", ["log"], [],
    "Random histories of opening, logging, copying, moving, assigning and destroying loggers on three files, with a crash before, inside or after any file "
    "operation and refused opens; the file is compared with the lines whose calls had returned.", LREAL, ["process crash", DISK, "clocks"])
cpp("C08", ["log"], [],
    "One to three processes create overlapping directory paths while another program creates the same directories at any moment, with files in the way, refused "
    "mkdir and stat calls and crashes.", LREAL, ["process scheduler", DISK])
OMPSTUB = ["OpenMP runtime (team sizes, chunk hand-out, barriers) scheduled by the simulator", "checked heap"]
OMPD = ["-DENABLE_PARALLEL_DISTANCE_MATRIX", "-DENABLE_PARALLEL_HAUSDORFF_DISTANCE", "-DENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING", "-DENABLE_PARALLEL_ROADMAP"]
cpp("C09", ["omp", "omp_serial"], [],
    "Random data sets (0 to 9 elements, ties and not, one set, two sets of different sizes, fixed and dynamic Eigen point sets), team sizes 1 to 4 that may "
    "change from region to region, random interleavings at every memory access; compared bit for bit with the definition.",
    ["include/arc_utilities/arc_helpers.hpp", "include/arc_utilities/eigen_helpers.hpp"], OMPSTUB, defs=OMPD)
cpp("C10", ["omp", "omp_serial"], [],
    "Random item sets (0 to 12 items, ties, infinite distances), K from 0 to beyond the number of items, team sizes 1 to 4 that may change from region to "
    "region, random interleavings; compared with the sorted true distances.", ["include/arc_utilities/arc_helpers.hpp"], OMPSTUB, defs=OMPD)
cpp("C11", ["omp", "omp_serial"], [],
    "Random pairs of point sets (either may be empty), team sizes 1 to 4 that may change from region to region, random interleavings; compared with the definition.",
    ["include/arc_utilities/simple_hausdorff_distance.hpp"], OMPSTUB, defs=OMPD)
cpp("C12", ["omp", "omp_serial"], [],
    "Random data sets of 0 to 8 elements, both link strategies, thresholds from 0 to infinity, team sizes 1 to 4 that may change from region to region, random "
    "interleavings; compared with a small reference agglomeration.", ["include/arc_utilities/simple_hierarchical_clustering.hpp", "include/arc_utilities/arc_helpers.hpp"], OMPSTUB, defs=OMPD)
PREAL = ["include/arc_utilities/simple_prm_planner.hpp", "include/arc_utilities/dijkstras.hpp", "include/arc_utilities/graph.hpp", "include/arc_utilities/arc_helpers.hpp"]
cpp("C13", ["prm", "prm_serial"], [],
    "Random sampling streams (0 to 9 states, repeats, ties, invalid states), symmetric and one-way distances, blocked edges, K 1 to 5, then up to two further "
    "extensions or queries that add start and goal states; team sizes 1 to 4 that may change from region to region, random interleavings.", PREAL, OMPSTUB, defs=OMPD, compile_is_property=True)
cpp("C14", ["prm", "prm_serial"], [],
    "Random roadmaps with extra and double links, up to two refreshes with changed distances and blocked edges (also of roadmaps with dangling edges), then up to "
    "two queries of four kinds on the read-only roadmap; team sizes 1 to 4 that may change from region to region, random interleavings.", PREAL, OMPSTUB, defs=OMPD, compile_is_property=True)
RSTUB = ["random word stream (recorded seed, injected extreme words)"]
cpp("C15", ["rand"], [],
    "Random data sets (2 to 150 elements with repeats, 1 to 5 clusters, weights, with and without preliminary clustering), the clock that seeds the initial centres "
    "drawn per run over its whole range; labels are checked against centres recomputed from them, and every averaging call against the data.",
    ["include/arc_utilities/simple_kmeans_clustering.hpp", "std::mt19937_64"], ["clock used as seed"], space="clock seeds and data sets")
cpp("C16", ["rand"], [],
    "Random means, deviations (0 to 3e2) and bounds (around, above, below, at the mean, one- and two-sided infinite, single value), 40 or 600 samples each from a random "
    "word stream with extreme words put in: bounds, words per sample and (600 samples) Kolmogorov-Smirnov distance; 20 or 500 random quaternions and Euler angles likewise.",
    ["include/arc_utilities/arc_helpers.hpp", "libstdc++ distributions"], RSTUB, space="random streams and parameters")
cpp("C17", ["rand"], [],
    "Random paths of 0 to 199 states, limits and fractions, validity functions that accept all, none, one way, a fixed subset or change their answer, random word streams with "
    "extreme words; the result is checked against the input and the recorded edge checks.", ["include/arc_utilities/path_utils.hpp"], RSTUB, space="random streams and validity answers")
cpp("C18", ["rand"], [],
    "Random directed graphs of 1 to 9 nodes with cycles and double edges in which the walk cannot get stuck (goal with or without out edges), up to three walks each with random "
    "word streams and extreme words.", ["include/arc_utilities/dijkstras.hpp", "include/arc_utilities/graph.hpp"], RSTUB, space="random streams and graphs")
cpp("C19", ["rand"], [],
    "Random histories of 1 to 24 seed, construct, draw, discard, copy and assign operations on several instances of each generator, compared word for word with a fresh "
    "instance of the same seed.", ["include/arc_utilities/arc_helpers.hpp"], ["none: the whole history is the simulator's"], space="operation histories")
cpp("C56", ["rand"], [],
    "Random means and covariances of 1 to 4 dimensions, of full and lower rank (also zero), diagonal or not, 40 or 3000 samples each from a random word stream with extreme words put in, "
    "other distributions drawing from the same stream in between: support, mean, covariance and independence of successive samples.",
    ["include/arc_utilities/arc_helpers.hpp", "libstdc++ distributions", "Eigen decompositions"], RSTUB, space="random streams and parameters")
cpp("C57", ["robot"], [],
    "Random linked robots of 1 to 6 links (any tree, any joint order, fixed, prismatic, revolute and continuous joints), SE2 and SE3 robots; up to 16 new positions, refused (wrong length, "
    "damaged values, failing allocations) and own positions, base moves, stored positions, clones and assignments, robots moved or read by several threads at once; broken descriptions.",
    ["include/arc_utilities/simple_linked_robot_model.hpp", "include/arc_utilities/simple_se2_robot_model.hpp", "include/arc_utilities/simple_se3_robot_model.hpp",
     "include/arc_utilities/simple_robot_models.hpp", "include/arc_utilities/serialization.hpp"], ["thread scheduler", "allocator failures", "damage of stored values"], compile_is_property=True)
cpp("C45", ["grid"], [],
    "Random grids of fixed size and grids that grow by chunks (cells of 8 sizes, by size or by number, moved and turned origins, int and string values): up to 24 writes through every "
    "overload by index and by location inside, outside and on borders, resets, new defaults, copies, storing and loading, refused sizes, failing allocations, threads on different cells.",
    ["include/arc_utilities/voxel_grid.hpp", "include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp", "include/arc_utilities/serialization.hpp", "include/arc_utilities/serialization_eigen.hpp"],
    ["thread scheduler", "allocator failures"], compile_is_property=True)
cpp("C42", ["graph"], [],
    "Random histories of up to 30 operations on up to three graphs: nodes and edges added (also parallel, both ways, to itself or to nodes that do not exist), values, weights and validity "
    "changed, copies, storing and loading, graphs made from damaged node lists, failing allocations, several threads reading one graph or building one each; connected components.",
    ["include/arc_utilities/graph.hpp", "include/arc_utilities/serialization.hpp"], ["thread scheduler", "allocator failures", "damage of node lists"], compile_is_property=True)
cpp("C41", ["search"], [],
    "Random directed graphs of 2 to 9 nodes (parallel edges, zero and infinite weights, blocked edges) that change between up to 12 queries of all six searches, with heuristics from zero to "
    "exact, user functions that are slow or fail at a random call, failing allocations and several threads searching the same graph; compared with Bellman-Ford.",
    ["include/arc_utilities/dijkstras.hpp", "include/arc_utilities/arc_helpers.hpp", "include/arc_utilities/simple_astar_planner.hpp", "include/arc_utilities/graph.hpp"],
    ["user functions", "thread scheduler", "clocks", "allocator failures"], compile_is_property=True)
cpp("C20", ["listener"], [],
    "One or two listeners, up to two readers and two waiters (2 to 1000 Hz), a network thread that delivers up to six messages lost, duplicated, delayed and out of order, spinners "
    "stopped and restarted, ROS shut down at any time, listeners destroyed while messages arrive; random interleavings at every memory access.",
    ["include/arc_utilities/listener.hpp", "boost::shared_ptr", "boost::bind"], ["roscpp (subscription queue, spinner, Rate, ok/shutdown)", "thread scheduler", "clocks", "checked heap"])
cpp("C36", ["console"], [],
    "Random sequences of key reads and line reads from a simulated terminal (canonical or not, or no terminal) while keys are typed before and during the call, reads split, interrupted, "
    "failing or at end of input, attributes unreadable; up to 300 debugger checks on process status files of many shapes with short, interrupted and failing reads, counting descriptors.",
    ["include/arc_utilities/arc_helpers.hpp", "libstdc++ std::cin"], ["terminal (termios, line discipline, typist)", DISK])
cpp("C37", ["console"], [],
    "Time stamps of both kinds taken in five zones at random moments, next to the ends of seconds, days, months, years and daylight saving, while the clock moves or jumps at every read; "
    "sleeps of -1 s to one day that are interrupted or end late.", ["include/arc_utilities/arc_helpers.hpp", "glibc localtime"], ["clocks", "interrupted sleeps"], space="clock behaviours")
RRREAL = ["include/arc_utilities/simple_rrt_planner.hpp", "include/arc_utilities/serialization.hpp", "std::chrono"]
RRSTUB = ["the user's functions (sampling, neighbours, propagation, goal and connection checks, callbacks)", "random word stream (recorded seed, injected extreme words)", "clocks", DISK]
cpp("C38", ["rrt"], [],
    "All nine single-tree entry points with random targets, neighbours, propagated branches of 1 to 4 states and goals; slow functions against time limits of 0 to 3 s, stops after 0 to 8 "
    "iterations, exceptions, invalid parents, trees saved, reloaded, resumed and damaged in one link; goal bias by frequency; every call and result is compared with a reference tree.",
    RRREAL, RRSTUB, compile_is_property=True, space="user answers and stop moments")
cpp("C39", ["rrt"], [],
    "All four bidirectional entry points, as C38, with connections between the trees, biases and switching probabilities from 0 to 1, resumed and damaged tree pairs; biases and coverage of "
    "the other tree by frequency; every call and result is compared with two reference trees.", RRREAL, RRSTUB, compile_is_property=True, space="user answers and stop moments")
cpp("C40", ["hist"], ["time_optimal_trajectory_parametrization"],
    "Trajectories of 2 to 5 waypoints in 1 to 3 dimensions, asked up to 24 times by controllers whose clocks run on, stand still, go back, jump and restart, with copies made, destroyed and "
    "handed to other threads in between; every answer is compared with that of a trajectory that was never asked before.",
    ["include/arc_utilities/time_optimal_trajectory_parametrization.hpp", "src/arc_utilities/time_optimal_trajectory_parametrization.cpp"],
    ["the controllers' clocks", "thread scheduler", "checked heap"], space="clock behaviours, copies and schedules")
cpp("C46", ["hist"], ["time_optimal_trajectory_parametrization"],
    "One or two evaluators in one or two threads, sized in advance or not, copied, used for up to six pairs of sequences of 0 to 6 elements with tied and infinite distances while the distance "
    "function raises at any call; compared with the textbook recursion.", ["include/arc_utilities/simple_dtw.hpp"], ["exceptions at any call of the distance function", "thread scheduler", "checked heap"],
    space="histories of use and failures")
cpp("C43", ["serial"], [],
    "One to three senders append one to four values of 38 kinds (integers, floats with any bit pattern, structs, strings, nested containers, network order, Eigen, ROS messages) to buffers that "
    "may hold other bytes, receivers read them in order or one by one, memory runs out at any allocation, all under a random schedule; then the streams are delivered again, torn at any byte or "
    "with a damaged byte, to a process that an assertion may end.",
    ["include/arc_utilities/serialization.hpp", "include/arc_utilities/serialization_eigen.hpp", "include/arc_utilities/serialization_ros.hpp"],
    ["byte transport (torn and damaged streams)", "ROS message types and roscpp serialisation", "assertions that end a simulated process", "thread scheduler", "allocator failures", "checked heap and block copies"],
    compile_is_property=True, space="streams, tears and damages")
cpp("C44", ["base64"], ["base64_helpers"],
    "One to three threads encode and decode one to four byte strings of 0 to 300 bytes, padded, unpadded or URL-safe, while memory runs out at any allocation, under a random schedule; texts are "
    "also delivered cut after any character or with a character replaced by any byte value.",
    ["src/arc_utilities/base64_helpers.cpp"], ["text transport (cuts and damaged characters)", "thread scheduler", "allocator failures", "checked heap"], space="texts and damages")
cpp("C59", ["value"], ["first_order_deformation"],
    "Up to four optional values of one of five types, constructed, set, assigned, copied, moved, read and changed in up to twelve steps while any copy of a value fails or memory runs out; "
    "after each step all of them are compared with a reference.", ["include/arc_utilities/maybe.hpp", "include/arc_utilities/arc_exceptions.hpp"], ["values whose copies fail", "allocator failures"],
    compile_is_property=True, space="histories and failure points")
cpp("C60", ["value"], ["first_order_deformation"],
    "One or two threads run up to three searches each on grids of up to 6 by 6 cells of various densities while cells change between any two checks, the validity check raises, or memory "
    "runs out at any allocation.", ["src/arc_utilities/first_order_deformation.cpp"], ["user's validity check (changing, failing)", "thread scheduler", "allocator failures"], space="grids, changes and failure points")
cpp("C64", ["traj"], ["trajectory_utils"],
    "One or two threads put trajectories together from up to three shared pieces, from each other and from themselves, in up to seven steps each: joint names missing, other, more or fewer, "
    "any frame, times from the edge of what a duration holds down to equal ones, memory that runs out at any allocation; after each step, also a failed one, all of them are compared with a reference.",
    ["src/arc_utilities/trajectory_utils.cpp"], ["trajectory_msgs, ros::Duration, rosconsole (types and arithmetic as in ROS)", "thread scheduler", "allocator failures"], space="histories and failure points")
cpp("C63", ["neigh"], [],
    "One or two threads ask up to four times each for the neighbours of configurations inside, on the edge of, outside or off a grid in two or three dimensions, with bounds on and off the "
    "grid, three kinds of fixed and one of changing validity; rounding and validity callbacks raise at any call or memory runs out at any allocation; failed requests are repeated.",
    ["include/arc_utilities/get_neighbours.hpp"], ["user's rounding and validity callbacks (changing, failing)", "thread scheduler", "allocator failures", "checked heap"],
    compile_is_property=True, space="grids, cells, validity and failure points")
cpp("C52", ["path"], [],
    "One or two threads resample and upsample whole paths and parts of them (up to seven states, standing still and climbing included) up to three times each while the distance or "
    "interpolation callback raises at any call or memory runs out at any allocation; failed requests are repeated and the caller's path is compared after each.",
    ["include/arc_utilities/path_utils.hpp"], ["user's distance and interpolation callbacks (failing)", "thread scheduler", "allocator failures", "checked heap"],
    compile_is_property=True, space="paths, requests and failure points")
RNSTUB = ["roscpp (init, options, names, queues, spinner threads, parameter server, shutdown)", "thread scheduler", "clocks", "checked heap"]
cpp("C54", ["rosnode"], [],
    "One to six calls as Python makes them, by position and by keyword: init_node with good and bad names, levels, arguments and options while ROS fails at four places, messages, a second "
    "initialisation, shutdown by the program or by a signal at any time; what ROS was given and which threads run is compared with what was asked.",
    ["src/roscpp_initializer.cpp"], ["pybind11 (calls by position and keyword)", "rosconsole"] + RNSTUB)
cpp("C55", ["rosnode"], [],
    "One to eight questions of eleven kinds for parameters of nine types (also of another type, absent, half convertible) while other nodes set and delete them at any moment and the master "
    "fails; or a spin loop with messages, slow and raising callbacks and shutdown at any time.", ["include/arc_utilities/ros_helpers.hpp", "include/arc_utilities/maybe.hpp"], RNSTUB, compile_is_property=True, space="server histories and shutdown moments")


def py(pid, rule, real, stub, **kw):
    PROPS[pid] = dict(kind="py", rule=rule, real=real, stub=stub, **kw)


PYSTUB = ["rospy (connection threads, clock, shutdown, logging)", "threading locks and threads under the simulator's scheduler", "time"]
py("C21", "One or two listeners, one or two connections that deliver up to four messages each from the instant of subscription on, callbacks that record, read the listener, are slow "
   "or raise, up to three readers that change what they get, ROS shut down at any time; control may pass at every opcode of the listener.",
   ["src/arc_utilities/listener.py", "src/arc_utilities/ros_helpers.py"], PYSTUB)
py("C22", "Conditions that turn true by themselves, by another thread or after some evaluations, take up to 30 ms, or raise; ROS shut down at any time; wall or simulated ROS clock that "
   "stops, races or jumps; late wake-ups and stalls; waits of 0 to 26 s.", ["src/arc_utilities/ros_helpers.py"], PYSTUB)
py("C34", "Both controller layouts, any button or axis, up to six messages lost, bunched or spread out, one or two waiters, up to two state readers, ROS shut down at any time; control "
   "may pass at every opcode.", ["src/arc_utilities/xbox.py", "src/arc_utilities/ros_helpers.py", "src/arc_utilities/listener.py", "numpy"], PYSTUB)
TSTUB = ["tf2_ros (buffers, listeners, broadcasters)", "the network (loss, delay, duplication, reordering, late connections)", "rospy (clock, Rate, shutdown, logging)",
         "threading under the simulator's scheduler", "time"]
TFREAL = ["src/arc_utilities/tf2wrapper.py", "src/arc_utilities/transformation_helper.py", "numpy"]
py("C23", "Up to three starts in three forms, static or not, on a network that loses, delays, duplicates and reorders messages and connects late until it heals (0 to 1.5 s), with earlier "
   "transforms for the same frames already known that differ in one respect; ROS shut down at any time, clock jumps, stalls and late wake-ups; then up to 0.9 s of watching what is sent.",
   ["src/arc_utilities/reliable_tf.py", "threading.Thread", "threading.Event"] + TFREAL, TSTUB)
py("C24", "Random histories of 2 to 7 start, replace, stop, close, destroy and wait operations on one or two managers and three frame pairs, under faults as in C23; everything published and "
   "every live sender thread is checked after each step and at the end.", ["src/arc_utilities/reliable_tf.py", "threading.Thread", "threading.Event"] + TFREAL, TSTUB)
py("C25", "One to four lookups among up to four frames while another node sends transforms lost, late, reordered, with changing parents; library failures injected; ROS shut down at any time; "
   "wall or simulated ROS clock.", TFREAL, TSTUB)
py("C26", "One or two threads send up to twelve static and dynamic transforms in three forms through one wrapper, changing their arguments afterwards; late subscribers join at any time; "
   "control may pass at every opcode.", TFREAL, TSTUB)
py("C62", "One or two threads move up to five points, vectors and poses each between the frames of a tree, at the newest or at past and present times, with no or some timeout, while another node's "
   "transforms arrive lost, late or reordered; library failures injected; ROS shut down at any time; wall or simulated ROS clock.", TFREAL, TSTUB)
SIGSTUB = ["SIGALRM and SIGINT (delivered by the simulator where the interpreter looks for signals)", "clock, time.sleep"]
py("C27", "One to four timed calls of functions that sleep or compute for a time far from, just around or beyond the limit, return, raise (also their own TimeoutError), swallow or convert the "
   "interruption or tidy up slowly; the process is stalled up to an instant around the deadline at a random instruction; Ctrl-C at random instants; later code runs on.",
   ["src/arc_utilities/catches.py", "CPython's exception handling"], SIGSTUB)
py("C28", "Generators and iterators (0 to 4 items per run, up to 4 different runs) whose items are fast, just in time or slow, that end, raise, or handle the interruption; consumers that "
   "dawdle or stop early; callbacks that are slow or raise; stalls up to an instant around the deadline at random instructions; Ctrl-C.",
   ["src/arc_utilities/catches.py", "CPython generators"], SIGSTUB)
py("C29", "The decorator or the context around a body that returns, raises or is struck by an error or interrupt at a random instruction; each of the four calls into ROS may fail before or "
   "after it took effect; the order of everything that took effect is checked.", ["src/arc_utilities/ros_init.py"],
   ["rospy and roscpp_initializer (init and shutdown, failing or interrupted)", "errors and interrupts at random instructions"])
py("C30", "Up to three topics (absolute, relative, private, remapped) whose subscribers appear on the master, connect, leave and disconnect at random instants before and during the call; "
   "slow and failing master, stalls and late wake-ups; control may pass at every opcode.", ["src/arc_utilities/ros_helpers.py"], PYSTUB + ["the ROS master and connections"])
py("C35", "Functions that return, raise or are struck by one of 18 kinds of errors and interrupts at a random instruction, catching on or off, with various arguments; compared with the same "
   "function struck at the same instruction when called directly.", ["src/arc_utilities/conditional_try.py"], ["errors and interrupts at random instructions"])
py("C58", "One to three senders with up to five texts each (options, shell syntax, quotes, line breaks, repeated, empty), close together or apart, an espeak that takes up to 700 ms, is missing "
   "for a while, cannot be started or fails; ROS shut down at any time; control may pass at every opcode.", ["scripts/tts_node.py", "subprocess.run"],
   PYSTUB + ["subprocess.Popen (espeak, parsing its options like getopt_long)"])
FSSTUB = ["file system (every os call of pathlib, shutil, os.walk and open)", "other processes", "the user at the prompt"]
MEAS = "hash of the sequence of changes to the file system, by whom, and the operation they happened at"
FSREAL = ["src/arc_utilities/filesystem_utils.py", "pathlib", "shutil", "os.walk"]
py("C31", "One or two calls on 17 forms of names among up to six taken ones (files, directories, links to nothing, to themselves, to elsewhere, FIFOs, sockets), directories without some "
   "permission; other processes create, remove and fill entries before any operation, operations fail, Ctrl-C and every kind of answer at the prompt.", FSREAL, FSSTUB, measure=MEAS)
py("C32", "Random trees of up to 25 entries with links to outside, ancestors, themselves and nothing, FIFOs, sockets, missing permissions, given in four forms; other processes create and "
   "remove entries and replace directories by links (also the root) before any operation, operations fail, Ctrl-C.", FSREAL, FSSTUB, measure=MEAS)
py("C33", "Both scripts and the confirmation helper on up to three roots (twice, nested, through links) with random trees; the limit next to the measure of one of them and written in many forms, "
   "some wrong; other processes create, remove, replace and resize, operations fail, Ctrl-C and every kind of answer.",
   FSREAL + ["scripts/remove_small_directories.py", "scripts/remove_directories_with_few_files.py", "src/arc_utilities/conversions.py", "argparse", "colorama"], FSSTUB, measure=MEAS)
