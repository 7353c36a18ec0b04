GS = "TLA+ (TLC): exhaustive small model + TLC-generated behaviours replayed into the library"
GN = ("Every reachable state of the small model satisfies the listed invariants; every sampled behaviour of the full model is "
      "replayed step by step into the real library (ASan) and compared. Trusts the C++ replay harness, libm for primitive "
      "functions, and the stated bounds (tensors up to rank 3, up to ~24 nodes, ~34 steps).")
CONN = T + "src/graph/connector/"
OPS = T + "src/graph/operations/"

prop("C01", "Evaluating a node always reflects the current contents of its leaves",
     "After any sequence of building nodes, initialising and assigning leaves (whole, incremental, prepared in advance, from data or from "
     "another node), cloning, deleting and evaluating, evaluating an operation node gives exactly the value its defining expression has over "
     "the present contents of its leaves, whatever updates are still outstanding and in whatever order nodes are evaluated. "
     "A node has no value as long as one of its leaves has none, and acquires it when the last one is set. "
     "A leaf changed without notification is only guaranteed to be seen once that leaf next notifies.",
     ["histories", "programs", "inputs"],
     "every expression graph over the public operations, every history of assignments/evaluations/clones/deletions on it, all leaf contents",
     "The tests build one operation at a time, assign once and evaluate once; pending-update order, repeated assignment between evaluations, "
     "diamonds and shared sub-expressions are not reached.",
     [CONN + "iconnector.ipp", CONN + "immutable/base_immutable.ipp", CONN + "immutable/immutable.ipp", T + "src/graph/leaf/variable.ipp", T + "src/graph/react/subject.cpp"],
     [("pending updates are queued per graph and run in depth order on evaluation", CONN + "iconnector.ipp"),
      ("single-argument nodes update at once, others are queued", CONN + "immutable/base_immutable.ipp"),
      ("leaves notify their dependents", T + "src/graph/leaf/variable.ipp")],
     GS, GN, observe=["eval(), get_shape()"])

prop("C02", "A frozen graph keeps its results; thawing brings it fully up to date",
     "While a connected group of operation nodes is frozen, evaluating any of them gives the value it had when the group was frozen, whatever "
     "happens to the leaves. After it is thawed, evaluating any of them gives the value over the present leaf contents, as if it had never been "
     "frozen, and groups that are not connected to it are not affected.",
     ["histories", "programs"],
     "every graph, every interleaving of freezing, thawing, leaf changes and evaluations",
     "No test freezes a graph with more than one node or changes leaves repeatedly while frozen.",
     [CONN + "iconnector.ipp", CONN + "immutable/base_immutable.ipp"],
     [("freeze flag of the node group and the queue of deferred updates", CONN + "iconnector.ipp")], GS, GN, observe=["freeze_status(), eval(), get_shape()"])

prop("C03", "Gradients equal the derivative of the expression, now and after every update",
     "Differentiating a node with respect to a variable gives, for each element of the variable, the derivative of the sum of the node's elements, "
     "with the variable's shape (or one element standing for all), and keeps giving it as leaves change. This holds for elementwise arithmetic, powers, "
     "trigonometric, exponential, root and logarithm operations combined in any way with shared sub-expressions, for layers of (optionally transposing) "
     "matrix products and arithmetic along an axis stacked on one another, and for sums over all elements. "
     "A node that does not depend on the variable has derivative zero.",
     ["programs", "inputs", "histories"],
     "every expression over the listed operations in which all paths to the variable pass the same sequence of shape-changing operations; all leaf values; updates before and after differentiating",
     "The tests differentiate single operators with hand-written formulas; compositions, sharing, layering and re-evaluation after updates are not reached.",
     [OPS + "elementary.ipp", OPS + "matmul.ipp", OPS + "transform.ipp", CONN + "iconnector.ipp", CONN + "immutable/base_immutable.ipp", CONN + "immutable/immutable.ipp"],
     [("each operation maps its arguments' gradients to its own", OPS + "elementary.ipp"),
      ("jacobian lists apply the shape-changing operations' derivatives afterwards", CONN + "iconnector.ipp")],
     GS + "; derivative by forward-mode differentiation in the specification", GN, observe=["derive() and eval() of the gradient"])

prop("C04", "Building an expression again shares the node and never conflates two",
     "Building an operation on the same operands with the same parameters gives the already existing node. Two operations that differ in "
     "kind, operand, operand order (where it matters), scalar operand or any other parameter (a function the caller passes in without a name counts "
     "as its own) are never given the same node, so every node built evaluates to the expression that was asked for.",
     ["programs", "inputs"],
     "every pair of build requests over the public operations, all parameters including scalars that differ by very little",
     "Tests check sharing for a few operators with one parameter value each; conflation needs two colliding requests on one operand.",
     [OPS + "operation_utils.ipp", OPS + "elementary.ipp", OPS + "transform.ipp", OPS + "matmul.ipp", CONN + "immutable/shape_dep.ipp"],
     [("existing audience nodes are searched by operation label and arguments", OPS + "operation_utils.ipp")], GS, GN)

prop("C05", "Simplifying constants and identities never changes a value",
     "Where building an operation is simplified because an operand is a constant, or because an identity applies (adding zero, multiplying by "
     "one or zero, double negation, subtracting or dividing a node by itself, zeroth and first powers, repeated transposition, extending by zero "
     "or one), the result has the value of the unsimplified expression, elementwise with scalars broadcast. "
     "Dividing by a constant zero is rejected.",
     ["programs", "inputs"],
     "every operation on every mixture of constant (scalar, one-element, tensor) and other operands, nested",
     "Tests fold one constant per operator; nested folding, one-element tensors and mixtures of simplifications are not reached.",
     [OPS + "elementary.ipp", OPS + "transform.ipp"],
     [("constant operands are folded and identities short-cut while building", OPS + "elementary.ipp")], GS, GN)

prop("C06", "Deleting a node removes exactly what depends on it, safely",
     "Deleting a leaf or an operation node destroys that node and every node computed from it, and nothing else; handles to destroyed nodes read "
     "as empty. Letting go of a handle never destroys a node that is still used by another, and constants disappear only when nothing uses them. "
     "No sequence of building, cloning, evaluating, deleting and dropping touches freed memory or leaves a surviving node with a wrong value.",
     ["histories", "programs"],
     "every order of deletion and handle release in every graph, with updates outstanding",
     "Tests delete one node in graphs of a few nodes and do not look at pending updates of survivors.",
     [T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp", CONN + "iconnector.ipp", T + "src/graph/varptr.ipp", T + "src/graph/leaf/constant.ipp"],
     [("a dying subject tells its observers, which die with it", T + "src/graph/react/subject.cpp"),
      ("handles observe their node", T + "src/graph/varptr.ipp")], GS, GN + " Memory errors are seen by ASan.")

prop("C13", "A clone equals its original and is afterwards independent of it",
     "Cloning a variable or an operation node gives a distinct node with the same shape, contents and operands, which stays up to date with its "
     "operands exactly as an original would. Afterwards assigning, freezing, differentiating or deleting either one has no effect on the "
     "other beyond what their shared operands imply.",
     ["histories", "programs"],
     "every point of every history at which a clone is taken, including with updates outstanding, and clones of clones",
     "Tests clone freshly built nodes, compare once, and never update afterwards.",
     [CONN + "immutable/immutable.ipp", CONN + "immutable/base_immutable.ipp", CONN + "iconnector.ipp", T + "src/graph/leaf/variable.ipp", T + "src/graph/leaf/ileaf.ipp"],
     [("copy construction re-subscribes the copy and joins the graph of the original", CONN + "immutable/base_immutable.ipp")], GS, GN)

prop("C16", "Every operation computes its documented function on every shape",
     "Elementwise arithmetic, comparison, trigonometric, exponential, clipping and rounding operations with scalar broadcast; arithmetic along an "
     "axis; transposition, extension, fitting, flipping, sums, maxima, means, arg-maxima and reductions by a caller's function over all or one dimension; (batched, optionally "
     "transposing) matrix products, two-dimensional correlation and convolution: each gives, for all operands of compatible "
     "shapes, the tensor of the documented shape whose every element is the documented function of the operands' elements.",
     ["inputs", "configurations"],
     "all operations, all compatible operand shapes up to rank 3 (unequal extents, extents of 1, missing dimensions), all dimension parameters",
     "The tests compare against random draws of mostly square or rank-two shapes, with oracles that repeat the implementation's index arithmetic.",
     [OPS + "elementary.ipp", OPS + "transform.ipp", OPS + "matmul.ipp", T + "src/tensor/tensorshape.cpp"],
     [("transfer functions and shapers of the operations", OPS + "transform.ipp")], GS, GN)

TS = T + "src/tensor/"
LEAFS = T + "src/graph/leaf/"

prop("C07", "A tensor's shape and contents follow its history and never leak between tensors",
     "A tensor has contents exactly when it was allocated and not released; it then has a fully known shape within the shape it allows, one element "
     "per position, and keeps every element whose position survives a change of shape. Requests it cannot satisfy are refused and change nothing; "
     "copying, moving, transferring a slice and writing it out and reading it back give the same tensor, and tensors share no state afterwards.",
     ["histories", "inputs"],
     "every history of creating, filling, reshaping, allocating, releasing, copying, moving, slicing and (de)serialising tensors of any shape, partially known ones included",
     "Tests try each request once on a fresh tensor of random shape, so sequences of reshaping, refusals in between and aliasing are not reached.",
     [TS + "tensor.ipp", TS + "tensorshape.cpp", TS + "tensor_handler.ipp", T + "src/memory/default_alloc.cpp"],
     [("allowed and allocated shape decide what a tensor accepts", TS + "tensor.ipp"),
      ("reshaping copies the surviving part of the raw data", TS + "tensor.ipp")],
     GS, GN.replace("up to rank 3, up to ~24 nodes, ~34 steps", "up to rank 3 with extents 0 to 3, three tensors, ~30 steps"),
     observe=["get_shape(), is_alloc(), expose(), get(), serialize(), from_proto()"])

prop("C08", "Shape arithmetic obeys its laws for all shapes and coordinates",
     "Compatibility of shapes is symmetric and reflexive and means that the known extents agree; merging, concatenating, trimming, padding, slicing and "
     "re-ranking give the documented shapes and keep counts of elements consistent. Mapping a coordinate to a flat position and back is the identity for "
     "every position inside the shape, and positions or coordinates outside of it are never accepted as inside.",
     ["inputs"],
     "all shapes (partially known, trivial, empty), all pairs of shapes, all coordinates and positions",
     "Tests draw a few random shapes per law; boundary shapes (no dimensions, unknown or unit extents, unequal ranks) are not enumerated.",
     [TS + "tensorshape.cpp"],
     [("shape operations", TS + "tensorshape.cpp")],
     "TLA+ (TLC): laws checked over all shapes up to the bound, every instance replayed into the library",
     "Exhaustive over all shapes up to rank 3 (4) with extents 0 to 3 and their pairs; merges of different rank with unknown extents are left open. "
     "Trusts the C++ replay harness.", observe=["tensorshape's public queries"])

prop("C12", "A shared feed gives every consumer each latest entry, in order, without loss",
     "Every consumer of the shared feed receives the newest entry of each key in the order of last change, never an entry replaced before it "
     "asked, never the same one twice, and waits exactly when it has received everything. With any number of producers and "
     "consumers running freely no consumer sleeps past a new entry, none crashes or deadlocks, and there are no data races.",
     ["schedules", "histories"],
     "every interleaving of producers adding and replacing entries, consumers taking them, and readers giving up",
     "The only test runs one producer and one consumer with one outcome; schedules cannot be enumerated by running it.",
     [T + "src/thread/shareable_cache.ipp", T + "include/thread/shareable_cache.hpp"],
     [("entries form a list in order of last change; consumers point into it", T + "src/thread/shareable_cache.ipp")],
     "TLA+ (TLC): exhaustive abstract model, refinement by the list algorithm, replayed behaviours, and recorded concurrent executions validated against the specification",
     "The abstract feed is model checked and the list algorithm is shown to refine it for small bounds; all short behaviours are replayed step by step; "
     "free-running executions (ThreadSanitizer where available) are recorded and every consumer's history is explained by the specification. Concurrent "
     "schedules are those the scheduler produces.", observe=["what consumers receive and when they block"])

prop("C19", "A worker that heeds stop requests ends once asked, and only then",
     "A worker thread that waits for, or checks for, being asked to stop ends once it is asked, whenever the request comes relative to what it is doing, "
     "and no worker is stopped that was not asked. Moving a handle moves the right to stop, join and detach its worker; requests through handles that are empty, moved from or whose "
     "worker has ended do nothing. Destroying a handle or assigning over it waits for its worker, and a detached worker can still be asked.",
     ["schedules", "histories"],
     "every interleaving of starting, stopping, joining, detaching, moving, replacing and destroying workers that wait, poll, check once or ignore requests",
     "No test starts such a thread; lost wake-ups and use of ended threads' storage depend on schedules a test cannot force.",
     [T + "src/thread/stop_flag.cpp", T + "src/thread/stoppable_thread.cpp", T + "include/thread/stoppable_thread.hpp", T + "include/thread/stop_flag.hpp"],
     [("a flag per worker, set by the handle and waited for by the worker", T + "src/thread/stop_flag.cpp"), ("handles own a thread and reach its flag", T + "include/thread/stoppable_thread.hpp")],
     "TLA+ (TLC): exhaustive models of handles and of the request algorithm (liveness), behaviours replayed with the request forced between the worker's check and its sleep",
     "StopImpl shows for the algorithm, at the grain of single steps and with spurious wake-ups, that asked leads to ended; Stop's behaviours are replayed on real threads, the critical schedule "
     "being forced by holding the worker as it enters its wait. Other schedules are those the scheduler produces. Trusts the replay harness.", observe=["whether workers end, joinable(), whether waiting operations are over"])

prop("C15", "Leaves keep the contents and shape their history gives them",
     "Variables, placeholders and constants have contents exactly from their first initialisation or assignment on, of a shape they allow; initialisers fill "
     "the whole tensor, random ones with fresh numbers within their range. Copies of a leaf are equal and "
     "independent, a moved leaf takes its contents and dependents with it, and whatever depends on a leaf sees each change.",
     ["histories", "inputs"],
     "every history of creating, initialising, assigning, feeding, copying, moving and assigning leaves of any shape, with dependents attached",
     "Tests exercise each operation once on fresh leaves without dependents; partially known shapes and histories of several changes are not reached.",
     [LEAFS + "variable.ipp", LEAFS + "placeholder.ipp", LEAFS + "constant.ipp", LEAFS + "ileaf.ipp", LEAFS + "ivariable.ipp", T + "src/graph/inode.ipp", TS + "tensor_handler.ipp"],
     [("leaves own a tensor and an initialised flag", LEAFS + "ileaf.ipp"), ("initialisers fill a tensor", TS + "tensor_handler.ipp")],
     GS, GN, observe=["get_shape(), eval(), good_status()"])

prop("C17", "A rejected or failing request changes nothing and the graph recovers",
     "A request that cannot be carried out - operands whose shapes do not fit, a shape a leaf does not allow, initialisation without enough "
     "shape - is reported, and leaves, other nodes and their values stay as they were. A node whose operands were given a shape it cannot take works again "
     "as soon as they are given a suitable one.",
     ["histories", "inputs"],
     "every history in which failing requests are interleaved with successful ones",
     "Tests check that an error is thrown, and stop; what the graph does afterwards is not looked at.",
     [CONN + "immutable/immutable.ipp", CONN + "immutable/base_immutable.ipp", CONN + "iconnector.ipp", LEAFS + "variable.ipp", LEAFS + "placeholder.ipp"],
     [("shape functions reject operands on evaluation", CONN + "immutable/immutable.ipp")], GS, GN, observe=["exceptions, eval() and get_shape() afterwards"])

GNN = ("Every reachable state of a small instance satisfies the listed invariants and step properties; every sampled behaviour of the full model (up to four "
       "models, 1-3 layers of up to 3 features, batches up to 3, ~30 steps) is replayed into the real models (ASan) and compared after every step: all variables, all "
       "outputs. The definitions the specification logs for each value (matrix products, activations, optimizer steps) are evaluated in double precision by the "
       "harness. Trusts that evaluator, libm and the bounds.")
GSN = "TLA+ (TLC): exhaustive small model + TLC-generated behaviours, every value defined by the specification, replayed into the real models"

prop("C09", "Saved models come back exactly as saved, or freshly initialised, never mixed up",
     "Saving a model and initialising a model of the same layout from that file under the same name gives variables identical to those saved, in the same order, "
     "whatever else was saved to the file under other names. If the file is missing, damaged, or lacks any of the contents under that name (or holds them "
     "with another shape), the model is initialised afresh as a whole, within the bounds initial weights have; a failed save is reported and leaves the file alone.",
     ["histories", "fault_sequences"],
     "every history of saving models of several layouts under several names into several files, damaging or removing these, and initialising models from them",
     "The tests save and load one variable or use prebuilt files; several models in a file, overwriting, missing parts and damaged files are not reached.",
     [R + "src/compounds/icompound.cpp", R + "src/models/dq_net.cpp", R + "src/models/gd_net.cpp", R + "src/models/rbm.cpp", R + "src/models/db_net.cpp",
      T + "src/memory/tensor_io.ipp", T + "src/graph/inode.ipp", R + "src/layers/fc_layer.cpp"],
     [("contents are stored under a scope and a position", T + "src/memory/tensor_io.ipp"), ("a node takes contents by its label", T + "src/graph/inode.ipp"),
      ("models fall back to fresh initialisation", R + "src/compounds/icompound.cpp")], GSN, GNN, observe=["get_variables(), initialize(), save() and the file written"])

prop("C10", "Training moves every variable by the optimizer's rule for its own gradient",
     "A training step of a network on a batch changes every trained variable by exactly what the optimizer prescribes for the derivative of the squared error with respect to it, all "
     "derivatives taken before any variable changes, and leaves variables set aside unchanged. Optimizer state carries over from step to step, outputs are afterwards those "
     "of the changed variables, and fine-tuning a belief network moves all variables its output depends on, at once and by its rate. Networks that are copied or moved go on training from where they were, without affecting each other.",
     ["histories", "inputs", "configurations"],
     "every layout of up to three layers, activation, optimizer and rate, every history of training, fine-tuning, running, copying and moving networks, all contents",
     "The tests only look at whether error goes down in one demonstration; wrong factors, stale gradients or lost optimizer state still learn.",
     [R + "src/models/gd_net.cpp", R + "src/models/db_net.cpp", R + "src/compounds/mlp.cpp", R + "src/layers/fc_layer.cpp", T + "src/utils/gd_utils.cpp", T + "src/graph/leaf/variable.ipp",
      OPS + "matmul.ipp", OPS + "elementary.ipp", CONN + "iconnector.ipp"],
     [("optimizers turn gradients into updates prepared for all variables, then applied", T + "src/utils/gd_utils.cpp"), ("error graph", R + "src/models/gd_net.cpp")],
     GSN, GNN, observe=["train(), get_variables(), outputs"])

prop("C11", "An agent stores, trains and explores when and how its parameters say",
     "An agent keeps every n-th experience, at most as many as it may and always the newest one; it trains every m-th call once it has enough, and "
     "the step it takes follows the clipped gradient of the squared difference between its answer for the action taken and reward plus discounted best answer of its target network (nothing after a "
     "final state) on a batch of distinct remembered experiences, after which the target moves towards it at the given rate. Otherwise it acts on its best answer, except for random actions at the annealed probability.",
     ["histories", "inputs", "configurations"],
     "every history of storing, training, acting, copying and moving agents, for several parameter settings, layouts and optimizers",
     "The demonstration runs one fixed seed and setting; sampling, bookkeeping of counters, terminal states and target updates are not checked.",
     [R + "src/models/dq_net.cpp", T + "src/utils/gd_utils.cpp", R + "src/compounds/mlp.cpp"],
     [("experience memory and counters", R + "src/models/dq_net.cpp"), ("training graph over a batch", R + "src/models/dq_net.cpp")], GSN, GNN,
     observe=["store(), train(), action(), get_variables(), target's variables"])

prop("C14", "Training a Boltzmann machine follows contrastive divergence",
     "One training step moves the weights and both biases of a restricted Boltzmann machine by the learning rate times the difference between the statistics of the given batch and those of "
     "samples the machine draws itself in the prescribed number of alternations, starting from the batch or from a persistent chain, averaged over the batch. Every sampled unit is 0 or 1 with the "
     "probability the machine assigns it, drawn anew for each unit, row and step. A machine inside a belief network is trained the same way on what the layers below make of the input, and only it changes.",
     ["histories", "inputs", "configurations"],
     "every history of setting up trainings, training steps, assignments, copies and moves, for several layouts, batches, rates and numbers of alternations, persistent chains or not",
     "The tests of these models are disabled; the demonstration only looks at whether a reconstruction error goes down, which wrong signs, factors or stale samples can satisfy.",
     [R + "src/models/rbm.cpp", R + "src/models/db_net.cpp", OPS + "elementary.ipp", OPS + "matmul.ipp", T + "src/graph/leaf/variable.ipp", CONN + "immutable/immutable.ipp"],
     [("free energy of the batch against that of a sample, treated as constant", R + "src/models/rbm.cpp"), ("sampling as a graph operation", OPS + "elementary.ipp"),
      ("machines are trained one by one", R + "src/models/db_net.cpp")], GSN,
     GNN + " Samples are not observable: a step is accepted if some sample of positive probability explains it, frequencies are compared with the exact distribution (six standard deviations, fixed seed).",
     observe=["the returned training functions, get_variables(), reconstructions"])

prop("C18", "Layers and models compute their layout's function; copies are equal and apart",
     "Perceptrons, networks, belief networks, restricted Boltzmann machines and layers compute from any batch the function of their layout and current variables, and outputs built earlier keep following the variables. "
     "A copy has equal variables and shares none with its original; a moved model takes variables, outputs and training state along; whatever is done to one, "
     "assigned over or deleted, never shows in another.",
     ["histories", "inputs", "configurations"],
     "every history of building, initialising, assigning contents, evaluating, copying, moving, assigning over and deleting models of several kinds and layouts",
     "The tests of these models are disabled or try one copy of one layout; copies after use, moves and later changes are not looked at.",
     [R + "src/compounds/mlp.cpp", R + "src/layers/fc_layer.cpp", R + "src/layers/conv_layer.cpp", R + "src/models/rbm.cpp", R + "src/models/db_net.cpp", R + "src/models/gd_net.cpp", R + "src/models/dq_net.cpp"],
     [("layers own weight and bias variables", R + "src/layers/fc_layer.cpp"), ("models own layers and copy them", R + "src/compounds/mlp.cpp")], GSN, GNN,
     observe=["get_variables(), outputs"])

prop("C20", "Producers and consumers stay linked exactly; ends reach just who depends on them",
     "Who consumes which producer, at which positions, stays exactly what adding, removing, replacing, copying, moving, assigning and taking over consumers made of it, also when a consumer uses one producer "
     "several times or leaves gaps. A change reaches every consumer of the changed producer, and nobody else, once and with exactly its positions. When an object ends, each of its consumers is told once; "
     "exactly those end with it that cannot do without it, that were tied to it, or that have no consumer left and are not to outlive their last one.",
     ["histories"],
     "every history of creating, linking, unlinking, tying, copying, moving, assigning, taking over, notifying and destroying producers, consumers and objects that are both",
     "The tests link single observers to single subjects; repeated links, gaps, copies and moves with consumers attached, and cascades of destruction are not reached.",
     [T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp", T + "include/graph/react/subject.hpp", T + "include/graph/react/iobserver.hpp"],
     [("a subject maps each observer to the positions it is used at", T + "src/graph/react/subject.cpp"), ("an observer lists its subjects", T + "src/graph/react/iobserver.cpp")],
     "TLA+ (TLC): exhaustive small model + TLC-generated behaviours replayed into the real classes",
     "Every reachable state of the small model (3 objects) satisfies the invariants and step properties; every sampled behaviour (10 objects of 8 kinds, 30 steps) is replayed on subclasses of the real classes "
     "(ASan) and links, notifications, losses and ends are compared after every step. Trusts the replay harness and the bounds.",
     observe=["audience and dependency lists, update() and broken dependency calls, which objects are left"])

prop("C21", "A generated node follows its source's shape and keeps its contents otherwise",
     "A node that generates its contents has the shape of what it is made over, also when that is only known later or changes, and is filled by its initialiser once for every new shape; otherwise its contents stay, "
     "whatever happens to its source's contents. It ends with its source or, unless held otherwise, with its last user; copies are equal and then apart, a moved one takes its users with it. "
     "What is computed from it is always that of its present contents.",
     ["histories"],
     "every history of making generated nodes over leaves, computed and generated nodes, feeding and initialising leaves, computing over them, holding, dropping, copying, moving, assigning and destroying them",
     "The tests make one generator over one leaf; later shapes, equal-sized but different shapes, copies with users and ends are not looked at.",
     [CONN + "immutable/generator.ipp", CONN + "iconnector.ipp", CONN + "immutable/immutable.ipp", T + "src/graph/react/subject.cpp"],
     [("takes the shape of its dependency and lets the initialiser fill it", CONN + "immutable/generator.ipp")],
     "TLA+ (TLC): exhaustive small model + TLC-generated behaviours replayed into the real library",
     "Every reachable state of the small model (4 objects) satisfies the invariants and step properties; every sampled behaviour (12 objects, 28 steps) is replayed into the real library (ASan) and "
     "compared after every step. Trusts the replay harness and the bounds.", observe=["eval(), get_shape(), get_arguments(), audience sizes, which nodes are left"])

prop("C22", "The recorded graph lists exactly the links that exist, as they are",
     "When the library is built to record its graph, the record has at any time each link between a recordable consumer and a producer once, with its position, and nothing of objects that ended, "
     "whatever copying, moving, replacing or destroying happened in between. Written to a file, it gives for every node that is used by another one line per use with the names (or consistent numbers and labels), present shapes and position; "
     "restricted to one graph, it gives that graph's.",
     ["histories"],
     "every history of linking, unlinking, copying, moving, assigning and destroying, and of building and changing graphs; all forms of the written record",
     "No test builds the library with recording.",
     [T + "src/edgeinfo/adjlist_record.cpp", T + "include/edgeinfo/csv_record.hpp", T + "src/edgeinfo/csv_record.cpp", T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp"],
     [("attaching and detaching is captured, nodes are released when they end", T + "src/graph/react/subject.cpp"), ("edges by producer", T + "src/edgeinfo/adjlist_record.cpp"),
      ("one line per edge", T + "include/edgeinfo/csv_record.hpp")],
     "TLA+ (TLC): exhaustive small model + TLC-generated behaviours replayed into the library built with recording",
     "The behaviours of the models of C20 and C21 (10 and 12 objects, 28-30 steps) are replayed into the library compiled with EDGE_RCD and CSV_RCD (ASan); the recorder's edges and the written files are compared with "
     "the specification's links after the steps. The recorder that feeds viewers is C24. Trusts the replay harness and the bounds.",
     observe=["the recorder's edges, the file written"])

prop("C23", "A tensor's memory comes from its allocator and goes back to it, exactly once",
     "At any time every allocator has given out exactly one piece of memory, of the right size, for each tensor that has contents and uses it; whatever is given back goes to the allocator it is from, with its size, once. "
     "A tensor goes on using the allocator it was made with unless it takes over another tensor or is read from a message into a named one; copies use that of their original, and a refused request changes nothing. "
     "An allocator number is registered once, and unregistered numbers are refused.",
     ["histories", "inputs"],
     "every history of registering allocators and of making, allocating, reshaping, copying, moving, reading, releasing and destroying tensors over them",
     "The tests use the default allocator, which gives no account; the wrong allocator or size, leaks and double release do not show.",
     [T + "src/tensor/tensor.ipp", T + "src/memory/alloc_builder.cpp", T + "include/memory/alloc_builder.hpp", T + "include/memory/iallocator.hpp"],
     [("tensors allocate and release through their allocator", T + "src/tensor/tensor.ipp"), ("registry by number", T + "include/memory/alloc_builder.hpp")],
     "TLA+ (TLC): exhaustive small model + TLC-generated behaviours replayed with accounting allocators",
     "Every reachable state of the small model satisfies the invariants and step properties; every sampled behaviour (3 tensors, 3 accounting allocators, 28 steps) is replayed into real tensors (ASan), the "
     "allocators' accounts being compared after every step and at the end. Trusts the replay harness and the bounds.", observe=["what allocators are asked for and given back, the registry"])

prop("C24", "Whoever watches the graph from elsewhere ends up seeing what it is",
     "A viewer that subscribes over the network at any time is told, once the graph rests, every link there is and none that is gone, which nodes ended, and which changed since it last looked. "
     "Viewers come and go, properly or by breaking off, without disturbing each other or the graph; one that takes its leave is let go, and all are when the recorder stops. "
     "A recorder that cannot be reached leaves the graph working.",
     ["histories", "schedules", "fault_sequences"],
     "every history of graph changes, arrivals and departures (proper or not) of viewers and the end of the recorder, under every timing of the news to viewers",
     "The build with the viewer's server is never compiled by the tests; lost wake-ups, stale pictures and viewers never let go depend on timing.",
     [T + "src/edgeinfo/grpc_vis_record.cpp", T + "src/edgeinfo/grpc_vis/gui_notifier.cpp", T + "src/thread/shareable_cache.ipp", T + "src/graph/react/subject.cpp"],
     [("what the recorder hears", T + "src/edgeinfo/grpc_vis_record.cpp"), ("subscriptions", T + "src/edgeinfo/grpc_vis/gui_notifier.cpp")],
     "TLA+ (TLC): exhaustive small model with liveness + TLC-generated behaviours replayed with viewers connected to the real server",
     "Every reachable state of the small model satisfies the invariants, and every viewer that stays is told everything (liveness); every sampled behaviour (9 objects, 3 viewers, 34 steps) is replayed (ASan) with the "
     "server listening on a local socket and viewers in threads of their own; their pictures are compared with the specification's whenever it settles. Trusts gRPC, the replay harness and the schedules that happen.",
     observe=["what viewers are told, when subscriptions end"])
