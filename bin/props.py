"""The properties, the workloads that decide them, and the texts properties.jsonl and MANIFEST.json are made from."""
NRANKS = 6
ARR_REAL = ["DNDS: Array, ParArray, ArrayTransformer, ArrayPair, IndexMapping, MPI wrappers, CommStrategy, Profiling"]
SER_REAL = ["DNDS: SerializerH5, SerializerJSON, SerializerFactory, Array/ParArray/ArrayPair serialisation",
            "HDF5 1.x as installed (parallel build), nlohmann json, zlib, libstdc++ streams"]
STUB = ["MPI library (simulated: matching, buffering, progress, collectives)", "clocks and sleeps (virtual time)", "OpenMP runtime (fibers)"]
IOSTUB = STUB + ["MPI-IO (simulated on the scratch file system)", "write/read/open/close of scratch files (pass through, with injected failures)"]
ASSUME = ["the simulated MPI allows every behaviour the MPI standard allows that is drawn here and no other",
          "at most 6 ranks and small data per run; absence of a violation in the sampled runs is not a proof"]
TECH = "deterministic simulation with fault injection: seeded search over rank schedules, message delivery, faults and scenarios of the real code"


def M(name, where):
    return dict(name=name, where=where)


PROPS = {}


def prop(id, title, statement, over, text, why, files, mech, observe, segments, real, stub=STUB, assumptions=ASSUME, note=""):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                     segments=segments, real=real, stub=stub, assumptions=assumptions, note=note)


def seg(image, wl, quick, **kw):
    return dict(image=image, wl=wl, quick=quick, **kw)


prop("C01", "A ghost pull gives every ghost row the owner's current row",
     "After a pull of ghost data completes, every ghost row a rank holds equals, entry by entry, the row its owner held when the pull was started, and no owned row and nothing outside the ghost rows changed. "
     "This holds for every array layout (static, dynamic, bounded and compressed variable row sizes), every partition including empty ranks and empty rows, every ghost request list, one-shot and persistent pulls, repeated pulls with updates in between, arrays that borrow another array's mapping, and both communication strategies. "
     "Every pull completes on every rank, whatever the message timing and buffering.",
     ["schedules", "inputs", "configurations", "histories"],
     "all partitions and ghost lists, all layouts and element types, both strategies and their options, all MPI-legal delivery orders, buffering choices and rank interleavings",
     "The tests pull a few fixed arrays on 1, 2, 4 and 8 ranks with whatever timing shared-memory Open MPI gives (everything eager), mostly with the default strategy.",
     ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/Array.hpp", "src/DNDS/IndexMapping.hpp", "src/DNDS/MPI.cpp"],
     [M("hindexed send/receive types over the push list and the ghost layout", "src/DNDS/ArrayTransformer.hpp createMPITypes"),
      M("in-situ packing into contiguous buffers", "src/DNDS/ArrayTransformer.hpp startPersistentPull / waitPersistentPull, InSituPack"),
      M("persistent requests, throttled waits", "src/DNDS/ArrayTransformer.hpp initPersistentPull")],
     ["contents of father and son arrays after the pull"], [seg("arr", "pull", 20)], ARR_REAL)

prop("C02", "A ghost push puts every ghost row back into its owner's row",
     "After a push completes, every owned row that exactly one rank holds as a ghost equals that rank's ghost row, rows held by several ranks equal one of theirs entry by entry as a whole row, and all other owned rows and all ghost rows are unchanged. "
     "This holds for every layout, partition, ghost list, strategy, and one-shot or persistent use. Every push completes on every rank, whatever the message timing and buffering.",
     ["schedules", "inputs", "configurations", "histories"],
     "as for pulls, with several ranks holding the same row",
     "The tests push a handful of fixed patterns; overlapping ghosts, empty ranks and rendezvous delivery are not exercised.",
     ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/IndexMapping.hpp"],
     [M("reverse use of the pull types", "src/DNDS/ArrayTransformer.hpp initPersistentPush, pushOnce"),
      M("in-situ packing and unpacking", "src/DNDS/ArrayTransformer.hpp startPersistentPush / waitPersistentPush")],
     ["contents of father and son arrays after the push"], [seg("arr", "push", 20)], ARR_REAL)

prop("C03", "Global, local and ghost index mappings agree on all ranks",
     "For every partition, the global mapping sends each (rank, local index) pair to a distinct global index counted by rank order and its search inverts that; indices outside are reported as absent. "
     "For every list of requested ghosts, the ghost mapping lists each requested index once in ascending order, grouped by owner, search finds exactly the indices a rank owns or has as ghosts with the right position in each of its forms, and what a rank is listed to send is exactly what the others asked of it, in their order.",
     ["inputs", "schedules", "configurations"],
     "all partitions (empty ranks, one rank owning all), all ghost request lists with repeats, own indices and any order, pull-list and push-list construction",
     "The tests build a few regular mappings; each check of an inversion over all indices on drawn partitions and requests is out of their reach.",
     ["src/DNDS/IndexMapping.hpp", "src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp"],
     [M("prefix sums over Allgather'ed lengths", "src/DNDS/IndexMapping.hpp GlobalOffsetsMapping"),
      M("sorted unique pull lists, Alltoallv of requests", "src/DNDS/IndexMapping.hpp OffsetAscendIndexMapping")],
     ["mapping queries on every rank"], [seg("arr", "maps", 15)], ARR_REAL)

prop("C04", "Communication objects stay correct over their whole life",
     "Over any sequence of legal operations on a transformer or array pair (initialise, start, wait, re-initialise and clear persistent pulls and pushes, one-shot pulls and pushes, rebuilding types, re-mapping, borrowing mappings, copying and re-attaching, several arrays in flight at once), each completed pull or push has the same result as a direct copy between owners and ghosts at that point of the history. "
     "No such sequence deadlocks, leaves a message undelivered or a request unmatched, or touches a buffer while a transfer is using it.",
     ["histories", "schedules", "configurations"],
     "all legal operation histories up to the drawn length, over several arrays, and all MPI-legal timings",
     "The tests run fixed short scripts (init, start, wait, clear) on one array at a time.",
     ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/MPI.hpp", "src/DNDS/MPI.cpp"],
     [M("request ownership and release", "src/DNDS/MPI.hpp MPIReqHolder"),
      M("persistent start/wait/clear/re-init", "src/DNDS/ArrayTransformer.hpp")],
     ["contents of all arrays after each operation; message and request balance at the end"], [seg("arr", "life", 25)], ARR_REAL)

prop("C05", "What is written to an HDF5 archive is what is read back",
     "For every sequence of scalars, strings, vectors, byte arrays, distributed arrays and array pairs written to paths of one HDF5 archive and read by the same number of ranks, in any order and by the same or a later job, every rank reads back exactly its own values, sizes, row structure, ghost lists and sharing of vectors, bit by bit. "
     "This holds for every chunking, compression and collective-transfer setting, every distribution including ranks or arrays with no entries, and writing and reading always complete.",
     ["inputs", "schedules", "configurations", "histories"],
     "all item sequences, partitions, offsets kinds, serializer options and rank interleavings",
     "The tests write one fixed set of items with default options on a few ranks and read it in the same process.",
     ["src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerH5.hpp", "src/DNDS/SerializerFactory.hpp", "src/DNDS/Array.hpp", "src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp"],
     [M("hyperslab offsets from scans, rank_offsets dataset", "src/DNDS/SerializerH5.cpp WriteDataVector / ReadDataVector"),
      M("shared vectors by reference", "src/DNDS/SerializerH5.cpp WriteShared*"),
      M("array structure", "src/DNDS/Array.hpp WriteSerializer / ReadSerializer")],
     ["values read on each rank"], [seg("ser", "h5", 25)], SER_REAL, IOSTUB)

prop("C06", "What is written to a JSON archive is what is read back",
     "For every sequence of scalars with finite reals, strings, vectors, byte arrays, arrays and array pairs written to paths of per-rank JSON archives, every rank reads back exactly the values, sizes, row structure, ghost lists and sharing of vectors it wrote, in any order of reading, by the same or a later job, for every encoding and compression setting of byte data.",
     ["inputs", "configurations", "histories"],
     "all item sequences, options and read orders",
     "The tests write one fixed set of items per option and read it in the same process.",
     ["src/DNDS/SerializerJSON.cpp", "src/DNDS/SerializerJSON.hpp", "src/DNDS/SerializerFactory.hpp", "src/DNDS/Array.hpp", "src/DNDS/ArrayPair.hpp"],
     [M("json pointers per path", "src/DNDS/SerializerJSON.cpp CreatePath / GoToPath"),
      M("base64 + deflate of bytes", "src/DNDS/SerializerJSON.cpp WriteUint8Array / ReadUint8Array"),
      M("shared vectors by reference", "src/DNDS/SerializerJSON.cpp WriteShared*")],
     ["values read on each rank"], [seg("ser", "json", 15)], SER_REAL, IOSTUB)

prop("C07", "A failed or interrupted archive write is never taken for a good one",
     "If writing an archive fails in the file system (an error, a full disk, a short write, a file that cannot be opened or closed) or the job is killed at any point, then either the writer reports the failure by stopping, or the archive read by a later job holds exactly what was written. "
     "A read that fails in the file system is reported by stopping and never returns other values than those written.",
     ["fault_sequences", "crash_points", "schedules"],
     "all positions and kinds of one file-system failure (sticky or not) or one job kill during the write or the read of any archive",
     "No test injects a file-system failure or a crash.",
     ["src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerJSON.cpp"],
     [M("status checks on each HDF5 call", "src/DNDS/SerializerH5.cpp H5CHECK_*"),
      M("stream state checks", "src/DNDS/SerializerJSON.cpp OpenFile / CloseFile")],
     ["process abort, values read by the second job"],
     [seg("ser", "h5fault", 15), seg("ser", "jsonfault", 7)], SER_REAL, IOSTUB)

GEOM_REAL = ["DNDS: arrays, transformers, index mappings, MPI wrappers", "Geom: UnstructuredMesh, UnstructuredMeshSerialRW, Elements, PeriodicInfo, Quadrature tables", "METIS (when drawn)"]
GEOM_STUB = STUB + ["CGNS reader (the serial mesh arrays a reader leaves on the reading rank are filled from the drawn mesh)"]
MG = "all meshes the generator can draw (2D and 3D, every element type and mixes, first and second order, periodic in any set of directions with at least two cells along each (three for recovery of relations and refinement, which tell neighbours apart by vertices), several zones, warped nodes), all partitions including empty ranks and METIS ones, every reading rank, all communication options, all MPI-legal timings"
MASSUME = ASSUME + ["meshes of at most a few dozen cells; node coordinates identify nodes (the generator keeps them apart)"]

prop("C08", "Distributing a mesh preserves it",
     "When a mesh read on one rank is distributed with any partition, every cell, node and boundary element of the serial mesh is owned by exactly one rank, cells by the rank the partition names and boundary elements by the rank of their cell, with the same type, zone, node order, coordinates and periodic bits as before. "
     "The ghost cells of a rank are exactly the vertex neighbours of its cells owned elsewhere, its ghost nodes are exactly the foreign nodes of its owned and ghost cells, and all adjacency rows, global and local, name the same neighbours as the serial mesh. Going between global and local numbering and back changes nothing, counts and order queries agree on all ranks, pulling the ghost rows of any relation again changes nothing, and every step completes on every rank.",
     ["inputs", "schedules", "configurations"], MG,
     "No stable test distributes a mesh: the mesh tests need CGNS files and run, if at all, fixed meshes on fixed rank counts.",
     ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp", "src/Geom/Mesh_Serial_Partition.cpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp", "src/DNDS/ArrayTransformer.hpp"],
     [M("push index transfer of cells, nodes and boundaries", "src/Geom/Mesh_Serial_Partition.cpp PartitionReorderToMeshCell2Cell"),
      M("ghost layers", "src/Geom/Mesh.cpp BuildGhostPrimary"),
      M("numbering changes", "src/Geom/Mesh.cpp AdjGlobal2LocalPrimary / AdjLocal2GlobalPrimary"),
      M("periodic nodes made one", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp Deduplicate1to1Periodic")],
     ["all mesh arrays on all ranks compared with the serial mesh"], [seg("mesh", "dist", 20)], GEOM_REAL, GEOM_STUB, MASSUME)

prop("C09", "Interpolated faces are exactly the faces of the mesh, once",
     "After face interpolation, every face of the global mesh is owned by exactly one rank, the one of its first cell; each rank holds exactly the faces of its owned cells. Each face names the right one or two cells in the right order, the node order, periodic bits and geometry of its first cell, the right type and, on boundaries, the zone of its boundary element; the cell to face relation lists the face of each cell side at its position, for owned and ghost cells; and boundary elements and faces point to each other. "
     "This holds for every mesh and partition, periodic meshes included (with at least two cells along a periodic direction), and survives numbering changes.",
     ["inputs", "schedules", "configurations"], MG,
     "No stable test interpolates faces.",
     ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp", "src/Geom/PeriodicInfo.hpp", "src/Geom/Elements.hpp"],
     [M("matching of faces by sorted nodes and periodic bits, ghost faces, duplicates removed", "src/Geom/Mesh.cpp InterpolateFace"),
      M("boundary match", "src/Geom/Mesh.cpp AssertOnFaces")],
     ["face arrays on all ranks compared with the serial mesh"], [seg("mesh", "faces", 20)], GEOM_REAL, GEOM_STUB, MASSUME)

prop("C10", "Reordering local cells only renumbers",
     "After local cells are reordered, at any point of the mesh's life (before or after faces and inverse relations are built, in global or local numbering, repeatedly), every rank owns the same cells as before and every relation of the mesh on every rank, including ghost rows on other ranks, still describes the same mesh.",
     ["inputs", "schedules", "histories"], MG + ", all positions of reorderings among the other mesh operations",
     "No stable test reorders cells.",
     ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp", "src/Geom/Metis.hpp"],
     [M("permutation of the rows and of the entries that name cells, on the owner and on the ranks that hold ghosts", "src/Geom/Mesh.cpp ReorderLocalCells")],
     ["all mesh arrays on all ranks compared with the serial mesh"], [seg("mesh", "reorder", 20)], GEOM_REAL, GEOM_STUB, MASSUME)

prop("C11", "A mesh read from its archive is the mesh that was written",
     "A distributed mesh written to an HDF5 or JSON archive, whatever was done to it before (reordering, elevation, bisection, building of faces and relations), and read by the same number of ranks in the same or a later job, is the same mesh on every rank: the same owned and ghost cells, nodes and boundary elements, relations, zones, periodic data; and every operation on it (faces, inverse relations, outputs, reordering, refinement) gives what it gives for the mesh that was written. Writing leaves the mesh in memory unchanged.",
     ["inputs", "schedules", "configurations", "histories"], MG + ", all serializer options, operations before writing and after reading",
     "No stable test writes or reads a mesh.",
     ["src/Geom/Mesh.cpp", "src/Geom/PeriodicInfo.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerJSON.cpp"],
     [M("pairs with ghosts, read without re-communication", "src/Geom/Mesh.cpp WriteSerialize / ReadSerialize, src/DNDS/ArrayPair.hpp")],
     ["all mesh arrays on all ranks of the reading job"], [seg("mesh", "archive", 30)], GEOM_REAL + SER_REAL[1:], IOSTUB + GEOM_STUB[-1:], MASSUME)

prop("C12", "Node to cell and node to boundary relations invert the mesh on all ranks",
     "The node to cell and node to boundary relations list, for every node a rank owns or holds as a ghost, exactly the cells and boundary elements of the whole mesh that contain it, once each; recovering cell to cell and boundary to cell relations from cell to node gives the relations of the mesh again. This holds for every partition and periodic identification and survives numbering changes.",
     ["inputs", "schedules", "configurations"], MG,
     "No stable test builds inverse relations on a mesh.",
     ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp"],
     [M("contributions sent to node owners and pulled back", "src/Geom/Mesh.cpp RecoverNode2CellAndNode2Bnd"),
      M("neighbours by node", "src/Geom/Mesh.cpp RecoverCell2CellAndBnd2Cell")],
     ["relation rows on all ranks compared with the serial mesh"], [seg("mesh", "inverse", 15)], GEOM_REAL, GEOM_STUB, MASSUME)

prop("C13", "Order elevation and bisection refine the mesh consistently on all ranks",
     "Elevating a first-order mesh gives on every partition the same second-order mesh: one new node per distinct edge, face or cell as the element types need, shared by all cells that share it on any rank and across periodic boundaries, at the mean of its vertices. "
     "Bisecting a second-order mesh replaces each cell by first-order cells on the same rank that keep its zone, use only its nodes, and fill exactly its volume, with boundary elements split alike and neighbours conforming; the result is a mesh like any other for all further operations. "
     "Smoothing the elevated nodes of curved boundaries, and of the inside by radial functions, moves every node to the same finite place on every partition as on one rank (meshes without periodic directions).",
     ["inputs", "schedules", "histories"], MG + ", elevation and bisection repeated and mixed with other operations",
     "No stable test elevates or bisects a mesh.",
     ["src/Geom/Mesh_Elevation.cpp", "src/Geom/Mesh.hpp", "src/Geom/Elements.hpp", "src/Geom/Mesh.cpp"],
     [M("new nodes by owner of the smallest cell, found by the others by their vertices", "src/Geom/Mesh_Elevation.cpp BuildO2FromO1Elevation"),
      M("split tables", "src/Geom/Mesh_Elevation.cpp BuildBisectO1FormO2, src/Geom/Elements.hpp"),
      M("normals at boundary nodes, gathered boundary displacements, radial functions", "src/Geom/Mesh_Elevation.cpp ElevatedNodesGetBoundarySmooth, src/Geom/Mesh_Elevation_SmoothSolver.cpp ElevatedNodesSolveInternalSmooth")],
     ["all arrays of the refined mesh on all ranks"], [seg("mesh", "refine", 25), seg("mesh", "smooth", 8)], GEOM_REAL, GEOM_STUB, MASSUME)

prop("C14", "Gathered and parallel output describe the same mesh",
     "The arrays gathered on the output rank hold every node and cell of the mesh once in global order with the right types, zones and (for periodic meshes) periodic bits. The boundary mesh consists of the boundary elements it is asked for, each once, with nodes that lead to and from their parents. The parallel output connectivity gives, for every cell, its own nodes at their true places (periodic images included) with contiguous offsets over the ranks. Building any of these again, or after a change of the mesh, describes the mesh as it is then, and never changes it.",
     ["inputs", "schedules", "histories"], MG + ", outputs repeated and mixed with other operations",
     "No stable test writes mesh output.",
     ["src/Geom/Mesh.cpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp", "src/Geom/Mesh.hpp"],
     [M("gather of all rows on one rank", "src/Geom/Mesh.cpp BuildSerialOut"),
      M("boundary nodes counted by owners", "src/Geom/Mesh.cpp ConstructBndMesh"),
      M("periodic nodes made distinct again, scans for offsets", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp RecreatePeriodicNodes, BuildVTKConnectivity")],
     ["output arrays on all ranks"], [seg("mesh", "out", 20)], GEOM_REAL, GEOM_STUB, MASSUME)

CFV_REAL = GEOM_REAL[:2] + ["CFV: VariationalReconstruction (metrics, base functions, weights, all reconstruction and limiting procedures)"]
CASSUME = MASSUME + ["results on several ranks are compared with one rank within a tolerance that grows with the condition of the local systems of the drawn mesh; nearly singular drawings are left out"]

prop("C15", "Metrics and reconstruction do not depend on the partition",
     "Cell and face metrics (volumes, areas, normals, centres, length scales), gradients, variational reconstruction (Jacobi iterations, residuals, linearised iterations), smoothness indicators and limited reconstructions are, for each cell and face of the mesh, the same on any partition over any number of ranks, on ghost as on owned entities after a pull, as on one rank, to rounding. "
     "The same holds for global sums (total volume), for any number of OpenMP threads per rank, and for repeating a step from the same input. Every step completes on every rank.",
     ["inputs", "schedules", "configurations", "histories"], MG + ", all reconstruction orders, weights, gradient methods, limiter and boundary settings, all sequences of the procedures",
     "No stable test builds the finite volume metrics or reconstructs; the ones that would need CGNS meshes.",
     ["src/CFV/VariationalReconstruction.hpp", "src/CFV/VariationalReconstruction.cpp", "src/CFV/VariationalReconstruction_Reconstruction.hxx", "src/CFV/VariationalReconstruction_LimiterProcedure.hxx"],
     [M("metrics on owned entities, pulled or rebuilt for ghosts", "src/CFV/VariationalReconstruction.cpp ConstructMetrics"),
      M("face coefficients and local systems", "src/CFV/VariationalReconstruction.cpp ConstructBaseAndWeight / ConstructRecCoeff"),
      M("reconstruction and limiting procedures", "src/CFV/VariationalReconstruction_Reconstruction.hxx, VariationalReconstruction_LimiterProcedure.hxx")],
     ["metrics, gradients and coefficients of every cell and face on all ranks"], [seg("cfv", "rec", 35)], CFV_REAL, GEOM_STUB, CASSUME)

prop("C16", "Geometry closes and polynomials are reproduced on every partition",
     "On every mesh and partition the outward area vectors of each cell sum to zero, cell volumes sum to the volume of the domain, and face areas and centres are those of the faces. Gradients are exact for linear functions; a polynomial of at most the reconstruction order, given by its cell means and its boundary values, is a fixed point of the reconstruction iterations, and their residual, linearised and incremental forms agree with the iteration itself.",
     ["inputs", "schedules", "configurations"], MG.replace("periodic in any set of directions with at least two cells along each (three for recovery of relations and refinement, which tell neighbours apart by vertices), ", "") + ", non-periodic meshes for the polynomial clauses, all reconstruction orders and weights",
     "No stable test builds the finite volume metrics or reconstructs.",
     ["src/CFV/VariationalReconstruction.hpp", "src/CFV/VariationalReconstruction.cpp", "src/CFV/VariationalReconstruction_Reconstruction.hxx", "src/Geom/Quadrature.hpp", "src/Geom/Elements.hpp"],
     [M("quadrature of volumes, normals and moments", "src/CFV/VariationalReconstruction.cpp ConstructMetrics"),
      M("functional on faces, boundary terms", "src/CFV/VariationalReconstruction.cpp, VariationalReconstruction_Reconstruction.hxx")],
     ["metrics and coefficients on all ranks"], [seg("cfv", "exact", 30)], CFV_REAL, GEOM_STUB, CASSUME)

EULER_REAL = CFV_REAL + ["Euler: EulerEvaluator (residuals, time steps, implicit operator, limiters, wall distances, boundary conditions), Gas, boundary recorders, settings"]
EULER_STUB = GEOM_STUB + ["expression parser exprtk (not installed; initial values by expression are not used)"]
EASSUME = CASSUME + ["flow states are drawn with positive density and pressure away from vacuum"]
EVF = ["src/Euler/EulerEvaluator.hpp", "src/Euler/EulerEvaluator.hxx", "src/Euler/EulerEvaluator_EvaluateDt.hxx", "src/Euler/EulerEvaluator_EvaluateRHS.hxx", "src/Euler/Gas.hpp", "src/Euler/EulerBC.hpp"]
EG = "all meshes of the generator (conforming cell mixtures with curved or periodic parts), all partitions over up to 5 ranks including empty ranks, all schedules, 1 to 3 threads per rank"

prop("C17", "Flow residuals, time steps and norms do not depend on the partition",
     "For a given mesh, boundary conditions, settings and flow field, the residual of every cell and its source Jacobian, face spectral radii, local and global time steps, positivity-preserving factors of reconstructions and increments, limited gradients, smoothed residuals, initial fields, boundary anchors, profiles and integrals, wall forces and all norms and dot products are the same on any partition over any number of ranks and threads as on one rank, to rounding, and every evaluation completes on every rank. "
     "Norms are the norms of their definition over all owned cells; time averages are the weighted means of what was added; limited increments keep density and pressure positive in every cell.",
     ["inputs", "schedules", "configurations", "histories"], EG + ", laminar and inviscid models in two and three dimensions, all Riemann solvers and evaluator settings, all kinds of boundary conditions, all sequences of the procedures",
     "No stable test evaluates a residual; the solver is only run by hand on large cases, where a result that depends on the partition is taken for convergence noise.",
     EVF, [M("face fluxes over owned and ghost faces, boundary accumulators reduced over ranks", "src/Euler/EulerEvaluator_EvaluateRHS.hxx"),
           M("spectral radii and their minimum over ranks", "src/Euler/EulerEvaluator_EvaluateDt.hxx"),
           M("norms, positivity factors, smoothing", "src/Euler/EulerEvaluator.hxx"),
           M("anchor, profile and integral recorders", "src/Euler/EulerBC.hpp")],
     ["residuals, time steps, factors of every cell and reduced values on all ranks"], [seg("euler", "eval", 35), seg("euler3", "eval", 25)], EULER_REAL, EULER_STUB, EASSUME)

prop("C18", "The flow residual conserves and preserves a free stream on every partition",
     "Summed over all cells of all ranks, volume times residual equals the flux recorded through the boundary faces, for every conserved variable without source terms: what leaves one cell through a face, periodic or between ranks, enters the other, whatever the settings. A uniform flow is left unchanged in every cell of a mesh that is closed by periodic or far-field boundaries of the same state; seen from a rotating frame, only its momentum turns.",
     ["inputs", "schedules", "configurations"], EG + ", laminar and inviscid models in two and three dimensions, all Riemann solvers and settings without source terms",
     "No stable test evaluates a residual.",
     EVF, [M("one flux per face, added with opposite signs", "src/Euler/EulerEvaluator_EvaluateRHS.hxx EvaluateRHS"),
           M("Riemann solvers", "src/Euler/Gas.hpp")],
     ["residuals of all cells and boundary fluxes on all ranks"], [seg("euler", "cons", 30), seg("euler3", "cons", 20)], EULER_REAL, EULER_STUB, EASSUME)

prop("C19", "The implicit operator and its solvers share one solution on every partition",
     "The diagonal blocks of the implicit operator, its product with any increment and a Jacobi sweep are the same on any partition as on one rank. If b is the product of the operator with x then x is a fixed point of Jacobi, forward and backward sweeps, the two forms of a sweep agree, and the complete local factorisation, for every ordering, gives back x from the values of the neighbouring ranks.",
     ["inputs", "schedules", "configurations"], EG.replace(", 1 to 3 threads per rank", "") + ", all Jacobian forms, orderings and fill levels, steady and unsteady steps",
     "No stable test builds the implicit operator of the flow.",
     EVF[:2] + ["src/Euler/EulerJacobian.hpp", "src/Solver/Direct.hpp", "src/Geom/Mesh.cpp"],
     [M("matrix-free products and sweeps over owned cells with ghost increments", "src/Euler/EulerEvaluator.hxx LUSGSMatrixVec / UpdateSGS / UpdateLUSGSForward / UpdateLUSGSBackward"),
      M("rank-local factorisation", "src/Euler/EulerEvaluator.hxx LUSGSMatrixToJacobianLU, src/Solver/Direct.hpp, src/Geom/Mesh.cpp ObtainLocalFactFillOrdering")],
     ["increments of every cell on all ranks"], [seg("euler", "solve", 30), seg("euler3", "solve", 15)], EULER_REAL, EULER_STUB, EASSUME)

prop("C20", "Wall distances are the distances to the nearest wall on every partition",
     "With every scheme, execution mode and batch size the distance to the wall of every cell and face is the same on any partition over any number of ranks as on one rank, and the geometric schemes give, at every quadrature point, the distance to the nearest point of all wall boundaries of the whole mesh, raised to the configured minimum. Every scheme completes on every rank, also on ranks without walls or cells.",
     ["inputs", "schedules", "configurations"], EG + ", all schemes, execution modes, batch sizes and refinement bounds; straight-sided two-dimensional meshes without periodic boundaries for the comparison with the definition",
     "No stable test computes a wall distance.",
     ["src/Euler/EulerEvaluator_EvaluateDt.hxx", "src/Euler/EulerEvaluator.hpp"],
     [M("walls gathered from all ranks, searched rank by rank or in batches", "src/Euler/EulerEvaluator_EvaluateDt.hxx GetWallDist"),
      M("distance from a Poisson equation with ghost exchange", "src/Euler/EulerEvaluator_EvaluateDt.hxx GetWallDist")],
     ["wall distances on all ranks"], [seg("euler", "wall", 30), seg("rans", "wall", 15)], EULER_REAL, EULER_STUB, EASSUME)

prop("C21", "Turbulence models evaluate the same on every partition",
     "With the Spalart-Allmaras and the two-equation models (Wilcox and SST k-omega, realizable k-epsilon), including their wall distances, source terms, source Jacobians and limiters, residuals, time steps, operators, sweeps, norms and positivity factors are the same on any partition over any number of ranks and threads as on one rank; the solvers share the fixed point of the operator; every evaluation completes on every rank.",
     ["inputs", "schedules", "configurations", "histories"], EG + ", two-dimensional meshes, both turbulence model classes and all their options",
     "No stable test evaluates a residual.",
     EVF + ["src/Euler/RANS_ke.hpp"],
     [M("source terms from wall distance and gradients", "src/Euler/EulerEvaluator.hpp source, src/Euler/RANS_ke.hpp"),
      M("fluxes and implicit terms of the model variables", "src/Euler/EulerEvaluator_EvaluateRHS.hxx, src/Euler/EulerEvaluator.hxx")],
     ["residuals, time steps, factors and increments of every cell on all ranks"], [seg("rans", "eval", 35), seg("rans", "solve", 15)], EULER_REAL, EULER_STUB, EASSUME)

SOLVER_REAL = ["Solver: GMRES, PCG, Direct (symbolic factorisation, LU, LDLT), ODE (all integrators), Scalar", "Euler: ArrayDOFV, ArrayRECV, JacobianLocalLU, JacobianLocalLDLT", "DNDS: arrays, transfers, MPI wrappers"]
SG = "up to 10 rows of two unknowns over up to 5 ranks including empty ones, all couplings and ghost lists, all schedules and delivery orders, 1 to 3 threads per rank"

prop("C22", "Distributed vectors and linear solvers compute what their definitions say",
     "Operations on distributed vectors act alike on owned and ghost rows; dot products, norms and extrema count every owned row once and are the same on every rank. "
     "GMRES reports the true preconditioned residual, never lets it grow, minimises it over the Krylov space of one cycle and solves the system once that space is exhausted; PCG, run in one piece or continued in pieces, never lets the energy error grow and solves the system. All ranks take the same number of steps and stop together, on every partition. "
     "A rank-local complete LU or LDLT factorisation, for every ordering, inverts the rank's part of the matrix; incomplete ones stay finite; both can be refilled and repeated.",
     ["inputs", "schedules", "configurations", "histories"], SG + ", all operators over the graph (general and symmetric positive definite, multiples of the identity), starting values, right hand sides, subspace sizes, restarts, fill levels and orderings",
     "No stable test runs a linear solver on distributed vectors.",
     ["src/Solver/Linear.hpp", "src/Solver/Direct.hpp", "src/Euler/Euler.hpp", "src/Euler/EulerJacobian.hpp"],
     [M("Arnoldi process and least squares with reduced dot products", "src/Solver/Linear.hpp GMRES_LeftPreconditioned"),
      M("conjugate directions kept between calls", "src/Solver/Linear.hpp PCG_PreconditionedRes"),
      M("fill structure and factorisation", "src/Solver/Direct.hpp"), M("reductions over owned rows", "src/Euler/Euler.hpp ArrayDOFV, ArrayRECV")],
     ["vectors and residuals on all ranks"], [seg("solver", "vec", 10), seg("solver", "krylov", 20), seg("solver", "direct", 10)], SOLVER_REAL, STUB, ASSUME)

prop("C23", "Time integrators advance distributed states by their schemes",
     "Each integrator (implicit Euler, SDIRK4, ESDIRK4, BDF1 to BDF4, variable-step BDF1 and BDF2, the three Hermite variants, SSPRK3 with global or local steps), with or without the positivity variant when nothing has to be limited, advances the state by the solution of its scheme for the whole history of steps: the multistep schemes use the last values with their own step sizes, stages are evaluated at their own times, and SDIRK4 and ESDIRK4 are of fourth order for time-dependent nonlinear problems. "
     "The residual handed to the solver is the sum of its documented parts, the state and the increment handed to a positivity limiter add up to the state the step aims at, limited steps keep the bound and are the same on every rank, and all ranks iterate and stop alike on every partition.",
     ["inputs", "schedules", "histories", "configurations"], SG.replace("10 rows", "6 rows") + ", nonlinear time-dependent systems, histories of up to 5 steps of constant or varying size, exact and under-relaxed inner solvers",
     "No stable test runs an integrator.",
     ["src/Solver/ODE.hpp", "src/Solver/Scalar.hpp"],
     [M("ring of previous states and steps", "src/Solver/ODE.hpp ImplicitBDFDualTimeStep, ImplicitVBDFDualTimeStep"),
      M("stage loops and end point reuse", "src/Solver/ODE.hpp ImplicitSDIRK4DualTimeStep, ImplicitHermite3SimpleJacobianDualStep"),
      M("step limit by bisection", "src/Solver/ODE.hpp LimitDt_StepPPV2")],
     ["states after each step on all ranks"], [seg("solver", "ode", 35)], SOLVER_REAL, STUB, ASSUME)

RG = "two-dimensional meshes (structured and unstructured cells, first and second order, periodic or not) of up to 60 cells, any distribution over 1 to 5 ranks with empty ranks, 1 to 3 threads per rank, order 1 to 3, all Riemann solvers and boundary types that need no input file"
RUN_REAL = EULER_REAL + ["EulerSolver<NS_2D>: initialisation from a configuration, mesh archive, RunImplicitEuler, output and restart files"]
prop("C24", "A whole flow run is the same on every partition",
     "A run of the flow solver from one configuration and one mesh gives, after all its steps, the same flow, the same time average and the same log (step sizes, residuals, limiter counts, wall forces) on any partition over any number of ranks and threads as on one rank, for every time integrator, reconstruction solver (Jacobi sweeps, GMRES, PCG), linear solver (Jacobi, GMRES preconditioned by it), multigrid level, limiter, lift driver and output setting; it completes on every rank and leaves the files the configuration asks for. Rounding, magnified by Krylov solvers and limiters, is the only difference.",
     ["inputs", "schedules", "configurations", "histories"], RG + ", 1 to 3 steps of 1 to 4 inner iterations",
     "No stable test runs a flow solver.",
     ["src/Euler/EulerSolver.hxx", "src/Euler/EulerSolver_Init.hxx", "src/Euler/EulerSolver.hpp", "src/Euler/EulerSolver_PrintData.hxx"],
     [M("the time loop and its decisions by reduced values", "src/Euler/EulerSolver.hxx RunImplicitEuler, src/Euler/EulerSolver_Init.hxx functor_fstop / functor_fmainloop"),
      M("ghost cells after each update", "src/Euler/EulerSolver.hxx fincrement, solveLinear, frhs"),
      M("output collected over ranks", "src/Euler/EulerSolver_PrintData.hxx PrintData")],
     ["flow and time average of every cell, log lines"], [seg("run", "part", 50)], RUN_REAL, EULER_STUB, EASSUME)

prop("C25", "A run continued from its restart file continues the run",
     "Writing restart files does not change a run. After a run has ended its configuration names the restart file of the last step for which one was due, whatever intervals, kinds of names and covering are configured, and the file holds the flow of that step exactly, for JSON and HDF5 writers, stamped or overwritten in place. After a run was killed at any point, the last complete configuration file names nothing or a restart that holds the flow of one single step in all cells of all ranks, or reading it is refused: never a mixture of steps. A run continued from it, with a one-step integrator, gives the flow of the uninterrupted run. A run that takes over some variables of another run's restart has those and its own initial values in the others.",
     ["crash_points", "inputs", "schedules", "configurations", "histories"], RG + ", 1 to 3 steps; kills at any file transfer or scheduler step of the job; for HDF5 writers only files with the step in their name are considered after a kill",
     "No stable test writes or reads a restart file of the solver, and none is killed.",
     ["src/Euler/EulerSolver.hpp", "src/Euler/EulerSolver_Init.hxx", "src/DNDS/SerializerJSON.cpp", "src/DNDS/SerializerH5.cpp"],
     [M("all ranks have written before the configuration names the file", "src/Euler/EulerSolver.hpp PrintRestart / PrintConfig"),
      M("flow restored over the initial values", "src/Euler/EulerSolver.hpp ReadRestart"),
      M("when restarts are written", "src/Euler/EulerSolver_Init.hxx functor_fmainloop")],
     ["files left by the killed job, flow of every cell after each step"], [seg("run", "restart", 50)], RUN_REAL, EULER_STUB, EASSUME)

NOT_APPLICABLE = []
