#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    a = {"files": ["fv3gfs/util/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Collective calls are aligned on every rank",
     "Every public operation that communicates collectively (scatter, gather, state scatter and gather, tile communicator creation, Zarr archive creation and append, restart loading) makes every rank of the communicator issue the same sequence of collective calls with the same root. "
     "The sequence never depends on which rank executes it, on optional per-rank arguments such as pre-allocated receive objects, or on the rank-local iteration order of a dictionary or set.",
     ["inputs", "schedules", "configurations"],
     "for every rank, every combination of optional arguments given on some ranks only, every key order of the state dictionaries, every number of variables and ranks",
     "the tests run all ranks in one process in rank order with a mock, on dictionaries built in the same order, or on 6 MPI ranks with the same arguments everywhere; a divergence on another argument combination or key order hangs a real run",
     ["communicator.py", "zarr_monitor.py", "_legacy_restart.py"],
     [("matching collectives in both arms of the root test", "communicator.py Communicator.scatter/gather/scatter_state/gather_state"),
      ("name list broadcast from root drives the loop", "communicator.py Communicator.scatter_state"),
      ("sorted state items", "zarr_monitor.py ZarrMonitor.store")])

prop("C02", "Halo messages pair up one to one and cannot deadlock or cross",
     "In each scalar or vector halo update and each interface synchronisation, every rank posts for each neighbouring boundary (or shared edge) exactly one send and one matching receive per exchanged field, to and from the rank across that boundary and with the same tag. "
     "Two fields or two updates that may be in flight together never share a tag when they could be confused, every send is posted without blocking before any receive blocks, nothing blocks before the returned request is waited on, and waiting on it completes every send and every receive.",
     ["schedules", "histories", "inputs"],
     "for every interleaving of ranks, every number of updates in flight, waited on in any order, every set of boundaries a rank has",
     "the tests start and wait few updates in a fixed order; a tag collision or blocked send only shows with several updates in flight or with large (rendezvous) messages",
     ["communicator.py"],
     [("fresh tag per update and per field", "communicator.py CubedSphereCommunicator._get_halo_tag"),
      ("one Isend and one receive per boundary", "communicator.py _Isend_halos/_Irecv_halos/_Isend_vector_halos/_Isend_vector_shared_boundary/_Irecv_vector_shared_boundary"),
      ("wait on all requests", "communicator.py HaloUpdateRequest.wait")],
     state=[("last halo tag", "last tag handed out; only ever grows", "communicator.py CubedSphereCommunicator._last_halo_tag")])

prop("C03", "Halo updates send interior points and write exactly the halo",
     "At each of the eight boundaries of a subdomain, a halo update of depth n reads exactly the n layers of compute-domain points next to the boundary (skipping the shared point of staggered dimensions) and writes exactly the n halo layers outside the compute domain, spanning the whole compute domain along every other dimension. "
     "A request that would reach outside the allocated array raises an out-of-bounds error instead of wrapping or truncating; the two sides of a boundary always have matching shapes.",
     ["inputs", "configurations"],
     "for every origin, extent, array shape, halo depth, dimension order and mix of centred, staggered and non-horizontal dimensions",
     "tests sample a handful of small shapes and depths; the region arithmetic must be right for all of them",
     ["boundary.py", "_boundary_utils.py"],
     [("slice arithmetic per dimension", "_boundary_utils.py get_boundary_slice"),
      ("send and receive views", "boundary.py Boundary.send_view/recv_view, SimpleBoundary._view")])

prop("C04", "Rotations of scalars and vectors are exact quarter turns",
     "Rotating scalar data n times clockwise moves every point exactly as n quarter turns in the x-y plane do, for any dimension order, leaving other dimensions alone; data with only one horizontal dimension is reversed or not as an edge of the turned tile would be. "
     "Vector rotation additionally exchanges and negates the components by the same quarter turns, so n and -n turns cancel and four turns are the identity, and neither modifies its input.",
     ["inputs", "configurations"],
     "for every rotation count (any integer), every dimension order, staggering and shape",
     "tests sample fixed arrays and few dimension orders",
     ["rotate.py"],
     [("rotation by n modulo 4", "rotate.py rotate_scalar_data"), ("component exchange and sign", "rotate.py rotate_vector_data")])

prop("C05", "Cubed-sphere neighbour relation is geometrically consistent",
     "For every square layout and every rank, the neighbour reported across an edge and the rotation count are those of the folded cube: crossing the edge and coming back through the neighbour's corresponding edge returns to the starting rank with the inverse rotation, positions along a tile edge are matched with the orientation the rotation implies, and inside a tile neighbours are the adjacent subtiles. "
     "A diagonal neighbour is the rank reached by composing two edge crossings (with their rotations), and it is absent exactly at the corners of tile faces.",
     ["configurations", "inputs"],
     "for every n x n layout, every rank, every one of the eight boundary types",
     "tests enumerate a few layouts (1x1 to 3x3); layouts used in production are not covered",
     ["partitioner.py"],
     [("edge and corner functions", "partitioner.py CubedSpherePartitioner._left_edge.._bottom_right_corner"),
      ("rank rotations on the tile", "partitioner.py rotate_subtile_rank, fliplr_subtile_rank")],
     observe=["CubedSpherePartitioner.boundary"])

prop("C06", "Single-tile neighbour relation is the doubly periodic grid",
     "For every layout of rows by columns and every rank of a tile, the neighbour across each edge is the adjacent subtile with periodic wrap-around, the diagonal neighbours are compositions of the two edge moves, and no rotation is reported. "
     "The tile-edge predicates are true exactly for the subtiles in the first or last row or column.",
     ["configurations", "inputs"],
     "for every layout including non-square ones and single rows or columns, every rank",
     "tests enumerate a few small layouts",
     ["partitioner.py"],
     [("edge and corner functions", "partitioner.py TilePartitioner._left_edge.._bottom_right_corner, on_tile_*")],
     observe=["TilePartitioner.boundary", "TilePartitioner.on_tile_left/right/top/bottom"])

prop("C07", "Subtile regions tile the domain and extents are exact",
     "For every layout and every domain size divisible by it, the non-overlapping regions of all ranks, each at the row and column of its rank, partition the tile (or cube) exactly, assigning each shared staggered point once, and the overlapping regions extend each one by exactly the shared staggered points; each overlapping region has the extent reported for a rank. "
     "Global extent and rank extent are exact inverses of each other for every layout size, without floating-point loss.",
     ["configurations", "inputs"],
     "for every layout, rank, dimension order, mix of centred, staggered and non-horizontal dimensions, and domain size",
     "tests use layouts up to 4x4 and a few sizes; some layouts only fail through rounding of a reciprocal",
     ["partitioner.py", "utils.py"],
     [("slice arithmetic", "partitioner.py subtile_slice, _IndexData1D"),
      ("extent conversion", "partitioner.py tile_extent_from_rank_metadata, rank_extent_from_tile_metadata, extent_from_metadata")],
     observe=["TilePartitioner.subtile_slice/subtile_extent/global_extent", "CubedSpherePartitioner.subtile_slice/subtile_extent/global_extent"])

prop("C08", "Scatter and gather route each rank's region to that rank",
     "Scatter delivers to each rank exactly its own overlapping region of the root quantity's compute domain, and gather writes each rank's compute domain into exactly that rank's overlapping region of the root's result, for every rank of the communicator and independently of halo widths. "
     "Quantities allocated by these operations carry the sender's dimension names, units, data type and backend (with the tile dimension added or removed for the whole cube), and a supplied receive object is filled in place and returned.",
     ["inputs", "configurations"],
     "for every layout, halo width, dtype, dimension order, with and without pre-allocated receive quantities, on every rank",
     "tests sample small layouts, float64 and few dimension orders",
     ["communicator.py"],
     [("pack by rank", "communicator.py Communicator.scatter"), ("unpack by rank", "communicator.py Communicator.gather"),
      ("allocation of receive quantities", "communicator.py _get_scatter_recv_quantity/_get_gather_recv_quantity")])

prop("C09", "State scatter and gather transfer every variable and only those",
     "State scatter and gather transfer every variable of the sending state under its own name, take time from the root rank, reuse a pre-allocated quantity of the same name when there is one, and return the receiving state. "
     "Entries of a pre-allocated receiving state that are not being transferred are left as they were, including its time when none was sent.",
     ["inputs", "configurations"],
     "for every set of names, presence or absence of time in either state, with or without pre-allocated states, on every rank",
     "tests use few states and never a receiving state with extra entries and a sender without time",
     ["communicator.py"],
     [("root and client halves", "communicator.py Communicator.scatter_state"), ("per-name gather", "communicator.py Communicator.gather_state")])

prop("C10", "Zarr archive: every rank writes exactly its own region and chunks",
     "Each stored snapshot goes to the next time index, and each rank writes its compute domain to exactly its own non-overlapping region of its own tile, so that the ranks together fill every point of the snapshot once. "
     "For every layout no two ranks write into the same chunk, arrays keep the quantity's dtype, and dimension names (time and tile first) and units are recorded.",
     ["inputs", "configurations", "histories"],
     "for every layout, dimension order, staggering and number of stored snapshots",
     "tests use layouts up to 4x4 with one process, where concurrent writes to one chunk cannot be seen",
     ["zarr_monitor.py", "partitioner.py"],
     [("target and source slices", "zarr_monitor.py _ZarrVariableWriter.append, _get_from_slice"), ("chunk sizes", "zarr_monitor.py array_chunks")])

prop("C11", "Zarr archive rejects inconsistent snapshots without touching it",
     "A snapshot whose variable names, dimensions, extents, units or calendar disagree with what was stored first is rejected with an error on every rank before anything is written, resized or appended for it. "
     "The archive and the monitor are then as they were, and a following valid snapshot is stored at the same time index for every variable.",
     ["histories", "inputs"],
     "for every sequence of valid and invalid snapshots and every variable at which the disagreement occurs",
     "tests check only that an error is raised for one single-variable case, not what was written before it, nor on ranks other than the root",
     ["zarr_monitor.py"],
     [("name check", "zarr_monitor.py ZarrMonitor._check_writers"), ("attribute check", "zarr_monitor.py _ZarrVariableWriter.ensure_compatible"),
      ("calendar check", "zarr_monitor.py _ZarrTimeWriter.ensure_compatible")])

prop("C12", "Views address the compute domain, never the halo by default",
     "Indexing a quantity's view with omitted or open-ended slices addresses exactly the compute domain in every dimension, and explicit non-negative indices and slice bounds count from its start. "
     "The four corner views count from the corresponding corner of the compute domain, the interior view counts slice starts from its start and slice stops from its end; reading, assigning and selecting by dimension name address the same points, and all views alias the quantity's data.",
     ["inputs", "configurations"],
     "for every origin, extent, shape, number and order of dimensions, index form and view",
     "tests enumerate small hand-written cases of one to three dimensions",
     ["quantity.py", "_boundary_utils.py"],
     [("index shifting", "quantity.py BoundedArrayView._get_compute_index, BoundaryArrayView._get_array_index"), ("offsets", "_boundary_utils.py _get_offset, _shift_boundary_slice")],
     observe=["Quantity.view[...]", "Quantity.view.<corner>[...]", "Quantity.sel", "view.<corner>.sel"])

prop("C13", "Quantities are fully initialised and keep their metadata",
     "Constructing a quantity from any documented kind of data (array, scalar or list, data array) with or without origin and extent either raises a documented error or yields an object on which every public accessor works, whose origin, extent and dimensions have one entry per array dimension. "
     "Transposing permutes data, dimension names, origin and extent by one and the same permutation and keeps units and backend; changing a dictionary or sequence that was given to the constructor or handed out by an accessor does not change the quantity, and a quantity's data, view and storage are always the same memory.",
     ["inputs", "configurations"],
     "for every kind of data, dimension order, origin and extent, and every target dimension order including dimension groups",
     "tests construct from numpy arrays only, with few dimension orders",
     ["quantity.py"],
     [("constructor", "quantity.py Quantity.__init__"), ("permutation", "quantity.py Quantity.transpose, transpose_sequence, _collapse_dims")])

prop("C14", "Buffers handed to MPI are contiguous",
     "Every array passed to a message-passing call (point-to-point or collective) is a C-contiguous array holding the values to be sent in the order in which they are received, or one from which the received values reach the destination before the operation completes, whatever the memory layout or array library of the user's quantity. Halo updates and synchronisations send host memory also when the quantity is on a device.",
     ["inputs", "configurations"],
     "for every memory order, strides, dimension order and array library (CPU or GPU)",
     "no GPU in the tests, the mock accepts Fortran-ordered arrays that MPI would send in the wrong order, and only few strides are sampled",
     ["communicator.py", "buffer.py", "utils.py"],
     [("contiguous copy before Isend", "communicator.py CubedSphereCommunicator._Isend"), ("send and receive buffers", "buffer.py send_buffer/recv_buffer"), ("contiguity test", "utils.py is_c_contiguous")])

prop("C15", "A pooled buffer has one user at a time and matches its request",
     "A buffer obtained from the buffer pool has exactly the requested allocator, shape and dtype, is not available to anyone else until its context ends, and is returned to the pool exactly once after its last use. "
     "No memory of the pool is kept, returned or used by a communication that is still in flight after the context has ended.",
     ["histories", "schedules", "inputs"],
     "for every nesting and sequence of buffer uses, shapes and dtypes, and every overlap of asynchronous communications",
     "tests use a buffer at a time; a premature return only corrupts data when two uses of the same shape overlap",
     ["buffer.py", "communicator.py"],
     [("take from and return to the pool", "buffer.py array_buffer"), ("asynchronous sends do not use the pool", "communicator.py CubedSphereCommunicator._Isend")],
     state=[("buffer pool", "free buffers by allocator, shape, dtype", "buffer.py BUFFER_CACHE")])

prop("C16", "Timers and stream capture are restored on every exit",
     "Leaving a timed block or a stream-capture block, normally or by an exception, always stops the clock that was started and always restores the captured stream to its original destination, releasing every descriptor and temporary file it acquired. "
     "A failed halo update therefore leaves the communicator's timer usable for the next one, and exceptions from the block propagate.",
     ["fault_sequences", "histories"],
     "for an exception at any point of the block, any nesting and repetition",
     "tests leave the blocks normally",
     ["_timing.py", "_capture_stream.py", "buffer.py", "communicator.py"],
     [("clock context", "_timing.py Timer.clock"), ("redirection", "_capture_stream.py capture_stream"), ("manual start/stop", "buffer.py send_buffer/recv_buffer")])

prop("C17", "Timer accounting is consistent and inert when disabled",
     "Each completed start/stop pair adds the elapsed time and exactly one hit to that name, so times and hits always have the same names; starting a running clock and disabling with clocks running raise errors and change nothing. "
     "A disabled timer records nothing, a null timer is disabled and can never be enabled, reset clears both accumulations, and the reported mappings are copies whose modification does not affect the timer.",
     ["histories"],
     "for every sequence of start, stop, enable, disable, reset and query operations on any names",
     "tests run a few fixed sequences",
     ["_timing.py"],
     [("accumulation", "_timing.py Timer.start/stop/reset/enable/disable/times/hits, NullTimer")])

prop("C18", "Operations modify only what they are documented to modify",
     "Computing nudging tendencies, sending, scattering from the root, gathering, writing state to disk, converting, transposing, rotating, allocating and storing to an archive never modify the data, metadata or dictionaries of their inputs. "
     "Applying nudging modifies only the compute domains of the nudged variables of the state, halo updates and synchronisation only the halo or shared edges of the given quantities, scatter and gather only the receiving objects.",
     ["inputs"],
     "for every input, including views and arrays shared between arguments",
     "tests compare a few inputs before and after; in-place operations on an alias of an argument are easily missed",
     ["nudging.py", "communicator.py", "quantity.py", "rotate.py", "io.py", "_xarray.py", "zarr_monitor.py"],
     [("writes go through the receiving views only", "communicator.py, nudging.py _apply_tendencies")])

prop("C19", "Corner filling copies adjacent halo data into tile corners only",
     "Filling corners for stencils along one direction writes exactly the square corner halo regions of depth n that lie at corners of the tile face, on the ranks at those corners only, each from the halo region next to that corner across the edge, turned by a quarter turn so that values continue along the requested direction. "
     "Shared staggered points are skipped, and compute-domain and other halo points are never written.",
     ["inputs", "configurations"],
     "for every origin, extent, halo depth, staggering, layout, rank and both directions",
     "tests use layout 1x1 and a few depths and staggerings",
     ["_corners.py"],
     [("corner copies", "_corners.py fill_scalar_corners, _shared_edge_points")])

prop("C20", "Allocated fields have room for halo and staggering",
     "For every grid size, halo width and dimension order, the sizes produced for a dimension satisfy: the compute domain starts after the halo in horizontal dimensions and at zero otherwise, has one more point on staggered than on centred dimensions, and the array has the same length for both with a full halo of at least the given width after the compute domain. "
     "Sizes derived from tile parameters or a namelist divide the tile between ranks by the layout, row count with y and column count with x, and allocated quantities carry exactly these origins, extents, dimensions, units, dtype and (for a factory made for a backend) backend. Partitioners made from a namelist have the layout of that namelist.",
     ["inputs", "configurations"],
     "for every size, layout, halo width and dimension order",
     "tests sample a few sizes, mostly square",
     ["initialization/sizer.py", "initialization/allocator.py"],
     [("sizes", "initialization/sizer.py SubtileGridSizer.get_origin/get_extent/get_shape/from_tile_params/from_namelist"), ("allocation", "initialization/allocator.py QuantityFactory")])

prop("C21", "Restart loading returns exactly the requested, loaded variables",
     "Loading a restart reads the files of the caller's tile with the given label, requires the mandatory files and skips absent optional ones, and returns each variable that has metadata (and, if names were requested, exactly the requested ones, time included only when requested) under its standard name with the registered dimension names and units. "
     "Values are read before their file is closed, user-provided tracer metadata extends the registry without changing it, and no restart name in the registry stands for two variables.",
     ["inputs", "configurations"],
     "for every directory content, label, requested name collection (including one-shot iterables), tracer registry and rank",
     "tests use two sample restarts and lists of names",
     ["_legacy_restart.py", "_properties.py", "io.py"],
     [("selection", "_legacy_restart.py load_partial_state_from_restart_file, open_restart"), ("registry", "_properties.py RESTART_PROPERTIES")])

prop("C22", "The package imports and works without optional packages",
     "Importing the package and any of its modules succeeds when only the required dependencies are installed: optional packages (xarray, zarr, cupy, gt4py, netCDF and MPI libraries) are imported only under a guard and never used unguarded at import time. "
     "Features that do not need an optional package never touch it when it is absent; those that need it raise the original import error when used.",
     ["configurations"],
     "for every subset of installed optional packages",
     "the test environment has one fixed set of packages installed",
     ["_xarray.py", "_optional_imports.py", "zarr_monitor.py", "quantity.py", "utils.py", "initialization/allocator.py", "testing/gt4py_cupy.py", "testing/gt4py_numpy.py"],
     [("guarded imports", "_xarray.py, zarr_monitor.py, quantity.py, utils.py, initialization/allocator.py, testing/*"), ("deferred error", "_optional_imports.py RaiseWhenAccessed")])

prop("C23", "State files: validated before opening, read before closing",
     "Writing a state without time, or one that cannot be converted, raises before the destination file is opened, so an existing file is not destroyed. "
     "Reading returns every stored variable as a quantity with its dimension names and units and the time as a calendar-aware date, all values loaded before the file is closed; the file is closed on every path, and times that are not a single decoded date are rejected.",
     ["inputs", "fault_sequences"],
     "for every state content, including missing time and unconvertible entries, and every file content",
     "tests round-trip a restart once and do not look at the destination after a failure",
     ["io.py", "_xarray.py", "filesystem.py"],
     [("write", "io.py write_state"), ("read", "io.py read_state, _extract_time"), ("dataset conversion", "_xarray.py to_dataset")])

prop("C24", "Interface synchronisation sends the shared edge with its orientation",
     "Synchronising a C-grid vector sends the southern edge row of the component normal to it and the western edge column of the other component, over the full compute extent along the edge and without halo, and receives into the northern and eastern edge of the same kind. "
     "Values crossing a tile edge are reversed and negated exactly as rotating the vector by the neighbour's rotation requires, the user's data is not changed by sending, and quantities not on a C-grid are rejected before any message.",
     ["inputs", "configurations"],
     "for every extent, halo width, dimension order (with or without vertical dimension) and every rotation a boundary can have",
     "tests use one size and 2D data with constant values per rank, so reversals are invisible",
     ["communicator.py", "rotate.py"],
     [("edge selection and sign", "communicator.py _Isend_vector_shared_boundary/_Irecv_vector_shared_boundary"), ("grid check", "communicator.py on_c_grid")])

prop("C25", "Nudging relaxes towards the reference and only as requested",
     "Each nudging tendency equals (reference - state) divided by the variable's timescale in seconds over the compute domain, labelled with the state variable's dimensions and its units per second, for exactly the variables that have a timescale. "
     "Applying nudging adds tendency times the timestep in seconds to those variables in place and returns those tendencies; all of them are computed from the unmodified state before any is applied.",
     ["inputs"],
     "for every set of variables, timescales and timesteps, including sub-second and multi-day ones, and quantities with halos",
     "tests use a few variables and whole numbers of seconds or hours",
     ["nudging.py"],
     [("tendency", "nudging.py get_nudging_tendencies"), ("application", "nudging.py _apply_tendencies, apply_nudging")])

prop("C26", "Repeated queries are independent of history",
     "Asking a partitioner or a communicator for a boundary, or a quantity for a region, gives the same answer however often and in whatever order it is asked; changing an object that a partitioner or a quantity returned never changes later answers, and neither do updates and synchronisations run in between. "
     "Cached results are keyed by everything they depend on.",
     ["histories"],
     "for every sequence of queries and every modification of returned objects between them",
     "tests ask each question once or do not modify the answers",
     ["partitioner.py", "_boundary_utils.py", "communicator.py"],
     [("copies of cached boundaries", "partitioner.py TilePartitioner.boundary, CubedSpherePartitioner.boundary"), ("cached slices are immutable", "_boundary_utils.py get_boundary_slice"), ("cached boundaries of a communicator", "communicator.py CubedSphereCommunicator.boundaries")])

prop("C27", "The testing communicator has MPI value and matching semantics",
     "The single-process stand-in for an MPI communicator copies data when it is sent, so later changes by the sender are not seen by receivers; it delivers messages between a pair of ranks in the order they were sent, selected by tag when one is given, and rejects receives and gathers for data not yet sent by raising a concurrency error instead of delivering stale data. "
     "It refuses roots it cannot emulate and non-contiguous buffers, and the communicators made by splitting it exchange messages only with each other.",
     ["histories", "schedules"],
     "for every sequence of sends, receives and collectives over the simulated ranks",
     "tests compare it with MPI on a list of single operations, not on sequences",
     ["testing/dummy_comm.py"],
     [("message queues", "testing/dummy_comm.py DummyComm._put_send_recv/_get_send_recv"), ("collective buffers", "testing/dummy_comm.py DummyComm.Scatter/Gather/bcast")])

prop("C28", "Invalid requests are rejected before anything happens",
     "A halo update of zero points, a synchronisation of non-C-grid vectors, a scatter without a root quantity or state, a rank count not divisible by six, a non-square cubed layout, corner filling with wrong dimensions or direction, and calls of removed operations each raise an error of the documented type before any message is sent or any data is modified.",
     ["inputs"],
     "for every such argument combination on every rank",
     "tests check few of these and not that nothing happened before the error",
     ["communicator.py", "partitioner.py", "_corners.py", "_legacy_restart.py"],
     [("argument checks", "communicator.py start_halo_update/start_vector_halo_update/start_synchronize_vector_interfaces/scatter; partitioner.py get_tile_index, _ensure_square_layout; _corners.py fill_scalar_corners")])

prop("C29", "Calendar, tile and direction tables are complete and consistent",
     "Every calendar code of the Fortran model maps to the matching calendar, a coupler restart date is read field by field in order with that calendar, tile numbers of ranks are consecutive blocks of equal size for every rank count divisible by six, and every boundary type is dispatched to its own direction in both partitioners and in the region tables, a corner being exactly the combination of its two edges.",
     ["inputs", "configurations"],
     "for every code, rank, rank count, boundary type and dimension",
     "tests sample a few codes, ranks and boundary types",
     ["time.py", "io.py", "partitioner.py", "_boundary_utils.py", "constants.py"],
     [("tables", "time.py FMS_TO_CFTIME_TYPE; _boundary_utils.py BOUNDARY_AT_START_OF_DIM_MAPPING; partitioner.py get_tile_index")])

# ---- broad guarantees this family cannot decide -------------------------
prop("N01", "State written to disk reads back numerically equal",
     "Reading a state file written from a state yields the same values, bit for bit in the stored precision, the same dimension names and units, and the same time.",
     ["inputs"], "for every state and calendar",
     "tests round-trip one restart",
     ["io.py"], [("netCDF encoding by xarray", "io.py write_state/read_state")])
prop("N02", "A run killed while storing leaves a readable archive",
     "If the processes stop at any point while snapshots are appended, the archive opens and every snapshot stored completely before is intact.",
     ["crash_points"], "for every crash point of every rank",
     "no test stops a process", ["zarr_monitor.py"], [("resize then write", "zarr_monitor.py _ZarrVariableWriter.append")])
prop("N03", "Timers measure wall-clock time accurately",
     "The accumulated time of a block differs from the wall-clock time spent in it by no more than the overhead of the calls.",
     ["schedules"], "for every duration and load", "tests use one sleep of 0.1 s", ["_timing.py"], [("clock source", "_timing.py Timer")])
prop("N04", "64-bit timestamps convert to the same instant",
     "Converting a 64-bit timestamp to a datetime gives the same UTC instant to microsecond precision for every representable date.",
     ["inputs"], "for every timestamp", "not tested", ["time.py"], [("conversion through float seconds", "time.py datetime64_to_datetime")])
prop("N05", "CPU and GPU runs produce identical results",
     "Every operation gives the same numerical result on GPU arrays and gt4py storages as on CPU arrays.",
     ["configurations", "inputs"], "for every operation and array library", "no GPU or gt4py in the test environment", ["quantity.py", "utils.py", "buffer.py"], [("array library dispatch", "quantity.py QuantityMetadata.np, utils.py assign_array")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
