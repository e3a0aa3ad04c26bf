"""Writes properties.jsonl (the statements live here so that they can be reviewed as text)."""
import json, os, sys

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


FMT = "src/meshio/*/_*.py"
p("P01", "A write that returns is complete on disk and reads back as the mesh written",
  "Writing a mesh that the chosen format supports succeeds, and once the call has returned the mesh is completely in the target file and its companion files: "
  "another process reading that path gets the points, the cells in their order, and the point data, cell data, tags and sets the format stores, as they were in the mesh, to the precision of the format. "
  "This holds even if the writing process is killed the instant the call returns, however the operating system splits or interrupts the transfers on either side, and whatever older files were at the path before.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "every format and writer option; every supported mesh; process death at the moment of return; every sequence of short and interrupted transfers; every older content of the target and its companions",
  "tests/ round-trips a few dozen fixed meshes per format in one process, with whole transfers, into fresh temporary paths; no test kills the writer, splits a transfer or writes over existing files",
  ["src/meshio/_helpers.py", "src/meshio/_files.py", FMT],
  [("every writer flushes and closes what it opened before returning", "open_file in src/meshio/_files.py; h5py/netCDF handles in xdmf, hmf, med, h5m, cgns, exodus"),
   ("readers consume declared sizes, writers declare what they wrote", "src/meshio/*/")],
  observe=["return of meshio.write", "meshio.read in a fresh process"])
p("P02", "A storage failure while writing is never reported as success",
  "If opening, writing, flushing or closing any file a write produces fails (no space, I/O error, quota, permission, file-table exhaustion), the write raises; it never returns normally leaving a missing, partial or wrong file. "
  "If it does return normally after a fault, the file reads back as the mesh written.",
  ["fault_sequences", "inputs", "configurations"],
  "every storage call made by every writer x every error it can return, transient or persistent, and every disk capacity",
  "tests/ never fail a system call; an error swallowed at close or in a destructor is invisible to them",
  ["src/meshio/_files.py", "src/meshio/_helpers.py", FMT],
  [("exceptions of the I/O layer propagate out of the writer; files are closed inside the call", "with-blocks in the writers")],
  observe=["outcome of meshio.write", "meshio.read in a fresh process"])
p("P03", "Writing never modifies the mesh that is written",
  "A write leaves the mesh passed to it exactly as it was: same attributes, same keys in the same order, same arrays with the same dtype, shape and values, whatever the format and options, and whether the write succeeds, is refused, fails on storage or is interrupted part way. "
  "The options and containers the caller passes are not modified either.",
  ["inputs", "fault_sequences", "histories"],
  "every mesh, format and option set; every point at which the write fails or is interrupted",
  "tests/ compare a copy made before one successful write for a few meshes; none looks at the mesh after a failed or interrupted write, nor at data, sets, dtypes or array identity",
  ["src/meshio/_mesh.py", FMT], [("writers convert into local arrays instead of assigning into the mesh", "src/meshio/*/ write()")],
  observe=["the caller's mesh after meshio.write"])
p("P04", "No call leaves files open, and the caller's streams stay the caller's",
  "When a read or write returns or raises, every file it opened has been closed, also when it is given malformed data, hits a storage error or is interrupted. "
  "A stream passed in by the caller is never closed, and remains usable.",
  ["fault_sequences", "inputs", "histories"],
  "every format; every failure or interruption point of a read or a write; every truncated input",
  "tests/ do not count descriptors and take no failing paths through the readers and writers",
  ["src/meshio/_files.py", FMT], [("files are opened in with-blocks", "open_file, h5py.File, netCDF4.Dataset uses")],
  observe=["descriptor table after the call", "closed state of caller's stream"])
p("P05", "A read under device faults returns the stored mesh or raises",
  "If the operating system returns data in small pieces, interrupts transfers or fails any open or read with an error while a mesh is read, the read either returns exactly the mesh a fault-free read of that file returns, or raises; it never returns a different mesh.",
  ["fault_sequences", "inputs", "configurations"],
  "every format; every read call of the reader x every error or short count",
  "tests/ read from a healthy local disk only",
  ["src/meshio/_helpers.py", FMT], [("counts read are checked against counts declared; errors propagate", "readers in src/meshio/*/")],
  observe=["result of meshio.read"])
p("P06", "An interrupted write is never read back as a different mesh",
  "If the writing process dies at any point of a write to a fresh path, reading what is on disk afterwards either fails or gives the complete mesh, for VTU, XDMF, HMF, MED, H5M, CGNS, DOLFIN-XML, Nastran, WKT, binary PLY, STL and UGRID. "
  "For the formats made of sections that declare their sizes (legacy VTK, Gmsh, MEDIT, ANSYS, AVS-UCD, Netgen, Tecplot, TetGen, OFF, ASCII PLY and UGRID) whole sections at the end may be missing, but a section that is returned is complete and as written "
  "(in text files up to the last number or name, which may be cut short).",
  ["crash_points", "inputs", "configurations"],
  "every format that declares its sizes; every crash point, including in the middle of a transfer",
  "no test crashes a writer; truncated inputs are covered by a handful of invalid sample files",
  ["src/meshio/vtu/_vtu.py", "src/meshio/vtk/", "src/meshio/gmsh/", "src/meshio/xdmf/", FMT],
  [("size checks, closing tags, HDF5 superblock", "readers")],
  observe=["result of meshio.read on the surviving files"])
p("P07", "Reading a torn or truncated file always terminates",
  "Reading a file that ends at an arbitrary point, as after a crash or a partial copy, returns or raises after a number of steps bounded in the size of the file; it never hangs waiting for data that will not come.",
  ["crash_points", "inputs", "configurations"],
  "every format with a reader; every prefix of every file it can have",
  "the tests have no truncated inputs for most formats, and a hang is not an assertion failure",
  [FMT], [("end-of-file checks in the parsing loops", "readers in src/meshio/*/")],
  observe=["number of executed reader steps and storage reads"])
p("P08", "Calls touch only their own files; reading changes nothing on disk",
  "A write creates or changes only the target file and the companion files its format defines next to it, wherever the working directory is; it does not change, remove or leave behind any other file, whether it succeeds or fails. "
  "A read creates, changes and removes nothing.",
  ["inputs", "fault_sequences", "configurations"],
  "every format and option; every neighbouring file; every working directory; successful and failed calls",
  "tests/ run in fresh temporary directories and never look at the neighbours",
  ["src/meshio/_helpers.py", FMT], [("companion names are derived from the target path", "xdmf, tetgen, dolfin writers")],
  observe=["directory tree before and after the call", "recorded storage operations"])
p("P09", "Concurrent calls behave as if made one after another",
  "Reads, writes and registry look-ups made at the same time from several threads, on different files, each return the same mesh, or leave the same bytes, as the same call made alone; this includes several threads writing one shared mesh object. "
  "No interleaving of the threads makes a call fail.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, at statement granularity, of any combination of readers and writers of all formats",
  "the tests are single threaded",
  ["src/meshio/_helpers.py", "src/meshio/_common.py", FMT], [("no module-level mutable state other than the format registry", "src/meshio/")],
  observe=["results of the calls"])
p("P10", "Every call is independent of the calls made before it",
  "What a read returns depends only on the bytes on disk at that moment, and what a write produces only on the mesh and options passed: never on earlier reads or writes in the same process, on their formats, on their failures or interruption, or on what the caller did with meshes returned or written earlier. "
  "A failed or interrupted call leaves no trace that changes a later one.",
  ["histories", "fault_sequences"],
  "every sequence of reads, writes, failures, interruptions and edits by the caller, over all formats",
  "each test uses one or two calls per process state and none compares against a fresh process",
  ["src/meshio/_helpers.py", "src/meshio/_common.py", "src/meshio/_mesh.py", FMT], [("no caches, no mutable defaults, no module state", "src/meshio/")],
  observe=["results of the last call versus a fresh process"])
p("P11", "Once faults stop, repeating a failed write or read succeeds with the same result",
  "After a write was refused by the storage, crashed or was interrupted, making the same call again on healthy storage succeeds, and the files it leaves are those an undisturbed write leaves. "
  "The same holds for a read that failed.",
  ["fault_sequences", "crash_points", "histories"],
  "every format; every fault or crash point of the first attempt; in the same process or a new one",
  "the tests never fail a call and then repeat it",
  ["src/meshio/_files.py", FMT], [("targets are truncated on open; no locks or temporary names survive", "writers in src/meshio/*/")],
  observe=["outcome and files of the repeated call"])
p("P12", "An XDMF time series reads back step by step as it was written",
  "For every sequence of steps written by the XDMF time series writer, in every data format, the time series reader returns the same points and cells, the same number of steps, and for each step its time, point data and cell data, in any order and any number of times they are asked for. "
  "A series whose writing was cut short or failed is never read back with wrong steps: the reader fails or returns complete steps as written.",
  ["histories", "inputs", "crash_points", "fault_sequences"],
  "every sequence of writer calls, data formats, working directories, access orders, and every fault or crash point",
  "tests/test_xdmf.py writes one short series per data format and reads it in order",
  ["src/meshio/xdmf/time_series.py", "src/meshio/xdmf/common.py"], [("one Grid per step below a temporal collection; the XML is written on exit", "TimeSeriesWriter.__exit__")],
  observe=["TimeSeriesReader results"])
p("P13", "Command-line tools report success only when the result is complete",
  "A meshio command exits with status 0 only if the file it had to produce is complete and holds the mesh of the input (the converted mesh for convert, the same mesh for compress, decompress, ascii and binary); on any read, write or usage failure it exits with a non-zero status or a traceback, and only then: what the library's own read and write can do, the command does. "
  "A convert never changes its input, and an in-place command that fails before it starts writing leaves its file as it was.",
  ["fault_sequences", "inputs", "configurations"],
  "every command, format and option; every storage fault during the command",
  "tests/test_cli.py runs each command once or twice on one file and looks at little besides that it did not raise",
  ["src/meshio/_cli/"], [("exceptions propagate; exit(1) on unsupported formats", "src/meshio/_cli/_*.py")],
  observe=["exit status of the command", "files afterwards"])
p("P14", "Streams and paths are interchangeable",
  "For every format that accepts streams, writing to a stream produces the same bytes as writing to a path, and reading from a stream, whatever piece sizes it delivers, gives the same mesh as reading the file. "
  "A stream that fails makes the call raise, and a format that cannot use the given kind of stream refuses it: no call returns successfully without having used the stream.",
  ["inputs", "fault_sequences", "configurations"],
  "every format accepting streams; every mesh; every partition of the data into pieces; every failing stream operation",
  "tests exercise in-memory buffers for few formats, whole, on one mesh each",
  ["src/meshio/_files.py", "src/meshio/_helpers.py", FMT], [("is_buffer / open_file", "src/meshio/_files.py")],
  observe=["bytes in the stream", "mesh returned"])
p("P15", "Output depends only on the mesh, the options and the target name",
  "Writing the same mesh with the same options to the same name produces the same bytes whatever the clock says or does, whatever the working directory, environment, hash seed, numpy print options and earlier memory contents of the process (under one text encoding); only the creation time that some formats carry in a comment or header (and the gzip time field) may follow the clock. "
  "What is read from a file does not depend on any of these at all.",
  ["configurations", "schedules", "inputs"],
  "every clock value, jump and resolution; every hash seed; every working directory; all formats",
  "the tests run once per process, under one hash seed, clock and directory, and compare meshes, not bytes",
  [FMT], [("dictionaries keep insertion order; timestamps only in comments", "writers in src/meshio/*/")],
  observe=["bytes written", "mesh read"])
p("P16", "Format look-up follows the registry; a refused format falls through to the next",
  "After any sequence of registrations and deregistrations, a read or write with an explicit format uses exactly that format, and one without uses the formats registered for the file's extensions, case-insensitively: those of the last suffix first, then those of the longer endings, each in registration order; a reader that rejects the file passes it on to the next candidate and one that fails otherwise does not. "
  "Deregistering a name removes that name completely and leaves the others as they were, and if no candidate accepts the file the call fails.",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of register, deregister, read and write over any names and extensions; every subset of candidates rejecting or failing",
  "tests/test_helpers.py registers one format once",
  ["src/meshio/_helpers.py"], [("extension_to_filetypes, reader_map, _writer_map", "src/meshio/_helpers.py")],
  observe=["which registered reader or writer was called, and the outcome"])
p("P17", "A mesh that was read is independent of its file and of other meshes",
  "Once a read has returned, the mesh keeps its values when the file is overwritten, truncated or deleted, or when other meshes read from the same or other files, or written from it, are modified; its arrays can be modified in place without affecting the file or any other mesh. "
  "A copy of a mesh is independent of the original in the same way.",
  ["histories", "inputs", "configurations"],
  "every format; every later change to the file, to the mesh or to other meshes",
  "the tests drop meshes before touching the files again",
  ["src/meshio/_mesh.py", FMT], [("readers copy data out of buffers, HDF5 datasets and netCDF variables", "readers in src/meshio/*/"), ("Mesh.copy", "src/meshio/_mesh.py")],
  observe=["the mesh after later events"])

# ---- properties outside the family
p("P30", "Node orderings agree with each format's published convention",
  "For every cell type whose node order differs between meshio and a format, the file holds the nodes in the order the format's specification prescribes.",
  ["inputs"], "every cell type and format", "tests check meshio against meshio, not against the specifications",
  ["src/meshio/gmsh/common.py", "src/meshio/_vtk_common.py", "src/meshio/nastran/_nastran.py"], [("permutation tables", "_meshio_to_gmsh_order, meshio_to_vtk_order and friends")])
p("P31", "Mesh accessors and set/data conversions lose nothing",
  "The dictionary views of cells and cell data, and the conversions between sets and integer data, represent the same cells, values and memberships as the mesh they are taken from.",
  ["inputs"], "every mesh", "tests sample two meshes", ["src/meshio/_mesh.py"], [("cells_dict, cell_data_dict, *_sets_to_data, *_data_to_sets", "src/meshio/_mesh.py")])
p("P32", "Inconsistent meshes are rejected when they are built",
  "A mesh whose data or sets do not match its points or cells in length is refused at construction.",
  ["inputs"], "every combination of arrays", "tests sample a few", ["src/meshio/_mesh.py"], [("length checks in the constructor", "Mesh.__init__")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
