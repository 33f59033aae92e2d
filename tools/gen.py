#!/usr/bin/env python3
"""Emits properties.jsonl and MANIFEST.json from one table (only the properties
whose check exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking",
         technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, level=level, technique=technique, note=note))


S = "src/meshio/"
RT = ("explicit-state enumeration of the bounded input space on the real writer and reader, compared with a "
      "reference model of write-then-read")
RTN = ("Every case of the stated finite space is executed on the real code; no sampling. Trusts numpy, h5py, "
       "netCDF4 and the reference model in mc/fmt.")

prop("C01", "VTK (legacy and XML) write-then-read keeps the mesh",
     "Writing a mesh to legacy VTK (4.2 or 5.1, ASCII or binary) or to VTU (ASCII, or binary with or without compression, "
     "32- or 64-bit headers) and reading the file gives back the same points, the same cells in the same order with the same "
     "node order, and every point and cell data array with its values, shape and type. "
     "Only documented normalisations occur: 2-D points (and 2-vectors in legacy files) get a zero third component, and "
     "consecutive blocks of one cell type come back as one block. Polyhedra (VTU) come back face by face with their data, in one block per number of nodes. "
     "Binary files are exact to the bit, ASCII VTU to about 11 significant digits.",
     ["inputs", "configurations"],
     "all meshes over every supported cell type, number and order of blocks, dtypes, memory layouts, data arrays, and all writer options",
     "The tests write a dozen fixed helper meshes with one data array each and compare with loose tolerances; blocks of several types, "
     "repeated types, polygons with data, integer types, compression block boundaries and memory layouts are never combined.",
     [S + "vtk/_vtk_42.py", S + "vtk/_vtk_51.py", S + "vtk/_main.py", S + "vtu/_vtu.py", S + "_vtk_common.py"],
     [("legacy writer/reader", S + "vtk/_vtk_42.py, _vtk_51.py: write, read, translate_cells, _read_section"),
      ("VTU writer/reader", S + "vtu/_vtu.py: write, VtuReader, _cells_from_data"),
      ("shared cell codec", S + "_vtk_common.py: vtk_cells_from_data")],
     [("offsets/connectivity/types", "the three arrays that encode the cells", S + "_vtk_common.py, vtu/_vtu.py")],
     ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C02", "Gmsh MSH write-then-read keeps mesh, entities and periodicity",
     "Writing a mesh as MSH 2.2, 4.0 or 4.1, ASCII or binary, and reading it back gives the same points, cells, node order, point and "
     "cell data, physical names, physical and geometrical tags, physical-group cell sets, bounding entities and periodic links, all attached to the same nodes and cells. "
     "Only documented normalisations occur: 2-D points get a zero z, consecutive blocks of one type merge in 2.2, 4.1 orders nodes by entity (everything else following them), and 4.0 does not carry tags.",
     ["inputs", "configurations"],
     "all meshes over every Gmsh cell type, block sequences, entity classifications of the nodes, tags, periodic links, data arrays, versions and encodings",
     "The tests use helper meshes without entities, tags or periodic links (the reference files with entities are not in the repository), so node renumbering by entity is never exercised together with data.",
     [S + "gmsh/main.py", S + "gmsh/common.py", S + "gmsh/_gmsh22.py", S + "gmsh/_gmsh40.py", S + "gmsh/_gmsh41.py"],
     [("writers", S + "gmsh/_gmsh22.py, _gmsh40.py, _gmsh41.py: write, _write_nodes, _write_elements, _write_entities, _write_periodic"),
      ("readers", S + "gmsh/_gmsh*.py: read_buffer, _read_nodes, _read_cells, _read_periodic"),
      ("data sections", S + "gmsh/common.py: _read_data, _write_data, cell_data_from_raw")],
     [("node tags", "file numbering to point index map", S + "gmsh/_gmsh41.py:_read_nodes")],
     ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C03", "XDMF write-then-read keeps the mesh in every data format",
     "Writing a mesh to XDMF with data in HDF5 (any compression), inline XML or binary files and reading it back, from any working directory, gives the same points, cells, node "
     "order and point and cell data with the same values, shapes and integer/float types; HDF5 and binary are exact to the bit. "
     "The only normalisation is that consecutive blocks of one cell type come back as one block.",
     ["inputs", "configurations"],
     "all meshes over every XDMF cell type, block sequence (hence uniform and mixed topologies), dtypes, layouts, data arrays and data formats",
     "The tests write fixed meshes, mixed topologies only of triangles and quads, data only of one or two dtypes, and always read from the directory they wrote in.",
     [S + "xdmf/main.py", S + "xdmf/common.py"],
     [("writer", S + "xdmf/main.py: XdmfWriter"), ("reader", S + "xdmf/main.py: XdmfReader"),
      ("mixed topology codec", S + "xdmf/common.py: translate_mixed_cells and the writer's inverse")],
     [("DataItem references", "where heavy data lives relative to the XML file", S + "xdmf/main.py")],
     ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C04", "XDMF time series: every history reads back as written",
     "Whatever sequence of mesh and time-step writes is made on a time-series writer (any data format, any directory, several writers interleaved), the reader "
     "reports exactly the accepted steps in order, each with its time, point data and cell data unchanged, in whatever order and however often steps are read. "
     "A step written before the mesh is rejected with an error and leaves no trace, and steps completed before an exception in the user's code are kept.",
     ["histories", "inputs"],
     "all writer histories up to three steps over a menu of data shapes and times, all interleavings of two writers, all reader histories up to three (thorough: four) reads",
     "One test writes two fixed steps and reads them once in order.",
     [S + "xdmf/time_series.py", S + "xdmf/common.py"],
     [("writer", S + "xdmf/time_series.py: TimeSeriesWriter.write_points_cells, write_data"),
      ("reader", S + "xdmf/time_series.py: TimeSeriesReader.read_points_cells, read_data")],
     [("collection", "the list of grids, one per time step", S + "xdmf/time_series.py"),
      ("has_mesh / mesh_name", "whether the shared mesh was written", S + "xdmf/time_series.py")],
     ["meshio.xdmf.TimeSeriesWriter / TimeSeriesReader"],
     technique="exhaustive exploration of operation histories and two-writer interleavings on the real code against a list model",
     note="All histories in the bound are executed on the real code and every answer is compared with the model list.")

prop("C05", "Surface formats (STL, PLY, OBJ, OFF, WKT, Neuroglancer) keep the faces",
     "Writing a surface mesh to STL, PLY, OBJ, OFF, WKT or Neuroglancer (ASCII or binary where available) and reading it back gives the same faces in the same order with the same "
     "corner coordinates and orientation, to the precision the format stores (single precision for binary STL and Neuroglancer, full otherwise). "
     "PLY also keeps scalar point data with its type, OBJ keeps normals and texture coordinates, and STL keeps or computes the facet normals.",
     ["inputs", "configurations"],
     "all meshes over the face types each format takes, block sequences, coordinates, dtypes, layouts, encodings",
     "The tests use fixed triangle/quad meshes with small coordinates; integer types, mixed face sizes, single vertices, exponents and layouts are untested.",
     [S + "stl/_stl.py", S + "ply/_ply.py", S + "obj/_obj.py", S + "off/_off.py", S + "wkt/_wkt.py", S + "neuroglancer/_neuroglancer.py"],
     [("STL", S + "stl/_stl.py: write, read, data_from_facets"), ("PLY", S + "ply/_ply.py: write, read_buffer"),
      ("OBJ", S + "obj/_obj.py"), ("OFF", S + "off/_off.py"), ("WKT", S + "wkt/_wkt.py"), ("Neuroglancer", S + "neuroglancer/_neuroglancer.py")],
     [], ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C06", "Finite-element decks (Abaqus, Nastran, Permas, Ansys, MDPA) keep the mesh",
     "Writing a mesh to Abaqus, Nastran (every point and cell field format), Permas, Ansys MSH (ASCII or binary) or MDPA and reading it back gives the same points, to the precision of the chosen field "
     "width, and the same cells with the same node order for every cell type the format takes. "
     "Abaqus also keeps node and element sets (sets that span several blocks included) and Nastran the reference ids of points and cells.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, block sequences, coordinates of any magnitude, sets and field formats",
     "The tests round-trip fixed meshes with coordinates near one and a single block type; field-width limits, sets over several blocks and node orders of quadratic cells in combination are untested.",
     [S + "abaqus/_abaqus.py", S + "nastran/_nastran.py", S + "permas/_permas.py", S + "ansys/_ansys.py", S + "mdpa/_mdpa.py"],
     [("Abaqus", S + "abaqus/_abaqus.py: write, read_buffer, _read_set"), ("Nastran", S + "nastran/_nastran.py: write, read_buffer, _float_rstrip, _float_to_nastran_string"),
      ("Permas", S + "permas/_permas.py"), ("Ansys", S + "ansys/_ansys.py"), ("MDPA", S + "mdpa/_mdpa.py")],
     [("id maps", "file ids to point and cell indices", "each reader")], ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C07", "HDF5 and netCDF formats (MED, CGNS, H5M, Exodus, HMF) keep the mesh",
     "Writing a mesh to MED, CGNS, H5M, Exodus or HMF and reading it back gives the same points, the same cells with the same node order for every cell type the format takes, and the data the format "
     "carries: MED point and cell data, point and cell tags with their family names; H5M and Exodus point data; HMF point and cell data. "
     "Exodus also keeps node sets, and values are exact to the bit.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, block sequences, dtypes, layouts, data and sets",
     "The tests round-trip fixed meshes with one block per type and one data array of one dtype.",
     [S + "med/_med.py", S + "cgns/_cgns.py", S + "h5m/_h5m.py", S + "exodus/_exodus.py", S + "hmf/_hmf.py"],
     [("MED", S + "med/_med.py"), ("CGNS", S + "cgns/_cgns.py"), ("H5M", S + "h5m/_h5m.py"), ("Exodus", S + "exodus/_exodus.py"), ("HMF", S + "hmf/_hmf.py")],
     [], ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C08", "All other formats (Medit, Netgen, TetGen, UGRID, SU2, Tecplot, ...) keep meshes",
     "Writing a mesh to Medit (ASCII or binary), Netgen, TetGen, UGRID (every variant), AVS-UCD, DOLFIN XML, SU2, Tecplot or FLAC3D (ASCII or binary) and reading it back gives the same points to the precision the "
     "format stores and the same cells with the same node order for every cell type the format takes. "
     "The references, markers, attributes, data and groups that the format carries come back attached to the same points and cells.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, block sequences, dtypes, reference/marker data and variants",
     "The tests round-trip fixed meshes; several blocks with references, tags in any order, and all variants of the binary layouts are not combined.",
     [S + "medit/_medit.py", S + "medit/_medit_internal.py", S + "netgen/_netgen.py", S + "tetgen/_tetgen.py", S + "ugrid/_ugrid.py", S + "avsucd/_avsucd.py",
      S + "dolfin/_dolfin.py", S + "su2/_su2.py", S + "tecplot/_tecplot.py", S + "flac3d/_flac3d.py"],
     [("readers and writers", "one module per format, see files")], [], ["meshio.write / meshio.read"], technique=RT, note=RTN)

prop("C09", "Written files follow the published layout and node ordering",
     "A file that meshio writes, decoded by an independent reading of the published format (counts, ids, section order, byte order, type codes and per-type local node numbering), describes exactly the mesh that was given. "
     "This holds for every cell type and option, so a writer and reader that are wrong in the same way do not pass.",
     ["inputs", "configurations"], "all meshes over cell types, block sequences and encodings of the formats with an independent decoder",
     "The tests read with meshio what meshio wrote, so a symmetric mistake (for instance a permuted quadratic hexahedron) is invisible, and the reference files are not in the repository.",
     [S + "vtk/", S + "vtu/_vtu.py", S + "gmsh/", S + "xdmf/", S + "abaqus/_abaqus.py", S + "nastran/_nastran.py", S + "medit/_medit.py", S + "su2/_su2.py", S + "ugrid/_ugrid.py", S + "stl/_stl.py", S + "ply/_ply.py"],
     [("type codes", S + "_vtk_common.py, gmsh/common.py, xdmf/common.py"), ("node ordering", S + "gmsh/common.py:_meshio_to_gmsh_order, nastran, ugrid, tecplot, ...")],
     [], ["bytes of the written file"],
     technique="exhaustive enumeration of bounded meshes; the bytes written are decoded by an independent reference decoder",
     note="Trusts the decoders in mc/dec, written from the published format descriptions.")

prop("C10", "Equivalent spellings of a file read as the same mesh",
     "For a file written by another program, every spelling that the format's specification declares equivalent (spacing, letter case, comments, optional fields and sections, numbering of nodes and elements, line breaks, "
     "numeric notations, byte order, scalar types) reads as the same mesh with data on the right nodes and cells; a spelling that the reader does not support is refused with an error, never read as another mesh.",
     ["inputs"], "all combinations of up to two (thorough: three) syntactic deviations from a plain file, per format",
     "The foreign reference files of the test suite are git-LFS pointers that are absent, so readers are only fed files of meshio's own writers.",
     [S + "abaqus/_abaqus.py", S + "nastran/_nastran.py", S + "gmsh/", S + "vtk/", S + "vtu/_vtu.py", S + "ply/_ply.py", S + "stl/_stl.py", S + "obj/_obj.py", S + "off/_off.py", S + "su2/_su2.py", S + "medit/_medit.py", S + "xdmf/", S + "netgen/_netgen.py", S + "tetgen/_tetgen.py", S + "avsucd/_avsucd.py", S + "dolfin/_dolfin.py", S + "ugrid/_ugrid.py", S + "flac3d/_flac3d.py", S + "tecplot/_tecplot.py", S + "exodus/_exodus.py", S + "med/_med.py", S + "h5m/_h5m.py", S + "cgns/_cgns.py", S + "permas/_permas.py", S + "ansys/_ansys.py", S + "mdpa/_mdpa.py", S + "wkt/_wkt.py"],
     [("readers", "every read_buffer/read")], [], ["meshio.read"],
     technique="exhaustive enumeration of syntactic variants produced by independent reference encoders, read by the real code",
     note="Trusts the encoders in mc/enc, written from the published format descriptions.")

prop("C11", "Writing never changes the caller's mesh",
     "After any write in any format and with any options, whether it succeeds or raises, the mesh that was passed in is what it was before: points, cells, block order, data, sets and their names, values, shapes and types. "
     "The one exception is announced by a warning: legacy VTK appends a zero third component to two-component data arrays.",
     ["inputs", "configurations"], "all formats and options x meshes with every kind of content, for successful and failing writes",
     "The tests compare the read-back mesh with the object after writing, so a change made by the writer itself to both goes unseen.",
     [S + "_helpers.py", S + "vtk/_vtk_42.py", S + "vtk/_vtk_51.py", S + "vtu/_vtu.py", S + "ply/_ply.py", S + "avsucd/_avsucd.py", S + "flac3d/_flac3d.py"],
     [("writers", "every write()")], [], ["the Mesh object passed to meshio.write"],
     technique="exhaustive enumeration of formats, options and meshes; deep snapshot of the argument before and after the real write",
     note="Every case in the bound is executed; snapshots are bytewise.")

prop("C12", "Re-encoding a mesh that was read changes nothing",
     "A mesh read from a file can be written again in every encoding of the same format (ASCII or binary, any compression, header width, byte order, floating-point width, format version), and reading that file gives the same points, cells, node order and data as the first reading, up to the precision of the encoding. "
     "Tags and entities, which MSH versions represent differently, are only compared within a version; MSH 4.1 refuses several blocks without node entities with an error.",
     ["configurations", "inputs"], "all ordered pairs of encodings of each format x all block sequences and every single deviation of a rich mesh",
     "Tests write meshes that they construct, never one that was read (with the extra names, dtypes and tags that readers add), and one encoding at a time.",
     [S + "vtk/", S + "vtu/_vtu.py", S + "xdmf/", S + "gmsh/", S + "ply/_ply.py", S + "stl/_stl.py", S + "medit/", S + "ugrid/_ugrid.py", S + "flac3d/_flac3d.py", S + "ansys/_ansys.py"],
     [("writer options", "binary, compression, header_type, fmt_version, float_fmt")], [], ["meshio.write / meshio.read"],
     technique="exhaustive enumeration of write-read-write-read histories over all encoding pairs on the real code, differential", note="Every history in the bound is executed.")

prop("C13", "A mesh is consistent, or its construction raises",
     "Constructing a mesh succeeds exactly when every point-data array has one entry per point and every cell-data entry has one array per block with one entry per cell; otherwise it raises. "
     "The values are taken over unchanged however they are passed. "
     "The dictionary views of cells, cell data and cell sets, the per-type accessors, copies and the printed summary agree with the blocks they were made from, and copies share nothing with the original.",
     ["inputs"], "all small combinations of blocks, data and sets, well-formed and malformed by one defect anywhere",
     "The tests construct a handful of well-formed meshes and two malformed ones.",
     [S + "_mesh.py", S + "_common.py"], [("constructor", S + "_mesh.py: Mesh.__init__"), ("views", S + "_mesh.py: cells_dict, cell_data_dict, cell_sets_dict, get_cells_type, get_cell_data, __repr__, copy")], [], ["meshio.Mesh"],
     technique="exhaustive enumeration of small meshes and single defects against a reference model", note="Every case in the bound is executed.")

prop("C14", "Converting between sets and data keeps the membership",
     "Turning disjoint point or cell sets into integer data gives every point or cell the index of its set, or -1, and turning integer data into sets gives one set per value with exactly the points or cells of that value. "
     "Going back and forth any number of times keeps who belongs together; when the sets cover everything, are not empty and have no dash in their names, they come back under their names, and a name is never attached to other members. "
     "Other sets and data are never touched, and data that are not integers are refused.",
     ["histories", "inputs"], "all conversion sequences up to length four over all small set configurations",
     "One test converts one configuration once.",
     [S + "_mesh.py"], [("conversions", S + "_mesh.py: cell_sets_to_data, cell_data_to_sets, point_sets_to_data, point_data_to_sets")],
     [("point_sets/cell_sets/point_data/cell_data", "the membership in one or the other encoding", S + "_mesh.py")], ["meshio.Mesh"],
     technique="exhaustive exploration of operation sequences against a reference model", note="Every sequence in the bound is executed.")

prop("C15", "The format registry always resolves as registered",
     "After any sequence of registering and deregistering formats, reading and writing pick, for every file name and explicit format, exactly the reader and writer registered last for it, try several candidates of one extension in order, and raise the documented error "
     "when there is none. Deregistering removes a format completely and affects no other.",
     ["histories"], "all register/deregister histories up to length four (thorough: five) over overlapping extensions, all dispatch queries in each state",
     "Tests register nothing; they use the built-in table only.",
     [S + "_helpers.py"], [("registry", S + "_helpers.py: register_format, deregister_format, _filetypes_from_path, read, write")],
     [("extension_to_filetypes, reader_map, _writer_map", "the registry", S + "_helpers.py")], ["meshio.register_format, meshio.read, meshio.write"],
     technique="explicit-state exploration of registry histories on the real code against a reference model", note="Every history in the bound is executed.")

prop("C16", "Reads and writes are deterministic and independent of earlier calls",
     "Writing the same mesh again produces the same bytes (apart from the time stamps some formats record), and reading the same file again produces an equal mesh that shares nothing with the first, in every process, no matter which reads and writes in which formats, successful or failed, happened before, what was done to the meshes they returned, "
     "and which files lay at the destination before. Reading never changes a file, and writing never touches files other than its own.",
     ["histories"], "all histories of one operation of any format and of two operations of the same format before the observed operation; all kinds of old files at the destination; several hash seeds",
     "Each test observes one operation in isolation and never repeats it in another history.",
     [S + "_helpers.py", S + "*/"], [("module state", "module-level tables and caches in all format modules")], [], ["meshio.read, meshio.write"],
     technique="exhaustive exploration of operation histories on the real code, each in its own process, compared with the same operation in a process that did nothing before",
     note="Every history in the bound is executed; time stamps are masked, Exodus files are compared as netCDF contents.")

prop("C17", "A truncated file never hangs and never yields a corrupt mesh",
     "Reading a file cut off at any byte terminates, and either raises an error or gives a mesh that is consistent in itself: every cell refers to existing points and every data array has one entry per point or cell. ",
     ["crash_points"], "every byte position of the files of a menu of meshes in every format and encoding",
     "No test reads a truncated file.",
     [S + "*/"], [("readers", "every read loop that waits for a terminator or count")], [], ["meshio.read"],
     level="fault_enumeration", technique="exhaustive enumeration of truncation points, real readers under a time limit",
     note="Every byte position of every menu file is tried.")

prop("C18", "Converting between any two formats keeps what both can carry",
     "Reading a file in one format and writing it in another, any number of times, keeps the coordinates of the nodes of every cell, the order of the nodes in a cell and of the cells of one type, for every chain of formats that take the cell type, and scalar and vector point and cell data under their names where all formats of the chain carry them. "
     "What a reader adds (tags, references, entities) never makes the next writer fail. FLAC3D orders the nodes of a cell by orientation; Tecplot stores wedges and pyramids as degenerate hexahedra.",
     ["configurations", "inputs"], "all ordered pairs of formats x meshes over the types both take, with and without data, and all chains of three formats",
     "No test converts between formats except one CLI example.",
     [S + "_helpers.py", S + "_cli/_convert.py", S + "*/"], [("conversion", "read followed by write")], [], ["meshio.read + meshio.write"],
     technique="exhaustive enumeration of format pairs and meshes on the real code against a reference model", note="Every pair in the bound is executed.")

prop("C19", "What a format cannot hold is rejected or announced, never lost silently",
     "Writing any mesh to any format either raises, or tells the user something (a warning or a message), or produces a file that reads back with every point (WKT, STL and the like keep the points of their cells) and every cell given. "
     "Data arrays and sets may be left out by formats that have no place for them, but whatever comes back under its name has exactly the values given; numeric data never make a file unreadable. "
     "Cells whose number of nodes does not fit their type are rejected.",
     ["inputs", "configurations"], "all formats and options x all cell types alone and next to supported ones, data of all numeric types and shapes, sets, field data, 2-D points, unused points, empty blocks, meshes without cells",
     "Tests of rejections exist for two formats.",
     [S + "_helpers.py", S + "*/"], [("checks", "WriteError/ReadError/warn in every module")], [], ["meshio.read, meshio.write, console"],
     technique="exhaustive enumeration of unsupported content on the real code", note="Every case in the bound is executed.")

prop("C20", "A write that fails midway is reported",
     "If the storage stops accepting data at any byte while a file is written, the write raises an error instead of returning as if the file were complete. ",
     ["fault_sequences", "crash_points"], "every byte position at which the output file stops growing, for every format and encoding",
     "No test injects a storage fault.",
     [S + "*/"], [("writers", "every write()")], [], ["meshio.write"],
     level="fault_enumeration", technique="exhaustive enumeration of write-fault points by a file size limit in a child process",
     note="Every byte limit of every menu file is tried.")

prop("C21", "Paths, path objects and open buffers are interchangeable",
     "Passing a file name as string (relative or absolute, with any characters in it, in any directory), as path object or, where a format supports them, as an open buffer gives the same bytes on writing and the same mesh on reading; buffers are used from their current position and stay open. "
     "A format that does not support buffers raises an error. The format is the one asked for, or else the one of the extension; unknown extensions are refused.",
     ["inputs", "configurations"], "all formats x ways to pass the file",
     "A few tests pass buffers for some formats.",
     [S + "_files.py", S + "_helpers.py"], [("open_file", S + "_files.py: open_file, is_buffer")], [], ["meshio.read, meshio.write"],
     technique="exhaustive enumeration of formats and ways to pass a file", note="Every case in the bound is executed.")

prop("C22", "Command-line operations keep the mesh",
     "Any sequence of the command-line operations that re-encode a file in place (ascii, binary, compress, decompress) and of conversions leaves the mesh unchanged up to the precision of the encoding, and leaves the file in the encoding that was asked for. "
     "convert gives the file that reading and writing with the library gives. A command that does not apply to a format fails and leaves the file as it was. "
     "info reports the contents of the file and exactly the inconsistencies (unused points, node numbers out of range) it has.",
     ["histories"], "all sequences of up to three operations over all formats that support them",
     "The tests run each command once on one file.",
     [S + "_cli/"], [("commands", S + "_cli/_ascii.py, _binary.py, _compress.py, _decompress.py, _convert.py, _info.py")], [], ["meshio command"],
     technique="exhaustive exploration of command sequences on the real code against a reference model", note="Every sequence in the bound is executed.")


def main():
    here = HERE
    have = [p for p in P if os.path.exists(os.path.join(here, "mc", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in have:
            anch = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
            if p["state"]:
                anch["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            if p["observe"]:
                anch["observe_at"] = list(p["observe"])
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anch}) + "\n")
    m = {"version": 1,
         "setup_cmd": "./check --selftest",
         "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                     "thorough_cmd": f"./check {p['id']} --tier thorough", "technique": p["technique"],
                     "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in have],
         "not_applicable": [],
         "notes": "All checks import meshio from /repo/src directly; no build products are used."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
