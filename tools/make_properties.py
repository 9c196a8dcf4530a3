"""Writes properties.jsonl (kept as a program so that it stays readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


IO = "ramannoodle/io/"
prop("C01", "Acknowledged writes read back exactly",
     "When writing a structure or trajectory returns, the file holds exactly that lattice, those atoms in that order, "
     "and every configuration in order, so that reading it back with any of the library's readers, or with an "
     "independent reader of the format, gives the same values to the sixteen decimals written. This holds for any "
     "number of atoms, species and configurations, any coordinates between 0 and 1 inclusive, any lattice and label, "
     "any previous content that was overwritten, and whatever sizes of partial transfers and interruptions the "
     "storage delivers the bytes in.",
     ["inputs", "configurations", "fault_sequences"],
     "all valid structures/trajectories, labels, path types, previous contents; all splits of the transfers",
     "The tests write a handful of small structures once to a perfect disk; they never vary sizes, labels, earlier "
     "contents, or how the bytes are transferred.",
     [IO + "vasp/poscar.py", IO + "vasp/xdatcar.py", IO + "generic.py"],
     [("string formatting and open/with block", IO + "vasp/poscar.py: write_structure; " + IO + "vasp/xdatcar.py: write_trajectory")],
     observe=["bytes of the written file", "read_structure, read_positions, read_ref_structure, read_positions_ts, read_trajectory"])
prop("C02", "A failed write is never silent and never costs other data",
     "If the storage fails at any point of a write (opening, any transfer, closing), the call raises the operating "
     "system's error instead of returning; conversely, once a write has returned, the complete content is in the "
     "file even if the process is killed immediately afterwards. No other file or link is created or altered (a "
     "symbolic link that is overwritten stays one, and the file it points to receives the content), no file "
     "descriptor stays open, and repeating the write with overwriting allowed, once the storage works again, "
     "succeeds completely.",
     ["crash_points", "fault_sequences", "inputs"],
     "every failing storage call or byte offset, every errno, every kill point, every write function",
     "No test injects a storage failure or a crash.",
     [IO + "vasp/poscar.py", IO + "vasp/xdatcar.py", IO + "generic.py"],
     [("exceptions propagate out of the with block, which closes the file", IO + "vasp/poscar.py: write_structure; " + IO + "vasp/xdatcar.py: write_trajectory")],
     observe=["outcome of the call", "all files below the scratch directory", "open descriptors"])
prop("C03", "Without overwrite an existing file is never altered",
     "A write without overwriting never alters a path that already exists, no matter what it is or at which moment "
     "another thread or process created it; it raises FileExistsError instead. When several callers race to create "
     "one path, exactly one returns and the file holds exactly what that caller wrote.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of concurrent creators at storage calls and source lines; all kinds of existing path",
     "Tests check one pre-existing file, sequentially; a check-then-create race passes them.",
     [IO + "vasp/poscar.py", IO + "vasp/xdatcar.py", "ramannoodle/structure/_displace.py"],
     [("exclusive creation (open mode x)", IO + "vasp/poscar.py: write_structure; " + IO + "vasp/xdatcar.py: write_trajectory")],
     observe=["outcomes of all callers", "final bytes of the path"])
prop("C04", "Rejected write requests leave storage untouched",
     "A write request the library rejects because of its arguments (lattice, atomic numbers, positions, amplitudes, "
     "displacement, atom index, path, number of paths, format) raises an exception and leaves every file exactly as it "
     "was, also when overwriting is allowed and the target exists. For a request that covers several files, none "
     "of them is created or altered.",
     ["inputs", "histories"],
     "all kinds of invalid argument for every write function, in every argument position, over existing or absent targets",
     "Tests check that the exception is raised, never that existing files survive.",
     [IO + "_utils.py", IO + "vasp/poscar.py", IO + "vasp/xdatcar.py", "ramannoodle/structure/_displace.py"],
     [("validation and formatting precede opening", IO + "vasp/poscar.py: write_structure; " + IO + "vasp/xdatcar.py: write_trajectory"),
      ("paths, positions and count are checked before the first write", "ramannoodle/structure/_displace.py")],
     observe=["bytes of all files", "storage calls that change something"])
prop("C05", "Displaced-structure batches are complete, ordered and failure-atomic",
     "Writing displaced structures for M amplitudes puts into the k-th path the reference structure displaced by the "
     "k-th amplitude (in angstrom, along the normalised direction, periodic boundaries respected), for any M, for whole-"
     "structure and single-atom displacements. If the batch fails or is killed part-way, every file of it but the one "
     "being written is either complete and correct or exactly as it was before, and repeating the batch with "
     "overwriting allowed completes it.",
     ["inputs", "crash_points", "fault_sequences"],
     "all structures, directions, amplitude lists and failure points within the batch",
     "Tests write one or two files for small cubic structures on a perfect disk.",
     ["ramannoodle/structure/_displace.py", "ramannoodle/structure/utils.py", IO + "generic.py"],
     [("positions are computed first, then files are written one after another", "ramannoodle/structure/_displace.py: write_displaced_structures, write_ast_displaced_structures")],
     observe=["bytes of all files of the batch"])
prop("C06", "Readers return what the simulation wrote, from every format",
     "From the files of one calculation (POSCAR, XDATCAR, OUTCAR, vasprun.xml, including machine-learning MD, "
     "selective dynamics, scaled and Cartesian POSCARs), every reader returns the lattice, atoms in file order, "
     "positions, dielectric tensor, timestep, every MD configuration exactly once, and all modes with signed "
     "wavenumbers and mass-weighted displacements in fractional coordinates, exactly as printed. Formats that carry the "
     "same quantity agree within their printed precision, and the sizes in which storage delivers the bytes do not matter.",
     ["inputs", "configurations", "fault_sequences"],
     "all crystals, species lists, run lengths, modes (stable and imaginary), header variants and transfer sizes",
     "Tests read a dozen fixed files of mostly cubic or orthorhombic crystals with stable modes.",
     [IO + "vasp/outcar.py", IO + "vasp/vasprun.py", IO + "vasp/poscar.py", IO + "vasp/xdatcar.py", IO + "generic.py"],
     [("line-oriented parsers", IO + "vasp/outcar.py, poscar.py, xdatcar.py"), ("XML parser", IO + "vasp/vasprun.py")],
     observe=["return values of all readers"])
prop("C07", "Failing reads raise the storage error and leave nothing behind",
     "If the storage fails while a file is opened or read, the reader raises that operating-system error "
     "(FileNotFoundError for a missing file) rather than returning partial, stale or default data, and interruptions "
     "and short transfers are invisible. Readers never modify or create any file, leave no descriptor open whatever "
     "the outcome, and the same call succeeds once the storage works again.",
     ["fault_sequences", "inputs"],
     "every failing call or byte offset and errno, for every reader",
     "No test injects a read failure; only missing files are tried.",
     [IO + "_utils.py", IO + "vasp/outcar.py", IO + "vasp/vasprun.py", IO + "vasp/poscar.py", IO + "vasp/xdatcar.py"],
     [("with blocks; only parse errors are translated", IO + "_utils.py: open_for_parsing")],
     observe=["outcomes", "open descriptors", "bytes of all files"])
prop("C08", "Incomplete files are reported, never read as complete",
     "For a file cut off at any point (killed simulation) or still growing while it is read, a reader raises "
     "InvalidFileException, or returns exactly what the complete file says, or, for trajectories, exactly the leading "
     "whole configurations; an XDATCAR that ends inside a configuration is always reported. (A cut inside the digits of the last number needed is indistinguishable from a shorter "
     "number and is excluded.)",
     ["crash_points", "schedules", "inputs"],
     "every cut position of every file and reader, and every interleaving of a writer that appends lines with the reader",
     "Tests read complete files plus a few hand-made broken ones.",
     [IO + "_utils.py", IO + "vasp/outcar.py", IO + "vasp/vasprun.py", IO + "vasp/poscar.py", IO + "vasp/xdatcar.py"],
     [("every needed line must parse; shapes are verified", IO + "_utils.py: open_for_parsing")],
     observe=["outcomes of all readers on every prefix"])
prop("C09", "Damaged files give well-formed data or a documented exception",
     "For any corruption of a file's bytes, every reader terminates and either returns numeric arrays of mutually "
     "consistent shape or raises one of its documented exceptions (InvalidFileException; SymmetryException for "
     "reference structures; IncompatibleStructureException for datasets). The file is left unmodified and closed.",
     ["inputs", "fault_sequences"],
     "all bit flips, lost, zeroed, duplicated, reordered or foreign bytes and lines, for every reader",
     "Only a few hand-made malformed lines are tested.",
     [IO + "_utils.py", IO + "vasp/outcar.py", IO + "vasp/vasprun.py", IO + "vasp/poscar.py", IO + "vasp/xdatcar.py"],
     [("translation of parse errors and shape checks", IO + "_utils.py: open_for_parsing")],
     observe=["outcomes of all readers"])
prop("C10", "Adding degrees of freedom is all-or-nothing",
     "If adding a degree of freedom (from arrays, files or pymatgen structures; interpolation and atomic-Raman-tensor "
     "models) raises for any reason, be it an invalid argument, an unreadable or unusable file, a storage error or a failing "
     "numeric routine, the model is exactly what it was before: same directions, interpolations, mask, "
     "representation and predictions. Later additions behave as if the failed attempt had never been made. A successful "
     "addition only appends: what was there, and what was masked, stays.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of valid and failing additions through every entry point, and every failure point inside them",
     "Tests check that exceptions are raised, not the state afterwards, and inject no failures.",
     ["ramannoodle/pmodel/_interpolation.py", "ramannoodle/pmodel/_art.py"],
     [("everything that may fail is computed before the model's lists are extended", "ramannoodle/pmodel/_interpolation.py: _construct_and_add_interpolations")],
     state=[("basis vectors, interpolations, mask", "the specified degrees of freedom", "InterpolationModel")],
     observe=["cart_basis_vectors, interpolations, mask, repr, calc_polarizabilities"])
prop("C11", "Predictions depend only on the degrees of freedom and the mask",
     "Two models holding the same degrees of freedom predict the same polarizabilities for any structure, regardless of "
     "the order in which they were added, of the entry point used (arrays, OUTCAR, vasprun.xml, pymatgen), of the order "
     "of amplitudes or files, and of earlier failed attempts, predictions or maskings; when they cover all motions, predictions "
     "equal the true linear response of the crystal, for every lattice type and site symmetry. Masking "
     "removes exactly the masked contributions and unmasking restores the full prediction.",
     ["histories", "inputs", "configurations"],
     "all crystals, orders, entry points, masks and interleaved failing operations",
     "Tests compare a few fixed cubic/tetragonal examples in one order.",
     ["ramannoodle/pmodel/_interpolation.py", "ramannoodle/pmodel/_art.py", "ramannoodle/structure/_reference.py"],
     [("independent contributions are summed; equivalents are generated by symmetry", "ramannoodle/pmodel/_interpolation.py: calc_polarizabilities, _get_dof")],
     observe=["calc_polarizabilities"])
prop("C12", "Results, masked copies and inputs are isolated",
     "Changing an array or list obtained from a structure, model, spectrum, trajectory, phonons or dataset through a "
     "property or method documented to return a copy or a result never changes the object it came from, and a masked "
     "model and its original never influence each other afterwards. No call modifies the arrays or lists passed to it.",
     ["histories", "inputs"],
     "all sequences of obtaining, editing, masking, extending and using objects",
     "Tests use each object once and do not edit what they get.",
     ["ramannoodle/pmodel/_interpolation.py", "ramannoodle/pmodel/_art.py", "ramannoodle/spectrum/_raman.py",
      "ramannoodle/dynamics/_phonon.py", "ramannoodle/dynamics/_trajectory.py", "ramannoodle/structure/_reference.py",
      "ramannoodle/dataset/torch/_dataset.py"],
     [("getters copy; masked models are deep copies", "properties of all classes; get_masked_model")],
     observe=["all public properties and predictions after each edit"])
prop("C13", "Concurrent callers get the sequential results",
     "When several threads use the library at once, sharing models for prediction, masking and spectra (including the "
     "graph neural network) and reading and writing separate files, every call returns exactly what it returns "
     "when run alone, and the files hold what they would hold then.",
     ["schedules", "inputs"],
     "all interleavings, at source lines and storage calls, of threads that share models or use separate files",
     "All tests are single-threaded.",
     ["ramannoodle/pmodel/_interpolation.py", "ramannoodle/pmodel/_art.py", "ramannoodle/pmodel/torch/_utils.py",
      "ramannoodle/pmodel/torch/_gnn.py", "ramannoodle/dynamics/_phonon.py", "ramannoodle/io/_utils.py"],
     [("prediction works on locals; the batch cache is replaced atomically", "ramannoodle/pmodel/torch/_utils.py: BatchTriplets.get_triplets")],
     state=[("triplets cache", "indices for the last batch size", "BatchTriplets")],
     observe=["results of every call", "bytes of every file"])
prop("C14", "The whole pipeline yields the true spectrum despite failures",
     "Following the documented workflow (write displaced structures, run the calculations, read them as they finish, "
     "build the model, compute and measure phonon and molecular-dynamics spectra) gives the spectrum that follows from the "
     "crystal's true polarizability, no matter in which order calculations finish, fail, are killed half-way, are "
     "restarted or are read too early. Once failures stop the workflow completes in a bounded number of steps.",
     ["fault_sequences", "crash_points", "schedules", "inputs"],
     "all crystals and all histories of job failures, delays, truncated outputs, restarts and storage errors",
     "No test runs the whole workflow, let alone with failing jobs.",
     ["ramannoodle/structure/_displace.py", "ramannoodle/pmodel/_art.py", "ramannoodle/pmodel/_interpolation.py",
      "ramannoodle/dynamics/_phonon.py", "ramannoodle/dynamics/_trajectory.py", "ramannoodle/spectrum/_raman.py", IO + "vasp/outcar.py", IO + "vasp/vasprun.py"],
     [("errors are reported per file and change nothing, so that steps can be repeated", "whole package")],
     observe=["measured spectra", "number of steps until completion"])
prop("C15", "Neural-network predictions do not depend on batch or history",
     "A graph neural network model with given parameters predicts for each structure a polarizability that does not depend "
     "on the other structures in the batch, its position in it, the batch size (including more than 100) or on previous "
     "predictions, failed calls or training history other than the parameters. It equals the network's forward pass on that "
     "structure alone, rescaled by the given standard deviation and mean, within floating-point accuracy.",
     ["histories", "inputs"],
     "all batches, batch sizes, orders, sequences of earlier calls, failures and data types",
     "Tests predict a few fixed batches on fresh models.",
     ["ramannoodle/pmodel/torch/_gnn.py", "ramannoodle/pmodel/torch/_utils.py"],
     [("evaluation mode, graphs kept disconnected, cache keyed by batch size", "ramannoodle/pmodel/torch/_gnn.py: forward, calc_polarizabilities")],
     state=[("triplets cache", "indices for the last batch size", "BatchTriplets")],
     observe=["calc_polarizabilities"])
prop("C16", "A training epoch uses each sample once and nothing else",
     "An epoch trains on every training sample exactly once, in batches of the requested size, and its effect on the "
     "parameters and its reported training loss, validation loss and prediction variances depend only on the parameters, the optimizer state and "
     "the data, not on interrupted or earlier epochs or predictions. Validation changes neither parameters nor "
     "normalisation statistics, is computed in evaluation mode after training on every validation sample exactly once, and "
     "the datasets are left unmodified.",
     ["histories", "fault_sequences", "inputs"],
     "all datasets, batch sizes, optimizers, losses and points at which an earlier epoch was interrupted",
     "Tests train a single epoch and look at the loss.",
     ["ramannoodle/pmodel/torch/_train.py", "ramannoodle/dataset/torch/_dataset.py"],
     [("gradients reset, train/eval switch", "ramannoodle/pmodel/torch/_train.py: train_single_epoch")],
     observe=["samples passed to the model", "parameters, buffers, returned losses"])
prop("C17", "Datasets contain every file in order, or are not created",
     "A polarizability dataset read from files (or built from pymatgen structures) contains exactly one sample per entry, "
     "in the given order, with that entry's positions and polarizability; if any entry at any position is missing, "
     "unreadable, invalid or belongs to a different crystal, the corresponding exception is raised and no dataset results. "
     "Scaled polarizabilities are always the original ones minus the mean over the standard deviation last "
     "requested, never scaled twice, and a failed request leaves them as they were.",
     ["inputs", "histories", "fault_sequences"],
     "all file lists, formats, positions and kinds of a bad entry, storage faults, and sequences of rescaling",
     "Tests read a fixed list of good files and rescale once.",
     [IO + "_utils.py", IO + "vasp/outcar.py", IO + "vasp/vasprun.py", IO + "pymatgen.py", "ramannoodle/dataset/torch/_dataset.py"],
     [("files are read in order and compared, the dataset is built at the end", IO + "_utils.py: _read_polarizability_dataset"),
      ("scaling starts from the stored originals", "ramannoodle/dataset/torch/_dataset.py: scale_polarizabilities")],
     observe=["contents of the dataset", "exceptions"])

# Pure functions: nothing for a simulator to decide.
prop("C18", "Periodic-boundary geometry is exact",
     "Wrapping positions, minimum-image displacements and fractional/Cartesian conversions are mutually consistent for all "
     "positions and lattices.",
     ["inputs"], "all positions and lattices",
     "Tests sample few positions.", ["ramannoodle/structure/utils.py", "ramannoodle/structure/_reference.py"],
     [("modular arithmetic", "ramannoodle/structure/utils.py")])
prop("C19", "Spectral formulas and convolution are correct",
     "Laser and Bose-Einstein corrections and Gaussian/Lorentzian smoothing follow their formulas for all inputs, and "
     "smoothing conserves total intensity.",
     ["inputs"], "all wavenumbers, intensities, widths, temperatures",
     "Tests compare few fixed spectra.", ["ramannoodle/spectrum/utils.py", "ramannoodle/spectrum/_raman.py"],
     [("closed formulas", "ramannoodle/spectrum/utils.py")])
prop("C20", "pymatgen conversions preserve structures",
     "Structures and trajectories taken over from pymatgen have the same lattice, atoms and positions.",
     ["inputs"], "all pymatgen structures", "Tests convert few fixed structures.", [IO + "pymatgen.py"],
     [("attribute access", IO + "pymatgen.py")])
prop("C21", "Edge rotations of the neural network are proper rotations",
     "The rotation assigned to each edge direction is orthogonal with determinant one and maps the x axis to that direction.",
     ["inputs"], "all directions", "Tests try few directions.", ["ramannoodle/pmodel/torch/_utils.py"],
     [("Rodrigues formula", "ramannoodle/pmodel/torch/_utils.py: get_rotations")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
