#!/usr/bin/env python3
"""Runs checks against scratch copies of /repo with edits that keep its behaviour; all of them have to stay quiet.

usage: tools/refactors.py [NAME...] [-- CHECK...]
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO, V, S, P = "ramannoodle/io/", "ramannoodle/io/vasp/", "ramannoodle/structure/", "ramannoodle/pmodel/"
ALL = [f"C{k:02d}" for k in range(1, 18)]

REFACTORINGS = {
    "one-write": (["C01", "C02", "C03", "C04", "C05", "C13", "C14"], [
        (V + "poscar.py", '''    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
        file.write("   1.00000000000000" + "\\n")
        file.write(lattice_str)
        file.write(symbols_str)
        file.write("Direct\\n")
        file.write(positions_str)
''', '''    content = "".join(
        [label_str, "   1.00000000000000\\n", lattice_str, symbols_str, "Direct\\n"]
    )
    with filepath.open(open_mode, encoding="utf-8") as file:
        file.write(content + positions_str)
'''),
        (V + "xdatcar.py", '''    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
        file.write("   1.00000000000000" + "\\n")
        file.write(lattice_str)
        file.write(symbols_str)
        for index, positions in enumerate(positions_ts):
            config_label = f"Direct configuration= {index+1:>6}\\n"
            positions_str = _get_positions_str(positions)
            file.write(config_label)
            file.write(positions_str)
''', '''    blocks = [label_str, "   1.00000000000000\\n", lattice_str, symbols_str]
    for index in range(len(positions_ts)):
        blocks.append(f"Direct configuration= {index+1:>6}\\n")
        blocks.append(_get_positions_str(positions_ts[index]))
    file = filepath.open(mode=open_mode, encoding="utf-8")
    try:
        file.writelines(blocks)
    finally:
        file.close()
''')]),
    "many-writes": (["C01", "C02", "C03", "C04", "C05", "C13", "C14"], [
        (V + "poscar.py", '''        file.write(symbols_str)
        file.write("Direct\\n")
        file.write(positions_str)
''', '''        print(symbols_str, end="", file=file)
        print("Direct", file=file)
        for line in positions_str.splitlines(keepends=True):
            file.write(line)
            if len(line) > 1000000:
                file.flush()
'''),
        (V + "poscar.py", '''    result = ""
    for vector in positions:
        result += f"  {vector[0]:9.16f}   {vector[1]:9.16f}   {vector[2]:9.16f}\\n"
    return result
''', '''    lines = (
        "  " + "   ".join(format(value, "9.16f") for value in vector) + "\\n"
        for vector in positions
    )
    return "".join(lines)
'''),
        (S + "_displace.py", '''    position_list = get_displaced_positions(
        ref_structure, cart_displacement, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, filepaths):
        generic_io.write_structure(
            ref_structure.lattice,
            ref_structure.atomic_numbers,
            position,
            filepath,
            file_format,
            overwrite,
        )
''', '''    position_list = get_displaced_positions(
        ref_structure, cart_displacement, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))
    lattice = ref_structure.lattice
    atomic_numbers = ref_structure.atomic_numbers

    for index in range(len(filepaths)):
        generic_io.write_structure(
            lattice=lattice,
            atomic_numbers=atomic_numbers,
            positions=position_list[index],
            filepath=filepaths[index],
            file_format=file_format,
            overwrite=overwrite,
        )
''')]),
    "read-all": (["C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17"], [
        (IO + "_utils.py", '''    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
        try:
            yield file
''', '''    with filepath.open(encoding="utf-8", errors="replace") as file:
        content = io.StringIO(file.read())
        try:
            yield content
'''),
        (IO + "_utils.py", "from typing import TextIO, Callable, Iterator\n", "import io\nfrom typing import TextIO, Callable, Iterator\n"),
        (IO + "_utils.py", '''    for line in file:
        if content in line:
            return line
    raise''', '''    line = file.readline()
    while line:
        if content in line:
            return line
        line = file.readline()
    raise'''),
        (V + "vasprun.py", '''        root = ET.parse(file).getroot()
''', '''        root = ET.fromstring(file.read())
'''),
    ]),
    "read-helpers": (["C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17"], [
        (V + "outcar.py", '''    positions = []
    for _ in range(num_atoms):
        try:
            line = file.readline()
            positions.append(_get_lattice_vector_from_outcar_line(line))
        except (EOFError, ValueError, IndexError) as exc:
            raise InvalidFileException(
                f"fractional positions could not be parsed: {line}"
            ) from exc
    return np.array(positions)
''', '''    return _read_vectors(file, num_atoms, "fractional positions")


def _read_vectors(file: TextIO, count: int, what: str) -> NDArray[np.float64]:
    """Read vectors from subsequent lines."""
    vectors = np.zeros((count, 3))
    for index in range(count):
        line = file.readline()
        try:
            vectors[index] = _get_lattice_vector_from_outcar_line(line)
        except (EOFError, ValueError, IndexError) as exc:
            raise InvalidFileException(f"{what} could not be parsed: {line}") from exc
    return vectors
'''),
        (V + "outcar.py", '''    polarizability = []
    for _ in range(3):
        try:
            line = file.readline()
            polarizability.append(_get_lattice_vector_from_outcar_line(line))
        except (EOFError, ValueError, IndexError) as exc:
            raise InvalidFileException(
                f"polarizability could not be parsed: {line}"
            ) from exc
    return np.array(polarizability)
''', '''    return _read_vectors(file, 3, "polarizability")
'''),
        (V + "outcar.py", '''            cart_positions = _read_next_cart_positions_ts(file, len(atomic_symbols))
            positions_ts.append(cart_positions @ np.linalg.inv(lattice))

        if len(positions_ts) == 0:
            raise InvalidFileException("no trajectory found")

        return Trajectory(np.array(positions_ts), timestep)
''', '''            positions_ts.append(_read_next_cart_positions_ts(file, len(atomic_symbols)))

    if not positions_ts:
        raise InvalidFileException("no trajectory found")
    return Trajectory(np.array(positions_ts) @ np.linalg.inv(lattice), timestep)
'''),
        (V + "vasprun.py", '''    positions = []
    for child in structure_varray:
        text = child.text
        if text is None:
            raise InvalidFileException("varray child text not found")
        positions.append([float(i) for i in text.split()])
    result = np.array(positions)
    verify_ndarray_shape("positions", result, (None, 3))
    return result
''', '''    texts = [child.text for child in structure_varray]
    if None in texts:
        raise InvalidFileException("varray child text not found")
    result = np.array([list(map(float, str(text).split())) for text in texts])
    verify_ndarray_shape("positions", result, (None, 3))
    return result
'''),
        (V + "xdatcar.py", '''    positions_ts = []
    with open_for_parsing(filepath) as file:
''', '''    positions_ts: list[NDArray[np.float64]] = []
    with open_for_parsing(Path(str(filepath))) as file:
'''),
    ]),
    "model": (["C10", "C11", "C12", "C13", "C14"], [
        (P + "_interpolation.py", '''            for basis_vector, interpolation, mask in zip(
                self._cart_basis_vectors,
                self._interpolations,
                self._mask,
                strict=True,
            ):
                amplitudes = np.einsum(
                    "i,ji", basis_vector.flatten(), cart_displacements
                )
                delta_polarizabilities += (1 - mask) * np.array(
                    interpolation(amplitudes), dtype="float64"
                )
''', '''            contributions = list(
                zip(
                    self._cart_basis_vectors,
                    self._interpolations,
                    self._mask,
                    strict=True,
                )
            )
            for basis_vector, interpolation, mask in contributions:
                if mask:
                    continue
                amplitudes = cart_displacements @ basis_vector.reshape(-1)
                delta_polarizabilities = delta_polarizabilities + np.asarray(
                    interpolation(amplitudes), dtype="float64"
                )
'''),
        (P + "_interpolation.py", '''        mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
        self._cart_basis_vectors += basis_vectors_to_add
        if not self._is_dummy_model:
            self._interpolations += interpolations_to_add
        self._mask = mask
''', '''        mask = np.zeros(len(self._mask) + len(basis_vectors_to_add), dtype=bool)
        mask[: len(self._mask)] = self._mask
        self._mask = mask
        self._cart_basis_vectors = [*self._cart_basis_vectors, *basis_vectors_to_add]
        if not self._is_dummy_model:
            self._interpolations = [*self._interpolations, *interpolations_to_add]
'''),
        (P + "_interpolation.py", '''        return copy.deepcopy(self._cart_basis_vectors)
''', '''        return [basis_vector.copy() for basis_vector in self._cart_basis_vectors]
'''),
        (P + "_interpolation.py", '''        result = copy.deepcopy(self)
        new_mask = result.mask
        new_mask[:] = False
        new_mask[dof_indexes_to_mask] = True
        result.mask = new_mask
        return result
''', '''        mask = np.zeros(self._mask.shape, dtype=bool)
        mask[dof_indexes_to_mask] = True
        result = copy.deepcopy(self)
        result.mask = mask
        return result
'''),
        (P + "_interpolation.py", '''                    interpolation_y.append(
                        (np.linalg.inv(rotation) @ delta_polarizability @ rotation)
                    )
''', '''                    interpolation_y.append(
                        np.linalg.solve(rotation, delta_polarizability @ rotation)
                    )
'''),
        (P + "_interpolation.py", "        self._mask[:] = False\n\n    def __repr__", "        self._mask = np.zeros_like(self._mask)\n\n    def __repr__"),
        (S + "_reference.py", '''        return copy.copy(self._atomic_numbers)
''', '''        return list(self._atomic_numbers)
'''),
        (S + "_reference.py", '''        result: dict[int, list[int]] = {}
        for index, equiv_index in enumerate(self._symmetry_dict["equivalent_atoms"]):
            if index == equiv_index:
                result[index] = []
            else:
                result[equiv_index].append(index)
        return result
''', '''        parents = [int(i) for i in self._symmetry_dict["equivalent_atoms"]]
        return {
            parent: [i for i, p in enumerate(parents) if p == parent and i != parent]
            for index, parent in enumerate(parents)
            if index == parent
        }
'''),
    ]),
    "spectra": (["C12", "C13", "C14", "C15"], [
        ("ramannoodle/spectrum/_raman.py", '''        alpha_squared = (
            (
                self._raman_tensors[:, 0, 0]
                + self._raman_tensors[:, 1, 1]
                + self._raman_tensors[:, 2, 2]
            )
            / 3.0
        ) ** 2
''', '''        alpha_squared = np.trace(self._raman_tensors, axis1=1, axis2=2) ** 2 / 9.0
'''),
        ("ramannoodle/spectrum/_raman.py", '''        if laser_correction:
            laser_wavenumber = 10000000 / laser_wavelength
            intensities *= get_laser_correction(
                self._phonon_wavenumbers, laser_wavenumber
            )
        if bose_einstein_correction:
            intensities *= get_bose_einstein_correction(
                self._phonon_wavenumbers, temperature
            )

        return self._phonon_wavenumbers.copy(), intensities
''', '''        wavenumbers = self.phonon_wavenumbers
        if bose_einstein_correction:
            correction = get_bose_einstein_correction(wavenumbers, temperature)
            intensities = intensities * correction
        if laser_correction:
            intensities = intensities * get_laser_correction(
                wavenumbers, 10000000 / laser_wavelength
            )
        return wavenumbers, intensities
'''),
        ("ramannoodle/spectrum/_raman.py", '''        # "alpha dot" aka polarizability time derivative
        ad = np.diff(self._polarizability_ts, axis=0)
''', '''        # "alpha dot" aka polarizability time derivative
        series = self.polarizability_ts
        ad = series[1:] - series[:-1]
'''),
    ]),
    "network": (["C13", "C15", "C16"], [
        (P + "torch/_gnn.py", '''        polarizability = torch.zeros((positions.size(0), 6))
        for structure_i in range(positions.size(0)):
            # Edges are selected, as multiplying by zero would not remove the NaNs of
            # another structure.
            mask = edge_index[0] == structure_i
            count = torch.sum(mask)
            polarizability[structure_i] = torch.sum(edge_polarizability[mask], dim=0)
            polarizability[structure_i] /= count
        return polarizability
''', '''        return torch.stack(
            [
                edge_polarizability[edge_index[0] == index].mean(dim=0)
                for index in range(positions.size(0))
            ]
        )
'''),
        (P + "torch/_gnn.py", '''        start_index = 0
        for positions_subbatch in positions_subbatchs:
            subbatch_size = positions_subbatch.shape[0]
''', '''        end_index = 0
        for positions_subbatch in positions_subbatchs:
            start_index = end_index
            subbatch_size = len(positions_subbatch)
'''),
        (P + "torch/_gnn.py", '''            progress_bar.update(end_index - start_index)
            start_index = end_index

        progress_bar.close()
''', '''            progress_bar.update(subbatch_size)

        progress_bar.close()
'''),
        (P + "torch/_train.py", '''        loss = loss_function(out, polarizability)
        train_losses.append(float(loss))

        loss.backward()
        optimizer.step()
        optimizer.zero_grad()

    model.eval()
''', '''        optimizer.zero_grad()
        loss = loss_function(out, polarizability)
        loss.backward()
        optimizer.step()
        train_losses.append(loss.item())
    optimizer.zero_grad()

    model.eval()
'''),
        (P + "torch/_train.py", '''        out = model.forward(
            lattice.to(default_device),
            atomic_numbers.to(default_device),
            position.to(default_device),
        )
        loss = loss_function(out, polarizability)
        validation_losses.append(float(loss))
        validation_vars.append(torch.var(out, dim=0).detach().cpu().numpy().copy())
''', '''        with torch.no_grad():
            out = model(
                lattice.to(default_device),
                atomic_numbers.to(default_device),
                position.to(default_device),
            )
            validation_losses.append(loss_function(out, polarizability).item())
        validation_vars.append(out.var(dim=0).cpu().numpy().copy())
'''),
        (P + "torch/_train.py", '''    model.train()
    optimizer.zero_grad()  # an interrupted epoch may have left gradients behind
    train_losses = []
''', '''    optimizer.zero_grad()  # an interrupted epoch may have left gradients behind
    train_losses = []
    model.train()
'''),
    ]),
    "datasets": (["C12", "C16", "C17"], [
        ("ramannoodle/dataset/torch/_dataset.py", '''        scaled = self._polarizabilities.detach().clone()
        scaled = scaled - torch.tensor(mean)
        scaled /= torch.tensor(stddev)
        scaled = rn_torch_utils.polarizability_tensors_to_vectors(scaled)
''', '''        scaled = (self._polarizabilities - torch.tensor(mean)) / torch.tensor(stddev)
        scaled = rn_torch_utils.polarizability_tensors_to_vectors(scaled)
'''),
        ("ramannoodle/dataset/torch/_dataset.py", '''    scaled_polarizabilities = torch.zeros((polarizabilities.size(0), 6))
    scaled_polarizabilities[:, 0] = polarizabilities[:, 0, 0]
    scaled_polarizabilities[:, 1] = polarizabilities[:, 1, 1]
    scaled_polarizabilities[:, 2] = polarizabilities[:, 2, 2]
    scaled_polarizabilities[:, 3] = polarizabilities[:, 0, 1]
    scaled_polarizabilities[:, 4] = polarizabilities[:, 0, 2]
    scaled_polarizabilities[:, 5] = polarizabilities[:, 1, 2]
''', '''    rows, columns = [0, 1, 2, 0, 0, 1], [0, 1, 2, 1, 2, 2]
    scaled_polarizabilities = torch.zeros((polarizabilities.size(0), 6))
    scaled_polarizabilities[:] = polarizabilities[:, rows, columns]
'''),
        ("ramannoodle/dataset/torch/_dataset.py", '''        return self._positions.detach().clone().numpy()
''', '''        return self._positions.detach().numpy().copy()
'''),
        (IO + "_utils.py", '''    for file_index, filepath in tqdm(list(enumerate(filepaths)), unit=" files"):
        read_lattice, read_atomic_numbers, positions, polarizability = (
            read_structure_and_polarizability_fn(filepath)
        )
        if file_index != 0:
''', '''    for filepath in tqdm(filepaths, unit=" files"):
        read_lattice, read_atomic_numbers, positions, polarizability = (
            read_structure_and_polarizability_fn(filepath)
        )
        if len(positions_list) > 0:
'''),
    ]),
}


def main(argv):
    names = argv[:argv.index("--")] if "--" in argv else argv
    only = argv[argv.index("--") + 1:] if "--" in argv else None
    bad = 0
    for name in names or REFACTORINGS:
        ids, edits = REFACTORINGS[name]
        with tempfile.TemporaryDirectory(prefix="refactor") as d:
            shutil.copytree("/repo", d + "/t", ignore=shutil.ignore_patterns(".git"))
            for f, old, new in edits:
                with open(f"{d}/t/{f}", encoding="utf-8") as file:
                    text = file.read()
                assert text.count(old) == 1, (name, f, text.count(old), old)
                with open(f"{d}/t/{f}", "w", encoding="utf-8") as file:
                    file.write(text.replace(old, new))
            if os.environ.get("TESTS"):
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "test"],
                                   cwd=d + "/t", env={**os.environ, "PYTHONPATH": d + "/t"}, capture_output=True, text=True)
                print(name, "tests:", r.stdout.strip().split("\n")[-1], flush=True)
            for i in only or ids:
                r = subprocess.run([HERE + "/bin/check", i, "quick"], env={**os.environ, "SIM_TREE": d + "/t"},
                                   capture_output=True, text=True)
                lines = (r.stdout + r.stderr).strip().split("\n")
                bad += r.returncode != 0
                print(f"{name:14s} {i} rc={r.returncode} {lines[-3 if r.returncode and len(lines) > 2 else -1][:200]}", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
