"""Writes known_findings.json: the known findings (suppressed, exit 0) and the repaired defects (suppress nothing)."""
import json, os
KNOWN = [
 dict(id="KF01", property="C07", harness="precalc_vertical_move", obligation="field_moves",
      what="PreCalcCoil: setting R or Z moves only the reported position, the tabulated field stays where it was (freegs/pre_calc_coil.py R/Z setters)"),
 dict(id="KF02", property="C21", harness="coil_area", obligation="area_restored",
      what="Coil(area=<number>): the cross-section is not stored in HDF5 files, a coil that is read back derives it from its current (freegs/coil.py Coil.dtype)"),
]
FIXED = """
C03 3c2960b MultiCoil ignored the number of turns of a single-point block
C07 7c39bf3 moving a MultiCoil modified the caller's filament lists
C21 c3d4fa6 MultiCoil.from_numpy_array read a non-existent field instead of mirror
C03 5af1dd9 PreCalcCoil ignored the number of turns
C05 f30eb94 MirroredCoil put both coils at the same Z and dropped current and control
C06 b4ff1cc forces on coils in a Circuit included the field of the coil itself
C07 4df87f8 moving a ShapedCoil or FilamentCoil left its outline behind
C30 c05e085 coarsen() set psi to zero on the boundary and forgot boundary condition and order
C11 bfa310c multigrid restriction ignored all neighbours, so avg=True did not average
C30 89d38ff newDomain() took ny from the R resolution and forgot boundary condition and order
C30 f958bfd refine(), coarsen() and newDomain() forgot check_limited and the plasma current
C12 5761937 ConstrainBetapIp and ConstrainPaxisIp ignored a given boundary flux
C30 18797d2 refine(), coarsen() and newDomain() left the profiles tied to the old grid
C13 f633a63 fpol() lost the sign of a negative vacuum f
C20 88c45e1 flux at limiter points was read from the transposed flux map
C20 7499f0e limiter detection assumed that psi has a maximum on the axis
C20 1898eea a limited plasma without X-points had no core mask
C20 ea18c52 limit points left out the last side of the wall
C32 c0fbc77 q() did not accept a list
C32 1cfa736 safety factor of a limited plasma was normalised to the X-point flux
C32 c0bd092 rhotor() divided by zero if psi has a minimum on the axis
C18 d0d047a ConstrainPsi2DAdvanced and ConstrainPsiNorm2DAdvanced failed without current limits
C18 66a3844 ConstrainPsi2DAdvanced failed with scalar weights and compared with an offset target
C18 d84737c ConstrainPsi2D failed with scalar weights
C18 8b24614 ConstrainPsi2DAdvanced ignored max_total_current
C19 5ccfc18 Picard iteration could stop without a plasma boundary
C28 32a8781 poloidalBeta3 was multiplied by the plasma volume
C25 9a2b37a open lines were closed and lost their last segment in polygons.intersect
C25 4a3fec6 triangulation of concave polygons could overlap or never end
C29 12ed9d7 shafranovShift ignored npoints (also C28: betaN)
C24 76fab13 Rogowski sensors ignored the number of turns
C24 4d2888c Rogowski sensors failed on solenoids and saw only the centre of a MultiCoil
C24 768b9ae machines without sensors, or with sensors that are off, could not be measured or printed
C21 72b56a3 circuits whose first multiplier is zero were read back with current nan
C21 5582ddf FilamentCoil could not be written
C21 b14dbac MultiCoil could not be written, and a single point lost its turns
C21 ce40f62 R0, order and check_limited were lost
C22 6e83a38 a limiter in a GEQDSK file did not give limit points
C22 1d7aee7 GEQDSK profiles were written on a different flux grid than readers assume
C22 cf2aaf8 reading onto another domain failed or used the wrong mask and axis
C22 4bd6e3e reading depended on the currents already in the coils
C22 53227e8 reading failed with a freeqdsk that returns an object
C32 efbc2a7 q() of a single value (introduced by c0fbc77)
C23 7e7c50b optimiser could return a worse candidate than the start
C23 96c357f optimiser failed with one control and never picked the last one
C23 8697f2e optimiser never picked some agents
C23 0ef4f73 coil position controls ignored limits of zero
C23 bc0533d max_coil_force left out the plasma and failed on circuits and solenoids
C31 4813b52 field line length was negative if Btor is negative
C31 b348a0e field lines could not be followed from scalar or 2-D positions
C31 f496ce3 field lines behind a corner of the wall were taken to be inside
C34 6f45d5d coils given by their outline could not be populated with filaments
C34 cd15ec8 thin coils were left without filaments
C21 0de6ee4 comparing machines with different walls raised
C21 4a2f9bf comparing coils of different kinds raised
C21 21be8f6 coils with different filaments compared equal
C10 6d84eae an iterative solver overwrote the interior flux during von Hagenow's boundary condition (also C11: initial guess)
C32 62a9790 find_safety ignored the requested number of surfaces
C06 f9b0a74 centre of a coil with a closed outline counted its first corner twice (also C34)
"""
out = {"findings": [dict(k, status="known") for k in KNOWN], "fixed": []}
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    out["fixed"].append("fixed: property=%s %s %s" % (p, c, w))
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
