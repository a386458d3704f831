"""Writes DESIGN.md from design.in.md, the texts below, known_findings.json, seeded/ and tools/catches.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"M": "**M01-M05 accelerator model** (`Model.tla`, `Patterns.tla`, `MCModel`, `MCPatterns`, `MCInstall`; driver `d_model`). State: the open sequences of the constructor, the flat beamline, the repository of elements, indices and positions. Operations: append component / drift space / frame, begin and end of nested sequences, GetModel, queries by pattern, index tables, beamline and ring ranges, installation of elements at a position. Oracle: list semantics; pattern matching defined by recursion on the pattern (all patterns and strings up to a bound are enumerated). Bounds: all construction scripts of up to 5 (quick) or 6 calls, all patterns of length <= 4 over {a,b,*,|,.}; random models up to 40 elements.",
"G": "**G01-G04 geometry** (`Geom.tla`, `MCGeom`; driver `d_geom`). State: a tree of frames (sequences with origin at start/centre/end, rectangles, arcs of 90 degree turns, patches, girder mounts, supports), the misalignment of every frame. Rotations are the 24 rotations of the cube and translations are integers, so that the group of rigid motions is exact. Oracle: composition of motions along the tree; laws checked in the instance: composition over arbitrary points, inverse, entrance-exit walk equals the global motion, undoing a misalignment restores everything. Bounds: all trees with <= 3 leaves in an outer frame and <= 2 operations; random trees up to 40 nodes, depth 4.",
"T": "**T01-T04 tracking** (`Track.tla`, `MCTrack`, `MCProc`, `CTracker`, `MCCTracker`; driver `d_track`). State: process list by priority, current component, path length, rays (integer 4-vectors under exact drifts and cube rotations), records of outputs. Oracle: the step manager picks the smallest allowed step of the active processes and calls each active process once per step in priority order; a pass transforms rays by entrance/exit motions. Laws: a ray through misaligned field-free components is a straight line in space; parts of a pass compose to the pass; watching changes nothing. Bounds: 2 leaves x 4 process sets x 1-2 misalignments; all sets of <= 3 processes over 3 components.",
"T5": "**T05-T09 motion through components** (`Fx.tla` fixed-point numbers, `Maps.tla` equations of motion, `Elems.tla` components, integrator sets and steps, `MCMaps`, `TraceMaps`; driver `d_maps`). State: the 2-jet of the motion along a direction in phase space - position on the axis, first and second derivative - carried through a row of components. A component is its *equation of motion* to second order (body: quadratic vector field integrated as a power series in the distance, 15 terms, unit 1e-6; kicks: complex polynomials of jets; pole faces: sharp-edge quadratic kicks), so nothing of the closed formulas of the code is in the specification. The real code is asked for the same derivatives by central differences. TRANSPORT (T05): everything to second order; THIN_LENS (T06), SYMPLECTIC (T07), macroparticles with their moments (T08) to first order, kicks to second. Checked on the model, for every element, set, charge and direction (thorough: all rows of two): halves and quarters give the whole; a rotated quadrupole is the upright one in rotated axes; first order is symplectic in 4 or 6 dimensions, canonical maps also away from the axis; motion reversed through the mirrored component returns to where it began, to second order (this fixes the second-order pole faces). Agreement within 4e-5 absolute, 5e-5 relative. Not specified: second order and path length of thin-lens bends; ct of solenoids; thin-lens components of zero length; the pure dipole map of TRANSPORT uses canonical momenta while its quadrupoles and combined-function bends use slopes, the specification follows each; gradients at which the closed formulas of combined bends are singular (K1 = -h^2, -h^2/5). Cavities (`Cav.tla`, T09): the voltage is an exact 2-jet of cos(phi - k ct); momentum, angle and edges follow from it; the path length is kept only by the symplectic set. Checked on rows of two (thorough three) cavities: momenta grow by the voltage seen, area times momentum is conserved. Not specified: ct in cavities of the slope sets, standing waves on the zero crossing (the closed formulas divide by cos phi) and in sets without support.",
"P": "**P01-P03 optics of rings** (`Ring.tla` on top of `Elems.tla`, `MCRing`, `TraceRing`; driver `d_ring`). State: a ring as a row of components; the closed orbit, the first-order motion about it by columns, shapes of the normal modes as symmetric matrices, angles as pairs (cosine, sine), all in the fixed-point numbers of T05. The specification never solves for an orbit, an eigenvector or a dispersion: each is decided by what defines it - the orbit closes under the specified second-order motion, columns are derivatives along it, a shape is carried from row to row (R s R^T), closes, has unit area (trace of s S s S) and has nothing in common with the other mode (s1 S s2 = 0), a phase is the angle by which the shape turns, dispersion is carried, r.m.s. values satisfy their integral, tunes have the trace for cosine. Checked on the model (all rows of up to 3, thorough 4, of 8 kinds; 4, thorough 5, of 4 kinds): the trace does not depend on where a ring begins, invariants of a plane and dispersion are carried around onto themselves, areas are kept by coupled components too, angles add up along the row. Replayed: every clearly stable ring of those with every question, and random rings (flat, coupled by skew or rotated quadrupoles and solenoids, kicked with sextupoles and octupoles), clearly stable with shapes below 45 m. Orbits within 3 mm, as the maps are of second order. Not specified: tunes with diffusion not asked for, the third mode, rings with cavities, radiation, MakeTMSymplectic together with SetForceLongitudinalStability, columns that are not in the table.",
"L": "**L01-L04 collimation and losses** (`Coll.tla`, `MCColl`, `MCLoss`, `MCNan`; driver `d_coll`). State: the particles by their entrance coordinates, the index list, losses so far, turn; loss records of a map; ids already reported as non-finite. Oracle: straight rays through apertures at the collimation points or bins of a collimator; the reported place is the first bin end outside the aperture; scattering is replaced by one with a known outcome (none, all, odd ids absorbed) and, for the real proton scattering, conservation and places are decided. Laws: conservation, order, index list, survivors inside at every looked-at point, threshold iff, independence of particles, monotony in the mode. Bounds: all lines of 2 elements of 6 kinds, 5 rays, 2-3 particles, all modes; all loss histories of length 3-4 over 7 places and 2 warm regions; all histories of length 3-4 of damage and checks over 3 particles.",
"A": "**A01-A04 apertures** (`Aper.tla`, `MCAper`, `MCApConf`; driver `d_aper`). State: one aperture (a shape, a collimator with its settings, a profile), or a machine with an aperture per element and the points of a table. Sizes are integers and octagon angles are given by tangents, so that every verdict is exact integer arithmetic (profiles scaled by the distance of the neighbouring points); a point on an edge must be rejected where floating point can tell it (fixed circles, rectangles, straight jaws), else either verdict is allowed, as at a step of a profile. Checked on the model for every small shape, profile and grid point: symmetry, scaling, star shape, equality of the shapes that coincide, mirrored profiles, convexity along a profile; for every machine of 2 elements and table of 2 (thorough: 3) rows: the aperture at a point of the table is the one it says, splitting a drift changes nothing, blank rows and repetition change nothing. Replayed: every shape and profile on its grid, sampled machines with every point, random shapes, tilted and tapered collimators whose settings change, random machines and tables, and surveys in all modes. Not covered: the profiles of rectangles of different sizes (the code stops there by design), octagons mixed with other shapes, octagons with an uncut corner on both ends of the edge, CollimatorApertureWithErrors (cannot be constructed).",
"D": "**D01-D02 data tables** (`Table.tla`, `MCText`, `MCTfs`, `MCTable`; driver `d_table`). State: a table (columns with types, rows of cells, header values) and its cursor-like views; texts are sequences of one-character strings and numbers are decimal digit sequences, so that what a text denotes, and what is printed for a value, is exact. Operations: add column / row / header value, get and set by name, row number, row view, iterator, as text; copy rows; read and write TFS text. Oracle: list semantics with errors that change nothing; a grammar of TFS files (header, column and type lines, quoted strings, blank lines, wrong counts). Checked on the model: what is written is read back as the same table up to the printed precision; blank lines say nothing; every cell has the type of its column; failed operations leave the table as it was. Bounds: all files of up to 4 (thorough 5) lines from 14 kinds of line, all short number texts and lines over an alphabet of 8 signs, all table histories of up to 4-5 operations; random tables, histories and texts. Either verdict is allowed where the sixth decimal is an exact half.",
"I": "**I01 import of MAD tables** (`Imp.tla`, `MCImp`; driver `d_mad`). State: elements so far with their positions, open lines, frames with their members. One step per table row, the configuration (types treated as drift, types ignored without length, single cell cavities, flat lattice, structure honoured) is a parameter. Strengths are integers in units of 1/1024 so that field times length over rigidity is read back exactly; frame membership in the real model is found by displacing the frame and seeing which components move. Checked on the model: total length is the sum of the lengths in the table for every configuration, each element begins where the one before ends, flat or honoured structure leaves the elements alone, frames are nested runs, treating a type as drift moves nothing, reading in two parts is reading the whole. Bounds: all tables of up to 4 (thorough 5) of 13 kinds of row in 4 configurations (replayed: a sample of 10000, thorough 60000), random tables up to 40 rows. Not specified: scaling of the momentum by synchrotron radiation, the field of a solenoid, thick magnets of zero length, missing columns, apertures (A03).",
"K1": "**K01, K05 channels and magnet fields** (`Ctl.tla`, `Rat.tla`, `MCCtl`; driver `d_ctl`). State: the elements with their field components, windings, movers and monitors, and the channels handed out. Values are dyadic fractions, so that every read-back is exact. Operations: pattern look-ups for read-only and read-write channels, reads, writes, increments of single channels and arrays; fields set and read through every view (component, winding, multipole, force on a particle). Checked on the model: a write changes one attribute of one element, views agree, fields add and are homogeneous polynomials. Bounds: all histories of 3-4 operations over small models; random models and histories.",
"K2": "**K02 klystrons, K03 feedback, K04 monitors** (`Kly.tla`, `Fb.tla`, `Diag.tla` with `MCKly`, `MCFb`, `MCDiag`; driver `d_instr`). Klystron: cavities as complex voltages over rational rotations (3-4-5 triangles and right angles), histories of settings in both modes and on the cavities. Feedback: signals, actuators, queue, rational response matrices; the pseudo-inverse is computed exactly in the specification (full rank factorisation) and its four Penrose conditions are checked in the model; the control law is stated on the history of the computed corrections. Monitors: buffers as sets, records as sequences, centroids and moments exact; sizes compare squares. Checked on the model: sums of voltages, delays on histories, each buffer receives each measurement once, measuring alters nothing. Bounds: all histories of 3-5 operations; random longer ones. Not specified: cavities that share a klystron, time within a thick monitor, a buffer that is both default and attached, matrices at the edge of the SVD tolerance.",
"B1": "**B01, B04 bunches and slices** (`Bunch.tla`, `MCBunch`; driver `d_bunch`). State: up to three bunches, each with reference, charge per particle and the sequence of its particles in exact fractions. Where the order is free (sorting of ties) the specification adopts the order of the code if it is a sorting of the same particles. Checked on the model: adjustments keep every momentum and arrival time and zero the mean, spread times P0 is invariant, centring is a common translation that makes the first particle the mean, each particle in range is in exactly one slice between its bounds, the distribution has area one, an odd filter has no slope on a symmetric distribution, histograms lose nothing within range, each operation leaves the other bunch alone. Bounds: all histories of 3 (thorough 5, not replayed) operations of a set of 22; random histories up to 14 operations and 8 particles, up to 11 slices. Not specified: a bunch without particles that is divided, particles on slice bounds that are not exact binary fractions.",
"B2": "**B02 files** (`Bfile.tla`, `MCBfile`). Numbers are opaque tokens (the exact bits): what is written must be read bit for bit. State: the bunch and the lines of the text. Checked on the model: reading what was written last gives the bunch behind the earlier rows; writing what was read gives the same again. Bounds: all histories of 4 (thorough 6) of 14 operations; random bunches with coordinates from 1e-300 to 1e300, text files with blanks, comments, other separators and notations. Vectors have 11 digits, so only short numbers are used for them. Not specified: ids in a file read by Input, malformed rows.",
"B3": "**B03 beams** (`Beam.tla`, `MCBeam`). The map dispersion x envelope x coupling is computed exactly: square roots of beta and emittance are the parameters, the coupling angle is over Pythagorean and hyperbolic rational rotations with determinant 1. A generator and a filter of the harness give known normalised coordinates to the real constructor. Checked on the model for a grid of beams: the transverse map without dispersion is symplectic, the moments are those of particles at the ends of the normal axes, mode invariants are those of the planes. The way back from a sigma matrix is judged by its moments, as the two modes may be exchanged. Bounds: grid of 128 (thorough 512) beams, random beams, up to 6 particles. Not specified: zero emittances, beams with equal mode emittances that are coupled, the odd exception of the horizontal halo filter for exact zeros.",
"B5": "**B05 macroparticles** (`Smp.tla`, `MCSmp`). State: reference, slices with charge, means and second moments in exact fractions. Checked on the model: adjustments keep momenta and arrival times, shifts move only means, turning keeps the traces and the angular momentum <xy'>-<yx'>, sorting and files keep the moments. Bounds: all histories of 3 (thorough 5) of 12 operations, random histories up to 10. Not specified: what ApplyTransformation returns, rotations about other axes (approximate by its documentation), macroparticles of both signs in one bunch, conversion from particles.",
"R1": "**R01 random streams** (`Rand.tla`, `MCRand`). The generator is an unknown function of seed, stream name and the requests made since the stream was started; the trace specification learns it and refuses a second, different value (exact for raw 64-bit numbers, 1e-5 of the width for distributions). State: seed, requests of every stream, references held from before. Checked on the model: an operation changes no other stream, seeding starts all again, restarting a stream is as seeding for it. Each scenario runs in a process of its own, so unseeded use is covered too. Distributions are judged by 1024 numbers at more than six standard deviations. Bounds: all histories of 4 (thorough 10 in the model) of 12 operations; random ones up to 14 (24). Not specified: the generator before any seeding, a zero Poisson mean, whether zero width draws a number.",
"R2": "**R02 ground motion** (`Ground.tla`, `MCGround`). Displacements are numbers of the stream times a known width (gaps chosen so that roots are rational), so runs with other A, steps and layouts predict each other; where noise and walk cannot be told apart the whole history is the key. Variances are judged by 1024 repetitions. Found with it: NaN for a support at the reference point, eigenvectors recorded as if symmetric, the refusal of modes turned round. Bounds: all histories of 4 (thorough 7) of 11 operations on two motions of 3 supports; random ones with 3 motions of up to 5 supports. Not specified: the displacement of the very first absolute step in the plane."
}
def load(f, d):
    try: return json.load(open(f))
    except FileNotFoundError: return d
def main():
    s = open(os.path.join(V, "tools", "design.in.md")).read()
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    out = []
    for k in T: out.append(T[k] + "\n")
    na = man.get("not_applicable", [])
    if na: out.append("Not claimed: " + "; ".join("%s (%s)" % (x.get("property_id") or x.get("id") or x.get("property"), x["reason"]) for x in na) + "\n")
    s = s.replace("@PROPS@", "\n".join(out))
    kf = load(os.path.join(V, "known_findings.json"), {"findings": [], "fixed": []})
    f = []
    for x in kf["findings"]: f.append("* recorded, not repaired: **%s** `%s` - %s" % (x["property"], x["id"], x["what"]))
    for x in kf["fixed"]: f.append("* " + x)
    s = s.replace("@FINDINGS@", "\n".join(f))
    cat = load(os.path.join(V, "tools", "catches.json"), {})
    rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(d + "/meta.json")); n = os.path.basename(d)
        rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], cat.get(n, m["property"])))
    s = s.replace("@SEEDS@", "\n".join(rows))
    open(os.path.join(V, "DESIGN.md"), "w").write(s)
main()
