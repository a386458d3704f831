#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a=dict(files=["Merlin++/"+f for f in files],
           mechanism=[dict(name=n,where="Merlin++/"+w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where="Merlin++/"+w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
                  why_tests_cant=why,anchors=a))

p("M01","Model construction yields the flat lattice the calls describe",
 "After any sequence of append-component, append-drift, begin-frame and end-frame calls (arbitrarily nested), the finished model's beamline is exactly the appended components in call order, each reporting its 0-based index in that order. Along the machine each component occupies the interval that starts at the sum of the lengths of all preceding components and is as long as the component, every frame covers exactly its contents, and every component and frame is known to the model.",
 ["programs"],"all sequences of construction calls, all nestings, all component lengths (zero included)",
 "The existing tests import one or two fixed lattices; the guarantee is over every nesting and order of calls.",
 ["AcceleratorModelConstructor.cpp","AcceleratorModel.cpp","SequenceFrame.cpp","LatticeFrame.cpp","ElementRepository.cpp"],
 [("frame stack","AcceleratorModelConstructor.cpp"),("lattice flattening on finish","SequenceFrame.cpp ConsolidateConstruction"),("element registration","ElementRepository.cpp")],
 [("lattice","ordered component frames","AcceleratorModel.h"),("theElements","set of model elements","AcceleratorModel.h")])
p("M02","Model queries return exactly the matching elements, in beamline order",
 "Extraction of components by pattern or type returns exactly the components of the current model that match, in beamline order; index queries return exactly their positions (also when restricted to a sub-beamline); element extraction returns exactly the matching elements of the repository. Queries documented to overwrite their result container do so, so that repeating a query gives the same answer.",
 ["inputs","histories"],"all models, all patterns, all query histories on re-used result containers",
 "Tests use a query or two on one lattice; correctness is over all name/pattern/type combinations and repeated use.",
 ["AcceleratorModel.cpp","AcceleratorModel.h","ElementRepository.cpp"],
 [("pattern extraction","AcceleratorModel.cpp ExtractComponents/GetIndexes"),("typed extraction","AcceleratorModel.h ExtractTypedComponents"),("repository search","ElementRepository.cpp Find")])
p("M03","Name patterns match exactly the strings they describe",
 "A pattern with no wildcard matches only the identical string; '*' stands for any (possibly empty) substring, anywhere and any number of times in the pattern; '|' separates alternatives, any of which may match. The same pattern gives the same verdict wherever patterns are accepted.",
 ["inputs"],"all pairs (pattern, string)",
 "No test exercises the matcher; the semantics quantify over all pattern/string pairs.",
 ["StringPattern.cpp","StringPattern.h"],
 [("segment matcher","StringPattern.cpp Match")])
p("M04","Beamline and ring iteration visits each element once, in order",
 "The whole beamline, a sub-beamline selected by index range or by occurrences of name patterns, and a ring started at any offset each iterate over exactly the elements they denote, in beamline order (a ring repeats cyclically, one turn being every element exactly once starting at the offset); a reversed beamline exchanges first and last element. A range that does not exist is rejected with the documented exception instead of yielding some other range.",
 ["inputs","histories"],"all lattices, index ranges, pattern/occurrence pairs, ring offsets and numbers of turns",
 "Tests track one whole beamline; ranges, offsets and wrap-around are over all sizes and positions.",
 ["AcceleratorModel.cpp","AcceleratorModel.h","ring_iterator.h","TrackingSimulation.cpp"],
 [("range selection","AcceleratorModel.cpp GetBeamline"),("cyclic iterator","ring_iterator.h")])
p("M05","Inserting an element splits a drift without disturbing the rest",
 "Inserting zero-length elements at positions strictly inside drifts of a flat lattice replaces each such drift by two drifts around the element whose lengths add up to the original; every other component keeps its order, length and position, total length is unchanged and positions remain contiguous. Queries, beamline ranges and rings afterwards see the new lattice, and any sequence of insertions yields the lattice obtained by performing the splits one after the other.",
 ["histories","inputs"],"all flat lattices, insertion positions inside drifts and sequences of insertions",
 "No test inserts elements; effects depend on insertion history and container capacity.",
 ["AcceleratorModel.cpp"],[("drift splitting","AcceleratorModel.cpp InstallModelElement")])
p("G01","Geometry transforms of nested frames compose and invert",
 "For any frame built from (nested) sub-frames, with its origin at entrance, centre or exit, the transformation from one point to another along its reference geometry equals the ordered product of the transformations of the segments in between. Going from a to b and back to a is the identity, going a to b to c equals going a to c, and the entrance plane, exit plane and total transforms agree with that.",
 ["programs","inputs"],"all frame trees, origins and pairs of points along the geometry",
 "No test checks geometry transforms of composite frames; the law is over all trees and point pairs.",
 ["SequenceFrame.cpp","SequenceFrame.h","AcceleratorGeometry.h","RectangularGeometry.h","RectangularGeometry.cpp","ArcGeometry.cpp","CenteredGeometry.cpp","GeometryPatch.cpp"],
 [("sequence geometry","SequenceFrame.cpp GetGeometryTransform"),("cached boundary transforms","SequenceFrame.cpp CalculateCachedTransforms")])
p("G02","Misalignments accumulate, are visible to sub-frames, and clear exactly",
 "Successive translations and rotations applied to a frame compose in the order applied, clearing them restores the ideal frame, and a magnet mover's x, y and roll settings read back as last set and act in addition to its alignment errors. The physical transform seen at any component is the composition of the misalignments of all its enclosing frames about their own origins; undoing every misalignment restores the ideal lattice.",
 ["histories","programs"],"all sequences of alignment operations on all frames of all nested lattices",
 "Tests never misalign nested frames; the claim is over histories of operations.",
 ["Transformable.h","Transformable.cpp","LatticeFrame.cpp","LatticeFrame.h","MagnetMover.cpp","MagnetMover.h","AcceleratorErrors.cpp","Transform3D.cpp"],
 [("local frame transform","Transformable.cpp"),("global/physical transform","LatticeFrame.cpp"),("mover","MagnetMover.h")])
p("G03","Component entry and exit apply each frame misalignment exactly once",
 "Following the coordinate changes made on entering and leaving components along the beamline, at every component the accumulated change equals the transformation into that component's own misaligned frame: its own displacement and that of every enclosing frame count exactly once. After the last component the coordinates are again those of the ideal lattice, and in an unmisaligned lattice no change is applied at all.",
 ["programs","histories"],"all nested lattices with arbitrary misalignments of any subset of frames",
 "Needs nested frames with several misaligned levels and boundary coincidence; tests use flat, aligned lattices.",
 ["ComponentFrame.cpp","ComponentFrame.h","LatticeFrame.cpp","SequenceFrame.cpp","TrackingSimulation.cpp"],
 [("entrance/exit plane transforms","LatticeFrame.cpp"),("boundary planes","SequenceFrame.cpp"),("patch application","TrackingSimulation.cpp")])
p("G04","Moved supports displace exactly what they carry",
 "After supports are moved, everything mounted on them is displaced accordingly and nothing else moves: a mount on one support follows it, a girder on two supports is displaced rigidly by a common motion and tilts so that its ends follow their supports to first order, whichever of them moved. Offsets accumulate over increments, reset restores the original position, supports lie where the frames they carry are, and ground motion is vertical, moves supports at the same place together and is reproducible for a given seed.",
 ["histories"],"all sequences of support moves, increments, resets and ground-motion steps on all mount arrangements",
 "The ground motion test samples a single statistical scenario.",
 ["SupportStructure.cpp","SupportStructure.h","AcceleratorSupport.cpp","AcceleratorSupport.h","SimpleATL.cpp"],
 [("support offsets","AcceleratorSupport.cpp"),("frame update from supports","SupportStructure.cpp"),("ground motion step","SimpleATL.cpp")])
p("T01","A tracking run visits every component once, in order",
 "Tracking a bunch through a beamline or one turn of a ring presents every component exactly once, in order, to every active process, between that component's entrance and exit coordinate changes (omitted when the lattice is declared flat; the first entrance change omitted when injecting on axis). The bunch's path is the sum of component lengths, and recorded output appears for exactly the selected components.",
 ["programs","configurations"],"all lattices, sub-ranges, turns, simulation options and sets of processes",
 "Tests compare physics totals for fixed lattices and cannot reveal a skipped or doubled visit for other configurations.",
 ["TrackingSimulation.cpp","TrackingSimulation.h","TTrackSim.h","ComponentFrame.h"],
 [("run loop","TrackingSimulation.cpp DoRun"),("output selection","TrackingSimulation.cpp SimulationOutput")])
p("T02","Processes act in priority order over common steps covering the component",
 "In each component the active processes are applied in ascending priority (ties in order of addition) at every step; each step is the largest step permitted by all of the active processes, and the steps cover the component's length exactly. Adding and removing processes gives the corresponding process set (removal reports whether the process was present), and the integrated length equals the length tracked since initialisation.",
 ["histories","schedules"],"all sequences of add/remove/initialise/track and all step limits and activity patterns of processes",
 "Tests only use one or two processes; order and step interaction are over all process sets.",
 ["ProcessStepManager.cpp","ProcessStepManager.h","BunchProcess.h"],
 [("process table","ProcessStepManager.cpp AddProcess/RemoveProcess"),("step loop","ProcessStepManager.cpp Track")])
p("T03","Stepping, continuing and repeated runs agree with a single run",
 "Stepping through a beamline component by component gives the same bunch and the same sequence of visits as a single run with the same options; a fresh run always starts from the initial bunch; continuing applies another pass to the current bunch without re-initialising. Tracking adjacent sub-beamlines one after another equals tracking the whole.",
 ["histories","schedules"],"all interleavings of run, continue, step and initialise on all lattices and options",
 "Equivalence of histories cannot be established by a fixed example.",
 ["TrackingSimulation.cpp","TrackingSimulation.h"],
 [("run/continue","TrackingSimulation.cpp DoRun"),("stepper","TrackingSimulation.cpp StepComponent")])
p("T04","Component tracking enters and exits each component once and advances time",
 "When a component is tracked in any number of sub-steps, entrance effects are applied once before the first, exit effects once at the end, sub-steps add up to the component's length and overshooting is rejected. The reference time advances by the length tracked, and the particles end in the same state as when tracked in one step (for maps that compose exactly).",
 ["schedules","inputs"],"all ways of subdividing each component into steps",
 "Tests track every component in one or a few steps.",
 ["ComponentTracker.h","ComponentTracker.cpp","ComponentIntegrator.h","ComponentIntegrator.cpp","ParticleTracker.cpp","ParticleComponentTracker.h"],
 [("tracker states","ComponentTracker.cpp"),("integrator","ComponentIntegrator.cpp")])
p("T05","Magnets tracked with second-order maps move particles as their fields say",
 "Tracking with the default (TRANSPORT) integrators takes each particle through drifts, markers, multipoles of any order, rotation and mixture, sector bends (with gradient, higher multipoles, tilt, pole faces of any kind, or a field that does not match the beam's momentum) and solenoids as the equation of motion in the component's own field and geometry does, for either charge sign: the position, angle, path length and energy on the axis, the first-order and the second-order dependence on all coordinates, and the reference time. Following a component in several steps gives the same up to the documented splitting of its kicks, and the motion is reversible and symplectic to first order.",
 ["inputs","programs"],"all components, strengths, orientations, charges, momenta, rows of components and ways of stepping through them",
 "Tests follow one orbit through one lattice, or compare the optics of files; terms of a map show only for a particular mixture of strength, plane, sign and step.",
 ["TransportIntegrators.cpp","TransportRMaps.cpp","TransportRMap.h","RTMap.h","RTMap.cpp","BasicTransportMaps.cpp","SectorBend.cpp","MultipoleField.cpp","MultipoleField.h"],
 [("second-order integrators and kicks","TransportIntegrators.cpp"),("maps","BasicTransportMaps.cpp"),("first-order maps","TransportRMaps.cpp")])
p("T06","Magnets tracked with thin lens integrators move particles as their fields say",
 "Tracking with the thin lens integrators takes each particle through drifts, multipoles, sector bends (with gradient, higher multipoles, tilt, pole faces) and solenoids as the first-order equation of motion in the component's field and geometry does, with the strength of quadrupoles and kicks falling with the particle's momentum; kicks act once per step, at its centre. It holds for either charge sign and every way of stepping; quadrupoles and bends alone do not depend on the steps.",
 ["inputs","programs"],"all components, strengths, orientations, charges, momenta, rows of components and ways of stepping through them",
 "No stable test tracks with this integrator set.",
 ["StdIntegrators.cpp","StdIntegrators.h","TransportMatrix.cpp","SectorBend.cpp","MultipoleField.cpp","MultipoleField.h"],
 [("thin lens integrators","StdIntegrators.cpp"),("matrices","TransportMatrix.cpp")])
p("T07","Symplectic integrators move particles symplectically as the fields say",
 "Tracking with the symplectic integrators takes the canonical momenta through drifts, multipoles and sector bends (with gradient, higher multipoles, tilt, pole faces) as the equations of motion of the expanded Hamiltonian do, for particles of any energy and either charge sign; each kick acts once per step at its centre, and path length and energy follow. The result is symplectic also away from the axis.",
 ["inputs","programs"],"all components, strengths, orientations, charges, energies, rows of components and ways of stepping through them",
 "No stable test tracks multipoles or bends with this integrator set and compares with the field.",
 ["SymplecticIntegrators.cpp","SymplecticIntegrators.h","SectorBend.cpp","MultipoleField.cpp"],
 [("symplectic integrators","SymplecticIntegrators.cpp")])
p("T08","Macroparticles follow their centroid and carry their moments through magnets",
 "Tracking sliced macroparticles through drifts, markers, dipole and quadrupole correctors and magnets, bends with pole faces and solenoids moves each centroid by the first-order motion for the rigidity of that slice's own energy and charge, and its transverse second moments by the same map (R sigma R^T); energy and arrival time of a slice are kept where the map has no such terms. Following a component in steps gives the same up to its kicks, and the reference time advances by the length.",
 ["inputs","programs"],"all slices, moments, energies, components, charges and ways of stepping",
 "No stable test tracks macroparticles.",
 ["SMPStdIntegrators.cpp","SMPComponentTracker.cpp","TransportRMap.h","TransportRMaps.cpp","MatrixMaps.cpp","PSmoments.h"],
 [("integrators","SMPStdIntegrators.cpp"),("moments","MatrixMaps.cpp TransformMoments"),("maps","TransportRMaps.cpp")])
p("T09","Cavities give each particle the voltage of its arrival",
 "In a travelling-wave, standing-wave or transverse cavity each particle (or macroparticle) is acted on by the field at the phase of its own arrival, phi - k ct: accelerating cavities change its momentum by exactly that voltage, while the reference momentum grows by the voltage on the reference phase (unless full acceleration is switched off) and later components see the grown momentum. Its transverse momentum in the body is kept, the edges focus by the field there, transverse cavities kick along their orientation all along their length, phase-space area shrinks exactly as the momentum grows, and a cavity without field is a drift. It holds in every integrator set that supports the cavity and for every way of stepping through travelling waves.",
 ["inputs","programs"],"all cavities, amplitudes, phases, orientations, arrival times, energies, rows of cavities and magnets, ways of stepping",
 "No stable test tracks through a cavity.",
 ["LCAVintegrator.cpp","TransRFIntegrator.cpp","StdIntegrators.cpp","SymplecticIntegrators.cpp","SMPStdIntegrators.cpp","TransportRMaps.cpp","TransportMatrix.cpp","SWRFStructure.cpp","TWRFStructure.cpp","RFAcceleratingField.h"],
 [("travelling waves","LCAVintegrator.cpp"),("transverse cavities","TransRFIntegrator.cpp"),("standing waves","TransportMatrix.cpp SWRFCavity"),("cavities for macroparticles","SMPStdIntegrators.cpp")])
p("P01","Closed orbits, transfer maps and dispersion are those of the tracked motion",
 "For a ring of magnets with bounded motion: the closed orbit found, from any starting element, on or off momentum, with or without the longitudinal plane, is a point that one turn of tracking maps onto itself; transfer matrices (one turn, part of the ring, between two components, about the closed orbit or a given point) are the derivatives of the motion between those places about the orbit there; the dispersion is the derivative of the closed orbit with momentum and closes after a turn; r.m.s. orbit and dispersion are the length-weighted means along the ring; an orbit table has a row for each component, at its distance, holding the closed orbit there.",
 ["inputs","configurations"],"all rings of drifts, multipoles, bends, solenoids and correctors with bounded motion, coupled or not, and all starting elements",
 "The only optics tests compare one LHC lattice with stored MAD output, and fail here.",
 ["ClosedOrbit.cpp","TransferMatrix.cpp","Dispersion.cpp","TrackingSimulation.cpp","LatticeFunctions.cpp","PhaseAdvance.cpp"],
 [("closed orbit","ClosedOrbit.cpp"),("transfer matrix","TransferMatrix.cpp"),("dispersion","Dispersion.cpp"),("between components","PhaseAdvance.cpp")])
p("P02","Lattice functions close, follow the motion and count phase",
 "For a ring with bounded motion, coupled or not, the lattice function table has one row at the start and after each component, with its distance; the shape of each normal mode is carried from row to row by the motion and closes on itself, has unit area, the modes are independent, and in uncoupled rings the first is horizontal and the second vertical; phases are the angles by which a mode turns, in [0,1); table dispersion is that of the motion. Means and r.m.s. of a function over a range are those of the rows weighted by length, looking up a distance gives the first row not before it, and phase advances between rows count whole turns.",
 ["inputs","configurations"],"all rings with bounded motion, all rows, ranges, functions and pairs of places",
 "The only optics test compares one LHC lattice with stored MAD output, and fails here.",
 ["LatticeFunctions.cpp","LatticeFunctions.h","PhaseAdvance.cpp","LinearAlgebra.cpp","MatrixPrinter.h"],
 [("table","LatticeFunctions.cpp"),("phase advance","PhaseAdvance.cpp"),("normal modes","LinearAlgebra.cpp EigenSystem")])
p("P03","Betatron tunes are the angles of the tracked motion",
 "For an uncoupled ring with bounded motion the tunes found from the spectrum of a tracked particle are, in both planes and for any number of turns and amplitude of the start, the fractional tunes of the one-turn motion (the cosine of the angle is half the trace, its side that of the coupling of position to slope), within the resolution of the interpolated spectrum; the diffusion of the tunes of linear motion is zero.",
 ["inputs"],"all rings with bounded uncoupled motion, numbers of turns and starting points",
 "The only tune test uses one LHC lattice, and fails here.",
 ["BetatronTunes.cpp","BetatronTunes.h"],
 [("spectrum","BetatronTunes.cpp FindTunes")])
p("L01","Collimation conserves particles",
 "At every collimation point each particle either stays in the bunch unchanged and in order, because it is inside the aperture there, or is removed and counted as lost exactly once. No particle disappears, is duplicated or is swapped; particle index lists stay aligned with the surviving particles; exceeding the configured loss threshold raises the documented exception.",
 ["histories","inputs","configurations"],"all bunches, apertures, collimation modes and lattices, over any number of elements and turns",
 "Tests use a fixed bunch and one aperture; conservation is over all histories of losses, including several loss points in one element.",
 ["CollimateParticleProcess.cpp","CollimateParticleProcess.h"],
 [("collimation point scheduling","CollimateParticleProcess.cpp SetNextS/DoProcess"),("particle removal","CollimateParticleProcess.cpp DoCollimation")],
 [("InputArray","coordinates at element entrance","CollimateParticleProcess.h"),("pindex","indices of surviving particles","CollimateParticleProcess.h")])
p("L02","Every loss is reported once with the right element, place and turn",
 "Each particle removed by collimation is delivered exactly once to every registered loss output, with the element in which it was lost, a position within that element (at the collimation point where it was found outside, or the bin of the collimator), its coordinates, and the turn number.",
 ["histories","configurations"],"all loss histories across elements, turns and outputs",
 "Tests check one loss scenario.",
 ["CollimateParticleProcess.cpp","CollimationOutput.h","DetailedCollimationOutput.cpp","LossMapCollimationOutput.cpp"],
 [("dispatch to outputs","CollimateParticleProcess.cpp"),("detailed record","DetailedCollimationOutput.cpp")])
p("L03","Loss maps account for every loss exactly once",
 "For any sequence of recorded losses, the loss map's entries sum to the number of losses, are ordered along the lattice, and each counts exactly the losses of its element, exact position or 10 cm bin according to the chosen mode. Each loss is classified collimator, warm or cold by its element type and the configured warm regions.",
 ["histories","inputs"],"all sequences of losses, bin modes and warm regions",
 "No test checks map totals; counts depend on the order and multiplicity of losses.",
 ["LossMapCollimationOutput.cpp","CollimationOutput.h"],
 [("binning","LossMapCollimationOutput.cpp Dispose"),("merging","LossMapCollimationOutput.cpp Finalise")])
p("L04","Non-finite particles are culled exactly",
 "The non-finite check reports or (when culling is on) removes exactly the particles with a non-finite coordinate, keeping all others unchanged and in order, at every element or step where it is active.",
 ["inputs","histories"],"all placements of non-finite coordinates in bunches of all sizes over any number of calls",
 "Tests never contain non-finite particles at several positions.",
 ["NANCheckProcess.cpp","NANCheckProcess.h"],[("cull loop","NANCheckProcess.cpp DoProcess")])
p("A01","Fixed apertures contain exactly the points of their shape",
 "For circular, rectangular, elliptical, rect-elliptical, octagonal and (untapered) collimator apertures, a point is accepted exactly when it lies strictly inside the shape described by its parameters, independent of longitudinal position, and symmetric under the shape's symmetries. An aperture created from a table row has the type and parameters of that row.",
 ["inputs"],"all parameters and all points",
 "Tests sample a few points per shape; fast-path acceptance shortcuts interact with all parameter combinations.",
 ["Aperture.cpp","Aperture.h","CollimatorAperture.cpp"],
 [("containment","Aperture.cpp CheckWithinApertureBoundaries"),("factory","Aperture.cpp ApertureFactory")])
p("A02","Varying apertures interpolate their profile along the element",
 "For apertures whose profile varies along the element (interpolated apertures, tapered or offset collimators), a point at longitudinal position z is accepted exactly when it lies inside the shape whose parameters are linearly interpolated at z between the neighbouring profile points.",
 ["inputs"],"all profiles, points and longitudinal positions",
 "Tests sample few profiles; acceptance shortcuts based on one profile point are wrong only for particular tapers.",
 ["InterpolatedApertures.cpp","CollimatorAperture.cpp"],
 [("interpolation","InterpolatedApertures.cpp"),("taper","CollimatorAperture.cpp")])
p("A03","Aperture configuration gives each element the aperture of its place",
 "Applying an aperture table (rows ordered along the machine, each giving the aperture over its length) assigns to every element of non-zero length that has no aperture yet the aperture described for its place: to a drift the profile of the table over its length, linear between the points of the table - a fixed aperture where it is constant, an interpolated one where it varies; to any other element the fixed aperture of the first point at or beyond its start, or none beyond the last. Elements with an aperture of their own or without length keep what they have, rows without an aperture do not count, and deleting all apertures leaves none.",
 ["inputs","configurations"],"all lattices and aperture tables",
 "The aperture test uses one lattice and table.",
 ["ApertureConfiguration.cpp","ApertureConfiguration.h"],[("assignment","ApertureConfiguration.cpp ConfigureElementApertures")])
p("A04","An aperture survey reports the limits of every element at the places asked for",
 "A survey lists the elements of non-zero length in order, each sampled at the places its mode defines (a number of points per element, every step within each element and its end, or every step along the machine), and reports at each place the largest displacement along +x, -x, +y and -y (up to 1 m) that the element's aperture lets through there, or 1 m where there is none.",
 ["inputs","configurations"],"all lattices, apertures, modes and steps",
 "No test covers the survey.",
 ["ApertureSurvey.cpp","ApertureSurvey.h"],[("survey","ApertureSurvey.cpp ApertureSurvey")])
p("D01","Data tables are typed tables whose contents are what was put in",
 "A data table behaves as an ordered list of rows over named, typed columns: reads return the last value written at that row and column, adding columns or rows leaves other cells unchanged, and typed access to a missing column, with the wrong type or out of range is rejected with the documented error and no effect. A row of values that does not fit is not added at all. Header values behave likewise. A text is taken as a number only when all of it is one, text conversion gives integers and strings exactly and reals to six decimals, and walking the rows in either direction with iterators visits each row once.",
 ["histories","inputs"],"all sequences of table operations",
 "Tests use fixed scripts; the model is over all operation histories including rejected ones.",
 ["DataTable.cpp","DataTable.h"],[("columns and rows","DataTable.cpp"),("row views","DataTable.h")])
p("D02","A table written to TFS reads back equal",
 "Writing any data table (columns, types, rows, header entries; names without blanks, strings without double quotes or line breaks) to TFS, to a file or to a stream with any format flags, and reading it back yields an equal table, reals to the ten digits that are written. Blank lines, spacing and quoting do not affect what is read, and a text that does not describe a table (missing or repeated columns, wrong number of values, values that are not of the column's type) is rejected.",
 ["inputs"],"all tables and all well-formed file layouts",
 "Tests read fixed files.",
 ["DataTableTFS.cpp","DataTableTFS.h"],[("reader","DataTableTFS.cpp Read"),("writer","DataTableTFS.cpp Write")])
p("I01","Importing a lattice table reproduces the described machine",
 "Importing a MAD-X table (from a file or a stream, columns in any order) yields a model whose beamline is the table's elements in order, with their names, the component types their keywords denote, their lengths and their strengths (an integrated strength is divided by the length and multiplied by the magnetic rigidity; bends have the angle, pole faces and tilt of their row; cavities the voltage, frequency and phase). Nothing that has a length is lost: a keyword treated as a drift, by default, by configuration or because it is not known, leaves a drift of its length, a single cell cavity leaves the rest of its length as a drift; only elements of no length are dropped, exactly those the configuration says. So each element begins at the sum of the lengths before it and the model's length is the sum of them all. LINE rows become frames holding exactly the elements between them (type by prefix; without prefix only when the structure is honoured; none in a flat lattice), without any effect on elements and positions. Importing the same table again gives the same model, and appending several tables gives the same model as one table with the rows concatenated.",
 ["inputs","configurations","histories"],"all element tables, importer configurations and sequences of imports",
 "Tests import one lattice with one configuration.",
 ["MADInterface.cpp","MADInterface.h","AcceleratorModelConstructor.cpp"],[("row interpretation","MADInterface.cpp ConstructModel, TypeOverrides, *Component::GetInstance"),("frames","MADInterface.cpp ConstructNewFrame/EndFrame"),("append","MADInterface.cpp AppendModel/GetModel")])
p("K01","Channels read and write exactly the attribute they name",
 "Channels obtained by a type.name.key pattern are exactly those of the matching elements that support the key, in beamline order where elements are in the beamline; reading returns the element's current attribute and writing changes that attribute of that element only. Reading or writing a channel array is the element-wise operation, increments add, and read-only channels cannot be written.",
 ["histories","inputs"],"all models, channel patterns and sequences of reads/writes",
 "No test covers channels.",
 ["Channels.cpp","Channels.h","ChannelServer.cpp","IndirectChannels.cpp","IndirectChannels.h","AcceleratorModel.cpp"],
 [("pattern resolution","ChannelServer.cpp"),("indirect attribute access","IndirectChannels.h"),("arrays","Channels.cpp")])
p("K02","A klystron's settings reach its cavities as the mode prescribes",
 "In balanced mode setting voltage or phase gives each of the n cavities an equal share of the voltage and the same phase; in vector-sum mode the cavities are rescaled and rotated so that the sum of their voltage vectors equals the demanded vector, starting from what the cavities really have (shares are equal when that sum vanishes). The klystron reads back what was set, and settings made on a cavity itself are respected, for every sequence of settings.",
 ["histories"],"all sequences of settings in both modes and all cavity sets",
 "No test covers klystrons.",
 ["Klystron.cpp","Klystron.h"],[("voltage distribution","Klystron.cpp")])
p("K03","The feedback applies its gain to the delayed error signal",
 "Each application computes actuators minus gain times the pseudo-inverse of the response matrix applied to signals minus set points, and, with a pulse delay of n, writes what was computed n-1 applications earlier (zeros before that), exactly once per application; removing the delay writes at once. A response matrix that cannot be used is refused and leaves the feedback with the one it had. Restoring the actuators returns them to their values when stored.",
 ["histories"],"all delays, gains, matrices and signal histories",
 "No test covers feedback; the delay line is a history property.",
 ["LinearFBSystem.cpp","LinearFBSystem.h"],[("delay queue","LinearFBSystem.cpp Apply")])
p("K04","Diagnostics deliver each measurement once to each attached buffer",
 "When a bunch passes an active monitor, each attached buffer and the default buffer receive exactly one record holding the bunch centroid (and size for profile monitors) at the measurement point with its response, reference time and the resolution as error; inactive or globally disabled monitors deliver none. Attaching, removing and clearing buffers takes effect as a set, and measuring never alters the bunch.",
 ["histories","configurations"],"all sequences of attach/detach/activate/measure and all bunches",
 "No test covers monitors.",
 ["BPM.cpp","BPM.h","RMSProfileMonitor.cpp","Monitor.h","AMBufferManager.h","BPMDataBufferServer.cpp"],
 [("buffer management","AMBufferManager.h"),("measurement","BPM.cpp MakeMeasurement")])
p("K05","Corrector windings and magnet fields read back what was set",
 "Setting a corrector winding's integrated field or a magnet's field component changes exactly that component and reads back as set (per unit length as documented), leaves the other plane and other multipole components unchanged, and is seen identically through every view of the same magnet: field at a point, force on a particle and complex field are the sum of the components. Reading never changes the field.",
 ["histories"],"all sequences of field settings over correctors, windings and multipole views",
 "No test covers setting history.",
 ["CorrectorWinding.cpp","CorrectorDipoles.h","MultipoleField.h","StandardMultipoles.h","RectMultipole.h"],
 [("winding views","CorrectorWinding.cpp"),("multipole expansion","MultipoleField.h")])
p("B01","Bunch bookkeeping preserves particles and bulk properties",
 "Adding, removing, sorting, swapping, copying and clearing particles leaves exactly the particles (with coordinates and ids) that the operation specifies in every bunch; total charge is particle count times charge per particle. Centroid and moments (all, projected, of one coordinate), asked for any number of times in any order, are those of the current particles. Adjusting the reference momentum or time, by an amount or to the mean, leaves each particle's physical momentum P0(1+dp) and arrival time T-ct unchanged, and to the mean makes the mean of dp or ct zero. Setting the centroid onto the first particle moves all others by one common amount and makes it the mean.",
 ["histories"],"all sequences of bunch operations on all bunches",
 "Tests sample a few operations.",
 ["ParticleBunch.cpp","ParticleBunch.h","Bunch.h","PSmoments.h"],[("bunch container","ParticleBunch.cpp"),("moments","PSmoments.h")])
p("B02","A bunch written out reads back equal",
 "Writing bunches to a stream, with or without header, and reading it gives all particles in the order written with exactly the coordinates they had, and the reference momentum and time of the last written, for any bunch; blank lines and comments do not count; reading adds behind the particles there are, the given charge is shared by all, and particles read from a file that has no ids have id 0. Particles written as vectors keep their ids. Writing leaves the format of the stream as it was.",
 ["inputs","histories"],"all bunches, all sequences of writing and reading",
 "Test uses one bunch.",
 ["ParticleBunch.cpp","PSvector.cpp","PSvector.h"],[("output/input","ParticleBunch.cpp"),("vectors","PSvector.cpp")])
p("B03","Beam parameters, particles and sigma matrix describe the same beam",
 "A bunch generated from beam parameters has the requested number of particles with ids 0, 1, ...; the first is the centroid, the others are the normalised coordinates drawn, in the order drawn, scaled with emittances, length and energy spread (rms values), taken through coupling, envelope and dispersion and moved by the centroid, less those the filter refuses. The sigma matrix of the beam is that of the same map. The beam parameters found from a sigma matrix have its centroid, dispersion, length, energy spread and mode emittances and give the same sigma matrix again, for coupled and uncoupled, round and flat beams.",
 ["inputs"],"all beams with positive emittances, all drawn coordinates and filters",
 "Tests only count particles of one beam; the correspondence is over all parameters.",
 ["ParticleBunch.cpp","NormalTransform.cpp","BeamData.h","BunchFilter.cpp"],[("normal transform","NormalTransform.cpp"),("generation","ParticleBunch.cpp"),("filters","BunchFilter.cpp")])
p("B04","Slices and distributions of a bunch count each particle once",
 "Dividing a bunch into equal longitudinal slices of a range keeps exactly the particles within the range, sorted, each in the slice its position lies in, and reports how many were lost; the reported distribution is the normalised number per slice and its slope the given filter applied to it. The histogram of any coordinate has all bins of the range and counts each particle within it, limits included, in its bin; with cutting exactly the particles outside are removed.",
 ["inputs","histories"],"all bunches, ranges, numbers of slices and filters",
 "No test covers slices or distributions.",
 ["ParticleBunchUtilities.cpp","ParticleBunchUtilities.h"],[("slices","ParticleBunchUtilities.cpp ParticleBinList"),("histogram","ParticleBunchUtilities.cpp ParticleBunchDistribution")])
p("B05","A bunch of macroparticles has the moments of its mixture",
 "Centroid and moments of a bunch of macroparticles are those of the mixture of its slices weighted with their charges, asked for any number of times. Adjusting the reference to the mean keeps each slice's momentum and arrival time; sorting orders by position and keeps the slices; turning and moving the transverse axes transforms centroids and second moments as those of particles; adding and shifting change exactly what they say; a bunch written to a file reads back equal with its charge and sign.",
 ["histories"],"all sequences of operations on all bunches of macroparticles",
 "No test covers macroparticles.",
 ["SMPBunch.cpp","SliceMacroParticle.cpp","SMPTransform3D.cpp","PSmoments.h"],[("bunch","SMPBunch.cpp"),("turning moments","SMPTransform3D.cpp RotateMoments")])
p("R01","Random streams are reproducible and independent",
 "After seeding with the same seed, the same requests give the same numbers; resetting to the stored seed replays the stream; a named local stream depends only on the seed and its name, not on how other streams were used; re-seeding restarts every stream, also those referred to from before, with the new seed, and resetting one named stream restarts only that one. Numbers scale with the width of their distribution and follow it: normal with the given variance, truncated never beyond the cut-off (given in standard deviations), uniform within its range, Poisson whole and with its mean, Landau with its quartiles.",
 ["histories"],"all seeds and interleavings of requests on the global, local and photon streams",
 "Tests use one seed order; independence is over all interleavings.",
 ["RandomNG.cpp","RandomNG.h","LandauDistribution.h","PhotonSpectrumGen.cpp"],[("master generator","RandomNG.cpp"),("local generator store","RandomNG.cpp getLocalGenerator")])
p("R02","Ground motion is a reproducible random walk obeying the ATL law",
 "Each step of ground motion advances its clock by the step, moves its supports vertically only and leaves all others where they are; the displacement between two supports has variance A times elapsed time times their distance (along the line, or in the plane), scales exactly with the root of A and of that variance, does not depend on the order in which supports are listed, and is the same again whenever the same seed is set or reset. Vibration adds noise that does not accumulate, and cannot be combined with increments. Reset returns supports and clock to zero. The recorded eigen system, read again, gives the same motion; records show clock, position and offset of each support.",
 ["histories"],"all layouts of supports and histories of steps, seeds, modes and resets of several motions",
 "The test follows one seed on one lattice and judges a histogram.",
 ["SimpleATL.cpp","SimpleATL.h","ATL2D.cpp","ATL2D.h","AcceleratorSupport.h","RandomNG.cpp"],[("walk of the line","SimpleATL.cpp ApplyATL"),("modes in the plane","ATL2D.cpp DoStep")])
if __name__=="__main__":
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    try:
        import jsonschema
        s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x,s)
        print("valid",len(P))
    except ImportError: print(len(P))
