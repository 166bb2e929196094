"""Writes properties.jsonl and MANIFEST.json."""
import json
def P(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
ST=[("structure","lattice vectors, species, fractional and cartesian coordinates of one cell","src/structure.rs Structure")]
L=[
P("C01","Every sequence of cell operations keeps describing the same crystal",
 "Whatever sequence of cell transformations, coordinate normalizations, primitive-cell searches, Niggli and Delaunay reductions and standardizations is applied to a structure, each result describes the same infinite crystal: every atom of the crystal is present exactly once per cell with its species, none is moved, added, lost or renamed, and the new cell vectors are lattice translations placed as in the input. Every call returns, for every crystal whose atoms are farther apart than a few times the distance tolerance.",
 ["histories","inputs"],"all sequences of operations, over all crystals, all lattices of the fourteen kinds, and all cells (supercells, left-handed and skewed ones) describing them",
 "The unit tests apply each operation once to one or two fixed structures and compare numbers; they never compose operations and never look at the set of atoms.",
 ["src/structure.rs","src/reduce.rs","src/analyzer.rs"],
 [("Structure::apply_transformation","src/structure.rs:141"),("Reducer::find_primitive_cell","src/reduce.rs:26"),("Reducer::niggli_reduce","src/reduce.rs:244"),("Reducer::delaunay_reduce","src/reduce.rs:439"),("SymmetryAnalyzer::get_standard_conventional_structure","src/analyzer.rs:339")],ST,["the structure returned by each public call"]),
P("C02","Changing the cell gives exactly the requested cell with all of its atoms",
 "Transforming a structure with a matrix whose columns are new lattice vectors gives exactly those cell vectors, and the atoms of the crystal inside the new cell: each once, with its species, at the same place in space. This holds for supercells, for smaller cells when the crystal has the corresponding translations, for fractional matrices, and for mirrored (negative determinant) ones; the call always ends.",
 ["inputs"],"all crystals, cells and transformation matrices between lattice cells, including fractional entries and volume ratios that are not whole numbers",
 "The tests transform one structure by one matrix and compare the lattice only.",
 ["src/structure.rs"],[("Structure::apply_transformation","src/structure.rs:141")],ST,["lattice, species and coordinates after the call"]),
P("C03","The primitive cell search finds a true primitive cell",
 "For every supercell of every crystal, the primitive cell returned holds exactly one lattice point of the crystal: its volume and atom count are the smallest possible, its vectors are translations of the crystal, it is right-handed, and its atoms are those of the crystal. The input structure is left as it was.",
 ["inputs"],"all crystals presented in all supercells (every sublattice up to the bound), origins, orientations and orders of atoms",
 "The tests reduce one body-centred structure; other sublattices, species distributions and skewed supercells are not tried, and the smallest volume is not checked independently.",
 ["src/reduce.rs","src/structure.rs"],[("Reducer::find_primitive_cell","src/reduce.rs:26"),("Reducer::get_shortest_translation_vecs","src/reduce.rs:542")],ST),
P("C04","Niggli reduction returns the unique reduced cell of the lattice",
 "The cell returned by the Niggli reduction spans the same lattice as the input cell, keeps its handedness and its atoms, and fulfils all main and special Niggli conditions. It is therefore the same cell shape for every description of the lattice.",
 ["inputs"],"all lattices given in any basis, including those on the borders between lattice characters where several scalar products coincide or vanish",
 "The tests reduce a single cell. The special conditions matter only for lattices with coincidences, which random or hand-picked cells do not meet.",
 ["src/reduce.rs"],[("Reducer::niggli_reduce","src/reduce.rs:244")],ST),
P("C05","Delaunay reduction returns an obtuse superbase of the same lattice",
 "The Delaunay-reduced cell spans the same lattice and holds the same atoms as the input, and, without the additional full reduction to the shortest vectors, its three vectors and the negative of their sum enclose no acute angle. With full reduction its vectors are instead as short as those of a basis of the lattice can be (violated by a known defect: one of the three shortest vectors of the superbase may come back replaced by its sum with another).",
 ["inputs"],"all lattices given in any basis, with and without full reduction",
 "The tests reduce one cell.",
 ["src/reduce.rs"],[("Reducer::delaunay_reduce","src/reduce.rs:439"),("Reducer::get_scalar_prods","src/reduce.rs:579")],ST),
P("C06","The standard conventional cell has the shape and centering of its lattice",
 "For every crystal the standard conventional structure is a right-handed cell with the metric shape of the lattice system of the crystal's lattice (right angles and equal lengths where that system demands them, unique axis b for monoclinic, hexagonal axes for hexagonal and rhombohedral lattices, the reduced cell for triclinic ones) and a standard centering of it (P; C for monoclinic; C, I, F for orthorhombic; I for tetragonal; I, F for cubic; obverse R). It describes the same crystal.",
 ["inputs"],"all lattices of all 44 characters, all crystals on them and all cells describing them",
 "The tests standardize a few lattices; most of the 44 rows of the table of lattice characters are never reached.",
 ["src/analyzer.rs","src/data/core.rs"],[("SymmetryAnalyzer::get_standard_conventional_structure","src/analyzer.rs:339"),("SymmetryAnalyzer::get_lattice_character","src/analyzer.rs:372")],ST),
P("C07","The standard primitive cell belongs to the standard conventional cell",
 "For every crystal the standard primitive structure is a right-handed primitive cell of the same crystal, and its vectors are those which the centering of the standard conventional cell of the same input prescribes.",
 ["inputs"],"all lattices of all 44 characters, all crystals on them and all cells describing them",
 "The tests look at a few structures and compare the lattice only.",
 ["src/analyzer.rs","src/data/core.rs"],[("SymmetryAnalyzer::get_standard_primitive_structure","src/analyzer.rs:295"),("SymmetryAnalyzer::primitive_transformation_matrix","src/analyzer.rs:317")],ST),
P("C08","Reported space group operations are exactly the symmetries of the input",
 "Whenever a space group is reported, the operations, read in the basis of the input cell, are precisely the isometries of that cell's basis which map the input crystal to itself: each maps every atom to an atom of the same species, none is listed twice, and none compatible with the cell is missing, lattice translations of a supercell included.",
 ["inputs"],"all crystals of all 230 space group types and all cells describing them",
 "The tests look at the number and symbol of a few structures; the operations are not applied to the atoms.",
 ["src/analyzer.rs","src/spacegroup.rs"],[("SymmetryAnalyzer::get_space_group_info","src/analyzer.rs:27"),("SymmetryAnalyzer::get_primitive_space_group_ops","src/analyzer.rs:173")],None,["operations returned with the number and symbol"]),
P("C09","The space group number and symbol are those of the crystal's operations",
 "The number reported for a crystal is that of the space group type whose tabulated operations equal the crystal's symmetry operations in its standard primitive cell, and the symbol is the Hermann-Mauguin symbol of that number. If such a type exists in the crystal's lattice system, a result is reported.",
 ["inputs"],"all 230 types, crystals with general and special positions, all cells describing them",
 "The tests identify a handful of structures; the table has 230 entries, each with its own operations, symbol and decoding.",
 ["src/analyzer.rs","src/data/spacegroup.rs","src/utils.rs"],[("SymmetryAnalyzer::identify_space_group","src/analyzer.rs:96"),("decode_spg_op","src/utils.rs:49")]),
P("C10","A space group made from generators is exactly the group they generate",
 "The operations of a space group constructed from generating operations are the group generated by them modulo lattice translations: every product of generators is present, nothing else is, and each operation occurs once.",
 ["inputs","programs"],"all sets of generators of crystallographic groups, in primitive and centred bases, in any order, redundant or not, with translations given outside the unit cell",
 "One test generates one group from one set of generators.",
 ["src/spacegroup.rs","src/symmop.rs"],[("SpaceGroup::from_generators","src/spacegroup.rs:22"),("SpaceGroup::ops_from_generators","src/spacegroup.rs:133")]),
P("C11","Changing the basis of a space group keeps the group",
 "Rewriting the operations of a space group for another cell of its lattice gives exactly the operations of the same group that are compatible with the new cell, expressed in it, each once; for a larger cell the translations inside it are added, for a smaller one duplicates are dropped.",
 ["inputs"],"all groups and all integral or fractional matrices between cells of the lattice",
 "One test transforms one group.",
 ["src/spacegroup.rs"],[("SpaceGroup::apply_transformation","src/spacegroup.rs:38")]),
P("C12","The 32 point groups are complete and survive a change of basis",
 "The point groups numbered 1 to 32 are the 32 crystallographic point groups: each has its Hermann-Mauguin symbol, exactly the operations of that group, each once, and generators that generate it. A change of basis with an integral result rewrites operations and generators consistently and leaves the symbol.",
 ["inputs"],"all 32 numbers and all unimodular changes of basis up to a bound",
 "No test compares the operations of the point groups with the groups they name.",
 ["src/pointgroup.rs","src/data/pointgroup.rs"],[("PointGroup::from_number","src/pointgroup.rs:15"),("PointGroup::apply_transformation","src/pointgroup.rs:39")]),
P("C13","Normalized coordinates lie in the unit cell and move by cell vectors only",
 "Normalizing a structure or an operation changes fractional coordinates by whole cell vectors only and brings each into the half-open unit interval shifted down by the tolerance, so that coordinates within the tolerance of a cell face come out near zero and not near one. A normalized structure lists its sites ordered by species, and structures returned by the cell operations are normalized.",
 ["inputs","histories"],"all coordinates, including negative, large, exactly integral and just below integral ones, all tolerances and cells",
 "The tests normalize two vectors and one structure.",
 ["src/utils.rs","src/structure.rs","src/symmop.rs"],[("normalize_frac_vectors","src/utils.rs:4"),("Structure::normalize_coords","src/structure.rs:227"),("SymmOp::normalize","src/symmop.rs:37")]),
P("C14","Fractional and cartesian coordinates always describe the same positions",
 "A structure built from fractional or from cartesian coordinates holds exactly the given sites in the given order, and after construction and after every operation its fractional and cartesian coordinates agree site by site through its lattice. The conversion functions are inverse to each other.",
 ["histories","inputs"],"all structures, skewed and left-handed lattices included, and all sequences of operations on them",
 "The tests convert one structure one way and compare with fixed numbers.",
 ["src/structure.rs"],[("Structure::new","src/structure.rs:53"),("Structure::get_cart_coords","src/structure.rs:263"),("Structure::get_frac_coords","src/structure.rs:281")],ST),
P("C15","Formulas and element counts follow from the list of sites",
 "The formula names every element of the structure once in alphabetical order with its number of sites (omitted when one); the reduced formula divides all numbers by their greatest common divisor. The rarest element reported is the first in alphabetical order among those with the fewest sites, and counts and first positions are those of the site list.",
 ["inputs"],"all lists of species in any order, with any multiplicities up to the bound",
 "The tests use one structure of two elements.",
 ["src/structure.rs"],[("Structure::formulas","src/structure.rs:350"),("Structure::get_min_element","src/structure.rs:324")]),
P("C16","Symmetry operations act, compose and compare like affine maps",
 "Applying an operation to a point rotates it and adds the translation; the product of two operations is the map that applies the right one first; two operations compare equal exactly when their rotations are the same and their translations differ by whole numbers up to less than the tolerance, whichever of the two is asked.",
 ["inputs"],"all pairs of operations with integral rotations and any translations, and all points and tolerances",
 "The tests multiply one pair and compare one pair.",
 ["src/symmop.rs"],[("impl Mul for SymmOp","src/symmop.rs:45"),("SymmOp::is_approx_eq","src/symmop.rs:20")]),
P("C17","Results do not depend on how the crystal is presented",
 "Two descriptions of one crystal, which differ in the choice of cell, origin of the cell's atoms, orientation, order of sites or use of fractional or cartesian coordinates, give the same primitive volume, the same Niggli cell shape, the same conventional and standard primitive cell shape, and the same space group number and symbol whenever both are given one. A description is refused a space group only when its operations match no tabulated type.",
 ["inputs","histories"],"all pairs of presentations of one crystal",
 "Tests use one presentation of each structure.",
 ["src/analyzer.rs","src/reduce.rs"],[("SymmetryAnalyzer::get_space_group_info","src/analyzer.rs:27"),("Reducer::niggli_reduce","src/reduce.rs:244")]),
P("C18","The Python functions return what the library computes",
 "Each function of the Python module takes the lattice vector by vector, the species, and fractional or cartesian coordinates, and returns a description of the same crystal with the guarantees of the corresponding library call: primitive cell, Niggli cell, standard conventional and standard primitive cell, and space group number, symbol and operations with rotations row by row.",
 ["inputs"],"all crystals and cells, fractional and cartesian input",
 "No test calls the Python module.",
 ["src/lib.rs"],[("generate_input_structure","src/lib.rs:17"),("generate_output_structure_data","src/lib.rs:38"),("get_space_group_info","src/lib.rs:93")]),
P("C19","Deviations below the tolerance do not change the answer",
 "When atoms are displaced by small fractions of the distance tolerance, which itself is well below the distances between atoms, every operation returns the same cells, atoms, space group number and operations as for the undistorted crystal, up to the displacement. A tolerance larger or smaller within that range does not change the answer for an exact crystal.",
 ["inputs","configurations"],"all crystals; displacements up to a tenth of the tolerance (a fiftieth where symmetry is searched); tolerances up to a sixth of the smallest distance",
 "The tests use exact coordinates and one tolerance.",
 ["src/reduce.rs","src/analyzer.rs","src/structure.rs"],[("Reducer.dtol","src/reduce.rs:10"),("SymmetryAnalyzer.dtol","src/analyzer.rs:17"),("Reducer::get_shortest_translation_vecs","src/reduce.rs:542")]),
P("C20","Lattice quantities follow from the lattice vectors",
 "Lengths, angles, volume, metric tensor, reciprocal lattice (with the factor of two pi), the four Delaunay vectors, the site count and the matrices relating two cells all have the values that follow from the lattice vectors, for left-handed cells too.",
 ["inputs","histories"],"all lattices in any basis, orientation and scale, after any operations",
 "The tests compare a few numbers of one or two lattices.",
 ["src/structure.rs"],[("Structure::metric_tensor","src/structure.rs:128"),("Structure::reciprocal_lattice","src/structure.rs:312"),("Structure::get_transformation_matrix","src/structure.rs:400")]),
P("C21","Analyses leave their input alone and give the same answer again",
 "Searching for the primitive cell, reducing, standardizing and identifying the space group do not change the structure they are given, and called again with the same structure, immediately or after other structures have been analysed in the same process, they return the same cells, coordinates, number, symbol and set of operations.",
 ["histories","inputs"],"all crystals and all interleavings of calls on different structures in one process",
 "Tests call each function once per structure.",
 ["src/analyzer.rs","src/reduce.rs"],[("SymmetryAnalyzer::get_space_group_info","src/analyzer.rs:27"),("Reducer::find_primitive_cell","src/reduce.rs:26")]),
P("C22","Encoded operations and names of lattice types mean what they stand for",
 "Decoding an integer gives its digits in the given base, most significant first and lowered by the given offset; an encoded symmetry operation decodes to its nine matrix elements (base three, row by row) and to three translations in twelfths out of 0, 2, 3, 4, 6, 8, 9 and 10. Each of the fourteen Bravais types reports its name, centering, lattice system and holohedral point group, and the names of centerings and lattice systems (long and one-letter) are read as the value that prints that name, while other texts are refused.",
 ["inputs"],"all encoded operations (five hundred and twelve translations, all matrices), all bases, offsets and lengths, all lattice types and names",
 "One test decodes one matrix; translations, names and holohedries are not tested, and a wrong entry shows up only for the few types that use it.",
 ["src/utils.rs","src/data/core.rs","src/data/pointgroup.rs"],[("decode","src/utils.rs:39"),("decode_spg_op","src/utils.rs:49"),("BravaisType","src/data/core.rs:104"),("BRAVAIS_TO_HOLOHEDRY_NUM","src/data/pointgroup.rs:45")]),
P("C23","Tolerant comparison, sign counting and wrapping follow the given tolerance",
 "Two numbers compare equal exactly when they differ by less than the tolerance; matrices with a tolerance for each entry, and lists with one for all, compare equal exactly when every pair of entries does, and lists of different length are refused. Counting negative and vanishing components counts those below minus the tolerance and those within it, and wrapping moves each component by a whole number to the one place between minus its tolerance and one minus its tolerance.",
 ["inputs"],"all values on either side of every tolerance, per-entry and per-axis tolerances of any size, components far outside the unit interval",
 "The tests compare a few values far from the tolerance, and always with the same tolerance for every entry.",
 ["src/utils.rs"],[("cust_eq","src/utils.rs:33"),("compare_matrices","src/utils.rs:66"),("num_negative_zero","src/utils.rs:18"),("normalize_frac_vectors","src/utils.rs:4")]),
P("C24","Chained calls agree with one another",
 "Along any chain of calls in which each works on the result of the one before, every cell has the volume, the number of atoms, the number of atoms of each element and the formula of the crystal's primitive cell times the number of primitive cells it holds, and the reduced formula never changes. Reducing, standardizing or identifying any cell of the chain gives the same primitive volume, reduced and standard cell shapes, number and symbol as anywhere else in the chain; in particular doing it twice changes nothing.",
 ["histories","inputs"],"all chains of primitive, reduction, standardization, transformation and normalization calls on all crystals",
 "Tests call one function on one hand-written structure and never feed a result back.",
 ["src/analyzer.rs","src/reduce.rs","src/structure.rs"],[("SymmetryAnalyzer::get_standard_conventional_structure","src/analyzer.rs:339"),("SymmetryAnalyzer::get_standard_primitive_structure","src/analyzer.rs:295"),("Structure::formulas","src/structure.rs:350"),("Structure::get_min_element","src/structure.rs:324")]),
]
for p in L: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in L))
M={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[]}
NOTE="TLC checks the specification's own models within small bounds, and decides every recorded call of the implementation on seeded crystals exactly (integers); assumes the projection to integers, TLC and the tables of the specification; inputs outside the sampled families are not covered."
for p in L:
    M["checks"].append({"property":p["id"],"quick_cmd":f"bash /verif/run.sh {p['id']} quick","thorough_cmd":f"bash /verif/run.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":"TLA+ specification checked with TLC; recorded executions of the implementation validated against it (trace conformance)","level":"model_checking","level_note":NOTE})
M["not_applicable"]=[]
M["notes"]="No hooks in /repo are needed: everything is observed through the public interface. Known findings: /verif/known_findings.json. Replay a violation with: bash /verif/run.sh --replay <file>."
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
