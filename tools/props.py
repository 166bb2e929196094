"""Which workloads and models decide each property, and which disagreements belong to it."""
import common
import pyapi
import work

STRUCT = "(new|transform|normalize|primitive|niggli|delaunay|stdconv|stdprim)"


def driver(sessions):
    return common.run_sessions([s.driver() for s in sessions])


def helpers(sessions):
    return common.run_sessions([s.driver() for s in sessions], binary="cshelpers")


RUNNERS = {"driver": driver, "python": pyapi.run, "helpers": helpers}


def B(**kw):
    return {k.upper(): str(v) for k, v in kw.items()}


NIGGLI = ("MC_Niggli", B(bound=2, skew=3), B(bound=4, skew=3))
SELLING = ("MC_Selling", B(bound=2, skew=1), B(bound=2, skew=2))
LATTICE = ("MC_Lattice", B(bound=2), B(bound=3))
CHARACTERS = ("MC_Characters", B(bound=6), B(bound=7))
CELLS = ("MC_Cells", B(maxvol=4, grid=2, depth=3), B(maxvol=6, grid=3, depth=3))
SYMMETRY = ("MC_Symmetry", B(bound=2, grid=2, depth=1), B(bound=2, grid=3, depth=1))
HELPERS = ("MC_Helpers", B(), B())
GROUPS = ("MC_Groups", B(), B())

# property: labels it owns, workloads (function, size in quick, size in thorough), models (quick, thorough)
PROPS = {
    "C01": {"labels": STRUCT + r"\.(crystal|ongrid|views|returns|asgiven|unimodular|basis|sites|minimal)",
            "models": [CELLS],
            "work": [(work.histories_of_3, 4000, 4000), (work.histories_of_4, 0, 42000), (work.histories, 1500, 12000)]},
    "C02": {"labels": r"(transform|new)\..*", "models": [CELLS],
            "work": [(work.transforms, 4000, 36000), (work.elongated, 1000, 8000), (work.histories, 800, 6000), (work.faces, 500, 4000)]},
    "C03": {"labels": r"primitive\..*|same\.primitive", "models": [CELLS],
            "work": [(work.primitives, 4000, 40000), (work.pseudo_translations, 1500, 12000), (work.elongated, 300, 3000), (work.tolerant_cells, 800, 8000)]},
    "C04": {"labels": r"niggli\..*|same\.niggli", "models": [NIGGLI],
            "work": [(work.niggli_only, 6000, 60000), (work.presentations, 150, 1500)]},
    "C05": {"labels": r"delaunay\..*", "models": [SELLING],
            "work": [(work.delaunay_only, 6000, 60000)]},
    "C06": {"labels": r"stdconv\..*|same\.stdconv", "models": [LATTICE, CHARACTERS], "forms": (6, 8),
            "work": [(work.standards, 3000, 30000), (work.presentations, 150, 1500)]},
    "C07": {"labels": r"stdprim\..*|same\.stdprim", "models": [LATTICE], "forms": (6, 8),
            "work": [(work.standards, 3000, 30000), (work.presentations, 150, 1500)]},
    "C08": {"labels": r"sginfo\.(valid|distinct|complete|ongrid|untouched|returns)", "models": [SYMMETRY],
            "work": [(work.table_groups, 1, 6), (work.bravais_groups, 600, 6000), (work.long_cells, 120, 1200)]},
    "C09": {"labels": r"sginfo\.(number|symbol|missed|returns)", "models": [GROUPS],
            "work": [(work.table_groups, 2, 10), (work.bravais_groups, 400, 4000)]},
    "C10": {"labels": r"sggen\..*", "models": [GROUPS], "uses_forms": False,
            "work": [(work.generated, 1500, 15000)]},
    "C11": {"labels": r"sgtrans\..*", "models": [GROUPS], "uses_forms": False,
            "work": [(work.rebased, 1500, 15000)]},
    "C12": {"labels": r"pg\..*", "models": [GROUPS], "uses_forms": False,
            "work": [(work.point_groups, 60, 600)]},
    "C13": {"labels": STRUCT + r"\.(range|sorted)|normalize\..*|opnorm\..*", "models": [CELLS],
            "work": [(work.normalizations, 3000, 30000), (work.faces, 1500, 15000), (work.histories, 800, 6000), (work.operations, 1500, 15000)]},
    "C14": {"labels": STRUCT + r"\.(views|ongrid|asgiven)|to(frac|cart)\..*", "models": [CELLS],
            "work": [(work.conversions, 3000, 30000), (work.histories, 800, 6000)]},
    "C15": {"labels": r"(formula|minele)\..*", "models": [], "uses_forms": False,
            "work": [(work.chemistry, 4000, 40000)]},
    "C16": {"labels": r"op(apply|mul|eq|norm)\..*", "models": [GROUPS], "uses_forms": False,
            "work": [(work.operations, 6000, 60000)]},
    "C17": {"labels": r"same\..*|sginfo\.missed", "models": [SYMMETRY],
            "work": [(work.presentations, 500, 5000), (lambda rng, size, forms: work.table_groups(rng, size, forms, multi=3), 1, 4)]},
    "C18": {"labels": r"(?!delaunay\.shortest).*", "models": [],
            "work": [(work.python_calls, 800, 8000, pyapi.run)]},
    "C19": {"labels": r"(?!delaunay\.shortest).*", "models": [],
            "work": [(work.tolerances, 230, 1840), (work.tolerant_cells, 2500, 25000), (work.faces, 800, 8000)]},
    "C20": {"labels": r"(scalars|tmat|relate)\..*", "models": [NIGGLI],
            "work": [(work.lattice_numbers, 4000, 40000)]},
    "C21": {"labels": r".*\.(again|untouched|repeat|history)", "models": [SYMMETRY], "alone": True,
            "work": [(work.repetitions, 250, 2500), (work.histories, 500, 4000)]},
    "C22": {"labels": r"(decode|decodeop|parse|bravais)\..*", "models": [HELPERS], "uses_forms": False, "binary": "cshelpers",
            "work": [(work.names, 1, 1, helpers), (work.encodings, 4000, 40000, helpers)]},
    "C23": {"labels": r"(numeq|listeq|mateq|signs|wrap)\..*", "models": [HELPERS], "uses_forms": False, "binary": "cshelpers",
            "work": [(work.comparisons, 4000, 40000, helpers)]},
    "C24": {"labels": r"same\..*|census\..*|.*\.count|sginfo\.missed", "models": [SYMMETRY],
            "work": [(work.chains, 1200, 12000)]},
}

TEXT = {
    "ongrid": "the returned coordinates or operations are not those of the crystal: they do not even lie on its grid",
    "crystal": "the returned cell does not describe the crystal (sites missing, doubled, moved or of the wrong species)",
    "views": "fractional and cartesian coordinates, site count and species of the returned structure disagree",
    "returns": "the call did not return",
    "asgiven": "the structure constructed is not the one given",
    "range": "fractional coordinates outside the normalized range",
    "sorted": "sites are not ordered by species",
    "untouched": "the call changed its input",
    "repeat": "calling again with the same input gave something else",
    "history": "the result is wrong here but right when the call is the first one in its process: it depends on earlier calls",
    "again": "the same call with the same input gave something else later in the process",
    "basis": "the cell vectors are not those asked for",
    "sites": "normalizing moved a site by something other than cell vectors",
    "minimal": "the cell is not primitive",
    "handed": "the cell vectors are left-handed, or changed handedness",
    "unimodular": "the reduced vectors do not span the same lattice",
    "reduced": "the Niggli conditions do not hold",
    "form": "the cell is not the Niggli cell of the lattice",
    "shortest": "the vectors are not the shortest of the lattice",
    "shortest-known": "the vectors are not the shortest of the lattice, one having been exchanged by a reversed comparison",
    "obtuse": "the superbase is not obtuse",
    "shape": "the conventional cell does not have the shape of the lattice system",
    "centering": "the conventional cell is not a standard centred cell of the lattice system",
    "relation": "the standard primitive cell is not the one belonging to the conventional cell",
    "valid": "an operation does not map the crystal to itself",
    "distinct": "operations occur twice",
    "complete": "symmetry operations of the crystal, or elements of the group, are missing",
    "sound": "operations that are not in the group",
    "number": "the space group number is not the one of the tables",
    "symbol": "the symbol does not belong to the number",
    "missed": "no space group was reported although one matches",
    "digits": "the digits are not those of the number",
    "rotation": "the matrix decoded is not the encoded one",
    "translation": "the translation decoded is not the encoded one",
    "name": "a name does not stand for what it should",
    "system": "the lattice system does not belong to the lattice type",
    "holohedry": "the point group is not the holohedry of the lattice type",
    "refused": "lists of different lengths were compared",
    "negative": "the number of negative components is wrong",
    "zero": "the number of vanishing components is wrong",
    "elements": "the atoms of each element are not those of the crystal times the number of primitive cells",
    "least": "the rarest element is not the one returned",
    "formula": "the formula is not the one of the cell's content",
    "volume": "the volume is not a multiple of the primitive one, or not the right one",
    "value": "the value is not the exact one",
    "compose": "the product is not the composition of the operations",
    "compose-known": "the product is composed in the wrong order in its translation part",
}


class Labels(dict):
    def get(self, label, default=None):
        k, _, what = label.partition(".")
        if k == "same":
            return f"{what}: different results for different descriptions of one crystal"
        return f"{k}: {TEXT[what]}" if what in TEXT else default


LABELS = Labels()

ASSUMPTIONS = [
    "the tables of the specification (operations of the 230 types expanded from Hall symbols) are those of International Tables A; "
    "TLC checks that each is a group and that no two coincide",
    "crystals are sampled on rational grids with integral metric; results are projected to integers and rejected when farther than 1e-6 (1e-4 for generators with an error of 1e-8) "
    "(noisy inputs: 0.3) of a grid step from the nearest integer",
    "cells of at most 40 reference vectors per entry; the distance tolerance is at most a sixth of the smallest separation "
    "unless the workload says otherwise",
    "TLC and the Java virtual machine, the Rust compiler, and the Python code that moves numbers between them",
]
