"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py rewrites both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "cratermaker/utils/"
C = "cratermaker/components/"
K = "cratermaker/core/"
P = {}


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
             "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe)}}


p("P01", "Locations are normalised without moving the point",
  "Every location given to the package, in any accepted form and with any longitude and latitude, is turned into a longitude in [-180, 180) and a latitude in [-90, 90] that denote the same point of the sphere. A malformed location is rejected with an error.",
  ["inputs"], "all real longitudes and latitudes, all accepted container forms, sequences of locations",
  "tests try a few literal coordinates; the wrap and pole-reflection cases are a continuum and interact",
  [U + "general_utils.py", C + "crater/__init__.py"], [("normalize_coords", U + "general_utils.py"), ("validate_and_normalize_location", U + "general_utils.py")], ["Crater.location", "validate_and_normalize_location"])
p("P02", "Crater geometry stays consistent and fixed attributes stay fixed",
  "At every moment a crater's measured axes, radius and diameter are positive and mutually consistent (radius the geometric mean of the axes, diameter twice the radius, major axis the longer), after any sequence of re-measurements; setting the radius or diameter sets both axes, setting one axis keeps the other, non-positive sizes are rejected and change nothing. Derived fixed quantities follow from the stored ones. No attempted edit or measurement changes a fixed attribute.",
  ["inputs", "histories"], "any sequence of re-measurements with any positive sizes",
  "tests set one or two measured values; consistency must survive every order of setters and every relative size",
  [C + "crater/__init__.py"], [("measured_* setters", C + "crater/__init__.py"), ("frozen fixed part of a crater", C + "crater/__init__.py")], ["Crater attributes"])
p("P03", "A new crater has the size, place, time and velocity asked for",
  "A crater made from any one size (final, transient or projectile diameter, radius or mass, or two axes) has exactly that size, and its other sizes, mass and velocities follow from it by the scaling law and the given density, velocity and angle. A request that gives more than one size, place, direction or velocity, or none, is rejected. A copy of a crater keeps every attribute that was not explicitly changed.",
  ["inputs", "configurations"], "all sizes over many decades, every admissible combination of arguments, both scaling models",
  "tests check a handful of literal sizes; the scaling chain has regime changes (strength/gravity, simple/complex) that depend on the size",
  [C + "crater/__init__.py", C + "scaling/"], [("Crater.maker", C + "crater/__init__.py")], ["Crater.maker"])
p("P04", "A projectile has the velocity, angle, direction and density asked for",
  "Each of velocity, angle, direction, density and location given for a projectile is the one it has; those not given are drawn from the population and lie in their physical range. The vertical velocity is the velocity times the sine of the angle. Making a new projectile from an existing population leaves the original unchanged and keeps its target, density and sampling mode; negative values are rejected and change nothing.",
  ["inputs", "configurations"], "all given values, every subset of arguments, every random draw, all populations",
  "tests construct each population once with one seed",
  [C + "projectile/"], [("Projectile.maker / new_projectile", C + "projectile/__init__.py")], ["Projectile attributes"])
p("P05", "Scaling laws are ordered, monotone and mutually inverse",
  "With deterministic scaling, the transient crater is smaller than the final crater and not smaller than the projectile, a larger crater of given type comes from a larger one, and each conversion undoes its inverse; the morphology type is decided by the final diameter relative to the transition diameter of the target. The projectile-to-transient conversion follows the pi-group law of the target material, gravity, velocity and densities. A diameter that is not a positive finite number is rejected, and given material constants override the catalogue.",
  ["inputs", "configurations"], "all diameters over 6-7 decades, materials, targets, velocities and densities",
  "tests round-trip a few sizes on a few bodies; regime boundaries and inverse consistency need every size",
  [C + "scaling/__init__.py", C + "scaling/montecarlo.py", C + "scaling/ctem.py"], [("final_to_transient / transient_to_final / projectile_to_transient / transient_to_projectile", C + "scaling/")], ["Scaling conversions"])
p("P06", "Given body and material properties win over the catalogue",
  "For every property of a target body or scaling material, a value given explicitly is used and one not given comes from the catalogue; gravity, escape velocity, area, volume and density always follow from the current radius, mass and material. Incomplete, contradictory or non-physical bodies are rejected. Making a body never changes the catalogue or another body, and the projectile population is that of the requested target.",
  ["inputs", "configurations"], "all radii, masses and densities, every subset of given properties, every catalogue body and material",
  "tests instantiate a few catalogue bodies; precedence depends on which subset of arguments is given",
  [C + "target/__init__.py", C + "scaling/__init__.py", U + "component_utils.py"], [("Target.maker", C + "target/__init__.py"), ("Scaling.maker", C + "scaling/__init__.py")], ["Target, Scaling attributes"])
p("P09", "Random draws stay inside the support of their distribution",
  "Whatever values the underlying generator yields: random locations are valid and uniform per unit area, impact angles lie in [0, 90] with uniform squared sine, directions in [0, 360], impact velocities are not below the escape velocity (or are truncated at it for bound projectiles), sampled sizes lie within the given table, and a random point on a mesh face lies on it. Tables that are not a size distribution are rejected; the caller's table is never modified.",
  ["inputs", "histories"], "every value of the generator's draws, all tables and parameters",
  "tests draw with fixed seeds; boundary draws (0, values next to 1) have probability zero in a sample",
  [U + "montecarlo_utils.py"], [("get_random_* / bounded_norm", U + "montecarlo_utils.py")], ["montecarlo_utils functions"])

NA = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA[id] = reason


na("P90", "Compiled kernels compute the documented topography operations",
   "Diffusion conserves volume away from boundaries, interpolation never leaves the range of its inputs, distances and bearings are those of the sphere, and crater and ejecta profiles are the documented functions of distance, for every mesh and every field.",
   ["inputs"], "all meshes, fields and crater sizes",
   "the kernels are Rust code; the installed test environment replaces the compiled bindings by stubs, so no test here executes them",
   ["crates/"], [("Rust kernels", "crates/cratermaker-components/src")],
   "The Rust crates are only parsed here, never compiled (no vendored pyo3/numpy/ndarray crates offline), the checks cannot replay a counterexample against them, and their loops run over floating-point mesh arrays of data-dependent length; neither Kani nor a MIR translation is within reach, so nothing is claimed.")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")) else None

NOTE = "Bounded: every assertion is a z3 verdict over all inputs of every explored path of the real Python code within the bounds listed in the evidence; floats are modelled as reals and transcendental functions axiomatised, so rounding-level effects are outside the claim; violations are reported only after they reproduce on the unpatched code in a fresh process. Assertions the solver leaves undecided are listed in the evidence and not counted as held."
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"bash check.sh {k} --tier thorough", "technique": "symbolic execution of the real Python code with z3 (all paths and inputs within stated bounds, counterexamples replayed)", "level": "other", "level_note": NOTE} for k in sorted(P) if k not in NA],
         "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
         "notes": "No hooks are needed in /repo; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for k in P:
        assert len(P[k]["title"]) <= 80, k
