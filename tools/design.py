"""Writes the generated sections of DESIGN.md (between the markers) from the harnesses, the planted bugs and the evidence."""
import ast, glob, json, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "P01": ("The point denoted is compared on the unit sphere modulo 360 degrees (exact integer wrap counts, no trigonometry), for `normalize_coords`, `validate_and_normalize_location`, and the location attributes of craters and projectiles.", "Non-finite coordinates (passed through by design); elementwise precision of float64 `%`."),
    "P02": ("The axes are tracked by an independent two-number model; every setter of `CraterVariable` is called in every order up to the bound; afterwards radius = sqrt(ab) is checked as radius^2 = ab, and the whole fixed record is compared with a snapshot.", "Longer sequences; concurrent mutation."),
    "P03": ("Calls the real `Crater.maker`, `Projectile.maker`/`new_projectile`, `Scaling.maker`; sizes are compared with the inputs, and the others with the scaling object's own conversions (whose laws are P05); copies are compared field by field.", "Monte Carlo scaling sizes (random); identifiers (hash collisions)."),
    "P04": ("All three populations; given values compared with what was given, drawn ones with the draws of a symbolic generator and the physical ranges; the original compared with a snapshot.", "The distribution itself (P09)."),
    "P05": ("The conversions of both scaling models, executed with symbolic sizes, velocities and constants; pow and log are uninterpreted with exact algebraic and monotonicity axioms, so that inverse laws are algebraic identities; the pi-group law is re-derived in the harness from Holsapple (1993) with the same constants.", "Root finding accuracy: `root_scalar` is assumed to return a root in its bracket, which has to contain one. Which of the two final diameters is chosen inside the transition region when drawn at random."),
    "P06": ("Every catalogue body and material; explicit values compared with what was given, others with a copy of the catalogue taken before; derived quantities as polynomials of radius and mass; catalogues compared afterwards.", "Catalogue values themselves (data)."),
    "P07": ("`function`, `chronology`, `csfd`, `function_inverse`, `age_from_D_N`, `_validate_*` of all models. Polynomial SFDs in log D are compared through interval reasoning of the engine on exact polynomials; exponentials are strictly monotone uninterpreted functions.", "Equality of the constants with the literature; the numerical integration of the projectile model is checked on its own bins only."),
    "P08": ("`sample` end to end with a symbolic generator: the mean handed to `poisson`, and every crater drawn for every value of the uniform draws; the age distribution is compared with the production function at the grid of ages.", "The 50-point size table and the 1000-point time grid are reduced to 4 and 5 points (the code takes the number as a constant; the reduction replaces `np.logspace`/`np.linspace`'s number only)."),
    "P09": ("Every utility of montecarlo_utils with symbolic draws; uniformity is checked as the derivative property (sine of latitude, squared sine of the angle, and the choice of triangle, linear in the draw).", "The distribution of numpy's own draws; scipy's truncated normal."),
    "P10": ("`quasimc_craters` setter, `quasimc_merge` with symbolic times, diameters of every order; multiset comparison by identity.", "More craters than the bound; correctness of the truncated normal."),
    "P11": ("The real `Simulation.run` and `_validate_run_args`; `populate` and `save` are recorded with the clocks at that moment; the sequence of spans is compared with the requested one; numbers via the production function itself.", "More intervals than the bound."),
    "P12": ("The real `_compute_face_bins` and `populate`, with symbolic face areas; `production.sample`, `Crater.maker` and `emplace` recorded.", "More faces than the bound."),
    "P13": ("The eight limit setters and getters for both kinds of production on a simulation with symbolic mesh limits; `_get_diameter_limit` with the real CTEM scaling at three sizes, and a linear scaling law otherwise.", "Limits with a scaling that is not monotone in the velocity."),
    "P14": ("`to_config` of every component, and `Simulation(...)` resumed on it: the settings of the rebuilt object compared one by one. The YAML text itself is replaced by a store that keeps the numbers symbolic (what `yaml.safe_dump` would refuse is refused).", "YAML's own text round trip of floats; mesh files."),
    "P15": ("`_overwrite_check`, the resets of components and simulation, opening of surfaces, exports, on a scratch directory with real files; `input` returns a symbolic string. Files, fields, craters and configuration compared with a snapshot.", "Crashes in the middle of a deletion; permission errors."),
    "P16": ("Two runs of the same request with generators whose draws are the same symbolic stream, and a third generator (any unseeded one) whose draws are unrelated symbols: results have to be equal terms.", "Bit streams of numpy; draws inside compiled code."),
    "P17": ("Saving, reading back, resuming, exporting, importing with symbolic crater values through the real xarray code; NetCDF and CSV files are kept in a store of objects (the CSV text is written and read by the real csv code with symbolic numbers as tokens).", "NetCDF encoding; VTK, GPKG exports; float formatting (repr is exact)."),
    "P18": ("The real `emplace`, queue manager and batch degradation; what a crater affects is any overlap relation; forming, degrading and counting are recorded in order.", "More craters than the bound; an exception in the middle of a batch."),
    "P19": ("The real `form_crater`, `form_ejecta` on real icospheres, with symbolic elevations and symbolic shapes; the volume is the sum over faces with the real (different) areas.", "The compiled crater, ray and ejecta profiles (P90); meshes larger than 162 faces."),
    "P20": ("`extract_region`, `extract_subregion`, and each write through a `LocalSurface`, with symbolic values; each face and node compared with what its own value should be, all others with the snapshot.", "The ball tree query which faces lie within the radius (assumed), the compiled diffusion."),
    "P21": ("`Counting.add`, `tally`, `remove`, `degradation_state`, and the tag layers of the surface; an independent model of which crater marks which face.", "`measure_rim` and `fit_rim` (compiled/numerical)."),
    "P22": ("The real `save`, `read_saved_output`, `reset` and opening of a 12-face surface with symbolic elevations, ejecta and node data, compared with a snapshot taken at each save; in the symbolic run a NetCDF file holds a token for a copy of the data set, a replay uses real files.", "NetCDF encoding; a crash while a file is moved into place; local and high-resolution-local grids."),
}


def harnesses(pid):
    out = []
    tree = ast.parse(open(f"{HERE}/props/{pid}.py").read())
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call):
                    kw = {}
                    for k in d.keywords:
                        try:
                            kw[k.arg] = ast.literal_eval(k.value)
                        except ValueError:
                            pass
                    out.append((n.name, kw))
    return out


def main():
    props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
    claimed = [c["property"] for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]]
    txt = []
    for p in props:
        if p["id"] not in claimed:
            continue
        note, outside = NOTES.get(p["id"], ("", ""))
        txt.append(f"### {p['id']} {p['title']}\n\n{note}\n\nOutside: {outside}\n")
        ev = f"{HERE}/evidence/{p['id']}.json"
        for name, kw in harnesses(p["id"]):
            line = f"- `{name}`: {kw.get('bounds', '')}"
            if kw.get("stubs"):
                line += f". Assumed or recorded: {kw['stubs']}"
            if kw.get("thorough_only"):
                line += " (thorough only)"
            txt.append(line)
        txt.append("")
    s = open(f"{HERE}/DESIGN.md").read()
    s = re.sub(r"(<!-- properties -->\n).*?(<!-- /properties -->)", lambda m: m.group(1) + "\n".join(txt) + m.group(2), s, flags=re.S)
    rows = []
    for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        m = json.load(open(d))
        rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} |")
    s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "| bug | property | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
    open(f"{HERE}/DESIGN.md", "w").write(s)


if __name__ == "__main__":
    main()
