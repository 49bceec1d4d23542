"""Write MANIFEST.json from the monitors and the notes below."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
sys.dont_write_bytecode = True
REFM = "trusts rv/ref.py (independent laminate, matrix-exponential flow and boundary value solver), which shares no code with weac"
NOTES = {
 "P01": ("online monitor: returned states against the exact flow of the reference equilibrium equations", REFM),
 "P02": ("online monitor of end section forces and displacements", REFM),
 "P03": ("online monitor of jumps at segment transitions", REFM),
 "P04": ("conservation monitor: global force balance by Gauss quadrature of reported stresses", "quadrature error below tolerance; loads from rv/ref.py"),
 "P05": ("online monitor of laminate attributes and unit-state responses plus metamorphic variants", "trusts the closed-form layer integrals of rv/ref.py"),
 "P06": ("differential monitor: lockstep runs of mirrored systems", "relation between two runs of the real code; no reference needed"),
 "P07": ("differential monitor: superposition and scaling over lockstep runs", "relation between runs of the real code; only systems without touchdown"),
 "P08": ("differential monitor: lockstep runs of re-segmented systems", "relation between runs of the real code"),
 "P09": ("history monitor: random call histories (also threaded) against fresh instances in pristine processes", "equality judged with rounding tolerances; threads use separate instances"),
 "P10": ("fault injection at internal call boundaries with a state monitor", "abort points are entries of package functions and linear-algebra calls; aborts between bytecodes of one function are not injected"),
 "P11": ("contract monitor over rasterized solutions at many resolutions", "pointwise comparison with z() of the owning segment"),
 "P12": ("online monitor of tip energies, reference solution for tips without touchdown", REFM),
 "P13": ("online monitor: crack opening integral by Gauss quadrature of observed and reference solutions", REFM),
 "P14": ("online monitor of through-thickness equilibrium of reported slab stresses", REFM + "; one known finding (unsupported segments)"),
 "P15": ("online monitor: eigenvalues of the reported stress tensors", "trusts numpy.linalg.eigvalsh and documented strengths"),
 "P16": ("online monitor of accessor definitions in every unit", REFM),
 "P17": ("online monitor of stages and lengths against a clamped Timoshenko cantilever", "trusts rv/touch.py and the reference springs"),
 "P18": ("online monitor of touchdown end conditions and reference boundary value problems", REFM),
 "P19": ("differential monitor against hand-driven Layered plus the reference cantilever", "trusts rv/touch.py; inputs with first contact between 0.25 and 15 m"),
 "P20": ("online monitor: energy and work by Gauss quadrature of the observed solution", "convergence judged at increasing resolutions"),
 "P21": ("outcome monitor over ill-posed and minimal valid requests", "exception type ValueError as documented"),
 "P22": ("floating-point sanitizer (numpy overflow/invalid/divide traps) and far-field monitor", "traps cover numpy operations; scalar Python floats raise by themselves"),
 "P23": ("figure monitor: artists inspected at savefig, contour data at contourf; leftovers (files, figures, style, state) audited", "observes matplotlib artists, not pixels"),
 "P24": ("lockstep differential monitor of Inverse and Layered, plus reference boundary value problem", REFM),
 "P25": ("lockstep differential monitor over input representations and setter orders", "32-bit floats are excluded: they carry less precision"),
 "P26": ("online monitor of documented values, purity and geometry", "documented constants restated in the monitor"),
 "P27": ("contract monitor of returned segments and their acceptance downstream", "segments judged as geometry, not by their number"),
 "P28": ("online monitor: spectral (Chebyshev) differentiation of the observed solution", "derivative error below tolerance on one-length windows"),
 "P29": ("differential monitor: energy balance over families of solved systems (quadrature of gdif over the crack length against ginc)", "growths the quadrature does not resolve are skipped and counted"),
 "P30": ("online monitor of substitute springs against end compliances of a reference boundary value problem", REFM),
 "P31": ("differential monitor: whole-batch evaluations against selections, orders and memory layouts", "relation between evaluations of the real code"),
 "P32": ("lockstep differential monitor: documented defaults written out against left out", "documented defaults restated in the monitor"),
 "P33": ("side-effect sanitizer: process audit hook, output and warning capture, snapshots of arguments and global state around every call", "effects without an audit event or visible state are not seen"),
 "P34": ("differential monitor: lockstep runs of equivalent descriptions of one experiment", "relation between runs of the real code"),
 "P35": ("lockstep differential monitor: an experiment and its scaled copies, every observable compared by its dimension", "relation between runs of the real code"),
 "P36": ("differential monitor: special experiments against infinitesimally perturbed ones", "relation between runs of the real code; perturbation 1e-7"),
 "P37": ("history and schedule monitor: copied, pickled and concurrently used models (random pauses, minimal switch interval, disturbing thread) against runs alone", "interleavings sampled, not enumerated"),
 "P38": ("contract monitor on helper calls with random arguments; stand-in interpreter shells in processes of their own; file system observed", "none"),
 "P39": ("differential monitor: flexibility matrices of observed displacements (reciprocity, positivity, ordering by stiffness)", "relation between runs of the real code; exact for thin weak layers, to 15 % for thick ones"),
 "P40": ("search monitor: results of the example's searches judged by stresses and energies of an independent solution and a separate envelope; failing intermediate searches injected", "edges of the searches (no solution within their iterations) are only counted"),
 "P41": ("workflow monitor: published notebook and README code executed with exchanged inputs, the variables left behind judged by an independent solution", "figures are only required to be written here (their content is judged in P23)"),
 "P42": ("differential monitor: experiments in processes with other options, environments, states and import orders against the same in this process", "18 kinds of processes; other platforms and library versions are not available here"),
 "P43": ("leak and work monitor: memory tracer, call counting and censuses of models, figures, files, threads and containers over long runs of requests", "growth below 160 bytes per request outside models and containers is not seen; plots only by figures and files"),
}
NOTES.update(getattr(sys.modules[__name__], "EXTRA", {}))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    mod = importlib.import_module("rv.props." + p.lower())
    n = mod.N
    t, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": "runtime monitoring: " + t, "level": "exploration",
                   "level_note": f"Holds on every execution observed ({n['quick']} random cases quick, {n['thorough']} thorough, each with many monitor evaluations; "
                                 f"see coverage in the evidence); no claim beyond the sampled inputs. " + note[0].upper() + note[1:] + "."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: monitors attach from outside (wrapped calls, numpy error traps, sys.setprofile, matplotlib savefig). check.py imports weac "
                    "straight from /repo's working tree (pure Python, nothing to build). Known findings: known_findings.json."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
