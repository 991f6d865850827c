"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "boundary monitor on every calculate_petrosian call against a reference recomputation",
 "C02": "boundary monitor on every calculate_petrosian_r call against a first-crossing oracle",
 "C03": "monitors on fraction_to_r / concentration calls and object reads against a reference curve-of-growth model",
 "C04": "random read/set/copy histories with a fresh-object oracle after every step",
 "C05": "metamorphic monitor over pairs of runs (flux, radius, pixel symmetry)",
 "C06": "end-to-end runs judged by closed-form Sersic ground truth",
 "C07": "law monitors and quadrature oracle over observed theory calls",
 "C08": "boundary monitor on every radial_photometry call against an exact-overlap (Green's theorem) oracle",
 "C09": "boundary monitors on apertures and conversions against geometric oracles and round trips",
 "C10": "boundary monitors on segm_mask / masked_segm_image against a set oracle, re-used argument histories",
 "C11": "flood-fill oracle over observed segmentations and catalogs",
 "C12": "nested-call monitor: which pixels reach photometry, with own masking and plane oracle",
 "C13": "boundary monitor on rendered images against direct sampling",
 "C14": "boundary monitor on every PSFConvolvedModel2D.evaluate against direct sampling, convolution and binning",
 "C15": "random setting/caching histories with a fresh-model oracle after every step",
 "C16": "random edit histories with an independence and mirroring oracle",
 "C17": "nested monitor of fitter calls (pixels, weights, constraints) and ground-truth recovery",
 "C18": "nested monitor of the clipped image handed to the fit, own least-squares oracle",
 "C19": "row monitor recomputing every grid row, file-fault injection",
 "C20": "nearest-row oracle over observed corrections, refusal monitors",
 "C21": "closed-form Sersic oracle over the approximation chain",
 "C22": "boundary monitors against definition and brute-force sky matching",
 "C23": "argument fingerprints at every call boundary, shared-pool histories replayed in other orders",
 "C24": "monitors on drawn matplotlib artists against the measured quantities",
 "C25": "boundary monitors on model evaluations against log-space formulas and limits",
 "C26": "boundary monitors against definition oracles",
 "C27": "ground-truth monitors on isophote amplitudes and Gaussian widths",
 "C29": "paired runs of every operation on equal values stored differently",
 "C30": "threads under injected yields and tiny switch intervals, each result against the single call",
 "C31": "paired runs of every public call: options left out, spelled out, and given by position",
 "C28": "pixel-footprint monitor on every cutout_subtract call",
}
NOTE = ("Runtime monitoring of the real package: seeded generated workloads drive the public functions while monitors at the call boundaries (outer and nested calls) "
        "judge each observed execution against independent oracles; exit 2 when a monitor was never reached. Sampling, no exhaustiveness.")
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                 "technique": "runtime monitoring: " + T[p], "level": "exploration", "level_note": NOTE} for p in sorted(T)],
     "not_applicable": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert ids == sorted(T), (ids, sorted(T))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    sch = "/root/.vp/MANIFEST.schema.json"
    if os.path.exists(sch):
        import jsonschema
        jsonschema.validate(m, json.load(open(sch)))
    print(len(m["checks"]), "checks")
