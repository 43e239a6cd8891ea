"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("runtime monitor on ispht, judged at every grid point against the definition summed in extended precision",
            "Every synthesis observed is judged at every point; nothing is said of sizes and values not visited."),
    "C02": ("online round trip oracle over every spht of a synthesised pattern (ghost coefficients tagged to patterns)",
            "Exact identity judged per event to rounding; sizes swept to a bound, sampled beyond."),
    "C03": ("runtime monitor on spht, judged against an exact inner product (Gauss quadrature of the trigonometric interpolant)",
            "Arbitrary patterns; bounded sizes."),
    "C04": ("runtime monitor on vispht, judged at every grid point against the vector harmonics summed in extended precision",
            "Both components, poles included; bounded sizes."),
    "C05": ("online round trip oracle over every vspht of a synthesised field", "As C02, for vector coefficients."),
    "C06": ("runtime monitor on vspht, judged against exact vector inner products", "As C03, for vector fields."),
    "C07": ("differential monitor: each call executed by both backends and by the pure Python functions, outcomes compared",
            "Agreement to rounding on executed calls; errors common to both are left to C01-C06, C24."),
    "C08": ("AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and heap-fill comparison under hostile workloads",
            "Absence of reports on executed paths; NumPy's own code is not instrumented."),
    "C09": ("live heap block accounting with an interposed allocator over repeated batches of every operation",
            "Sees any leak of a block per few calls on the operations driven."),
    "C10": ("model-based runtime checker: whole object compared with a dictionary model after each operation of random sequences",
            "Exact equality with the model after every operation executed."),
    "C11": ("operator monitor with elementwise oracle, operand snapshots, random chains", "Exact per event; types and sizes enumerated."),
    "C12": ("operator monitor with pointwise oracle on the double sphere, operand snapshots, linearity of transforms", "As C11."),
    "C13": ("construction and predicate monitor against independently computed continuation and largest violation", "Shapes enumerated to a bound, values random with planted zeros and violations."),
    "C14": ("file content re-parsed independently, load-back compared bit for bit, injected faults (full device, size limit at a random byte)",
            "Random bit patterns of doubles; crash during a save is not promised by the package and not judged."),
    "C15": ("return value monitor against definitions, Parseval by independent quadrature", "Per event, to rounding."),
    "C16": ("return value monitor against multiple precision reference (mpmath)", "Relative error per value; range limited to representable values."),
    "C17": ("exhaustive box of sizes with outcome monitor (accepted with exact size / specified exception), state comparison after rejection",
            "Exhaustive within the box."),
    "C18": ("session monitor: pool of live objects compared after every operation, cold-process re-execution, aliasing probes by writes",
            "Random histories; equality to rounding with a process without history."),
    "C19": ("controlled thread scheduler at source line and bytecode granularity, free running threads, ThreadSanitizer on the native routines",
            "Sampled schedules; replayable from the seed."),
    "C20": ("monitor on the figures at the moment they are shown: polygons, cells, lines compared with the data", "What matplotlib is given, not its pixels."),
    "C21": ("printed text parsed back and compared with the object", "Exact for str and repr, two digits for the pretty printer."),
    "C22": ("reported numbers compared with the discrepancy from reference transforms of harness-written files", "Bounded sizes, planted deviations of 1e-6 to 1e6."),
    "C23": ("object monitor on factories; statistical monitor over repeated draws", "Moments within 7 standard errors; independence is judged by pairwise correlation."),
    "C24": ("Fourier series of returned coefficients compared with extended precision P_nm", "Sweep to a bound, sampled to degree 1000."),
    "C26": ("call monitor on the compiled routines: results against those on fresh arrays, surrounding memory, reference counts, refusals, in a plain and a sanitizer build",
            "Kinds of arguments enumerated, combined with random sizes."),
    "C25": ("operator results summed at random points and compared with the analytic operation", "Random polynomials, all small sizes."),
}
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python rt/build.py plain asan",
     "checks": [{"property": p, "quick_cmd": "/opt/venv/bin/python run.py " + p,
                 "thorough_cmd": "/opt/venv/bin/python run.py %s --thorough" % p,
                 "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "Probes are installed from outside at run time; /repo holds no hooks."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
