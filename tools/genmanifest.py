#!/usr/bin/env python3
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
T={
"C01":"property-based testing against an f64 interval reference model",
"C02":"property-based testing against an f64 interval reference model",
"C03":"property-based testing against an f64 interval reference model",
"C04":"property-based testing against the standards' formulas, plus inverse and monotonicity laws",
"C05":"property-based testing, bit-exact oracle over random memory layouts",
"C06":"property-based testing of random conversion chains (round-trip oracle)",
"C07":"metamorphic property-based testing (re-layout, tile in isolation, repetition)",
"C08":"differential property-based testing, single- against multi-threaded, 1-8 CPUs",
"C09":"property-based testing with filled margins, guard pages and canaries (frame oracle)",
"C10":"structured fuzzing of user-implemented images with guard pages and process isolation",
"C11":"model-based property-based testing of views, nested views and writes through them",
"C12":"model-based property-based testing of constructors with short, exact and long buffers",
"C13":"property-based testing of argument combinations against an outcome model",
"C14":"stateful property-based testing of one resizer against component-wise resampling",
"C15":"property-based testing against independently written format definitions",
"C16":"property-based testing, metamorphic relation on alpha",
"C17":"property-based testing with extreme sources, range invariant and saturation oracle",
"C18":"property-based testing with grey images (neutrality, end point and monotonicity laws)",
"C19":"differential property-based testing of three builds of the crate and the scalar fallback",
"C20":"metamorphic property-based testing: layered and bare images give the same results"}
N="Explores generated cases only; no claim of absence. Trusts the reference model and harness in /verif/harness, rustc and the CPU of this machine; AVX2, AVX-512 and scalar code (feature detection masked) are executed, NEON is not. "
X={
"C01":"Interval width is float rounding only: nearly all samples have a single acceptable code.",
"C02":"The interval covers f32 rounding through the PQ/HLG curves; near black of PQ it is several codes wide.",
"C03":"The interval covers f32 rounding and the error of the crate's vector pow/log; steep curve parts accept several codes.",
"C08":"Thread schedules are those the OS produces; the split into bands is varied deterministically through the number of visible CPUs.",
"C10":"Out-of-bounds accesses are seen through inaccessible pages after each plane and canaries before it, and through overflow checks and debug assertions in the second build.",
"C14":"The resampling library itself (fast_image_resize) is trusted as the per-component oracle, cross-checked by range, identity and constant laws.",
}
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"./check --setup",
"checks":[{"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --thorough","technique":T[i],"level":"exploration","level_note":N+X.get(i,"")} for i in ids],
"not_applicable":[],
"notes":"No hooks: the harness only uses the crate's public API. All /repo commits after the base are fix: commits, see known-findings.json."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
