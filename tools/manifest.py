import json,os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
kind={
'C01':'seeded delivery schedules, refinement against the generated layout',
'C02':'seeded histories of data accesses with injected failures, refinement against the generated layout',
'C03':'seeded delivery schedules and access histories against the generated pixels',
'C04':'seeded delivery schedules, selections and row seeks against a reference decoder',
'C05':'seeded delivery schedules on tiles made by a reference encoder',
'C06':'seeded delivery schedules of generated headers against the cards written',
'C07':'seeded cut points, exact-prefix oracle',
'C08':'seeded injection of read and seek errors, never-silent/never-wrong oracle',
'C09':'simulated executor with seeded completion times and poll order',
'C10':'simulated executor with seeded cancellations, cuts and I/O errors',
'C11':'seeded delivery, cuts, bit flips and I/O errors of the compressed stream',
'C12':'seeded corruption of headers and data under memory and step budgets',
'C13':'procedural terabyte devices with byte and memory accounting',
'C14':'seeded delivery, cuts and I/O errors against the generated picture',
'C15':'seeded interleavings of a list and its clones',
'C16':'the real command on a simulated file system (open, read, lseek) with seeded delivery, cuts, damage and I/O errors',
}
checks=[]
for p in props:
    i=p['id']
    checks.append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {i}","evidence_file":f"evidence/{i}.json",
     "technique":"deterministic simulation with fault injection: "+kind[i],
     "level":"exploration",
     "level_note":"Seeded search: the property held on every simulated run counted in the evidence file, nothing is proved beyond them. All of fitsrs runs as real code; the device, executor, clock and client are simulated. Trusted: the file generator and reference encoders of /verif/harness (built from the FITS standard, not from the parser), flate2 and the image crate."})
na=[("WCS coordinates","The wcs crate (git dependency) is absent from this sandbox, so src/wcs.rs is not even compiled; it is also a pure function of the header with no I/O, time or scheduling."),
("WebAssembly and JavaScript use","No such target or runtime is installed here."),
("concurrent registration of the image hook","One std::sync::Once around two calls into the image crate's registry; the registry is that crate's, and there is no seam to schedule it without replacing std.")]
m={"version":1,"setup_cmd":"bash run.sh build",
"checks":checks,"not_applicable":[{"property":a,"reason":b} for a,b in na],
"notes":"Every failure prints VIOLATION property=<id> replay=<path>; 'harness/target/release/fsim replay <path>' (harness/target-cli for C16) reproduces it. FSIM_RUNS overrides the number of runs, FSIM_SECS the time limit."}
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
