import json
T="deterministic simulation with fault injection: "
N={
"C01":("seeded search over carriers, bit-flip patterns, fillers and delivery orders against a sent-data ledger and an independent decoder",
 "Samples payload sizes, capacities and damage; every sampled decode is checked exactly. Trusts the LDPC crate to have the structure the reference decoder reads from it."),
"C02":("seeded search over pictures, damage patterns and delivery orders on a simulated lossy medium against a ledger of payloads",
 "Samples; the tolerance is measured on the delivered pixels, so only runs inside the stated bound are judged."),
"C03":("seeded search over published features, measurement errors and stored-record damage against a ledger of published integers",
 "Samples; errors within 1e-6 of the bounds are left out unless the arithmetic is exact."),
"C04":("seeded search over publications, tolerable damage, repeated and reordered deliveries and verifier restarts against measured bounds",
 "Samples; which deliveries must be accepted is decided by an independent model of the format and of the features."),
"C05":("seeded search over attacks by simulated adversaries on the medium against a ledger of published features",
 "Samples attacks; an adversary with the private key is outside. Crashes and hangs of the verifier are violations."),
"C06":("seeded search over byte-level damage, replay and misdelivery of messages, signatures and keys against a ledger of signed messages",
 "Samples; trusts that damaged signatures are not valid by chance."),
"C07":("seeded search over cut positions, damaged lengths and trailing bytes of records and embedded blocks against a ledger of intact ones",
 "Samples; cuts are drawn at every byte of small records over the runs."),
"C08":("real threads released one at a time by a seeded scheduler at every basic block, allocation, write and lock operation; results against a sequential run",
 "Samples interleavings at basic-block granularity of sequentially consistent executions; weak memory effects are not simulated."),
"C09":("seeded search over call histories with failing calls and standard output faults; results against a fresh process",
 "Samples histories of up to some dozen calls."),
"C10":("the real command under an interposed file system that injects failures and full disks at explicit calls; reports against the files",
 "Samples faults; stat and realpath failures are not injected; the watermarking library is replaced in most runs by a stub so that runs stay short."),
"C11":("the real command on colliding names, links and earlier outputs under injected failures and kills; folder contents before and after",
 "Samples; outputs that are links to unrelated files are followed by design."),
"C12":("the real command killed at explicit calls, repeated, and compared with an undisturbed run in a copy of the folder",
 "Samples crash points; a process crash, not a power failure: what the operating system accepted survives."),
"C13":("the real command under short, interrupted and slow I/O against the stub's or the real library's result on the same input",
 "Samples; lossy formats are compared up to a small mean difference."),
"C14":("the real command on simulated clocks with explicit durations of every call and wall clock steps against the simulator's own time",
 "Samples; the clock is simulated at the clock_gettime and nanosleep calls."),
"C15":("key generation on a simulated entropy source with short, interrupted, missing and failing reads against a ledger of bytes handed out",
 "Samples; entropy is observed at getrandom and /dev/urandom."),
"C16":("mixed fleets of the current code and an independent model of the published format exchanging pictures and parts over a lossy medium",
 "Samples; the reference model defines the format, numerical agreement up to 1e-6."),
"C17":("the real front end sources on a discrete-event browser with explicit delays and failures of every load; final preview against the last selection",
 "Samples schedules; React and the browser are small models, the module is a model around the real web crate's results."),
"C18":("the real front end and web crate on a discrete-event browser over histories of good, broken and unreadable files; drawn pixels against an independent computation after every event",
 "Samples; React and the browser are small models; the module's memory is a model that invalidates earlier views."),
}
N["C22"]=("seeded search over long call histories with output faults and panicking calls, and over batches of the real command, with every allocation and descriptor counted",
 "Samples; growth is judged by comparing equally long stretches of a history, so a cache that stays bounded is not a violation.")
N["C23"]=("seeded search over call histories with broken, mismatched and reused keys under entropy and output faults; everything returned, printed, written or reported is searched for the ledger's secrets",
 "Samples; finds secrets in raw, hexadecimal, decimal, base64 and word notations, not behind arbitrary transformations. Timing is not observed.")
NA=[("C19","A pure function of the image: no schedule, clock, I/O or fault takes part in it, so there is nothing to simulate. (C16 compares its values with an independent model as part of the format.)"),
("C20","A pure function of a matrix: no schedule, clock, I/O or fault takes part in it. (C02 and C16 exercise it as part of the format.)"),
("C21","A pure function of image and parameters: no schedule, clock, I/O or fault takes part in it.")]
import sys,os
ready=[k for k in N if k not in sys.argv[1:]]
m={"version":1,"setup_cmd":"./check build",
"hooks":{"guard":"--cfg sia_sim","enable":"RUSTFLAGS=\"--cfg sia_sim\" (check, build_core)","source_commits":["9575468"]},
"checks":[{"property":k,"quick_cmd":"./check "+k,"thorough_cmd":"./check "+k,"evidence_file":"evidence/%s.json"%k,"technique":T+N[k][0],"level":"exploration","level_note":N[k][1]} for k in ready],
"not_applicable":[{"property":k,"reason":r} for k,r in NA]+[{"property":k,"reason":"check under construction"} for k in sys.argv[1:]],
"notes":"VERIF_SEED and VERIF_TIER decide the runs. ./check replay FILE replays a violation, ./check determinism ID [RUNS] repeats runs and compares their histories, ./check show ID INDEX prints one run."}
json.dump(m,open(os.path.join(os.path.dirname(__file__),'../MANIFEST.json'),'w'),indent=1)
