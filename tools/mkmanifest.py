import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
MC = "explicit-state model checking of the implementation: exhaustive enumeration of "
T = {
"C01": ("model_checking", MC + "start curves x random draws over reduced fields, every honest run replayed through Generate/Prove/Verify", "real poik.c/ec_isogeny.c/fpx.c over one-word primes (hook POIK_MODEL_CHECK); every value of the deviating random words; the real primes at the shipped chain lengths against a second verifier in Python"),
"C02": ("model_checking", MC + "all forged responses (all kernel coordinate values per tag, with consistently recomputed hashes) against a textbook reference verdict", "complete over F_p^2 for p=23 at two steps, all order classes at every position of longer chains for larger p; structured forgeries over the real primes"),
"C03": ("model_checking", MC + "digest bytes, tags, repetition indices and bound bytes", "full repetition counts of the four parameter sets over reduced fields; byte changes over the real primes"),
"C04": ("model_checking", MC + "all curve coefficients x all points the validation can draw, against point counting", "complete for the reduced fields; known curve classes over the real primes"),
"C05": ("model_checking", MC + "all draws, exact kernel counts per start curve and history", "complete for the deciding draw of each step on reduced fields; walks over the real primes"),
"C06": ("model_checking", MC + "all values of the deciding random bytes with a full log of the random source", "provenance of every nonce, exact generator and masking counts; the log over the real primes"),
"C07": ("model_checking", "stateless model checking: every interleaving of the real worker code under a controlled scheduler with vector-clock race detection", "1-3 workers, small repetition counts"),
"C08": ("fault_enumeration", "exhaustive enumeration of operating-system outcomes (open/read sequences) and of the failing random request in every operation", "all outcome sequences up to the depth bound; every call index"),
"C09": ("fault_enumeration", "exhaustive enumeration of truncations, single-character corruptions and write-failure points of the real Dump/Parse", "all positions x all byte values on small proofs, all truncation points and write failures"),
"C10": ("fault_enumeration", "exhaustive enumeration of input faults, output-failure points and chained runs of the real command-line programs", "reduced-field builds of prove.c and verify.c plus the unreduced programs chained"),
"C11": ("model_checking", MC + "all operand tuples over a boundary-word alphabet for four primes and two backends, against GMP", "exhaustive within the alphabet"),
"C12": ("model_checking", MC + "all pairs of secret keys over reduced fields against Velu's formulas", "complete on reduced fields; structured key sets on the real primes"),
"C13": ("model_checking", MC + "all key pairs and ephemeral keys over reduced fields against the specification", "complete on reduced fields; structured key sets on the real primes"),
"C14": ("model_checking", MC + "all single-byte and coordinate modifications of ciphertexts against the specified implicit rejection", "complete per byte on reduced fields; bit flips on the real primes"),
"C15": ("model_checking", MC + "all public-key triples over reduced fields against group orders", "complete for p=11 and p=23"),
"C16": ("model_checking", MC + "all input and output lengths up to a bound against an independent FIPS 202", "all lengths spanning several blocks"),
"C17": ("model_checking", MC + "structured key sets and all ciphertext byte positions of the compressed variants on the real primes", "bounded key alphabet"),
"C18": ("model_checking", MC + "all models of all admissible curves over reduced fields", "complete on reduced fields; models of curves over the real primes"),
"C19": ("model_checking", MC + "proof contents (tags, field values including non-canonical, singular curves) under AddressSanitizer, UBSan and MemorySanitizer", "bounded value alphabet at every position"),
"C20": ("model_checking", MC + "secrets per operation and public input; the recorded sequence of branches and addresses (2-safety: equal to that of the first secret); field routines single-stepped over all pairs of an alphabet", "all secrets over reduced fields, a structured alphabet over the real primes"),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
done = [p["id"] for p in props if hasattr(checks, p["id"])]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
 "hooks": {"guard": "POIK_MODEL_CHECK", "enable": "the harnesses compile /repo's sources with -DPOIK_MODEL_CHECK and a poik_model.h that supplies a reduced parameter set", "source_commits": ["0ce2cd4"]},
 "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "technique": T[i][1], "level": T[i][0], "level_note": T[i][2]} for i in done],
 "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in done]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
