"""Which files decide which property."""
D = ["drive_test.go"]
M = D + ["model_test.go"]


def go(*files, **kw):
    return dict(parts=[("go", list(files))], **kw)


PLAN = {
    "C01": go("c01_test.go"),
    "C02": go(*M, "c02_test.go"),
    "C03": go(*D, "c03_test.go"),
    "C04": go(*D, "c04_test.go"),
    "C05": go(*D, "c05_test.go"),
    "C06": go(*M, "c06_test.go"),
    "C07": go(*D, "c07_test.go"),
    "C08": go(*D, "c08_test.go"),
    "C09": go(*M, "c08_test.go", "c09_test.go"),
    "C10": go(*D, "c10_test.go"),
    "C11": go(*M, "c11_test.go"),
    "C12": go(*M, "c19_test.go", "c40_test.go", "c12_test.go"),
    "C13": go(*D, "c08_test.go", "c13_test.go"),
    "C14": go(*D, "c14_test.go"),
    "C15": go(*D, "c15_test.go"),
    "C16": go("c16_test.go"),
    "C17": go(*D, "c16_test.go", "c17_test.go"),
    "C18": go(*D, "c16_test.go", "c17_test.go", "c18_test.go"),
    "C19": go(*D, "c19_test.go"),
    "C40": go(*D, "c19_test.go", "c40_test.go"),
    "C41": go(*D, "c19_test.go", "c40_test.go"),
    "C42": go(*D, "c19_test.go", "c40_test.go"),
    "C20": go("c16_test.go", "trace_test.go", "c20_test.go"),
    "C21": go(*D, "c16_test.go", "trace_test.go", "c21_test.go"),
    "C22": go(*D, "c16_test.go", "trace_test.go", "c21_test.go", "ledger_test.go", "c22_test.go"),
    "C23": go(*D, "c16_test.go", "trace_test.go", "c23_test.go"),
    "C24": go(*D, "c24_test.go"),
    "C25": {"parts": [("go", ["c25_test.go"]), ("py", ["c25.py"])], "workers": 3},
    "C26": go(*D, "c16_test.go", "c24_test.go", "trace_test.go", "c08_test.go", "c21_test.go", "ledger_test.go", "c22_test.go", "c26_test.go", cli=True),
    "C27": {"parts": [("py", ["c27.py"])]},
    "C28": {"parts": [("py", ["c28.py"])]},
    "C29": go(*D, "c29_test.go"),
    "C30": {"parts": [("py", ["c30.py"])]},
    "C31": {"parts": [("py", ["c31.py"])]},
    "C32": {"parts": [("py", ["c32.py"])]},
    "C33": {"parts": [("py", ["c33.py"])]},
    "C34": {"parts": [("py", ["c34.py"])]},
    "C35": {"parts": [("py", ["c35.py"])]},
    "C36": {"parts": [("py", ["c36.py"])]},
    "C37": {"parts": [("py", ["c37.py"])]},
    "C38": {"parts": [("py", ["c38.py"])]},
    "C39": {"parts": [("py", ["c39.py"])]},
    "C43": {"parts": [("py", ["c43.py"])]},
    "C44": {"parts": [("py", ["c44.py"])]},
    "C45": {"parts": [("py", ["c45.py"])]},
    "C46": {"parts": [("py", ["c46.py"])]},
    "C47": {"parts": [("py", ["c47.py"])]},
}

# How each property is decided (generator / oracle), for MANIFEST.json.
TECHNIQUE = {
    "C01": "stateful generation of queue operations against a sorted-list model (rapid)",
    "C02": "generated traces against a reference model of each replacement policy, step by step (rapid)",
    "C03": "invariant over generated histories of every cache type: size against the dumped files after each step (rapid)",
    "C04": "generated histories; counters recomputed from observed decisions, and a metamorphic twin without statistics resets (rapid)",
    "C05": "generated traces; CPU-efficiency figures recomputed from their definition after each request (rapid)",
    "C06": "generated histories with watermarks and explicit releases against a reference model, and before/after snapshots around the watermark check (rapid)",
    "C07": "generated traces with a tiny bandwidth; redirect decision recomputed and everything observable compared around redirected requests (rapid)",
    "C08": "generated histories dumped and reloaded: round trip of files, statistics and tables, then a differential run of original and reloaded cache (rapid)",
    "C09": "generated histories with clearings: reference model emptied at the clearing, and a differential run of a cleared against a fresh cache (rapid)",
    "C10": "generated histories of every cache type against a model of the per-file statistics (rapid)",
    "C11": "generated traces against a reference model of weights, mean weight and LRU (rapid)",
    "C12": "generated histories with reports at random points against a model of the watched files (rapid)",
    "C13": "differential twin runs with equal seed over generated histories, and a six-sigma test of the admission fraction with permuted names and sizes (rapid)",
    "C14": "generated traces against a set model of the infinite cache (rapid)",
    "C15": "differential: dataset verifier against an LRU cache fed the listed files only (rapid)",
    "C16": "generated feature maps in several encodings against a reference discretisation probed around every limit (rapid)",
    "C17": "generated feature maps and update sequences against a plain matrix model of the table (rapid)",
    "C18": "generated schedules against the closed formula of epsilon, and memory operations against a map of lists (rapid)",
    "C19": "generated histories of learning caches; triggers, actions per category, books and daily report recomputed around each request (rapid)",
    "C20": "generated trace files and folders in many encodings: round trip of every field of every record (rapid)",
    "C21": "generated records around the filters' limits against their definition, and simulations whose requests to the cache are recorded (rapid)",
    "C22": "generated traces with windows and filters: simulation output against a twin cache fed by a direct reading of the trace (rapid)",
    "C23": "generated histories with the log enabled: every logged line compared with what was observed, and the log replayed (rapid)",
    "C24": "generated models and inputs against a direct computation of the layers with a rounding bound (rapid)",
    "C25": "generated names against an independent BLAKE2b, in Go (rapid) and in Python (Hypothesis)",
    "C26": "generated configurations and traces run by the command against a cache driven by a direct reading of both (rapid)",
    "C29": "generated update sequences against a map of states, and generated requests against a model of the prototype cache (rapid)",
    "C27": "generated records in several insertion orders against an independently sorted row (Hypothesis)",
    "C28": "generated write sessions and access sequences against the list of records (Hypothesis)",
    "C30": "generated request sequences against an LRU model (Hypothesis)",
    "C31": "generated file names, records and histories of merging and serialising against a model (Hypothesis)",
    "C32": "generated records through stages, pipelines and resources, with processes or a stand-in Spark, against a direct computation (Hypothesis)",
    "C33": "generated record shapes, write sessions and access sequences against the list of records (Hypothesis)",
    "C34": "generated tables and datasets encoded and decoded again, against sorted sets (Hypothesis)",
    "C35": "generated operation sequences with refused requests against a model of the remote files and documents, over a loopback server (Hypothesis)",
    "C38": "generated logs, trees of results and dashboard sessions against a direct evaluation (Hypothesis)",
    "C39": "generated days of records against a direct count of what is drawn and printed of them (Hypothesis)",
    "C40": "generated histories of learning caches; remembered choices, rewards, table, total and epsilon against an independent model of the reward rules (rapid)",
    "C41": "generated histories of learning caches; states, remembered choices, rewards, table, total and epsilon against an independent model of the reward rules (rapid)",
    "C42": "generated histories over many days; epsilon, its schedule and the memory at the start of each request against a model of the falls (rapid)",
    "C43": "generated request histories, data folders and options against an LRU model, a declarative rule of eviction by weight and the caches driven directly (Hypothesis)",
    "C44": "generated sessions of a plot server (points, restarts, deletions, plots) against a dictionary of points and a direct computation of what is drawn (Hypothesis)",
    "C45": "generated days of records extracted against databases, shared cache and other processes, then plotted; every row and figure recomputed from the records (Hypothesis)",
    "C46": "generated days of records and tables run through the scripts with a stand-in object store that refuses on demand, against the plain lists (Hypothesis)",
    "C47": "generated parameters, bases and result tables run through the study scripts, against the full product of the parameters and a direct computation (Hypothesis)",
    "C37": "generated tables, folders and query sequences converted, loaded and counted, then decoded or compared with a direct computation (Hypothesis)",
    "C36": "generated request histories, models and train sets against reference caches and a direct computation (Hypothesis)",
}
NOTE = {}
