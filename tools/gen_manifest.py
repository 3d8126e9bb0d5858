"""writes MANIFEST.json: python3 tools/gen_manifest.py"""
import json
C = {
 "P01": ("grammar-based generation against a reference tree model, spelling metamorphosis, differential against an independent reference parser", "documents of up to some 30 elements; the domain limits are in DESIGN.md"),
 "P02": ("mutation of generated documents with an independent well-formedness oracle, targeted breakage, truncation at every offset", "only inputs the reference parser is certain about are asserted"),
 "P03": ("random, mutational and structured fuzzing with CPU, memory and panic watchdog; entity graphs; scaling inputs", "inputs of up to 300 kB; time and memory are limited per case, not measured exactly"),
 "P04": ("round-trip relation over generated and mutated documents, against the model, a second parse, the event stream and an independent reference parser", "documents without parameter-entity references"),
 "P05": ("generated construction programs run against a reference tree model, serialise and read back", "construction through the documented calls only"),
 "P06": ("stateful model-based testing of mutation histories against a reference tree model", "histories of up to some 40 operations"),
 "P07": ("scope-tracking model of generated namespace nestings, negative cases with prefixes out of scope", "up to some 25 elements, 20 prefixes"),
 "P08": ("model-derived event streams, failure injection at every event, subsets of callbacks", "documents of up to some 30 elements"),
 "P09": ("generated and mutated internal subsets against a model and a reference parser, compared through events, tree, look-ups and serialisation; model-based sequences of declaration calls", "internal subsets without parameter-entity references, external identifiers and notations"),
 "P10": ("values generated together with their normalised meaning over generated attribute-list declarations, metamorphic addition of unrelated declarations", "values of up to some 300 pieces"),
 "P11": ("sweep of blocks of code points in four spellings and six places, entity graphs with markup against a model, faulty references and entities", "entity graphs of up to 25 entities"),
 "P12": ("documents written in every supported encoding and compared with their model, through tree, events and serialisation; API-built documents with characters the encoding lacks", "some 40 encodings, 60 names"),
 "P13": ("faults located by an independent reference parser in mutated, broken and truncated documents; metamorphic shifting, line-end and encoding changes", "a fault may be reported anywhere between the start of its construct and the character after the place where it shows"),
 "P14": ("model-based testing of operation sequences on every stack against a list; documents with deep and shadowed scopes, nested inputs", "sequences of up to some 3000 pushes; where the internal names have changed only the documents are checked"),
 "P15": ("repeated parses, histories of one parser, goroutines (also under the race detector) and separate processes, compared by everything observable; aliasing checks by overwriting inputs and changing other trees", "histories of up to 10 parses, up to 6 goroutines; schedules are sampled, not enumerated"),
 "P16": ("runs of the built command over generated lists of files, pipes and standard inputs, compared with the library", "up to 4 files of up to 120 kB"),
 "P17": ("model-based testing of setting histories against the set of what was set, all pairs exhaustively", "histories of up to some 60 settings"),
 "P18": ("walks of generated trees (parsed, built and mutated) compared with the order of the tree links, with failure injection at every position", "trees of up to some 100 nodes, some deep and wide ones"),
 "P19": ("fault injection: generated documents written to destinations that fail at generated offsets in six ways, differential over destinations", "every offset of short outputs, sampled offsets of longer ones"),
 "P20": ("generated spellings of legal declarations and targeted malformed ones, decided by a grammar of its own, in every supported encoding; every single edit and truncation of generated declarations", "some 60 encoding names"),
 "P21": ("content models compared by the language they accept (minimal automata and membership of derived sequences) over generated, edited and enumerated models", "models of up to some 400 parts and 30 levels; enumerated up to six tokens"),
 "P22": ("content generated together with the class of every character, over generated declarations and entities; metamorphic splitting of text", "documents of up to some 40 elements; white space next to references or CDATA sections in element content may be reported either way"),
 "P23": ("model-based testing of histories of entity declarations and references against a reference model of the entity tables, metamorphic and negative placement of references", "histories of up to 8 declarations and references over 7 names"),
}
names = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup", "checks": [], "not_applicable": []}
for p in names:
    if p in C:
        t, n = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
            "technique": "property-based testing: " + t, "level": "exploration", "level_note": "Generated-input search: a violation is real, absence is not proved; " + n + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
