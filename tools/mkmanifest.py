"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
CODEC = "explicit-state enumeration of inputs and operation sequences, executed on both builds of the library and compared with a reference model"
T = {p: CODEC for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18 C19".split()}
T["C16"] = "exhaustive lock-step comparison of the two builds over enumerated inputs, plus cross reading"
SHIM = "stateless exploration of the real server/client code under a controlled scheduler with simulated network and clock: all schedules within a preemption bound, all event histories up to a depth, all fault combinations; plus every short history (call) replayed on real tokio and loopback sockets"
for p in "C20 C21 C22 C23 C24 C25 C26 C27 C28 C29".split():
    T[p] = SHIM
T["C15"] = "exhaustive enumeration of dictionaries (every ordered pair, thorough: triple, of entry kinds; every placement of values over up to three dictionaries and argument orders; every unsupported entry) through the real generator, whose output is compiled and explored like the shipped modules"
T["C17"] = "exhaustive enumeration of the random generator's outcomes (controlled generator) and of identifiers on the real code"
T["C07"] += "; plus all 65536 outcomes of the salt draws on a controlled random generator"
T["C18"] += "; plus exploration of the server and client under the controlled scheduler with log, output and error capture"
NOTE_CODEC = "Complete for the finite spaces named in the evidence file (each executed on the library built from /repo with the md5 and with the openssl feature); says nothing outside them. Trusts the reference model."
NOTE_SHIM = "Complete within the preemption, depth and fault bounds named in the evidence file, on the library's own sources compiled against replacements of tokio, rand and std's synchronisation; sequentially consistent memory; says nothing beyond the bounds."
NOTE_GEN = "Complete for the enumerated dictionaries named in the evidence file; the generated code is compiled into a copy of the library and driven through the same enumerated operation sequences as the shipped modules. Says nothing about other names or longer combinations of entries."
NOTE = {p: NOTE_SHIM for p in "C20 C21 C22 C23 C24 C25 C26 C27 C28 C29".split()}
NOTE["C15"] = NOTE_GEN
checks = []
na = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough", technique=T[i], level="model_checking", level_note=NOTE.get(i, NOTE_CODEC), evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="bin/check --build", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
