#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed properties
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ="bounded exhaustive enumeration of operation sequences on the real code against a reference model"
SCH="stateless model checking: exhaustive schedule exploration of the real code (deviation-bounded) under a controlled scheduler"
RACE=SCH+", every explored execution under the race detector with only the program's own synchronisation visible"
CRASH="exhaustive enumeration of crash points, damaged values and failing writes of the real engine's storage operations, reopened under a controlled scheduler"
NS="Exhaustive within the bounds in the evidence file: every case is executed on the real code of the current tree and compared with a reference model kept in the check. Trusts the reference model and, beyond the bounds, nothing is claimed."
NC="Exhaustive within the stated number of deviations from the base schedules (delay-bounded), on a copy of the current tree whose synchronisation is redirected to the scheduler by a syntactic rewrite. Assumes sequential consistency between synchronisation operations and trusts the rewriter, the scheduler and, for persistence scenarios, the in-memory storage backend."
C={}
for p in "C01 C02 C03 C04 C05 C06 C20".split(): C[p]=("model_checking",SEQ,NS)
for p in "C09 C10 C11 C13".split(): C[p]=("model_checking",SCH,NC)
C["C12"]=("model_checking",RACE,NC+" A race is reported when ThreadSanitizer sees two accesses unordered by the program's own synchronisation on an explored execution.")
for p in "C07 C08".split(): C[p]=("model_checking",SEQ+", run under a controlled scheduler",NS+" The engine runs as a copy of the current tree whose synchronisation is redirected to the scheduler, under two default schedules; other schedules are the concern of C09-C13.")
for p in "C15 C22 C23".split(): C[p]=("model_checking",SEQ+"; "+SCH,NC)
C["C24"]=("model_checking","bounded exhaustive enumeration of call sequences on two engines against each engine alone (self-composition), with all inputs and answers compared at the end; "+RACE,NC)
C["C16"]=("fault_enumeration",CRASH,NC+" The storage backend is an in-memory map whose operations are atomic: torn writes inside one backend operation are the backend library's concern and are represented by damaged values.")
C["C21"]=("model_checking",SEQ+"; "+RACE,NC)
C["C14"]=("model_checking",SEQ,NS+" The storage libraries themselves (goleveldb, bolt, badger) run for real in a scratch directory and are trusted below their Go API.")
C["C17"]=("model_checking",SEQ,NS+" A real engine, the real HTTP handlers and a real gRPC server and client over the loopback interface are compared with direct calls to an equal engine.")
C["C18"]=("model_checking",SEQ+"; "+RACE,NC+" HTTP nodes are a stand-in transport inside the scheduler, gRPC nodes are real servers on the loopback interface; every combination of answers and failures, and for HTTP every arrival order, is enumerated.")
C["C19"]=("model_checking",SEQ+"; "+RACE,NC+" The watched service is a real gRPC server on the loopback interface that follows a script; time is the scheduler's, and the restart command is a script in a scratch directory.")
C["C25"]=("model_checking",RACE,NC+" The HTTP handlers and the methods of the gRPC service are called in process, without the transport.")
C["C26"]=("model_checking","bounded exhaustive enumeration of option combinations and ways to start an engine, each a complete life of a real engine compared with one whose options are written out and with direct readings of the options",NS+" Storage backends and dictionaries are the real ones, in scratch directories; every case runs in a process of its own.")
exec(open(os.path.join(V,"tools","claims.py")).read()) if os.path.exists(os.path.join(V,"tools","claims.py")) else None
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
NA={}
m={"version":1,"setup_cmd":"./setup","checks":[],"not_applicable":[],
"hooks":{"guard":"none","enable":"no hooks: schedule checks rewrite a scratch copy of the current tree; sequential checks use the package API"},
"notes":"./check ID quick|thorough; replay a violation with the printed replay file: see DESIGN.md"}
for p in props:
    if p in C:
        l,t,n=C[p]
        m["checks"].append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check not built yet")})
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks")
