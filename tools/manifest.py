import json,re,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src="".join(open(os.path.join(here,"checker",f)).read() for f in sorted(os.listdir(os.path.join(here,"checker"))) if f.endswith(".go"))
built=sorted(set(re.findall(r'checks\["(C\d\d)"\] = ',src)))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
PATH="path-sensitive abstract interpretation (typestate and dataflow with intervals and linear facts, no solver) over the SSA form of "
CL=PATH+"every exported client method, with everything it calls inlined"
T={
"C01":"symbolic emission analysis: abstract interpretation of every encoder's SSA into guarded emission lists, compared as polynomials with the lengths it writes",
"C02":"symbolic emission analysis: guarded emission lists of every encoder compared with a table of the MQTT 5 layout",
"C03":PATH+"every decoder, compared with a table of the MQTT 5 layout and properties",
"C04":PATH+"every decoder, with linear accounting of the bytes consumed against the declared lengths",
"C05":PATH+"every decoder and primitive reader, with every read failing or falling short at every call site",
"C06":"proof obligations at every operation that can panic, discharged by interval and linear facts of a path-sensitive abstract interpretation, plus a typestate analysis of channels",
"C07":CL+" and of every encoder, with every operation failing at every call site",
"C08":"abstract interpretation of the codec's SSA with bit provenance, its loop unrolled to the bound that the rule itself enforces",
"C09":PATH+"every encoder: facts that must hold where a length prefix is written and on the paths that succeed",
"C10":"bit-provenance (known-bits) dataflow over the SSA form of the accessors, encoders and decoders",
"C11":CL+": lock typestate",
"C29":"abstract interpretation of the matching predicate over abstract strings (finite windows around its cursors), in product with the automaton of section 4.7, to a fixpoint",
"C30":"agreement of encoder and decoder: symbolic emission lists of every encoder and abstract interpretation of every decoder, both compared with one table of fields",
"C32":CL+": typestate of wake-ups, waits and the quota",
"C33":CL+": lock typestate between network use and delivery",
"C35":CL+": cases of every blocking select and what follows them",
"C12":CL+": lock-order graph and blocking effects under locks",
"C13":CL+": lock sets of all accesses to shared regions",
"C27":PATH+"the storage methods: effects on the map and lock typestate",
"C36":"interprocedural effect analysis: access-path summaries of what each function writes, over the SSA form of the whole module",
"C37":"interprocedural effect analysis: writes to package-level variables and to what is reached from them, use after return to a sync.Pool, over the SSA form of the whole module",
"C38":PATH+"every decoder: a bound proved from linear facts at every allocation",
"C40":PATH+"Publish.Read, Write and Reset, with linear facts about the position, and a query for everything else that moves it",
"C43":CL+": the encoded packets' fields compared as terms with the arguments, and an induction over the loops that build lists of topics",
"C44":CL+": what is put into the registries of event channels, and the facts about the reason code, in every iteration over the topics",
"C39":"termination analysis: a variant for every loop, from the linear facts of a path-sensitive abstract interpretation of encoders, decoders, client methods and storage",
}
CHECK={p:{"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p}","technique":T.get(p,CL+": typestate of events along each path"),"level":"other",
 "level_note":"Static analysis of the source at every run; sound for the paths and effects that its model describes (see DESIGN.md, Model and limits), with anything it cannot decide reported as a violation."} for p in built}
NA={
"C31":"The client has no session resumption: it stores messages but nothing reads them back after a reconnect, so there is no code the property could be decided on. Recorded in DESIGN.md as a limitation of the client.",
"C34":"A statement about elapsed time between calls the application makes and the scheduling of both sides; time is a run-time quantity. The computation of the deadlines is C25.",
}
na=[]
for p in ids:
    if p in CHECK: continue
    na.append({"property":p,"reason":NA.get(p,"The check for this property is not finished; static analysis applies.")})
m={"version":1,"setup_cmd":"cd checker && GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0 go build -o /dev/null .",
"checks":[CHECK[p] for p in ids if p in CHECK],"not_applicable":na,
"notes":"Every check builds the checker in /verif/checker (Go, x/tools vendored), loads and type-checks /repo's current source, builds its SSA form and analyses it; nothing of /repo is executed. No hooks are needed."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(CHECK),"checks",len(na),"n/a")
