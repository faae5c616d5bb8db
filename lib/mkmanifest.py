"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLC model checking of MC.tla (reader and log writer, small scope) + trace validation of real runs against ULogParser.tla"
TV = "trace validation with TLC: recorded runs of the real parser checked against ULogParser.tla/ULogCodec.tla"
RUN = " + trace validation of real runs, the model's among them, against ULogParser.tla/ULogCodec.tla"
T = dict(C01=MC, C02=MC, C03=MC, C05=MC, C06=MC, C07=MC, C08="TLC model checking of MCFields.tla (every small format, every payload length, decoding described without decoding)" + RUN, C09=MC, C10=MC, C11=MC, C12="TLC model checking of MCHeader.tla (every value of every header byte, every flag bit)" + RUN, C15="TLC model checking of MCGrammar.tla (every short text against the language built bottom-up)" + RUN, C16="TLC model checking of MCMeta.tla (every message built from parts, cut everywhere)" + RUN, C17=TV,
         C04="TLC model checking of MCProgress.tla (the reader progresses on every small input) and MCNest.tla (decoding with limits stops) + validation of runs on hostile input against Progress.tla",
         C13="TLC model checking of MCDerive.tla (values in terms of the records written) + trace validation of derived streams of generated message sets against ULogDerive.tla",
         C14="TLC model checking of MCDerive.tla (dispatch in terms of the records written) + trace validation of derived streams of generated message sets against ULogDerive.tla",
         C18="TLC model checking of MCCursor.tla (all short operation sequences) + trace validation of the real cursors against Cursor.tla",
         C19="TLC model checking of MCEncode.tla (encoding and reading are inverse) + validation of recorded encodings against ULogCodec.tla (EncTrace)",
         C20="TLC model checking of MCFlatten.tla (the walk visits each leaf once) + validation of recorded flattenings against Flatten.tla (Trace)",
         C21="TLC model checking of MCViews.tla (texts of all short byte strings and numbers) + validation of recorded texts and accessors against Views.tla (Trace)",
         C25="TLC model checking of MCErrors.tla (records with known defects: the causes found are those put there)" + RUN.replace("ULogCodec", "ULogErrors"),
         C26="TLC model checking of MCDerive.tla (faults in terms of the records written) + trace validation of the errors of derived streams of generated message sets against ULogDerive.tla",
         C23="TLC model checking of MCStream.tla (repeated cycles reach a fixed state, bounded tables) + validation of very long recorded runs against StreamTrace.tla",
         C24="TLC model checking of MCDefs.tla (definitions built part by part) + validation against DeriveDefs.tla of what the real compiler and the accepted definitions do (DefsTrace)",
         C22="TLC model checking of MCTwin.tla (two readers under every schedule) + trace validation of interleaved, threaded and late-shown runs against TwinTrace.tla")
NOTE = ("Exhaustive on the model within the bound in the evidence; on the code, every behaviour of the model that is sampled and every "
        "generated scenario is executed and its full sequence of results must be a behaviour of the specification. Trusts TLC and the harness's projection.")
PENDING = "check under construction"
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p, quick_cmd=f"python3 -B check.py {p} quick", thorough_cmd=f"python3 -B check.py {p} thorough",
                      technique=T[p], level="model_checking", level_note=NOTE) for p in ids if p in T],
         not_applicable=[dict(property=p, reason=PENDING) for p in ids if p not in T],
         notes="Specifications in spec/ (TLA+, TLC); see DESIGN.md. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
