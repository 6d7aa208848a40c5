#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(__file__),'..')
N={}
def n(id,tech,note): N[id]=(tech,note)
GEN="Random search with shrinking over generated histories, compiled with ASan+UBSan; nothing is claimed beyond the generated cases. Trusts the harness's reference, the public callbacks as the observer, and clang's sanitizers."
n("C01","stateful random testing and coverage-guided fuzzing with sanitizers and invariants",GEN+" Thorough adds libFuzzer campaigns.")
n("C02","metamorphic property testing (chunked versus whole input), coverage-guided fuzzing",GEN)
for i,w in {"C03":"cursor rules","C04":"printing rules","C05":"editing rules","C07":"scrollback and view","C08":"alternate screen","C09":"resize rules","C11":"highlighting","C27":"modes"}.items(): n(i,"model-based stateful property testing against a reference terminal",GEN+" The oracle for the "+w+" is an independent executable model of the terminal.")
n("C06","metamorphic and model-based property testing of generated escape sequences, coverage-guided fuzzing",GEN)
n("C10","model-based property testing of selections against a reference document model",GEN)
n("C12","differential testing: incremental renderer versus full redraw over random histories",GEN+" The library is compiled with an 8-bit age counter so that its overflow is reached.")
n("C13","differential property testing against an independent UTF-8 decoder and encoder",GEN)
n("C14","model-based property testing of attribute commands and palettes",GEN)
n("C15","model-based property testing of key encoding",GEN)
n("C16","model-based stateful property testing of mouse reports",GEN)
n("C17","model-based property testing of replies",GEN)
n("C18","differential testing: reset terminal versus new terminal on random continuations",GEN)
n("C19","metamorphic property testing of save/restore with a probe that reveals hidden state",GEN)
n("C20","model-based property testing of command delivery",GEN)
n("C21","model-based stateful property testing of the symbol table",GEN)
n("C22","model-based stateful property testing of the hash table",GEN)
n("C23","model-based property testing of character sets in three input modes",GEN)
n("C24","fault-injection property testing: replayed histories with chosen allocations failing, compared with fault-free twins",GEN+" Allocation failures come from a wrapped allocator.")
n("C25","model-based stateful property testing of the byte ring",GEN)
n("C26","stateful property testing over a simulated kernel with generated schedules, plus real ptys",GEN+" The simulated kernel follows epoll(7) and tty semantics for non-blocking descriptors; a smaller number of cases use real ptys and children.")
n("C28","metamorphic property testing (with and without observers)",GEN)
n("C29","differential property testing (interleaved versus separate terminals)",GEN)
n("C30","model-based stateful property testing of reference counts with allocation accounting",GEN)
n("C31","model-based stateful property testing of the dynamic array",GEN)
n("C32","model-based stateful property testing with a glyph cache keyed by the reported ids",GEN)
n("C33","property testing against a reference width table, exhaustive over code points for the query",GEN)
n("C34","metamorphic property testing of equivalent requests on twin terminals",GEN)
n("C35","differential property testing (with and without log receivers)",GEN)
W=GEN+" A stand-in replaces the GTK base class, GDK queries and the pty; GLib, cairo, pango and libtsm are real."
n("C36","differential property testing: pixels after incremental draws versus an independent drawing",W)
n("C37","model-based stateful property testing against a plain terminal driven with the meaning of each event",W)
n("C38","property-based testing of generated command lines, environments and window histories against a model of the options",W)
n("C39","differential property testing of the project's own release build (shared library, gcc) against the sanitised debugging build of the same sources (clang)",GEN+" The players of both builds share one decoder of histories; only what the public interface shows is compared.")
n("C40","property-based testing of the helpers over boundary-biased operands against 128-bit arithmetic and small models",GEN)
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
assert sorted(N)==sorted(ids),set(ids)^set(N)
m={"version":1,"setup_cmd":"./tools/setup.sh","checks":[{"property":i,"quick_cmd":f"./check.sh {i} --tier quick","thorough_cmd":f"./check.sh {i} --tier thorough","technique":N[i][0],"level":"exploration","level_note":N[i][1]} for i in ids],"not_applicable":[],
"hooks":{"guard":"none","enable":"No hooks: the checks compile /repo's sources unchanged with a force-included header (harness/prelude.h) that wraps the allocator, and nothing in /repo is guarded.","source_commits":[]},
"notes":"Every check compiles /repo's current tree into a scratch directory, runs a fixed number of generated cases from VERIF_SEED and removes the directory. Replay a violation with ./check.sh <ID> --replay <path>. Repaired and known defects: known-findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(ids))
