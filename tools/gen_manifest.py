"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("crash, panic and AddressSanitizer monitors over generated and hostile texts, in process and in the debug tool", "Held on the texts run. Sound for what it reports: a violation is a panic, signal, sanitizer report or unreadable result that was seen. Nesting beyond 200 is only probed by the known findings (stack overflow)."),
 "C02": ("deterministic effort monitor (allocation counts) over growing families of texts", "Effort is counted in allocations, so the verdict does not depend on the machine. Growth is judged up to 26 levels (quick) or 64 (thorough) of nesting."),
 "C03": ("derivation checker as oracle over accepted texts", "Each accepted text is re-read by an independent checker that must account for every token. Trusts that checker's grammar."),
 "C04": ("reference-model monitor: generated trees spelled as text, parsed and compared", "Held on the trees generated; shrinks a failing tree before it is reported."),
 "C05": ("reference-model monitor over generated literals, all ASCII characters and escapes included", "Held on the literals generated."),
 "C06": ("reference-model monitor over generated nested blocks in random layouts", "Held on the trees and layouts generated."),
 "C07": ("layout monitor: single lines of accepted texts moved, acceptance re-derived with alignment", "The printer knows every block's columns, so a moved line is known to be misplaced; trusts that bookkeeping."),
 "C08": ("metamorphic monitor: many spellings of one tree", "Held on the spellings generated; leaves out spellings the language of the parser does not have (DESIGN.md)."),
 "C09": ("reference-model monitor over generated types", "Held on the types generated."),
 "C10": ("reference-model monitor over generated type declarations", "Held on the declarations generated."),
 "C11": ("reference-model monitor over generated headers and imports", "Held on the declarations generated."),
 "C12": ("reference-model monitor over generated definitions, ports and infix declarations", "Held on the declarations generated."),
 "C13": ("reference-model monitor over generated comments between and inside declarations", "Held on the comments generated."),
 "C14": ("metamorphic monitor: modules whole, in parts, edited and joined", "Held on the modules generated."),
 "C15": ("rejection monitor over texts damaged with knowledge of every token", "Each damage is one that cannot be read otherwise; held on the texts generated."),
 "C16": ("acceptance monitor over good and impossible names in every position", "Held on the names and positions tried."),
 "C17": ("error-location monitor over damaged and planted texts", "Held on the rejected texts seen."),
 "C18": ("repetition monitor over histories, threads and sealed processes, with ThreadSanitizer", "Held on the histories run; the system-call filter makes any input or output of a parse visible."),
 "C19": ("output monitor on the real elm-parser-dump against in-process results", "Held on the files given to the tool."),
 "C20": ("report-accounting monitor (exactly once) on the real elm-parser-dump over random folders", "Held on the folders built."),
 "C21": ("output monitor on the real elm-parser-check against the generated imports", "Held on the files given to the tool."),
 "C22": ("file-system snapshot and system-call filter monitors on the real tools", "Held on the runs seen; the filter ends a process that asks for a change to files."),
}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Add a parse entry point"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {
  "guard": "cfg(elm_parser_verif)",
  "enable": "RUSTFLAGS=\"--cfg elm_parser_verif\" when building harness/ (the tools are built without it)",
  "source_commits": hook,
 },
 "checks": [
  {"property": k, "quick_cmd": "./run.sh " + k, "thorough_cmd": "./run.sh %s thorough" % k, "evidence_file": "evidence/%s.json" % k,
   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n}
  for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "The tier is taken from VERIF_TIER, the seed from VERIF_SEED. Known findings and repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
