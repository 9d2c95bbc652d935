#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property (statement from
properties.jsonl, sub-checks and rules from the harness, notes below), planted
bugs from seeded/ (results kept in tools/seed_results.json), fixes."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
# property: (oracle, what the tests cannot reach, limits)
N = {
"C01": ("a recursive interpreter of worlds of scripts and flows; invocation log and exit status must equal its prediction", "any nesting, length and point of failure", "1-6 top commands, flows to depth 3"),
"C02": ("metamorphic: canonical against a random layout of the same abstract line, both against the model", "every division into words and blanks at once", "layouts of up to 4 commands; '::' before the last command excluded, it means tail-mode"),
"C03": ("the argument vector computed from declaration and given values; refusals: nothing runs", "all forms and orders, every printable value", "0-4 arguments"),
"C04": ("the declared tree maps every spelling to one command; a near miss maps to nothing", "similar names and abbreviations at every level", "2-9 commands"),
"C05": ("a model of layered environments (default, saved, session, flow, command)", "every mix of scopes, deletions and nesting", "3 keys, nesting 2; a setting equal to the value in effect is the known finding pin-equal"),
"C06": ("a two-layer model (session, saved) over histories of processes", "histories of several processes; any single-line text", "2-5 runs"),
"C07": ("the modules log the file they are given; a model of last-line-wins predicts it byte for byte", "any value, several 100 kB, no final line break", "values without line breaks"),
"C08": ("differential: direct run, run of the saved flow, run inside a sequence, in separate processes", "quoting of every printable value at each level", ""),
"C09": ("a renderer written from the documentation, with the values at the time of the call", "values changing during the run, references in values, cycles", "up to 3 nested flows, 6 keys"),
"C10": ("a model of what is provided at each read decides refused or not; both directions are checked", "declarations spread over nested flows, removals, optional ones", "1-4 keys, 2-5 modules"),
"C11": ("union of the declared sets minus what is installed in a private PATH", "dependencies inside nested flows, odd forms of 'not installed'", "6 OS commands"),
"C12": ("the executed tree predicted by the interpreter against the description of the session; kills and cut status files", "every point of failure, kill and cut", "kills are at invocations of modules; cuts at any byte"),
"C13": ("interpreter with a resume point; each attempt's invocations and environment", "repeated failing at other points, nested flows", "up to 3 failing retries"),
"C14": ("a predicate over age, owner, flow and id per record", "combinations of ages, liveness, search and force", "owners are real processes of the check"),
"C15": ("a list model of the hub; directory contents are compared before and after", "histories with names that are parts of one another", "2-6 directories, 3-10 operations"),
"C16": ("metamorphic: descriptions and runs of good and builtin commands with and without the bad files", "arbitrary bad bytes in every kind of file", "1-5 bad files"),
"C17": ("metamorphic: plain spelling against a random equivalent spelling", "combinations of spellings", "2-4 declarations"),
"C18": ("invariants: nothing invoked, no file changed, equal output twice, every command named", "any sequence with any describing command at any place", ""),
"C19": ("event logs (start, end, id) against happens-before rules and a model of arguments and environment; race detector", "schedules with delays, waits and failures", "delays up to 0.4 s; schedules are those that the machine and the delays produce"),
"C20": ("an interpreter with pauses; the answers are typed when asked", "any answers at any pauses, nested", ""),
"C21": ("the interpreter applied to the replaced sequence", "several requests, nested flows", "see false alarms"),
"C22": ("a model of declared mappings, defaults and automatic arguments", "shared keys, order, nested automatic arguments", "two levels of flows"),
"C23": ("exit status, no runtime error text, ends within a minute, then a normal run works", "arbitrary words; about 150 builtins with wrong arguments", "grammar-aware random search, not coverage-guided: the interesting states are behind several files and processes"),
"C24": ("the number and place of hook invocations predicted from how the run ends", "hooks set anywhere, all kinds of endings", ""),
"C25": ("a model of session, saved values and snapshots over histories", "overwrites, missing-only loads, names that are paths", "2-5 runs"),
"C26": ("unique words as secret values: none may be in any output, all must reach the scripts", "every place a value can come from or be shown", "known findings: sessions-list, sys-subflow, env-set-value"),
"C27": ("a map from path to (commands, help) over histories of processes", "prefix-related paths, renames onto others, moved flows", "4-12 runs"),
"C28": ("fault injection at a chosen file-changing system call; each store must be old or new, new when success was reported", "every fault point of an operation", "one fault per run (or this and all later calls)"),
"C29": ("the cartesian product computed by the check", "odd ranges, limits of integers, awkward values", "up to 4 definitions"),
"C30": ("an interpreter with tolerance, repetition and forest mode", "their nesting and combination", "3 levels"),
"C31": ("narrow and wide field sets per command computed from its declaration and its full description", "words that occur in several fields and in the listing itself", "see false alarms"),
"C32": ("per process the interpreter; per store: equal to one writer's version", "real concurrent processes with random delays", "schedules are the machine's; 2-8 processes"),
"C33": ("metamorphic: tail-mode against plain call on copies of the same data: output, status, files", "every command with odd inputs", ""),
"C34": ("a model of served repositories, hub and clones; failing git calls", "graphs with cycles, shared entries, branches; histories", "local git servers behind insteadOf; known finding: branch-default"),
"C35": ("one interpreter over outer and inner sequences", "any depth of inner calls, changes and failures", "3 levels"),
"C36": ("the generated chunks themselves: streams compared byte by byte, logs as a multiset, per stream by disjoint alphabets; pieces of background output by unique begin and end marks", "any bytes, sizes beyond pipe and buffer sizes, overlapping background commands", "up to 8 invocations per flow; between the two streams of one command no order is demanded"),
"C37": ("a model of the file tree; stub executors and scripts report how they were called", "mixtures of kinds, extensions, executors and places in one tree", "depth 4"),
"C38": ("a map of keys and values with the guards as conditions", "guards after any history, in flows and across runs", "up to 12 operations"),
"C39": ("the same program without the display settings (metamorphic)", "display settings anywhere in programs of commands and flows", "display keys set to values of their own type"),
"C40": ("bounds from the times the scripts themselves log", "timed commands in any nesting, sharing keys, lasting and failing", "scripts lasting up to 1.2 s"),
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = [open(H + "/design_head.md").read(), "\n## Properties\n"]
for p in props:
    i = p["id"]; f = R + "/harness/props/%s_test.go" % i.lower()
    src = open(f).read() if os.path.exists(f) else ""
    o, w, l = N[i]
    out.append("\n### %s %s\n\n%s\n\nOracle: %s. Beyond the tests: %s.%s\n" % (i, p["title"], p["statement"], o, w, " Bounds: %s." % l if l else ""))
    for m in re.finditer(r'tk\.Prop\(t, "([^"]+)", (\d+), (\d+),\s*"((?:[^"\\]|\\.)*)"', src):
        out.append("- `%s` (%s cases quick, x%s thorough): %s\n" % (m.group(1), m.group(2), m.group(3), m.group(4)))
    e = R + "/tools/costs.json"
    c = json.load(open(e)).get(i) if os.path.exists(e) else None
    if c: out.append("\nCost (quick, 8 cores): about %d s.\n" % c)
out.append(open(H + "/design_tail.md").read())
out.append("\n## Known findings (recorded, not repaired)\n\n")
kf = json.load(open(R + "/known_findings.json"))
for k in kf["findings"]: out.append("- %s/%s: %s\n" % (k["property"], k["key"], k["what"]))
out.append("\nWhy not repaired: pin-equal needs a change of how settings are stored; sessions-list and sys-subflow need\nthe stored command line or rendered flow to carry which values are sensitive; env-set-value needs an argument's\nsensitivity to depend on another argument's value; branch-default would move existing clones.\n")
out.append("\n## Defects repaired in /repo\n\n")
for k in kf["fixed"]: out.append("- " + k[len("fixed: "):] + "\n")
out.append("\n## Planted bugs and which checks catch them\n\n")
rs = json.load(open(H + "/seed_results.json")) if os.path.exists(H + "/seed_results.json") else {}
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    out.append("- `%s` (%s): %s. Needs: %s. %s\n" % (d, m["property"], m["what_it_breaks"], m["needs"], rs.get(d, "")))
open(R + "/DESIGN.md", "w").write("".join(out))
