#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

EX = "pkg/core/execute/executor.go"
CMD = "pkg/core/model/cmd.go"
ENV = "pkg/core/model/env.go"
BI = "pkg/mods/builtin/"

prop("C01", "A sequence runs in order, exactly once, and stops at the first failure",
 "Running a command sequence executes every command of it, including the commands of (nested) flows it calls, exactly once and in written depth-first order. At the first command that fails, nothing after it is executed at any nesting level. The process exits 0 exactly when every command succeeded, and nonzero otherwise.",
 ["programs", "inputs"], "every command sequence over modules, builtin commands and acyclically nested flows, and every choice of which command fails and how (script exit code, builtin error, panic)",
 "The only tests are parser unit tests; execution, flows and exit codes are untested, and the order/stop guarantee is over all programs.",
 [EX, CMD, "pkg/core/execute/cmd_type.go", "pkg/core/parser/cmds.go", "pkg/main/main.go", "pkg/ticat/ticat.go"],
 [("flow loop with early return", EX + ":executeFlow"), ("command dispatch by type", CMD + ":Execute"), ("subflow execution", CMD + ":executeFlow"), ("script failure to panic", CMD + ":executeFile"), ("exit code", "pkg/ticat/ticat.go:RunCli")],
 ["order and count of module script invocations (log written by the scripts)", "process exit status"])

prop("C02", "How a sequence is spaced, quoted or split into words does not change it",
 "Two command lines that differ only in optional whitespace around separators, brackets and '=', in how the text is divided into shell words at those places, in redundant or empty sequence separators (except a '::' before the last command, which asks for a tail-mode call), or in which of the equivalent path separators is used, mean the same sequence with the same arguments and environment settings. A backslash-escaped colon and the colon of an http(s) address are part of the argument value and never end a command.",
 ["inputs"], "every sequence and every equivalent re-spacing / re-splitting of it",
 "Parser tests pin a few dozen literal inputs; invariance over all spacings and splits of one meaning is not sampled, and nothing checks it end to end.",
 ["pkg/core/parser/sequence.go", "pkg/core/parser/cmd.go", "pkg/core/parser/env.go", "pkg/core/parser/cmds.go"],
 [("sequence splitting with unbreakable prefixes", "pkg/core/parser/sequence.go:Normalize/Parse"), ("segment parsing", "pkg/core/parser/cmd.go:parse"), ("env/arg parsing", "pkg/core/parser/env.go")],
 ["module invocations with their arguments and environment"])

prop("C03", "Arguments reach a command the same way however they are written",
 "A module receives, after the session directory, exactly the values of its declared arguments in declared order: the value the user gave, or else the declared default. Giving the values positionally, by name, by any declared abbreviation, with or without spaces around '=', or inside braces is equivalent, and an argument, or a value beyond the declared ones, that the command does not have is rejected before anything runs.",
 ["inputs", "programs"], "every argument declaration (names, abbreviations, defaults, order) and every assignment of values in every spelling, values over arbitrary printable text",
 "Parser tests cover handcrafted trees without ever running a command; equivalence of spellings over all declarations is a relation between runs.",
 ["pkg/core/model/args.go", "pkg/core/model/argv.go", "pkg/core/parser/env.go", "pkg/core/model/flow.go", CMD],
 [("argument declaration and abbreviations", "pkg/core/model/args.go"), ("named / positional parsing", "pkg/core/parser/env.go:TryParseRaw"), ("script argument vector", CMD + ":executeFile")],
 ["argv of the module script", "exit status and absence of invocations on rejection"])

prop("C04", "Names, aliases and abbreviations resolve to the one declared thing",
 "A command can be called by its full path or by any combination of declared abbreviations of each path segment, and always the same command runs. A path that names no command is rejected before any command of the sequence runs. Names that are a prefix or an extension of a declared name never match it.",
 ["inputs", "programs"], "every command tree with abbreviations and every spelling of every path, including near misses",
 "No test loads commands or runs by abbreviation; ambiguity depends on the whole tree.",
 ["pkg/core/model/cmds.go", "pkg/core/parser/cmd.go", "pkg/mods/persist/mod_meta/mod_reg.go", "pkg/core/model/env_abbr.go"],
 [("tree lookup with abbreviations", "pkg/core/model/cmds.go:GetSub/AddAbbrs"), ("matching while parsing", "pkg/core/parser/cmd.go"), ("unknown-command rejection", "pkg/cli/display/parse_err.go")],
 ["which module script ran", "exit status"])

prop("C05", "Environment settings have exactly the documented scope",
 "A leading brace setting is visible to every command of the sequence; a brace setting attached to one command is visible to that command (and its subflow) and to no other; a setting made by a command in the session is visible to all later commands, also after the flow in which it was made returns; the narrowest scope wins. Deleting a key removes it from every scope and makes it invisible to later commands.",
 ["programs", "inputs"], "every program of settings, deletions and reads over a small key space, with nesting through flows",
 "Scoping is a property of whole executions; no existing test executes commands.",
 [ENV, "pkg/core/model/flow.go", EX, "pkg/core/parser/cmds.go", BI + "env.go"],
 [("layered lookup", ENV + ":Get/GetEx"), ("command layer", "pkg/core/model/flow.go:ApplyMappingGenEnvAndArgv"), ("global settings to session layer", EX + ":execute")],
 ["values printed by an env-reading command at each point of the sequence", "session environment file seen by modules"])

prop("C06", "Saved environment survives restarts exactly as saved",
 "After any history of runs, a later run sees exactly the key-values that were last saved: saving keeps every session and previously saved value byte for byte, removing a key and saving removes only it, clearing saved values removes all of them, and changes that were not saved are gone. Values of arbitrary single-line text are kept unchanged.",
 ["histories", "inputs"], "every history of separate process runs that set, remove, save, clear and read keys, with arbitrary key names and single-line values",
 "A persistence property over histories of processes; existing tests never touch the env file.",
 ["pkg/core/model/env_val.go", ENV, BI + "env.go", "pkg/core/model/env_ops.go"],
 [("file write with default filtering", ENV + ":SaveEnvToFile"), ("file load", ENV + ":LoadEnvFromFile"), ("load at start", BI + "env.go:LoadLocalEnv"), ("save", BI + "env.go:SaveEnvToLocal")],
 ["values printed by later runs"],
 [("saved env", "key=value lines in <data>/bootstrap.env", "env value sys.paths.data")])

prop("C07", "Modules exchange environment with the session through the session file",
 "A module sees in the session's environment file every key-value set earlier in the sequence, and every key-value line it appends there is visible to all later commands, with the last line for a key winning and a deletion mark deleting. This holds for values with any single-line content and any length.",
 ["programs", "inputs"], "every sequence of modules and builtin setters with arbitrary appended env lines",
 "Needs running modules; the existing tests only parse.",
 [CMD, ENV, "pkg/core/model/session.go"],
 [("write before exec", CMD + ":executeFile"), ("read back after exec", CMD + ":executeFile"), ("file format", ENV + ":EnvOutput/EnvInput")],
 ["session env file read by module scripts", "env values printed afterwards"],
 [("session env", "key=value lines in <session dir>/env", "first argument of every module")])

prop("C08", "A saved flow runs exactly like the sequence it was saved from",
 "Saving a sequence as a flow and running the flow, now or in any later process, executes the same commands with the same argument values and environment settings as running the sequence directly, where a leading brace setting of the saved sequence now has the flow as its scope. Saving executes none of it. Saving again over an existing flow fully replaces it.",
 ["programs", "inputs", "histories"], "every sequence (arguments in every spelling, values with spaces, quotes, colons, brackets and shell metacharacters, global and per-command settings, nested flows)",
 "A round trip over all sequences; no test saves a flow.",
 ["pkg/core/model/flow.go", BI + "flow.go", "pkg/mods/persist/flow_file/flow_file.go", "pkg/core/model/cmds.go", "pkg/mods/persist/meta_file/meta_file.go"],
 [("serialisation", "pkg/core/model/flow.go:SaveFlow"), ("save command", BI + "flow.go:SaveFlow"), ("flow file", "pkg/mods/persist/flow_file/flow_file.go"), ("reparse", "pkg/core/model/cmd.go:FlowStrToStrs")],
 ["module invocations of the flow vs of the sequence"])

prop("C09", "Flow templates are rendered with the values in effect at the call",
 "Each template reference in a flow is replaced by the text of the value, in effect when the flow is called, of the environment key or flow argument of that name; references inside values are rendered too, and a value that refers to itself is refused; a repeated-block template yields one command per listed value, in order. A flow file's own macros (`[[name]] = text` keys) are replaced by their text in its flow, later ones may use earlier ones. A reference without a value (or with an empty argument) makes the call fail before any command of that flow runs, and rendering always terminates.",
 ["programs", "inputs"], "every flow text with templates over args and env keys, every value incl. ones that contain template marks, multiplied blocks over lists, and flow files with macros",
 "Template code has no tests; correctness is per flow text and per value.",
 ["pkg/core/model/template.go", "pkg/core/model/flow.go", CMD],
 [("rendering", "pkg/core/model/template.go:RenderTemplateStrLines"), ("multiply", "pkg/core/model/template.go"), ("flow render before parse", CMD + ":executeFlow/Flow")],
 ["module invocations"])

prop("C10", "Reading an environment key before anything provides it is refused up front",
 "If some command in a sequence (or in a flow it calls) declares that it reads a key that neither the environment nor any earlier command or argument provides, the run is refused, naming the key, with a nonzero exit and before any command executes. If every declared read is provided earlier (a declared write counts as providing, also an optional one; in a command that has both a flow and a script the flow comes first), the run is not refused for this reason.",
 ["programs"], "every sequence of modules and flows with arbitrary read / may-read / write / may-write declarations, argument-provided and value-provided keys",
 "Soundness and completeness of a static check over all programs; untested.",
 ["pkg/core/model/env_ops.go", EX, "pkg/core/model/env_mapper.go"],
 [("static check", "pkg/core/model/env_ops.go:CheckEnvOps"), ("refusal", EX + ":verifyEnvOps")],
 ["exit status, printed key, absence of module invocations"])

prop("C11", "Missing OS commands are reported before anything runs",
 "If any command in a sequence, or in a flow it reaches, declares a dependency on an OS command that is not installed, the run is refused with a nonzero exit, naming every missing OS command and its user, before anything executes. If all declared dependencies are installed the run is not refused for this reason, and the dependency listing names exactly the declared set, or only the missing ones when some are missing.",
 ["programs", "configurations"], "every sequence of modules and nested flows with arbitrary declared dependencies, present or absent",
 "Depends on reachability through nested flows; untested.",
 ["pkg/core/model/dep.go", EX, "pkg/cli/display/dep.go", "pkg/mods/persist/mod_meta/mod_reg.go"],
 [("collection over subflows", "pkg/core/model/dep.go:CollectDepends"), ("refusal", EX + ":verifyOsDepCmds")],
 ["exit status, printed dependency names, absence of module invocations"])

prop("C12", "The session record tells truthfully what was executed",
 "After any run, the stored session reports the sequence that was run, the result (done or failed), every executed command in order with its result and nested commands, and no command that was not executed; listing sessions by done, error or running gives exactly the sessions in that state. If the process was killed at any point, the session is still readable and lists as not succeeded, never as done.",
 ["programs", "crash_points"], "every program (success, failure at any point, nested flows, background tasks) and every prefix of the record left by a crash",
 "Crash points and record fidelity cannot be sampled by the parser tests; nothing tests session records.",
 ["pkg/core/model/executing.go", "pkg/core/model/executed.go", "pkg/core/model/session.go", BI + "sessions.go"],
 [("append-only status writer", "pkg/core/model/executing.go"), ("tolerant parser", "pkg/core/model/executed.go"), ("running detection by pid", "pkg/core/model/session.go:ListSessions")],
 ["session listing / description commands", "status file"],
 [("session record", "<data>/sessions/<time>.<pid>/status", "pkg/core/model/executing.go")])

prop("C13", "Retrying a failed session resumes it where it failed",
 "Retrying a failed session executes, in order, exactly the commands that had not succeeded, skips every command that had succeeded at any nesting level, and gives the executed commands the environment values the skipped ones had produced (what the failed command itself had set is unspecified). Retrying is repeatable: if the retry fails further on, retrying again resumes from there; a retry whose remaining commands succeed exits 0 and executes nothing twice.",
 ["histories", "fault_sequences"], "every program, every failing point (and sequences of failing points across repeated retries), nested flows included",
 "Requires multi-process histories with injected failures.",
 ["pkg/core/model/executed.go", BI + "sessions.go", CMD, EX],
 [("skip masks from the record", "pkg/core/model/executed.go:GenExecMasks"), ("mask application", CMD + ":Execute"), ("retry commands", BI + "sessions.go:retrySession")],
 ["module invocations of the retry"])

prop("C14", "Removing sessions removes the right ones and never a running one",
 "Cleaning up sessions, whether by age at startup, all at once, by search or by id, removes exactly the addressed finished sessions and nothing else; sessions whose process is still alive are never removed unless the user forces it by id or search. Sessions older than the configured keep duration disappear, younger ones stay.",
 ["histories", "configurations"], "every mix of finished, failed, crashed, running, young and expired sessions and every removal command",
 "State space of session directories and live processes; untested.",
 ["pkg/core/model/session.go", BI + "sessions.go"],
 [("pid liveness and expiry", "pkg/core/model/session.go:CleanSessions/ListSessions"), ("removal commands", BI + "sessions.go")],
 ["session directories present afterwards", "session listing"])

prop("C15", "The hub loads exactly the enabled directories",
 "After any history of adding, disabling, enabling and purging local directories, exactly the commands of the directories that are added and enabled are callable, the hub listing shows exactly the added ones with their state, a directory must be disabled before purge affects it, and no operation ever modifies or deletes a local directory's content.",
 ["histories"], "every history of hub operations over several local directories whose paths and names may contain one another, and find strings matching any subset",
 "A state machine over process histories with substring matching; untested.",
 [BI + "hub.go", "pkg/mods/persist/hub_meta/hub_meta.go"],
 [("hub file read/write", "pkg/mods/persist/hub_meta/hub_meta.go:ReadReposInfoFile/WriteReposInfoFile"), ("state transitions", BI + "hub.go"), ("load at start", BI + "hub.go:LoadModsFromHub")],
 ["which commands are callable", "hub listing", "directory contents"],
 [("hub file", "tab separated records in <data>/hub/repos.hub", "pkg/mods/persist/hub_meta/hub_meta.go")])

prop("C16", "A bad or conflicting module never takes down the others",
 "Whatever is found in a hub directory (malformed, truncated or empty meta files, clashing command names, abbreviations or arguments, meta files without targets, flows with syntax errors), every other well-formed command there and every builtin command remains callable with unchanged meaning. A clash is reported on every run whose command line can be read, and never replaces the command (or abbreviation) registered first.",
 ["configurations", "inputs"], "every combination of well-formed and malformed meta/flow/help files, including conflicts with builtin commands",
 "An input-space robustness claim about loading; no test loads a directory.",
 ["pkg/mods/persist/mod_meta/mod_reg.go", "pkg/mods/persist/meta_file/meta_file.go", "pkg/core/model/cmds.go", BI + "mod.go", "pkg/core/model/errs.go"],
 [("per-module recovery", "pkg/mods/persist/mod_meta/mod_reg.go:RegMod"), ("conflict detection", "pkg/core/model/cmds.go"), ("tolerable errors", "pkg/core/model/errs.go")],
 ["invocations of the good modules", "exit status and output of builtin commands"])

prop("C17", "Module and flow metadata means the same however it is written",
 "Every equivalent spelling of a module's or flow's metadata (alternate key and section names, spacing around separators, comments, line continuation, order of sections and keys, own file or part of a combined flow file) declares the same command: same path, help, abbreviations, arguments, environment operations, dependencies and flow.",
 ["inputs", "configurations"], "every metadata content and every equivalent formatting of it",
 "A relation between files; no test parses one.",
 ["pkg/mods/persist/meta_file/meta_file.go", "pkg/mods/persist/mod_meta/mod_reg.go"],
 [("meta file parser", "pkg/mods/persist/meta_file/meta_file.go"), ("key and section aliases", "pkg/mods/persist/mod_meta/mod_reg.go:regMod")],
 ["displayed command info", "behaviour of the command when run"])

prop("C18", "Describing, searching and help never execute the sequence",
 "Appending any describing, searching, listing, command-info or flow-saving command to a sequence executes no command of that sequence and starts no background task or hook of it, and repeating it gives the same output. The description names every command the sequence would execute (except those marked quiet), in order and under the flow it belongs to; a sub-flow that is already shown may be folded.",
 ["programs"], "every sequence and every describing command in its positions and spellings",
 "A negative property over all programs; untested.",
 [EX, BI + "dump_flow.go", BI + "dump_cmds.go", "pkg/cli/display/flow.go", BI + "verb.go"],
 [("priority commands moved to the front", EX + ":moveLastPriorityCmdToFront"), ("clearing the flow", BI + "utils.go:clearFlow")],
 ["absence of module invocations", "printed description"])

prop("C19", "Background commands run once and are waited for",
 "A delayed command does not block the commands after it, runs exactly once with the arguments and environment in effect when it was scheduled, and has finished when a wait for it (for the last one, or the last one of a name), a wait for all, or the end of a run that no foreground failure stopped returns; its output is neither lost nor duplicated. If a background command fails and its error is not tolerated, the run exits nonzero. Running side by side never makes the process fail.",
 ["schedules", "programs"], "every program mixing foreground and delayed commands, waits of each kind, durations and failures",
 "Depends on goroutine schedules and durations; no test runs background tasks.",
 [EX, "pkg/core/model/bg_tasks.go", BI + "bg_tasks.go", "pkg/core/model/sys_argv.go"],
 [("asynchronous start", EX + ":asyncExecute"), ("task registry", "pkg/core/model/bg_tasks.go"), ("waits", BI + "bg_tasks.go:WaitBgTask/WaitBgTasks")],
 ["module invocation log with start/end marks", "captured output", "exit status"])

prop("C20", "Breakpoints pause at the set points and obey the user's choice",
 "With breakpoints set, execution pauses exactly before (after) the named commands or at the marked positions, and the user's answers decide what happens: continue and step-over execute the command, skip executes none of it but continues with the next, quit executes nothing further and exits nonzero. Whatever the answers, commands execute in order, at most once, and breakpoints alone change nothing else about the run.",
 ["programs", "inputs"], "every program with nested flows, every set of breakpoints and every sequence of answers",
 "Interactive histories; untested.",
 ["pkg/core/execute/interactive.go", EX, "pkg/core/model/breakpoints.go", BI + "dbg.go"],
 [("break decision and answers", "pkg/core/execute/interactive.go:tryBreakBefore/readUserBPAChoice"), ("skip mask", EX + ":executeCmd")],
 ["module invocations", "number of prompts", "exit status"])

prop("C21", "Replacing a command replaces it exactly as asked",
 "After a replace request in a sequence, the next occurrence (or with the all form every later occurrence, and in both forms only occurrences of the named command) is executed as the replacement, and every other command of the sequence runs exactly once, unchanged and in order. With several replace requests in one sequence each command is replaced by the first request that names it, and the requests do not affect other commands; a replacement itself is not replaced again.",
 ["programs"], "every sequence with one or more once/all replace requests over distinct commands",
 "Rewriting of arbitrary programs; untested.",
 ["pkg/core/model/blender.go", BI + "blender.go", EX],
 [("flow rewriting", "pkg/core/model/blender.go:Invoke"), ("requests", BI + "blender.go")],
 ["module invocations"])

prop("C22", "Declared value-to-env and arg-to-env mappings write exactly the declared keys",
 "Running a command with declared value-to-environment and argument-to-environment mappings sets exactly the declared keys, to the declared value and to the argument's value in effect (an argument that is neither given nor defaulted writes nothing), before the command itself runs. An automatic argument mapping gives a flow the arguments of the commands in it, and giving such an argument reaches the same key.",
 ["programs", "inputs"], "every set of mappings, defaults, provided values and nesting; automatic mapping over every flow",
 "Cross product of declarations and calls; untested.",
 ["pkg/core/model/env_mapper.go", "pkg/core/model/args_auto_map.go", "pkg/core/model/flow.go", CMD],
 [("mapping application", "pkg/core/model/flow.go:ApplyMappingGenEnvAndArgv"), ("auto mapping", "pkg/core/model/args_auto_map.go")],
 ["session env file seen by the module", "env printed afterwards"])

prop("C23", "Any command line ends cleanly",
 "Whatever words are given on the command line, the process terminates by itself, without an internal runtime error (nil dereference, index out of range, fatal runtime abort) and with one of its documented exit codes, and the data directory stays usable: the next normal run works.",
 ["inputs"], "every argument vector: arbitrary text, unbalanced brackets and quotes, misuse of every builtin command with missing or wrong-typed arguments, separators anywhere",
 "A universal robustness claim over inputs; parser tests pin a small list.",
 ["pkg/ticat/ticat.go", "pkg/core/parser/cmd.go", "pkg/core/parser/env.go", "pkg/core/parser/sequence.go", "pkg/cli/display", EX],
 [("panic recovery", "pkg/cli/display/err.go"), ("parse error handling", "pkg/cli/display/parse_err.go")],
 ["exit status", "stderr/stdout", "a follow-up run"])

prop("C24", "Exit hooks fire exactly once for the right outcome",
 "When hook flows are set, on a run that completes the done hook runs exactly once and the error hook never, on a run that fails the error hook runs exactly once and the done hook never, and the exit hook runs exactly once in both cases, always after the last command of the run; a module calling ticat in the session of the run does not set them off, and they do not last beyond the run. A hook never changes the exit status of the run into success, and a hook that fails makes it a failure.",
 ["programs"], "every program (success or failure at any point, hooks set anywhere in the run) and every subset of hooks",
 "Program- and outcome-quantified; untested.",
 ["pkg/ticat/ticat.go", BI + "builtin.go", "pkg/core/execute"],
 [("hook dispatch", "pkg/ticat/ticat.go:RunCli")],
 ["module invocations", "exit status"])

prop("C25", "Environment snapshots restore what was saved",
 "Loading a named snapshot makes every key-value that was in effect and storable when it was saved visible again, later in the same run or in a later process; loading only missing keys never changes a key that already has a value; removing a snapshot removes only it; the listing shows exactly the saved ones; saving without overwrite never changes an existing snapshot.",
 ["histories", "inputs"], "every history of saving, changing, loading, listing and removing over several names and arbitrary single-line values",
 "A store state machine over processes; untested.",
 [BI + "env_snapshot.go", ENV],
 [("snapshot save/load", BI + "env_snapshot.go"), ("env file", ENV + ":SaveEnvToFile/LoadEnvFromFile")],
 ["values printed after loading", "listing"])

prop("C26", "Sensitive values are not shown",
 "Unless the user enables displaying them, the value of an argument or environment key whose name marks it as sensitive does not appear in anything ticat itself prints while running or describing a sequence. The command still receives the real value.",
 ["inputs", "programs"], "every sequence with sensitive arguments or env keys (at any nesting, in any spelling), and every describing or listing command",
 "A negative property over all outputs.",
 ["pkg/cli/display", "pkg/core/model/env_ops.go", "pkg/core/model/args.go"],
 [("masking", "pkg/cli/display/utils.go")],
 ["stdout/stderr of ticat", "module argv"])

prop("C27", "The saved-flow store behaves like a map from command path to flow",
 "After any history of saving, renaming, removing, clearing and moving saved flows and setting their help, the callable saved flows are exactly those a simple map from command path to (commands, help) would contain, each running what was last saved under that path; operations on one flow never affect another, and moved flows keep working from the directory they were moved to once it is added to the hub.",
 ["histories"], "every history of flow management commands over paths that are prefixes of one another",
 "A store state machine over processes; untested.",
 [BI + "flow.go", "pkg/mods/persist/flow_file/flow_file.go", BI + "hub.go"],
 [("save / rename / remove / help", BI + "flow.go"), ("move", BI + "hub.go:moveSavedFlowsToLocalDir"), ("load at start", BI + "flow.go:LoadFlows")],
 ["invocations of each flow", "flow listing", "files in the flow directory"])

prop("C28", "Saved state is never left half written",
 "If the process is killed or the disk refuses a write at any point while saved environment, hub records or flows are being updated, the next run works normally and sees for each of these stores either the complete old or the complete new content. A command that could not store its update does not report success.",
 ["crash_points", "fault_sequences"], "every point at which a file write, rename or close of an update can fail or be the last action of the process",
 "Crash and fault points; no test injects any.",
 [ENV, "pkg/mods/persist/hub_meta/hub_meta.go", "pkg/mods/persist/flow_file/flow_file.go", "pkg/mods/persist/meta_file/meta_file.go"],
 [("write to temporary then rename", ENV + ":SaveEnvToFile"), ("hub file write", "pkg/mods/persist/hub_meta/hub_meta.go:WriteReposInfoFile"), ("flow file write", "pkg/mods/persist/flow_file/flow_file.go:SaveFlowFile")],
 ["values / hub listing / flows in the next run", "exit status of the interrupted run"])

prop("C29", "A join runs the command for every combination of the argument values",
 "Running a join executes the given command exactly once for every combination of the listed values, with the last-added argument varying fastest, each time with exactly that combination; ranges of integers or decimals include both ends. Every join definition ends, and an invalid one is refused.",
 ["inputs"], "every set of joined arguments with value lists or ranges (any start, end, step) and any command",
 "Combinatorial; untested.",
 [BI + "join.go"],
 [("cartesian iteration", BI + "join.go:joinKvsIter"), ("range expansion", BI + "join.go:JoinNew")],
 ["module invocations with their arguments"])

prop("C30", "Tolerated errors, repetition and forest mode follow their contracts",
 "A command marked to tolerate errors (by its author or on the command line) that fails does not stop the sequence, whose later commands run as if it had succeeded, while an unmarked failure still stops it (a mark that only hides the error does not make it tolerated); repeating a command runs it exactly the asked number of times; in forest mode each following top-level command starts from the environment before it, and no change leaks to the next one. Selftest runs exactly the commands carrying the tag.",
 ["programs"], "every sequence with marked/unmarked failing commands, repeat counts, and forest mode over modules that change the environment",
 "Program-quantified; untested.",
 [EX, CMD, "pkg/core/model/forest.go", BI + "misc.go", "pkg/core/model/sys_argv.go"],
 [("quiet error", CMD + ":Execute"), ("repeat / selftest flows", BI + "misc.go"), ("forest mode", "pkg/core/model/forest.go")],
 ["module invocations, env seen, exit status"])

prop("C31", "Search finds exactly the commands matching all keywords",
 "A search lists every visible command for which each given keyword occurs in its path, abbreviations, help, tags, arguments, environment operations or source, and none in whose full description one of the keywords does not occur; tag searches list the commands carrying the tags and no other; listing by source or path prefix lists exactly those commands.",
 ["inputs", "configurations"], "every set of modules and every list of up to four keywords",
 "Soundness and completeness over all command sets and queries; untested.",
 ["pkg/core/model/cmds.go", CMD, BI + "dump_cmds.go", BI + "tags.go", "pkg/cli/display"],
 [("keyword match", "pkg/core/model/cmds.go:MatchFind / " + CMD + ":MatchFind"), ("listing", "pkg/cli/display/cmds.go")],
 ["listed command names"])

prop("C32", "Concurrent runs do not interfere",
 "Any number of ticat processes started at the same time from the same data directory each execute their own sequence as if alone: each has its own session, sees only its own unsaved environment, and every session is recorded with its own sequence and result. Concurrent saving of the environment leaves the saved environment equal to one of the saved ones.",
 ["schedules"], "every number of processes, programs and interleavings",
 "Schedules across processes; untested.",
 ["pkg/core/model/session.go", ENV, "pkg/core/model/executing.go"],
 [("session dir by time and pid", "pkg/core/model/session.go:SessionInit"), ("atomic save", ENV + ":SaveEnvToFile")],
 ["module invocations and env seen per process", "session records", "saved env"])

prop("C33", "Tail-mode calls are equivalent to plain calls",
 "For every builtin command that supports it, giving its input as the preceding command word(s) ('input :command' or 'sequence::command') has the same effect as giving the same input as its argument. A command that does not support it is refused and executes nothing. ('input :command' is for the describing and searching commands that move to the front; any other command takes 'input ::command'.)",
 ["inputs", "programs"], "every builtin command supporting it, and inputs over arbitrary words",
 "A relation between two spellings for all commands and inputs; untested.",
 [EX, BI + "utils.go"],
 [("tail-mode reordering", EX + ":moveLastPriorityCmdToFront"), ("input fetching", BI + "utils.go:tailModeCallArg"), ("support check", EX + ":checkTailModeCalls")],
 ["effects on the stores", "output", "exit status"])

prop("C34", "Repositories are added with everything they depend on",
 "Adding a git repository to the hub makes the commands of that repository and of every repository it transitively lists callable, each cloned once, also when lists are cyclic or share entries; updating brings new commits and newly listed repositories of enabled repositories only; clearing or purging deletes exactly the clones it addresses and never a local directory.",
 ["configurations", "histories"], "every graph of repositories listing one another (cycles, diamonds, branches) and every history of add, update, disable, purge and clear",
 "Graph- and history-quantified; untested.",
 [BI + "hub.go", "pkg/mods/persist/hub_meta"],
 [("recursive update with finished set", "pkg/mods/persist/hub_meta/repo.go:UpdateRepoAndSubRepos"), ("hub file", "pkg/mods/persist/hub_meta/hub_meta.go")],
 ["callable commands", "hub listing", "clone directories"])

prop("C35", "Inner invocations join the caller's session",
 "When a module calls ticat itself with the session it was given, the inner sequence sees the caller's environment, every session environment change made by the modules of the inner sequence is visible to the rest of the outer sequence, the inner call creates no additional session, and its failure is reported to the calling module by a nonzero exit.",
 ["programs"], "every outer and inner sequence, at any call depth",
 "Cross-process programs; untested.",
 ["pkg/core/model/session.go", EX, CMD],
 [("session reuse", "pkg/core/model/session.go:SessionInit"), ("env file exchange", CMD + ":executeFile")],
 ["env seen before/after the inner call", "session directories", "exit status of the inner call"])

prop("C36", "What commands print reaches the caller and their logs whole",
 "What the executed module scripts print to standard output and standard error is passed on unaltered, complete and in order, each to its own stream (those of a background command together, in one piece, when it is waited for), and they read the standard input ticat was given, each from where the one before stopped. For every executed script not declared unlogged the session directory has exactly one log, with exactly what that invocation printed, which the session's description and the error message of a failure name; unlogged ones have none.",
 ["programs", "inputs", "schedules"], "every sequence of modules and flows and every output in size, bytes, chunks and streams, with commands in the foreground or background",
 "No test executes a module; completeness over all outputs and overlaps of background commands is not sampled.",
 ["pkg/core/model/bg_tasks.go", CMD, EX, "pkg/cli/display/flow.go"],
 [("streams and log of a script", "pkg/core/model/bg_tasks.go:SetupForExec"), ("buffered output of background commands", "pkg/core/model/bg_tasks.go:BgStdout"), ("log file names", CMD + ":genLogFileName")],
 ["standard output and error of ticat", "log files in the session directory", "session description"])

prop("C37", "A module runs by its declared file, executor and directory",
 "Executing a module runs the file its meta file belongs to, by the executor set for the file's extension (else bash), in the directory of that file, with the session directory as first argument followed by exactly the declared arguments. The command path of a module is its path below the hub directory without any extensions; a directory with a meta file that names a command runs that command, a meta file with a flow only runs the flow, and one without either is no error and runs nothing. Hidden files and directories below a hub directory are not loaded.",
 ["inputs", "programs"], "every tree of module files with any extensions, executors and declarations",
 "Module loading and executing is untested.",
 [BI + "mod.go", "pkg/mods/persist/mod_meta/mod_reg.go", CMD],
 [("loading of a tree", BI + "mod.go:loadLocalMods"), ("kinds of modules", "pkg/mods/persist/mod_meta/mod_reg.go:regMod"), ("executor by extension", CMD + ":executeFile")],
 ["what a script sees: its path, executor, directory and arguments", "api.cmd.list.all, api.cmd.type, api.cmd.path, api.cmd.meta, api.cmd.dir"])

prop("C38", "Guards let a sequence go on exactly when what they ask for holds",
 "env.assert.equal, env.assert.not-exists, env.add and env.update fail the sequence exactly when the asserted value differs, the key exists, the key exists already, or the key does not exist; then nothing after runs and the environment is unchanged by them. Otherwise they have exactly their stated effect and the sequence continues. The same holds inside flows.",
 ["programs", "histories"], "every history of settings and guards, at top level and in flows, in one or several runs",
 "The guards are untested; what they see depends on every earlier operation of the history.",
 [BI + "env.go", ENV],
 [("assertions", BI + "env.go:EnvAssertEqual/EnvAssertNotExists"), ("conditional settings", BI + "env.go:AddEnvKeyValue/UpdateEnvKeyValue")],
 ["exit status", "module invocations with the environment they see"])

prop("C39", "What is displayed never changes what a run does",
 "Commands that set how much and how a run is displayed (quiet, verbosity up and down, tips, width, style, colours, end line, the display.* environment keys in any sensible value) never change which commands run, in which order, with which arguments and (apart from the display settings themselves) environment, never change the exit status, and never make a run crash.",
 ["programs"], "every program of commands and flows interleaved with every display setting, against the same program without them",
 "The effect of a display setting on execution is a relation between two runs of any program; no test runs either.",
 [CMD, EX, "pkg/cli/display/", BI + "verb.go"],
 [("display settings", BI + "verb.go"), ("stack display around commands", "pkg/cli/display/executor.go:PrintCmdStack/PrintCmdResult"), ("quiet commands", CMD + ":execute")],
 ["module invocations with their arguments and environment", "exit status"])

prop("C40", "Timers tell the truth",
 "The begin, end and duration keys a command declares hold, in the session environment, the Unix second it began (for itself and whatever it calls), the second it ended and the whole seconds between, once it has ended successfully or its failure is tolerated; mark-time and timer.begin store the current second, timer.elapsed the seconds since the stored one. Nothing else is stored, a timer never fails a run, and commands sharing keys overwrite each other in the order these things happen.",
 ["programs", "schedules"], "every nesting of timed scripts, flows and flows with scripts, with builtin timers, repetitions, failures and any actual durations",
 "Which value a command sees depends on the whole history before it and on the real time; nothing tests timers.",
 [CMD, "pkg/mods/persist/mod_meta/mod_reg.go", BI + "misc.go"],
 [("automatic timers", CMD + ":Execute"), ("their declaration", "pkg/mods/persist/mod_meta/mod_reg.go:regAutoTimer"), ("timer commands", BI + "misc.go:MarkTime/TimerBegin/TimerElapsed")],
 ["environment seen by modules", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
