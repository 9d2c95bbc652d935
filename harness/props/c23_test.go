package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// Builtin commands; left out are those running any text as a shell command and
// those changing the internal settings for good.
var fuzzCmds = strings.Fields(`version help = == cmd cmd.full tags tag @ tag.with-usage tail-sub ~ ~~ ~~~ tail-sub.with-full-info
find find.with-usage find.with-full-info / // /// cmds cmds.with-usage cmds.with-full-info cmds.tree c.t desc desc.more desc.full desc.dependencies
desc.env-ops-check desc.flow desc.flow.more desc.flow.full - -- --- + ++ +++ hub h hub.clear hub.init hub.git-status hub.purge hub.purge.all hub.update
hub.add.pwd hub.enable hub.disable env e env.tree env.abbrs env.list env.save env.remove env.rm env.remove.prefix env.reset-session
env.clear-and-save env.who-write env.assert.equal env.assert.not-exists env.map env.set env.add env.update env.snapshot.list env.snapshot.remove
env.snapshot.save env.snapshot.load env.snapshot.load.non-exist flow f flow.list flow.save flow.set-help-str flow.rename flow.remove flow.load
flow.clear flow.mv.all.here flow.forest-mode flow.forest flow.replace flow.replace.all bg.wait bg.wait.last bg.wait.cmd bg.wait.after-main bg.wait.after-main.off
s sessions sessions.status sessions.error sessions.err.desc sessions.err.desc.full sessions.err.retry sessions.ok sessions.ok.desc.more sessions.running
sessions.running.desc sessions.running.desc.monitor sessions.desc sessions.desc.full sessions.desc.monitor sessions.last sessions.last.desc sessions.last.desc.more
sessions.last.desc.full sessions.last.retry s.retry sessions.rm sessions.rm.by-search sessions.rm.all sessions.keep
dbg.panic dbg.panic.cmd dbg.error dbg.interact dbg.interact.leave display.style display.set-width display.quiet q display.verbose v display.verbose.increase
v.- v.+ display.verbose.default break break.at break.at.end break.after break.list break.clear wait-execute wait-execute.after mark-time timer.begin timer.elapsed
sleep echo echo.ln sys.ext-executor join.new join.run noop dummy selftest repeat rpt hook.exit hook.error hook.done
api.cmd.type api.cmd.meta api.cmd.dir api.cmd.path api.cmd.list.all api.env.value e.v e.ls h.a.here`)

var fuzzSyms = strings.Fields(`: : : : :: ::: :- {} { } {a=1} {k.a=v} {k.a=} {=} {{} }} = == . .. ^ ^vm0 : ; , | ** [[ ]] [[x]] [[k.a]] [[*x*]] # -- -x --help -h ~ ~~ \ ' " $x % %delay=0 %delay=1 %err=ok %err= %env=apply %x=1 %delay=x @ @ready`)

var fuzzKVs = strings.Fields(`a=1 a= =1 a==1 a=b=c 1st-str=x key=k.a value=v key=k.b val= cmd=vm0 cmd=vm0:vm1 times=2 times=-1 times=x cmd-path=vf0 depth=0 depth=-1 depth=x unfold-trivial=-3
flow=vm0 src=vm0 dest=vf0 dest=[[x]] target=vm0 src=nosuch dest=vm0:vm1 duration=1 duration=x duration=-1s session-id=0 session-id=x find-str=x max-count=0 max-count=-1 ext=bash executor=bash ext=py
new-cmd-path=sv.a quiet-overwrite=true help-str=h snapshot-name=sn overwrite=x tag=selftest parallel=true begin-key=k.a write-to-key=k.b message=hi color=red color=999 color=x
k.a=1 {k.a=1 k.a=2} {k.a.b=1} {=x} {k= } vm0.a=1 display.width=1 [1..3] value=[1..3] value=[3..1] value=a,b value=[a..b] value=[1..3..0]`)

var fuzzVals = strings.Fields(`vm0 vm1 vf0 vf1 vrec vrec2 vdir vdir.vs vnosuch sv.a sv a b x y k.a k.b 0 1 2 3 -1 1s 00 1e3 0x1 ünï 値 a.b .a a. ..a tag @selftest x:y a/b true false on off nil`)

// Calls with the arguments they expect.
var fuzzCalls = []string{"help vm0", "help self", "cmd vf0", "cmd vdir.vs", "== vrec", "cmd.full vauto", "tag selftest", "@ x", "find vm", "/ v f", "/// vdir vs", "cmds vdir", "cmds.full path=vdir",
	"cmds src=builtin", "cmds.tree vdir 1", "cmds.tree env", "env k.", "env.ls sys", "env.set k.a v1", "env.set k.b 'a b'", "env.add k.c 1", "env.update k.c 2", "env.map k.a k.b", "env.rm k.a", "env.rm.prefix k",
	"env.reset-session", "env.reset-session k.a", "env.assert.equal k.a v1", "env.assert.not-exists k.z", "env.who-write k.a", "env.tree", "env.abbrs", "env.snapshot.save sn", "env.snapshot.save sn true", "env.snapshot.load sn", "env.snapshot.load.non-exist sn",
	"env.snapshot.rm sn", "env.snapshot.ls", "flow.save sv.a", "flow.save sv.b quiet-overwrite=true", "flow.save sv.c help-str=h unfold-trivial=true", "flow.save sv.d auto-args=*", "flow.save sv.e pack-subflow=true", "sv.a", "sv.b", "sv.c", "flow.set-help-str sv.a hh", "flow.rename sv.a sv.f", "flow.rm sv.a",
	"flow.load .", "flow.clear", "flow.list sv", "flow.replace vm0 noop", "flow.replace.all vm0 'echo hi'", "flow.replace.all noop vf0", "flow.replace.all echo vrec", "bg.wait.cmd vm0", "sessions.last", "sessions.last.desc.full",
	"sessions vm0", "sessions max-count=1", "s.err", "s.ok", "s.retry", "s.last.retry", "sessions.rm.by-search vm0", "sessions.keep 10h", "repeat vm0 2", "repeat 'vf0 : noop' 2", "repeat vrec 2", "repeat cmd=noop times=0", "join.new k.a [1..3]", "join.new k.b x,y,z", "join.run vdir.vs",
	"join.run vf0", "selftest", "selftest parallel=true", "hook.exit noop", "hook.error vm0", "hook.done 'echo hi'", "hook.exit dbg.error", "hook.done vnosuch", "api.cmd.type vf0", "api.cmd.meta vm0", "api.cmd.dir vdir", "api.cmd.path vdir.vs", "api.env.value k.a", "echo '[[k.a]]'", "echo hi 1", "echo hi red", "echo.ln",
	"mark-time k.t", "timer.begin k.t", "timer.elapsed k.t k.e", "wait-execute 0", "break.at vm0", "break.at vm0,vf0", "break.at.end", "break.after vm0", "break.clear", "break", "vdir.vs a=2", "vdir.vs 2 pw", "vdir.vs %delay=0", "vf0 %delay=0", "noop %delay=0", "dbg.error %err=ok", "dbg.panic %err=ok", "dbg.panic %delay=0", "dbg.panic.cmd %err=ok",
	"vreq %err=ok", "vtmpl x=1", "vtmpl x=1 cmd=vf0", "vauto a=5 x=3 cmd=vm0", "vauto 5", "{k.b=1} vreq", "{k.a=1}vdir.vs", "desc.more", "desc.flow.full 3", "+ 1", "- depth=2", "flow.forest-mode", "hub.enable m", "hub.disable nosuch", "display.set-width 40", "display.style heavy", "sys.ext-executor py python3", "tail-sub vdir", "sleep 0", "bg.wait.after-main.off"}

var fuzzDisplay = strings.Fields(`{display.width=1} {display.width=0} {display.width=-5} {display.width=3} {display.width=99999} {display.height=1} {display.height=-1} {display.max-cmd-cnt=0} {display.max-cmd-cnt=-1} {display.max-cmd-cnt=1}
{display.env.layer=true} {display.env.sys=true} {display.env.default=true} {display.meow=true} {display.stack=false} {display.one-cmd=true} {display.executor.end=true} {display.style=x} {display.style=} {display.style=ascii} {display.style=heavy} {display.color=true} {display.mod.quiet=true} {display.sensitive=true} {display.env=false} {display.width=x} {display.max-cmd-cnt=x} {display.completion.hidden=true} {display.tip=false}`)

func fuzzWord(c *tk.C) string {
	switch k := c.Int("word", 0, 99); {
	case k < 30:
		return tk.Pick(c, "builtin", fuzzCmds...)
	case k < 45:
		return tk.Pick(c, "val", fuzzVals...)
	case k < 70:
		return tk.Pick(c, "sym", fuzzSyms...)
	case k < 85:
		return tk.Pick(c, "kv", fuzzKVs...)
	case k < 90:
		return tk.Pick(c, "display", fuzzDisplay...)
	case k < 95:
		return c.Str("junk", "ab.:={}^%@ ,|*[]#-~\t\n\\'\"$é値\x01", 0, 8)
	default:
		return tk.Pick(c, "x", "vm0 a=1 : vm1", "vm0:vm1", "{k.a=1}vm0", "vm0{a=1}", "vf0 : - ", "", " ", strings.Repeat("vm0:", 40), strings.Repeat("{", 30), strings.Repeat("a", 3000), "vdir.vs.", ".vdir", "vm0 . a", "vf0 :: -")
	}
}

// A line made of calls with the arguments they expect or nearly so.
func fuzzLine(c *tk.C, cmds []string) (words []string) {
	if c.Chance("free", 20) {
		for i, n := 0, c.Int("words", 1, 9); i < n; i++ {
			words = append(words, fuzzWord(c))
		}
		return words
	}
	for i, n := 0, c.Int("calls", 1, 4); i < n; i++ {
		if i > 0 {
			words = append(words, tk.Pick(c, "sep", ":", ":", ":", ":", ":", ":", ":", "::"))
		}
		if c.Chance("own", 7) {
			words = append(words, tk.Pick(c, "ownset", append([]string{"{k.a=1}", "{k.b=x y}"}, fuzzDisplay...)...))
		}
		if c.Chance("fits", 40) {
			words = append(words, tk.Pick(c, "call", fuzzCalls...))
			continue
		}
		if c.Chance("world", 85) {
			words = append(words, tk.Pick(c, "cmd", cmds...))
		} else {
			words = append(words, tk.Pick(c, "builtin", fuzzCmds...))
		}
		for j, m := 0, tk.Pick(c, "args", 0, 0, 0, 0, 0, 0, 1, 2); j < m; j++ {
			if c.Bool("kv") {
				words = append(words, tk.Pick(c, "kv", fuzzKVs...))
			} else {
				words = append(words, tk.Pick(c, "val", fuzzVals...))
			}
		}
	}
	for i, n := 0, tk.Pick(c, "mutations", 0, 0, 0, 0, 0, 0, 0, 1, 1, 2); i < n; i++ {
		k := c.Int("at", 0, len(words)-1)
		switch c.Int("how", 0, 3) {
		case 0:
			words[k] = fuzzWord(c)
		case 1:
			words = append(append(append([]string{}, words[:k]...), fuzzWord(c)), words[k:]...)
		case 2:
			words = append(append([]string{}, words[:k]...), words[k+1:]...)
		default:
			words = append(words, words[k])
		}
		if len(words) == 0 {
			words = []string{fuzzWord(c)}
		}
	}
	return words
}

// The internal settings and waiting times that would only tell what was asked for.
func fuzzSkip(words []string) bool {
	s := strings.Join(words, " ")
	for _, x := range []string{"sys.panic", "sys.bootstrap", "strs."} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return len(s) > 100000
}

func shellWords(s string) (r []string) {
	for i, p := range strings.Split(s, "'") {
		if i%2 == 1 {
			r = append(r, p)
		} else {
			r = append(r, strings.Fields(p)...)
		}
	}
	return r
}

func TestC23(t *testing.T) {
	tk.Prop(t, "lines", 3000, 8,
		"one to three command lines in a row: calls of random modules, flows (nested, with templates, calling themselves), directories and ~150 builtins with fitting, wrong or missing arguments and settings (odd display settings included), mutated by inserting, dropping, replacing and repeating words, or entirely free words (symbols, junk, very long ones), with some lines of input; every process must end by itself within a minute with exit code 0, 1, 254 or 255 and without an internal runtime error, and afterwards 'echo' must work; non-trivial when a line has several words and is not refused by the parser",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 2, MaxFlows: 2, MaxSeq: 3, Script: tk.Script{EnvPref: "k."}})
			b := w.B
			b.Mod("vdir.vs", tk.Script{}, "[args]\na|aa = 1\npassword = s3\n[arg2env]\nk.a = a\n[env]\nk.b = may-write\n")
			b.Mod("vreq", tk.Script{}, "[env]\nk.b = read\n")
			b.Flow("vrec", "flow = vrec")
			b.Flow("vrec2", "[flow/]\n{k.a=2} noop\nvdir.vs : vrec3\n[/flow]\n")
			b.Flow("vrec3", "flow = vrec2 : vrec2")
			b.Flow("vtmpl", "flow = vdir.vs a='[[x]]' : [[cmd]]\n[args]\nx = \ncmd = noop\n")
			b.Flow("vauto", "flow = vdir.vs : vtmpl\nargs.auto = *\n")
			cmds := []string{"vdir", "vdir.vs", "vreq", "vrec", "vrec2", "vtmpl", "vtmpl x=1 cmd=vtmpl", "vauto", "vauto a=3"}
			for _, x := range w.Cmds {
				cmds = append(cmds, strings.Fields(x.Path)[0])
			}
			b.Timeout = 60e9
			spoilt := false
			for i, n := 0, c.Int("lines", 1, 3); i < n; i++ {
				var words []string
				for _, x := range fuzzLine(c, cmds) {
					if contains(fuzzCalls, x) || contains(cmds, x) {
						words = append(words, shellWords(x)...)
					} else {
						words = append(words, x)
					}
				}
				if fuzzSkip(words) {
					continue
				}
				all := strings.Join(words, " ")
				// What someone keeps for all the following runs is theirs.
				for _, x := range []string{"env.save", "clear-and-save", "hook.", "display.", "sys.", "snap"} {
					spoilt = spoilt || strings.Contains(all, x)
				}
				stdin := ""
				if c.Chance("stdin", 30) {
					stdin = tk.Pick(c, "input", "y\n", "n\n", "\n\n", "c\nc\nc\n", "i\nvm0\nexit\nq\n", "q\n", "s\ns\nd\nx\n", "env\nvm0 :\nq\n", "y", "\x04")
				}
				c.Desc("%q stdin %q", words, stdin)
				r := b.RunOpt(tk.Opt{Stdin: stdin}, words...)
				if len(words) > 1 && !strings.Contains(r.All(), "unknow input") {
					c.NonTrivial(true)
				}
				c.Label(fmt.Sprint("exit ", r.Code))
				if s := tk.RuntimeCrash(r); s != "" {
					c.Violate("%q: internal error: %s", words, s)
				}
				c.Check(r.Code == 0 || r.Code == 1 || r.Code == 254 || r.Code == 255, "%q exits with %d", words, r.Code)
			}
			if spoilt {
				return
			}
			r := b.Run("echo", "good")
			c.Check(r.Code == 0 && strings.Contains(r.Out, "good"), "afterwards 'echo good' exits with %d and prints %q", r.Code, r.Out)
		})
}
