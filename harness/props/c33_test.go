package props

import (
	"os"
	"os/exec"
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

// tailCmd is a command that takes input from the tail.
type tailCmd struct {
	forms  []string // names
	arg    string   // argument name, "" for keywords
	inputs string   // kind of input
	multi  bool     // takes several inputs
	prio   bool     // moves to the front, also with a single ':'
}

var tailCmds = []tailCmd{
	{[]string{"find", "/"}, "", "word", true, true},
	{[]string{"find.more", "//", "find.m"}, "", "word", true, true},
	{[]string{"find.full", "///"}, "", "word", true, true},
	{[]string{"tag", "@"}, "", "tag", true, false},
	{[]string{"tag.more", "tag.full"}, "", "tag", true, false},
	{[]string{"cmds", "cmds.more", "cmds.full"}, "find-str", "word", false, true},
	{[]string{"cmd", "cmd.full"}, "cmd-path", "cmd", false, true},
	{[]string{"=", "=="}, "cmd-path", "cmd", false, true},
	{[]string{"cmds.tree"}, "cmd-path", "cmd", false, false},
	{[]string{"env", "env.ls", "e.ls"}, "", "key", true, false},
	{[]string{"env.who-write", "env.ww"}, "key", "key", false, false},
	{[]string{"env.rm", "e.delete"}, "key", "key", false, false},
	{[]string{"hub", "h"}, "", "repo", true, false},
	{[]string{"hub.add.local-dir", "hub.add.local"}, "path", "dir", false, false},
	{[]string{"hub.enable-repo", "hub.en"}, "find-str", "repo", false, false},
	{[]string{"hub.disable-repo", "hub.dis"}, "find-str", "repo", false, false},
	{[]string{"hub.purge"}, "find-str", "repo", false, false},
	{[]string{"flow", "flow.list", "f.ls"}, "", "flow", true, false},
	{[]string{"flow.remove", "f.rm"}, "cmd-path", "flow", false, false},
	{[]string{"flow.load"}, "path", "dir", false, false},
	{[]string{"sessions", "sessions.error", "sessions.done", "sessions.running"}, "", "sess", true, false},
	{[]string{"sessions.status"}, "session-id", "id", false, false},
	{[]string{"sessions.desc", "sessions.desc.more", "sessions.desc.full"}, "session-id", "id", false, false},
	{[]string{"sessions.remove", "s.rm"}, "session-id", "id", false, false},
	{[]string{"sessions.remove.by-search"}, "", "sess", true, false},
}

var agoRe = regexp.MustCompile(`([0-9]+[hms])+(\+\?)? ago|elapsed [0-9hms.]+(\+\?)?|sys.session.id.*`)

// a sequence saved from behind the command starts with an empty command
var frontColon = regexp.MustCompile(`(?m)^( +): `)

func TestC33(t *testing.T) {
	box := func(c *tk.C) *tk.Box {
		b := c.NewBox()
		b.UseMods(b.Dir + "/other")
		b.Saved("display.executor=false", "k.a=1", "k.ab=2", "v.k=3", "va=4")
		b.Mod("va", tk.Script{}, "help = alpha one\ntags = t1 t2\n[args]\nx = 1\n[arg2env]\nk.a = x\n")
		b.Mod("va.sub", tk.Script{}, "help = below alpha\nabbr = sb\n")
		b.Mod("vbad", tk.Script{Exit: 1}, "help = failing\n")
		b.Mod("vzz", tk.Script{}, "help = zeta one\ntags = t2\n[val2env]\nk.ab = q\n")
		b.ModIn("other", "vo", tk.Script{}, "help = other\nabbr = vx\n")
		b.Flow("vfl", "flow = va : vzz")
		b.File("new1/vn.tiflow", "flow = noop\n")
		b.File("new2/vm.tiflow", "flow = noop\n")
		run := func(code int, words ...string) {
			r := b.RunOpt(tk.Opt{NoRecord: true}, words...)
			c.Check(r.Code == code, "setup %q exits with %d", words, r.Code)
		}
		for _, f := range []string{"va", "va.fl", "vsaved.two"} {
			run(0, "echo", "message="+f, ":", "noop", ":", "flow.save", "new-cmd-path=saved."+f, "help-str=help of "+f)
		}
		for _, d := range []string{"off1", "off2"} {
			b.File(d+"/v"+d+".tiflow", "flow = noop\n")
			run(0, "hub.add.local", b.Dir+"/"+d)
			run(0, "hub.disable", b.Dir+"/"+d)
		}
		return b
	}
	sessions := func(c *tk.C, b *tk.Box) {
		b.RunOpt(tk.Opt{NoRecord: true}, "va", ":", "vzz")
		b.RunOpt(tk.Opt{NoRecord: true}, "va", "x=2", ":", "vbad")
		b.RunOpt(tk.Opt{NoRecord: true}, "va.sub", ":", "va.sub")
	}
	copyTo := func(b *tk.Box, from, to string) {
		os.RemoveAll(to)
		if out, err := exec.Command("cp", "-a", from, to).CombinedOutput(); err != nil {
			tk.Infra("cp: %v %s", err, out)
		}
	}
	state := func(b *tk.Box, old []string) map[string]string {
		m := dirSnap(b.Data, b.Mods, b.Dir+"/other", b.Dir+"/new1", b.Dir+"/new2", b.Dir+"/off1", b.Dir+"/off2")
		for p := range m {
			if rel := strings.TrimPrefix(p, b.Data+"/sessions/"); rel != p {
				if !contains(old, strings.Split(rel, "/")[0]) {
					delete(m, p)
				}
			}
		}
		delete(m, b.Data+"/sessions")
		for p, v := range m {
			m[p] = strings.ReplaceAll(v, "\nflow = : ", "\nflow = ")
		}
		return m
	}
	tk.Prop(t, "input", 420, 8,
		"each command that takes its input from the tail (search, tags, listings and descriptions of commands, environment, hub, flows, sessions; adding, enabling, disabling, purging, removing) with 1-3 inputs of its kind or other ones (existing, partial and unknown names, abbreviations, keys, paths, patterns with dashes, dots and slashes), run as 'input :command' (where it moves to the front) or 'input ::command' and as 'command input' or 'command arg=input' on a copy of the same data; output (but for times), exit status and all files must be the same; non-trivial when the input matches something or a file is changed",
		func(c *tk.C) {
			b := box(c)
			x := tk.Pick(c, "cmd", tailCmds...)
			if x.inputs == "id" || x.inputs == "sess" {
				sessions(c, b)
			}
			old := b.Sessions()
			name := tk.Pick(c, "form", x.forms...)
			var pool []string
			switch x.inputs {
			case "word":
				pool = []string{"va", "alpha", "v", "one", "zeta", "vo", "k.a", "t1", "hub", "e", "sessions", "write", "flow.save", "saved.va", "@t2", "other"}
			case "tag":
				pool = []string{"t1", "t2", "t", "va", "@t1"}
			case "cmd":
				pool = []string{"va", "va.sub", "va.sb", "vo", "vx", "vfl", "hub", "h", "hub.add", "saved.va", "saved", "env.set", "e.ls", "vzz", "noop"}
			case "key":
				pool = []string{"k.a", "k.ab", "k", "v.k", "va", "sys.version", "display", "k.x"}
			case "repo":
				pool = []string{b.Dir + "/off1", b.Dir + "/off2", "off1", "off", "on", "disabled", b.Mods, b.Dir + "/other", "mods", "other", "local"}
			case "dir":
				pool = []string{b.Dir + "/new1", b.Dir + "/new2", "../new1", b.Dir + "/off1", b.Mods, b.Dir + "/box"}
			case "flow":
				pool = []string{"saved.va", "saved.va.fl", "saved.vsaved.two", "saved", "two", "va", "vfl", "help", "noop"}
			case "id":
				pool = append([]string{}, old...)
			case "sess":
				pool = append([]string{"va", "vzz", "vbad", "va.sub", "x", "ticat", "2"}, old...)
			}
			in := func() string {
				w := tk.Pick(c, "input", pool...)
				switch tk.Pick(c, "change", "", "", "", "", "", "cut", "other") {
				case "cut":
					if n := len(w); n > 2 {
						w = w[c.Int("lo", 0, 1):c.Int("hi", n-1, n)]
					}
				case "other":
					w = tk.Pick(c, "otherword", "nosuch", "no-such.x", "x1/y", "123", "a_b", "nosuch.x.y", "é")
				}
				if w = strings.Trim(w, "."); w == "" {
					w = "v"
				}
				return w
			}
			ins := []string{in()}
			if x.multi {
				for len(ins) < 3 && c.Chance("more", 25) {
					ins = append(ins, in())
				}
			}
			var tail, plain []string
			split := 0
			if x.multi && len(ins) > 1 && c.Chance("split", 30) {
				split = 1 // some given as arguments, which come first
			}
			sep := "::"
			if x.prio && c.Chance("single", 50) {
				sep = ":"
			}
			tail = append(tail, ins[split:]...)
			switch tk.Pick(c, "sepform", "joined", "joined", "apart", "after") {
			case "joined":
				tail = append(tail, sep+name)
			case "apart":
				tail = append(tail, sep, name)
			case "after":
				tail[len(tail)-1] += sep
				tail = append(tail, name)
			}
			tail = append(tail, ins[:split]...)
			plain = append(plain, name)
			if x.arg != "" && (x.forms[0] == "cmds" || c.Chance("named", 50)) {
				plain = append(plain, x.arg+"="+ins[0])
			} else {
				plain = append(plain, ins...)
			}
			c.Desc("%q / %q", tail, plain)
			backup := b.Dir + "/backup"
			copyTo(b, b.Data, backup)
			before := state(b, old)
			r1 := b.Run(tail...)
			s1 := state(b, old)
			os.RemoveAll(b.Data)
			copyTo(b, backup, b.Data)
			r2 := b.Run(plain...)
			s2 := state(b, old)
			c.Check((r1.Code == 0) == (r2.Code == 0), "%q exits with %d, %q with %d", tail, r1.Code, plain, r2.Code)
			c.Check(len(r1.Calls) == 0 && len(r2.Calls) == 0, "modules are run")
			c.Check(snapDiff(s1, s2) == "", "after %q compared with after %q: %s", tail, plain, snapDiff(s1, s2))
			if r1.Code == 0 {
				o1, o2 := agoRe.ReplaceAllString(r1.Out, "AGO"), agoRe.ReplaceAllString(r2.Out, "AGO")
				d := lineDiff(o1, o2)
				c.Check(d == "", "%q and %q print different things: %s", tail, plain, d)
			}
			if snapDiff(before, s1) != "" {
				c.NonTrivial(true)
				c.Label("changes")
			}
			c.NonTrivial(r1.Code == 0 && !strings.Contains(r1.Out, "no commands matched") && !strings.Contains(r1.Out, "can't find"))
			c.Label(x.forms[0])
		})
	tk.Prop(t, "sequence", 150, 6,
		"commands describing or saving a sequence (desc and its forms, dependencies, environment check, flow.save), with arguments, behind a sequence of 1-3 commands (':' or '::') and in front of it; output, exit status and files must be the same and no module is run; non-trivial for sequences of two or more",
		func(c *tk.C) {
			b := box(c)
			old := b.Sessions()
			var seq []string
			n := c.Int("len", 1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					seq = append(seq, ":")
				}
				seq = append(seq, strings.Fields(tk.Pick(c, "cmd", "va", "va x=2", "va.sub", "va.sb", "vfl", "vzz", "vbad", "noop", "echo a", "env.set key=k.z value=1", "saved.va", "vo"))...)
			}
			cmd := strings.Fields(tk.Pick(c, "tailcmd", "desc", "-", "--", "---", "desc.more", "+", "++", "+++", "desc.full", "desc.flow", "desc.flow.more", "desc.flow.full", "desc.dependencies", "desc.os", "desc.env-ops-check", "desc depth=1", "desc.more unfold-trivial=2", "flow.save new-cmd-path=vnew.x", "flow.save cmd=vnew.x help-str=hh"))
			var tail []string
			if c.Chance("double", 50) && (n == 1 || c.Chance("double-many", 50)) {
				tail = append(append(tail, seq...), "::"+cmd[0])
			} else {
				tail = append(append(tail, seq...), ":", cmd[0])
			}
			tail = append(tail, cmd[1:]...)
			front := append(append(append([]string{}, cmd...), ":"), seq...)
			c.Desc("%q / %q", tail, front)
			backup := b.Dir + "/backup"
			copyTo(b, b.Data, backup)
			r1 := b.Run(tail...)
			s1 := state(b, old)
			os.RemoveAll(b.Data)
			copyTo(b, backup, b.Data)
			r2 := b.Run(front...)
			s2 := state(b, old)
			c.Check((r1.Code == 0) == (r2.Code == 0), "%q exits with %d, %q with %d", tail, r1.Code, front, r2.Code)
			c.Check(len(r1.Calls) == 0 && len(r2.Calls) == 0, "modules are run")
			c.Check(snapDiff(s1, s2) == "", "after %q compared with after %q: %s", tail, front, snapDiff(s1, s2))
			d := lineDiff(r1.Out, frontColon.ReplaceAllString(r2.Out, "$1"))
			c.Check(d == "", "%q and %q print different things: %s", tail, front, d)
			c.NonTrivial(n > 1 && r1.Code == 0)
			c.Label(cmd[0])
		})
	tk.Prop(t, "refused", 250, 8,
		"a command that is not listed as (tail-mode) - scripts, flows, saved flows and any builtin command - with arguments behind '::' and 1-3 commands or unknown words in front, and a listed one that does not move to the front behind several commands; it must be refused with a failure, run no module and change no file; without anything in front or behind, '::' must not matter; non-trivial always",
		func(c *tk.C) {
			b := box(c)
			old := b.Sessions()
			no := builtinsWithout(c, b)
			x := tk.Pick(c, "cmd", "va", "vbad", "vfl", "saved.va", "va.sub", "builtin", "builtin", "builtin", "listed")
			args := []string{}
			switch x {
			case "builtin":
				x = tk.Pick(c, "builtin", no...)
			case "listed":
				x = tk.Pick(c, "listed", "hub", "flow.remove", "env.rm", "hub.disable", "sessions.remove", "hub.purge", "tag", "env.ls")
				args = []string{tk.Pick(c, "arg", "saved.va", "k.a", "off1")}
			case "va":
				if c.Chance("arg", 50) {
					args = []string{"x=3"}
				}
			}
			n := c.Int("n", 1, 3)
			if len(args) == 1 && x != "va" {
				n = c.Int("n2", 2, 3)
			}
			var words []string
			for i := 0; i < n; i++ {
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, strings.Fields(tk.Pick(c, "front", "va", "vzz", "va x=5", "env.set key=k.a value=9", "noop", "vfl", "nosuch", "env.save", "flow.remove saved.va"))...)
			}
			if x == "va" && c.Chance("nothing", 30) {
				// no command in front: not a tail-mode call
				front := []string{"::", x}
				if c.Chance("behind", 50) {
					front = []string{x, "::"}
					if c.Chance("two", 50) {
						front = []string{"vzz", ":", x, "::"}
					}
				}
				r := b.Run(front...)
				c.Desc("%q", front)
				c.Check(r.Code == 0 && len(r.Calls) == strings.Count(strings.Join(front, " "), "v"), "%q exits with %d, runs %v", front, r.Code, tk.CallStrs(r.Calls))
				c.NonTrivial(true)
				c.Label("nothing")
				return
			}
			words = append(append(words, "::"+x), args...)
			c.Desc("%q", words)
			before := state(b, old)
			r := b.Run(words...)
			c.Check(r.Code != 0, "%q exits with 0", words)
			c.Check(len(r.Calls) == 0, "%q runs %v", words, tk.CallStrs(r.Calls))
			d := snapDiff(before, state(b, old))
			c.Check(d == "", "%q is refused, but %s", words, d)
			c.Check(tk.RuntimeCrash(r) == "" && !strings.Contains(r.All(), "genLogFilePath"), "%q: internal error", words)
			c.NonTrivial(true)
		})
}

// builtinsWithout lists the builtin commands that neither take input from the
// tail nor move to the front.
func builtinsWithout(c *tk.C, b *tk.Box) (r []string) {
	out := b.RunOpt(tk.Opt{NoRecord: true}, "cmds.full", "source=builtin").Out
	cur, ty := "", ""
	flush := func() {
		if ty != "" && !strings.Contains(ty, "(tail-mode)") && !strings.Contains(ty, "(priority)") && plainPath.MatchString(cur) {
			r = append(r, cur)
		}
		ty = ""
	}
	ls := strings.Split(out, "\n")
	for i, l := range ls {
		if m := listedRe.FindStringSubmatch(l); m != nil && !strings.HasPrefix(l, " ") {
			flush()
			cur = m[1]
		} else if strings.TrimSpace(l) == "- cmd-type:" && i+1 < len(ls) {
			ty = ls[i+1]
		}
	}
	flush()
	c.Check(len(r) > 80, "only %d builtin commands without tail mode", len(r))
	return
}

func lineDiff(a, b string) string {
	if a == b {
		return ""
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		xl, yl := "<end>", "<end>"
		if i < len(x) {
			xl = x[i]
		}
		if i < len(y) {
			yl = y[i]
		}
		if xl != yl {
			return "line " + xl + " / " + yl
		}
	}
	return "?"
}
