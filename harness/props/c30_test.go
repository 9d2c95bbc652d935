package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

// progCase generates a program, runs it and compares.
func progCase(c *tk.C, inner int) *Progs {
	b := c.NewBox()
	b.UseMods()
	saved := []string{"display.executor=false"}
	p := NewProgs(c, b, inner, 9)
	for _, k := range tk.Subset(c, "saved", pKeys) {
		saved = append(saved, k+"=s"+k[2:])
		p.env[k] = "s" + k[2:]
	}
	if c.Chance("saved-scoped", 20) {
		saved = append(saved, pKeyScoped+"=sd")
		p.env[pKeyScoped] = "sd"
	}
	if c.Chance("shown", 10) {
		saved = saved[1:]
	}
	sort.Strings(saved)
	b.Saved(saved...)
	seq := p.Seq(0, 2, 6)
	words := pWords(seq)
	c.Desc("saved %q; ticat %q", saved, words)
	ok := p.Run(seq)
	if p.cost > 120 {
		c.Label("too-long")
		return p
	}
	r := b.RunOpt(tk.Opt{Timeout: 60 * time.Second}, words...)
	c.Check(p.Diff(r.Calls) == "", "%s", p.Diff(r.Calls))
	c.Check((r.Code == 0) == ok, "exits with %d, expected success to be %v", r.Code, ok)
	c.Check(tk.RuntimeCrash(r) == "" && !strings.Contains(r.All(), "should never happen"), "crashed: %s", tk.RuntimeCrash(r))
	n := len(b.Sessions())
	c.Check(n <= 1, "%d sessions were made for one run", n)
	for k := range p.Stat {
		c.Label(k)
	}
	return p
}

func TestC30(t *testing.T) {
	tk.Prop(t, "programs", 1000, 8,
		"random programs: scripts, argument mappings, builtins, flows, flows with scripts, repetitions and some modules calling ticat again, nested up to 3 levels and reused, changing and deleting session and saved values, failing in several ways (scripts with and without quiet-error, builtins), with tolerance marks at any place and forest mode at any position of any sequence; the calls with their arguments and the environment each one sees, and the exit status must be the modelled ones; non-trivial when a failure is tolerated, a forest change is discarded or a command repeated",
		func(c *tk.C) {
			p := progCase(c, 6)
			c.NonTrivial(p.Stat["tolerated"]+p.Stat["discarded"]+p.Stat["repeated"] > 0)
		})
	tk.Prop(t, "repeat", 120, 5,
		"repeat with a count (also large, zero, negative, no number, missing), a command with awkward arguments or a missing or unknown command, failing at some run; it must run exactly that often with exactly the arguments and stop at the first failure, an invalid request must be refused; non-trivial for counts above 1 or invalid ones",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			b.Mod("vt", tk.Script{Count: true}, "[args]\na = d\nb = e\n")
			b.Mod("vlog", tk.Script{}, "")
			b.Flow("vtf", "flow = vlog : vt a=1")
			kind := tk.Pick(c, "kind", "plain", "plain", "args", "args", "flow", "bad-times", "bad-cmd")
			times := c.Int("times", 1, 5)
			if c.Chance("many", 10) {
				times = c.Int("times-many", 20, 60)
			}
			tw := fmt.Sprint(times)
			cmd := "vt"
			one := []string{tk.Call{Name: "vt", Args: []string{"d", "e"}}.String()}
			bad := false
			switch kind {
			case "args":
				v := c.Str("v", "ab0-_/@+,.", 1, 5)
				v = "v" + v
				cmd = tk.Pick(c, "form", "vt a="+v, "vt "+v, "vt a='"+v+" x'", "vt a = "+v+" b = 2")
				a := []string{v, "e"}
				if strings.Contains(cmd, " x'") {
					a[0] = v + " x"
				} else if strings.Contains(cmd, "b = 2") {
					a[1] = "2"
				}
				one = []string{tk.Call{Name: "vt", Args: a}.String()}
			case "flow":
				cmd = "vtf"
				one = []string{tk.Call{Name: "vlog"}.String(), tk.Call{Name: "vt", Args: []string{"1", "e"}}.String()}
			case "bad-times":
				tw, bad = tk.Pick(c, "bt", "0", "-1", "x", "1.5", "1x"), true
			case "bad-cmd":
				cmd, bad = tk.Pick(c, "bc", "nosuch", "vt nosucharg=1", "nosuch.x"), true
			}
			w := []string{tk.Pick(c, "name", "repeat", "rpt"), "cmd=" + cmd}
			if tw != "1" || c.Bool("explicit") {
				w = append(w, tk.Pick(c, "tname", "times=", "t=")+tw)
			}
			fail := 0
			if c.Chance("fail", 30) {
				fail = c.Int("failat", 1, times+1)
				b.FailAt(fail, "exit 2")
			}
			after := c.Bool("after")
			if after {
				w = append(w, ":", "vlog")
			}
			var expect []string
			ok := !bad
			for i := 1; ok && i <= times; i++ {
				expect = append(expect, one...)
				ok = i != fail
			}
			if ok && after {
				expect = append(expect, tk.Call{Name: "vlog"}.String())
			}
			c.Desc("%q fail at %d", w, fail)
			r := b.Run(w...)
			got := tk.CallStrs(r.Calls)
			c.Check(tk.Eq(got, expect), "ran %s, expected %s", clipVal2(got), clipVal2(expect))
			c.Check((r.Code == 0) == ok, "exits with %d, expected success to be %v", r.Code, ok)
			c.NonTrivial(times > 1 || bad)
		})
	tk.Prop(t, "nested", 240, 6,
		"repetitions of flows that themselves repeat flows (2-4 levels), every one and every script call tolerant or not, some flows shown packed, the outermost one possibly in the background, with a script failing at a random call; the calls must be exactly the modelled ones and so must the success: what one repetition is given (tolerance, delay) is not for those inside it; non-trivial when the failing call is reached and some level tolerates",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			shown := tk.Pick(c, "shown", "true", "false")
			b.Saved("display.executor=" + shown)
			levels := c.Int("levels", 2, 4)
			type step struct {
				mod  string // or the next level, repeated
				n    int
				tol  bool
				word string
			}
			flows := make([][]step, levels)
			for i := range flows {
				add := func(mod string, n int) {
					st := step{mod: mod, n: n, tol: c.Chance("tol", 40)}
					st.word = mod
					if n > 0 {
						to := fmt.Sprint("vl", i+1)
						if i == levels-1 {
							to = "vlast"
						}
						if c.Chance("tolin", 15) {
							to += " %err=ok"
							st.mod = "tol"
						}
						st.word = tk.Pick(c, "name", "repeat", "rpt") + " 'cmd=" + to + "' times=" + fmt.Sprint(n)
					}
					if st.tol {
						st.word += " %err=ok"
					}
					flows[i] = append(flows[i], st)
				}
				if c.Chance("before", 40) {
					add(fmt.Sprint("vb", i), 0)
				}
				add("", c.Int("times", 1, 3))
				if c.Chance("after", 70) {
					add(fmt.Sprint("va", i), 0)
				}
				var ws []string
				for _, st := range flows[i] {
					ws = append(ws, st.word)
				}
				b.Flow(fmt.Sprint("vl", i), "flow = "+strings.Join(ws, " : ")+tk.Pick(c, "pack", "", "\npack-subflow = true"))
				b.Mod(fmt.Sprint("vb", i), tk.Script{Count: true}, "")
				b.Mod(fmt.Sprint("va", i), tk.Script{Count: true}, "")
			}
			b.Mod("vlast", tk.Script{Count: true}, "")
			fail := c.Int("failat", 1, 12)
			b.FailAt(fail, "exit 2")
			var want []string
			call := func(m string) bool {
				want = append(want, m)
				return len(want) != fail
			}
			reached := func() bool { return len(want) >= fail }
			var run func(i int) bool
			run = func(i int) bool {
				if i == levels {
					return call("vlast")
				}
				for _, st := range flows[i] {
					ok := true
					if st.n == 0 {
						ok = call(st.mod)
					}
					for k := 0; ok && k < st.n; k++ {
						ok = run(i+1) || st.mod == "tol"
					}
					if !ok && !st.tol {
						return false
					}
				}
				return true
			}
			n := c.Int("outer", 1, 3)
			tol := c.Chance("outertol", 50)
			bg := c.Chance("bg", 25)
			words := []string{"repeat", "cmd=vl0", "times=" + fmt.Sprint(n)}
			if tol {
				words = append(words, "%err=ok")
			}
			if bg {
				words = append(words, "%delay=0")
			}
			words = append(words, ":", "vend")
			b.Mod("vend", tk.Script{EnvPref: "display.executor"}, "")
			ok := true
			for k := 0; ok && k < n; k++ {
				ok = run(0)
			}
			ok = ok || tol
			for i, f := range flows {
				c.Desc("level %d: %+v", i, f)
			}
			c.Desc("%q fail at %d", words, fail)
			r := b.RunOpt(tk.Opt{Timeout: 60 * time.Second}, words...)
			var got []string
			for _, k := range r.Calls {
				if k.Name == "vend" {
					c.Check(len(k.Env) == 0 || k.Env["display.executor"] == shown, "the command after the repetition sees %v, saved was %s", k.Env, shown)
					continue
				}
				got = append(got, k.Name)
			}
			c.Check(tk.Eq(got, want), "ran %q, expected %q", got, want)
			c.Check((r.Code == 0) == ok, "exits with %d, expected success to be %v: %q", r.Code, ok, clipVal(r.All()))
			anyTol := tol
			for _, f := range flows {
				for _, st := range f {
					anyTol = anyTol || st.tol
				}
			}
			c.NonTrivial(reached() && anyTol)
		})
	tk.Prop(t, "selftest", 250, 6,
		"a random command tree from several sources (scripts, flows, abbreviations, parents with children, several tags) of which some carry the tag asked for, run by selftest with and without tag, source and filter words, parallel or not, with a command that fails now and then; exactly the matching commands must be run once each, each from the environment before, a failure must stop the others (not the parallel ones) and be reported; non-trivial with 2 or more matching ones",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods(b.Dir + "/other")
			b.Saved("display.executor=false", "k.s=s0")
			type tst struct {
				path, name, src string
				tags            []string
				flow            bool
			}
			var all []tst
			used := map[string]bool{}
			for i, n := 0, c.Int("cmds", 2, 8); i < n; i++ {
				path := "va" + fmt.Sprint(i)
				if len(all) > 0 && c.Chance("below", 35) {
					path = tk.Pick(c, "parent", all...).path + "." + fmt.Sprint("s", i)
				}
				x := tst{path: path, name: fmt.Sprint("n", i), src: tk.Pick(c, "src", "mods", "other")}
				x.tags = tk.Subset(c, "tags", []string{"selftest", "mytag", "tag-x", "self"})
				if c.Chance("tagged", 50) && !contains(x.tags, "selftest") {
					x.tags = append(x.tags, "selftest")
				}
				x.flow = c.Chance("flow", 25)
				meta := "help = h\n"
				if c.Chance("abbr", 30) {
					meta += "abbr = z" + fmt.Sprint(i) + "\n"
				}
				if len(x.tags) > 0 {
					meta += tk.Pick(c, "tagkey", "tags", "tag") + " = " + strings.Join(x.tags, " ") + "\n"
				}
				s := tk.Script{Name: x.name, EnvPref: "k.", Append: []string{"k.s=" + x.name, "k." + x.name + "=1"}, Count: true}
				if x.flow {
					b.ModIn(x.src, "leaf"+x.name, s, "")
					b.File(x.src+"/"+strings.ReplaceAll(path, ".", "/")+".ticat", meta+"flow = leaf"+x.name+"\n")
				} else {
					b.ModIn(x.src, path, s, meta)
				}
				used[path] = true
				all = append(all, x)
				c.Desc("%s/%s %v flow %v", x.src, path, x.tags, x.flow)
			}
			tag := "selftest"
			w := []string{"selftest"}
			if c.Chance("tag", 40) {
				tag = tk.Pick(c, "asked", "selftest", "mytag", "tag-x", "self", "notag")
				w = append(w, "tag="+tag)
			}
			match, filter := "", ""
			if c.Chance("match", 25) {
				match = tk.Pick(c, "m", "/other", "/mods", "other", "ods", "nosrc")
				w = append(w, tk.Pick(c, "mk", "match-source=", "match=", "src=")+match)
			}
			if c.Chance("filter", 25) {
				filter = tk.Pick(c, "f", "/other", "/mods", "nosrc")
				w = append(w, tk.Pick(c, "fk", "filter-source=", "filter=")+filter)
			}
			par := c.Chance("parallel", 25)
			if par {
				w = append(w, tk.Pick(c, "pk", "parallel=true", "para=1"))
			}
			want := map[string]bool{}
			for _, x := range all {
				src := b.Dir + "/" + x.src
				if contains(x.tags, tag) && strings.Contains(src, match) && (filter == "" || !strings.Contains(src, filter)) {
					want[x.name] = true
				}
			}
			fail := 0
			if c.Chance("fail", 30) && len(want) > 0 && !par {
				fail = c.Int("failat", 1, len(want))
				b.FailAt(fail, "exit 3")
			}
			c.Desc("%q fail at %d, matching %q", w, fail, sortedKeys(want))
			r := b.Run(w...)
			seen := map[string]int{}
			for _, k := range r.Calls {
				seen[k.Name]++
				c.Check(want[k.Name], "%s is run, it does not match", k.Name)
				c.Check(seen[k.Name] == 1, "%s is run %d times", k.Name, seen[k.Name])
				c.Check(k.Env["k.s"] == "s0" && len(k.Env) == 1, "%s sees the changes of another test: %v", k.Name, k.Env)
			}
			if len(want) == 0 {
				c.Check(len(r.Calls) == 0, "no command matches but %d are run", len(r.Calls))
				return
			}
			if fail > 0 {
				c.Check(r.Code != 0, "a test failed but selftest exits with 0")
				c.Check(len(r.Calls) == fail, "%d tests are run, test %d failed", len(r.Calls), fail)
			} else {
				c.Check(r.Code == 0, "exits with %d", r.Code)
				c.Check(len(r.Calls) == len(want), "%d of %d tests are run: %q", len(r.Calls), len(want), tk.CallStrs(r.Calls))
			}
			c.NonTrivial(len(want) > 1)
		})
}
