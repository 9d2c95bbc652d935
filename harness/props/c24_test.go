package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// The events of a sequence: scripts run, hooks set and failures of builtins.
func hookEvents(seq []*Cmd) (r []string) {
	for _, w := range seq {
		if w.IsFlow {
			r = append(r, hookEvents(w.Seq)...)
		}
		switch {
		case w.Script:
			r = append(r, w.name())
		case strings.HasPrefix(w.Name, "!"):
			r = append(r, w.Name)
		}
	}
	return r
}

func TestC24(t *testing.T) {
	tk.Prop(t, "hooks", 1600, 8,
		"a random world whose flows and sequence also set hooks (exit, done, error; to a module, a flow, a failing script, a flow refusing or panicking at its end, or a command that does not exist), fail tolerated or not, by a script, by a builtin, by a background task or by quitting at a pause, with modules calling ticat themselves in the session and the environment possibly saved; the hooks in effect at the end of the run must run once, after everything else; non-trivial when a hook is due and the run has two commands or more besides",
		func(c *tk.C) {
			hooks := []string{"exit", "done", "error"}
			var extra []*Cmd
			target := map[string]string{}
			for _, h := range hooks {
				for i := 0; i < 2; i++ {
					m := fmt.Sprintf("vh%s%d", h, i)
					f := tk.Pick(c, "hooktarget", m, m, "vhf."+m, m+".bad", "vhr."+m, "nosuch."+m)
					target[m] = f
					extra = append(extra, &Cmd{Path: "hook." + h + " flow=" + f, Noop: true, Name: "!hook " + h + " " + m})
				}
			}
			extra = append(extra, &Cmd{Path: "dbg.error %err=ok", Noop: true}, &Cmd{Path: "dbg.panic %err=ok", Noop: true}, &Cmd{Path: "env.set key=k.e value=1", Noop: true},
				&Cmd{Path: "env.save", Noop: true}, &Cmd{Path: "vin", Script: true, Name: "vin"}, &Cmd{Path: "vinbad", Script: true, Name: "vinbad"},
				&Cmd{Path: "vbad %err=ok", Script: true, Name: "vbad"})
			w := GenWorld(c, WorldOpt{MaxMods: 3, MaxFlows: 3, MaxSeq: 4, Script: tk.Script{Count: true}, Extra: extra})
			b := w.B
			b.Mod("vbad", tk.Script{Exit: 3}, "")
			b.Mod("vleaf", tk.Script{}, "")
			b.Mod("vin", tk.Script{Body: fmt.Sprintf("%q \"{session=$sess}\" vleaf : noop > /dev/null || exit 4\n", b.Bin)}, "")
			b.Mod("vinbad", tk.Script{Body: fmt.Sprintf("%q \"{session=$sess}\" vleaf : dbg.error > /dev/null && exit 4; true\n", b.Bin)}, "")
			b.Mod("vbg", tk.Script{}, "")
			b.Mod("vbgbad", tk.Script{Exit: 3}, "")
			for _, h := range hooks {
				for i := 0; i < 2; i++ {
					m := fmt.Sprintf("vh%s%d", h, i)
					b.Mod(m, tk.Script{}, "")
					b.Mod(m+".bad", tk.Script{Exit: 5}, "")
					b.Flow("vhf."+m, "flow = noop : "+m+" : dummy")
					b.Flow("vhr."+m, "flow = "+m+" : "+tk.Pick(c, "refusal", "dbg.error", "env.update key=nokey value=1", "dbg.panic"))
				}
			}
			for run, runs := 0, tk.Pick(c, "runs", 1, 1, 2); run < runs; run++ {
				set := map[string]string{}
				seq := w.GenSeq("seq", 2, 6)
				for i, n := 0, tk.Pick(c, "sethooks", 0, 1, 1, 2, 3); i < n; i++ {
					k := c.Int("setat", 0, len(seq))
					seq = append(append(append([]*Cmd{}, seq[:k]...), tk.Pick(c, "sethook", extra[:6]...)), seq[k:]...)
				}
				words := []string{}
				var evs []string
				bg, bgFails, broken := false, false, ""
				stdin := ""
				brk := -1
				if c.Chance("builtin-fail", 25) {
					brk = c.Int("at", 1, len(seq))
				}
				for i, x := range seq {
					if i > 0 {
						words = append(words, ":")
					}
					if i == brk {
						broken = tk.Pick(c, "bf", "dbg.error", "dbg.panic", "dbg.panic.cmd", "env.assert.equal key=nokey value=x", "env.update key=nokey value=1", "flow.remove cmd-path=nopath.x", "break", "repeat cmd=vbad times=2")
						words = append(words, strings.Fields(broken)...)
						words = append(words, ":")
						if broken == "break" {
							stdin = tk.Pick(c, "quit", "q\n", "x\nq\n")
						}
						evs = append(evs, "!fail")
					}
					if i > 0 && !bg && c.Chance("bg", 10) {
						bg, bgFails = true, c.Bool("bgfails")
						words = append(words, map[bool]string{true: "vbgbad", false: "vbg"}[bgFails], "%delay=0", ":")
						evs = append(evs, "!bg")
					}
					words = append(words, x.words()...)
					evs = append(evs, hookEvents([]*Cmd{x})...)
				}
				nScripts := 0
				for _, e := range evs {
					if e[0] != '!' && e != "vbad" && e != "vin" && e != "vinbad" {
						nScripts++
					}
				}
				failAt := 0
				if c.Chance("fail", 40) && nScripts > 0 {
					failAt = c.Int("failat", 1, nScripts)
				}
				b.FailAt(failAt, tk.Pick(c, "how", "exit 1", "exit 255", "kill -KILL $$"))
				// The model.
				var want []string
				failed := false
				n := 0
				for _, e := range evs {
					if e == "!fail" {
						failed = true
					} else if strings.HasPrefix(e, "!hook") {
						f := strings.Fields(e)
						set[f[1]] = f[2]
					} else if e[0] != '!' {
						want = append(want, e)
						if e == "vin" || e == "vinbad" {
							want = append(want, "vleaf")
						}
						if e != "vbad" && e != "vin" && e != "vinbad" {
							n++
							failed = n == failAt
						}
					}
					if failed {
						break
					}
				}
				ends := failed || bgFails
				c.Desc("run %q stdin %q: script %d fails", words, stdin, failAt)
				r := b.RunOpt(tk.Opt{Stdin: stdin}, words...)
				var main, tail []string
				counts := map[string]int{}
				for _, x := range tk.Names(r.Calls) {
					switch {
					case x == "vbg" || x == "vbgbad" || broken == "repeat cmd=vbad times=2" && x == "vbad":
						c.Check(len(tail) == 0 || bg && failed, "%q runs after the hooks %q", x, tail)
					case strings.HasPrefix(x, "vh"):
						tail = append(tail, x)
						counts[strings.TrimSuffix(x, ".bad")]++
					default:
						c.Check(len(tail) == 0, "%q runs after the hooks %q", x, tail)
						main = append(main, x)
					}
				}
				var wantMain []string
				for _, x := range want {
					if !(broken == "repeat cmd=vbad times=2" && x == "vbad") {
						wantMain = append(wantMain, x)
					}
				}
				c.Check(tk.Eq(main, wantMain), "scripts run are %q, expected %q", main, wantMain)
				due := map[string]bool{}
				outcome := "done"
				if ends {
					outcome = "error"
				}
				bad := func(h string) bool {
					f := target[set[h]]
					return set[h] != "" && (strings.HasSuffix(f, ".bad") || strings.HasPrefix(f, "vhr.") || strings.HasPrefix(f, "nosuch."))
				}
				for _, h := range []string{outcome, "exit"} {
					if set[h] != "" {
						due[set[h]] = true
					}
				}
				if !bad(outcome) {
					for _, m := range sortedSet(due) {
						c.Check(counts[m] == 1 || strings.HasPrefix(target[m], "nosuch."), "the run %s, and the hook %s ran %d times", map[bool]string{true: "failed", false: "was done"}[ends], m, counts[m])
					}
				} else if !strings.HasPrefix(target[set[outcome]], "nosuch.") {
					c.Check(counts[set[outcome]] == 1, "the hook %s ran %d times", set[outcome], counts[set[outcome]])
				}
				for _, m := range sortedKeys(counts) {
					k := counts[m]
					c.Check(due[m] && k == 1, "the hook %s ran %d times, due are %q", m, k, sortedSet(due))
				}
				c.Check(!(ends && r.Code == 0), "the run failed but exits with 0")
				if !ends && !bad(outcome) && !bad("exit") {
					c.Check(r.Code == 0, "the run and its hooks succeeded but it exits with %d", r.Code)
				}
				if bad(outcome) || bad("exit") {
					c.Check(r.Code != 0, "a hook failed and the run exits with 0")
				}
				c.NonTrivial(len(due) > 0 && len(want) > 1)
				c.Label(outcome)
			}
		})
}

func sortedSet(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
