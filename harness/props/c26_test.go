package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

func TestC26(t *testing.T) {
	tk.Prop(t, "masking", 2400, 8,
		"modules and (nested) flows with arguments and keys, some named sensitively (pwd, Password, my-secret, ... in any position and case), whose values are unique words given as defaults, on the command line, by braces, saved, or in a flow's content, or written by modules; run (with failures, background tasks, pauses, odd display settings), described, listed as commands, environment and sessions; no such word may be printed unless display.sensitive is set, and the scripts get them all; non-trivial when at least two sensitive values were shown masked or the scripts got two",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			n := 0
			var secrets []string
			secret := func(name string) string {
				n++
				v := fmt.Sprintf("%sq%dz", tk.Pick(c, "val", "hush", "Xy", "a-b", "p.w", "12"), n)
				low := strings.ToLower(name)
				for _, w := range []string{"pwd", "password", "passphrase", "secret", "private"} {
					if strings.Contains(low, w) {
						secrets = append(secrets, v)
						break
					}
				}
				return v
			}
			var argNames []string
			for i, m := 0, c.Int("args", 1, 3); i < m; i++ {
				argNames = append(argNames, fmt.Sprintf(tk.Pick(c, "argname", "pwd%d", "Password%d", "my-secret-%d", "xprivate%d", "PASSPHRASE%d", "plain%d", "pass%d"), i))
			}
			keys := []string{"k.db.pwd", "k.Secret", "k.private-key", "k.user", "k.password.x", "k.PWDS"}
			// A module: its arguments, defaults, mappings to keys, written keys.
			seen := map[string]string{}
			meta := "[args]\n"
			defs := map[string]string{}
			for _, a := range argNames {
				v := ""
				if c.Bool("def") {
					v = secret(a)
				}
				defs[a] = v
				meta += a + "|" + string(a[0]) + "x" + a[len(a)-1:] + " = " + v + "\n"
			}
			if c.Bool("arg2env") {
				meta += "[arg2env]\nk.m." + argNames[0] + " = " + argNames[0] + "\n"
			}
			if c.Bool("val2env") {
				k := "k.v.private"
				seen[k] = secret(k)
				meta += "[val2env]\n" + k + " = " + seen[k] + "\n"
			}
			if c.Bool("envops") {
				meta += "[env]\nk.db.pwd = may-read\nk.Secret = may-write\n"
			}
			wk, wv := tk.Pick(c, "writes", keys...), ""
			wv = secret(wk)
			b.Mod("vm", tk.Script{EnvPref: "k.", Append: []string{wk + "=" + wv}}, meta)
			b.Mod("vbad", tk.Script{Exit: 2}, meta)
			// A flow handing its argument on, one with the words in its content.
			fa := tk.Pick(c, "flowarg", "pwd", "Secret-x", "plain")
			if strings.HasPrefix(argNames[0], "pass") || strings.HasPrefix(argNames[0], "plain") {
				// It will be shown there.
				fa = "plain"
			}
			fd := secret(fa)
			b.Flow("vf", fmt.Sprintf("[flow/]\nvm %s=[[%s]]\nnoop\nvm\n[/flow]\n[args]\n%s = %s\n", argNames[0], fa, fa, fd))
			b.Flow("vff", fmt.Sprintf("flow = vf %s=[[%s]] : vm\n[args]\n%s = %s\n", fa, fa, fa, fd))
			ta := argNames[len(argNames)-1]
			tv := secret(ta)
			b.Flow("vtext", fmt.Sprintf("flow = vm %s=%s : vf\n", ta, tv))
			if c.Chance("saved", 40) {
				k := tk.Pick(c, "savedkey", keys...)
				b.Saved(k + "=" + secret(k))
			}
			glob := tk.Pick(c, "display", "", "", "", "{display.color=true}", "{display.env.layer=true}", "{display.width=200}", "{display.width=60}", "{display.style=ascii}", "{display.env.default=true}", "{display.mod.quiet=true}", "{display.executor.end=true}")
			var words []string
			if glob != "" {
				words = append(words, glob)
			}
			text := false
			var tops []string
			gave := 0
			for i, m := 0, tk.Pick(c, "cmds", 1, 2, 3, 4); i < m; i++ {
				if i > 0 {
					words = append(words, ":")
				}
				if c.Chance("own", 30) {
					k := tk.Pick(c, "ownkey", keys...)
					words = append(words, "{"+k+"="+secret(k)+"}")
					gave++
				}
				cmd := tk.Pick(c, "cmd", "vm", "vm", "vf", "vff", "vtext")
				text = text || cmd == "vtext"
				tops = append(tops, cmd)
				words = append(words, cmd)
				switch cmd {
				case "vm":
					for _, a := range argNames {
						if c.Bool("give") {
							v := secret(a)
							words = append(words, tk.Pick(c, "spell", a, string(a[0])+"x"+a[len(a)-1:])+"="+v)
							gave++
						}
					}
					if c.Chance("bg", 8) {
						words = append(words, "%delay=0")
					}
				case "vf", "vff":
					if c.Bool("give") {
						words = append(words, fa+"="+secret(fa))
						gave++
					}
				}
			}
			show := ""
			opt := tk.Opt{}
			kind := c.Int("kind", 0, 4)
			check := func(r tk.Res, what string) {
				for _, s := range secrets {
					c.Check(!strings.Contains(r.All(), s), "%s shows %q", what, s)
				}
				if s := tk.RuntimeCrash(r); s != "" {
					c.Violate("%s: %s", what, s)
				}
			}
			switch kind {
			case 0, 1:
				// run
				switch show = tk.Pick(c, "end", "", "", "vbad", "dbg.error", "dbg.panic", "env", "env.ls", "env.ls k.", "env.tree", "break.at vm"); show {
				case "":
				case "break.at vm":
					words = append(strings.Fields(show), append([]string{":"}, words...)...)
					opt.Stdin = strings.Repeat(tk.Pick(c, "answer", "c\n", "d\n", "t\nd\n"), 60)
				default:
					words = append(append(words, ":"), strings.Fields(show)...)
				}
				c.Desc("%q", words)
				r := b.RunOpt(opt, words...)
				check(r, "running")
				got := fmt.Sprint(tk.CallStrs(r.Calls))
				// Nothing is masked for the scripts.
				c.Check(!strings.Contains(got, "***"), "a script got %s", got)
				c.NonTrivial(strings.Count(r.All(), "***") > 1)
				if show != "break.at vm" && !strings.Contains(fmt.Sprint(words), "%delay") && len(r.Calls) > 0 {
					for i, w := range words {
						if j := strings.Index(w, "="); j > 0 && i > 0 && !strings.HasPrefix(w, "{") && tops[0] == "vm" && len(tops) == 1 && contains(append([]string{fa}, argNames...), w[:j]) {
							c.Check(strings.Contains(got, w[j+1:]), "%q was not given to the script: %s", w, got)
						}
					}
				}
				if c.Bool("sessions") {
					d := tk.Pick(c, "sdesc", "sessions.last.desc", "sessions.last.desc.more", "sessions.last.desc.full")
					if text {
						d = "sessions.last.desc"
					}
					c.Desc("%s", d)
					check(b.Run(d), d)
				}
			case 2, 3:
				show = tk.Pick(c, "desc", "desc", "-", "--", "---", "+", "++", "+++", "desc.more", "desc.full", "desc.flow", "desc.flow.full", "desc.dependencies", "desc.env-ops-check")
				if text && show != "desc.dependencies" && show != "desc.env-ops-check" {
					// The content of a flow is shown as it is.
					secrets = remove(secrets, tv)
				}
				words = append(append(words, ":"), show)
				c.Desc("%q", words)
				r := b.Run(words...)
				check(r, "describing")
				c.NonTrivial(strings.Count(r.All(), "***") > 1)
			default:
				secrets = remove(secrets, tv)
				show = tk.Pick(c, "list", "cmds vm", "cmds.more vf", "cmds.full v", "= vm", "== vm", "== vf", "find vm", "// vm", "/// v", "cmd.full vm", "cmds.tree vm", "env", "env.ls", "env.ls k.", "env.tree", "env.abbrs", "env.who-write k.Secret", "api.cmd.meta vm", "tail-sub vm", "help vm", "vm :~", "vm :~~", "vm :~~~", "vm :=", "vm :==")
				words = strings.Fields(show)
				if glob != "" {
					words = append([]string{glob}, words...)
				}
				if !strings.HasPrefix(words[0], "vm") {
					k := tk.Pick(c, "globkey", keys...)
					words = append([]string{"{" + k + "=" + secret(k) + "}"}, words...)
				}
				c.Desc("%q", words)
				r := b.Run(words...)
				check(r, "listing")
				c.NonTrivial(strings.Contains(r.All(), "***"))
			}
			c.Label(strings.TrimSpace(fmt.Sprint([]string{"run ", "run ", "desc ", "desc ", "list "}[kind], show)))
			if c.Chance("enabled", 10) {
				r := b.Run("{display.sensitive=true k.pwd=visibleq}", "env.ls", "k.")
				c.Check(strings.Contains(r.All(), "visibleq"), "a sensitive value is not shown though display.sensitive is set")
			}
		})
	known := func(key string, f func(b *tk.Box) tk.Res) {
		tk.Known(t, key, func(c *tk.C) (bool, bool, string) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vm", tk.Script{}, "[args]\npwd = \n")
			b.Flow("vf", "flow = vm pwd=[[pwd]]\n[args]\npwd = \n")
			r := f(b)
			return r.Code == 0 && !strings.Contains(r.All(), "hush"), r.Code == 0, "the value is shown: " + r.Out
		})
	}
	known("sessions-list", func(b *tk.Box) tk.Res {
		b.Run("vm", "pwd=hush", ":", "noop")
		return b.Run("sessions")
	})
	known("sys-subflow", func(b *tk.Box) tk.Res { return b.Run("{display.env.sys=true}", "vf", "pwd=hush") })
	known("env-set-value", func(b *tk.Box) tk.Res { return b.Run("env.set", "key=k.pwd", "value=hush", ":", "noop") })
}

func remove(xs []string, x string) (r []string) {
	for _, y := range xs {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}
