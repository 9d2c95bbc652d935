package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

func TestC25(t *testing.T) {
	tk.Prop(t, "history", 800, 8,
		"histories of 2-5 runs of 1-7 operations: saving (overwriting or not), loading, loading what is missing, and removing snapshots of awkward names, between settings by braces, env.set and modules (any single-line text), deletions, env.reset-session and env.save; every run and the listing after it are compared with a model of the session, the saved environment and the snapshots, and names that are paths must not reach anything else; non-trivial when a snapshot was loaded after something it holds had changed",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vlog", tk.Script{EnvPref: c06Keys}, "")
			keys := []string{"k.a", "k.b.c", "k", "kk", "session-url", "strsx", "display.heightx", "K.A"}
			keys = tk.Subset(c, "keys", keys)
			if len(keys) < 2 {
				keys = []string{"k.a", "k"}
			}
			names := tk.Subset(c, "names", []string{"s", "s2", "S", "s.x", "s.env", "a b", "é", "-s", "s.env.tmp", "k=v", ".s", "s.", "env", "s.env.env"})
			if len(names) < 2 {
				names = []string{"s", "s.x"}
			}
			if len(names) > 3 {
				names = shuffled(c, names)[:3]
			}
			if len(keys) > 4 {
				keys = shuffled(c, keys)[:4]
			}
			m := &saveModel{file: map[string]string{}}
			snaps := map[string]map[string]string{}
			nm := 0
			nontriv := false
			for run, runs := 0, tk.Pick(c, "runs", 2, 3, 4); run < runs; run++ {
				m.newRun()
				var words, desc []string
				failed := false
				do := func(f func()) {
					if !failed {
						f()
					}
				}
				add := func(d string, ws ...string) {
					desc = append(desc, d)
					if len(words) > 0 && words[len(words)-1] != "}" {
						words = append(words, ":")
					}
					words = append(words, ws...)
				}
				if c.Chance("glob", 25) {
					k, v := tk.Pick(c, "key", keys...), GenVal(c, "val")
					words = append(words, "{", k+"="+escColon(v), "}")
					desc = append(desc, fmt.Sprintf("{%s=%q}", k, v))
					m.set(k, v)
				}
				var expect []string
				look := func() {
					if failed {
						return
					}
					env := m.visible()
					if len(env) == 0 {
						env = nil
					}
					expect = append(expect, tk.Call{Name: "vlog", Args: []string{}, Env: env}.String())
				}
				name := func() (string, string) {
					n := tk.Pick(c, "name", names...)
					return n, tk.Pick(c, "argname", "snapshot-name", "sn", "name", "snapshot") + "=" + n
				}
				for i := tk.Pick(c, "ops", 2, 4, 5, 6, 7, 8); i > 0; i-- {
					k := tk.Pick(c, "key", keys...)
					switch kind := tk.Pick(c, "op", 0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 8, 8, 8, 9, 9, 10, 11); kind {
					case 0, 1, 2:
						nm++
						mod := fmt.Sprintf("vset%d", nm)
						var app, d []string
						for j := c.Int("appends", 1, 3); j > 0; j-- {
							k := tk.Pick(c, "key", keys...)
							if c.Chance("del", 20) {
								app = append(app, k+"=--")
								do(func() { m.del(k) })
							} else {
								v := AnyVal(c, "val")
								app = append(app, k+"="+v)
								do(func() { m.set(k, v) })
							}
							d = append(d, clipVal(app[len(app)-1]))
						}
						b.Mod(mod, tk.Script{Append: app}, "")
						do(func() { expect = append(expect, mod+"()") })
						add(fmt.Sprintf("append%q", d), mod)
					case 3:
						v := GenVal(c, "val")
						do(func() { m.set(k, v) })
						add(fmt.Sprintf("set %s %q", k, v), "env.set", "key="+k, "value="+escColon(v))
					case 4:
						do(func() { m.del(k) })
						add("rm "+k, "env.rm", "key="+k)
					case 5:
						if c.Bool("save") {
							do(func() { m.file = m.visible() })
							add("env.save", "env.save")
						} else {
							do(func() { m.sess = map[string]string{} })
							add("reset", "env.reset-session")
						}
					case 6, 7:
						n, w := name()
						ow := tk.Pick(c, "overwrite", "", "overwrite=true", "overwrite=false", "ow=false")
						do(func() {
							if strings.HasSuffix(ow, "false") && snaps[n] != nil {
								failed = true
								return
							}
							snaps[n] = m.visible()
						})
						ws := []string{tk.Pick(c, "spell", "env.snapshot.save", "e.snap.s"), w}
						if ow != "" {
							ws = append(ws, ow)
						}
						add(fmt.Sprintf("save %q %s", n, ow), ws...)
					case 8:
						n, w := name()
						do(func() {
							for k, v := range snaps[n] {
								if old, ok := m.get(k); !ok || old != v {
									nontriv = true
								}
								m.set(k, v)
							}
						})
						add(fmt.Sprintf("load %q", n), "env.snapshot.load", w)
					case 9:
						n, w := name()
						do(func() {
							for k, v := range snaps[n] {
								if _, ok := m.get(k); !ok {
									m.set(k, v)
									nontriv = true
								}
							}
						})
						add(fmt.Sprintf("load missing of %q", n), "env.snapshot.load.non-exist", w)
					case 10:
						n, w := name()
						do(func() { delete(snaps, n) })
						add(fmt.Sprintf("remove %q", n), "env.snapshot.remove", w)
					case 11:
						look()
						add("look", "vlog")
					}
				}
				look()
				add("look", "vlog")
				c.Desc("run %d: %s", run, strings.Join(desc, " : "))
				r := b.Run(words...)
				c.Check((r.Code == 0) == !failed, "run %d exits with %d", run, r.Code)
				got := tk.CallStrs(r.Calls)
				c.Check(tk.Eq(got, expect), "run %d: the modules saw\n %s\nexpected\n %s", run, clipVal2(got), clipVal2(expect))
				odd := ""
				if c.Chance("odd", 20) {
					// A path is no name: refused or not, only that file may change.
					odd = tk.Pick(c, "oddname", "../bootstrap", "../flows/x", "x/y", "./"+names[0], ".", "..", "../env/"+names[1], "x/../"+names[0])
					cmd := tk.Pick(c, "oddcmd", "env.snapshot.remove", "env.snapshot.save", "env.snapshot.save")
					if contains(names, strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(odd, "./"), "../env/"), "x/../")) {
						cmd = "env.snapshot.load"
					}
					c.Desc("%s %q", cmd, odd)
					b.Run("{k.odd=1}", cmd, "snapshot-name="+odd)
				}
				r = b.Run("env.snapshot.list")
				var listed []string
				for _, l := range strings.Split(r.Out, "\n") {
					if l != "" && !strings.ContainsRune("│┌└├", []rune(l)[0]) && l != odd {
						listed = append(listed, l)
					}
				}
				sort.Strings(listed)
				c.Check(r.Code == 0 && tk.Eq(listed, sortedKeys(snaps)), "the snapshots listed are %q, expected %q", listed, sortedKeys(snaps))
			}
			m.newRun()
			words := []string{}
			expect := []string{}
			for _, n := range names {
				for k, v := range snaps[n] {
					m.set(k, v)
				}
				words = append(words, "env.snapshot.load", "snapshot-name="+n, ":", "vlog", ":")
				expect = append(expect, tk.Call{Name: "vlog", Args: []string{}, Env: m.visible()}.String())
			}
			r := b.Run(words[:len(words)-1]...)
			got := tk.CallStrs(r.Calls)
			c.Check(r.Code == 0 && tk.Eq(got, expect), "loading all in a fresh run, the module sees\n %s\nexpected\n %s", clipVal2(got), clipVal2(expect))
			c.NonTrivial(nontriv)
		})
}

func shuffled(c *tk.C, xs []string) (r []string) {
	for _, i := range c.Perm("order", len(xs)) {
		r = append(r, xs[i])
	}
	return r
}
