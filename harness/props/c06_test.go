package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// saveModel is the saved environment and the layers of the current run.
type saveModel struct {
	file, pers, sess map[string]string
}

func (m *saveModel) get(k string) (string, bool) {
	if v, ok := m.sess[k]; ok {
		return v, true
	}
	v, ok := m.pers[k]
	return v, ok
}

func (m *saveModel) set(k, v string) {
	if old, ok := m.get(k); ok && old == v {
		return
	}
	m.sess[k] = v
}

func (m *saveModel) del(k string) {
	delete(m.sess, k)
	delete(m.pers, k)
}

func (m *saveModel) visible() map[string]string {
	r := map[string]string{}
	for k, v := range m.pers {
		r[k] = v
	}
	for k, v := range m.sess {
		r[k] = v
	}
	return r
}

func (m *saveModel) newRun() {
	m.pers, m.sess = map[string]string{}, map[string]string{}
	for k, v := range m.file {
		m.pers[k] = v
	}
}

// AnyVal draws any single-line text: what a module may append as a value.
func AnyVal(c *tk.C, label string) string {
	v := ""
	switch c.Int(label+".any", 0, 7) {
	case 0:
		v = ""
	case 1:
		v = c.Str(label, " \t", 1, 4)
	case 2:
		v = c.Str(label, "ab =:.#!?*()<>|&;$\"'`~{}[]\\%^@,+-", 0, 24)
	case 3:
		v = c.Str(label, "aé値\u00a0\u2028\U0001F600\x01\x7f\x1b", 1, 8)
	case 4:
		v = " " + c.Str(label, "ab= ", 0, 6) + " "
	case 5:
		v = strings.Repeat(c.Str(label, "xyz =", 1, 9), c.Int(label+".rep", 1, 12000))
	default:
		v = GenVal(c, label)
	}
	if v == "--" {
		v = "---"
	}
	return v
}

func clipVal(v string) string {
	if len(v) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", v[:60], len(v))
	}
	return v
}

const c06Keys = "k.a|k.b.c|k=|kk|session-url|sessions.x|strsx|display.heightx|display.width.maxx|K.A|sys-x"

func TestC06(t *testing.T) {
	c06DefaultsPart(t)
	tk.Prop(t, "history", 1000, 8,
		"histories of 2-5 runs of 1-7 operations: settings by global braces, env.set, env.add, env.update, env.map and module appends (any single-line text), deletions by modules, env.rm and env.rm.prefix, env.save, env.clear, env.reset-session, and failing commands, over keys that include prefixes and extensions of reserved names; every run and a last fresh one is compared with a two-layer model of the session and the saved values; non-trivial when at least two runs saved and some later run saw a saved value and something was not saved, removed or overwritten",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vlog", tk.Script{EnvPref: c06Keys}, "")
			b.Mod("vbad", tk.Script{Exit: 3}, "")
			keys := []string{"k.a", "k.b.c", "k", "kk", "session-url", "sessions.x", "strsx", "display.heightx", "display.width.maxx", "K.A", "sys-x"}
			keys = tk.Subset(c, "keys", keys)
			if len(keys) < 2 {
				keys = []string{"k.a", "session-url"}
			}
			m := &saveModel{file: map[string]string{}}
			if c.Bool("initial") {
				m.file["k.a"] = "v0"
				b.Saved("k.a=v0")
			}
			saves, seen, changed, nm := 0, 0, 0, 0
			runs := c.Int("runs", 2, 5)
			for run := 0; run < runs; run++ {
				m.newRun()
				var words []string
				var desc []string
				cleared, failed := false, false
				add := func(d string, ws ...string) {
					desc = append(desc, d)
					if failed {
						// still written, never executed
					}
					if len(words) > 0 && words[len(words)-1] != "}" {
						words = append(words, ":")
					}
					words = append(words, ws...)
				}
				if c.Chance("glob", 35) {
					k, v := tk.Pick(c, "key", keys...), GenVal(c, "val")
					words = append(words, "{", k+"="+escColon(v), "}")
					desc = append(desc, fmt.Sprintf("{%s=%q}", k, v))
					m.set(k, v)
				}
				var expect []string
				look := func() {
					if failed {
						return
					}
					env := m.visible()
					for k := range env {
						if _, ok := m.file[k]; ok {
							seen++
						}
					}
					if len(env) == 0 {
						env = nil
					}
					expect = append(expect, tk.Call{Name: "vlog", Args: []string{}, Env: env}.String())
				}
				for i := c.Int("ops", 1, 7); i > 0; i-- {
					k := tk.Pick(c, "key", keys...)
					do := func(f func()) {
						if !failed {
							f()
						}
					}
					_, exists := m.get(k)
					switch kind := c.Int("op", 0, 13); kind {
					case 0, 1, 2, 3:
						nm++
						name := fmt.Sprintf("vset%d", nm)
						var app []string
						for j := c.Int("appends", 1, 3); j > 0; j-- {
							k := tk.Pick(c, "key", keys...)
							if c.Chance("del", 20) {
								app = append(app, k+"=--")
								do(func() { m.del(k); changed++ })
							} else {
								v := AnyVal(c, "val")
								app = append(app, k+"="+v)
								do(func() { m.set(k, v) })
							}
						}
						b.Mod(name, tk.Script{Append: app}, "")
						do(func() { expect = append(expect, name+"()") })
						var d []string
						for _, a := range app {
							d = append(d, clipVal(a))
						}
						add(fmt.Sprintf("append%q", d), name)
					case 4:
						v := GenVal(c, "val")
						cmd := "env.set"
						if !failed && c.Bool("addupd") {
							cmd = "env.add"
							if exists {
								cmd = "env.update"
							}
						}
						do(func() { m.set(k, v) })
						add(fmt.Sprintf("%s %s %q", cmd, k, v), cmd, "key="+k, "value="+escColon(v))
					case 5:
						do(func() {
							if exists {
								changed++
							}
							m.del(k)
						})
						add("rm "+k, "env.rm", "key="+k)
					case 6:
						p := tk.Pick(c, "prefix", "k", "k.", "K", "session-", "strsx", "display.h", "kk")
						hit := false
						do(func() {
							for k := range m.visible() {
								if strings.HasPrefix(k, p) {
									m.del(k)
									hit = true
								}
							}
						})
						if p == "display.h" {
							// would drop a default as well, which nothing here can see
						}
						_ = hit
						add("rm.prefix "+p, "env.rm.prefix", "prefix="+p)
					case 7, 8, 9:
						if cleared {
							continue
						}
						do(func() {
							m.file = m.visible()
							saves++
						})
						add("save", "env.save")
					case 10:
						do(func() {
							if len(m.file) > 0 {
								changed++
							}
							m.file = map[string]string{}
							cleared = true
						})
						add("clear", "env.clear")
					case 11:
						if c.Bool("exclude") {
							do(func() {
								v, _ := m.get(k)
								m.sess = map[string]string{}
								m.set(k, v)
								if !exists {
									m.sess[k] = v
								}
							})
							if !failed && !exists {
								// an unset key becomes an empty one: not what this property is about
								add("rm "+k, "env.reset-session", "exclude-keys="+k)
								m.del(k)
								add("rm "+k, "env.rm", "key="+k)
								continue
							}
							add("reset but "+k, "env.reset-session", "exclude-keys="+k)
						} else {
							do(func() { m.sess = map[string]string{} })
							add("reset", "env.reset-session")
						}
					case 12:
						look()
						add("look", "vlog")
					case 13:
						if c.Chance("fail", 30) {
							do(func() {
								expect = append(expect, "vbad()")
								failed = true
							})
							add("fail", "vbad")
						}
					}
				}
				look()
				add("look", "vlog")
				c.Desc("run %d: %s", run, strings.Join(desc, " : "))
				before := m.visible()
				if fmt.Sprint(before) != fmt.Sprint(m.file) {
					changed++
				}
				r := b.Run(words...)
				c.Check((r.Code == 0) == !failed, "run %d exits with %d", run, r.Code)
				got := tk.CallStrs(r.Calls)
				c.Check(tk.Eq(got, expect), "run %d: the modules saw\n %s\nexpected\n %s", run, clipVal2(got), clipVal2(expect))
			}
			m.newRun()
			r := b.Run("vlog")
			env := m.visible()
			if len(env) == 0 {
				env = nil
			}
			want := []string{tk.Call{Name: "vlog", Args: []string{}, Env: env}.String()}
			got := tk.CallStrs(r.Calls)
			c.Check(r.Code == 0 && tk.Eq(got, want), "a fresh run sees\n %s\nexpected\n %s", clipVal2(got), clipVal2(want))
			c.NonTrivial(saves >= 2 && seen > 0 && changed > 0)
		})
	tk.Prop(t, "flow", 160, 8,
		"env.save inside (nested) flows called with arguments: what is saved is the session, not the calls' arguments: the flow's argument has its default again in the next run; non-trivial when the saving flow got an argument different from the default",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vset", tk.Script{Append: []string{"k.a=va"}}, "")
			b.Mod("vlog", tk.Script{EnvPref: "k."}, "[args]\nx = d0\n")
			b.File("mods/vin.tiflow", "help = h\n[args]\ny = dy\n[flow/]\nvlog x=[[y]] : env.save\n[/flow]\n")
			b.File("mods/vout.tiflow", "help = h\n[args]\nx = dx\n[flow/]\nvset : vin y=[[x]] : vlog [[x]]\n[/flow]\n")
			v := tk.Pick(c, "v", "1", "dx", "two", "a-b")
			nested := c.Bool("nested")
			cmd, arg, def := "vin", "y", "dy"
			if nested {
				cmd, arg, def = "vout", "x", "dx"
			}
			c.Desc("%s %s=%s", cmd, arg, v)
			c.NonTrivial(v != def)
			r := b.Run("{k.b=1}", cmd, arg+"="+v)
			c.Check(r.Code == 0 && len(r.Calls) > 0, "exits with %d", r.Code)
			r = b.Run(cmd)
			want := []string{`vlog("` + def + `") k.b="1"`}
			if nested {
				want = []string{"vset()", `vlog("dx") k.a="va" k.b="1"`, `vlog("dx") k.a="va" k.b="1"`}
			}
			got := tk.CallStrs(r.Calls)
			c.Check(tk.Eq(got, want), "the next run of %s without argument runs %q, expected %q", cmd, got, want)
		})
	tk.Prop(t, "newline", 64, 4,
		"a value with a line break (or a key with '=') can't be stored: saving it must fail or keep it, and never break the data directory or make up other keys; non-trivial always",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Saved("k.keep=1")
			b.Mod("vlog", tk.Script{EnvPref: "k.|x|y"}, "")
			v := tk.Pick(c, "val", "a\nb", "a\nx=1", "\n", "\nk.keep=2", "a\n\n", "a\n--", "a\nk.keep=--")
			c.Desc("value %q", v)
			c.NonTrivial(true)
			b.Run("env.set", "key=k.n", "value="+v, ":", "env.save")
			r := b.Run("vlog")
			for i := range r.Calls {
				delete(r.Calls[i].Env, "k.n")
			}
			got := tk.CallStrs(r.Calls)
			c.Check(r.Code == 0 && tk.Eq(got, []string{`vlog() k.keep="1"`}), "after saving %q a fresh run exits with %d, sees %q", v, r.Code, got)
			if c.Bool("session") {
				r = b.Run("env.set", "key=k.n", "value="+v, ":", "vlog", ":", "vlog")
				for _, k := range r.Calls {
					c.Check(k.Env["k.keep"] == "1" && k.Env["x"] == "", "with the value %q a module sees %s", v, k)
				}
			}
		})
}

func clipVal2(xs []string) string {
	var r []string
	for _, x := range xs {
		if len(x) > 1500 {
			x = fmt.Sprintf("%s...(%d bytes)", x[:1500], len(x))
		}
		r = append(r, x)
	}
	return strings.Join(r, "\n ")
}

// c06Defaults are keys with a builtin default that do not change what is run.
var c06Defaults = map[string][]string{
	"display.meow":               {"false", "true"},
	"display.max-cmd-cnt":        {"14", "15", "1", "014"},
	"display.example-https-repo": {"https://github.com/ticat-mods/tidb", "x", "x y=z"},
	"display.env.layer":          {"false", "true", "on"},
	"display.width":              {"", "77", "120"},
}

func c06DefaultsPart(t *testing.T) {
	tk.Prop(t, "defaults", 160, 8,
		"histories of 2-5 runs, each setting keys that have a builtin default (to another value or back to the default one) and saving or not, twice or more in a run; each later run must see the saved value, and the default where nothing else was saved; non-trivial when a changed default was saved and one was changed without saving",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			keys := sortedKeys(c06Defaults)
			pref := strings.Join(keys, "=|") + "="
			b.Mod("vlog", tk.Script{EnvPref: pref}, "")
			see := func(r tk.Res, i int) map[string]string {
				m := map[string]string{}
				c.Check(len(r.Calls) > i, "vlog was not invoked")
				for k, v := range r.Calls[i].Env {
					m[k] = v
				}
				return m
			}
			saved := see(b.Run("vlog"), 0)
			for _, k := range keys {
				if d := c06Defaults[k][0]; d != "" {
					c.Check(saved[k] == d, "the default of %s is %q, expected %q", k, saved[k], d)
				}
			}
			did, lost := false, false
			for i, n := 0, c.Int("runs", 2, 5); i < n; i++ {
				cur := map[string]string{}
				for k, v := range saved {
					cur[k] = v
				}
				want := []map[string]string{cur}
				words := []string{"vlog"}
				changed := false
				for j, m := 0, c.Int("ops", 0, 5); j < m; j++ {
					words = append(words, ":")
					if c.Chance("save", 35) {
						words = append(words, "env.save")
						did = did || changed
						saved, changed = cur, false
						continue
					}
					k := tk.Pick(c, "key", keys...)
					v := tk.Pick(c, "val", c06Defaults[k]...)
					if v == "" {
						v = "90"
					}
					next := map[string]string{}
					for k, v := range cur {
						next[k] = v
					}
					next[k] = v
					changed = changed || cur[k] != v
					cur = next
					words = append(words, "env.set", "key="+k, "value="+v, ":", "vlog")
					want = append(want, cur)
				}
				lost = lost || changed
				c.Desc("%q", words)
				r := b.Run(words...)
				c.Check(r.Code == 0 && len(r.Calls) == len(want), "%q exits with %d after %d calls", words, r.Code, len(r.Calls))
				for j, w := range want {
					g := see(r, j)
					for _, k := range keys {
						c.Check(g[k] == w[k], "call %d of %q sees %s as %q, expected %q", j, words, k, g[k], w[k])
					}
				}
			}
			g := see(b.Run("vlog"), 0)
			for _, k := range keys {
				c.Check(g[k] == saved[k], "the last run sees %s as %q, expected %q", k, g[k], saved[k])
			}
			c.NonTrivial(did && lost)
		})
}
