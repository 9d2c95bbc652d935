package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// scopeGen writes a sequence of commands that read and change environment keys
// and evaluates it against the documented layers.
type scopeGen struct {
	c      *tk.C
	b      *tk.Box
	keys   []string
	nflow  int
	nmod   int
	budget int
	narrow bool // a narrower setting hid a wider one somewhere
	flows  int
	seen   int
}

// scopeState is the model: the session (with the saved values) and the
// narrower layers, outermost first.
type scopeState struct {
	sess   map[string]string
	narrow []map[string]string
	out    []string // what probes print
	calls  []string // what modules see
}

func (s *scopeState) get(k string) string {
	for i := len(s.narrow) - 1; i >= 0; i-- {
		if v, ok := s.narrow[i][k]; ok {
			return v
		}
	}
	return s.sess[k]
}

// scopeOp is one command; run is its meaning.
type scopeOp struct {
	text string // without braces
	env  []KV
	run  func(s *scopeState)
}

func (g *scopeGen) val() string {
	if g.c.Chance("longval", 15) {
		return strings.ReplaceAll(Plain(GenVal(g.c, "val")), "[[", "[ [")
	}
	return fmt.Sprint(g.c.Int("val", 1, 3))
}

// A setting of one command gets a value of its own: see the known finding
// about equal values.
func (g *scopeGen) own(kvs []KV) []KV {
	for i := range kvs {
		g.seen++
		kvs[i].V += fmt.Sprintf("u%d", g.seen)
	}
	return kvs
}

func (g *scopeGen) kvs(label string, pct int) []KV {
	if !g.c.Chance(label, pct) {
		return nil
	}
	var r []KV
	for _, k := range g.keys {
		if g.c.Chance(label+".has", 50) {
			r = append(r, KV{k, g.val()})
		}
	}
	return r
}

func flowQuote(v string) string {
	if strings.ContainsAny(v, " \t'\"\\|&;<>()$`#*?![]~=%") || v == "" {
		return "'" + strings.ReplaceAll(v, "'", `'\''`) + "'"
	}
	return v
}

func (g *scopeGen) op(depth int, covered map[string]bool) scopeOp {
	c := g.c
	k := tk.Pick(c, "key", g.keys...)
	g.budget--
	kind := c.Int("op", 0, 9)
	if kind >= 8 && (depth >= 2 || g.budget < 3) {
		kind = 0
	}
	switch kind {
	case 0, 1, 2:
		return scopeOp{"api.env.value key=" + k, g.own(g.kvs("probe-env", 40)), func(s *scopeState) {
			v, wider := s.get(k), s.sess[k]
			if v != wider {
				g.narrow = true
			}
			s.out = append(s.out, v)
		}}
	case 3:
		return scopeOp{"vlog", g.own(g.kvs("log-env", 15)), func(s *scopeState) {
			env := map[string]string{}
			for a, v := range s.sess {
				env[a] = v
			}
			for _, l := range s.narrow {
				for a, v := range l {
					if s.sess[a] != v {
						g.narrow = true
					}
					env[a] = v
				}
			}
			if len(env) == 0 {
				env = nil
			}
			s.calls = append(s.calls, tk.Call{Name: "vlog", Args: []string{}, Env: env}.String())
		}}
	case 4:
		v := fmt.Sprint(c.Int("setval", 1, 3))
		return scopeOp{fmt.Sprintf("env.set key=%s value=%s", k, v), g.own(g.kvs("set-env", 20)), func(s *scopeState) { s.sess[k] = v }}
	case 5, 6:
		g.nmod++
		name := fmt.Sprintf("vset%d", g.nmod)
		var app []string
		type ch struct{ k, v string }
		var chs []ch
		for i := c.Int("appends", 1, 3); i > 0; i-- {
			x := ch{tk.Pick(c, "key", g.keys...), g.val()}
			if c.Chance("del", 25) {
				x.v = "--"
			}
			chs = append(chs, x)
			app = append(app, x.k+"="+x.v)
		}
		g.b.Mod(name, tk.Script{Append: app}, "")
		return scopeOp{name, g.own(g.kvs("mod-env", 20)), func(s *scopeState) {
			s.calls = append(s.calls, name+"()")
			for _, x := range chs {
				if x.v == "--" {
					delete(s.sess, x.k)
				} else {
					s.sess[x.k] = x.v
				}
			}
		}}
	case 7:
		if covered[k] {
			return g.op(depth, covered)
		}
		return scopeOp{"env.rm key=" + k, nil, func(s *scopeState) { delete(s.sess, k) }}
	}
	g.nflow++
	g.flows++
	name := fmt.Sprintf("vfl%d", g.nflow)
	env := g.own(g.kvs("call-env", 50))
	cov := map[string]bool{}
	for a := range covered {
		cov[a] = true
	}
	for _, kv := range env {
		cov[kv.K] = true
	}
	text, run := g.seq(depth+1, cov, func(v string) string { return flowQuote(v) })
	g.b.File("mods/"+name+".tiflow", "help = h\nflow = "+text+"\n")
	return scopeOp{name, env, run}
}

// seq makes a sequence with global settings; text is what stands in a flow.
func (g *scopeGen) seq(depth int, covered map[string]bool, quote func(string) string) (string, func(s *scopeState)) {
	c := g.c
	glob := g.kvs("glob", 45)
	cov := map[string]bool{}
	for a := range covered {
		cov[a] = true
	}
	if depth > 0 {
		for _, kv := range glob {
			cov[kv.K] = true
		}
	}
	var ops []scopeOp
	for i := c.Int("len", 1, 5); i > 0; i-- {
		ops = append(ops, g.op(depth, cov))
	}
	brace := func(kvs []KV) string {
		s := "{"
		for i, kv := range kvs {
			if i > 0 {
				s += " "
			}
			s += kv.K + "=" + quote(escColon(kv.V))
		}
		return s + "} "
	}
	text := ""
	if len(glob) > 0 {
		text = brace(glob)
		if len(ops[0].env) > 0 || c.Bool("own-seg") {
			text += ": "
		}
	} else if len(ops[0].env) > 0 {
		text = ": "
	}
	for i, o := range ops {
		if i > 0 {
			text += " : "
		}
		if len(o.env) > 0 {
			text += brace(o.env)
		}
		text += o.text
	}
	return text, func(s *scopeState) {
		if depth == 0 {
			for _, kv := range glob {
				s.sess[kv.K] = kv.V
			}
		} else {
			m := map[string]string{}
			for _, kv := range glob {
				m[kv.K] = kv.V
			}
			s.narrow = append(s.narrow, m)
			defer func() { s.narrow = s.narrow[:len(s.narrow)-1] }()
		}
		for _, o := range ops {
			m := map[string]string{}
			for _, kv := range o.env {
				m[kv.K] = kv.V
			}
			s.narrow = append(s.narrow, m)
			o.run(s)
			s.narrow = s.narrow[:len(s.narrow)-1]
		}
	}
}

func TestC05(t *testing.T) {
	tk.Prop(t, "scopes", 1800, 8,
		"random sequences with flows nested to depth 2 over 3 environment keys: global braces, braces of single commands and of flow calls, settings and deletions by modules and builtins, saved values; what every probe prints and every module sees is compared with a layered-environment model; non-trivial when a narrower setting hides a wider one at a probe and a flow is involved",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			g := &scopeGen{c: c, b: b, keys: []string{"ka", "kb.x", "kc"}, budget: 22}
			b.Mod("vlog", tk.Script{EnvPref: "k"}, "")
			s := &scopeState{sess: map[string]string{}}
			saved := []string{"display.executor=false"}
			for _, k := range g.keys {
				if c.Chance("saved", 30) {
					v := g.val()
					saved = append(saved, k+"="+v)
					s.sess[k] = v
				}
			}
			b.Saved(saved...)
			text, run := g.seq(0, map[string]bool{}, func(v string) string { return strings.ReplaceAll(v, " ", "\x00") })
			run(s)
			words := strings.Fields(text)
			for i := range words {
				words[i] = strings.ReplaceAll(words[i], "\x00", " ")
			}
			text = strings.ReplaceAll(text, "\x00", " ")
			c.Desc("saved %v line %q flows %d", saved, text, g.flows)
			c.NonTrivial(g.narrow && g.flows > 0)
			r := b.Run(words...)
			c.Check(r.Code == 0, "%q exits with %d", text, r.Code)
			c.Check(tk.Eq(tk.CallStrs(r.Calls), s.calls), "%q: the modules saw\n %s\nexpected\n %s", text,
				strings.Join(tk.CallStrs(r.Calls), "\n "), strings.Join(s.calls, "\n "))
			var got []string
			for _, l := range strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n") {
				// lines of env.set and env.rm
				if strings.HasPrefix(l, "k") && strings.Contains(l, " = ") || strings.HasPrefix(l, "'k") {
					continue
				}
				got = append(got, l)
			}
			if len(s.out) == 0 && len(got) == 1 && got[0] == "" {
				got = nil
			}
			c.Check(tk.Eq(got, s.out), "%q: the probes printed %q, expected %q", text, got, s.out)
		})
	tk.Prop(t, "path-braces", 300, 8,
		"1-4 calls of modules in directories with braces of 0-3 settings after any directory of the path, keys such that one setting may be called like another one with the path before it; a setting after a directory is the one of the key under that directory, for that call only, or for all if it is the first call and no ':' stands before it; non-trivial when one call has two settings at a directory",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vd.vm", tk.Script{EnvPref: "v"}, "")
			b.Mod("vd.vs.vm", tk.Script{EnvPref: "v"}, "")
			var words, want []string
			val := 0
			global := map[string]string{}
			alone := c.Chance("alone", 60)
			for i, n := 0, c.Int("calls", 1, 4); i < n; i++ {
				if i > 0 || alone {
					words = append(words, ":")
				}
				segs := tk.Pick(c, "path", []string{"vd", "vm"}, []string{"vd", "vs", "vm"})
				env := map[string]string{}
				for k, v := range global {
					env[k] = v
				}
				text := ""
				for j, seg := range segs {
					text += seg
					if j+1 == len(segs) {
						break
					}
					keys := []string{"x", "y", "vd.x", "vs.x", "vd.vs.x", "vs.y", "z.vd"}
					perm := c.Perm("keys", len(keys))
					var kvs []string
					for _, k := range perm[:tk.Pick(c, "settings", 0, 1, 2, 2, 3)] {
						key := strings.Join(segs[:j+1], ".") + "." + keys[k]
						val++
						v := fmt.Sprint(val)
						env[key] = v
						if i == 0 && !alone {
							global[key] = v
						}
						kvs = append(kvs, keys[k]+tk.Pick(c, "sign", "=", " = ")+v)
					}
					if len(kvs) > 1 {
						c.NonTrivial(true)
					}
					if len(kvs) == 0 {
						text += "."
					} else {
						text += tk.Pick(c, "form", ".{%s}.", "{%s}.", " {%s} ", " { %s } .", "{%s}")
						text = fmt.Sprintf(text, strings.Join(kvs, " "))
					}
				}
				words = append(words, strings.Fields(text)...)
				k := tk.Call{Name: strings.Join(segs, "."), Env: env}
				want = append(want, tk.CallStrs([]tk.Call{k})...)
			}
			c.Desc("%q", words)
			r := b.Run(words...)
			c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
			c.Check(tk.Eq(tk.CallStrs(r.Calls), want), "%q: the modules saw\n %s\nexpected\n %s", words,
				strings.Join(tk.CallStrs(r.Calls), "\n "), strings.Join(want, "\n "))
		})
	tk.Known(t, "pin-equal", func(c *tk.C) (bool, bool, string) {
		b := c.NewBox()
		b.UseMods()
		b.Quiet()
		b.File("mods/vfl.tiflow", "help = h\nflow = env.set key=kk value=2 : api.env.value key=kk\n")
		r := b.Run("{kk=1}", ":", "{kk=1}", "vfl")
		return strings.HasSuffix(r.Out, "\n1\n"), strings.HasSuffix(r.Out, "\n2\n"), "the setting of the call is not in effect in the flow"
	})
}
