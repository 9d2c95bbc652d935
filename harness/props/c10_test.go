package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// opsState is the model of what is provided at a point of the sequence.
type opsState struct {
	sess    map[string]string
	saved   map[string]string
	narrow  []map[string]string
	written map[string]bool
	refused string // first key read that is not provided
	calls   []string
	reads   int // reads that are satisfied
	nested  bool
	depth   int
	removed bool
}

func (s *opsState) has(k string) bool {
	if s.written[k] || s.sess[k] != "" || s.saved[k] != "" {
		return true
	}
	for _, m := range s.narrow {
		if m[k] != "" {
			return true
		}
	}
	return false
}

func (s *opsState) read(k string) {
	if !s.has(k) {
		if s.refused == "" {
			s.refused = k
		}
		return
	}
	s.reads++
	if s.depth > 0 {
		s.nested = true
	}
}

// opsCmd is a command with declared environment operations.
type opsCmd struct {
	path string
	args string
	run  func(s *opsState)
}

type opsGen struct {
	c    *tk.C
	b    *tk.Box
	keys []string
	cmds []opsCmd
}

type envOp struct{ key, op string }

var (
	readSpell     = []string{"read", "r", "rd"}
	writeSpell    = []string{"write", "w"}
	mayReadSpell  = []string{"may-read", "opt-read"}
	mayWriteSpell = []string{"may-write", "opt-write"}
)

// ops draws the [env] section and its meaning.
func (g *opsGen) ops(allowWrite bool) (string, func(s *opsState), []string) {
	c := g.c
	sec := ""
	var all []envOp
	var writes []string
	for _, k := range g.keys {
		if !c.Chance("has-op", 40) {
			continue
		}
		n := 1
		if c.Chance("two-ops", 15) {
			n = 2
		}
		spell := []string{}
		for ; n > 0; n-- {
			kind := tk.Pick(c, "op", "r", "r", "r", "w", "w", "mr", "mw")
			if !allowWrite && strings.HasSuffix(kind, "w") {
				kind = "r"
			}
			switch kind {
			case "r":
				spell = append(spell, tk.Pick(c, "spell", readSpell...))
			case "w":
				spell = append(spell, tk.Pick(c, "spell", writeSpell...))
				writes = append(writes, k)
			case "mr":
				spell = append(spell, tk.Pick(c, "spell", mayReadSpell...))
			case "mw":
				spell = append(spell, tk.Pick(c, "spell", mayWriteSpell...))
				writes = append(writes, k)
			}
			all = append(all, envOp{k, kind})
		}
		sec += k + " = " + strings.Join(spell, tk.Pick(c, "op-sep", ":", "|", " : ", " | ")) + "\n"
	}
	if sec != "" {
		sec = "[env]\n" + sec
	}
	return sec, func(s *opsState) {
		for _, o := range all {
			switch o.op {
			case "r":
				s.read(o.key)
			case "w", "mw":
				s.written[o.key] = true
			}
		}
	}, writes
}

func (g *opsGen) module(i int) {
	c := g.c
	name := fmt.Sprintf("vm%d", i)
	sec, run, writes := g.ops(true)
	meta := "help = h\n"
	var pre []func(s *opsState)
	args := ""
	switch c.Int("extra", 0, 5) {
	case 1: // value to env
		k := tk.Pick(c, "v2e", g.keys...)
		meta += "[" + tk.Pick(c, "v2e-name", "val2env", "env.write") + "]\n" + k + " = const\n"
		pre = append(pre, func(s *opsState) { s.sess[k] = "const" })
	case 2: // argument to env
		k := tk.Pick(c, "a2e", g.keys...)
		def := tk.Pick(c, "a2e-def", "", "dv")
		given := c.Bool("a2e-given")
		meta += "[args]\nax = " + def + "\n[" + tk.Pick(c, "a2e-name", "arg2env", "env.from-arg", "env.arg") + "]\n" + k + " = ax\n"
		if given {
			args = " ax=given"
		}
		if given || def != "" {
			pre = append(pre, func(s *opsState) { s.sess[k] = "v" })
		}
	case 3: // key from an argument
		k := tk.Pick(c, "tmpl", g.keys...)
		i := strings.LastIndex(k, ".")
		meta += "[args]\nax = " + k[i+1:] + "\n[env]\n" + k[:i+1] + "[[ax]] = read\n"
		sec = ""
		writes = nil
		run = func(s *opsState) { s.read(k) }
	}
	var app []string
	for _, k := range writes {
		app = append(app, k+"=w"+name)
	}
	g.b.Mod(name, tk.Script{Append: app}, meta+sec)
	c.Desc("%s: %s", name, strings.ReplaceAll(meta+sec, "\n", "; "))
	arglist := []string{}
	if strings.Contains(meta, "[args]") {
		arglist = append(arglist, "?")
	}
	g.cmds = append(g.cmds, opsCmd{name, args, func(s *opsState) {
		for _, p := range pre {
			p(s)
		}
		run(s)
		s.calls = append(s.calls, name)
		_ = arglist
	}})
}

func (g *opsGen) brace(label string, pct int) map[string]string {
	if !g.c.Chance(label, pct) {
		return nil
	}
	return map[string]string{tk.Pick(g.c, label+".key", g.keys...): fmt.Sprintf("b%d", g.c.Int(label+".val", 1, 99))}
}

func braceStr(m map[string]string) string {
	s := ""
	for k, v := range m {
		s += "{" + k + "=" + v + "} "
	}
	return s
}

// seq draws a sequence of the commands made so far.
func (g *opsGen) seq(top bool, max int) (string, func(s *opsState)) {
	c := g.c
	n := c.Int("seq", 1, max)
	text := ""
	var ops []func(s *opsState)
	glob := g.brace("global", 25)
	if glob != nil {
		text += braceStr(glob) + ": "
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			text += " : "
		}
		env := g.brace("own", 20)
		var k opsCmd
		switch c.Int("which", 0, 9) {
		case 0:
			key := tk.Pick(c, "set", g.keys...)
			k = opsCmd{"env.set", " key=" + key + " value=x", func(s *opsState) { s.written[key] = true; s.sess[key] = "x" }}
		case 1:
			key := tk.Pick(c, "rm", g.keys...)
			k = opsCmd{tk.Pick(c, "rm-name", "env.rm", "env.remove"), " key=" + key, func(s *opsState) {
				s.removed = true
				delete(s.written, key)
				delete(s.sess, key)
				delete(s.saved, key)
				for _, m := range s.narrow {
					delete(m, key)
				}
			}}
		case 2:
			ex := tk.Subset(c, "excl", g.keys)
			a := ""
			if len(ex) > 0 {
				a = " exclude-keys=" + strings.Join(ex, ",")
			}
			k = opsCmd{"env.reset", a, func(s *opsState) {
				s.removed = true
				for _, key := range g.keys {
					if !contains(ex, key) {
						delete(s.written, key)
						delete(s.sess, key)
					}
				}
			}}
		case 3:
			p := g.keys[c.Int("pre", 0, len(g.keys)-1)]
			p = p[:len(p)-1]
			k = opsCmd{"env.rm.prefix", " prefix=" + p, func(s *opsState) {
				s.removed = true
				for _, key := range g.keys {
					if strings.HasPrefix(key, p) {
						delete(s.written, key)
						delete(s.sess, key)
						delete(s.saved, key)
						for _, m := range s.narrow {
							delete(m, key)
						}
					}
				}
			}}
		default:
			k = tk.Pick(c, "cmd", g.cmds...)
		}
		if i == 0 && env != nil && glob == nil {
			text += ": "
		}
		text += braceStr(env) + k.path + k.args
		ops = append(ops, func(s *opsState) {
			m := map[string]string{}
			for a, b := range env {
				m[a] = b
			}
			s.narrow = append(s.narrow, m)
			k.run(s)
			s.narrow = s.narrow[:len(s.narrow)-1]
		})
	}
	return text, func(s *opsState) {
		if top {
			for a, b := range glob {
				s.sess[a] = b
			}
		} else {
			m := map[string]string{}
			for a, b := range glob {
				m[a] = b
			}
			s.narrow = append(s.narrow, m)
			defer func() { s.narrow = s.narrow[:len(s.narrow)-1] }()
			s.depth++
			defer func() { s.depth-- }()
		}
		for _, o := range ops {
			o(s)
		}
	}
}

func (g *opsGen) flow(i int) {
	c := g.c
	name := fmt.Sprintf("vf%d", i)
	text, inner := g.seq(false, 3)
	meta := "help = h\nflow = " + text + "\n"
	script := c.Chance("file+flow", 25)
	sec, run, writes := g.ops(script)
	meta += sec
	c.Desc("%s (script %v): %s", name, script, strings.ReplaceAll(meta, "\n", "; "))
	if !script {
		g.b.Flow(name, meta)
		g.cmds = append(g.cmds, opsCmd{name, "", func(s *opsState) { run(s); inner(s) }})
		return
	}
	var app []string
	for _, k := range writes {
		app = append(app, k+"=w"+name)
	}
	g.b.Mod(name, tk.Script{Append: app}, meta)
	// the flow runs first, then the script
	g.cmds = append(g.cmds, opsCmd{name, "", func(s *opsState) {
		inner(s)
		run(s)
		s.calls = append(s.calls, name)
	}})
}

func TestC10(t *testing.T) {
	tk.Prop(t, "refusal", 5000, 8,
		"2-5 modules declaring reads, writes and optional ones over 1-4 keys (also value/argument mappings and keys built from arguments), nested in flows and scripts with flows, in sequences with saved, leading and own brace settings and builtins that set, remove and reset keys; a model of what is provided at each read decides whether the run must be refused (nonzero, naming the key, nothing executed) or must execute everything; non-trivial when a read is provided inside a flow or after a removal, or the run is refused after another read was satisfied",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			g := &opsGen{c: c, b: b, keys: []string{"v.ka", "v.kb", "w.x.kc", "kd.e"}[:c.Int("nkeys", 1, 4)]}
			for i := c.Int("mods", 2, 5); i > 0; i-- {
				g.module(i)
			}
			for i := c.Int("flows", 0, 3); i > 0; i-- {
				g.flow(i)
			}
			text, run := g.seq(true, 5)
			saved := map[string]string{}
			for _, k := range g.keys {
				if c.Chance("saved", 15) {
					saved[k] = "sv"
				}
			}
			// Provide what is missing, so that not only the first read matters.
			var s *opsState
			first := ""
			for try := 0; ; try++ {
				s = &opsState{sess: map[string]string{}, saved: map[string]string{}, written: map[string]bool{}}
				for k, v := range saved {
					s.saved[k] = v
				}
				for _, k := range strings.Fields(first) {
					s.written[k] = true
					s.sess[k] = "x"
				}
				run(s)
				if s.refused == "" || try == 4 || contains(strings.Fields(first), s.refused) || saved[s.refused] != "" || !c.Chance("provide", 75) {
					break
				}
				if c.Bool("provide-saved") {
					saved[s.refused] = "sv"
				} else {
					first += " " + s.refused
				}
			}
			set := ""
			for _, k := range strings.Fields(first) {
				set += "env.set key=" + k + " value=x : "
			}
			if set != "" && strings.HasPrefix(text, "{") {
				i := strings.Index(text, ": ")
				text = text[:i] + ": " + set + text[i+2:]
			} else if set != "" {
				text = set + strings.TrimPrefix(text, ": ")
			}
			lines := []string{"display.executor=false"}
			for _, k := range sortedKeys(saved) {
				lines = append(lines, k+"="+saved[k])
			}
			b.Saved(lines...)
			if s.refused == "" && s.reads == 0 && c.Chance("skip-easy", 70) {
				c.Skip("no reads")
			}
			c.Desc("saved %v line %q -> refused %q", saved, text, s.refused)
			c.NonTrivial(s.nested || s.removed && s.reads > 0 || s.refused != "" && s.reads > 0)
			if s.refused != "" {
				c.Label("refused")
			} else {
				c.Label("runs")
			}
			r := b.Run(strings.Fields(text)...)
			got := tk.Names(r.Calls)
			if s.refused != "" {
				c.Check(r.Code != 0, "%q is not refused, although %q is read and not provided", text, s.refused)
				c.Check(len(got) == 0, "%q executed %q, although %q is read and not provided", text, got, s.refused)
				c.Check(strings.Contains(r.All(), s.refused), "%q: the refusal does not name %q: %q", text, s.refused, r.All())
				return
			}
			c.Check(r.Code == 0, "%q exits with %d, although every read is provided: %q", text, r.Code, r.All())
			c.Check(tk.Eq(got, s.calls), "%q executed %q, expected %q", text, got, s.calls)
		})
}
