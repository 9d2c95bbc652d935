package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// node is a generated command-tree node.
type node struct {
	name   string
	abbrs  []string
	parent *node
	kind   int // 0 directory only, 1 script, 2 flow, 3 meta only (not executable)
	id     int
	subs   []*node
}

func (n *node) segs() []*node {
	if n.parent == nil {
		return nil
	}
	return append(n.parent.segs(), n)
}

func (n *node) path() string {
	s := []string{}
	for _, x := range n.segs() {
		s = append(s, x.name)
	}
	return strings.Join(s, ".")
}

// spell writes the path with a random name of each segment.
func (n *node) spell(c *tk.C) string {
	s := []string{}
	for _, x := range n.segs() {
		s = append(s, tk.Pick(c, "segname", append([]string{x.name}, x.abbrs...)...))
	}
	return strings.Join(s, ".")
}

func (n *node) has(w string) bool {
	for _, s := range n.subs {
		if s.name == w || contains(s.abbrs, w) {
			return true
		}
	}
	return false
}

// genTree draws a command tree below a root; siblings have distinct names and
// abbreviations, other levels may reuse them.
func genTree(c *tk.C, maxNodes int) (root *node, all []*node) {
	root = &node{}
	n := c.Int("nodes", 2, maxNodes)
	for i := 0; i < n; i++ {
		p := root
		if len(all) > 0 && c.Chance("deeper", 65) {
			p = tk.Pick(c, "parent", all...)
		}
		if len(p.segs()) > 3 {
			p = root
		}
		x := &node{parent: p, id: i, kind: c.Int("kind", 0, 9)}
		switch {
		case x.kind < 5:
			x.kind = 1
		case x.kind < 8:
			x.kind = 2
		case x.kind == 8:
			x.kind = 3
		default:
			x.kind = 0
		}
		// similar names: prefixes and extensions of each other
		fresh := func(label string) string {
			w := "q" + c.Str(label, "ab", 0, 3)
			for p.has(w) || w == x.name || contains(x.abbrs, w) {
				w += tk.Pick(c, label+"x", "a", "b", "-", "_", "1")
			}
			return w
		}
		x.name = fresh("name")
		if x.kind != 0 {
			for k := c.Int("nabbr", 0, 3); k > 0; k-- {
				x.abbrs = append(x.abbrs, fresh("abbr"))
			}
		}
		p.subs = append(p.subs, x)
		all = append(all, x)
	}
	return
}

func writeTree(c *tk.C, b *tk.Box, all []*node) {
	b.Mod("qleaf9", tk.Script{}, "help = h\n[args]\nid =\n")
	for _, x := range all {
		meta := fmt.Sprintf("help = node %d\n", x.id)
		if len(x.abbrs) != 0 {
			meta += tk.Pick(c, "abbrkey", "abbr", "abbrs") + " = " + strings.Join(x.abbrs, "|") + "\n"
		}
		file := "mods/" + strings.ReplaceAll(x.path(), ".", "/")
		switch x.kind {
		case 1:
			b.File(file+".bash", tk.Script{Name: fmt.Sprint(x.id)}.Text())
			b.File(file+".bash.ticat", meta)
		case 2:
			meta += fmt.Sprintf("flow = qleaf9 id=%d\n", x.id)
			b.File(file+".ticat", meta)
		case 3:
			b.File(file+".ticat", meta)
		}
	}
}

func treeDesc(all []*node) string {
	s := []string{}
	for _, x := range all {
		s = append(s, fmt.Sprintf("%s(%s:%s)", x.path(), strings.Join(x.abbrs, "|"),
			[]string{"dir", "script", "flow", "meta"}[x.kind]))
	}
	return strings.Join(s, " ")
}

func ranIDs(calls []tk.Call) []string {
	r := []string{}
	for _, k := range calls {
		if k.Name == "qleaf9" {
			r = append(r, k.Args[0])
		} else {
			r = append(r, k.Name)
		}
	}
	return r
}

func callable(all []*node) (r []*node) {
	for _, x := range all {
		if x.kind == 1 || x.kind == 2 {
			r = append(r, x)
		}
	}
	return
}

func TestC04(t *testing.T) {
	tk.Prop(t, "resolve", 1200, 8,
		"a tree of 2-9 scripts, flows and directories with similar names and 0-3 abbreviations per segment; a sequence of random spellings of its commands must run exactly those commands; non-trivial when an abbreviation is used below the first level",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			_, all := genTree(c, 9)
			writeTree(c, b, all)
			cs := callable(all)
			if len(cs) == 0 {
				return
			}
			for k := 0; k < 2; k++ {
				var words, want []string
				nt := false
				for i := c.Int("seq", 1, 5); i > 0; i-- {
					x := tk.Pick(c, "node", cs...)
					s := x.spell(c)
					if strings.Contains(s, ".") && s != x.path() {
						nt = true
					}
					words = append(words, s, ":")
					want = append(want, fmt.Sprint(x.id))
				}
				words = words[:len(words)-1]
				c.Desc("%s: %q", treeDesc(all), words)
				c.NonTrivial(nt)
				r := b.Run(words...)
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				c.Check(tk.Eq(ranIDs(r.Calls), want), "%q ran the commands %v, expected %v", words, ranIDs(r.Calls), want)
			}
		})
	tk.Prop(t, "reject", 900, 8,
		"as above with one path that names nothing: a prefix, an extension, another case, a wrong level or a misspelling of a declared name, a missing or a doubled segment; nothing of the sequence may run; non-trivial when commands stand before it",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			root, all := genTree(c, 8)
			writeTree(c, b, all)
			cs := callable(all)
			if len(cs) == 0 {
				return
			}
			x := tk.Pick(c, "victim", all...)
			segs := x.segs()
			i := c.Int("which", 0, len(segs)-1)
			words := []string{}
			for _, s := range segs {
				words = append(words, tk.Pick(c, "segname", append([]string{s.name}, s.abbrs...)...))
			}
			bad := words[i]
			switch c.Int("how", 0, 5) {
			case 0:
				bad = bad[:len(bad)-1]
			case 1:
				bad += tk.Pick(c, "ext", "a", "b", "z", "1", "-")
			case 2:
				bad = strings.ToUpper(bad)
			case 3:
				bad = "x" + bad
			case 4:
				bad = bad + "/" + bad
			default:
				bad = tk.Pick(c, "other", all...).name
			}
			p := segs[i].parent
			if bad == "" || p.has(bad) || p == root && (bad == "q" || !strings.Contains(bad, "q") && bad != strings.ToUpper(bad)) || bad == "Q" {
				return
			}
			words[i] = bad
			badPath := strings.Join(words, ".")
			var line []string
			n := c.Int("before", 0, 2)
			for k := 0; k < n; k++ {
				line = append(line, tk.Pick(c, "node", cs...).spell(c), ":")
			}
			line = append(line, badPath)
			if c.Bool("after") {
				line = append(line, ":", tk.Pick(c, "node", cs...).spell(c))
			}
			c.Desc("%s: %q", treeDesc(all), line)
			c.NonTrivial(n > 0)
			r := b.Run(line...)
			c.Check(len(r.Calls) == 0, "%q ran %v although %s names no command", line, ranIDs(r.Calls), badPath)
			c.Check(r.Code != 0, "%q was not rejected although %s names no command", line, badPath)
		})
	tk.Prop(t, "env-keys", 600, 8,
		"an environment key of 1-3 segments with abbreviations declared in a module's [env], [val2env] or [arg2env] section, set under a random spelling on the command line; commands must see it under its real name and spellings that are only prefixes or extensions must not set it; non-trivial when an abbreviation is used",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			n := c.Int("segs", 1, 3)
			ws := c.Words("seg", "k", n*3)
			decl, real, used, near := []string{}, []string{}, []string{}, []string{}
			nt := false
			for i := 0; i < n; i++ {
				names := ws[i*3 : i*3+1+c.Int("na", 0, 2)]
				decl = append(decl, strings.Join(names, tk.Pick(c, "sep", "|", "|", " | ")))
				real = append(real, names[0])
				u := tk.Pick(c, "use", names...)
				nt = nt || u != names[0]
				used = append(used, u)
				near = append(near, u)
			}
			k := strings.Join(real, ".")
			near[c.Int("near", 0, n-1)] += "Z"
			sect := tk.Pick(c, "sect", "env", "env", "val2env", "arg2env", "env.write", "env.from-arg")
			meta := "help = h\n"
			if strings.Contains(sect, "arg") {
				meta += "[args]\nx =\n"
			}
			val := map[string]string{"env": "may-write", "val2env": "vv", "arg2env": "x", "env.write": "vv", "env.from-arg": "x"}[sect]
			meta += "[" + sect + "]\n" + strings.Join(decl, ".") + " = " + val + "\n"
			b.Mod("vmdecl", tk.Script{}, meta)
			b.Mod("vmread", tk.Script{EnvPref: "k"}, "")
			v := Plain(GenVal(c, "val"))
			nearK := strings.Join(near, ".")
			words := []string{"{" + strings.Join(used, ".") + " = " + escColon(v), nearK + "=zz}", "vmread"}
			c.Desc("[%s] %s: %q", sect, decl, words)
			c.NonTrivial(nt)
			r := b.Run(words...)
			c.Check(r.Code == 0 && len(r.Calls) == 1, "%q exits with %d", words, r.Code)
			c.Check(r.Calls[0].Env[k] == v, "key %s is %q in %q, declared as %s", k, r.Calls[0].Env[k], words, decl)
			if sect == "val2env" || sect == "arg2env" {
				r = b.Run("vmdecl", ":", "vmread")
				if sect == "val2env" {
					c.Check(len(r.Calls) == 2 && r.Calls[1].Env[k] == "vv", "key %s not written by its declaration %s", k, decl)
				}
			}
		})
	tk.Prop(t, "env-spellings", 700, 8,
		"2-4 keys with abbreviated first segments declared by modules, keys in the saved environment some of which start with such an abbreviation or with one of a command, (then the module declaring it is reported and its abbreviations are void), and in a third a later module that wants an abbreviation which is taken; then 1-4 settings by spellings of the declared keys and of the saved ones; every key must get exactly the last value set for it and no other key may change; non-trivial when a saved key starts with an abbreviation",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			segs := []string{"kx", "ky", "kz", "kw", "kv", "ku"}
			perm := c.Perm("segs", len(segs))
			type key struct{ full, short []string } // names of the segments
			var keys []key
			n := c.Int("keys", 2, 4)
			for i := 0; i < n; i++ {
				k := key{[]string{"k" + segs[perm[i]], "s" + fmt.Sprint(i)}, []string{segs[perm[i]], "t" + fmt.Sprint(i)}}
				if c.Bool("letter") {
					k.short[0] = k.short[0][1:]
				}
				keys = append(keys, k)
				b.Mod(fmt.Sprintf("vm%d", i), tk.Script{}, fmt.Sprintf("help = h\n[env]\n%s|%s.%s|%s = may-write\n", k.full[0], k.short[0], k.full[1], k.short[1]))
			}
			if c.Chance("taken", 33) {
				b.Mod("vn", tk.Script{}, fmt.Sprintf("help = h\n[env]\nkother|%s.q = may-write\n", keys[0].short[0]))
			}
			b.Mod("vread", tk.Script{EnvPref: "k|vc|u.|v.|w.|x.|y.|z.|u=|v=|w=|x=|y=|z="}, "")
			b.Mod("vcmd", tk.Script{}, "help = h\nabbrs = vc\n")
			env := map[string]string{}
			var saved, spell []string
			real := map[string]string{}
			for i := 0; i < n; i++ {
				for _, a := range []string{keys[i].full[0], keys[i].short[0]} {
					for _, z := range []string{keys[i].full[1], keys[i].short[1]} {
						real[a+"."+z] = strings.Join(keys[i].full, ".")
						spell = append(spell, a+"."+z)
					}
				}
			}
			nt := false
			for i, m := 0, c.Int("saved", 0, 3); i < m; i++ {
				k := tk.Pick(c, "saved-key", "kq.w", keys[0].short[0]+".own", keys[1].short[0]+".own.x", keys[0].full[0]+".mine", "vc.z", keys[1].short[0])
				if _, ok := env[k]; ok {
					continue
				}
				nt = nt || k != "kq.w"
				env[k] = fmt.Sprint("saved", i)
				saved = append(saved, k+"="+env[k])
				if k != keys[1].short[0] {
					real[k] = k
					spell = append(spell, k)
				}
			}
			// the names of saved keys are not available as abbreviations: a module
			// that declares one of them is reported and its abbreviations are void
			for _, k := range keys {
				for _, x := range saved {
					if f := strings.FieldsFunc(x, func(r rune) bool { return r == '.' || r == '=' }); f[0] == k.short[0] {
						for s := range real {
							if a := strings.SplitN(s, ".", 2); real[s] == strings.Join(k.full, ".") && (a[0] == k.short[0] || a[1] == k.short[1]) {
								real[s] = s
							}
						}
					}
				}
			}
			b.Saved(saved...)
			var words []string
			for i, m := 0, c.Int("sets", 1, 4); i < m; i++ {
				s := tk.Pick(c, "spelling", spell...)
				v := fmt.Sprint("v", i)
				words = append(words, s+"="+v)
				env[real[s]] = v
			}
			words = append(append([]string{"{"}, words...), "}", ":", "vread")
			c.Desc("declared %v, saved %q: %q", keys, saved, words)
			c.NonTrivial(nt)
			r := b.Run(words...)
			c.Check(r.Code == 0 && len(r.Calls) == 1, "%q exits with %d", words, r.Code)
			got := tk.Call{Name: "", Env: r.Calls[0].Env}.String()
			want := tk.Call{Name: "", Env: env}.String()
			c.Check(got == want, "%q: the environment is %s, expected %s", words, got, want)
		})
}
