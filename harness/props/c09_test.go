package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// tmplState is the model of a run: the session's values and the settings of
// the flow calls around the current command.
type tmplState struct {
	sess   map[string]string
	narrow []map[string]string
	calls  []string
}

func (s *tmplState) get(k string, args map[string]string) (string, bool) {
	for i := len(s.narrow) - 1; i >= 0; i-- {
		if v, ok := s.narrow[i][k]; ok {
			return v, true
		}
	}
	if v, ok := s.sess[k]; ok {
		return v, true
	}
	v := args[k]
	return v, v != ""
}

type tmplFlow struct {
	noEmpty bool // an empty list item would change the meaning of a line
	name    string
	args    []KV // name and default
	text    string
	// missing is a name referred to that has no value
	missing string
	run     func(s *tmplState, args map[string]string)
}

type tmplGen struct {
	c      *tk.C
	b      *tk.Box
	keys   []string
	flows  []*tmplFlow
	nset   int
	uniq   int
	late   bool // a value was changed by a command of the run before a call
	refs   int
	reps   int
	macros int
}

func (g *tmplGen) plain(label string) string {
	g.uniq++
	return g.c.Str(label, "abz019_-+@%,/", 1, 6) + fmt.Sprintf("u%d", g.uniq)
}

// A value that may stand in single quotes in a flow.
func (g *tmplGen) quoted(label string) string {
	v := Plain(GenVal(g.c, label))
	for _, x := range []string{"'", "\\", ":", "[[", "#"} {
		v = strings.ReplaceAll(v, x, "_")
	}
	return v
}

func (g *tmplGen) setter() (string, func(s *tmplState)) {
	g.nset++
	name := fmt.Sprintf("vset%d", g.nset)
	k := tk.Pick(g.c, "set-key", g.keys...)
	v := g.plain("set-val")
	g.b.Mod(name, tk.Script{Append: []string{k + "=" + v}}, "")
	return name, func(s *tmplState) {
		s.calls = append(s.calls, name+"()")
		s.sess[k] = v
		g.late = true
	}
}

func vaCall(x, y, z string) string { return tk.Call{Name: "va", Args: []string{x, y, z}}.String() }

// makeFlow writes flow number n; it may call the flows made before.
func (g *tmplGen) makeFlow(n int, missing bool) *tmplFlow {
	c := g.c
	f := &tmplFlow{name: fmt.Sprintf("vf%d", n)}
	names := []string{"p", "qq", "r-x"}[:c.Int("nargs", 0, 3)]
	for _, a := range names {
		d := ""
		if c.Bool("default") {
			d = g.plain("default")
		}
		f.args = append(f.args, KV{a, d})
	}
	type op = func(s *tmplState, val func(string) string, args map[string]string)
	var ops []op
	var text []string
	ref := func() string {
		g.refs++
		all := append(append([]string{}, names...), g.keys...)
		return tk.Pick(c, "ref", all...)
	}
	nlines := c.Int("lines", 1, 4)
	badAt := -1
	if missing {
		badAt = c.Int("bad-at", 0, nlines-1)
	}
	for i := 0; i < nlines; i++ {
		kind := c.Int("line", 0, 10)
		r1, r2 := ref(), ref()
		if i == badAt {
			kind = c.Int("bad-line", 0, 6)
			r1 = tk.Pick(c, "bad", "k.none", "nope", "p.x")
			f.missing = r1
		}
		switch kind {
		case 0:
			text = append(text, fmt.Sprintf("va x=[[%s]] z=lit", r1))
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				s.calls = append(s.calls, vaCall(val(r1), "", "lit"))
			})
		case 1:
			text = append(text, fmt.Sprintf("va y=pre-[[%s]].[[%s]]-[[%s]]", r1, r2, r1))
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				s.calls = append(s.calls, vaCall("dx", "pre-"+val(r1)+"."+val(r2)+"-"+val(r1), ""))
			})
		case 2:
			text = append(text, fmt.Sprintf("va '[[%s]]' '[[%s]]'", r1, r2))
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				s.calls = append(s.calls, vaCall(val(r1), val(r2), ""))
			})
		case 3:
			text = append(text, fmt.Sprintf("va {z='[[%s]]' x='[[%s]]'}", r1, r2))
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				s.calls = append(s.calls, vaCall(val(r2), "", val(r1)))
			})
		case 4:
			text = append(text, fmt.Sprintf(": {k.o='[[%s]]'} vlog", r1))
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				s.calls = append(s.calls, tk.Call{Name: "vlog", Args: []string{}, Env: map[string]string{"k.o": val(r1)}}.String())
			})
		case 5, 6: // repeated block
			g.reps++
			lk := tk.Pick(c, "list-key", "lst", "k.lst")
			if i == badAt {
				lk = r1
			}
			head, tail := tk.Pick(c, "head", "va x=", "va lit "), tk.Pick(c, "tail", "", " ", "-t", " z=q", "  z = q ", " z=[["+r2+"]]")
			if strings.Contains(tail, "=") {
				head = "va x="
			}
			before, after := c.Bool("before"), c.Bool("after")
			line := "** " + head + "[[*" + lk + "*]]" + tail + " **"
			if before {
				line = "vlog : " + line
			}
			if after {
				line += " : vlog"
			}
			text = append(text, line)
			f.addList(lk, names)
			f.noEmpty = f.noEmpty || head == "va x=" && tail != "-t"
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
				log := tk.Call{Name: "vlog", Args: []string{}}.String()
				if before {
					s.calls = append(s.calls, log)
				}
				z := ""
				if strings.Contains(tail, "[[") {
					z = val(r2)
				} else if strings.Contains(tail, "=") {
					z = "q"
				}
				for _, v := range strings.Split(val(lk), ",") {
					v = strings.TrimSpace(v)
					if !strings.Contains(tail, "=") {
						v += strings.TrimSpace(tail)
					}
					if head == "va x=" {
						s.calls = append(s.calls, vaCall(v, "", z))
					} else {
						s.calls = append(s.calls, vaCall("lit", v, z))
					}
				}
				if after {
					s.calls = append(s.calls, log)
				}
			})
		case 7, 8:
			name, run := g.setter()
			text = append(text, name)
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) { run(s) })
		default:
			if len(g.flows) == 0 {
				text = append(text, "va")
				ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) {
					s.calls = append(s.calls, vaCall("dx", "", ""))
				})
				continue
			}
			in := tk.Pick(c, "inner", g.flows...)
			t, run := g.call(in, func() (string, func(val func(string) string) string) {
				r := ref()
				return "'[[" + r + "]]'", func(val func(string) string) string { return val(r) }
			})
			text = append(text, t)
			ops = append(ops, func(s *tmplState, val func(string) string, args map[string]string) { run(s, val) })
		}
	}
	m := "help = h\n"
	nm := 0
	if c.Chance("macros", 40) {
		nm = c.Int("nmacros", 1, 3)
	}
	for i := 1; i <= nm; i++ {
		// some lines become a macro, which may hold earlier ones
		from := c.Int("macro-from", 0, len(text)-1)
		to := c.Int("macro-to", from, len(text)-1) + 1
		name := fmt.Sprintf("%s%d", tk.Pick(c, "macro", "m", "mac-", "vf", "M.x"), i)
		inner := append([]op{}, ops[from:to]...)
		all := func(s *tmplState, val func(string) string, args map[string]string) {
			for _, o := range inner {
				o(s, val, args)
			}
		}
		pad := tk.Pick(c, "macro-pad", "", "", " ")
		m += "[[" + pad + name + pad + "]] = " + strings.Join(text[from:to], tk.Pick(c, "macro-sep", " \\\n", " : \\\n  ")) + "\n"
		f.text += fmt.Sprintf("[[%s]]=%q ", name, text[from:to])
		text = append(append(append([]string{}, text[:from]...), "[["+name+"]]"), text[to:]...)
		ops = append(append(append([]op{}, ops[:from]...), all), ops[to:]...)
		if c.Chance("macro-twice", 30) {
			text, ops = append(text, "[["+name+"]]"), append(ops, all)
		}
		g.macros++
	}
	if c.Bool("multi-line") {
		m += "[flow/]\n" + strings.Join(text, "\n") + "\n[/flow]\n"
	} else {
		m += "flow = " + strings.Join(text, " : \\\n  ") + "\n"
	}
	if len(f.args) > 0 {
		m += "[args]\n"
		for _, a := range f.args {
			m += a.K + " = " + a.V + "\n"
		}
	}
	g.b.Flow(f.name, m)
	f.text += strings.Join(text, " / ")
	f.run = func(s *tmplState, args map[string]string) {
		// everything is rendered at the call
		vals := map[string]string{}
		for _, l := range []map[string]string{args, s.sess} {
			for k, v := range l {
				vals[k] = v
			}
		}
		for _, l := range s.narrow {
			for k, v := range l {
				vals[k] = v
			}
		}
		for _, o := range ops {
			o(s, func(k string) string { return vals[k] }, args)
		}
	}
	g.flows = append(g.flows, f)
	return f
}

// addList gives the flow the list argument.
func (f *tmplFlow) addList(name string, names []string) {
	if name != "lst" {
		return
	}
	for _, a := range f.args {
		if a.K == name {
			return
		}
	}
	f.args = append(f.args, KV{"lst", "l1,l2"})
}

// call writes a call of the flow; value draws the text and the meaning of an
// argument.
func (g *tmplGen) call(f *tmplFlow, value func() (string, func(val func(string) string) string)) (string, func(s *tmplState, val func(string) string)) {
	c := g.c
	text := f.name
	give := map[string]func(val func(string) string) string{}
	for _, a := range f.args {
		if a.V != "" && c.Bool("keep-default") {
			continue
		}
		if a.K == "lst" {
			xs := []string{}
			for i := c.Int("listed", 1, 4); i > 0; i-- {
				xs = append(xs, g.plain("item"))
				xs[len(xs)-1] = strings.ReplaceAll(xs[len(xs)-1], ",", "c")
				if !f.noEmpty && len(xs) > 1 && c.Chance("empty-item", 20) {
					xs[len(xs)-1] = ""
				}
			}
			v := strings.Join(xs, ",")
			text += " lst=" + v
			give[a.K] = func(func(string) string) string { return v }
			continue
		}
		t, m := value()
		text += " " + a.K + "=" + t
		give[a.K] = m
	}
	env := map[string]string{}
	if c.Chance("call-env", 30) {
		k, v := tk.Pick(c, "call-key", g.keys...), g.plain("call-val")
		env[k] = v
		text = "{" + k + "=" + v + "} " + text
	}
	if len(env) > 0 {
		text = ": " + text
	}
	return text, func(s *tmplState, val func(string) string) {
		args := map[string]string{}
		for _, a := range f.args {
			args[a.K] = a.V
			if m, ok := give[a.K]; ok {
				args[a.K] = m(val)
			}
		}
		s.narrow = append(s.narrow, env)
		f.run(s, args)
		s.narrow = s.narrow[:len(s.narrow)-1]
	}
}

func tmplBox(c *tk.C) *tmplGen {
	b := c.NewBox()
	b.UseMods()
	b.Mod("va", tk.Script{}, "help = h\n[args]\nx = dx\ny =\nz =\n")
	b.Mod("vlog", tk.Script{EnvPref: "k.o"}, "")
	return &tmplGen{c: c, b: b, keys: []string{"k.a", "k.b", "k.c.d"}}
}

func TestC09(t *testing.T) {
	tk.Prop(t, "render", 1700, 8,
		"up to 3 nested flows with arguments (given, defaulted, handed on by templates) whose lines refer to arguments and environment keys in words, inside words, in quotes, braces, repeated blocks and macros (used once or twice, several lines, inside each other), while modules of the run change the keys between the calls; the invocations are compared with a model that renders each flow with the values in effect when it is called; non-trivial when at least 3 references are there and either a value was changed by an earlier command of the run or a repeated block or a macro is involved",
		func(c *tk.C) {
			g := tmplBox(c)
			s := &tmplState{sess: map[string]string{}}
			saved := []string{"display.executor=false"}
			for _, k := range g.keys {
				s.sess[k] = g.quoted("saved")
				// plain values where the flow's author put no quotes
				s.sess[k] = g.plain("saved")
				saved = append(saved, k+"="+s.sess[k])
			}
			s.sess["k.lst"] = tk.Pick(c, "klst", "a,b,c", "one", "x , y", "1,1,1", "c,b,a,b")
			saved = append(saved, "k.lst="+s.sess["k.lst"])
			g.b.Saved(saved...)
			n := c.Int("flows", 1, 3)
			for i := 0; i < n; i++ {
				f := g.makeFlow(i, false)
				c.Desc("%s%v: %s", f.name, f.args, f.text)
			}
			var parts []string
			for i := c.Int("calls", 1, 3); i > 0; i-- {
				if c.Chance("top-set", 40) {
					name, run := g.setter()
					parts = append(parts, name)
					run(s)
				}
				f := tk.Pick(c, "top", g.flows...)
				t, run := g.call(f, func() (string, func(func(string) string) string) {
					v := g.plain("arg")
					return v, func(func(string) string) string { return v }
				})
				parts = append(parts, t)
				run(s, nil)
			}
			line := strings.ReplaceAll(strings.Join(parts, " : "), ": :", ":")
			if strings.HasPrefix(line, "{") {
				line = ": " + line
			}
			c.Desc("saved %v line %q", saved[1:], line)
			c.NonTrivial(g.refs >= 3 && (g.late || g.reps > 0 || g.macros > 0))
			r := g.b.Run(strings.Fields(line)...)
			got := tk.CallStrs(r.Calls)
			c.Check(r.Code == 0, "%q exits with %d", line, r.Code)
			c.Check(tk.Eq(got, s.calls), "%q invoked\n %s\nexpected\n %s", line, strings.Join(got, "\n "), strings.Join(s.calls, "\n "))
		})
	tk.Prop(t, "values", 500, 8,
		"values of any printable text for references in quotes: given on the command line, saved, or set by a module, handed down through 1-3 flows; the command at the end must receive exactly them; non-trivial when a value holds a space or a special character",
		func(c *tk.C) {
			g := tmplBox(c)
			v1, v2 := g.quoted("v1"), g.quoted("v2")
			depth := c.Int("depth", 1, 3)
			quote := "'"
			for i := 0; i < depth; i++ {
				head := fmt.Sprintf("vf%d", i+1)
				if i == depth-1 {
					head = "va"
				}
				f := fmt.Sprintf("help = h\nflow = %s x=%s[[x]]%s y=%s[[k.v]]%s\n[args]\nx =\ny =\n", head, quote, quote, quote, quote)
				g.b.Flow(fmt.Sprintf("vf%d", i), f)
			}
			words := []string{"vf0", "x=" + v1}
			switch c.Int("how", 0, 2) {
			case 0:
				g.b.Saved("k.v=" + v2)
			case 1:
				words = append([]string{"{k.v=" + v2 + "}", ":"}, words...)
			default:
				g.b.Saved("k.v=old")
				g.b.Mod("vset", tk.Script{Append: []string{"k.v=" + v2}}, "")
				words = append([]string{"vset", ":"}, words...)
			}
			c.Desc("depth %d %q", depth, words)
			c.NonTrivial(strings.ContainsAny(v1+v2, " =.!?*()<>|&;$\"`~"))
			r := g.b.Run(words...)
			var got []string
			for _, k := range r.Calls {
				if k.Name == "va" {
					got = append(got, k.String())
				}
			}
			c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
			c.Check(tk.Eq(got, []string{vaCall(v1, v2, "")}), "%q invoked %q, expected %q", words, got, vaCall(v1, v2, ""))
		})
	tk.Prop(t, "missing", 600, 8,
		"as in render, but one flow refers, somewhere, to a name without a value; the call must fail, no command of that flow and nothing after it may run; non-trivial when the flow has more than one command",
		func(c *tk.C) {
			g := tmplBox(c)
			saved := []string{"display.executor=false", "k.lst=a,b"}
			for _, k := range g.keys {
				saved = append(saved, k+"="+g.plain("saved"))
			}
			g.b.Saved(saved...)
			f := g.makeFlow(0, true)
			c.Desc("%s%v: %s", f.name, f.args, f.text)
			t, _ := g.call(f, func() (string, func(func(string) string) string) {
				v := g.plain("arg")
				return v, func(func(string) string) string { return v }
			})
			t = strings.TrimPrefix(t, ": ")
			g.b.Mod("vbefore", tk.Script{}, "")
			g.b.Mod("vafter", tk.Script{}, "")
			if c.Bool("inside") {
				g.b.Flow("vouter", "help = h\nflow = vbefore : "+t+" : vafter\n")
				t = "vouter"
			}
			line := "vbefore : " + t + " : vafter"
			c.Desc("%q", line)
			c.NonTrivial(strings.Contains(f.text, " / ") || g.macros > 0)
			r := g.b.Run(strings.Fields(line)...)
			c.Check(r.Code != 0, "%q succeeds, although [[%s]] has no value", line, f.missing)
			for _, k := range r.Calls {
				c.Check(k.Name == "vbefore", "%q invoked %q, although [[%s]] has no value", line, tk.CallStrs(r.Calls), f.missing)
			}
			c.Check(strings.Contains(r.All(), f.missing), "%q does not name the missing %q: %q", line, f.missing, r.All())
		})
	tk.Prop(t, "nested-refs", 500, 8,
		"up to 6 keys and arguments whose values refer to each other at random; a flow referring to some of them must fail when a reference it reaches leads back to itself or nowhere, and otherwise receive the fully replaced text; it must end in any case; non-trivial when a value with references is reached",
		func(c *tk.C) {
			g := tmplBox(c)
			n := c.Int("keys", 1, 6)
			vals := map[string]string{}
			name := func(i int) string { return fmt.Sprintf("k.n%d", i) }
			saved := []string{}
			for i := 0; i < n; i++ {
				v := ""
				for j := c.Int("parts", 1, 3); j > 0; j-- {
					if c.Chance("isref", 40) {
						t := c.Int("target", 0, n-1)
						if c.Bool("acyclic") {
							t = c.Int("down", i, n)
							if t == i {
								t = (i + 1) % n
							}
						}
						v += "[[" + name(t) + "]]"
					} else {
						v += c.Str("text", "ab_", 1, 3)
					}
				}
				vals[name(i)] = v
				saved = append(saved, name(i)+"="+v)
			}
			g.b.Saved(saved...)
			used := tk.Subset(c, "used", []int{0, 1, 2})
			text := "va x=s"
			want := "s"
			ok, deep := true, false
			var expand func(s string, stack []string) string
			expand = func(s string, stack []string) string {
				for {
					i := strings.Index(s, "[[")
					if i < 0 {
						return s
					}
					j := strings.Index(s[i:], "]]")
					if j < 0 {
						return s
					}
					k := s[i+2 : i+j]
					v, has := vals[k]
					if !has || contains(stack, k) || len(stack) > 20 {
						ok = false
						return ""
					}
					deep = deep || strings.Contains(v, "[[")
					v = expand(v, append(append([]string{}, stack...), k))
					if !ok {
						return ""
					}
					s = s[:i] + v + s[i+j+2:]
				}
			}
			for _, u := range used {
				text += "[[" + name(u) + "]]"
				if u >= n {
					ok = false
				} else if ok {
					want += expand("[["+name(u)+"]]", nil)
				}
			}
			g.b.Flow("vf", "help = h\nflow = "+text+"\n")
			c.Desc("%q %q", saved, text)
			c.NonTrivial(deep)
			r := g.b.RunOpt(tk.Opt{Timeout: 20e9}, "vf")
			if !ok {
				c.Check(r.Code != 0 && len(r.Calls) == 0, "values %q, flow %q: exits with %d after %q, but the references do not end", saved, text, r.Code, tk.CallStrs(r.Calls))
				return
			}
			c.Check(r.Code == 0 && tk.Eq(tk.CallStrs(r.Calls), []string{vaCall(want, "", "")}), "values %q, flow %q: exits with %d after %q, expected %q", saved, text, r.Code, tk.CallStrs(r.Calls), vaCall(want, "", ""))
		})
}
