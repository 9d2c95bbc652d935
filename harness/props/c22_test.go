package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// mapCmd is a command with declared mappings.
type mapCmd struct {
	name  string
	args  []argDecl
	a2e   []KV // key, argument
	v2e   []KV // key, value
	write []string
	seq   []mapCall // a flow
	flow  bool
	auto  []string // automatic argument mapping

	// what the mapping comes to
	star map[string]bool // arguments got by '*'
}

type mapCall struct {
	cmd   *mapCmd
	own   []KV
	given []KV // argument, value
}

func (m *mapCmd) arg(n string) *argDecl {
	for i := range m.args {
		if m.args[i].Name == n || contains(m.args[i].Abbrs, n) {
			return &m.args[i]
		}
	}
	return nil
}

func (m *mapCmd) keyOf(arg string) (string, bool) {
	for _, kv := range m.a2e {
		if kv.V == arg {
			return kv.K, true
		}
	}
	return "", false
}

func (m *mapCmd) hasKey(k string) bool {
	for _, kv := range m.a2e {
		if kv.K == k {
			return true
		}
	}
	return false
}

// met is every command reached from the flow, in the order of execution.
func (m *mapCmd) met(seen map[*mapCmd]bool) (r []*mapCmd) {
	for _, x := range m.seq {
		if !seen[x.cmd] {
			seen[x.cmd] = true
			r = append(append(r, x.cmd.met(seen)...), x.cmd)
		}
	}
	return r
}

// expand is the model of the automatic mapping: the listed arguments, then with
// '*' or '**' the others, each as in the first command that has it.
func (m *mapCmd) expand() {
	m.star = map[string]bool{}
	order := m.met(map[*mapCmd]bool{})
	provided := map[string]bool{}
	for _, x := range append([]*mapCmd{m}, order...) {
		for _, k := range x.write {
			provided[k] = true
		}
	}
	add := func(x *mapCmd, kv KV, star bool) {
		if m.hasKey(kv.K) || m.arg(kv.V) != nil {
			return
		}
		m.args = append(m.args, *x.arg(kv.V))
		m.a2e = append(m.a2e, kv)
		m.star[kv.V] = star
	}
	own := map[string]bool{}
	for _, kv := range m.a2e {
		own[kv.K] = true
	}
	for _, name := range m.auto {
		if i := strings.Index(name, "="); i > 0 {
			m.args = append(m.args, argDecl{Name: name[:i], Def: unquote(name[i+1:])})
			continue
		}
		if name == "*" || name == "**" {
			type cand struct {
				x  *mapCmd
				kv KV
			}
			var cs []cand
			got := map[string]bool{}
			for _, x := range order {
				for _, kv := range x.a2e {
					if x.star[kv.V] || own[kv.K] || got[kv.V] || got["key "+kv.K] {
						continue
					}
					got[kv.V], got["key "+kv.K] = true, true
					if name == "**" || !provided[kv.K] {
						cs = append(cs, cand{x, kv})
					}
				}
			}
			sort.SliceStable(cs, func(i, j int) bool { return cs[i].kv.V < cs[j].kv.V })
			for _, it := range cs {
				add(it.x, it.kv, true)
			}
			continue
		}
	find:
		for _, x := range order {
			for _, kv := range x.a2e {
				d := x.arg(kv.V)
				if own[kv.K] || x.star[kv.V] || (d.Name != name && !contains(d.Abbrs, name)) {
					continue
				}
				add(x, kv, false)
				break find
			}
		}
	}
}

func (m *mapCmd) meta() string {
	s := "help = h\n"
	if m.flow {
		s = "flow = " + strings.Join(m.flowText(), " : ") + "\n"
	}
	if len(m.auto) > 0 {
		s += "args.auto = " + strings.Join(m.auto, ", ") + "\n"
	}
	s += argsMeta(m.args)
	sect := func(name string, kvs []KV) {
		if len(kvs) > 0 {
			s += "[" + name + "]\n"
			for _, kv := range kvs {
				s += kv.K + " = " + kv.V + "\n"
			}
		}
	}
	sect("arg2env", m.a2e)
	sect("val2env", m.v2e)
	if len(m.write) > 0 {
		s += "[env]\n"
		for _, k := range m.write {
			s += k + " = write\n"
		}
	}
	return s
}

func (m *mapCmd) flowText() (r []string) {
	for _, x := range m.seq {
		s := ""
		for _, kv := range x.own {
			s += "{" + kv.K + "=" + kv.V + "}"
		}
		s += x.cmd.name
		for _, kv := range x.given {
			if strings.HasPrefix(kv.V, "[[") {
				s += " '" + kv.K + "=" + kv.V + "'" // put in place, may have blanks
			} else {
				s += " " + kv.K + "=" + flowQuote(escColon(kv.V))
			}
		}
		r = append(r, s)
	}
	return r
}

// mapState is the environment: the session, and what is visible only in the
// flows and the command being executed.
type mapState struct {
	sess  map[string]string
	inner []map[string]string
	calls []string
	wrote bool
}

func (s *mapState) get(k string) (string, bool) {
	for i := len(s.inner) - 1; i >= 0; i-- {
		if v, ok := s.inner[i][k]; ok {
			return v, true
		}
	}
	v, ok := s.sess[k]
	return v, ok
}

func (s *mapState) exec(x mapCall, depth int) {
	m := x.cmd
	layer := map[string]string{}
	for _, kv := range x.own {
		layer[kv.K] = kv.V
	}
	s.inner = append(s.inner, layer)
	vals, isGiven := map[string]string{}, map[string]bool{}
	for _, d := range m.args {
		vals[d.Name] = d.Def
		if m.star[d.Name] && depth > 0 {
			vals[d.Name] = ""
		}
		for _, kv := range x.given {
			if kv.K == d.Name || contains(d.Abbrs, kv.K) {
				vals[d.Name], isGiven[d.Name] = kv.V, true
			}
		}
	}
	for _, kv := range m.v2e {
		v := kv.V
		for _, d := range m.args {
			if vals[d.Name] != "" {
				v = strings.ReplaceAll(v, "[["+d.Name+"]]", vals[d.Name])
			}
		}
		s.sess[kv.K], s.wrote = v, true
	}
	for _, kv := range m.a2e {
		if _, has := s.sess[kv.K]; isGiven[kv.V] || (!has && vals[kv.V] != "") {
			s.sess[kv.K], s.wrote = vals[kv.V], true
		}
	}
	if m.flow {
		for _, y := range m.seq {
			y.given = append([]KV{}, y.given...)
			for i, kv := range y.given {
				if n := strings.TrimSuffix(strings.TrimPrefix(kv.V, "[["), "]]"); n != kv.V {
					y.given[i].V = vals[n]
				}
			}
			s.exec(y, depth+1)
		}
	} else {
		env := map[string]string{}
		for k, v := range s.sess {
			env[k] = v
		}
		for _, l := range s.inner {
			for k, v := range l {
				env[k] = v
			}
		}
		if len(env) == 0 {
			env = nil
		}
		args := []string{}
		for _, d := range m.args {
			args = append(args, vals[d.Name])
		}
		s.calls = append(s.calls, tk.Call{Name: m.name, Args: args, Env: env}.String())
	}
	s.inner = s.inner[:len(s.inner)-1]
}

type mapGen struct {
	c     *tk.C
	vocab []argDecl         // arguments common to the modules
	canon map[string]string // the key an argument usually maps to
	keys  []string
	cmds  []*mapCmd
}

func (g *mapGen) fill(m *mapCmd, auto bool) {
	c := g.c
	used := map[string]bool{}
	for i, n := 0, c.Int("args", 0, 3); i < n; i++ {
		d := tk.Pick(c, "arg", g.vocab...)
		if m.flow {
			d = argDecl{Name: fmt.Sprintf("o%s%s", m.name[1:], tk.Pick(c, "suffix", "z", "b", "k", "0"))}
		}
		if m.arg(d.Name) != nil {
			continue
		}
		d.Def = tk.Pick(c, "def", "", "d1", "d2", "two words", "x:y")
		m.args = append(m.args, d)
		k := g.canon[d.Name]
		if k == "" || c.Chance("other key", 20) {
			k = tk.Pick(c, "key", g.keys...)
		}
		if c.Chance("mapped", 80) && !used[k] {
			m.a2e = append(m.a2e, KV{k, d.Name})
			used[k] = true
		}
	}
	for i, n := 0, c.Int("vals", 0, 2); i < n; i++ {
		k := tk.Pick(c, "valkey", g.keys...)
		if used["v"+k] || !c.Bool("val") {
			continue
		}
		used["v"+k] = true
		v := tk.Pick(c, "v", "on", "off", "5", "a b", "x:y", "p=q")
		if len(m.args) > 0 && c.Bool("templ") {
			v = "<[[" + tk.Pick(c, "targ", m.args...).Name + "]]>"
		}
		m.v2e = append(m.v2e, KV{k, v})
	}
	if auto && c.Chance("declared write", 25) {
		m.write = []string{tk.Pick(c, "wkey", g.keys...)}
	}
}

func (g *mapGen) call(label string, cmds []*mapCmd, val func() string, known bool) mapCall {
	c := g.c
	x := mapCall{cmd: tk.Pick(c, label, cmds...)}
	if c.Chance(label+".own", 12) {
		x.own = []KV{{tk.Pick(c, "ownkey", g.keys...), tk.Pick(c, "ownval", "w1", "w2")}}
	}
	for _, d := range x.cmd.args {
		if c.Chance(label+".given", 40) {
			n := d.Name
			if known {
				n = tk.Pick(c, "by", append([]string{n}, d.Abbrs...)...)
			}
			v := val()
			if strings.HasPrefix(d.Name, "extra") {
				v = g.plain() // put into the text of the flow
			}
			x.given = append(x.given, KV{n, v})
		}
	}
	return x
}

func (g *mapGen) plain() string { return tk.Pick(g.c, "plain", "e1", "e 2", "0") }

func (g *mapGen) line(c *tk.C, calls []mapCall, pos map[int]int) (words []string) {
	var ts []token
	for i, x := range calls {
		if i > 0 {
			ts = append(ts, sym(":"))
		}
		if len(x.own) > 0 {
			if i == 0 {
				ts = append(ts, sym(":")) // otherwise the settings are global
			}
			ts = append(append(append(ts, sym("{")), kvTokens(x.own)...), sym("}"))
		}
		ts = append(ts, token{x.cmd.name, false, false})
		if n := pos[i]; n > 0 {
			for _, kv := range x.given {
				ts = append(ts, token{escColon(kv.V), false, false})
			}
		} else {
			ts = append(ts, kvTokens(x.given)...)
		}
	}
	return joinTokens(c, ts, false)
}

func c22(c *tk.C, auto bool) {
	b := c.NewBox()
	b.UseMods()
	g := &mapGen{c: c, canon: map[string]string{}}
	ws := c.Words("vocab", "a", 8)
	for i := 0; i < 4; i++ {
		d := argDecl{Name: ws[i*2]}
		if c.Bool("abbr") {
			d.Abbrs = []string{ws[i*2+1]}
		}
		g.vocab = append(g.vocab, d)
	}
	for i := 0; i < 5; i++ {
		g.keys = append(g.keys, fmt.Sprintf("k.%c", 'a'+i))
	}
	for i, d := range g.vocab {
		g.canon[d.Name] = g.keys[i]
	}
	for i, n := 0, c.Int("mods", 1, 3); i < n; i++ {
		m := &mapCmd{name: fmt.Sprintf("vm%d", i)}
		g.fill(m, auto)
		g.cmds = append(g.cmds, m)
		b.Mod(m.name, tk.Script{EnvPref: "k."}, m.meta())
	}
	probe := &mapCmd{name: "vprobe"}
	b.Mod(probe.name, tk.Script{EnvPref: "k."}, "")
	inFlow := func() string { return tk.Pick(c, "inflow", "i1", "i2", "i 3", "x:y") }
	nf := c.Int("flows", 0, 2)
	if auto && nf == 0 {
		nf = 1
	}
	// A flow may be handled before the one inside it.
	fnames := []string{"vf0", "vf1"}
	if c.Bool("reverse") {
		fnames = []string{"vf1", "vf0"}
	}
	metas := map[string]string{}
	innerOnly := auto && nf == 2 && c.Chance("inner only", 30)
	for i := 0; i < nf; i++ {
		m := &mapCmd{name: fnames[i], flow: true}
		for j, n := 0, c.Int("len", 1, 3); j < n; j++ {
			cmds := g.cmds
			if innerOnly && i == 1 && j == n-1 {
				cmds = g.cmds[len(g.cmds)-1:]
			}
			x := g.call("in", cmds, inFlow, true)
			if j == 0 {
				x.own = nil // would be for the whole flow
			}
			m.seq = append(m.seq, x)
		}
		g.fill(m, auto)
		if auto && !(innerOnly && i == 1) && (i == nf-1 || innerOnly || c.Bool("auto")) {
			var names []string
			gotKey, gotArg := map[string]bool{}, map[string]bool{}
			for _, x := range m.met(map[*mapCmd]bool{}) {
				for _, kv := range x.a2e {
					// The first one that has the argument is the one to be mapped.
					if gotArg[kv.V] || m.hasKey(kv.K) || x.star[kv.V] {
						continue
					}
					gotArg[kv.V] = true
					if gotKey[kv.K] || !c.Chance("listed", 50) {
						continue
					}
					gotKey[kv.K] = true
					d := x.arg(kv.V)
					names = append(names, tk.Pick(c, "as", append([]string{d.Name}, d.Abbrs...)...))
				}
			}
			for _, j := range c.Perm("order", len(names)) {
				m.auto = append(m.auto, names[j])
			}
			if c.Chance("not auto", 20) {
				m.auto = append(m.auto, "extra"+m.name[2:]+"="+tk.Pick(c, "extra", "5", "e", "'q r'", "\"5\"", "'2  b'"))
			}
			if len(m.auto) == 0 || c.Bool("star") {
				m.auto = append(m.auto, tk.Pick(c, "all", "*", "**"))
			}
		}
		for _, it := range m.auto {
			if k := strings.Index(it, "="); k > 0 {
				for j := range m.seq {
					if x := &m.seq[j]; len(x.given) > 0 && c.Chance("from extra", 70) {
						x.given[0].V = "[[" + it[:k] + "]]"
					}
				}
			}
		}
		metas[m.name] = m.meta()
		if len(m.auto) > 0 {
			m.expand()
		}
		g.cmds = append(g.cmds, m)
	}
	for i := 0; i < nf; i++ {
		b.Flow(fnames[i], metas[fnames[i]])
	}
	for _, m := range g.cmds {
		text := m.meta()
		if m.flow {
			text = metas[m.name]
		}
		c.Desc("%s: %s", m.name, strings.ReplaceAll(strings.TrimSpace(text), "\n", " / "))
	}

	var calls []mapCall
	pos := map[int]int{}
	for i, n := 0, c.Int("calls", 1, 3); i < n; i++ {
		cmds := g.cmds
		if auto && i == n-1 {
			cmds = g.cmds[len(g.cmds)-1:]
		}
		x := g.call("call", cmds, func() string { return Plain(GenVal(c, "val")) }, true)
		if k := len(x.cmd.args); k > 0 && c.Chance("positional", 25) {
			x.given = nil
			pos[i] = c.Int("npos", 1, k)
			for _, d := range x.cmd.args[:pos[i]] {
				v := Plain(GenVal(c, "val"))
				if strings.HasPrefix(d.Name, "extra") {
					v = g.plain()
				}
				x.given = append(x.given, KV{d.Name, v})
			}
		}
		calls = append(calls, x)
	}
	calls = append(calls, mapCall{cmd: probe})
	s := &mapState{sess: map[string]string{}}
	if c.Chance("saved", 30) {
		k := tk.Pick(c, "savedkey", g.keys...)
		s.sess[k] = "saved"
		b.Saved(k + "=saved")
	}
	for _, x := range calls {
		s.exec(x, 0)
	}
	words := g.line(c, calls, pos)
	c.Desc("%q", words)
	last := calls[len(calls)-2]
	if auto {
		n := 0
		for _, kv := range last.given {
			if _, ok := last.cmd.keyOf(last.cmd.arg(kv.K).Name); ok {
				n++
			}
		}
		c.NonTrivial(n > 0)
	} else {
		c.NonTrivial(s.wrote && len(s.calls) > 1)
	}
	r := b.Run(words...)
	c.Check(r.Code == 0, "exit code %d", r.Code)
	c.Check(tk.Eq(tk.CallStrs(r.Calls), s.calls), "calls %v, expected %v", tk.CallStrs(r.Calls), s.calls)
	if !auto {
		return
	}
	// An argument that is not mapped is not accepted.
	for _, d := range g.vocab {
		m := last.cmd
		if m.arg(d.Name) != nil || !c.Chance("unmapped", 40) {
			continue
		}
		r := b.Run(m.name, d.Name+"=5")
		c.Check(r.Code != 0 && len(r.Calls) == 0, "%s %s=5, which is not an argument of it: exit code %d, calls %v",
			m.name, d.Name, r.Code, tk.CallStrs(r.Calls))
		c.Label("not mapped")
		break
	}
}

func TestC22(t *testing.T) {
	tk.Prop(t, "mappings", 1500, 8,
		"modules and flows with arguments (abbreviations, defaults), [arg2env] and [val2env] mappings (literals and templates over the arguments) to a few shared keys, some of them saved before; a sequence of calls with random arguments (by name, abbreviation, position; awkward values) and own settings, then a probe: every module must be invoked with the arguments and the environment of a model of declared mappings; non-trivial when a mapping writes and at least two modules run",
		func(c *tk.C) { c22(c, false) })
	tk.Prop(t, "automatic", 1500, 8,
		"the same with one or two nested flows with args.auto (a list of names or abbreviations in any order, own arguments, '*', '**', declared writes that make '*' leave out a key): the flow must accept the mapped arguments by name, abbreviation and position, write the key that the first command having the argument writes, use its default, and refuse the others; non-trivial when a mapped argument is given",
		func(c *tk.C) { c22(c, true) })
}

func unquote(s string) string {
	if n := len(s); n > 1 && s[0] == s[n-1] && strings.Contains("'\"", s[:1]) {
		return s[1 : n-1]
	}
	return s
}
