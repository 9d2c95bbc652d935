package props

import (
	"fmt"
	"sort"
	"strings"

	"vharness/tk"
)

// A program is a sequence of commands (scripts, builtins, flows, repetitions,
// modules calling ticat again in the session they were given) that change the
// environment, fail, tolerate failures and use forest mode. Progs writes the
// modules and flows it uses and holds a model of what running it must do.
type pDef struct {
	name, kind string
	key, val   string
	exit       int
	seq        []*pItem
	n          int
	mode       string
	global     bool // an inner call that sets key itself
}

type pItem struct {
	d    *pDef
	tol  bool
	val  string // argument of a mapping module
	spec string // spelling
}

type Progs struct {
	c      *tk.C
	b      *tk.Box
	defs   []*pDef
	inner  int // percentage of inner calls
	budget int

	env    map[string]string
	writes []string
	Calls  []pCall
	Stat   map[string]int
	cost   int
}

type pCall struct {
	name string
	args []string
	env  map[string]string
}

var pKeys = []string{"k.a", "k.b", "k.c"}

const pKeyScoped = "k.d"

func NewProgs(c *tk.C, b *tk.Box, innerPct, budget int) *Progs {
	return &Progs{c: c, b: b, inner: innerPct, budget: budget, env: map[string]string{}, Stat: map[string]int{}}
}

// words of an item as shell words
func (it *pItem) words() []string {
	d := it.d
	w := []string{d.name}
	switch d.kind {
	case "map":
		w = []string{d.name, "b=" + it.val}
	case "set":
		w = []string{"env.set", "key=" + d.key, "value=" + d.val}
	case "fail", "noop", "forest":
		w = strings.Fields(d.name)
	case "repeat":
		w = []string{tk_if(it.spec == "abbr", "rpt", "repeat"), "cmd=" + strings.Join(d.seq[0].words(), " "), "times=" + fmt.Sprint(d.n)}
	}
	if it.tol {
		if len(w) > 1 && it.spec == "front" {
			w = append([]string{w[0], "%err=ok"}, w[1:]...)
		} else {
			w = append(w, "%err=ok")
		}
	}
	return w
}

func tk_if(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// pWords joins a sequence.
func pWords(seq []*pItem) (r []string) {
	for i, it := range seq {
		if i > 0 {
			r = append(r, ":")
		}
		r = append(r, it.words()...)
	}
	return
}

func pFlow(seq []*pItem) string {
	var r []string
	for _, w := range pWords(seq) {
		r = append(r, pQuote(w))
	}
	return strings.Join(r, " ")
}

func pQuote(w string) string {
	if strings.ContainsAny(w, " '") {
		return "'" + strings.ReplaceAll(w, "'", `'\''`) + "'"
	}
	return w
}

func (p *Progs) Seq(depth, lo, hi int) []*pItem {
	var seq []*pItem
	for i, n := 0, p.c.Int("len", lo, hi); i < n; i++ {
		seq = append(seq, p.item(depth))
	}
	return seq
}

func (p *Progs) item(depth int) *pItem {
	c := p.c
	it := &pItem{tol: c.Chance("tolerate", 30), spec: tk.Pick(c, "spell", "", "front", "abbr")}
	if len(p.defs) > 0 && (p.budget <= 0 || c.Chance("again", 20)) {
		it.d = tk.Pick(c, "which", p.defs...)
	} else {
		it.d = p.def(depth)
	}
	switch it.d.kind {
	case "forest", "noop":
		it.tol = false
	case "map":
		it.val = fmt.Sprint("m", c.Int("mval", 0, 9))
	}
	return it
}

func (p *Progs) def(depth int) *pDef {
	c := p.c
	p.budget--
	kind := tk.Pick(c, "kind", "script", "script", "script", "script", "bad", "bad", "map", "val", "set", "del", "fail", "noop", "forest", "flow", "flow", "fnf", "repeat", "repeat", "scoped")
	if c.Chance("inner", p.inner) {
		kind = "inner"
	}
	if depth >= 3 && (kind == "flow" || kind == "fnf" || kind == "repeat" || kind == "scoped" || kind == "inner") {
		kind = "script"
	}
	d := &pDef{kind: kind, key: tk.Pick(c, "key", pKeys...), val: fmt.Sprint("v", len(p.defs), tk.Pick(c, "valtail", "", " x", "=y", "'", "#"))}
	seqOf := func(lo, hi int) {
		d.seq = p.Seq(depth+1, lo, hi)
	}
	set := func() []string { return []string{d.key + "=" + d.val} }
	s := tk.Script{EnvPref: "k."}
	meta := "help = h\n"
	switch kind {
	case "bad":
		d.kind = "script"
		d.exit = tk.Pick(c, "exit", 1, 3, 255)
		if c.Chance("quiet-error", 30) {
			meta += tk.Pick(c, "qe", "quiet-error", "silent-err") + " = true\n"
			p.Stat["quiet-error"]++
		}
	case "del":
		d.kind = "script"
		d.val = "--"
	case "map":
		meta += "[args]\nb = 0\n[arg2env]\n" + d.key + " = b\n"
	case "val":
		d.val = strings.TrimRight(d.val, "'# ")
		d.val = strings.ReplaceAll(d.val, " ", "")
		d.val = strings.ReplaceAll(d.val, "=", "")
		meta += "[val2env]\n" + d.key + " = " + d.val + "\n"
	case "set":
		d.val = strings.NewReplacer("=", "", "'", "", "#", "").Replace(d.val)
	case "fail":
		d.name = tk.Pick(c, "builtin", "dbg.error", "dbg.panic", "dbg.panic.cmd", "env.assert.equal key=nokey value=x", "env.update key=nokey value=1", "flow.remove cmd-path=nopath.x")
	case "noop":
		d.name = tk.Pick(c, "builtin", "noop", "dummy", "mark-time k.t")
		if d.name == "mark-time k.t" {
			d.name = "noop"
		}
	case "forest":
		d.name = tk.Pick(c, "forest", "flow.forest-mode", "flow.forest", "f.forest")
	case "repeat":
		d.n = c.Int("times", 1, 4)
		it := p.item(depth + 1)
		for it.d.kind == "repeat" || it.d.kind == "set" || it.d.kind == "forest" {
			it = &pItem{d: p.script(depth)}
		}
		d.seq = []*pItem{it}
	case "flow", "scoped":
		seqOf(1, 4)
	case "fnf":
		seqOf(1, 3)
		if c.Chance("fails", 25) {
			d.exit = 2
		}
	case "inner":
		seqOf(1, 4)
		d.mode = tk.Pick(c, "rc", "pass", "ignore", "ignore")
		d.global = c.Chance("global", 15)
		if d.global && !strings.HasPrefix(d.val, "--") {
			d.val = fmt.Sprint("g", len(p.defs))
		}
	}
	if d.name == "" {
		d.name = fmt.Sprintf("v%s%d", string(d.kind[0]), len(p.defs))
		switch d.kind {
		case "flow":
			p.b.Flow(d.name, "flow = "+pFlow(d.seq)+"\n")
			p.c.Desc("flow %s = %s", d.name, pFlow(d.seq))
		case "scoped":
			d.val = fmt.Sprint("w", len(p.defs))
			p.b.Flow(d.name, "flow = {"+pKeyScoped+"="+d.val+"} "+pFlow(d.seq)+"\n")
			p.c.Desc("flow %s = {%s=%s} %s", d.name, pKeyScoped, d.val, pFlow(d.seq))
		case "fnf":
			s.Exit = d.exit
			p.b.Mod(d.name, s, meta+"flow = "+pFlow(d.seq)+"\n")
			p.c.Desc("module %s exits %d, flow = %s", d.name, d.exit, pFlow(d.seq))
		case "inner":
			g := "session=$sess"
			if d.global {
				g += "\" \"" + d.key + "=" + d.val
			}
			var ws []string
			for _, w := range pWords(d.seq) {
				ws = append(ws, tk.Shq(w))
			}
			s.Body = fmt.Sprintf("%q \"{%s}\" %s; rc=$?; if [ $rc -eq 0 ]; then vlog ok; else vlog failed; fi\n", p.b.Bin, g, strings.Join(ws, " "))
			if d.mode == "pass" {
				s.Body += "exit $rc\n"
			}
			p.b.Mod(d.name, s, meta)
			p.c.Desc("module %s (%s) calls: {%s} %s", d.name, d.mode, g, strings.Join(ws, " "))
		case "script":
			s.Append, s.Exit = set(), d.exit
			p.b.Mod(d.name, s, meta)
			p.c.Desc("module %s sets %s=%s, exits %d %s", d.name, d.key, d.val, d.exit, strings.ReplaceAll(meta[len("help = h\n"):], "\n", " "))
		case "map", "val":
			p.b.Mod(d.name, s, meta)
			p.c.Desc("module %s: %s", d.name, strings.ReplaceAll(meta[len("help = h\n"):], "\n", " "))
		}
	}
	p.defs = append(p.defs, d)
	return d
}

func (p *Progs) script(depth int) *pDef {
	d := &pDef{kind: "script", name: fmt.Sprintf("vs%d", len(p.defs)), key: "k.a", val: fmt.Sprint("v", len(p.defs))}
	p.b.Mod(d.name, tk.Script{EnvPref: "k.", Append: []string{d.key + "=" + d.val}}, "")
	p.c.Desc("module %s sets %s=%s, exits 0", d.name, d.key, d.val)
	p.defs = append(p.defs, d)
	return d
}

// ------------------------------------------------------------------ model

func (p *Progs) set(k, v string) {
	p.writes = append(p.writes, k)
	if v == "--" {
		delete(p.env, k)
		return
	}
	p.env[k] = v
}

func (p *Progs) snap() map[string]string {
	m := map[string]string{}
	for k, v := range p.env {
		m[k] = v
	}
	return m
}

func (p *Progs) call(name string, args []string, env map[string]string) {
	p.Calls = append(p.Calls, pCall{name, args, env})
}

// Run is the model of running a sequence.
func (p *Progs) Run(seq []*pItem) bool {
	forest := false
	for _, it := range seq {
		var keep map[string]string
		if forest {
			keep = p.snap()
		}
		ok := p.run(it)
		if forest {
			for k, v := range p.env {
				if keep[k] != v {
					p.Stat["discarded"]++
				}
			}
			p.env = keep
		}
		if !ok {
			return false
		}
		if it.d.kind == "forest" {
			forest = true
			p.Stat["forest"]++
		}
	}
	return true
}

func (p *Progs) run(it *pItem) bool {
	p.cost++
	if p.cost > 120 {
		return false
	}
	ok := p.run1(it)
	if !ok && it.tol {
		p.Stat["tolerated"]++
		return true
	}
	if !ok {
		p.Stat["failed"]++
	}
	return ok
}

func (p *Progs) run1(it *pItem) bool {
	d := it.d
	switch d.kind {
	case "script":
		p.call(d.name, nil, p.snap())
		p.set(d.key, d.val)
		if d.exit != 0 && !it.tol {
			// what a failed script wrote is up to the implementation
			p.set(d.key, "?")
		}
		return d.exit == 0
	case "map":
		p.set(d.key, it.val)
		p.call(d.name, []string{it.val}, p.snap())
	case "val":
		p.set(d.key, d.val)
		p.call(d.name, nil, p.snap())
	case "set":
		p.set(d.key, d.val)
	case "fail":
		return false
	case "flow":
		return p.Run(d.seq)
	case "scoped":
		old, had := p.env[pKeyScoped]
		p.set(pKeyScoped, d.val)
		ok := p.Run(d.seq)
		if !ok && p.env[pKeyScoped] == "?" {
			return ok
		}
		if had {
			p.env[pKeyScoped] = old
		} else {
			delete(p.env, pKeyScoped)
		}
		return ok
	case "fnf":
		if !p.Run(d.seq) {
			return false
		}
		p.call(d.name, nil, p.snap())
		return d.exit == 0
	case "repeat":
		for i := 0; i < d.n; i++ {
			if !p.run(d.seq[0]) {
				return false
			}
			if i > 0 {
				p.Stat["repeated"]++
			}
		}
	case "inner":
		p.Stat["inner"]++
		before := p.snap()
		p.call(d.name, nil, before)
		mark := len(p.writes)
		if d.global {
			p.set(d.key, d.val)
		}
		ok := p.Run(d.seq)
		p.call(d.name, []string{tk_if(ok, "ok", "failed")}, before)
		if !ok {
			p.Stat["inner-failed"]++
			for _, k := range p.writes[mark:] {
				p.env[k] = "?"
			}
			if d.mode == "pass" && !it.tol {
				// whether the changes of the module itself are kept does not matter
				return false
			}
			return d.mode != "pass"
		}
		for k, v := range p.env {
			if before[k] != v {
				p.Stat["inner-changes"]++
			}
		}
		if d.global && p.env[d.key] == d.val {
			p.set(d.key, "?")
		}
	}
	return true
}

// Diff compares the calls with the model.
func (p *Progs) Diff(calls []tk.Call) string {
	show := func(m map[string]string) string {
		var r []string
		for k, v := range m {
			r = append(r, k+"="+v)
		}
		sort.Strings(r)
		return strings.Join(r, " ")
	}
	for i := 0; i < len(calls) || i < len(p.Calls); i++ {
		if i >= len(calls) {
			return fmt.Sprintf("%s%q is not run (call %d)", p.Calls[i].name, p.Calls[i].args, i)
		}
		g := calls[i]
		if i >= len(p.Calls) {
			return fmt.Sprintf("%s%q is run in addition (call %d)", g.Name, g.Args, i)
		}
		w := p.Calls[i]
		if g.Name != w.name || !tk.Eq(g.Args, w.args) {
			return fmt.Sprintf("call %d is %s%q, expected %s%q", i, g.Name, g.Args, w.name, w.args)
		}
		for _, k := range append(append([]string{}, pKeys...), pKeyScoped) {
			wv, wok := w.env[k]
			gv, gok := g.Env[k]
			if wv != "?" && (wv != gv || wok != gok) {
				return fmt.Sprintf("%s%q (call %d) sees %s = %q, expected %q; got env {%s} expected {%s}", g.Name, g.Args, i, k, gv, wv, show(g.Env), show(w.env))
			}
		}
	}
	return ""
}
