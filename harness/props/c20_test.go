package props

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

// pauser is the model of running a sequence with breakpoints.
type pauser struct {
	c             *tk.C
	before, after map[string]bool
	end           bool
	here, pend    bool
	quit          bool
	answers       []string
	events        []string // "P" and the scripts run
	kinds         map[string]bool
	maxPauses     int
	unbreak       map[string]bool
}

func (p *pauser) ask(opts ...string) string {
	a := opts[0]
	if len(p.answers) < p.maxPauses {
		a = tk.Pick(p.c, "answer", opts...)
		if a == "q" && !p.c.Chance("quit", 30) {
			a = opts[0]
		}
	}
	p.kinds[a] = true
	p.events = append(p.events, "P")
	switch p.c.Int("typed", 0, 9) {
	case 8:
		p.answers = append(p.answers, " "+strings.ToUpper(a)+" ")
	case 9:
		p.answers = append(p.answers, "zz\n\n"+a)
	default:
		p.answers = append(p.answers, a)
	}
	p.pend = false
	return a
}

func (p *pauser) run(seq []*Cmd) {
	for _, w := range seq {
		if p.quit {
			return
		}
		name := strings.Fields(w.Path)[0]
		switch name {
		case "break":
			p.here = true
			continue
		case "break.at":
			for _, n := range strings.Split(w.Sets.V, ",") {
				p.before[n] = true
			}
			continue
		case "break.after":
			for _, n := range strings.Split(w.Sets.V, ",") {
				p.after[n] = true
			}
			continue
		case "break.clear":
			p.before, p.after = map[string]bool{}, map[string]bool{}
			p.end = false
			continue
		}
		a, step := "c", false
		if p.before[name] || p.here || p.pend {
			opts := []string{"c", "d", "d", "q"}
			if !p.after[name] {
				opts = append(opts, "s", "s")
			}
			if w.IsFlow {
				opts = append(opts, "t", "t", "t")
			}
			p.here = false
			a = p.ask(opts...)
		}
		switch a {
		case "q":
			p.quit = true
			return
		case "s":
			p.pend = true
			continue
		case "t":
			p.pend = true
		case "d":
			step = true
		}
		if w.IsFlow {
			p.run(w.Seq)
			if p.quit {
				return
			}
		}
		skip := false
		if w.IsFlow && w.Script && p.pend {
			// between the flow and the script
			switch p.ask("c", "d", "s", "q") {
			case "q":
				p.quit = true
				return
			case "s":
				skip, step = true, true
			case "d":
				step = true
			}
		}
		if w.Script && !skip {
			p.events = append(p.events, w.name())
		}
		p.pend = p.pend || step
		if p.after[name] {
			opts := []string{"c", "d", "q"}
			if p.pend {
				opts = opts[1:] // what continue means after a step over is not specified
			}
			switch p.ask(opts...) {
			case "d":
				p.pend = true
			case "q":
				p.quit = true
				return
			}
		}
	}
}

var pauseEvent = regexp.MustCompile(`(?m)paused by '|^RAN (\S+)$`)

func TestC20(t *testing.T) {
	tk.Prop(t, "breakpoints", 2400, 8,
		"a random sequence of modules, builtins and nested flows with breakpoints before or after random commands (set before or in the middle of the sequence, by path or abbreviation), position marks at any level and possibly one at the end; at each pause a random offered answer (continue, step over, step in, skip, quit; also after invalid input) is typed, or all answers are there from the start; the pauses and the executed scripts must be exactly those of the model, in order, with the environment unchanged by it; non-trivial when there is at least one pause answered with something else than continue",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 3, MaxFlows: 3, MaxSeq: 4, NoTrivial: true,
				Script: tk.Script{Body: `echo "RAN ${0##*/mods/}"`, EnvPref: "k."},
				Extra:  []*Cmd{{Path: "break", Noop: true}}})
			b := w.B
			seq := w.GenSeq("seq", 1, 6)
			p := &pauser{c: c, before: map[string]bool{}, after: map[string]bool{}, kinds: map[string]bool{}, maxPauses: 8}
			var named []string
			short := map[string]string{"noop": "", "dummy": "dm"}
			for i, m := range w.Mods {
				if c.Bool("has abbr") {
					b.File("mods/"+strings.ReplaceAll(m.Path, ".", "/")+".bash.ticat", fmt.Sprintf("help = h\nabbrs = vz%d\n", i))
					short[m.Path] = m.Path[:strings.LastIndex(m.Path, ".")+1] + fmt.Sprintf("vz%d", i)
				}
			}
			for _, x := range w.Cmds {
				if x.Path != "break" {
					named = append(named, strings.Fields(x.Path)[0])
				}
			}
			for i, n := 0, c.Int("set", 0, 3); i < n; i++ {
				kind := tk.Pick(c, "kind", "break.at", "break.at", "break.after", "break.clear")
				x := &Cmd{Path: kind, Noop: true, Sets: KV{"", tk.Pick(c, "named", named...)}}
				if kind != "break.clear" {
					if c.Chance("two", 20) {
						x.Sets.V += "," + tk.Pick(c, "named", named...)
					}
					var ns []string
					for _, n := range strings.Split(x.Sets.V, ",") {
						if short[n] != "" && c.Bool("by abbr") {
							n = short[n]
						}
						ns = append(ns, n)
					}
					x.Words = []string{kind, tk.Pick(c, "arg name", "break-points=", "cmds=", "") + strings.Join(ns, ",")}
				} else if n == 1 {
					continue
				}
				at := 0
				if c.Chance("middle", 30) {
					at = c.Int("at", 0, len(seq))
				}
				seq = append(append(append([]*Cmd{}, seq[:at]...), x), seq[at:]...)
			}
			var words []string
			for i, x := range seq {
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, x.words()...)
			}
			if c.Chance("at end", 15) {
				p.end = true
				words = append([]string{"break.at.end", ":"}, words...)
			}
			p.run(seq)
			if !p.quit && (p.end || p.here) {
				p.quit = p.ask("c", "q") == "q"
			}
			c.Desc("%s  answers %q", strings.Join(words, " "), p.answers)
			b.Quiet()
			o := tk.Opt{Prompt: "choose one and press enter:", Answers: p.answers}
			if c.Chance("piped", 30) {
				o = tk.Opt{Stdin: strings.Join(p.answers, "\n") + "\n"}
			}
			r := b.RunOpt(o, words...)
			var got []string
			for _, g := range pauseEvent.FindAllStringSubmatch(r.Out, -1) {
				if g[1] == "" {
					got = append(got, "P")
				} else {
					got = append(got, strings.ReplaceAll(strings.TrimSuffix(g[1], ".bash"), "/", "."))
				}
			}
			c.NonTrivial(p.kinds["d"] || p.kinds["s"] || p.kinds["t"] || p.kinds["q"])
			for k := range p.kinds {
				c.Label("answer " + k)
			}
			c.Check(tk.Eq(got, p.events), "pauses (P) and scripts: %s, expected %s", strings.Join(got, " "), strings.Join(p.events, " "))
			c.Check((r.Code != 0) == p.quit, "exit code %d, quit: %v", r.Code, p.quit)
			for _, k := range r.Calls {
				c.Check(len(k.Env) == 0, "%s saw the environment %v", k.Name, k.Env)
			}
		})
}
