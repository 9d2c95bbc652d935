package props

import (
	"strings"
	"testing"

	"vharness/tk"
)

// blendReq asks for replacing a command of the flow.
type blendReq struct {
	target string
	dest   *Cmd
	all    bool
}

// blend is the model: direct works flow by flow like a rewriting of the
// sequence, otherwise every command is looked at when it is its turn.
type blend struct {
	active []*blendReq
	reqs   map[*Cmd]*blendReq
	calls  []string
}

func (m *blend) one(w *Cmd) []*Cmd {
	for i, r := range m.active {
		if r.target != strings.Fields(w.Path)[0] {
			continue
		}
		if !r.all {
			m.active = append(append([]*blendReq{}, m.active[:i]...), m.active[i+1:]...)
		}
		return []*Cmd{r.dest}
	}
	return []*Cmd{w}
}

func (m *blend) exec(w *Cmd, f func([]*Cmd)) {
	if w.IsFlow {
		f(w.Seq)
	}
	if w.Script {
		m.calls = append(m.calls, tk.Call{Name: w.name(), Args: w.args()}.String())
	}
}

func (m *blend) direct(seq []*Cmd) {
	var r []*Cmd
	for _, w := range seq {
		if q := m.reqs[w]; q != nil {
			m.active = append(m.active, q)
			continue
		}
		r = append(r, m.one(w)...)
	}
	for _, w := range r {
		m.exec(w, m.direct)
	}
}

func (m *blend) inTurn(seq []*Cmd) {
	for _, w := range seq {
		if q := m.reqs[w]; q != nil {
			m.active = append(m.active, q)
			continue
		}
		for _, x := range m.one(w) {
			m.exec(x, m.inTurn)
		}
	}
}

func reaches(w *Cmd, names map[string]bool) bool {
	if names[strings.Fields(w.Path)[0]] {
		return true
	}
	for _, x := range w.Seq {
		if reaches(x, names) {
			return true
		}
	}
	return false
}

func TestC21(t *testing.T) {
	tk.Prop(t, "requests", 1500, 8,
		"a random sequence over modules (with awkward arguments), builtins and nested flows (some commands with own settings, some runs with a global one) with one to four requests to replace a command, once or for all, at random positions of the top sequence, on distinct commands or several on one; the module invocations with arguments and settings must be those of the model (cases in which 'the next one' depends on whether subflows come first are turned into for-all requests in front); non-trivial when a request changes an invocation and another command is left",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 4, MaxFlows: 3, MaxSeq: 4, ArgMod: true, Script: tk.Script{EnvPref: "k."}})
			b := w.B
			seq := w.GenSeq("seq", 1, 5)
			plain := &blend{}
			plain.inTurn(seq)

			var reqs []*blendReq
			targets := map[string]bool{}
			for i, n := 0, c.Int("requests", 1, 4); i < n; i++ {
				r := &blendReq{all: c.Bool("all")}
				r.target = strings.Fields(tk.Pick(c, "target", w.Cmds...).Path)[0]
				targets[r.target] = true
				r.dest = tk.Pick(c, "dest", w.Cmds...)
				reqs = append(reqs, r)
			}
			var rs []*blendReq
			for _, r := range reqs {
				if r.dest == nil || !reaches(r.dest, targets) {
					rs = append(rs, r)
				}
			}
			reqs = rs
			place := func(front bool) []*Cmd {
				out := append([]*Cmd{}, seq...)
				m := map[*Cmd]*blendReq{}
				for i, r := range reqs {
					r.all = r.all || front
					name := "flow.replace"
					x := &Cmd{Path: name, Noop: true}
					m[x] = r
					at := i
					if !front {
						at = c.Int("at", 0, len(out))
						if c.Chance("in front", 50) {
							at = 0
						}
					}
					out = append(append(append([]*Cmd{}, out[:at]...), x), out[at:]...)
				}
				plainReq = m
				return out
			}
			full := place(false)
			m1, m2 := &blend{reqs: plainReq}, &blend{reqs: plainReq}
			m1.direct(full)
			m2.inTurn(full)
			if !tk.Eq(m1.calls, m2.calls) {
				c.Label("made unambiguous")
				full = place(true)
				m1, m2 = &blend{reqs: plainReq}, &blend{reqs: plainReq}
				m1.direct(full)
				m2.inTurn(full)
				if !tk.Eq(m1.calls, m2.calls) {
					tk.Infra("the models differ: %v %v", m1.calls, m2.calls)
				}
			}
			var words []string
			if c.Chance("global", 30) {
				words = append(words, "{k.g=1}", ":")
				for i, x := range m1.calls {
					m1.calls[i] = x + ` k.g="1"`
				}
			}
			for i, x := range full {
				if i > 0 {
					words = append(words, ":")
				}
				r := plainReq[x]
				if r == nil {
					words = append(words, x.words()...)
					continue
				}
				name := x.Path
				if r.all {
					name += ".all"
				}
				words = append(words, name)
				dest := ""
				if r.dest != nil {
					dest = r.dest.Path
				}
				key, tkey := "dest=", tk.Pick(c, "src", "src=", "source=", "target=")
				if c.Bool("named") || strings.Contains(dest, "=") {
					words = append(words, tkey+r.target)
					if r.dest != nil {
						words = append(words, key+dest)
					}
				} else {
					words = append(words, r.target)
					if r.dest != nil {
						words = append(words, dest)
					}
				}
			}
			c.Desc("%s", strings.Join(words, " "))
			r := b.Run(words...)
			c.NonTrivial(!tk.Eq(plain.calls, m1.calls) && len(m1.calls) > 0)
			c.Check(r.Code == 0, "exit code %d", r.Code)
			c.Check(tk.Eq(tk.CallStrs(r.Calls), m1.calls), "calls %v, expected %v", tk.CallStrs(r.Calls), m1.calls)
		})
}

var plainReq map[*Cmd]*blendReq
