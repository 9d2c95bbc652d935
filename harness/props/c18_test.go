package props

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

var descHead = regexp.MustCompile(`^( *)\[([^\]]+)\](\^*)( \(schedule to bg in [^)]*\))?$`)

// described lists the commands of a flow description with their depth; "dup"
// is what stands for a flow that is shown already.
func described(out string) []string {
	var r []string
	in := false
	for _, l := range strings.Split(out, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "--->>>"):
			in = true
		case strings.HasPrefix(l, "<<<---"):
			return r
		case in:
			if g := descHead.FindStringSubmatch(l); g != nil {
				r = append(r, fmt.Sprintf("%d %s", len(g[1])/8, g[2]))
			} else if strings.HasPrefix(t, "- flow (duplicated)") || strings.HasPrefix(t, "(duplicated sub flow)") {
				r = append(r, "dup")
			}
		}
	}
	return r
}

var quietCmds = []string{"flow.set-help-str", "flow.replace", "flow.forest-mode"}

// matchDesc tells how a description differs from the sequence.
func matchDesc(got []string, seq []*Cmd, depth int, seen map[string]bool) (rest []string, diff string) {
	for _, w := range seq {
		p := strings.Fields(w.Path)[0]
		if contains(quietCmds, p) {
			continue
		}
		want := fmt.Sprintf("%d %s", depth, p)
		if len(got) == 0 {
			return got, want + " is missing"
		}
		if got[0] != want {
			return got, got[0] + " is there instead of " + want
		}
		got = got[1:]
		if !w.IsFlow {
			continue
		}
		text := SeqStr(w.Seq)
		if len(got) > 0 && got[0] == "dup" {
			if !seen[text] {
				return got, "the flow of " + w.Path + " is not shown before"
			}
			got = got[1:]
			continue
		}
		seen[text] = true
		if got, diff = matchDesc(got, w.Seq, depth+1, seen); diff != "" {
			return
		}
	}
	if depth == 0 && len(got) > 0 {
		return got, "more than the sequence: " + strings.Join(got, ", ")
	}
	return got, ""
}

func TestC18(t *testing.T) {
	tk.Prop(t, "describe", 700, 10,
		"a random world of modules (some reading keys nobody provides or depending on missing OS commands) and nested flows, a sequence of 1-6 of them mixed with builtins that would leave traces (env.save, flow.remove, hub.clear, sessions.remove.all, bash, snapshots, hooks, breakpoints, background marks) with one or two describing, searching, command-info or flow-saving commands appended or in front, by any name, run twice; nothing may be invoked or changed, the second run must print the same, and a flow description must list every command with its depth in order; non-trivial when the sequence would invoke a script",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 4, MaxFlows: 3, MaxSeq: 4, SetBuiltin: true, ArgMod: true, NoTrivial: true})
			b := w.B
			b.Saved("display.color=false", "k.saved=1")
			b.File("ticat.data/flows/vsaved.tiflow", "flow = bash 'echo ran >> \"$VCTL/trace\"'\n")
			need := ""
			if c.Chance("need", 25) {
				need = tk.Pick(c, "needs", "[env]\nk.nokey = read\n", "[deps]\nnosuchoscmd = reason\n")
				b.Mod("vneed", tk.Script{Name: "vneed"}, "help = h\n"+need)
				w.Cmds = append(w.Cmds, &Cmd{Path: "vneed", Script: true, Size: 1})
			}
			seq := w.GenSeq("seq", 1, 5)
			for i, n := 0, c.Int("traces", 0, 2); i < n; i++ {
				x := &Cmd{Path: tk.Pick(c, "trace",
					"env.save", "env.set key=k.tr value=1", "flow.remove cmd-path=vsaved", "flow.clear", "hub.clear", "sessions.remove.all",
					"vsaved", "env.snapshot.save snapshot-name=sn", "hook.exit flow=vsaved", "hook.done flow=vsaved", "hook.error flow=vsaved",
					"break.at break-points=vsaved", "flow.rename src=vsaved dest=vsaved2", "flow.set-help-str cmd-path=vsaved help-str=x",
					"env.clear-and-save", "dbg.panic", "dbg.error", "repeat cmd=vsaved times=2", "join.new key=k.j value=1", "background.wait", "hub.disable-repo find-str=mods",
					"flow.forest-mode", "flow.replace src=sleep dest=vsaved", "quit-nosuch")}
				x.Noop = true
				if x.Path == "quit-nosuch" {
					x.Path = "sessions.set-keep-duration duration=1s"
				}
				if strings.HasPrefix(x.Path, "repeat") {
					v := &Cmd{Path: "vsaved", IsFlow: true, Seq: []*Cmd{{Path: "bash", Noop: true}}}
					x.IsFlow, x.Seq = true, []*Cmd{v, v}
				}
				if x.Path == "vsaved" {
					x.IsFlow, x.Seq = true, []*Cmd{{Path: "bash", Noop: true}}
				}
				k := c.Int("at", 0, len(seq))
				seq = append(append(append([]*Cmd{}, seq[:k]...), x), seq[k:]...)
			}
			words := func(bg bool) []string {
				var r []string
				for i, x := range seq {
					if i > 0 {
						r = append(r, ":")
					}
					if bg && c.Chance("marked", 20) {
						r = append(r, "^")
					}
					if bg && c.Chance("env", 20) && i > 0 {
						r = append(r, "{k.en=1}")
					}
					r = append(r, x.words()...)
					if bg && c.Chance("delay", 15) && len(x.Words) == 0 && !strings.Contains(x.Path, " ") {
						r = append(r, "%delay=0s")
					}
				}
				return r
			}(true)
			b.UseMods()

			flowDesc := []string{"desc", "-", "--", "---", "desc.more", "desc.m", "+", "++", "+++", "desc.full", "desc.f", "desc.flow", "desc.flow.more", "desc.flow.m", "desc.flow.full"}
			others := []string{"desc.dep", "desc.dependencies", "desc.os", "desc.env", "desc.ops", "find", "/", "find.more", "//", "find.full", "///", "cmds", "cmds.more", "tail-sub", "~", "~~", "~~~", "cmd", "cmd.full", "=", "==", "===",
				"flow.save"}
			desc1 := func(label string) (x []string, isFlow bool) {
				if c.Bool(label) {
					x = []string{tk.Pick(c, label+"f", flowDesc...)}
					isFlow = true
					x = append(x, "unfold-trivial=9")
					return
				}
				x = []string{tk.Pick(c, label+"o", others...)}
				switch x[0] {
				case "flow.save":
					x = append(x, "cmd=vnew.fl", "quiet-overwrite=true")
					if c.Bool("help") {
						x = append(x, "help=new help")
					}
				case "find", "/", "find.more", "//", "find.full", "///", "cmds.more":
					// without anything searched for they may print thousands of lines
					x = append(x, "str="+tk.Pick(c, "find", "vm", "vf", "env.sn"))
					if x[0] == "cmds.more" {
						x = []string{"cmds.more", "path=env"}
					}
				}
				return
			}
			d, isFlow := desc1("d1")
			saves := d[0] == "flow.save"
			var line []string
			place := tk.Pick(c, "place", "end", "end", "end", "front", "tail", "two")
			switch place {
			case "end":
				line = append(append(append(line, words...), ":"), d...)
			case "tail":
				line = append(append(append(line, words...), ":", ":"), d...)
			case "front":
				line = append(append(append(line, d...), ":"), words...)
				saves = saves && d[0] == "flow.save"
			case "two":
				d2, _ := desc1("d2")
				saves = saves || d2[0] == "flow.save"
				isFlow = false
				line = append(append(append(append(append(line, words...), ":"), d...), ":"), d2...)
			}
			if place != "tail" && c.Chance("trail", 30) {
				// separators with nothing between them say nothing
				for i, n := 0, c.Int("ntrail", 1, 3); i < n; i++ {
					line = append(line, ":")
				}
				c.Label("trailing-separators")
			}
			c.Label(d[0])
			c.Label("at-" + place)
			c.Desc("%q", line)

			snap := func() map[string]string {
				m := dirSnap(b.Data)
				for k := range m {
					if strings.HasPrefix(k, b.Data+"/sessions") || saves && strings.Contains(k, "vnew") {
						delete(m, k)
					}
				}
				return m
			}
			b.Run("noop")
			before := snap()
			r1 := b.Run(line...)
			r2 := b.Run(line...)
			for _, r := range []tk.Res{r1, r2} {
				c.Check(len(r.Calls) == 0, "%q invoked %v", line, tk.CallStrs(r.Calls))
			}
			c.Check(b.Read("ctl/trace") == "", "%q executed a flow of the sequence", line)
			after := snap()
			if df := snapDiff(before, after); df != "" {
				c.Violate("%q changed the stored data: %s", line, df)
			}
			c.Check(r1.Code == r2.Code, "%q exits %d first, then %d", line, r1.Code, r2.Code)
			norm := func(r tk.Res) string { return volatile.ReplaceAllString(r.Out, "~") }
			if !saves {
				c.Check(norm(r1) == norm(r2), "%q prints first\n%s\nthen\n%s", line, r1.Out, r2.Out)
			}
			if isFlow {
				if need == "" {
					c.Check(r1.Code == 0, "%q exits %d", line, r1.Code)
				}
				got := described(r1.Out)
				if _, diff := matchDesc(got, seq, 0, map[string]bool{}); diff != "" {
					c.Violate("%q describes\n%q: %s", line, got, diff)
				}
			}
			c.NonTrivial(len(Invocations(seq)) > 0)
		})
}
