package props

import (
	"strings"
	"testing"

	"vharness/tk"
)

// noTemplates takes template brackets out of the values: in a flow they are
// references (property C09).
func (l *Line) noTemplates() {
	fix := func(kvs []KV) {
		for i := range kvs {
			kvs[i].V = strings.ReplaceAll(kvs[i].V, "[[", "[ [")
		}
	}
	fix(l.Global)
	for i := range l.Cmds {
		fix(l.Cmds[i].Env)
		fix(l.Cmds[i].Args)
		for j := range l.Cmds[i].Pos {
			l.Cmds[i].Pos[j] = strings.ReplaceAll(l.Cmds[i].Pos[j], "[[", "[ [")
		}
	}
}

func (l *Line) nargs() (n int) {
	for _, k := range l.Cmds {
		n += len(k.Args) + len(k.Pos) + len(k.Env)
	}
	return n + len(l.Global)
}

func TestC08(t *testing.T) {
	tk.Prop(t, "roundtrip", 1100, 8,
		"an abstract line (leading settings, 1-5 commands with own settings and arguments of arbitrary printable values) is saved as a flow, then run directly, as the flow, and inside a sequence, in separate processes, and must invoke the same modules with the same arguments and settings and print the same; saving runs nothing; then another line is saved over it; non-trivial when the line carries at least two values",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			list, decls := genDecls(c, b, c.Int("nmods", 1, 3))
			b.Mod("vx", tk.Script{}, "")
			b.Quiet()
			path := tk.Pick(c, "path", "vsv", "vsv.a", "vsv.b.c", "vd0.sv", "vsv-1.x_y")
			rounds := c.Int("rounds", 1, 2)
			nt := true
			for round := 0; round < rounds; round++ {
				l := genLine(c, list, 5)
				l.noTemplates()
				nt = nt && l.nargs() >= 2
				want, printed := l.Expect(decls, nil)
				words := joinTokens(c, l.Tokens(c, false), c.Bool("vary"))
				c.Desc("save %s as %s", l, path)
				save := append(append([]string{}, words...), ":")
				switch {
				case round > 0 || c.Bool("named"):
					save = append(save, "flow.save", "new-cmd-path="+path)
					if round > 0 {
						save = append(save, "quiet-overwrite=true")
					}
				default:
					save = append(save, "flow.save", path)
				}
				r := b.Run(save...)
				c.Check(r.Code == 0, "%q exits with %d", save, r.Code)
				c.Check(len(r.Calls) == 0, "%q ran %q", save, tk.CallStrs(r.Calls))
				type how struct {
					words []string
					extra bool
				}
				hows := []how{{[]string{path}, false}, {[]string{"vx", ":", path, ":", "vx"}, true}}
				if c.Chance("direct", 30) {
					hows = append(hows, how{words, false})
				}
				for _, h := range hows {
					w := want
					if h.extra {
						w = append(append([]string{"vx()"}, want...), "vx()")
					}
					r := b.Run(h.words...)
					got := tk.CallStrs(r.Calls)
					c.Check(r.Code == 0, "%q exits with %d", h.words, r.Code)
					c.Check(tk.Eq(got, w), "%q, saved from %q, invoked\n %s\nexpected\n %s", h.words, words, strings.Join(got, "\n "), strings.Join(w, "\n "))
					c.Check(r.Out == lines(printed), "%q, saved from %q, printed %q, expected %q", h.words, words, r.Out, lines(printed))
				}
			}
			c.NonTrivial(nt)
		})
	tk.Prop(t, "nested", 500, 8,
		"chains of saved flows: each one saved from a sequence over modules, flow files and earlier saved flows (some of which fail), later re-saved over; runs of every saved flow execute exactly the modules of the current contents in order, with the exit status of the sequence; non-trivial when a saved flow containing another saved one is run after that one was replaced or fails inside",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 3, MaxFlows: 2, MaxSeq: 3, Script: tk.Script{Ctl: true}})
			b := w.B
			b.Quiet()
			var saved []*Cmd
			n := c.Int("saves", 1, 4)
			replaced, fails := false, false
			for i := 0; i < n; i++ {
				seq := w.GenSeq("seq", 1, 3)
				var f *Cmd
				over := len(saved) > 0 && c.Chance("over", 35)
				if over {
					f = tk.Pick(c, "which", saved...)
					// no flow may come to contain itself
					ok := true
					var has func(s []*Cmd) bool
					has = func(s []*Cmd) bool {
						for _, x := range s {
							if x == f || has(x.Seq) {
								return true
							}
						}
						return false
					}
					ok = !has(seq)
					if !ok {
						continue
					}
					for _, x := range saved {
						if x != f && has(x.Seq) {
							replaced = true
						}
					}
				} else {
					f = &Cmd{Path: tk.Pick(c, "dir", "vs", "vs.", "vq.z.") + "f" + string(rune('a'+i)), IsFlow: true}
					saved = append(saved, f)
				}
				f.Seq = seq
				words := append(Words(seq), ":", "flow.save", "new-cmd-path="+f.Path, "quiet-overwrite=true")
				c.Desc("save %s = %s", f.Path, SeqStr(seq))
				r := b.Run(words...)
				c.Check(r.Code == 0 && len(r.Calls) == 0, "%q exits with %d and runs %q", words, r.Code, tk.CallStrs(r.Calls))
				if !over {
					w.Cmds = append(w.Cmds, f)
				}
			}
			fail := ""
			if c.Chance("fail", 40) {
				fail = tk.Pick(c, "failmod", w.Mods...).Path
				b.File("ctl/fail."+fail, "")
				c.Desc("%s fails", fail)
			}
			for _, f := range saved {
				want := Invocations(f.Seq)
				rc := 0
				for i, x := range want {
					if x == fail {
						want = want[:i+1]
						rc = 1
						fails = true
						break
					}
				}
				if len(want) > 40 {
					continue
				}
				r := b.Run(f.Path)
				c.Check((r.Code != 0) == (rc != 0), "%s exits with %d", f.Path, r.Code)
				c.Check(tk.Eq(tk.Names(r.Calls), want), "%s, saved from %q, ran %q, expected %q", f.Path, SeqStr(f.Seq), tk.Names(r.Calls), want)
			}
			c.NonTrivial(replaced || fails)
		})
}
