package props

import (
	"strings"
	"testing"

	"vharness/tk"
)

func TestC01(t *testing.T) {
	tk.Prop(t, "sequence", 2400, 8,
		"a random world of 1-5 script modules and 0-4 nested flows (plain or script+flow), a sequence of 1-6 of them, and possibly one failure at a random invocation index; non-trivial when at least two scripts run and a flow is involved or a failure is injected",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 5, MaxFlows: 4, MaxSeq: 4, NoSession: true, Script: tk.Script{Count: true}})
			seq := w.GenSeq("seq", 1, 6)
			want := Invocations(seq)
			_, h := size(seq)
			fail := 0
			how := ""
			if c.Chance("fail", 60) && len(want) > 0 {
				fail = c.Int("failat", 1, len(want))
				how = tk.Pick(c, "how", "exit 1", "exit 2", "exit 255", "exit 126", "kill -TERM $$", "kill -KILL $$", "exit 7")
				w.B.FailAt(fail, how)
			}
			// A builtin that fails, at the end of or inside the sequence.
			words := Words(seq)
			builtinFail := false
			if fail == 0 && c.Chance("builtin-fail", 20) {
				k := c.Int("at", 0, len(seq))
				bf := tk.Pick(c, "bf", "dbg.error", "dbg.panic", "env.assert.equal key=nokey value=x", "env.update key=nokey value=1", "flow.remove cmd-path=nopath.x")
				want = Invocations(seq[:k])
				words = Words(seq[:k])
				if k > 0 {
					words = append(words, ":")
				}
				words = append(words, strings.Fields(bf)...)
				if k < len(seq) {
					words = append(append(words, ":"), Words(seq[k:])...)
				}
				builtinFail = true
			}
			if fail > 0 {
				want = want[:fail]
			}
			c.Desc("run %q failing at %d (%s)", words, fail, how)
			c.NonTrivial(len(want) > 1 && (h > 0 || fail > 0 || builtinFail))
			if fail > 0 {
				c.Label("script failure")
			} else if builtinFail {
				c.Label("builtin failure")
			} else {
				c.Label("success")
			}
			r := w.B.Run(words...)
			c.Check(tk.Eq(tk.Names(r.Calls), want), "scripts invoked %q, expected %q", tk.Names(r.Calls), want)
			if fail > 0 || builtinFail {
				c.Check(r.Code != 0, "a command failed but the exit status is 0")
			} else {
				c.Check(r.Code == 0, "every command succeeded but the exit status is %d", r.Code)
			}
		})
}
