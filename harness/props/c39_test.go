package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

var showBools = []string{
	"display.meow", "display.executor", "display.executor.end", "display.bootstrap", "display.one-cmd", "display.utf8",
	"display.utf8.symbols", "display.stack", "display.env", "display.env.sys", "display.env.sys.paths", "display.env.layer",
	"display.env.default", "display.env.display", "display.mod.quiet", "display.mod.realname", "display.mod.input-name",
	"display.mod.input-name.with-realname", "display.sensitive", "display.tip", "display.color",
}

var showCmds = []string{
	"display.quiet", "disp.q", "display.verbose", "display.v", "display.v.default", "disp.verb.def", "disp.v.inc", "disp.verbose.increase volume=3", "disp.v.increase v=99", "disp.v.inc 0", "disp.v.dec",
	"disp.v.decrease volume=2", "disp.v.dec v=99", "disp.v.inc volume=-2", "display.color.on", "display.color.off", "display.utf8.off", "display.env.on", "display.env.layer.on",
	"display.stack.off", "display.meow.on", "display.sensitive.on", "display.cmd.quiet.on", "display.cmd.input-name.on",
	"display.cmd.input-name.with-realname.on", "display.executor.off", "display.executor.on", "display.end.on", "display.env.sys.paths.on", "display.env.display.on",
	"display.one-cmd.on", "display.width 40", "display.width 7", "display.width 300", "display.width", "display.style heavy", "display.style ascii",
	"display.style corner", "display.style no-such", "display.style slash", "display.tips.off", "display.bootstrap.on",
}

// showSettings draws saved settings of the display.
func showSettings(c *tk.C) (r []string) {
	for _, k := range showBools {
		if c.Chance("bool", 45) {
			on := tk.Pick(c, "on", "true", "t", "1", "on", "y", "yes", "false", "f", "0", "off", "n")
			r = append(r, k+"="+on)
		}
	}
	if c.Bool("width") {
		r = append(r, "display.width="+tk.Pick(c, "width-val", "0", "1", "3", "10", "21", "39", "60", "99", "120", "1000", "-5"))
	}
	if c.Chance("height", 20) {
		r = append(r, "display.height="+tk.Pick(c, "height-val", "0", "1", "5", "-1"))
	}
	if c.Chance("cnt", 60) {
		r = append(r, "display.max-cmd-cnt="+tk.Pick(c, "cnt-val", "0", "1", "2", "3", "4", "5", "6", "9", "9999", "-3"))
	}
	if c.Bool("style") {
		r = append(r, "display.style="+tk.Pick(c, "style-val", "utf8", "ascii", "heavy", "slash", "corner", "nosuch", ""))
	}
	if c.Chance("indent", 20) {
		r = append(r, "display.hint.indent.2rd="+tk.Pick(c, "indent-val", "0", "1", "200"))
	}
	// values to be shown
	for i := c.Int("shown-vals", 0, 3); i > 0; i-- {
		r = append(r, fmt.Sprintf("x%d.%s=%s", i, tk.Pick(c, "xk", "a", "password", "verylong"+strings.Repeat("n", 90), "é"),
			tk.Pick(c, "xv", "", "plain", strings.Repeat("long ", 400), "日本語テキスト", "\x1b[31mred", "a\tb", "%s%d%!", "[[x]]", "'q' \"r\"")))
	}
	return r
}

func TestC39(t *testing.T) {
	tk.Prop(t, "programs", 1200, 8,
		"random programs as for C30 with up to 20 saved display settings (every switch in several spellings, widths and counts down to negative ones, known and unknown styles), values hard to show (long, wide, with escapes, formats, tabs) and up to 4 commands changing the verbosity, colors, width or style anywhere in the program; the calls with their arguments and the environment each one sees, and the exit status must be the modelled ones, whatever is shown, and nothing crashes; non-trivial when the commands run are shown and the display is not the default one",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			p := NewProgs(c, b, 4, 9)
			saved := showSettings(c)
			for _, k := range tk.Subset(c, "saved", pKeys) {
				saved = append(saved, k+"=s"+k[2:])
				p.env[k] = "s" + k[2:]
			}
			sort.Strings(saved)
			b.Saved(saved...)
			seq := p.Seq(0, 2, 6)
			// commands for the display at any place
			var words []string
			cmds := 0
			show := func() {
				if cmds < 4 && c.Chance("show", 20) {
					cmds++
					words = append(words, strings.Fields(tk.Pick(c, "show-cmd", showCmds...))...)
					words = append(words, ":")
				}
			}
			for i, it := range seq {
				if i > 0 {
					words = append(words, ":")
				}
				show()
				words = append(words, it.words()...)
			}
			c.Desc("saved %q; ticat %q", clipAll(saved), words)
			ok := p.Run(seq)
			if p.cost > 120 {
				c.Label("too-long")
				return
			}
			r := b.RunOpt(tk.Opt{Timeout: 60 * time.Second}, words...)
			c.Check(tk.RuntimeCrash(r) == "" && !strings.Contains(r.All(), "should never happen"), "crashed: %s", tk.RuntimeCrash(r))
			c.Check(p.Diff(r.Calls) == "", "%s", p.Diff(r.Calls))
			c.Check((r.Code == 0) == ok, "exits with %d, expected success to be %v: %q", r.Code, ok, clipVal(r.All()))
			shown := strings.Contains(r.Out, ">> ") || strings.Contains(r.Out, "flow")
			c.NonTrivial(shown && len(saved)+cmds > 0)
		})
}

func clipAll(vs []string) (r []string) {
	for _, v := range vs {
		r = append(r, clipVal(v))
	}
	return r
}
