package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

var blockHead = regexp.MustCompile(`^\[(.+)\]$`)

// cmdBlocks splits what `cmds.full` prints into one block per command,
// without the alternative names (another directory may add some).
func cmdBlocks(out string) map[string]string {
	m := map[string]string{}
	cur, skip := "", false
	for _, l := range strings.Split(out, "\n") {
		if g := blockHead.FindStringSubmatch(l); g != nil {
			cur, skip = g[1], false
			continue
		}
		if !strings.HasPrefix(l, " ") {
			cur = ""
		}
		if cur == "" {
			continue
		}
		if strings.HasPrefix(l, "    - ") {
			skip = strings.HasPrefix(l, "    - full-abbrs:")
		}
		if !skip {
			m[cur] += l + "\n"
		}
	}
	return m
}

type badFile struct {
	kind string
	file string // relative to the directory
	text string
	link string // instead of the text
	dir  bool
	more map[string]string
	// must is what has to be reported (command or file), if it is a clash
	must string
}

var badTokens = []string{"[args]", "[arg]", "[env]", "[deps]", "[flow/]", "[/flow]", "[", "]", "[]", "[/]", "[[x]] =", "[[x]]", "= v", "k =", "=", "\\", "a = \\", "help = ", "flow = ", "flow = echo [[", "### file: b.tiflow", "### file:", "### file: noext", "###", "# c", "\"", "'", "a|b|| = 1", "| = 1", "x = y (", "x = (enum: )", "x = )", "\x00", "\xff\xfe", "quiet = maybe", "trivial = x", "no-session = 7x", "unlog = ?", "args.auto = *", "args.auto = a,,*", "tags = ", "abbrs = ||", "abbrs = .|.", "cmd = /", "cmd = nosuch", "begin-key = ", "[env.write]", "[arg2env]", "[val2env]", "k.a = nosucharg", "sys = read", ". = write", "k..b = read : write", "k.a = r|w", "hide-in-last = 3", "[deps", "[args]]", "  ", "\t= \t"}

var brokenFlows = []string{"echo 'x", "echo \"x", "echo (x", "(", "`", "echo `x", "{", "}", "{a=", "{a=1", "{=}", "{{}}", ": : :", "^", "nosuch.cmd.here", "[[x]]", "echo [[x", "echo [[x]]", "** vg0 [[*x]] **", "** vg0", "vg0 : : vg0 {", "echo \\", "$(x", "a;b", "<x >y", "vg0.nosuch", "::", "noop ::", ":-", "echo x :-", "vg0 = =", "vg0 a=1 a=2 b", "{sys.x", "env.map a", "join.new", "flow.replace x", "bzself", "bzself : bzself"}

func genBad(c *tk.C, i int, late bool) badFile {
	nm := fmt.Sprintf("bz%d", i)
	kind := tk.Pick(c, "kind", "garbage", "garbage", "truncated", "blank", "builtin", "builtin", "dirmeta", "abbr", "args", "envabbr", "target", "flow", "flow", "flow", "combined", "filename", "help", "link", "namesake")
	b := badFile{kind: kind, file: nm + ".bash.ticat", more: map[string]string{}}
	script := "#!/bin/bash\necho MK-bad-" + nm + "\n"
	builtins := []string{"echo", "env", "noop", "e", "h", "sessions.last", "env.set", "sleep", "bash", "flow.save", "api.cmd.type", "cmds"}
	switch kind {
	case "garbage":
		for j, n := 0, c.Int("lines", 1, 7); j < n; j++ {
			b.text += tk.Pick(c, "tok", badTokens...) + tk.Pick(c, "nl", "\n", "\n", "\r\n", " ", "")
		}
		b.file = tk.Pick(c, "gf", nm+".bash.ticat", nm+".tiflow", nm+".ticat", nm+".tiflow")
		if c.Bool("target") && strings.Contains(b.file, ".bash") {
			b.more[nm+".bash"] = script
		}
	case "truncated":
		full := "help = words\nabbrs = " + nm + "a|" + nm + "b\nargs.auto = *\nflow = vg0 : \\\n  {k.b=1} vg0 a='1 2' : \\\n  echo \"x\"\n[args]\nx|y = 1 (enum: 1|2)\n[env]\nk." + nm + " = may-read : write\n[deps]\nls = for\n[env.write]\nk." + nm + " = [[x]]\n"
		b.text = full[:c.Int("cut", 0, len(full))]
		b.file = tk.Pick(c, "gf", nm+".tiflow", nm+".bash.ticat")
		b.more[nm+".bash"] = script
	case "blank":
		b.text = tk.Pick(c, "blank", "", "\n", " ", "# only\n", "\ufeff", "\ufeffhelp = x\n", "\r", "\x00\x00")
		b.file = tk.Pick(c, "gf", nm+".tiflow", nm+".bash.ticat", nm+".ticat")
		if c.Bool("target") {
			b.more[nm+".bash"] = script
		}
	case "builtin":
		p := tk.Pick(c, "builtin", builtins...)
		b.must = map[string]string{"e": "env", "h": "hub"}[p]
		if b.must == "" {
			b.must = p
		}
		meta := "help = other\n[args]\nzarg = 1\n[deps]\nnosuchoscmd = x\n[env]\nk.missing = read\n"
		if c.Bool("as-flow") {
			b.file, b.text = p+".tiflow", "flow = bash 'echo MK-bad'\n"+meta
		} else {
			f := strings.ReplaceAll(p, ".", "/")
			b.file, b.text = f+".bash.ticat", meta
			b.more[f+".bash"] = script
		}
	case "dirmeta":
		p := tk.Pick(c, "builtin", builtins...)
		f := strings.ReplaceAll(p, ".", "/")
		b.more[f+"/note.txt"] = "x"
		b.file = f + ".ticat"
		for j, n := 0, c.Int("lines", 1, 4); j < n; j++ {
			b.text += tk.Pick(c, "dm", "help = other", "tags = bztag", "trivial = 1", "quiet = true", "no-session = true", "unlog = true", "hide-in-last = true", "begin-key = k.ts", "pack-subflow = true") + "\n"
		}
		b.text += tk.Pick(c, "dm2", "", "", "[args]\nzarg = 1\n", "[args]\nmessage = 1\n", "[deps]\nnosuchoscmd = x\n", "[env]\nk.missing = read\n", "[env.write]\nk.w = 1\n", "[arg2env]\nk.w = message\n")
	case "abbr":
		abbrs := []string{"echo", "env", "h", "e", "noop", "sessions", "hub", "~", "-", "="}
		if late {
			abbrs = append(abbrs, "vg0", "vga", "vgf", "vgd")
		}
		a := tk.Pick(c, "abbr", abbrs...)
		b.must = a
		if c.Bool("as-flow") {
			b.file, b.text = nm+".tiflow", "abbrs = "+a+"\nflow = bash 'echo MK-bad'\n"
		} else {
			b.text = "help = x\nabbr = " + nm + "x|" + a + "\n[args]\na = 1\n"
			b.more[nm+".bash"] = script
		}
	case "args":
		b.text = "help = x\n[args]\n" + tk.Pick(c, "args", "a|b = 1\nb|a = 2\n", "a|a = 1\n", "a = 1\na|b = 2\n", " = 1\n", "|x = 1\n", "a = x (enum: y|z)\n", "a = (enum:)\n", "a.b = 1\n", "a = 1 (\n", "a|b = [[c]]\nc = [[a]]\n", "a = )\n", "a b|c d = 1\n")
		b.more[nm+".bash"] = script
		b.more[nm+"f.tiflow"] = "flow = " + nm + "\nargs.auto = *\n"
	case "envabbr":
		keys := []string{"q|sys", "q|strs", "q|display", "k|sys", "sys|q", "k.zz|x", "|", "a||b", ".", "k.", ".k", "q|session", "zsaved2|zsaved"}
		if late {
			keys = append(keys, "q|k", "q|gka", "gk|zz.gx|y", "other|gk")
		}
		k := tk.Pick(c, "key", keys...)
		b.text = "help = x\n" + tk.Pick(c, "sec", "[env]\n"+k+" = may-read\n", "[env]\n"+k+" = write\n", "[env.write]\n"+k+" = 1\n", "[args]\na = 1\n[arg2env]\n"+k+" = a\n")
		b.more[nm+".bash"] = script
	case "target":
		b.text = "help = x\n" + tk.Pick(c, "tg", "", "cmd = nosuch.sh\n", "cmd = .\n", "cmd = ../../..\n", "flow = vg0\ncmd = x\n", "[args]\na = 1\n")
		b.file = tk.Pick(c, "gf", nm+".bash.ticat", nm+".ticat", nm+"/x.ticat")
		if c.Bool("isdir") {
			b.more[strings.TrimSuffix(b.file, ".ticat")+"/z.txt"] = "z"
		}
	case "flow":
		b.file = nm + ".tiflow"
		f := tk.Pick(c, "broken", brokenFlows...)
		if c.Bool("second") {
			f = tk.Pick(c, "broken", brokenFlows...) + " : " + f
		}
		b.text = "help = x\n" + tk.Pick(c, "auto", "args.auto = *\n", "args.auto = a\n", "args.auto = a,b=1\n", "") + "flow = " + f + "\n" + tk.Pick(c, "fa", "", "[args]\nx = [[x]]\n", "[args]\nx = 1\n")
		b.more["bzself.tiflow"] = "flow = bzself2\nargs.auto = *\n"
		b.more["bzself2.tiflow"] = "flow = bzself\nargs.auto = *\n"
	case "combined":
		b.file = nm + ".tiflow"
		b.text = tk.Pick(c, "header", "", "# head\n", "\n", "help = x\n", "flow = echo 1\n")
		for j, n := 0, c.Int("parts", 1, 3); j < n; j++ {
			b.text += "### file: " + tk.Pick(c, "part", nm+".a.tiflow", nm+".b.tiflow", "echo.tiflow", "env.tiflow", "", "x", ".tiflow", "a/b.tiflow") + "\n" + tk.Pick(c, "pt", "flow = bash 'echo MK-bad'\n", "flow = echo 'x\n", "bad line\n", "", "abbrs = e\nflow = noop\n")
		}
	case "filename":
		b.file = tk.Pick(c, "fn", ".tiflow", "..tiflow", "a..b.tiflow", ".a.tiflow", "a..tiflow", " .tiflow", "bz x.bash.ticat", ".ticat", "..ticat", "-.tiflow", "=.tiflow", "{.tiflow", "bz:x.tiflow", "[.tiflow", "bz/.ticat", "bz/.bash.ticat", "/.tiflow", strings.Repeat("bz.", 60)+"tiflow", "*.tiflow", "'.tiflow", "[[x]].tiflow")
		b.text = "help = x\nflow = bash 'echo MK-bad'\n"
	case "help":
		b.file = nm + ".tihelp"
		b.text = tk.Pick(c, "ht", "", "\n", "title", "title\ntext\n", strings.Repeat("long", 30000))
	case "link":
		b.file = tk.Pick(c, "lf", nm+".tiflow", nm+".bash.ticat", nm+".tihelp", nm+"d", nm+"d.ticat")
		b.link = tk.Pick(c, "lt", "/nonexistent", ".", b.file, "..", "/dev/null")
	case "namesake":
		// a module of the same name as a good one that cannot be loaded
		b.file = "vg1.bash.ticat"
		b.text = tk.Pick(c, "ns", "bad line\n", "help = x\ncmd = nosuch.sh\n", "[args\nx = 1\n y\n")
		if c.Bool("deep") {
			b.file = "vg1/deep.bash.ticat"
		}
		b.more[strings.TrimSuffix(b.file, ".ticat")] = script
	}
	return b
}

func (x badFile) put(c *tk.C, b *tk.Box, dir string) {
	put := func(f, text string) {
		p := filepath.Join(dir, f)
		if i, err := os.Stat(p); err == nil && i.IsDir() {
			return
		}
		for q := filepath.Dir(p); len(q) > len(dir); q = filepath.Dir(q) {
			if i, err := os.Stat(q); err == nil && !i.IsDir() {
				return
			}
		}
		b.File(p, text)
	}
	if x.link != "" {
		os.MkdirAll(dir, 0755)
		os.Symlink(x.link, filepath.Join(dir, x.file))
		c.Note("link %s -> %s", x.file, x.link)
		return
	}
	put(x.file, x.text)
	for _, f := range sortedKeys(x.more) {
		put(f, x.more[f])
	}
}

func TestC16(t *testing.T) {
	tk.Prop(t, "others", 500, 10,
		"a directory of good commands (modules with args, env keys and abbreviations, a flow, an automatically mapped flow, a combined flow file, nested ones) is loaded beside 1-5 bad files in the same or another directory before or after it: meta files of random lines, cut off at any byte or blank, names, directories or abbreviations of builtin and good commands, clashing arguments and environment key abbreviations, missing targets, flows that can't be parsed, odd file names, combined files, broken links, empty help files, hub entries that are gone; every good and every builtin command must be described (cmds.full) and run exactly as without the bad files, and clashes must be reported; non-trivial when the bad files were reported on",
		func(c *tk.C) {
			b, ref := c.NewBox(), c.NewBox()
			good := func(b *tk.Box) {
				d := filepath.Join(b.Dir, "good")
				sc := func(name string) tk.Script {
					return tk.Script{Name: name, EnvPref: "k"}
				}
				b.ModIn(d, "vg0", sc("vg0"), "help = first\nabbrs = vga|vgaa\n[args]\na|aa = 1\nb = 'x y'\n[env]\ngk|gka.x = may-write\n")
				b.ModIn(d, "vg1", sc("vg1"), "help = second\n[args]\nq = 7\n[arg2env]\nk.q = q\n")
				b.ModIn(d, "vgd.sub", sc("vgd.sub"), "help = nested\n[env]\nk.need = read\n")
				b.File(d+"/vgf.tiflow", "help = flow\nabbrs = vgff\nflow = vg0 a=[[z]] : {k.need=n} : vgd.sub : vg1\n[args]\nz = 3\n")
				b.File(d+"/vgauto.tiflow", "help = auto\nargs.auto = *\nflow = vg1 : vg0\n")
				b.File(d+"/comb.tiflow", "### file: vgc1.tiflow\nhelp = part\nflow = vg0 b=c1\n### file: vgc2.x.tiflow\nabbrs = vgcc.y\nflow = vg1 q=c2 : vgc1\n")
				b.Saved("display.executor=false", "zsaved.x=1")
			}
			good(b)
			good(ref)
			place := tk.Pick(c, "place", "same", "before", "after")
			dirs := []string{filepath.Join(b.Dir, "good")}
			bad := dirs[0]
			if place != "same" {
				bad = filepath.Join(b.Dir, "bad")
				dirs = append(dirs, bad)
				if place == "before" {
					dirs[0], dirs[1] = dirs[1], dirs[0]
				}
			}
			c.Label("place-" + place)
			var bads []badFile
			for i, n := 0, c.Int("bad", 1, 5); i < n; i++ {
				x := genBad(c, i, place == "after")
				if place == "same" && x.kind == "namesake" {
					continue
				}
				c.Label(x.kind)
				c.Desc("%s in %s: %s %q%s %v", x.kind, place, x.file, x.text, x.link, sortedKeys(x.more))
				x.put(c, b, bad)
				bads = append(bads, x)
			}
			os.MkdirAll(bad, 0755)
			if c.Chance("gone", 20) {
				g := filepath.Join(b.Dir, tk.Pick(c, "gone-name", "gone", "gone.ticat", "gone.tiflow", "gone.tihelp", "gone.bash.ticat"))
				c.Desc("hub entry that is gone: %s", filepath.Base(g))
				dirs = append([]string{g}, dirs...)
			}
			hub := func(b *tk.Box, dirs ...string) {
				var s strings.Builder
				for _, d := range dirs {
					fmt.Fprintf(&s, "\t<local>\t%s\t\ton\n", d)
				}
				b.File("ticat.data/hub/repos.hub", s.String())
			}
			hub(b, dirs...)
			hub(ref, filepath.Join(ref.Dir, "good"))

			mk := func(r tk.Res) string {
				var s []string
				for _, l := range strings.Split(r.Out, "\n") {
					if strings.HasPrefix(l, "MK") {
						s = append(s, l)
					}
				}
				return fmt.Sprint(s)
			}
			runs := [][]string{
				{"vg0"}, {"vg1"}, {"vga", "aa=5"}, {"vgaa", "1", "2"}, {"vgf"}, {"vgff", "z=9"}, {"vgauto"}, {"vgauto", "q=4"},
				{"{k.need=1}", "vgd.sub"}, {"vgd.sub"}, {"vgc1"}, {"vgc2.x"}, {"vgcc.y"}, {"{gka.x=w}", "vg0"},
				{"echo", "MK", "red"}, {"echo", "message=MK1", ":", "noop", ":", "vg0"}, {"e.set", "k.z", "v", ":", "vg0"},
				{"env.set", "key=k.z", "value=v", ":", "vg1", ":", "vg0"}, {"bash", "echo MK2"}, {"dummy", ":", "vg1"},
				{"e.add", "k.y=1", ":", "vg0"}, {"api.cmd.type", "echo"}, {"nosuch"}, {"mark-time", "k.t"}, {"join.new", "a", "1,2", ":", "join.run", "vg0"},
				{"vg1", ":", "flow.save", "vgsaved"},
			}
			reported := false
			for _, i := range c.Perm("runs", len(runs))[:6] {
				got, want := b.Run(runs[i]...), ref.Run(runs[i]...)
				reported = reported || strings.Contains(got.Out, "module loading failed") || strings.Contains(got.Out, "onflict")
				plain := got
				// what a meta file of several parts is reported as
				plain.Out = strings.ReplaceAll(plain.Out, "should never happen: a combined flow file", "")
				if tk.RuntimeCrash(plain) != "" {
					c.Violate("%v: %s", runs[i], tk.RuntimeCrash(plain))
				}
				c.Check(got.Code == want.Code, "%v exits %d, without the bad files %d", runs[i], got.Code, want.Code)
				g, w := tk.CallStrs(got.Calls), tk.CallStrs(want.Calls)
				if runs[i][0] != "mark-time" {
					c.Check(tk.Eq(g, w), "%v called %v, without the bad files %v", runs[i], g, w)
				}
				c.Check(mk(got) == mk(want), "%v printed %s, without the bad files %s", runs[i], mk(got), mk(want))
				for _, x := range bads {
					// a line refused by the parser is all that is told
					if x.must != "" && want.Code == 0 && !strings.Contains(got.Out, "onflict") {
						c.Violate("%v does not report the clash of %s on %s", runs[i], x.file, x.must)
					}
				}
			}
			got, want := b.Run("cmds.full"), ref.Run("cmds.full")
			c.Check(got.Code == 0, "cmds.full exits %d", got.Code)
			gb, wb := cmdBlocks(got.Out), cmdBlocks(strings.ReplaceAll(want.Out, ref.Dir, b.Dir))
			if len(wb) < 200 || !strings.Contains(wb["vg0"], "a|aa = 1") {
				tk.Infra("the description of the commands can't be read: %d, %q", len(wb), wb["vg0"])
			}
			for _, name := range sortedKeys(wb) {
				if strings.HasPrefix(name, "vgsaved") {
					continue
				}
				c.Check(gb[name] == wb[name], "command [%s] is described as\n%s, without the bad files\n%s", name, gb[name], wb[name])
			}
			c.NonTrivial(reported)
		})
}
