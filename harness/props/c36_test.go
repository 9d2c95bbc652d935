package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// outCmd is a command that prints; to the standard output no capital letter
// and no tab, to the standard error nothing else.
type outCmd struct {
	path   string
	chunks []outChunk
	take   int // bytes it takes from the standard input and prints first
	noLog  bool
	fails  bool
	seq    []*outCmd // a flow, or the flow before the script
	script bool
}

type outChunk struct {
	err  bool
	text string
}

func (o *outCmd) text(err bool) (s string) {
	for _, k := range o.chunks {
		if k.err == err {
			s += k.text
		}
	}
	return s
}

func isErrByte(b byte) bool { return b >= 'A' && b <= 'Z' || b == '\t' }

func onlyStream(s string, err bool) string {
	var r strings.Builder
	for i := 0; i < len(s); i++ {
		if isErrByte(s[i]) == err {
			r.WriteByte(s[i])
		}
	}
	return r.String()
}

type outGen struct {
	c     *tk.C
	b     *tk.Box
	n     int
	plain bool // text with a mark at both ends, for boxes around it
	cmds  []*outCmd
}

func (g *outGen) chunk(err bool) string {
	c := g.c
	if err {
		switch c.Int("err-kind", 0, 3) {
		case 0:
			return c.Str("err", "XYZ\t", 0, 12)
		case 1:
			return strings.Repeat("ERR", c.Int("err-rep", 1, 3000))
		}
		return c.Str("err", "AB", 1, 40)
	}
	switch c.Int("out-kind", 0, 6) {
	case 0:
		return c.Str("out", "ab \n", 0, 20)
	case 1:
		return strings.Repeat(c.Str("rep", "xyz\n", 1, 4), c.Int("out-rep", 1, 40000))
	case 2:
		return c.Str("out", "\x00\x01\x1b\x7f\xff\xc3\xa9[31m;\r\n", 1, 30)
	case 3:
		return tk.Pick(c, "odd", "\n", "\n\n\n", "% %s %d\n", "\\n \\x", "no newline", "ü→値\n", "\x1b[31mred\x1b[0m\n", "┌──┐\n│ x│\n└──┘\n", " lead and trail \n ", "--->>>\n[x]\n<<<---\n", "<log>x</log>\n</cmd-result>")
	}
	return fmt.Sprintf("line %d\n", c.Int("line", 1, 99))
}

func (g *outGen) module() *outCmd {
	c := g.c
	g.n++
	o := &outCmd{path: fmt.Sprintf("vo%d", g.n), script: true}
	if c.Chance("deep", 20) {
		o.path = "vd." + o.path
	}
	style := c.Int("style", 0, 3) // only out, only err, mixed
	for i, n := 0, c.Int("chunks", 0, 4); i < n; i++ {
		err := style == 1 || style >= 2 && c.Bool("to-err")
		o.chunks = append(o.chunks, outChunk{err, g.chunk(err)})
	}
	if g.plain {
		o.chunks = append([]outChunk{{false, fmt.Sprintf("begin-%d:", g.n)}}, append(o.chunks, outChunk{false, fmt.Sprintf(":end-%d\n", g.n)})...)
	}
	return o
}

func (g *outGen) install(o *outCmd) {
	c := g.c
	body := ""
	if o.take > 0 {
		body += fmt.Sprintf("head -c %d\n", o.take)
	}
	for i, k := range o.chunks {
		f := fmt.Sprintf("out.%s.%d", o.path, i)
		g.b.File("ctl/"+f, k.text)
		body += "cat \"$VCTL/" + f + "\""
		if k.err {
			body += " >&2"
		}
		body += "\n"
	}
	meta := "help = h\n"
	if len(o.seq) > 0 {
		ps := []string{}
		for _, x := range o.seq {
			ps = append(ps, x.path)
		}
		meta += "flow = " + strings.Join(ps, " : ") + "\n"
	}
	if o.script {
		if c.Chance("unlog", 20) {
			o.noLog = true
			meta += tk.Pick(c, "unlog-name", "unlog", "nolog", "interact", "interactive") + " = true\n"
		}
		sc := tk.Script{Body: body}
		if o.fails {
			sc.Exit = 3
		}
		g.b.Mod(o.path, sc, meta)
	} else {
		g.b.Flow(o.path, meta)
	}
	g.cmds = append(g.cmds, o)
}

// ran lists the scripts in the order they run, up to the one that fails.
func (o *outCmd) ran(r []*outCmd) ([]*outCmd, bool) {
	for _, x := range o.seq {
		var ok bool
		if r, ok = x.ran(r); !ok {
			return r, false
		}
	}
	if o.script {
		r = append(r, o)
	}
	return r, !o.fails
}

var logPath = regexp.MustCompile(`(?m)^\s+- execute-log:\s*\n\s+(/\S+)$`)

func TestC36(t *testing.T) {
	tk.Prop(t, "output", 700, 10,
		"1-6 commands (modules printing 0-4 chunks to standard output and error, of any bytes and up to megabytes, flows of them, scripts with flows), some reading a part of the standard input, some not logged, the last perhaps failing; what ticat prints must be exactly what they print, stream by stream and in order, and the session must hold one log for each logged invocation with exactly the output of that one, which the record and the error message name; non-trivial when at least two invocations print and one of them to both streams or more than a pipe holds",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			g := &outGen{c: c, b: b}
			stdin := c.Str("stdin", "abc\n0", 0, 60)
			var seq []*outCmd
			for i, n := 0, c.Int("cmds", 1, 6); i < n; i++ {
				switch {
				case len(g.cmds) > 0 && c.Chance("again", 25):
					seq = append(seq, tk.Pick(c, "which", g.cmds...))
					continue
				case len(g.cmds) > 1 && c.Chance("flow", 35):
					g.n++
					o := &outCmd{path: fmt.Sprintf("vof%d", g.n)}
					if c.Chance("file-n-flow", 40) {
						o = g.module()
					}
					for j, m := 0, c.Int("sub", 1, 3); j < m; j++ {
						o.seq = append(o.seq, tk.Pick(c, "sub", g.cmds...))
					}
					all, _ := o.ran(nil)
					if len(all) > 8 {
						o.seq = o.seq[:1]
					}
					g.install(o)
					seq = append(seq, o)
				default:
					o := g.module()
					if c.Chance("reads", 25) {
						o.take = c.Int("take", 1, 20)
					}
					g.install(o)
					seq = append(seq, o)
				}
			}
			fails := c.Chance("fails", 30)
			if fails {
				o := g.module()
				o.fails = true
				g.install(o)
				if c.Chance("in-flow", 30) {
					f := &outCmd{path: "vofail", seq: []*outCmd{o}}
					g.install(f)
					o = f
				}
				seq = append(seq, o)
				if c.Bool("more") {
					seq = append(seq, g.cmds[0])
				}
			}
			top := &outCmd{seq: seq}
			ran, _ := top.ran(nil)
			var words []string
			for i, o := range seq {
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, o.path)
			}
			wantOut, wantErr := "", ""
			var logs []string
			var logOut []string // of each logged invocation, standard output only
			printing, big := 0, false
			left := stdin
			for _, o := range ran {
				in := left
				if len(in) > o.take {
					in = in[:o.take]
				}
				left = left[len(in):]
				so, se := in+o.text(false), o.text(true)
				wantOut += so
				wantErr += se
				if !o.noLog {
					logs = append(logs, so+"\t\t\t"+se)
					logOut = append(logOut, so)
				}
				if so+se != "" {
					printing++
				}
				big = big || so != "" && se != "" || len(so) > 65536
			}
			c.NonTrivial(printing > 1 && big)
			c.Desc("%q of %d invocations, %d+%d bytes", words, len(ran), len(wantOut), len(wantErr))
			r := b.RunOpt(tk.Opt{Stdin: stdin}, words...)
			if !fails {
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				c.Check(r.Out == wantOut, "%q printed %s, expected %s", words, brief(r.Out), brief(wantOut))
				c.Check(r.Err == wantErr, "%q printed %s to the standard error, expected %s", words, brief(r.Err), brief(wantErr))
			} else {
				c.Check(r.Code != 0, "%q exits with 0", words)
				c.Check(strings.HasPrefix(r.Out, wantOut), "%q printed %s, expected it to start with %s", words, brief(r.Out), brief(wantOut))
				c.Check(strings.HasPrefix(r.Err, wantErr), "%q printed %s to the standard error, expected %s first", words, brief(r.Err), brief(wantErr))
			}
			ss := b.Sessions()
			c.Check(len(ss) == 1, "sessions %q after one run", ss)
			dir := filepath.Join(b.Data, "sessions", ss[0])
			got := map[string]string{}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if e.IsDir() || e.Name() == "env" || e.Name() == "status" {
					continue
				}
				data, _ := os.ReadFile(filepath.Join(dir, e.Name()))
				got[filepath.Join(dir, e.Name())] = onlyStream(string(data), false) + "\t\t\t" + onlyStream(string(data), true)
			}
			gotAll := []string{}
			for _, k := range sortedKeys(got) {
				gotAll = append(gotAll, got[k])
			}
			want := append([]string{}, logs...)
			sort.Strings(want)
			sort.Strings(gotAll)
			c.Check(tk.Eq(gotAll, want), "%q left the logs %s, expected %s", words, briefs(gotAll), briefs(want))
			if fails && len(logs) > 0 && !ran[len(ran)-1].noLog {
				ok := false
				for p, text := range got {
					ok = ok || text == logs[len(logs)-1] && strings.Contains(strings.Join(strings.Fields(r.Out), ""), p)
				}
				c.Check(ok, "the log of what failed is not named in %q", r.Out[len(wantOut):])
			}
			d := b.Run("{display.width=400}", ":", "sessions.last.desc.full", "unfold-trivial=9")
			c.Check(d.Code == 0, "describing the session of %q exits with %d: %s", words, d.Code, brief(d.All()))
			var told []string
			for _, m := range logPath.FindAllStringSubmatch(d.Out, -1) {
				told = append(told, got[m[1]])
			}
			// a repeated flow is described once, a script with a flow before its flow
			if len(uniq(seq)) == len(seq) && len(g.flows()) == 0 {
				c.Check(tk.Eq(told, logs), "the record of %q names the logs %s, expected %s", words, briefs(told), briefs(logs))
				c.Label("record names the logs")
			}
		})
	tk.Prop(t, "background", 160, 8,
		"1-3 modules in the background and 1-3 in the foreground, printing in several pieces with pauses to both streams; the output of each must appear whole and in one piece, once, and in its log; non-trivial when two run at the same time",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			if c.Bool("quiet") {
				b.Quiet()
			}
			var words []string
			type out struct {
				text string
				bg   bool
			}
			var outs []out
			nbg := 0
			n := c.Int("cmds", 2, 5)
			for i := 0; i < n; i++ {
				path := fmt.Sprintf("vo%d", i)
				text, body := fmt.Sprintf("begin-%d\n", i), ""
				for j, m := 0, c.Int("pieces", 1, 4); j < m; j++ {
					s := strings.Repeat(fmt.Sprintf("%d.%d %s\n", i, j, c.Str("piece", "ab c", 0, 6)), tk.Pick(c, "rep", 1, 1, 2, 3000))
					text += s
				}
				text += fmt.Sprintf("end-%d\n", i)
				bg := c.Chance("bg", 50) && nbg < 3 || i == 0
				// parts of the text with pauses in between
				rest := text
				for j := 0; rest != ""; j++ {
					k := c.Int("cut", 1, len(rest))
					if j == 3 {
						k = len(rest)
					}
					f := fmt.Sprintf("out.%d.%d", i, j)
					b.File("ctl/"+f, rest[:k])
					rest = rest[k:]
					body += "cat \"$VCTL/" + f + "\"\n"
					if rest != "" && c.Chance("pause", 50) {
						body += fmt.Sprintf("sleep 0.0%d\n", c.Int("ms", 1, 9))
					}
				}
				b.Mod(path, tk.Script{Body: body}, "help = h\n")
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, path)
				if bg {
					nbg++
					words = append(words, tk.Pick(c, "delay", "%delay=0s", "%delay=5ms", "%delay=20ms"))
				}
				outs = append(outs, out{text, bg})
				if nbg > 0 && c.Chance("wait", 15) {
					words = append(words, ":", tk.Pick(c, "how", "background.wait", "background.wait.last"))
					if words[len(words)-1] == "background.wait.last" {
						nbg--
					} else {
						nbg = 0
					}
				}
			}
			words = append(words, ":", "noop")
			c.Desc("%q", words)
			c.NonTrivial(n > 1)
			r := b.Run(words...)
			c.Check(r.Code == 0, "%q exits with %d: %s", words, r.Code, brief(r.All()))
			var logs []string
			filepath.Walk(filepath.Join(b.Data, "sessions"), func(p string, i os.FileInfo, err error) error {
				if err == nil && i.Mode().IsRegular() && i.Name() != "env" && i.Name() != "status" {
					data, _ := os.ReadFile(p)
					logs = append(logs, string(data))
				}
				return nil
			})
			var want []string
			for i, o := range outs {
				c.Check(strings.Count(r.Out, o.text) == 1, "%q printed the output of command %d %d times in one piece (background %v): %s in %s", words, i+1, strings.Count(r.Out, o.text), o.bg, brief(o.text), brief(r.Out))
				c.Check(strings.Count(r.Out, fmt.Sprintf("begin-%d\n", i)) == 1, "%q printed output of command %d more than once", words, i+1)
				want = append(want, o.text)
			}
			sort.Strings(want)
			sort.Strings(logs)
			c.Check(tk.Eq(logs, want), "%q left the logs %s, expected %s", words, briefs(logs), briefs(want))
			last := -1
			for i, o := range outs {
				if k := strings.Index(r.Out, o.text); !o.bg {
					c.Check(k > last, "%q printed the output of command %d before that of an earlier one", words, i+1)
					last = k
				}
			}
		})
}

func (g *outGen) flows() (r []*outCmd) {
	for _, o := range g.cmds {
		if len(o.seq) > 0 {
			r = append(r, o)
		}
	}
	return r
}

func uniq(xs []*outCmd) map[*outCmd]bool {
	m := map[*outCmd]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func brief(s string) string {
	if len(s) <= 300 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q...(%d bytes)...%q", s[:140], len(s), s[len(s)-140:])
}

func briefs(xs []string) string {
	r := []string{}
	for _, x := range xs {
		r = append(r, brief(x))
	}
	return strings.Join(r, ", ")
}
