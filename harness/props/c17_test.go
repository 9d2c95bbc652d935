package props

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

// metaSpec is a command's declaration independent of how it is written.
type metaSpec struct {
	path  []string
	flow  []string // commands; nil for a module script
	help  string
	abbrs [][]string // alternative names per path segment (a module: of the last one)
	args  []specKV   // names, default
	enums map[int][]string
	env   []specKV // key segments with alternative names joined by "|", operations
	deps  []specKV
	val   []specKV
	arg   []specKV
	tags  []string
	auto  []string
	flags []specKV
	vals  map[string]string
}

type specKV struct {
	names []string // of an arg: name and abbreviations; of a key: its path segments
	abbrs [][]string
	v     []string
}

// writer renders a spec; with sp false in the plain form.
type specWriter struct {
	c  *tk.C
	sp bool
}

func (w specWriter) pick(label string, opts ...string) string {
	if !w.sp {
		return opts[0]
	}
	return tk.Pick(w.c, label, opts...)
}

func (w specWriter) gap() string { return w.pick("gap", "", " ", "  ", "\t") }

func (w specWriter) join(sep string, l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += w.gap() + sep + w.gap()
		}
		s += x
	}
	return s
}

func (w specWriter) kv(k, v string) string {
	if w.sp {
		return w.gap() + k + w.gap() + "=" + w.gap() + v + w.gap()
	}
	return k + " = " + v
}

func (w specWriter) quoted(v string) string {
	if w.sp && !strings.ContainsAny(v, `'"\`) {
		q := w.pick("quote", "", "", "'", `"`)
		return q + v + q
	}
	return v
}

// render returns the text and whether the flow was written as a block.
func (w specWriter) render(s metaSpec) string {
	var global [][]string // each a group of lines
	add := func(k, v string) { global = append(global, []string{w.kv(k, v)}) }
	if s.help != "" {
		add("help", w.quoted(s.help))
	}
	hasAbbr := false
	var segs []string
	for _, a := range s.abbrs {
		segs = append(segs, w.join("|", a))
		hasAbbr = hasAbbr || len(a) > 0
	}
	if hasAbbr {
		add(w.pick("abbrkey", "abbrs", "abbr"), w.quoted(strings.Join(segs, ".")))
	}
	if len(s.tags) > 0 {
		add(w.pick("tagkey", "tags", "tag"), strings.Join(s.tags, w.pick("tagsep", " ", "  ", "\t")))
	}
	if len(s.auto) > 0 {
		k := w.pick("autokey", "args.auto", "arg.auto", "arg2env.auto-map", "arg2env.auto", "arg2env.map")
		if w.sp && w.c.Bool("autoblock") {
			g := []string{"[" + k + "/]"}
			g = append(g, s.auto...)
			global = append(global, append(g, "[/"+k+"]"))
		} else {
			add(k, w.join(",", s.auto))
		}
	}
	for _, f := range s.flags {
		add(w.pick("flag", f.names...), w.pick("bool", f.v...))
	}
	flowLast := []string(nil)
	if len(s.flow) > 0 {
		form := w.pick("flowform", "line", "line", "cont", "block")
		switch form {
		case "line":
			add("flow", strings.Join(s.flow, " : "))
		case "cont":
			g := []string{}
			for i, x := range s.flow {
				l := x
				if i < len(s.flow)-1 {
					l += w.pick("contsep", " :", "", " : ") + " \\"
				}
				if i == 0 {
					if w.c.Bool("contfirst") {
						g = append(g, w.kv("flow", "\\"))
						g = append(g, w.gap()+l)
						continue
					}
					l = "flow" + w.gap() + "=" + w.gap() + l
				}
				g = append(g, w.gap()+l+w.gap())
			}
			global = append(global, g)
		case "block":
			g := []string{"[flow/]"}
			for i, x := range s.flow {
				if w.c.Chance("fcomment", 30) {
					g = append(g, w.gap()+"# "+w.pick("cm", "comment", "flow = noop", "[args]", "'"))
				}
				if w.c.Chance("fblank", 30) {
					g = append(g, w.gap())
				}
				g = append(g, w.gap()+x+w.pick("blksep", "", " :")+w.gap())
				if i == len(s.flow)-1 {
					g[len(g)-1] = strings.TrimSuffix(strings.TrimRight(g[len(g)-1], " \t"), " :")
				}
			}
			g = append(g, "[/flow]")
			if w.c.Bool("flowlast") {
				flowLast = g
			} else {
				global = append(global, g)
			}
		}
	}
	var sections [][]string
	sec := func(name string, kvs []specKV, f func(i int, kv specKV) string) {
		if len(kvs) == 0 {
			return
		}
		g := []string{w.gap() + "[" + name + "]" + w.gap()}
		for i, kv := range kvs {
			g = append(g, f(i, kv))
		}
		sections = append(sections, g)
	}
	key := func(kv specKV) string {
		segs := []string{}
		for i, n := range kv.names {
			a := append([]string{n}, kv.abbrs[i]...)
			segs = append(segs, w.join(w.pick("keysep", "|", "|", ":"), a))
		}
		return strings.Join(segs, ".")
	}
	sec(w.pick("argsec", "args", "arg"), s.args, func(i int, kv specKV) string {
		v := kv.v[0]
		if e := s.enums[i]; len(e) > 0 {
			v += " (" + w.pick("enum", "enum: ", "enum:", "enum:  ", "") + w.join("|", e) + w.gap() + ")"
		} else {
			v = w.quoted(v)
		}
		return w.kv(w.join("|", kv.names), v)
	})
	sec(w.pick("depsec", "deps", "dep"), s.deps, func(i int, kv specKV) string { return w.kv(kv.names[0], kv.v[0]) })
	sec("env", s.env, func(i int, kv specKV) string {
		ops := []string{}
		for _, o := range kv.v {
			ops = append(ops, w.pick("op", map[string][]string{
				"read": {"read", "Read", "r", "rd"}, "write": {"write", "w", "WRITE"},
				"may-read": {"may-read", "may read", "opt-read", "May-Read", "mayread"}, "may-write": {"may-write", "opt write", "may-w"},
			}[o]...))
		}
		return w.kv(key(kv), w.quoted(w.join(w.pick("opsep", ":", ":", "|"), ops)))
	})
	sec(w.pick("valsec", "env.write", "val2env"), s.val, func(i int, kv specKV) string { return w.kv(key(kv), w.quoted(kv.v[0])) })
	sec(w.pick("a2esec", "env.from-arg", "env.arg", "arg2env"), s.arg, func(i int, kv specKV) string { return w.kv(key(kv), w.quoted(kv.v[0])) })
	if w.sp {
		shuffle := func(label string, l [][]string) {
			p := w.c.Perm(label, len(l))
			o := append([][]string{}, l...)
			for i, j := range p {
				l[i] = o[j]
			}
		}
		shuffle("gorder", global)
		shuffle("sorder", sections)
	}
	all := append(append([][]string{}, global...), sections...)
	if flowLast != nil {
		all = append(all, flowLast)
	}
	eol := w.pick("eol", "\n", "\n", "\r\n")
	var out []string
	for _, g := range all {
		if w.sp {
			for i, n := 0, w.c.Int("between", 0, 2); i < n; i++ {
				out = append(out, w.pick("btw", "", "  ", "# comment", "#[args]", "  # help = other", "#k = v \\", "## flow = noop"))
			}
		}
		for i, l := range g {
			if w.sp && i > 0 && strings.HasPrefix(strings.TrimSpace(g[0]), "[") && !strings.HasSuffix(strings.TrimSpace(g[0]), "/]") && w.c.Chance("incomment", 10) {
				out = append(out, w.pick("icm", "", "# comment", "   #x|y = 3"))
			}
			out = append(out, l)
		}
	}
	return strings.Join(out, eol) + w.pick("end", "\n", "", "\n\n", "\n# end")
}

func genSpec(c *tk.C, name string) metaSpec {
	s := metaSpec{enums: map[int][]string{}, vals: map[string]string{}}
	isFlow := c.Chance("isflow", 45)
	s.path = []string{name}
	for i, n := 0, c.Int("deep", 0, 2); i < n; i++ {
		s.path = append(s.path, fmt.Sprintf("s%d%s", i, name))
	}
	s.help = tk.Pick(c, "help", "plain words", "with = sign", "it's", "", "a # b : c", "ünï")
	for i := range s.path {
		var a []string
		if isFlow || i == len(s.path)-1 {
			for j, n := 0, c.Int("abbrs", 0, 2); j < n; j++ {
				a = append(a, fmt.Sprintf("%s%d%c", name, i, 'x'+j))
			}
		}
		if isFlow || i == len(s.path)-1 {
			s.abbrs = append(s.abbrs, a)
		}
	}
	for i, n := 0, c.Int("args", 0, 3); i < n; i++ {
		kv := specKV{names: []string{fmt.Sprintf("arg%d", i)}}
		for j, m := 0, c.Int("argabbrs", 0, 2); j < m; j++ {
			kv.names = append(kv.names, fmt.Sprintf("%c%d", 'p'+j, i))
		}
		kv.v = []string{tk.Pick(c, "def", "", "1", "two words", "a=b", "a:b", "x#y", "(x", "ü")}
		if c.Chance("enum", 25) {
			kv.v[0] = tk.Pick(c, "edef", "e1", "e2")
			s.enums[i] = []string{"e1", "e2", "e3"}
		}
		s.args = append(s.args, kv)
	}
	key := func(pre string, i int) specKV {
		kv := specKV{names: []string{"k", fmt.Sprintf("%s%d", pre, i)}, abbrs: [][]string{nil, nil}}
		if c.Chance("deepkey", 40) {
			kv.names = append(kv.names, "end")
			kv.abbrs = append(kv.abbrs, nil)
		}
		for j := 1; j < len(kv.names); j++ {
			for l, m := 0, c.Int("keyabbrs", 0, 2); l < m; l++ {
				kv.abbrs[j] = append(kv.abbrs[j], fmt.Sprintf("%s%d%c%d", pre, i, 'a'+l, j))
			}
		}
		return kv
	}
	for i, n := 0, c.Int("env", 0, 3); i < n; i++ {
		kv := key("en", i)
		for j, m := 0, c.Int("ops", 1, 2); j < m; j++ {
			kv.v = append(kv.v, tk.Pick(c, "op", "may-read", "may-write", "write", "may-read", "read"))
		}
		s.env = append(s.env, kv)
	}
	for _, d := range tk.Subset(c, "deps", []string{"ls", "bash", "env"}) {
		s.deps = append(s.deps, specKV{names: []string{d}, v: []string{"for " + d}})
	}
	if !isFlow || c.Bool("flowval") {
		for i, n := 0, c.Int("vals", 0, 2); i < n; i++ {
			kv := key("va", i)
			kv.v = []string{tk.Pick(c, "val", "on", "two words", "a=b", "x:y")}
			s.val = append(s.val, kv)
		}
		for i := range s.args {
			if c.Chance("a2e", 50) {
				kv := key("ar", i)
				kv.v = []string{s.args[i].names[0]}
				s.arg = append(s.arg, kv)
			}
		}
	}
	s.tags = tk.Subset(c, "tags", []string{"tga", "tgb", "tg-c"})
	bools := [][]string{{"nolog", "unlog", "interact", "interactive"}, {"quiet-error", "quiet-err", "silent-error", "silent-err"}, {"no-session"}, {"quiet"}, {"hide-in-sessions-last", "hide-in-session-last", "hide-in-last"}, {"unbreak-file-n-flow", "unbreak-file&flow", "unbreak-file+flow", "unbreak-filenflow", "unbreak-fnf"}}
	if isFlow {
		bools = append(bools, []string{"pack-subflow", "pack-sub"})
	}
	for _, b := range bools {
		if c.Chance("flag", 20) {
			v := []string{"true", "True", "1", "t"}
			if c.Chance("false", 20) {
				v = []string{"false", "0", "F"}
			}
			s.flags = append(s.flags, specKV{names: b, v: v})
		}
	}
	for i, b := range [][]string{{"begin-ts-key", "begin-key"}, {"end-ts-key", "end-key"}, {"duration-key", "dur-key"}} {
		if c.Chance("timer", 15) {
			s.flags = append(s.flags, specKV{names: b, v: []string{fmt.Sprintf("k.t%d", i)}})
		}
	}
	if c.Chance("trivial", 15) {
		s.flags = append(s.flags, specKV{names: []string{"trivial"}, v: []string{"1"}})
	}
	if isFlow {
		for i, n := 0, c.Int("flow", 1, 4); i < n; i++ {
			s.flow = append(s.flow, tk.Pick(c, "fcmd", "vg", "vg q=1", "vg q='two words' r=x", "{k.f=1} vg", "noop", "{k.s=2} vg q=3", "echo MKx", "{k.g=5}", "vg q=[[arg0]]", "vg q='a\\:b'"))
		}
		if len(s.args) == 0 {
			for i, f := range s.flow {
				s.flow[i] = strings.ReplaceAll(f, "[[arg0]]", "7")
			}
		}
		if c.Chance("auto", 40) {
			s.auto = tk.Pick(c, "autov", []string{"*"}, []string{"q", "r"}, []string{"q"}, []string{"r", "*"})
		}
	}
	return s
}

var volatile = regexp.MustCompile(`\b1[789]\d{8}\b|\d\d-\d\d \d\d:\d\d:\d\d|\d{8}-\d{6}\.\d+|\d+(\.\d+)?(ms|us|µs|ns|s)\b|b\d+/|\d\d:\d\d:\d\d|\d{4}-\d\d-\d\d|─+|-{5,}| {3,}\+*| *│`)

func TestC17(t *testing.T) {
	tk.Prop(t, "spelling", 500, 10,
		"2-4 declarations of modules and flows (path, help, alternative names, args with enums, env operations and key abbreviations, dependencies, value and arg mappings, tags, flags, timers, automatic args, flow) written once in the plain form as files of their own, once in a random equivalent form: alternate key and section names, spacing around every separator, comments, blank lines, CR LF, quotes, order of keys and sections, line continuation or [flow/] blocks, several flows in one combined file; the full description of each command, its calls by every name with args by abbreviation and env keys by abbreviation, the printed run and its record must be equal; non-trivial when at least 3 kinds of declarations are in it",
		func(c *tk.C) {
			plain, other := c.NewBox(), c.NewBox()
			var specs []metaSpec
			for i, n := 0, c.Int("specs", 2, 4); i < n; i++ {
				specs = append(specs, genSpec(c, fmt.Sprintf("vs%c", 'a'+i)))
			}
			for _, b := range []*tk.Box{plain, other} {
				b.UseMods()
				b.Mod("vg", tk.Script{Name: "vg", EnvPref: "k."}, "help = x\n[args]\nq = 1\nr = 2\n[arg2env]\nk.vgq = q\nk.vgr = r\n[env]\nk.vgq = may-read\n")
			}
			kinds := 0
			combined := ""
			combine := c.Chance("combine", 40)
			for _, s := range specs {
				kinds += len(s.args) + len(s.env) + len(s.val) + len(s.flags) + len(s.abbrs)
				p := strings.Join(s.path, ".")
				ptext := specWriter{c, false}.render(s)
				otext := specWriter{c, true}.render(s)
				if s.flow != nil {
					plain.File("mods/"+p+".tiflow", ptext)
					if combine {
						combined += specWriter{c, true}.pick("mark", "### file: ", "###file:", "###  file :  ", "  ### file : ") + p + ".tiflow" + specWriter{c, true}.gap() + "\n" + otext + "\n"
					} else {
						other.File("mods/"+p+".tiflow", otext)
					}
				} else {
					sc := tk.Script{Name: p, EnvPref: "k.", Append: []string{"k.by" + s.path[0] + "=1"}}
					plain.Mod(p, sc, ptext)
					other.Mod(p, sc, otext)
				}
				c.Desc("%s:\n%s\n--- as\n%s", p, ptext, otext)
			}
			if combined != "" {
				other.File("mods/all.tiflow", tk.Pick(c, "header", "", "", "# head\n", "\n  \n", "#! /x\n\n")+combined)
			}
			norm := func(b *tk.Box, s string) string {
				s = strings.ReplaceAll(s, b.Dir, "BOX")
				s = regexp.MustCompile(`BOX/mods/\S+`).ReplaceAllString(s, "FILE")
				return volatile.ReplaceAllString(s, "~")
			}
			same := func(args ...string) {
				x, y := plain.Run(args...), other.Run(args...)
				c.Check(x.Code == y.Code, "%v exits %d with the plain form, %d with the other form", args, x.Code, y.Code)
				ts := regexp.MustCompile(`k\.t(\d)="?[^ "\]]*"?`)
				cx, cy := ts.ReplaceAllString(fmt.Sprint(tk.CallStrs(x.Calls)), "k.t$1"), ts.ReplaceAllString(fmt.Sprint(tk.CallStrs(y.Calls)), "k.t$1")
				c.Check(cx == cy, "%v calls %s with the plain form, %s with the other form", args, cx, cy)
				ox, oy := norm(plain, x.Out), norm(other, y.Out)
				// how the flow is split into lines may differ
				re := regexp.MustCompile(`(?s)~- flow:\n.*?\n(~- |\[|~--->>>|~<<<|--->>>|<<<---|┌|\()`)
				ox, oy = re.ReplaceAllString(ox, "$1"), re.ReplaceAllString(oy, "$1")
				el := regexp.MustCompile(`(error-line:~~\n)[^\n]*\n`)
				ox, oy = el.ReplaceAllString(ox, "$1"), el.ReplaceAllString(oy, "$1")
				if len(args) == 1 && strings.HasPrefix(args[0], "cmds") {
					bx, by := blockMap(ox), blockMap(oy)
					for _, k := range sortedKeys(bx) {
						c.Check(bx[k] == by[k], "[%s] is with the plain form\n%s, with the other form\n%s", k, bx[k], by[k])
					}
					c.Check(len(bx) == len(by), "%d commands with the plain form, %d with the other form", len(bx), len(by))
					return
				}
				c.Check(ox == oy, "%v prints with the plain form\n%s\nwith the other form\n%s", args, ox, oy)
			}
			same("cmds.full")
			// the plain form declares what the spec says
			res := plain.Run("cmds.full")
			bl := blockMap(res.Out)
			for _, s := range specs {
				p := strings.Join(s.path, ".")
				text := bl[p]
				for i, a := range s.args {
					v := a.v[0]
					if len(s.enums[i]) > 0 {
						continue
					}
					if v == "" || strings.Contains(v, " ") {
						v = "'" + v + "'"
					}
					if !strings.Contains(text, strings.Join(a.names, "|")+" = "+v+"\n") {
						c.Violate("[%s] is described without arg %s = %s:\n%s", p, strings.Join(a.names, "|"), v, text)
					}
				}
				for _, d := range s.deps {
					c.Check(strings.Contains(text, d.names[0]+" = "+d.v[0]+"\n"), "[%s] is described without dependency %s:\n%s", p, d.names[0], text)
				}
				for _, d := range s.tags {
					c.Check(strings.Contains(text, "@"+d), "[%s] is described without tag %s:\n%s", p, d, text)
				}
				c.Check(s.help == "" || strings.Contains(text, "'"+s.help+"'"), "[%s] is described without help '%s':\n%s", p, s.help, text)
			}
			for i, n := 0, c.Int("calls", 2, 4); i < n; i++ {
				s := tk.Pick(c, "spec", specs...)
				name := append([]string{}, s.path...)
				off := 0
				if s.flow == nil {
					off = len(s.path) - 1
				}
				for j, a := range s.abbrs {
					if len(a) > 0 && c.Bool("useabbr") {
						name[j+off] = tk.Pick(c, "abbr", a...)
					}
				}
				var line []string
				for _, e := range s.env {
					segs := []string{}
					for j, n := range e.names {
						segs = append(segs, tk.Pick(c, "keyname", append([]string{n}, e.abbrs[j]...)...))
					}
					if c.Chance("setenv", 60) {
						line = append(line, "{"+strings.Join(segs, ".")+"=v"+e.names[1]+"}")
					}
				}
				line = append(line, strings.Join(name, "."))
				for j, a := range s.args {
					if c.Chance("giveargs", 50) {
						v := "g" + fmt.Sprint(j)
						if len(s.enums[j]) > 0 {
							v = tk.Pick(c, "ev", "e1", "e2", "e3", "bad")
						}
						line = append(line, tk.Pick(c, "argname", a.names...)+"="+v)
					}
				}
				line = append(line, ":", "vg")
				c.Desc("%v", line)
				same(line...)
				switch c.Int("after", 0, 3) {
				case 0:
					same(append(line, ":desc.more")...)
				case 1:
					lx := len(plain.Sessions())
					ly := len(other.Sessions())
					c.Check(lx == ly, "%v left %d sessions with the plain form, %d with the other form", line, lx, ly)
					if lx == 1 {
						logs := func(b *tk.Box) string {
							m, _ := filepath.Glob(filepath.Join(b.Data, "sessions", "*", "logs", "*"))
							return fmt.Sprint(len(m))
						}
						c.Check(logs(plain) == logs(other), "%v left %s logs with the plain form, %s with the other form", line, logs(plain), logs(other))
						same("sessions.last")
					}
				}
			}
			c.NonTrivial(kinds >= 3)
		})
}

// blockMap splits what `cmds.full` prints into one block per command.
func blockMap(out string) map[string]string {
	m := map[string]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if g := blockHead.FindStringSubmatch(l); g != nil {
			cur = g[1]
			m[cur] = ""
			continue
		}
		if strings.HasPrefix(l, "┌") {
			cur = ""
		}
		if cur != "" {
			m[cur] += l + "\n"
		}
	}
	return m
}
