package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// savedFlow is what a saved flow is expected to do.
type savedFlow struct {
	items []string // "=call" or "path" of another flow
	help  string
}

type flowDir struct {
	path  string
	inHub bool
	flows map[string]savedFlow
}

// flowListing parses what flow.list prints into path -> help.
func flowListing(out string) map[string]string {
	m := map[string]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]"):
			cur = l[1 : len(l)-1]
			if _, ok := m[cur]; ok {
				cur += " (twice)"
			}
			m[cur] = ""
		case strings.HasPrefix(l, "     '") && strings.HasSuffix(l, "'") && len(l) > 6:
			m[cur] = l[6 : len(l)-1]
		}
	}
	return m
}

func TestC27(t *testing.T) {
	tk.Prop(t, "history", 1000, 10,
		"histories of 4-12 runs over 3-6 command paths that are prefixes of one another, lie below builtin and module commands, are spelled by abbreviations or hold awkward characters: saving (plainly, overwriting, asked and confirmed or not, into a directory), renaming (also onto another flow, a builtin, a module or a moved flow), removing, setting help, clearing, moving all to one of two directories, adding these to the hub; names that are file paths; contents of 1-3 commands, also references to other flows; after each run the listing and one call, at the end a call of every path, must be those of a map; a refused operation must change no file; non-trivial when a flow was replaced, renamed, moved or removed while another was present",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vlog", tk.Script{}, "[args]\na = 0\n")
			b.Mod("vmod", tk.Script{}, "")
			b.Quiet()
			pool := tk.Subset(c, "paths", []string{"vq", "vq.b", "vq.b.c", "vqx", "env.vmy", "noop.vz", "vmod.sub", "v q", "vé-1", "b.vq", "vq.vq", "hub.v0", "v*", "v'x", "v$HOME"})
			if len(pool) < 3 {
				pool = []string{"vq", "vq.b", "vqx"}
			}
			pool = shuffled(c, pool)
			if len(pool) > 6 {
				pool = pool[:6]
			}
			saved := map[string]savedFlow{}
			dirs := []*flowDir{{path: b.Dir + "/fd", flows: map[string]savedFlow{}}, {path: b.Dir + "/fd1", flows: map[string]savedFlow{}}}
			for _, d := range dirs {
				os.MkdirAll(d.path, 0755)
			}
			// moved tells whether a path is callable from a directory of the hub.
			moved := func(p string) (savedFlow, bool) {
				for _, d := range dirs {
					if f, ok := d.flows[p]; ok && d.inHub {
						return f, true
					}
				}
				return savedFlow{}, false
			}
			lookup := func(p string) (savedFlow, bool) {
				if f, ok := saved[p]; ok {
					return f, true
				}
				return moved(p)
			}
			var eval func(p string, depth int) ([]string, bool)
			eval = func(p string, depth int) (r []string, ok bool) {
				f, ok := lookup(p)
				if !ok || depth > 20 {
					return nil, false
				}
				for _, it := range f.items {
					if it[0] == '=' {
						r = append(r, it[1:])
						continue
					}
					sub, ok := eval(it, depth+1)
					if !ok {
						return nil, false
					}
					r = append(r, sub...)
				}
				return r, true
			}
			callable := func() (r []string) {
				for _, p := range pool {
					if _, ok := lookup(p); ok {
						r = append(r, p)
					}
				}
				return r
			}
			spell := func(p string) string {
				if strings.HasPrefix(p, "env.") && c.Bool("abbr") {
					return "e" + p[3:]
				}
				if strings.HasPrefix(p, "hub.") && c.Bool("abbr") {
					return "h" + p[3:]
				}
				return p
			}
			call := func(p string) {
				expect, ok := eval(p, 0)
				r := b.Run(spell(p))
				got := tk.CallStrs(r.Calls)
				prefix := false // of commands: calling it only describes these
				for _, p := range pool {
					if _, ok := lookup(p); ok {
						continue
					}
					for _, q := range callable() {
						prefix = prefix || strings.HasPrefix(q, p+".")
					}
				}
				if _, exists := lookup(p); ok {
					c.Check(r.Code == 0 && tk.Eq(got, expect), "calling %q exits with %d and runs\n %s\nexpected\n %s", p, r.Code, clipVal2(got), clipVal2(expect))
				} else if !exists {
					c.Check((r.Code != 0 || prefix) && len(got) == 0, "calling %q, which is not saved, exits with %d and runs %q", p, r.Code, got)
				} else {
					c.Check(r.Code != 0 || prefix, "calling %q, which refers to a missing flow or to itself, exits with %d", p, r.Code)
				}
			}
			genHelp := func() string {
				if !c.Chance("help", 50) {
					return ""
				}
				h := strings.Trim(Plain(GenVal(c, "helptext")), "'\" \t")
				if c.Chance("breaker", 10) {
					h += "\\"
				}
				return strings.ReplaceAll(h, "###", "#")
			}
			n := 0
			// content is a new flow: its words, and what it does.
			content := func(self string) (words []string, f savedFlow) {
				for i := c.Int("items", 1, 3); i > 0; i-- {
					if len(words) > 0 {
						words = append(words, ":")
					}
					var others []string
					for _, p := range callable() {
						if !strings.ContainsAny(p, " '*$") {
							others = append(others, p)
						}
					}
					if len(others) > 0 && c.Chance("ref", 25) {
						p := tk.Pick(c, "refto", others...)
						f.items = append(f.items, p)
						words = append(words, spell(p))
						c.Label("ref")
						continue
					}
					n++
					v := fmt.Sprintf("n%d", n)
					if c.Chance("awkward", 20) {
						v += strings.ReplaceAll(Plain(GenVal(c, "val")), "[[", "[") + "n"
					}
					f.items = append(f.items, "="+tk.Call{Name: "vlog", Args: []string{v}}.String())
					words = append(words, "vlog", "a="+escColon(v))
				}
				return
			}
			nontriv := false
			used := map[string]bool{}
			taken := func(p string) bool { // a command that is no saved flow
				_, ok := moved(p)
				return ok || p == "noop" || p == "vmod" || p == "env"
			}
			for step, steps := 0, tk.Pick(c, "steps", 4, 6, 8, 10, 12); step < steps; step++ {
				p := tk.Pick(c, "path", pool...)
				if len(saved) > 0 && c.Chance("existing", 45) {
					p = tk.Pick(c, "which", sortedKeys(saved)...)
				}
				var words []string
				ok := true
				stdin := ""
				d := dirs[c.Int("dir", 0, 1)]
				var apply func()
				opt := tk.Opt{}
				// confirm decides how an operation that asks is answered.
				confirm := func(asked bool) bool {
					if !asked {
						if c.Chance("spare", 20) {
							stdin = "y\n"
						}
						return true
					}
					switch tk.Pick(c, "answer", "y", "y", "no-then-y", "eof", "no", "noask") {
					case "y":
						stdin = "y\n"
					case "no-then-y":
						stdin = "n\n\nYes\n"
					case "no":
						stdin = "n\n"
						return false
					case "noask":
						if words[0] != "flow.rename" && words[0] != "flow.save" {
							return false
						}
						words = append([]string{"{sys.confirm.ask=false}"}, words...)
						stdin = "y\n"
						return false
					default:
						return false
					}
					return true
				}
				kind := tk.Pick(c, "op", "save", "save", "save", "save", "save", "rename", "rename", "rename", "rm", "rm", "help", "help", "mv", "mv", "hub", "hub", "clear", "path")
				switch kind {
				case "save":
					body, f := content(p)
					f.help = genHelp()
					target := p
					if c.Chance("builtin-name", 5) {
						target = tk.Pick(c, "name", "noop", "vmod", "env")
					}
					words = []string{"flow.save", tk.Pick(c, "argname", "new-cmd-path=", "cmd=", "path=", "c=") + spell(target)}
					if f.help != "" {
						words = append(words, tk.Pick(c, "helparg", "help-str=", "help=", "h=")+escColon(f.help))
					}
					store := saved
					if c.Chance("to-dir", 12) {
						words = append(words, "to-dir="+d.path)
						store = d.flows
						if _, dup := saved[p]; dup && target == p {
							if _, there := d.flows[p]; there && d.inHub {
								continue
							}
						}
					}
					_, exists := store[target]
					asked := exists
					if exists && c.Chance("overwrite", 60) {
						words = append(words, tk.Pick(c, "ow", "quiet-overwrite=true", "overwrite=true", "q=t"))
						asked = false
						if c.Chance("quiet-noask", 30) {
							words = append([]string{"{sys.confirm.ask=false}"}, words...)
						}
					}
					_, callableNow := lookup(target)
					if !exists && (callableNow || taken(target)) {
						ok = false
						confirm(false)
					} else {
						ok = confirm(asked)
					}
					words = append(append(words, ":"), body...)
					apply = func() {
						if exists {
							nontriv = nontriv || len(saved) > 1
						}
						store[target] = f
					}
				case "rename":
					q := tk.Pick(c, "to", pool...)
					if c.Chance("taken", 10) {
						q = tk.Pick(c, "name", "noop", "vmod", "env")
					}
					if c.Bool("named") || strings.ContainsAny(p+q, "=") {
						words = []string{"flow.rename", "src=" + spell(p), "dest=" + spell(q)}
					} else {
						words = []string{"flow.rename", spell(p), spell(q)}
					}
					f, exists := saved[p]
					_, over := saved[q]
					switch {
					case !exists:
						ok = false
						stdin = "y\n"
					case p == q:
						if c.Chance("skip-self", 70) {
							continue
						}
						ok = confirm(false)
					case !over && taken(q):
						ok = false
						stdin = "y\n"
					default:
						ok = confirm(over)
					}
					apply = func() {
						nontriv = nontriv || len(saved) > 1
						delete(saved, p)
						saved[q] = f
					}
				case "rm":
					words = []string{tk.Pick(c, "rmname", "flow.remove", "flow.rm", "f.del"), spell(p)}
					if _, ok = saved[p]; !ok && c.Chance("taken", 10) {
						words[1] = tk.Pick(c, "name", "noop", "vmod", "env")
					}
					apply = func() { delete(saved, p); nontriv = nontriv || len(saved) > 0 }
				case "help":
					f, exists := saved[p]
					ok = exists
					h := genHelp()
					words = []string{tk.Pick(c, "helpname", "flow.set-help-str", "flow.help", "f.h"), "path=" + spell(p), "help-str=" + escColon(h)}
					if h == "" {
						words = append(words[:2], "help-str", "=", "''")
						continue
					}
					apply = func() { f.help = h; saved[p] = f }
				case "mv":
					clash := false
					for q := range saved {
						_, dup := moved(q)
						clash = clash || dup
					}
					if clash {
						continue
					}
					if d.inHub && c.Chance("by-search", 30) && (dirs[0].inHub != dirs[1].inHub || d == dirs[1]) {
						words = []string{"flow.mv.all", "path=" + d.path[len(d.path)-3:]}
						if d == dirs[0] {
							words[1] = "path=" + d.path[len(d.path)-4:]
						}
					} else if c.Chance("here", 20) {
						words = []string{"flow.mv.all.here"}
						opt.Dir = d.path
					} else {
						words = []string{tk.Pick(c, "mvname", "flow.move-flows-to-dir.all", "flow.mv.all", "f.m.a"), "path=" + d.path}
					}
					apply = func() {
						for q, f := range saved {
							d.flows[q] = f
							delete(saved, q)
							nontriv = true
						}
					}
				case "hub":
					clash := false
					for q := range d.flows {
						_, dup := lookup(q)
						clash = clash || dup && !d.inHub
					}
					if clash {
						continue
					}
					words = []string{"hub.add.local-dir", "path=" + d.path}
					apply = func() { d.inHub = true }
				case "clear":
					if c.Chance("skip-clear", 50) {
						continue
					}
					words = []string{tk.Pick(c, "clearname", "flow.clear")}
					apply = func() { clear(saved) }
				case "path":
					bad := tk.Pick(c, "bad", "../vx", "vx/y", p+"/../vx", "../../vx", "/vx", p+"/"+p)
					ok = false
					stdin = "y\n"
					switch tk.Pick(c, "badop", "save", "rename", "rename-from", "rm") {
					case "save":
						words = []string{"flow.save", "cmd=" + bad, ":", "noop"}
					case "rename":
						words = []string{"flow.rename", "src=" + p, "dest=" + bad}
					case "rename-from":
						words = []string{"flow.rename", "src=" + bad, "dest=" + p}
					case "rm":
						words = []string{"flow.rm", "path=" + bad}
					}
				}
				used[kind] = true
				c.Desc("%q stdin %q", words, stdin)
				before := dirSnap(b.Data+"/flows", dirs[0].path, dirs[1].path, b.Data+"/hub")
				opt.Stdin = stdin
				r := b.RunOpt(opt, words...)
				c.Check((r.Code == 0) == ok, "%q exits with %d, expected success to be %v", words, r.Code, ok)
				c.Check(len(r.Calls) == 0, "%q ran %q", words, tk.CallStrs(r.Calls))
				if ok && apply != nil {
					apply()
				} else {
					after := dirSnap(b.Data+"/flows", dirs[0].path, dirs[1].path, b.Data+"/hub")
					delete(before, b.Data+"/flows")
					delete(after, b.Data+"/flows")
					c.Check(snapDiff(before, after) == "", "%q was refused, but %s", words, snapDiff(before, after))
				}
				r = b.Run(tk.Pick(c, "listname", "flow.list", "flow.ls", "flow"))
				got, want := []string{}, []string{}
				for q, h := range flowListing(r.Out) {
					got = append(got, fmt.Sprintf("%s: %q", q, h))
				}
				for q, f := range saved {
					want = append(want, fmt.Sprintf("%s: %q", q, f.help))
				}
				sort.Strings(got)
				sort.Strings(want)
				c.Check(r.Code == 0 && tk.Eq(got, want), "the flows listed are\n %s\nexpected\n %s", strings.Join(got, "\n "), strings.Join(want, "\n "))
				if c.Chance("call", 60) {
					call(tk.Pick(c, "callwhich", pool...))
				}
			}
			for _, p := range pool {
				call(p)
			}
			for _, d := range dirs {
				files, _ := filepath.Glob(d.path + "/*")
				names := []string{}
				for _, f := range files {
					names = append(names, strings.TrimSuffix(filepath.Base(f), ".tiflow"))
				}
				sort.Strings(names)
				c.Check(tk.Eq(names, sortedKeys(d.flows)), "directory %s holds %q, expected %q", filepath.Base(d.path), names, sortedKeys(d.flows))
			}
			if len(used) > 4 {
				c.Label("5+ kinds")
			}
			c.NonTrivial(nontriv)
		})
	tk.Prop(t, "handwritten", 250, 10,
		"1-3 flow files in the flow directory written by hand, with random help, abbreviations, arguments, automatic arguments, environment mappings, tags, dependencies, packing, and the flow in any form; then the listing searched by parts of path, help, abbreviations and flow, and the help of one set 1-2 times; every flow found must match every word and the others not; setting the help must change nothing else: called by name or abbreviation, with and without arguments, and described, each flow does and says the same before and after, and the other files stay as they are; non-trivial when the file whose help is set has something flow.save does not write",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vlog", tk.Script{EnvPref: "k."}, "[args]\na = 0\nb = 1\n[arg2env]\nk.b = b\n")
			b.Quiet()
			pool := []string{"ab", "ba", "qu", "zz", "wx", "o"}
			word := func(l string) string {
				s := ""
				for i, n := 0, tk.Pick(c, l+"n", 1, 2, 2, 3); i < n; i++ {
					s += tk.Pick(c, l, pool...)
				}
				return s
			}
			type file struct {
				path, help, abbrs, flow, file string
				calls                         [][]string
			}
			fs := []*file{}
			extra := map[*file]bool{}
			for i, n := 0, c.Int("files", 1, 3); i < n; i++ {
				f := &file{path: fmt.Sprintf("v%d%s", i, word("name"))}
				if c.Chance("sub", 40) {
					f.path += "." + word("sub")
				}
				f.file = b.Data + "/flows/" + f.path + ".tiflow"
				var lines []string
				if c.Chance("help", 60) {
					f.help = word("help") + " " + word("help2")
					lines = append(lines, "help = "+f.help)
				}
				last := f.path[strings.LastIndex(f.path, ".")+1:]
				spells := []string{f.path}
				if c.Chance("abbrs", 60) {
					f.abbrs = "y" + fmt.Sprint(i) + word("abbr") + "|" + "x" + fmt.Sprint(i) + word("abbr2")
					lines = append(lines, tk.Pick(c, "abbrkey", "abbrs", "abbr")+" = "+f.abbrs)
					for _, a := range strings.Split(f.abbrs, "|") {
						spells = append(spells, strings.TrimSuffix(f.path, last)+a)
					}
				}
				if c.Chance("trivial", 30) {
					lines = append(lines, "trivial = "+tk.Pick(c, "lvl", "0", "1", "3"))
				}
				auto := c.Chance("auto", 40)
				if auto {
					lines = append(lines, "args.auto = "+tk.Pick(c, "which", "*", "b", "a"))
				}
				if c.Chance("pack", 40) {
					lines = append(lines, tk.Pick(c, "packkey", "pack-subflow", "pack-sub")+" = true")
				}
				if c.Chance("tags", 30) {
					lines = append(lines, "tags = "+word("tag"))
					extra[f] = true
				}
				args := c.Chance("args", 40)
				f.flow = "echo " + word("echo") + " : vlog a=" + word("val")
				if auto {
					f.flow = "vlog"
				} else if args {
					f.flow = "vlog a=[[p]] b=" + word("val") + " : vlog"
				}
				if c.Chance("two-lines", 40) {
					switch c.Int("flowform", 0, 1) {
					case 0:
						lines = append(lines, "flow = \\", "    "+f.flow+" : \\", "    vlog b="+word("val2"))
						f.flow += " : " + strings.Fields(lines[len(lines)-1])[0] + " " + strings.Fields(lines[len(lines)-1])[1]
					default:
						v := word("val2")
						lines = append(lines, "[flow/]", f.flow, ": vlog b="+v, "[/flow]")
						f.flow += " : vlog b=" + v
					}
				} else {
					lines = append(lines, "flow = "+f.flow)
				}
				// Sections come after the keys of no section
				lines = shuffledLines(c, lines)
				if args {
					lines = append(lines, "[args]", "p|pp = "+word("def"))
					extra[f] = true
					if c.Chance("arg2env", 50) {
						lines = append(lines, "[arg2env]", "k.p = p")
					}
				}
				if c.Chance("val2env", 30) {
					lines = append(lines, "[val2env]", "k.v = "+word("v"))
					extra[f] = true
				}
				if c.Chance("envops", 30) {
					lines = append(lines, "[env]", "k.r = may-read")
					extra[f] = true
				}
				if c.Chance("deps", 20) {
					lines = append(lines, "[dep]", "bash = "+word("why"))
					extra[f] = true
				}
				b.File("ticat.data/flows/"+f.path+".tiflow", strings.Join(lines, "\n")+"\n")
				for _, p := range spells {
					f.calls = append(f.calls, []string{p})
					if auto {
						f.calls = append(f.calls, []string{p, "b=9"}, []string{p, "7"})
					}
					if args {
						f.calls = append(f.calls, []string{p, "pp=9"}, []string{p, "7"})
					}
				}
				f.calls = append(f.calls, []string{"cmds.full", "path=" + f.path}, []string{f.path, ":", "desc"}, []string{f.path, ":", "desc.more"})
				c.Desc("%s: %s", f.path, strings.Join(lines, " / "))
				fs = append(fs, f)
			}
			for i, n := 0, c.Int("searches", 1, 3); i < n; i++ {
				words := []string{tk.Pick(c, "list", "flow.list", "flow.ls")}
				for k := tk.Pick(c, "words", 1, 1, 2, 3); k > 0; k-- {
					f := tk.Pick(c, "of", fs...)
					w := tk.Pick(c, "field", f.path, f.help, f.abbrs, f.flow, word("other"))
					if ws := strings.FieldsFunc(w, func(r rune) bool { return strings.ContainsRune(" :=[]|", r) }); len(ws) > 0 {
						w = tk.Pick(c, "word", ws...)
					} else {
						w = "o"
					}
					if len(w) > 1 && c.Chance("part", 50) {
						lo := c.Int("lo", 0, len(w)-1)
						w = w[lo:c.Int("hi", lo+1, len(w))]
					}
					words = append(words, strings.Trim(w+" ", ". "))
					if words[len(words)-1] == "" {
						words[len(words)-1] = "o"
					}
				}
				want := []string{}
				for _, f := range fs {
					all := true
					for _, w := range words[1:] {
						all = all && (strings.Contains(f.path, w) || strings.Contains(f.help, w) || strings.Contains(f.abbrs, w) || strings.Contains(f.flow, w))
					}
					if all {
						want = append(want, f.path)
					}
				}
				r := b.Run(words...)
				got := sortedKeys(flowListing(r.Out))
				sort.Strings(want)
				c.Check(r.Code == 0 && tk.Eq(got, want), "%q lists %q, expected %q", words, got, want)
			}
			f := tk.Pick(c, "target", fs...)
			c.NonTrivial(extra[f])
			look := func() (r []string) {
				for _, f := range fs {
					for _, k := range f.calls {
						x := b.Run(k...)
						out := ""
						if strings.HasPrefix(k[len(k)-1], "desc") || strings.HasPrefix(k[0], "cmds") {
							var ls []string
							for _, l := range strings.Split(x.Out, "\n") {
								if t := strings.TrimSpace(l); !strings.HasPrefix(t, "'") {
									ls = append(ls, l)
								}
							}
							out = strings.Join(ls, "\n")
						}
						r = append(r, fmt.Sprintf("%q exits with %d, runs %q, prints %s", k, x.Code, tk.CallStrs(x.Calls), out))
					}
				}
				return
			}
			before := look()
			files := dirSnap(b.Data + "/flows")
			for i, n := 0, c.Int("sets", 1, 2); i < n; i++ {
				h := "h" + word("newhelp")
				words := []string{tk.Pick(c, "helpname", "flow.set-help-str", "flow.help"), "path=" + f.path, "help-str=" + h}
				c.Desc("%q", words)
				old := f.help
				f.help = h
				r := b.Run(words...)
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				c.Check(strings.Contains(r.Out, "'"+h+"'"), "%q does not show the new help", words)
				c.Check(old == "" || strings.Contains(r.Out, "'"+old+"'"), "%q does not show the old help %q", words, old)
				c.Check(flowListing(b.Run("flow.list").Out)[f.path] == h, "the help listed after %q is another", words)
			}
			after := look()
			for i := range before {
				if before[i] != after[i] {
					c.Violate("before the help of %s was set\n %s\nafter\n %s", f.path, before[i], after[i])
				}
			}
			now := dirSnap(b.Data + "/flows")
			delete(files, f.file)
			delete(now, f.file)
			c.Check(snapDiff(files, now) == "", "setting the help of %s: %s", f.path, snapDiff(files, now))
		})
}

// shuffledLines shuffles lines, those of a block or a continued line stay together.
func shuffledLines(c *tk.C, lines []string) (r []string) {
	var groups [][]string
	for i := 0; i < len(lines); i++ {
		g := []string{lines[i]}
		for strings.HasSuffix(lines[i], "\\") || len(g) > 0 && g[0][0] == '[' && !strings.HasPrefix(lines[i], "[/") {
			i++
			g = append(g, lines[i])
		}
		groups = append(groups, g)
	}
	for _, i := range c.Perm("order", len(groups)) {
		r = append(r, groups[i]...)
	}
	return
}
