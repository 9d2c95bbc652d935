package props

import (
	"regexp"
	"strings"
	"testing"

	"vharness/tk"
)

// findCmd is a command the search is checked on: keywords occurring in one of
// narrow must find it, keywords occurring in none of wide must not.
type findCmd struct {
	path, src    string
	tags, writes []string
	narrow, wide []string
	branch       bool // only a place with commands below
}

var listedRe = regexp.MustCompile(`(?m)^ *\[([^\[\] ]+)\]$`)

var plainPath = regexp.MustCompile(`^[a-z0-9][a-z0-9.-]*[a-z0-9]$`)

func listedCmds(out string) (r []string) {
	for _, m := range listedRe.FindAllStringSubmatch(out, -1) {
		r = append(r, m[1])
	}
	return
}

func anyHas(fields []string, kw string) bool {
	for _, f := range fields {
		if strings.Contains(f, kw) {
			return true
		}
	}
	return false
}

func TestC31(t *testing.T) {
	tk.Prop(t, "search", 800, 8,
		"a random command tree from 2 sources (scripts, flows, scripts with flow, dirs; helps, abbreviations, tags, arguments, environment operations, dependencies out of few overlapping words) besides all builtin commands, searched 4 times: by 1-4 keywords (parts of the fields, words of builtin commands, words of the listing itself like 'write', random ones) in the spellings of find and at any detail, by tags, by source, by branch, by the key written, as a tree; a command must be listed if every keyword occurs in one of its listed fields, must not if one occurs nowhere in its full description, hidden ones never; non-trivial when some but not all commands are to be listed",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods(b.Dir + "/other")
			var all []*findCmd
			byPath := map[string]*findCmd{}
			pool := []string{"ab", "ba", "kub", "zz", "env", "run", "wx", "o"}
			word := func(l string) string {
				s := ""
				for i, n := 0, tk.Pick(c, l+"n", 1, 2, 2, 3); i < n; i++ {
					s += tk.Pick(c, l, pool...)
				}
				return s
			}
			used := map[string]bool{}
			fresh := func(l string) string {
				w := word(l)
				for used[w] {
					w += tk.Pick(c, l+"x", "-", "_", "1", "q")
				}
				used[w] = true
				return w
			}
			for i, n := 0, c.Int("cmds", 3, 8); i < n; i++ {
				path := "v" + fresh("seg")
				if len(all) > 0 && c.Chance("below", 35) {
					path = tk.Pick(c, "parent", all...).path + "." + fresh("seg")
				} else if c.Chance("dir", 20) {
					path = "v" + fresh("dir") + "." + fresh("seg")
				}
				src := tk.Pick(c, "src", "mods", "mods", "other")
				root := b.Dir + "/" + src
				x := &findCmd{path: path, src: root}
				if src == "mods" {
					x.src = b.Mods
				}
				narrow := func(ss ...string) { x.narrow = append(x.narrow, ss...); x.wide = append(x.wide, ss...) }
				wide := func(ss ...string) { x.wide = append(x.wide, ss...) }
				narrow(path, x.src)
				help := word("help")
				for k := c.Int("helpwords", 0, 3); k > 0; k-- {
					help += " " + word("help")
				}
				narrow(help)
				meta := "help = " + help + "\n"
				if c.Chance("abbr", 40) {
					a := "q" + fresh("abbr")
					b2 := "q" + fresh("abbr")
					meta += "abbr = " + a + "|" + b2 + "\n"
					narrow(a, b2)
				}
				if c.Chance("tags", 40) {
					x.tags = append(x.tags, word("tag"))
					if c.Chance("tag2", 40) {
						if w := word("tag"); w != x.tags[0] {
							x.tags = append(x.tags, w)
						}
					}
					meta += "tags = " + strings.Join(x.tags, " ") + "\n"
					for _, g := range x.tags {
						narrow("@" + g)
					}
				}
				flow := c.Chance("flow", 25)
				both := !flow && c.Chance("both", 15)
				if flow || both {
					meta += "flow = noop\n"
					wide("noop", "flow", "file&flow", "file-n-flow", "executable-file & flow", "file_n_flow", "executable-file+flow")
				}
				if c.Chance("args", 40) {
					a, a2 := word("arg"), word("arg")+"1"
					def := word("def")
					meta += "[args]\n" + a + "|" + a2 + " = " + def + "\n"
					narrow(a, a2)
					wide(def, "args")
					if c.Chance("arg2env", 40) {
						k := "k." + word("key")
						meta += "[arg2env]\n" + k + " = " + a + "\n"
						narrow(k)
						wide("write", "env-from-argv")
						x.writes = append(x.writes, k)
					}
				}
				if c.Chance("envops", 40) {
					k := "k." + word("key")
					ops := tk.Pick(c, "op", "may-read", "write", "may-write", "may-read:write", "may-read:may-write", "write:may-read")
					meta += "[env]\n" + k + " = " + ops + "\n"
					narrow(k)
					narrow(strings.Split(ops, ":")...)
					wide("env-ops", strings.ReplaceAll(ops, ":", " : "))
					if strings.Contains(ops, "write") {
						x.writes = append(x.writes, k)
					}
				}
				if c.Chance("val2env", 25) {
					k := "k." + word("key")
					v := word("val")
					meta += "[val2env]\n" + k + " = " + v + "\n"
					narrow(k)
					wide("write", v, "env-direct-write")
					x.writes = append(x.writes, k)
				}
				if c.Chance("deps", 30) {
					w := word("reason") + " j" + fresh("reason")
					meta += "[deps]\nbash = " + w + "\n"
					narrow("bash", w)
					wide("os-cmd-dep")
				}
				wide(root, "executable-file", "file", "meta", "normal", "executable", ".bash", ".ticat", "full-abbrs", "cmd-type")
				rel := src + "/" + strings.ReplaceAll(path, ".", "/")
				if flow {
					b.File(rel+".ticat", meta)
				} else {
					b.ModIn(src, path, tk.Script{}, meta)
				}
				wide(b.Dir + "/" + rel + ".bash.ticat")
				c.Desc("%s: %s", rel, strings.ReplaceAll(meta, "\n", " / "))
				all = append(all, x)
				byPath[path] = x
				for p := path; strings.Contains(p, "."); {
					p = p[:strings.LastIndex(p, ".")]
					if byPath[p] == nil {
						byPath[p] = &findCmd{path: p, branch: true, src: x.src}
					}
				}
			}
			for p, x := range byPath {
				if x.branch {
					x.wide = []string{p, b.Mods, b.Dir + "/other"}
				}
			}
			// the builtin commands, as the full listing shows them
			full := b.Run("cmds.full")
			var last *findCmd
			for _, l := range strings.Split(full.Out, "\n") {
				if m := listedRe.FindStringSubmatch(l); m != nil && !strings.HasPrefix(l, " ") {
					last = nil
					if byPath[m[1]] == nil {
						last = &findCmd{path: m[1], wide: []string{m[1], "builtin", "power", "quiet", "priority", "normal", "write"}}
						byPath[m[1]] = last
						all = append(all, last)
					}
				} else if last != nil {
					last.wide = append(last.wide, l)
					if strings.HasPrefix(l, "     '") && strings.HasSuffix(l, "'") {
						last.narrow = append(last.narrow, strings.Trim(l, " '"), last.path, "builtin")
					}
				}
			}
			c.Check(len(all) > 250, "the full listing shows %d commands only", len(all))
			for i := 0; i < 4; i++ {
				var words []string
				must := func(x *findCmd) bool { return false }
				may := must
				kind := tk.Pick(c, "by", "keywords", "keywords", "keywords", "keywords", "tags", "source", "branch", "writes", "tree")
				own := func(l string) *findCmd { return tk.Pick(c, l, all[:min(len(all), 8)]...) }
				switch kind {
				case "keywords":
					name := tk.Pick(c, "find", "find", "/", "//", "///", "find.more", "find.usage", "find.full", "find.f")
					var kws []string
					base := own("base")
					for k := tk.Pick(c, "keywords", 1, 1, 2, 2, 3, 4); k > 0; k-- {
						kw := ""
						switch tk.Pick(c, "kwkind", "field", "field", "field", "wide", "pool", "listing") {
						case "field":
							kw = tk.Pick(c, "field", base.narrow...)
						case "wide":
							kw = tk.Pick(c, "wide", own("other").wide...)
						case "pool":
							kw = word("kw")
						case "listing":
							kw = tk.Pick(c, "kwword", "write", "w", "rite", "read", "t", "@", "k.", "v", "flow", "hub", "builtin", "power", "list", "session", "abbr", "-", "exec", "file", "other", "mods", "nosuchword")
						}
						if len(kw) > 2 && c.Chance("part", 50) {
							lo := c.Int("lo", 0, len(kw)-1)
							kw = kw[lo:c.Int("hi", lo+1, len(kw))]
						}
						kw = strings.Trim(kw, " .")
						if kw == "" || strings.ContainsAny(kw, "=:{}'\"^~") {
							kw = "o"
						}
						kws = append(kws, kw)
					}
					words = append([]string{name}, kws...)
					must = func(x *findCmd) bool {
						for _, kw := range kws {
							if !anyHas(x.narrow, kw) {
								return false
							}
						}
						return true
					}
					may = func(x *findCmd) bool {
						for _, kw := range kws {
							if !anyHas(x.wide, kw) {
								return false
							}
						}
						return true
					}
				case "tags":
					var tags []string
					for k := tk.Pick(c, "tags", 1, 1, 2); k > 0; k-- {
						g := word("tag")
						if o := own("tagged"); len(o.tags) > 0 && c.Chance("existing", 75) {
							g = tk.Pick(c, "tag", o.tags...)
							if len(g) > 2 && c.Chance("part", 15) {
								g = g[1:]
							}
						}
						tags = append(tags, g)
					}
					words = append([]string{tk.Pick(c, "tagcmd", "tag", "@", "tag.more", "tag.full", "tag.m")}, tags...)
					if len(tags) == 1 && c.Chance("cmds", 30) {
						words = []string{"cmds", "tag=" + tags[0]}
					}
					must = func(x *findCmd) bool {
						return len(x.tags) > 0 && len(remove(remove(tags, tags[0]), tags[len(tags)-1])) == 0 && contains(x.tags, tags[0]) && contains(x.tags, tags[len(tags)-1])
					}
					may = func(x *findCmd) bool {
						for _, g := range tags {
							if contains(x.tags, g) {
								return true
							}
						}
						return false
					}
				case "source":
					src := tk.Pick(c, "srcword", b.Dir+"/other", b.Mods, "other", "/mods", "er", "nosuch")
					words = []string{tk.Pick(c, "cmds", "cmds", "cmds.more", "cmds.full"), tk.Pick(c, "srckey", "source=", "src=", "s=", "repo=") + src}
					must = func(x *findCmd) bool { return !x.branch && x.src != "" && strings.Contains(x.src, src) }
					may = func(x *findCmd) bool {
						return x.src != "" && strings.Contains(x.src, src) || x.branch && (strings.Contains(b.Mods, src) || strings.Contains(b.Dir+"/other", src)) || x.src == "" && strings.Contains("<builtin>", src)
					}
				case "branch", "tree":
					x := own("branch")
					if c.Chance("builtin", 30) {
						if x2 := tk.Pick(c, "builtin", all...); plainPath.MatchString(x2.path) {
							x = x2
						}
					}
					p := x.path
					if kind == "tree" {
						words = []string{"cmds.tree", "cmd-path=" + p, "depth=0"}
					} else {
						words = []string{tk.Pick(c, "cmds", "cmds", "cmds.more", "cmds.full"), tk.Pick(c, "pk", "cmd-path=", "path=", "p=") + p}
					}
					must = func(x *findCmd) bool { return x.path == p || strings.HasPrefix(x.path, p+".") }
					may = must
				case "writes":
					k := "k." + word("key")
					if o := own("writer"); len(o.writes) > 0 && c.Chance("existing", 80) {
						k = tk.Pick(c, "key", o.writes...)
					}
					words = []string{"env.who-write", k}
					must = func(x *findCmd) bool { return contains(x.writes, k) }
					may = func(x *findCmd) bool { return contains(x.writes, k) || x.src == "" && anyHas(x.wide, k) }
				}
				c.Desc("%q", words)
				r := b.Run(words...)
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				got := map[string]int{}
				for _, p := range listedCmds(r.Out) {
					got[p]++
					c.Check(got[p] == 1, "%q lists %s twice", words, p)
					x := byPath[p]
					c.Check(x != nil, "%q lists %s, which the full listing does not have", words, p)
					c.Check(may(x), "%q lists %s, which does not match", words, p)
					c.Check(!strings.HasPrefix(p, "builtin.") && p != "builtin", "%q lists the hidden %s", words, p)
				}
				n := 0
				for _, x := range all {
					if must(x) {
						n++
						c.Check(got[x.path] == 1, "%q does not list %s, which matches", words, x.path)
					}
				}
				if n > 0 && n < len(all) {
					c.NonTrivial(true)
				}
				c.Label(kind)
			}
		})
}
