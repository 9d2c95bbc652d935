package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

type hubDir struct {
	path string
	on   bool
}

// dirSnap is the content of a tree: files with mode and text, directories, links.
func dirSnap(roots ...string) map[string]string {
	m := map[string]string{}
	for _, root := range roots {
		filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if i.Mode().IsRegular() {
				d, _ := os.ReadFile(p)
				m[p] = i.Mode().String() + " " + string(d)
			} else {
				m[p] = i.Mode().String()
			}
			return nil
		})
	}
	return m
}

func snapDiff(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return k + " is gone"
		} else if v != a[k] {
			return k + " changed"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

// hubListing parses what `hub` prints into "path state" lines, in order.
func hubListing(out string) []string {
	r := []string{}
	off := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "["):
			off = strings.Contains(l, "] (disabled)")
		case strings.HasPrefix(l, "    - path:"):
			s := "on"
			if off {
				s = "disabled"
			}
			r = append(r, strings.TrimSpace(strings.TrimPrefix(l, "    - path:"))+" "+s)
		}
	}
	return r
}

func TestC15(t *testing.T) {
	tk.Prop(t, "history", 500, 10,
		"2-6 local directories whose names are prefixes and parts of one another (blanks, '#', non-ASCII letters, nested, hidden, symbolic links, beside and inside the data directory, some with a hub.ticat help of up to 100 KB), each with 1-3 commands; 3-10 operations, one or several per run: adding (absolute, relative, unclean path, the working directory, a missing one, a file), disabling, enabling and purging by exact path, part of it or no match, as argument or before a tail-mode call, purging all, clearing; after each run the listing, the listed commands and the content of the directories must be the modelled ones, at the end each command of an enabled directory runs and no other; non-trivial when some search string matched a directory that was in the other state, or also another one that must stay as it is",
		func(c *tk.C) {
			b := c.NewBox()
			n := c.Int("dirs", 2, 6)
			names := c.Perm("names", 17)
			pool := []string{"wd/qa", "wd/qab", "wd/qa/in", "xx/qa", "wd/qa b", "wd/q#a", "wd/qä", "wd/zz.d", "wd/qa.ticat", "wd/zz.d/qab", "ticat.data/hubs", "ticat.data/hub/loc", "wd", "wd/qa:b", "wd/.qa", "wd/.hidden/qab", "xx/.git"}
			family := c.Chance("family", 40)
			if family { // one is the beginning of the others
				sort.SliceStable(names, func(i, j int) bool {
					in := func(i int) bool { return strings.HasPrefix(pool[i], "wd/qa") && pool[i] != "wd/qa/in" }
					return in(names[i]) && !in(names[j])
				})
			}
			nested := func(a, d string) bool { return strings.HasPrefix(d, a+"/") }
			var dirs []string
		next:
			for _, i := range names {
				for _, d := range dirs {
					if nested(filepath.Join(b.Dir, pool[i]), d) || nested(d, filepath.Join(b.Dir, pool[i])) {
						continue next
					}
				}
				if len(dirs) < n {
					dirs = append(dirs, filepath.Join(b.Dir, pool[i]))
				}
			}
			var snapped []string
			cmds := map[string][]string{}
			for i, d := range dirs {
				for j, m := 0, c.Int("cmds", 1, 3); j < m; j++ {
					name := fmt.Sprintf("zc%d%c", i, 'k'+j)
					if c.Chance("sub", 30) {
						name += "/zsub"
					}
					path := strings.ReplaceAll(name, "/", ".")
					cmds[d] = append(cmds[d], path)
					if c.Chance("flow", 25) && !strings.Contains(name, "/") {
						b.File(d+"/"+path+".tiflow", "help = h\nflow = echo ran"+path+"\n")
					} else {
						b.ModIn(d, path, tk.Script{Name: path, Body: "echo ran" + path}, "help = h\n")
					}
				}
				if c.Chance("help", 40) {
					help := tk.Pick(c, "helptext", "plain words", "unusual ' \" # | words", "", "a\ttab in it", "two\\\n  lines", strings.Repeat("long ", 20000))
					if len(help) > 10000 {
						c.Label("long-help")
					}
					b.File(d+"/hub.ticat", "help = "+help+"\n")
				}
				os.MkdirAll(d+"/.git", 0755)
				b.File(d+"/other.txt", "mine")
				if filepath.Base(d) != "wd" && c.Chance("link", 15) {
					// the directory is a symbolic link to where its content is
					real := fmt.Sprintf("%s/real%d", b.Dir, i)
					if os.Rename(d, real) != nil || os.Symlink(real, d) != nil {
						tk.Infra("can't make the link %s", d)
					}
					snapped = append(snapped, real)
					c.Label("linked")
				}
				snapped = append(snapped, d)
			}
			b.File("wd-file", "x")
			os.MkdirAll(filepath.Join(b.Dir, "wd"), 0755)
			orig := dirSnap(snapped...)
			var hub []hubDir
			nontrivial := false

			find := func() string { // a search string
				d := tk.Pick(c, "find-dir", dirs...)
				rel := strings.TrimPrefix(d, b.Dir+"/")
				switch tk.Pick(c, "find-form", "exact", "exact", "rel", "part", "none", "all") {
				case "exact":
					return d
				case "rel":
					return rel
				case "part":
					r := []rune(rel)
					i := c.Int("from", 0, len(r)-1)
					s := string(r[i:c.Int("to", i+1, len(r))])
					s = strings.TrimSpace(s)
					for _, other := range []string{"disabled", "on", "<local>", "local", "plain words", "unusual ' \" # | words", "long long", "a ttab in it", "two lines", "h"} {
						if strings.Contains(other, s) || s == "" {
							return rel
						}
					}
					return s
				case "none":
					return "nosuchdir"
				}
				return b.Dir
			}
			match := func(s string, exactFirst bool) map[int]bool {
				m := map[int]bool{}
				for i, h := range hub {
					if exactFirst && h.path == s {
						return map[int]bool{i: true}
					}
					if strings.Contains(h.path, s) {
						m[i] = true
					}
				}
				return m
			}
			// step picks an operation and returns its words, the directory to run
			// in, and whether it succeeds; it changes the model.
			type op struct {
				words []string
				dir   string
				ok    bool
			}
			step := func() op {
				byFind := func(cmd string, s string, tailOK bool) []string {
					if tailOK && !strings.ContainsAny(s, ":#") && c.Chance("tail", 25) {
						return []string{s, "::" + cmd}
					}
					if !strings.ContainsAny(s, ":=") && s[0] != '.' && c.Chance("pos", 40) {
						return []string{cmd, s}
					}
					return []string{cmd, "find-str=" + escColon(s)}
				}
				kinds := []string{"add", "add", "add", "add", "disable", "disable", "disable", "enable", "purge", "purge", "purge-all", "clear", "bad-add"}
				if family && len(hub) == 0 {
					kinds = []string{"add-all"}
				}
				switch kind := tk.Pick(c, "op", kinds...); kind {
				case "add-all":
					o := op{ok: true}
					for j, d := range dirs {
						if j > 0 {
							o.words = append(o.words, ":")
						}
						o.words = append(o.words, "hub.add.local", "path="+escColon(d))
						hub = append(hub, hubDir{d, true})
					}
					return o
				case "add":
					d := tk.Pick(c, "dir", dirs...)
					o := op{ok: true}
					cmd := tk.Pick(c, "name", "hub.add.local-dir", "hub.add.local", "h.+.l", "hub.add.local")
					if cmd == "h.+.l" {
						cmd = "h.add.local"
					}
					switch tk.Pick(c, "form", "abs", "abs", "rel", "unclean", "slash", "pwd") {
					case "abs":
						o.words = []string{cmd, "path=" + escColon(d)}
					case "rel":
						o.dir = filepath.Dir(d)
						o.words = []string{cmd, "path=" + escColon(filepath.Base(d))}
					case "unclean":
						o.words = []string{cmd, "path=" + escColon(filepath.Dir(d)+"/./../"+filepath.Base(filepath.Dir(d))+"//"+filepath.Base(d))}
					case "slash":
						o.words = []string{cmd, "path=" + escColon(d) + "/"}
					case "pwd":
						o.dir = d
						o.words = []string{tk.Pick(c, "pwdname", "hub.add.pwd", "hub.add.here")}
					}
					for i, h := range hub {
						if h.path == d {
							nontrivial = nontrivial || !h.on
							hub[i].on = true
							return o
						}
					}
					hub = append(hub, hubDir{d, true})
					return o
				case "bad-add":
					return op{words: []string{"hub.add.local", "path=" + escColon(tk.Pick(c, "bad", b.Dir+"/nosuch", b.Dir+"/wd-file", dirs[0]+"/other.txt"))}}
				case "disable", "enable":
					s := find()
					m := match(s, true)
					if len(m) > 0 && len(m) < len(match(s, false)) {
						nontrivial = true
					}
					for i := range m {
						hub[i].on = kind == "enable"
					}
					return op{words: byFind("hub."+kind, s, true), ok: len(m) > 0}
				case "purge":
					s := find()
					m := match(s, false)
					var rest []hubDir
					for i, h := range hub {
						if m[i] && !h.on {
							continue
						}
						rest = append(rest, h)
						nontrivial = nontrivial || m[i]
					}
					o := op{words: byFind("hub.purge", s, true), ok: len(rest) < len(hub)}
					hub = rest
					return o
				case "purge-all":
					var rest []hubDir
					for _, h := range hub {
						if h.on {
							rest = append(rest, h)
						}
					}
					o := op{words: []string{tk.Pick(c, "pa", "hub.purge.all", "hub.purge.inactive")}, ok: len(rest) < len(hub)}
					hub = rest
					return o
				}
				hub = nil
				return op{words: []string{tk.Pick(c, "cl", "hub.clear", "hub.clean")}, ok: true}
			}
			listed := func(out string) []string {
				r := []string{}
				for _, l := range strings.Split(out, "\n") {
					if l = strings.TrimSpace(l); strings.HasPrefix(l, "zc") {
						r = append(r, l)
					}
				}
				sort.Strings(r)
				return r
			}
			want := func() (list, cmdl []string) {
				list, cmdl = []string{}, []string{}
				for _, h := range hub {
					s := "disabled"
					if h.on {
						s = "on"
						cmdl = append(cmdl, cmds[h.path]...)
					}
					list = append(list, h.path+" "+s)
				}
				sort.Strings(list)
				sort.Strings(cmdl)
				return
			}
			for i, n := 0, c.Int("ops", 3, 10); i < n; i++ {
				before := append([]hubDir{}, hub...)
				o := step()
				words := append([]string{}, o.words...)
				for o.ok && c.Chance("more", 25) && !strings.HasPrefix(words[len(words)-1], ":") {
					saved := append([]hubDir{}, hub...)
					p := step()
					if p.dir != o.dir || strings.HasPrefix(p.words[len(p.words)-1], ":") {
						hub = saved
						break
					}
					words = append(append(words, ":"), p.words...)
					o.ok = p.ok
				}
				c.Desc("%v at %s ok=%v -> %v", words, strings.TrimPrefix(o.dir, b.Dir), o.ok, hub)
				opt := tk.Opt{Dir: o.dir}
				if o.dir != "" {
					opt.Env = []string{"PWD=" + o.dir}
				}
				res := b.RunOpt(opt, words...)
				if o.ok {
					c.Check(res.Code == 0, "%v failed with %d, hub was %v", words, res.Code, before)
				} else if !strings.Contains(words[0], "purge") || len(words) > 2 {
					c.Check(res.Code != 0 || strings.Contains(strings.Join(words, " "), "purge"), "%v reported success, hub was %v", words, before)
				}
				wl, wc := want()
				hl := b.Run("hub")
				got := hubListing(hl.Out)
				sort.Strings(got)
				c.Check(hl.Code == 0 && tk.Eq(got, wl), "after %v (hub was %v) the listing is %v, want %v", words, before, got, wl)
				got = listed(b.Run("api.cmd.list.all").Out)
				c.Check(tk.Eq(got, wc), "after %v the commands are %v, want %v", words, got, wc)
				if d := snapDiff(orig, dirSnap(snapped...)); d != "" {
					c.Violate("%v changed the content of a local directory: %s", words, d)
				}
			}
			if c.Chance("search", 50) {
				s := find()
				want := []string{}
				for i := range match(s, false) {
					st := "disabled"
					if hub[i].on {
						st = "on"
					}
					want = append(want, hub[i].path+" "+st)
				}
				sort.Strings(want)
				got := hubListing(b.Run("hub", "1st-str="+escColon(s)).Out)
				sort.Strings(got)
				c.Check(tk.Eq(got, want), "hub listing by '%s' is %v, want %v", s, got, want)
			}
			on := map[string]bool{}
			for _, h := range hub {
				on[h.path] = h.on
			}
			for _, d := range dirs {
				for _, name := range cmds[d] {
					res := b.Run(name)
					ran := strings.Contains(res.All(), "ran"+name+"\n")
					c.Check(ran == on[d] && (res.Code == 0) == on[d], "command %s of %s (enabled %v): ran %v, exit %d", name, d, on[d], ran, res.Code)
				}
			}
			c.NonTrivial(nontrivial)
		})
}
