package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"vharness/tk"
)

// gitNode is a branch of a served git repository: the commands in it and what
// its list names.
type gitNode struct {
	repo    int
	branch  string // "" is the default one
	serial  int
	cmds    []string
	list    []string // addresses, with #branch
	dir     string   // where it is served
	section string
	help    string
}

type hubEntry struct {
	addr, path, from, help string // addr with #branch, empty for a local directory
	on                     bool
}

func (h hubEntry) key() string {
	s := h.addr
	if s == "" {
		s = h.path
	}
	if h.on {
		return s + " on"
	}
	return s + " disabled"
}

// hubEntries parses what `hub` prints.
func hubEntries(out string) (r []hubEntry) {
	for _, l := range strings.Split(out, "\n") {
		prop := func(name string) (string, bool) {
			v, ok := strings.CutPrefix(l, "    - "+name+":")
			return strings.TrimSpace(v), ok
		}
		if strings.HasPrefix(l, "[") && strings.Contains(l, "]") {
			r = append(r, hubEntry{on: !strings.Contains(l, "] (disabled)")})
			continue
		}
		if len(r) == 0 {
			continue
		}
		e := &r[len(r)-1]
		if v, ok := prop("address"); ok {
			e.addr = v
		} else if v, ok := prop("branch"); ok {
			e.addr += "#" + v
		} else if v, ok := prop("from"); ok {
			e.from = v
		} else if v, ok := prop("path"); ok {
			e.path = v
		} else if strings.HasPrefix(l, "     '") {
			e.help = strings.Trim(l, " '")
		}
	}
	return
}

func TestC34(t *testing.T) {
	hubEntriesCheck(t)
	tk.Known(t, "branch-default", func(c *tk.C) (bool, bool, string) {
		b := c.NewBox()
		b.File(".gitconfig", "[user]\nname = u\nemail = u@x\n[init]\ndefaultBranch = main\n[url \"file://"+b.Dir+"/git/\"]\ninsteadOf = https://github.com/\n")
		b.File("git/o/r/zone.tiflow", "help = h\nflow = echo one\n")
		b.File("git/ticat-mods/marsh/zin.tiflow", "help = h\nflow = echo in\n")
		cmd := exec.Command("/bin/sh", "-ec", "cd o/r; git init -q; git add -A; git commit -qm c; git checkout -qb default; echo 'flow = echo two' > ztwo.tiflow; git add -A; git commit -qm d; git checkout -q main; cd ../../ticat-mods/marsh; git init -q; git add -A; git commit -qm c")
		cmd.Dir = filepath.Join(b.Dir, "git")
		cmd.Env = []string{"HOME=" + b.Dir, "GIT_CONFIG_NOSYSTEM=1", "PATH=" + os.Getenv("PATH")}
		if out, err := cmd.CombinedOutput(); err != nil {
			tk.Infra("git: %v %s", err, out)
		}
		b.Run("hub.add", "o/r")
		b.Run("hub.add", "git-address=o/r", "git-branch=default")
		r := b.Run("ztwo")
		return r.Code == 0, r.Code != 0 && b.Run("zone").Code == 0, "the commands of the branch 'default' are not there, its clone is that of the default branch"
	})
	tk.Prop(t, "git", 110, 12,
		"2-5 git repositories served from local directories (some with a second branch, addressed by https, http or ssh form, a short owner/name, or two addresses of the same repository), each branch with commands and a list of 0-3 of the others or itself (any graph: cycles, shared entries, both branches; help texts with blanks, tabs, several lines, none), the default repository with a list of its own; 3-8 operations: adding by address and branch, updating after new commits that add and withdraw commands and list more repositories, initialising, disabling, enabling, purging by exact address or part of it, purging all, clearing, adding a local directory; in a tenth of the operations a git call fails before or after its effect and the operation is repeated; after each run the listing, the listed commands, the clones with the version in them and the local directory must be the modelled ones and no address was cloned twice; at the end commands are called; non-trivial when some repository came in through a list and something was updated or removed",
		func(c *tk.C) {
			b := c.NewBox()
			b.Timeout = 120e9
			git := func(dir string, script string) {
				cmd := exec.Command("/bin/sh", "-ec", script)
				cmd.Dir = dir
				cmd.Env = []string{"HOME=" + b.Dir, "GIT_CONFIG_NOSYSTEM=1", "PATH=" + os.Getenv("PATH")}
				out, err := cmd.CombinedOutput()
				if err != nil {
					tk.Infra("git: %v: %s: %s", err, script, out)
				}
			}
			b.File(".gitconfig", "[user]\nname = u\nemail = u@x\n[init]\ndefaultBranch = main\n[advice]\ndetachedHead = false\n[gc]\nauto = 0\n[maintenance]\nauto = false\n"+
				"[url \"file://"+b.Dir+"/git/\"]\ninsteadOf = https://github.com/\ninsteadOf = http://github.com/\ninsteadOf = git@github.com:\ninsteadOf = https://x.test/\ninsteadOf = http://x.test/\ninsteadOf = git@x.test:\n")
			b.File("gitbin/git", "#!/bin/sh\nif [ \"$1\" = clone ]; then for a; do :; done; echo \"$a\" >> "+b.Dir+"/cloned; fi\n"+
				"n=; [ -f "+b.Dir+"/gitfail ] && read n how < "+b.Dir+"/gitfail\n"+
				"if [ -n \"$n\" ]; then\n  if [ $n -le 1 ]; then rm "+b.Dir+"/gitfail; [ $how = after ] && /usr/bin/git \"$@\"; echo injected >&2; exit 1; fi\n  echo $((n-1)) $how > "+b.Dir+"/gitfail\nfi\nexec /usr/bin/git \"$@\"\n")
			b.Env = append(b.Env, "PATH="+b.Dir+"/gitbin:"+os.Getenv("PATH"))

			// the served repositories
			nodes := map[string]*gitNode{} // by address, aliases share a node
			paths := map[string]string{}   // clone directory by address
			var addrs []string             // every address with #branch
			reg := func(addr string, nd *gitNode) {
				if nd.branch != "" {
					addr += "#" + nd.branch
				}
				base, br, _ := strings.Cut(addr, "#")
				if br == "" {
					br = "default"
				}
				p := strings.ToLower(base)
				if i := strings.Index(p, "@"); i >= 0 {
					p = strings.Replace(p[i+1:], ":", "/", 1)
				} else {
					p = p[strings.Index(p, "//")+2:]
				}
				nodes[addr], paths[addr] = nd, filepath.Join(b.Data, "hub", p, br+".branch")
				addrs = append(addrs, addr)
			}
			commit := func(nd *gitNode) {
				s := "git checkout -q main\n"
				if nd.branch != "" {
					s = "git checkout -q -B " + nd.branch + "\n"
					if nd.serial > 0 {
						s = "git checkout -q " + nd.branch + "\n"
					}
				}
				git(nd.dir, s+"git rm -rqf --ignore-unmatch .\n")
				for _, name := range nd.cmds {
					b.File(nd.dir+"/"+name+".tiflow", "help = h\nflow = echo ran_"+name+"_\n")
				}
				list := ""
				if len(nd.list) > 0 || c.Chance("emptylist", 30) {
					list = "\n[" + nd.section + "]\n"
					for _, a := range nd.list {
						list += a + " = " + tk.Pick(c, "listhelp", "", "some words", "with\ta tab", "it's 'quoted'", "two\\\n  lines") + "\n"
					}
				}
				if nd.help != "" || list != "" {
					b.File(nd.dir+"/hub.ticat", "help = "+nd.help+"\n"+list)
				}
				nd.serial++
				git(nd.dir, "git add -A\ngit commit -q --allow-empty -m c\ngit checkout -q main\n")
				c.Desc("commit %s %s: commands %v list %v", strings.TrimPrefix(nd.dir, b.Dir), nd.branch, nd.cmds, nd.list)
			}
			n := c.Int("repos", 2, 5)
			var all []*gitNode
			mk := func(i int, dir, branch string) *gitNode {
				nd := &gitNode{repo: i, branch: branch, dir: filepath.Join(b.Dir, "git", dir), section: tk.Pick(c, "section", "repos", "repos", "repo"),
					help: tk.Pick(c, "help", "", "words here", "a\tb", "one\\\n two")}
				all = append(all, nd)
				return nd
			}
			newCmd := func(nd *gitNode) string {
				s := fmt.Sprintf("zg%d%sv%dn%d", nd.repo, map[bool]string{true: "d", false: "m"}[nd.branch != ""], nd.serial, len(nd.cmds))
				if c.Chance("sub", 25) {
					s += ".zsub"
				}
				return s
			}
			for i := 0; i < n; i++ {
				form := tk.Pick(c, "form", "github", "github", "https", "http", "ssh", "Case")
				dir := fmt.Sprintf("own%d/rep%d", i%2, i)
				addr := ""
				switch form {
				case "github":
					addr = "https://github.com/" + dir
				case "Case":
					dir = fmt.Sprintf("Own%d/Rep.%d.git", i%2, i)
					addr = "https://github.com/" + dir
				case "https":
					addr = "https://x.test/" + dir
				case "http":
					addr = "http://x.test/" + dir
				case "ssh":
					addr = "git@x.test:" + dir
				}
				nd := mk(i, dir, "")
				reg(addr, nd)
				os.MkdirAll(nd.dir, 0755)
				git(nd.dir, "git init -q\ngit commit -q --allow-empty -m first\n")
				alias := ""
				if c.Chance("alias", 25) {
					alias = strings.Replace(strings.Replace(addr, "https://", "HTTP://", 1), "http://", "https://", 1)
					alias = strings.Replace(strings.Replace(alias, "HTTP://", "http://", 1), "git@x.test:", "https://x.test/", 1)
					reg(alias, nd)
					c.Label("alias")
				}
				if c.Chance("branch", 35) {
					nd2 := mk(i, dir, tk.Pick(c, "branchname", "dev", "v1.0", "feat/x"))
					reg(addr, nd2)
					if alias != "" && c.Bool("aliasbranch") {
						reg(alias, nd2)
					}
					c.Label("branch")
				}
			}
			const initAddr = "https://github.com/ticat-mods/marsh"
			initNode := mk(9, "ticat-mods/marsh", "")
			os.MkdirAll(initNode.dir, 0755)
			git(initNode.dir, "git init -q\ngit commit -q --allow-empty -m first\n")
			reg(initAddr, initNode)
			graph := addrs
			for _, nd := range all {
				nd.cmds = append(nd.cmds, newCmd(nd))
				if c.Chance("cmd2", 40) {
					nd.cmds = append(nd.cmds, newCmd(nd))
				}
				if nd == initNode && c.Chance("initlist", 75) {
					graph = nil
				}
				if len(graph) > 0 {
					for i, k := 0, c.Int("listlen", 0, 3); i < k; i++ {
						a := tk.Pick(c, "list", graph...)
						nd.list = append(remove(nd.list, a), a)
					}
				}
				commit(nd)
			}
			local := filepath.Join(b.Dir, "loc")
			b.File("loc/zloc.tiflow", "help = h\nflow = echo ran_zloc_\n")
			b.File("loc/hub.ticat", "help = a\tb\n[repos]\n"+addrs[0]+" = listed by a local directory\n")
			b.File("loc/.git/config", "mine")
			orig := dirSnap(local)

			// the model
			var hub []hubEntry
			clones := map[string][]string{} // commands in each clone
			leftovers := map[string]bool{}  // clones of failed runs
			cameByList, changed := false, false
			find := func(addr string) int {
				for i, h := range hub {
					if h.addr == addr {
						return i
					}
				}
				return -1
			}
			var visit func(addr string, top bool, done map[string]bool)
			visit = func(addr string, top bool, done map[string]bool) {
				if i := find(addr); i < 0 {
					hub = append(hub, hubEntry{addr: addr, path: paths[addr], on: true})
					cameByList = cameByList || !top
				}
				if done[addr] {
					return
				}
				done[addr] = true
				nd := nodes[addr]
				if old, ok := clones[paths[addr]]; ok && !tk.Eq(old, nd.cmds) {
					changed = true
				}
				clones[paths[addr]] = append([]string{}, nd.cmds...)
				for _, a := range nd.list {
					visit(a, false, done)
				}
			}
			disabled := func() map[string]bool {
				m := map[string]bool{}
				for _, h := range hub {
					if !h.on {
						m[h.addr] = true
					}
				}
				return m
			}
			add := func(addr string) {
				if i := find(addr); i >= 0 {
					hub[i].on = true
				}
				visit(addr, true, disabled())
			}
			takeOut := func(gone []hubEntry, rest []hubEntry) {
				hub = rest
				used := map[string]bool{}
				for _, h := range rest {
					used[h.path] = true
				}
				for _, h := range gone {
					if h.addr != "" && !used[h.path] {
						delete(clones, h.path)
						changed = true
					}
				}
			}
			pushed := func() {
				for i, k := 0, c.Int("pushes", 0, 2); i < k; i++ {
					nd := all[c.Int("push", 0, len(all)-1)]
					if c.Chance("withdraw", 30) && len(nd.cmds) > 1 {
						nd.cmds = nd.cmds[1:]
					}
					nd.cmds = append(nd.cmds, newCmd(nd))
					if c.Chance("listmore", 50) {
						a := tk.Pick(c, "more", addrs...)
						nd.list = append(remove(nd.list, a), a)
					} else if len(nd.list) > 0 && c.Chance("listless", 30) {
						nd.list = nd.list[1:]
					}
					commit(nd)
				}
			}
			word := func() string {
				a := tk.Pick(c, "find-addr", addrs...)
				if len(hub) > 0 && c.Chance("known", 85) {
					h := tk.Pick(c, "find-hub", hub...)
					for _, g := range hub { // rather one sharing its clone with another
						if g.path == h.path {
							break
						}
						for _, g2 := range hub {
							if g.path == g2.path && g.addr != g2.addr && c.Bool("find-shared") {
								h = g
							}
						}
					}
					if a = h.addr; a == "" {
						a = h.path
					}
				}
				switch tk.Pick(c, "find-form", "exact", "exact", "exact", "path", "owner", "name", "none") {
				case "path":
					if paths[a] != "" {
						return paths[a]
					}
				case "owner":
					return tk.Pick(c, "owner", "own0", "own1", "github.com", "x.test")
				case "name":
					return fmt.Sprintf("rep%d", c.Int("repnum", 0, n-1))
				case "none":
					return "nosuch/repository"
				}
				return a
			}
			type op struct {
				words []string
				dir   string
				ok    bool
			}
			byFind := func(cmd, s string) []string {
				if !strings.ContainsAny(s, ":#=") && c.Chance("tail", 25) {
					return []string{s, "::" + cmd}
				}
				if !strings.ContainsAny(s, ":=") && c.Chance("pos", 40) {
					return []string{cmd, s}
				}
				return []string{cmd, "find-str=" + escColon(s)}
			}
			listing := func(r tk.Res) []hubEntry { return hubEntries(r.Out) }
			purge := func(s string) op {
				now := listing(b.Run("hub")) // what a search sees of the entries
				var gone, rest []hubEntry
				exact := false
				for _, h := range hub {
					exact = exact || h.addr == s && !h.on && s != ""
				}
				for _, h := range hub {
					seen := false
					for _, e := range now {
						if e.addr == h.addr && e.path == h.path {
							for _, f := range []string{e.addr, e.path, e.from, e.help} {
								seen = seen || strings.Contains(f, s)
							}
						}
					}
					if !h.on && (exact && h.addr == s || !exact && seen) {
						gone = append(gone, h)
					} else {
						rest = append(rest, h)
					}
				}
				o := op{words: []string{tk.Pick(c, "pa", "hub.purge.all", "hub.purge.inactive")}, ok: len(gone) > 0}
				if s != "" {
					o.words = byFind("hub.purge", s)
				}
				takeOut(gone, rest)
				return o
			}
			pending := ""
			step := func() op {
				if pending != "" { // the second half of retiring a repository
					s := pending
					pending = ""
					return purge(s)
				}
				kind := tk.Pick(c, "op", "add", "add", "add", "add", "update", "update", "update", "init", "retire", "retire", "disable", "disable", "enable", "purge", "purge", "purge-all", "clear", "local")
				if len(hub) == 0 && kind != "init" && kind != "local" {
					kind = "add"
				}
				switch kind {
				case "add":
					addr := tk.Pick(c, "addr", addrs...)
					base, br, _ := strings.Cut(addr, "#")
					if s, ok := strings.CutPrefix(base, "https://github.com/"); ok && c.Bool("short") {
						base = s
					}
					add(addr)
					add(initAddr)
					cmd := tk.Pick(c, "name", "hub.add-and-update", "hub.add", "h.add")
					if br == "" && !strings.Contains(base, ":") && c.Chance("tail", 40) {
						return op{words: []string{base, "::" + cmd}, ok: true}
					}
					w := []string{cmd, tk.Pick(c, "argname", "git-address=", "addr=") + escColon(base)}
					if br != "" {
						w = append(w, tk.Pick(c, "brname", "git-branch=", "branch=")+br)
					}
					return op{words: w, ok: true}
				case "update":
					done := disabled()
					for _, h := range append([]hubEntry{}, hub...) {
						if h.addr != "" && h.on {
							visit(h.addr, true, done)
						}
					}
					return op{words: []string{tk.Pick(c, "uname", "hub.update", "hub.update-all", "h.u")}, ok: true}
				case "init":
					add(initAddr)
					return op{words: []string{"hub.init"}, ok: true}
				case "retire", "disable", "enable":
					s := word()
					if kind == "retire" {
						kind, pending = "disable", s
						if base, _, ok := strings.Cut(s, "#"); ok && c.Bool("purge-base") {
							pending = base
						}
					}
					var m []int
					for i, h := range hub {
						k := h.addr
						if k == "" {
							k = h.path
						}
						if k == s {
							m = []int{i}
							break
						}
						if strings.Contains(k, s) {
							m = append(m, i)
						}
					}
					for _, i := range m {
						hub[i].on = kind == "enable"
					}
					return op{words: byFind("hub."+kind, s), ok: len(m) > 0}
				case "purge":
					return purge(word())
				case "purge-all":
					return purge("")
				case "local":
					for i, h := range hub {
						if h.path == local {
							hub[i].on = true
							return op{words: []string{"hub.add.pwd"}, dir: local, ok: true}
						}
					}
					hub = append(hub, hubEntry{path: local, on: true})
					return op{words: []string{"hub.add.local", "path=" + local}, ok: true}
				}
				takeOut(hub, nil)
				return op{words: []string{tk.Pick(c, "cl", "hub.clear", "hub.clean")}, ok: true}
			}
			check := func(what string) {
				want, wc := []string{}, []string{}
				seen := map[string]bool{}
				for _, h := range hub {
					want = append(want, h.key())
					from := clones[h.path]
					if h.addr == "" {
						from = []string{"zloc"}
					}
					if h.on && !seen[h.path] {
						seen[h.path] = true
						wc = append(wc, from...)
					}
				}
				hl := b.Run("hub")
				got := []string{}
				for _, e := range listing(hl) {
					got = append(got, e.key())
					if e.addr != "" {
						c.Check(e.path == paths[e.addr], "after %s %s is listed with the clone directory %s, want %s", what, e.addr, e.path, paths[e.addr])
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				c.Check(hl.Code == 0 && tk.Eq(got, want), "after %s the hub lists %v, want %v", what, got, want)
				got = []string{}
				for _, l := range strings.Split(b.Run("api.cmd.list.all").Out, "\n") {
					if l = strings.TrimSpace(l); strings.HasPrefix(l, "zg") || strings.HasPrefix(l, "zloc") {
						got = append(got, l)
					}
				}
				sort.Strings(got)
				sort.Strings(wc)
				c.Check(tk.Eq(got, wc), "after %s the commands are %v, want %v", what, got, wc)
				found := map[string][]string{}
				root := filepath.Join(b.Data, "hub")
				filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
					if err == nil && i.IsDir() && strings.HasSuffix(p, ".branch") {
						found[p] = []string{}
						filepath.Walk(p, func(q string, i os.FileInfo, err error) error {
							if err == nil && strings.HasSuffix(q, ".tiflow") {
								rel, _ := filepath.Rel(p, strings.TrimSuffix(q, ".tiflow"))
								found[p] = append(found[p], strings.ReplaceAll(rel, "/", "."))
							}
							return nil
						})
						return filepath.SkipDir
					}
					return nil
				})
				for _, p := range sortedKeys(clones) {
					g, ok := found[p]
					c.Check(ok, "after %s the clone %s is missing", what, p)
					w := append([]string{}, clones[p]...)
					sort.Strings(w)
					sort.Strings(g)
					c.Check(tk.Eq(g, w), "after %s the clone %s has the commands %v, want %v", what, p, g, w)
				}
				for _, p := range sortedKeys(found) {
					_, ok := clones[p]
					c.Check(ok || leftovers[p], "after %s there still is the clone %s", what, p)
				}
				if d := snapDiff(orig, dirSnap(local)); d != "" {
					c.Violate("%s changed the local directory: %s", what, d)
				}
			}
			run := func(o op) tk.Res {
				b.Remove("cloned")
				res := b.RunOpt(tk.Opt{Dir: o.dir}, o.words...)
				seen := map[string]bool{}
				for _, l := range strings.Fields(b.Read("cloned")) {
					c.Check(!seen[l], "%v cloned into %s twice", o.words, l)
					seen[l] = true
				}
				if r := tk.RuntimeCrash(res); r != "" {
					c.Violate("%v crashed: %s", o.words, r)
				}
				return res
			}
			if c.Chance("first-run", 12) {
				// nothing there yet: the first run fetches the default repository
				b.Remove("ticat.data/hub")
				c.Label("first-run")
				add(initAddr)
				res := run(op{words: []string{"echo", "hi"}})
				c.Check(res.Code == 0, "the first run failed with %d", res.Code)
				check("the first run")
			}
			for i, k := 0, c.Int("ops", 3, 8); i < k; i++ {
				if i > 0 {
					pushed()
				}
				before := append([]hubEntry{}, hub...)
				cb := map[string][]string{}
				for p, v := range clones {
					cb[p] = v
				}
				o := step()
				c.Desc("%v ok=%v", o.words, o.ok)
				if c.Chance("fault", 10) && o.ok {
					b.File("gitfail", strconv.Itoa(c.Int("failat", 1, 4))+" "+tk.Pick(c, "failhow", "before", "after")+"\n")
					res := run(o)
					if _, err := os.Stat(filepath.Join(b.Dir, "gitfail")); err == nil {
						b.Remove("gitfail")
						c.Check(res.Code == 0, "%v failed with %d, hub was %v", o.words, res.Code, before)
						check(fmt.Sprint(o.words))
						continue
					}
					c.Label("fault")
					c.Check(res.Code != 0, "%v reported success although a git call failed", o.words)
					// the hub may have any of the two states of each entry, nothing in it is lost
					have := map[string]bool{}
					for _, e := range listing(b.Run("hub")) {
						k := e.addr + "\n" + e.path
						c.Check(!have[k], "after %v with a failing git call %s is listed twice", o.words, e.addr)
						have[k] = true
					}
					for _, h := range before {
						c.Check(have[h.addr+"\n"+h.path], "after %v with a failing git call %s%s is no longer listed", o.words, h.addr, h.path)
					}
					for p := range cb {
						_, err := os.Stat(p)
						c.Check(err == nil, "after %v with a failing git call the clone %s is gone", o.words, p)
					}
					for _, p := range paths {
						leftovers[p] = true
					}
				}
				res := run(o)
				if o.ok {
					c.Check(res.Code == 0, "%v failed with %d, hub was %v", o.words, res.Code, before)
				} else if !strings.Contains(strings.Join(o.words, " "), "purge") {
					c.Check(res.Code != 0, "%v reported success, hub was %v", o.words, before)
				}
				check(fmt.Sprint(o.words))
			}
			callable := map[string]bool{}
			for _, h := range hub {
				if h.on {
					for _, s := range clones[h.path] {
						callable[s] = true
					}
				}
			}
			for _, nd := range all {
				name := nd.cmds[len(nd.cmds)-1]
				if !callable[name] && c.Chance("skipcall", 60) {
					continue
				}
				res := b.Run(name)
				ran := strings.Contains(res.All(), "ran_"+name+"_")
				c.Check(ran == callable[name] && (res.Code == 0) == callable[name], "command %s (callable %v): ran %v, exit %d", name, callable[name], ran, res.Code)
			}
			c.NonTrivial(cameByList && changed)
		})
}

// hubEntriesCheck works on a hub with clones already in place, without git:
// which entries and directories a search string addresses.
func hubEntriesCheck(t *testing.T) {
	tk.Prop(t, "entries", 350, 10,
		"a hub of 3-8 entries: repositories with addresses that are parts of one another (with and without branch, http, https and ssh form sharing a clone, short owner and name), in any state, with reasons and help texts, their clones in place, and a local directory; 2-6 operations: disabling, enabling and purging by exact address, path, part of them, reason or help word, purging all, clearing; after each the listing, the listed commands, the clone directories and the local directory must be the modelled ones; non-trivial when a purge took some clones and left others",
		func(c *tk.C) {
			b := c.NewBox()
			pool := []string{"https://x.test/o/r", "https://x.test/o/r#dev", "https://x.test/o/r#dev2", "http://x.test/o/r", "git@x.test:o/r", "http://x.test/o/r#dev",
				"https://x.test/o/rr", "https://x.test/o/rr#dev", "https://x.test/oo/r", "https://github.com/o/r", "https://github.com/O/R", "https://github.com/o/r.git", "https://y.test/x.test/o/r"}
			var hub []hubEntry
			cmds := map[string]string{}
			add := func(h hubEntry) {
				if cmds[h.path] == "" {
					cmds[h.path] = fmt.Sprintf("zg%d", len(cmds))
					b.File(h.path+"/"+cmds[h.path]+".tiflow", "help = h\nflow = echo ran\n")
					b.File(h.path+"/.git/config", "x")
				}
				hub = append(hub, h)
			}
			local := filepath.Join(b.Dir, "x.test/o/r")
			for i, k := range c.Perm("pool", len(pool))[:c.Int("entries", 3, 8)] {
				if i == 1 && c.Chance("local", 60) {
					add(hubEntry{path: local, on: !c.Chance("loff", 40), from: "<local>"})
				}
				a := pool[k]
				base, br, _ := strings.Cut(a, "#")
				p := strings.ToLower(base)
				if j := strings.Index(p, "@"); j >= 0 {
					p = strings.Replace(p[j+1:], ":", "/", 1)
				} else {
					p = p[strings.Index(p, "//")+2:]
				}
				if br == "" {
					br = "default"
				}
				from := tk.Pick(c, "from", a, a, pool[0], pool[1], pool[k/2])
				add(hubEntry{addr: a, path: filepath.Join(b.Data, "hub", p, br+".branch"), from: from, on: !c.Chance("off", 40), help: tk.Pick(c, "help", "", "some words", "about o/r")})
			}
			text := ""
			for _, h := range hub {
				state := "on"
				if !h.on {
					state = "disabled"
				}
				p := h.path
				if q, ok := strings.CutPrefix(p, b.Data+"/hub"); ok {
					p = "<hub>:" + q
				}
				text += strings.Join([]string{h.addr, h.from, p, h.help, state}, "\t") + "\n"
			}
			b.File("ticat.data/hub/repos.hub", text)
			nontrivial := false
			orig := dirSnap(local)
			for i, k := 0, c.Int("ops", 2, 6); i < k; i++ {
				before := append([]hubEntry{}, hub...)
				now := hubEntries(b.Run("hub").Out)
				s := ""
				h := hubEntry{addr: pool[0], path: local}
				if len(hub) > 0 {
					h = tk.Pick(c, "find-hub", hub...)
				}
				switch tk.Pick(c, "find-form", "exact", "exact", "exact", "base", "path", "part", "word", "none") {
				case "exact":
					s = h.addr
				case "base":
					s, _, _ = strings.Cut(h.addr, "#")
				case "path":
					s = h.path
				case "part":
					s = tk.Pick(c, "part", "o/r", "x.test/o", "x.test", "#dev", "https", "github", "o/rr", "git@", "branch")
				case "word":
					s = tk.Pick(c, "word", "some", "about")
				case "none":
					s = "nosuch/repository"
				}
				if s == "" {
					s = h.path
				}
				kind := tk.Pick(c, "op", "disable", "disable", "enable", "purge", "purge", "purge", "purge-all", "clear")
				words := []string{"hub." + kind, "find-str=" + escColon(s)}
				if !strings.ContainsAny(s, ":#") && c.Chance("tail", 30) {
					words = []string{s, "::hub." + kind}
				}
				ok := true
				switch kind {
				case "disable", "enable":
					var m []int
					for i, h := range hub {
						key := h.addr
						if key == "" {
							key = h.path
						}
						if key == s {
							m = []int{i}
							break
						}
						if strings.Contains(key, s) {
							m = append(m, i)
						}
					}
					for _, i := range m {
						hub[i].on = kind == "enable"
					}
					ok = len(m) > 0
				case "purge", "purge-all":
					if kind == "purge-all" {
						s = ""
						words = []string{"hub.purge.all"}
					}
					exact := false
					for _, h := range hub {
						exact = exact || h.addr == s && !h.on && s != ""
					}
					var rest []hubEntry
					for j, h := range hub {
						seen := false
						for _, f := range []string{now[j].addr, now[j].path, now[j].from, now[j].help} {
							seen = seen || strings.Contains(f, s)
						}
						if h.on || exact && h.addr != s || !exact && !seen {
							rest = append(rest, h)
						}
					}
					ok = len(rest) < len(hub)
					nontrivial = nontrivial || ok && len(rest) > 0
					hub = rest
				case "clear":
					hub = nil
					words = []string{"hub.clear"}
				}
				c.Desc("%v ok=%v", words, ok)
				res := b.Run(words...)
				if ok {
					c.Check(res.Code == 0, "%v failed with %d, hub was %v", words, res.Code, before)
				} else if !strings.HasPrefix(kind, "purge") {
					c.Check(res.Code != 0, "%v reported success, hub was %v", words, before)
				}
				want, wc, live := []string{}, []string{}, map[string]bool{}
				on := map[string]bool{}
				for _, h := range hub {
					want = append(want, h.key())
					live[h.path] = true
					if h.on && !on[h.path] {
						on[h.path] = true
						wc = append(wc, cmds[h.path])
					}
				}
				got := []string{}
				list := hubEntries(b.Run("hub").Out)
				for _, e := range list {
					got = append(got, e.key())
				}
				c.Check(tk.Eq(sorted(got), sorted(want)), "after %v (hub was %v) the listing is %v, want %v", words, before, got, want)
				// the order of the listing is the program's
				next := []hubEntry{}
				for _, e := range list {
					for _, h := range hub {
						if h.addr == e.addr && h.path == e.path {
							next = append(next, h)
							break
						}
					}
				}
				hub = next
				got = []string{}
				for _, l := range strings.Split(b.Run("api.cmd.list.all").Out, "\n") {
					if l = strings.TrimSpace(l); strings.HasPrefix(l, "zg") {
						got = append(got, l)
					}
				}
				c.Check(tk.Eq(sorted(got), sorted(wc)), "after %v the commands are %v, want %v", words, got, wc)
				for _, p := range sortedKeys(cmds) {
					_, err := os.Stat(p + "/" + cmds[p] + ".tiflow")
					c.Check((err == nil) == (live[p] || p == local), "after %v (hub was %v): directory %s present %v", words, before, strings.TrimPrefix(p, b.Dir), err == nil)
				}
				if d := snapDiff(orig, dirSnap(local)); d != "" {
					c.Violate("%v changed the local directory: %s", words, d)
				}
			}
			c.NonTrivial(nontrivial)
		})
}
