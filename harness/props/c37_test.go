package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"vharness/tk"
)

// modEntry is one module in a tree of files, with what it comes to.
type modEntry struct {
	path   string   // command path
	typ    string   // as told by api.cmd.type
	meta   string   // meta file
	exe    string   // file executed, or the directory of one without
	runner string   // executor: bash, sh, python, or the name of a stub
	opts   []string // extra options of the executor
	flow   []string // commands it calls
	runs   bool     // has a file to execute
	nosess bool
	args   []KV
}

func TestC37(t *testing.T) {
	tk.Prop(t, "tree", 500, 10,
		"a tree of 3-9 modules up to 4 levels deep (files of any or several extensions, files and directories naming another file to run, directories and meta files without anything to run, flows, files with flows, flow files; with 0-3 arguments, without session), executors set for some extensions (in the saved environment, in the line, or by a command; with options), hidden files and directories among them, other files beside; every command called, with and without arguments, must run exactly the modelled file, by the modelled executor, in its directory, with session directory and arguments, and exactly the modelled commands must exist and be told by the api commands; non-trivial when an executor was set and a module runs a file elsewhere",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			ran := filepath.Join(b.Ctl, "ran")
			for _, s := range []string{"stub1", "stub2"} {
				f := b.File("bin/"+s, "#!/bin/bash\nprintf '%s\\0' "+s+" \"$PWD\" \"$@\" END >> \"$VCTL/ran\"\n")
				os.Chmod(f, 0755)
			}
			b.File("ctl/x", "")
			custom := map[string]string{} // extension: executor
			var brace, setup []string     // in front of the command
			saved := []string{}
			for _, ext := range tk.Subset(c, "set-exts", []string{"xyz", "bash", "pl", "q-1", "sh"}) {
				v := b.Dir + "/bin/" + tk.Pick(c, "stub", "stub1", "stub2")
				if c.Chance("opts", 40) {
					v += tk.Pick(c, "opt", " -x", "  --long=1 b", " a b c")
				}
				custom[ext] = v
				switch by := c.Int("set-by", 0, 2); {
				case by == 0:
					saved = append(saved, "sys.ext.exec."+ext+"="+v)
				case by == 1 && len(brace) == 0:
					// one: a value with blanks would take in the next key
					brace = []string{"{sys.ext.exec." + ext + "=" + v + "}", ":"}
				default:
					setup = append(setup, "sys.ext-executor", "ext="+ext, "executor="+v, ":")
				}
			}
			setup = append(brace, setup...)
			b.Saved(saved...)
			runnerOf := func(file string) (string, []string) {
				ext := strings.TrimPrefix(filepath.Ext(file), ".")
				if v := strings.Fields(custom[ext]); ext != "" && len(v) > 0 {
					return filepath.Base(v[0]), v[1:]
				}
				switch ext {
				case "py":
					return "python", nil
				case "sh":
					return "sh", nil
				}
				return "bash", nil
			}
			script := func(rel string) {
				if filepath.Ext(rel) == ".py" {
					b.File(rel, "import os, sys\nopen(os.environ['VCTL']+'/ran', 'a').write('\\0'.join(['python', os.getcwd()] + sys.argv + ['END']) + '\\0')\n")
					return
				}
				b.File(rel, "n=sh; [ -n \"$BASH_VERSION\" ] && n=bash\nprintf '%s\\0' $n \"$PWD\" \"$0\" \"$@\" END >> \"$VCTL/ran\"\n")
			}
			var mods []*modEntry
			elsewhere := false
			exts := []string{".bash", ".sh", ".py", "", ".xyz", ".pl", ".v2.bash", ".q-1", ".tar.xyz", ".a.sh", ".1.x.y"}
			for i, n := 0, c.Int("mods", 3, 9); i < n; i++ {
				m := &modEntry{}
				dir := ""
				for j, d := 0, c.Int("depth", 0, 3); j < d; j++ {
					dir += tk.Pick(c, "dir", "va", "vb", "v-c") + "/"
				}
				name := fmt.Sprintf("m%d", i)
				rel := "mods/" + dir + name
				m.path = strings.ReplaceAll(dir, "/", ".") + name
				meta := ""
				if c.Chance("help", 70) {
					meta = "help = h\n"
				}
				kind := tk.Pick(c, "kind", "file", "file", "file", "file-cmd", "dir-cmd", "dir", "meta", "flow", "file-flow", "tiflow", "dir-flow")
				flow := func() {
					k := c.Int("calls", 1, 2)
					for j := 0; j < k; j++ {
						m.flow = append(m.flow, tk.Pick(c, "call", append([]*modEntry{{path: "noop"}}, mods...)...).path)
					}
					meta += "flow = " + strings.Join(m.flow, " : ") + "\n"
				}
				metaRel := ""
				switch kind {
				case "file", "file-flow":
					rel += tk.Pick(c, "ext", exts...)
					script(rel)
					m.exe, m.runs, m.typ = rel, true, "executable-file"
					if kind == "file-flow" {
						flow()
						m.typ = "executable-file+flow"
					}
				case "file-cmd":
					rel += tk.Pick(c, "ext", exts...)
					b.File(rel, "exit 9\n")
					to := tk.Pick(c, "to", "shared/run.bash", "../outside/run.sh", "lib"+name+".py", "shared/r.xyz")
					if dir == "" {
						to = strings.TrimPrefix(to, "../")
					}
					m.exe = filepath.Join("mods/"+dir, to)
					script(m.exe)
					meta += "cmd = " + to + "\n"
					m.runs, m.typ = true, "executable-file"
					elsewhere = true
				case "dir-cmd":
					to := tk.Pick(c, "to", "run.bash", "sub/run.sh", "./run.py", "run")
					m.exe = filepath.Join(rel, to)
					script(m.exe)
					meta += "cmd = " + to + "\n"
					m.runs, m.typ = true, "dir-with-executable-file"
					elsewhere = true
				case "dir":
					b.File(rel+"/readme.txt", "x")
					m.exe, m.typ = rel, "dir-with-no-executable"
				case "dir-flow":
					b.File(rel+"/readme.txt", "x")
					flow()
					m.typ = "flow"
				case "meta":
					m.typ = "no-executable"
				case "flow":
					flow()
					m.typ = "flow"
				case "tiflow":
					flow()
					m.typ = "flow"
					m.path = strings.TrimPrefix(tk.Pick(c, "flow-path", "", "va.", "vz.y."), "") + name
					metaRel = "mods/" + dir + m.path + ".tiflow"
				}
				if m.runs {
					m.runner, m.opts = runnerOf(m.exe)
					m.exe = filepath.Join(b.Dir, m.exe)
				} else if m.exe != "" {
					m.exe = filepath.Join(b.Dir, m.exe)
				}
				// one without session can't call others that need it
				calls := false
				for _, f := range m.flow {
					calls = calls || f != "noop"
				}
				if m.runs && !calls && c.Chance("nosess", 15) {
					m.nosess = true
					meta += "no-session = true\n"
				}
				if m.runs && c.Chance("args", 40) {
					meta += "[args]\n"
					for j, k := 0, c.Int("nargs", 1, 3); j < k; j++ {
						kv := KV{fmt.Sprintf("a%d", j), tk.Pick(c, "def", "", "d", "x y")}
						m.args = append(m.args, kv)
						meta += kv.K + " = " + kv.V + "\n"
					}
				}
				if metaRel == "" {
					metaRel = rel + ".ticat"
				}
				m.meta = b.File(metaRel, meta)
				mods = append(mods, m)
				c.Desc("%s: %s %s by %s %v, calls %v", m.path, metaRel, m.typ, m.runner, m.opts, m.flow)
			}
			hidden := []string{}
			for _, h := range tk.Subset(c, "hidden", []string{".hid/h1.bash", ".h2.bash", "va/.h3", "va/.hid/deep/h4.bash", ".hid/h5"}) {
				script("mods/" + h)
				b.File("mods/"+h+".ticat", "help = h\n")
				hidden = append(hidden, h)
			}
			if c.Bool("hidden-flow") {
				b.File("mods/.h6.tiflow", "flow = noop\n")
			}
			for _, f := range tk.Subset(c, "noise", []string{"x.txt", "va/Makefile", "vb/y.bash", "vb/z.ticat.bak", "README.md"}) {
				b.File("mods/"+f, "exit 9\n")
			}
			c.NonTrivial(elsewhere && len(custom) > 0)
			byPath := map[string]*modEntry{}
			for _, m := range mods {
				byPath[m.path] = m
			}
			// what a call executes
			var expect func(m *modEntry, given []KV, r [][]string) [][]string
			expect = func(m *modEntry, given []KV, r [][]string) [][]string {
				for _, f := range m.flow {
					if f != "noop" {
						r = expect(byPath[f], nil, r)
					}
				}
				if !m.runs {
					return r
				}
				x := append([]string{m.runner, filepath.Dir(m.exe)}, m.opts...)
				x = append(x, m.exe, "SESSION")
				if m.nosess {
					x[len(x)-1] = ""
				}
				for _, a := range m.args {
					v := a.V
					for _, kv := range given {
						if kv.K == a.K {
							v = kv.V
						}
					}
					x = append(x, v)
				}
				return append(r, x)
			}
			order := c.Perm("order", len(mods))
			for k := 0; k < len(mods) && k < 5; k++ {
				m := mods[order[k]]
				var given []KV
				for _, a := range m.args {
					if c.Bool("give") {
						given = append(given, KV{a.K, GenVal(c, "val")})
					}
				}
				words := append(append([]string{}, setup...), m.path)
				for _, kv := range given {
					words = append(words, kv.K+"="+escColon(kv.V))
				}
				os.Remove(ran)
				before := b.Sessions()
				r := b.Run(words...)
				want := expect(m, given, nil)
				c.Check(r.Code == 0, "%q exits with %d: %s", words, r.Code, r.All())
				data, _ := os.ReadFile(ran)
				var got [][]string
				cur := []string{}
				for _, f := range strings.Split(string(data), "\x00") {
					if f == "END" {
						got = append(got, cur)
						cur = []string{}
					} else {
						cur = append(cur, f)
					}
				}
				sess := ""
				for _, s := range b.Sessions() {
					if !contains(before, s) {
						sess = filepath.Join(b.Data, "sessions", s)
					}
				}
				for i := range got {
					for j, f := range got[i] {
						if f != "" && f == sess {
							got[i][j] = "SESSION"
						}
					}
				}
				c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "%q executed\n %q\nexpected\n %q", words, got, want)
			}
			list := strings.Split(b.Run("api.cmd.list.all").Out, "\n")
			for _, m := range mods {
				// a directory with nothing to run is a branch, not a command
				c.Check(contains(list, m.path) == (m.typ != "dir-with-no-executable"), "%s listed among the commands: %v", m.path, contains(list, m.path))
			}
			for _, l := range list {
				last := l[strings.LastIndex(l, ".")+1:]
				if strings.HasPrefix(l, "v") && byPath[l] == nil && !strings.HasPrefix(l, "v.") && !strings.HasPrefix(l, "ver") {
					c.Violate("%q is listed as a command, the modules are %q", l, sortedKeys(byPath))
				}
				c.Check(len(last) < 2 || last[0] != 'h' || last[1] < '1' || last[1] > '9', "%q of a hidden file (%q) is listed", l, hidden)
			}
			m := tk.Pick(c, "told", mods...)
			api := func(what string) string {
				r := b.Run("api.cmd."+what, "cmd="+m.path)
				c.Check(r.Code == 0, "api.cmd.%s %s exits with %d", what, m.path, r.Code)
				return strings.TrimSuffix(r.Out, "\n")
			}
			exe, dir := "", filepath.Dir(m.meta)
			if m.runs {
				exe = m.exe
			}
			if m.typ == "dir-with-no-executable" {
				dir = m.exe
			}
			got := []string{api("type"), api("path"), api("meta"), api("dir")}
			want := []string{m.typ, exe, m.meta, dir}
			c.Check(tk.Eq(got, want), "type, path, meta and dir of %s are told as %q, expected %q", m.path, got, want)
		})
}
