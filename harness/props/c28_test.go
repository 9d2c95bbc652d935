package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

const c28Syscalls = "openat,write,pwrite64,rename,renameat,renameat2,unlinkat,mkdirat,ftruncate,fsync,fdatasync,linkat,symlinkat,fchmod,fchmodat"

// sysPoint is the n-th call of a system call by a thread, which changes a file.
type sysPoint struct {
	name string
	n    int
	what string
	path string // of the file changed, when the next run will use the same
	npth int    // the n-th one with this path
}

var (
	quotedPath = regexp.MustCompile(`"(/[^"]+)"`)
	fdPath     = regexp.MustCompile(`^\d+<(/[^>]+)>`)
)

var straceLine = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)$`)

// sysPoints lists where a traced run changed files below one of the roots.
func sysPoints(log string, roots ...string) (r []sysPoint) {
	count := map[string]int{}
	for _, l := range strings.Split(log, "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := m[1] + " " + m[2]
		count[k]++
		p := sysPoint{name: m[2], n: count[k], what: m[3]}
		if m := fdPath.FindStringSubmatch(p.what); m != nil {
			p.path = m[1]
		} else if m := quotedPath.FindStringSubmatch(p.what); m != nil {
			p.path = m[1]
		}
		count[p.name+p.path]++
		p.npth = count[p.name+p.path]
		if strings.Contains(p.path, "/sessions") {
			p.path = ""
		}
		below := false
		for _, root := range roots {
			below = below || strings.Contains(m[3], root)
		}
		if !below || m[2] == "openat" && !strings.Contains(m[3], "O_CREAT") && !strings.Contains(m[3], "O_TRUNC") && !strings.Contains(m[3], "O_WRONLY") && !strings.Contains(m[3], "O_RDWR") {
			continue
		}
		r = append(r, p)
	}
	return r
}

func TestC28(t *testing.T) {
	if _, err := exec.LookPath("strace"); err != nil {
		tk.Infra("strace is missing")
	}
	tk.Prop(t, "fault", 96, 14,
		"a data directory with 1-5 saved keys, 1-3 local directories in the hub, 1-3 saved flows and up to 2 snapshots (some values of several KB); an update of 1-2 of these stores (saving, removing, resetting the environment; adding, disabling, purging, clearing the hub; saving, overwriting, renaming, removing, clearing, moving flows and setting their help; saving or removing a snapshot), once undisturbed, then 4-8 times from the same start with one fault at a chosen system call that changes a file: refused (ENOSPC, EIO, EDQUOT, only this call or this and all later ones), SIGKILL before it, or a file size limit that ends the process inside a write; afterwards each key-value store, the hub and each flow must be the old or the new one, all the new one if the command reported success, with no error in the next runs, and further updates must work; non-trivial when a fault hit a call that changes a store",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vlog", tk.Script{EnvPref: "k."}, "[args]\na = 0\n")
			b.Quiet()
			var dirs []string
			for i := 0; i < 4; i++ {
				d := fmt.Sprintf("%s/hd%d", b.Dir, i)
				b.ModIn(d, fmt.Sprintf("vh%d", i), tk.Script{Name: fmt.Sprintf("vh%d", i)}, "help = h\n")
				dirs = append(dirs, d)
			}
			val := func() string {
				if c.Chance("bigval", 15) {
					return strings.Repeat(tk.Pick(c, "unit", "x", "long value "), c.Int("times", 300, 900)) + "z"
				}
				return strings.ReplaceAll(Plain(GenVal(c, "val")), "[[", "[") + "v"
			}
			setup := func(args ...string) {
				c.Desc("setup %q", clipVal(strings.Join(args, " ")))
				r := b.Run(args...)
				c.Check(r.Code == 0, "%q exits with %d", args, r.Code)
			}
			keys := []string{"k.a", "k.b", "k.c", "k.ab", "k"}
			set := func() (w []string) {
				w = []string{"{"}
				for _, k := range tk.Subset(c, "setkeys", keys[:4]) {
					w = append(w, k+"="+escColon(val()))
				}
				if len(w) == 1 {
					w = append(w, "k.c="+escColon(val()))
				}
				return append(w, "}")
			}
			setup(append(set(), "env.save")...)
			nh := c.Int("hubs", 1, 3)
			for i := 0; i < nh; i++ {
				setup("hub.add.local-dir", "path="+dirs[i])
				if c.Chance("off", 25) {
					setup("hub.disable", dirs[i])
				}
			}
			flows := []string{"vf", "vf.b", "vg"}
			nf := c.Int("flows", 1, 3)
			save := func(p string) []string {
				w := []string{"flow.save", "cmd=" + p, "quiet-overwrite=true"}
				if c.Bool("help") {
					w = append(w, "help-str="+escColon(strings.Trim(val(), "'\" ")))
				}
				for i := c.Int("items", 1, 3); i > 0; i-- {
					w = append(w, ":", "vlog", "a="+regexp.MustCompile(`[^A-Za-z0-9 ]`).ReplaceAllString(val(), ""))
				}
				return w
			}
			for i := 0; i < nf; i++ {
				setup(save(flows[i])...)
			}
			snaps := []string{"s", "s2"}
			for i := c.Int("snaps", 0, 2); i > 0; i-- {
				setup(append(set(), "env.snapshot.save", "name="+snaps[i-1])...)
			}

			clean := func(r tk.Res, what string) {
				c.Check(r.Code == 0 && !strings.Contains(r.Out, "⛔") && tk.RuntimeCrash(r) == "", "%s exits with %d and reports an error:\n%s", what, r.Code, clipVal(r.Out))
			}
			observe := func() map[string]string {
				m := map[string]string{}
				r := b.Run("hub")
				clean(r, "listing the hub")
				m["hub"] = strings.Join(hubListing(r.Out), "\n")
				if !strings.Contains(m["hub"], b.Mods) {
					b.Run("hub.add.local-dir", "path="+b.Mods)
				}
				r = b.Run("vlog")
				clean(r, "the next run")
				c.Check(len(r.Calls) == 1, "vlog did not run")
				m["env"] = r.Calls[0].String()
				r = b.Run("flow.list")
				clean(r, "listing the flows")
				help := flowListing(r.Out)
				var ps, mark []string
				for _, p := range sortedKeys(help) {
					ps = append(ps, p)
					mark = append(mark, p, ":", "vlog", "a=mark", ":")
				}
				if len(ps) > 0 {
					r = b.Run(mark[:len(mark)-1]...)
					clean(r, fmt.Sprintf("calling the flows %q", ps))
					i := 0
					m["flow "+ps[0]] = help[ps[0]]
					for _, call := range r.Calls {
						if call.Args[0] == "mark" {
							if i++; i < len(ps) {
								m["flow "+ps[i]] = help[ps[i]]
							}
							continue
						}
						m["flow "+ps[i]] += fmt.Sprintf("\n%q", call.Args)
					}
				}
				for _, d := range dirs {
					fs, _ := filepath.Glob(d + "/*.tiflow")
					for _, f := range fs {
						p := strings.TrimSuffix(filepath.Base(f), ".tiflow")
						text, _ := os.ReadFile(f)
						m["flow "+p+" in "+filepath.Base(d)] = string(text)
					}
				}
				r = b.Run("env.snapshot.list")
				clean(r, "listing the snapshots")
				var load, found []string
				for _, s := range snaps {
					if strings.Contains("\n"+r.Out, "\n"+s+"\n") {
						found = append(found, s)
						load = append(load, "env.reset-session", ":", "env.snapshot.load", s, ":", "vlog", ":")
					}
				}
				if len(found) > 0 {
					r := b.Run(load[:len(load)-1]...)
					clean(r, "loading the snapshots")
					for i, call := range r.Calls {
						m["snap "+found[i]] = call.String()
					}
				}
				return m
			}
			roots := append([]string{b.Data}, dirs...)
			copyTree := func(from, to string) {
				os.RemoveAll(to)
				err := filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
					if err != nil {
						return err
					}
					q := to + strings.TrimPrefix(p, from)
					if i.IsDir() {
						return os.MkdirAll(q, i.Mode())
					}
					data, err := os.ReadFile(p)
					if err == nil {
						err = os.WriteFile(q, data, i.Mode())
					}
					return err
				})
				if err != nil {
					tk.Infra("copying the data directory: %v", err)
				}
			}
			bak := func(root string) string { return b.Dir + "/bak." + filepath.Base(root) }
			for _, r := range roots {
				copyTree(r, bak(r))
			}
			restore := func() {
				for _, r := range roots {
					copyTree(bak(r), r)
				}
			}
			old := observe()
			restore()

			var words []string
			update := func() []string {
				p := tk.Pick(c, "flow", flows[:nf]...)
				d := tk.Pick(c, "dir", dirs...)
				switch tk.Pick(c, "op", "env.save", "env.save", "env.rm", "env.reset-save", "env.clear", "hub.add", "hub.add", "hub.disable", "hub.enable", "hub.purge", "hub.clear", "flow.save", "flow.save", "flow.save-new", "flow.rename", "flow.rename", "flow.rm", "flow.help", "flow.help", "flow.clear", "flow.mv", "flow.to-dir", "snap.save", "snap.save", "snap.rm") {
				case "env.save":
					return append(set(), "env.save")
				case "env.rm":
					return []string{"env.rm", tk.Pick(c, "key", keys...), ":", "env.save"}
				case "env.reset-save":
					return []string{"env.set", "k.b", "3", ":", "env.reset-session", ":", "env.set", "k.b", "4", ":", "env.save"}
				case "env.clear":
					return []string{"env.clear-and-save"}
				case "hub.add":
					return []string{"hub.add.local-dir", "path=" + dirs[nh%len(dirs)]}
				case "hub.disable":
					return []string{"hub.disable", d}
				case "hub.enable":
					return []string{"hub.enable", "hd"}
				case "hub.purge":
					return []string{"hub.purge.all"}
				case "hub.clear":
					return []string{"hub.clear"}
				case "flow.save-new":
					return save("vnew")
				case "flow.rename":
					return []string{"flow.rename", p, tk.Pick(c, "to", "vnew", flows[c.Int("onto", 0, nf-1)])}
				case "flow.rm":
					return []string{"flow.rm", p}
				case "flow.help":
					return []string{"flow.help", "path=" + p, "help-str=" + escColon(strings.Trim(val(), "'\" "))}
				case "flow.clear":
					return []string{"flow.clear"}
				case "flow.mv":
					return []string{"flow.mv.all", "path=" + d}
				case "flow.to-dir":
					w := save("vnew")
					return append([]string{w[0], "to-dir=" + dirs[3]}, w[1:]...)
				case "snap.save":
					return append(set(), "env.snapshot.save", "name="+tk.Pick(c, "snap", snaps...))
				case "snap.rm":
					return []string{"env.snapshot.rm", "name=" + tk.Pick(c, "snap", snaps...)}
				}
				return save(p)
			}
			words = update()
			if c.Chance("second", 20) && !strings.HasPrefix(words[0], "flow.save") {
				if w := update(); w[0] != "{" && !strings.HasPrefix(w[0], "flow.save") && w[0][:3] != (words[0] + "env")[:3] && !(words[0] == "{" && w[0][:3] == "env") {
					words = append(append(words, ":"), w...)
				}
			}
			if c.Chance("with-module", 15) && !strings.HasPrefix(words[0], "flow.save") && words[0] != "{" {
				words = append([]string{"vlog", ":"}, words...)
				c.Label("session")
			}
			c.Desc("update %q", clipVal(strings.Join(words, " ")))
			log := b.Dir + "/strace.log"
			trace := func(extra ...string) []string {
				os.Remove(log)
				return append([]string{"strace", "-f", "-qq", "-y", "-s", "8", "-o", log, "-e", "trace=" + c28Syscalls, "-e", "signal=none"}, extra...)
			}
			single := []string{"GOMAXPROCS=1"}
			r := b.RunOpt(tk.Opt{Prefix: trace("--seccomp-bpf"), Env: single, Stdin: "y\n"}, words...)
			data, _ := os.ReadFile(log)
			if len(data) == 0 {
				tk.Infra("strace gave no log: %s", r.Err)
			}
			if r.Code != 0 {
				c.Label("refused-anyway")
				c.NonTrivial(false)
				return
			}
			points := sysPoints(string(data), roots...)
			new := observe()
			var changed []string
			for k := range new {
				if old[k] != new[k] {
					changed = append(changed, k)
				}
			}
			for k := range old {
				if _, ok := new[k]; !ok {
					changed = append(changed, k)
				}
			}
			sort.Strings(changed)
			if len(points) == 0 {
				c.Check(len(changed) == 0, "%q changed %q without a system call", words, changed)
				c.NonTrivial(false)
				return
			}
			var stores []sysPoint // not the record of the session
			for _, p := range points {
				if !strings.Contains(p.what, "/sessions") {
					stores = append(stores, p)
				}
			}
			nontriv := false
			for i := tk.Pick(c, "faults", 4, 5, 6, 8); i > 0; i-- {
				restore()
				p := tk.Pick(c, "point", points...)
				if len(stores) > 0 && c.Chance("store", 85) {
					p = tk.Pick(c, "storepoint", stores...)
				}
				opt := tk.Opt{KillOK: true, Env: single, Stdin: "y\n"}
				fault, seccomp := "", "-qq"
				switch tk.Pick(c, "fault", "error", "error", "full", "kill", "kill", "fsize") {
				case "error":
					fault = fmt.Sprintf("%s:error=%s:when=%d", p.name, tk.Pick(c, "errno", "ENOSPC", "EIO", "EDQUOT"), p.n)
				case "full":
					fault = fmt.Sprintf("%s:error=ENOSPC:when=%d+", p.name, p.n)
				case "kill":
					fault = fmt.Sprintf("%s:signal=SIGKILL:when=%d", p.name, p.n)
				case "fsize":
					opt.Prefix = []string{"prlimit", "--core=0", fmt.Sprintf("--fsize=%d", c.Int("size", 0, tk.Pick(c, "sizes", 40, 400, 4000)))}
				}
				if fault != "" && !strings.Contains(fault, "SIGKILL") {
					seccomp = "--seccomp-bpf" // faster, but does not deliver signals
				}
				if fault != "" {
					if p.path != "" && c.Chance("bypath", 80) {
						fault = strings.Replace(fault, fmt.Sprintf("when=%d", p.n), fmt.Sprintf("when=%d", p.npth), 1)
						opt.Prefix = trace(seccomp, "-P", p.path, "-e", "inject="+fault)
					} else {
						opt.Prefix = trace(seccomp, "-e", "inject="+fault)
					}
				}
				c.Desc("fault %s at %s", strings.Join(append(opt.Prefix, fault)[len(opt.Prefix):], " "), p.what)
				r := b.RunOpt(opt, words...)
				c.Desc("ends with %d", r.Code)
				if data, _ := os.ReadFile(log); fault != "" {
					hit := strings.Contains(string(data), "INJECTED") || r.Signal != 0
					nontriv = nontriv || hit && len(changed) > 0
					if hit {
						c.Label("hit " + p.name)
					} else {
						c.Label("missed " + p.name)
					}
				} else if r.Code != 0 {
					nontriv = nontriv || len(changed) > 0
				}
				got := observe()
				all := map[string]bool{}
				for _, m := range []map[string]string{old, new, got} {
					for k := range m {
						all[k] = true
					}
				}
				stores := map[string]string{}
				for _, k := range sortedKeys(all) {
					switch got[k] {
					case new[k]:
						stores[k] = "new"
					case old[k]:
						stores[k] = "old"
					default:
						c.Violate("after %q with the fault %s (exit %d), %s is\n %s\nit was\n %s\nand should become\n %s", words, fault, r.Code, k, clipVal(got[k]), clipVal(old[k]), clipVal(new[k]))
					}
				}
				if r.Code == 0 {
					for k, v := range stores {
						c.Check(v == "new", "%q with the fault %s reports success, but %s is the old one", words, fault, k)
					}
				}
				// A renamed or moved flow must be in exactly one place.
				for _, k := range changed {
					if len(words) != 3 && words[0] != "flow.mv.all" || len(words) > 3 {
						break
					}
					switch words[0] {
					case "flow.rename":
						c.Check(stores[k] == stores[changed[0]], "after %q with the fault %s, %s is the %s one but %s the %s one", words, fault, k, stores[k], changed[0], stores[changed[0]])
					case "flow.mv.all":
						if to := k + " in " + filepath.Base(strings.TrimPrefix(words[1], "path=")); stores[to] != "" {
							c.Check(stores[k] == stores[to], "after %q with the fault %s, %s is the %s one but %s the %s one", words, fault, k, stores[k], to, stores[to])
						}
					}
				}
			}
			// Whatever the last fault left behind, further updates work.
			setup("{k.after=1}", "env.save")
			setup("flow.save", "cmd=vafter", ":", "vlog", "a=after")
			setup("hub.add.local-dir", "path="+dirs[3])
			setup("env.snapshot.save", "name=safter")
			end := observe()
			c.Check(strings.Contains(end["env"], `k.after="1"`) && strings.Contains(end["hub"], dirs[3]) && strings.Contains(end["flow vafter"], `["after"]`), "after a fault, further updates are lost: %q", clipVal(fmt.Sprint(end)))
			c.NonTrivial(nontriv)
		})
}
