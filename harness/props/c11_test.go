package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// depCmd is a command with declared OS dependencies.
type depCmd struct {
	path   string
	deps   []string
	seq    []*depCmd
	script bool
}

func (d *depCmd) collect(m map[string]map[string]bool) {
	for _, o := range d.deps {
		if m[o] == nil {
			m[o] = map[string]bool{}
		}
		m[o][d.path] = true
	}
	for _, x := range d.seq {
		x.collect(m)
	}
}

func (d *depCmd) runs() []string {
	r := []string{}
	for _, x := range d.seq {
		r = append(r, x.runs()...)
	}
	if d.script {
		r = append(r, d.path)
	}
	return r
}

// parseDeps reads a dependency listing: OS command to its users.
func parseDeps(out string) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "[") || !strings.HasSuffix(t, "]") {
			continue
		}
		t = t[1 : len(t)-1]
		if strings.HasPrefix(l, "[") {
			cur = t
			m[cur] = map[string]bool{}
		} else if cur != "" {
			m[cur][t] = true
		}
	}
	return m
}

func depStr(m map[string]map[string]bool) string {
	var r []string
	for o, us := range m {
		r = append(r, o+" used by "+strings.Join(sortedKeys(us), ","))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func TestC11(t *testing.T) {
	tk.Prop(t, "deps", 2200, 8,
		"2-4 modules and up to 3 nested flows (some with a script) declaring dependencies on 6 OS commands, of which a random part is installed in a private PATH (others are absent, not executable, or directories); a sequence runs and its dependencies are listed; refused (nothing executed, every missing one named with every user) exactly when the union of the declared sets holds a missing one; non-trivial when a dependency comes from a command inside a flow",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			names := []string{"vos-a", "vos-b", "vosc.x", "vosd_1", "vose", "vosf"}
			installed := map[string]bool{}
			bin := filepath.Join(b.Dir, "bin")
			os.MkdirAll(bin, 0755)
			rate := tk.Pick(c, "rate", 100, 100, 85, 60)
			for _, n := range names {
				if c.Chance("installed", rate) {
					installed[n] = true
					b.File("bin/"+n, "#!/bin/sh\n")
				} else {
					switch c.Int("absent", 0, 3) {
					case 0:
						b.File("bin/"+n, "#!/bin/sh\n")
						os.Chmod(filepath.Join(bin, n), 0644)
					case 1:
						os.MkdirAll(filepath.Join(bin, n), 0755)
					}
				}
			}
			b.Env = append(b.Env, "PATH="+bin+":"+os.Getenv("PATH"))
			var cmds []*depCmd
			section := func(d *depCmd) string {
				d.deps = tk.Subset(c, "deps", names[:c.Int("nnames", 0, 6)])
				if len(d.deps) > 3 {
					d.deps = d.deps[:3]
				}
				s := ""
				for _, o := range d.deps {
					s += o + " = " + tk.Pick(c, "reason", "to do x", "a [b] c", "") + "\n"
				}
				if s != "" {
					s = "[" + tk.Pick(c, "section", "deps", "dep") + "]\n" + s
				}
				return s
			}
			for i := c.Int("mods", 2, 4); i > 0; i-- {
				d := &depCmd{path: fmt.Sprintf("vm%d", i), script: true}
				if c.Chance("deep", 20) {
					d.path = "vd." + d.path
				}
				b.Mod(d.path, tk.Script{}, "help = h\n"+section(d))
				cmds = append(cmds, d)
			}
			nmods := len(cmds)
			for i := c.Int("flows", 0, 3); i > 0; i-- {
				d := &depCmd{path: fmt.Sprintf("vf%d", i)}
				var ps []string
				for j := c.Int("flow-len", 1, 3); j > 0; j-- {
					x := tk.Pick(c, "in-flow", cmds...)
					d.seq = append(d.seq, x)
					ps = append(ps, trivial(c)+x.path)
				}
				meta := "help = h\nflow = " + strings.Join(ps, " : ") + "\n" + section(d)
				if c.Chance("with-script", 30) {
					d.script = true
					b.Mod(d.path, tk.Script{}, meta)
				} else {
					b.Flow(d.path, meta)
				}
				cmds = append(cmds, d)
			}
			for _, d := range cmds {
				in := []string{}
				for _, x := range d.seq {
					in = append(in, x.path)
				}
				c.Desc("%s needs %v calls %v script %v", d.path, d.deps, in, d.script)
			}
			need := map[string]map[string]bool{}
			var words, runs []string
			inner := false
			for i := c.Int("seq", 1, 4); i > 0; i-- {
				x := cmds[nmods-1:]
				if c.Bool("any") {
					x = cmds
				}
				d := tk.Pick(c, "cmd", x...)
				d.collect(need)
				for _, y := range d.seq {
					inner = inner || len(y.deps) > 0
				}
				runs = append(runs, d.runs()...)
				if len(words) > 0 {
					words = append(words, ":")
				}
				words = append(words, d.path)
			}
			missing := map[string]map[string]bool{}
			for o, us := range need {
				if !installed[o] {
					missing[o] = us
				}
			}
			c.Desc("installed %v line %q missing %s", sortedKeys(installed), words, depStr(missing))
			c.NonTrivial(inner)
			r := b.Run(words...)
			got := tk.Names(r.Calls)
			listed := parseDeps(r.All())
			if len(missing) > 0 {
				c.Label("missing")
				c.Check(r.Code != 0 && len(got) == 0, "%q exits with %d after executing %q, although missing: %s", words, r.Code, got, depStr(missing))
				c.Check(depStr(listed) == depStr(missing), "%q reports %q, but missing are %q", words, depStr(listed), depStr(missing))
			} else {
				c.Label("installed")
				c.Check(r.Code == 0 && tk.Eq(got, runs), "%q exits with %d after executing %q, expected %q: %s", words, r.Code, got, runs, r.All())
			}
			list := append(append([]string{}, words...), ":", tk.Pick(c, "desc", "desc.dep", "desc.dependencies", "desc.os"))
			r = b.Run(list...)
			c.Check(len(r.Calls) == 0, "%q executed %q", list, tk.Names(r.Calls))
			want := need
			if len(missing) > 0 {
				want = missing
			}
			c.Check(depStr(parseDeps(r.Out)) == depStr(want), "%q lists %q, expected %q", list, depStr(parseDeps(r.Out)), depStr(want))
		})
}
