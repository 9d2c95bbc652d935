package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

func TestC32(t *testing.T) {
	tk.Prop(t, "runs", 160, 8,
		"2-6 random programs (as in C30, sharing their modules, each starting with another value of an own environment key, modules taking random times of 0-60 ms) started together in one data directory, some with a short time to keep old sessions and finished sessions lying around; each must do the modelled calls with the modelled arguments, environment and exit status, and have one session with its own commands and result in the listing, unless it was to be cleaned; non-trivial with two or more programs",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			saved := map[string]string{}
			for _, k := range tk.Subset(c, "saved", []string{"k.b", "k.c"}) {
				saved[k] = "s" + k[2:]
			}
			lines := []string{"display.executor=false"}
			for _, k := range sortedKeys(saved) {
				lines = append(lines, k+"="+saved[k])
			}
			short := c.Chance("short-keep", 25)
			if short {
				lines = append(lines, "sys.sessions.keep-status-duration="+tk.Pick(c, "keep", "1ms", "1s", "0s"))
			}
			b.Saved(lines...)
			b.Mod("vfirst", tk.Script{EnvPref: "k."}, "")
			if c.Chance("old", 40) {
				for i, n := 0, c.Int("olds", 1, 3); i < n; i++ {
					b.RunOpt(tk.Opt{NoRecord: true}, "vfirst", ":", "vfirst")
				}
			}
			old := len(b.Sessions())
			p := NewProgs(c, b, 12, 8)
			type run struct {
				words []string
				calls []pCall
				ok    bool
				log   string
				mark  string
				proc  *tk.Proc
				res   tk.Res
				got   []tk.Call
			}
			var runs []*run
			for i, n := 0, c.Int("procs", 2, 6); i < n; i++ {
				seq := p.Seq(0, 1, 5)
				p.budget += 3
				p.env, p.writes, p.Calls, p.cost = map[string]string{}, nil, nil, 0
				for k, v := range saved {
					p.env[k] = v
				}
				x := &run{mark: fmt.Sprintf("{k.a=p%d}", i), log: filepath.Join(b.Dir, fmt.Sprint("log", i))}
				p.env["k.a"] = fmt.Sprint("p", i)
				p.call("vfirst", nil, p.snap())
				x.ok = p.Run(seq)
				if p.cost > 120 {
					continue
				}
				x.calls = p.Calls
				x.words = append([]string{x.mark, "vfirst", ":"}, pWords(seq)...)
				c.Desc("ticat %q", x.words)
				runs = append(runs, x)
			}
			var delays []string
			for range runs {
				delays = append(delays, fmt.Sprintf("0.%03d", c.Int("delay-ms", 0, 60)))
			}
			gap := c.Int("gap-ms", 0, 8)
			for i, x := range runs {
				x.proc = b.Start(tk.Opt{Timeout: 90 * time.Second, Env: []string{"VLOG=" + x.log, "VDELAY=" + delays[i]}}, x.words...)
				time.Sleep(time.Duration(gap) * time.Millisecond)
			}
			for _, x := range runs {
				x.res = x.proc.Wait()
				x.got = b.LogOf(x.log)
			}
			if len(runs) > 1 {
				c.NonTrivial(true)
			}
			for i, x := range runs {
				p.Calls = x.calls
				d := p.Diff(x.got)
				c.Check(d == "", "process %d %q: %s", i, x.words, d)
				c.Check((x.res.Code == 0) == x.ok, "process %d %q exits with %d, expected success to be %v", i, x.words, x.res.Code, x.ok)
				c.Check(tk.RuntimeCrash(x.res) == "" && !strings.Contains(x.res.All(), "should never happen"), "process %d crashed: %s", i, tk.RuntimeCrash(x.res))
			}
			sess := b.Sessions()
			if !short {
				c.Check(len(sess) == old+len(runs), "%d sessions after %d concurrent runs with %d before", len(sess), len(runs), old)
			}
			list := parseSessions(b.Run("sessions", "max-count=0").Out)
			for i, x := range runs {
				n := 0
				for _, s := range list {
					if !strings.HasSuffix(s.id, fmt.Sprint(".", x.res.Pid)) {
						continue
					}
					n++
					c.Check(strings.Contains(s.cmd, x.mark+"vfirst"), "the session of process %d %q is recorded as %q", i, x.words, s.cmd)
					c.Check((s.status == "done") == x.ok, "the session of process %d %q (success %v) is recorded as %s", i, x.words, x.ok, s.status)
				}
				c.Check(n == 1 || short && n == 0, "%d sessions are listed for process %d %q", n, i, x.words)
			}
			for k := range p.Stat {
				c.Label(k)
			}
		})
	tk.Prop(t, "stores", 240, 8,
		"2-8 processes started together that save to the same data directory: the environment with 1-300 values each of its own, the same or different flows, snapshots, and add, enable, disable directories of the hub, while others read; each must succeed, each store must be as if one of the writers to it had come last, readers must see one of the complete versions, and nothing else may be left in the data directory; non-trivial when two processes write to the same store",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			nvals := tk.Pick(c, "values", 1, 20, 100, 300)
			lines := []string{"display.executor=false", "k.x=start"}
			for i := 0; i < nvals; i++ {
				lines = append(lines, fmt.Sprintf("k.y%d=start", i))
			}
			sort.Strings(lines)
			b.Saved(lines...)
			for i := 0; i < 3; i++ {
				b.File(fmt.Sprintf("hub%d/vhub%d.tiflow", i, i), "flow = noop\n")
			}
			b.File("hub9/vhub9.tiflow", "flow = noop\n")
			c.Check(b.Run("hub.add.local-dir", b.Dir+"/hub9").Code == 0, "hub.add.local-dir failed")
			c.Check(b.Run("echo", "message=start", ":", "noop", ":", "flow.save", "new-cmd-path=vsaved.f0").Code == 0, "flow.save failed")
			writes := map[string]int{}
			wrote := map[string][]string{}
			content := func(tag string) string { return tag + strings.Repeat("-"+tag, nvals*10) }
			contents := func(store string) (r []string) {
				for _, tag := range wrote[store] {
					r = append(r, content(tag))
				}
				return
			}
			type op struct {
				kind  string
				words []string
				pad   map[string]string
				proc  *tk.Proc
				check func(tk.Res)
			}
			var ops []*op
			for i, n := 0, c.Int("procs", 2, 8); i < n; i++ {
				o := &op{kind: tk.Pick(c, "op", "env", "env", "env", "flow", "snap", "hub", "hub-off", "read", "read-flow")}
				tag := fmt.Sprint("t", i)
				env := func() []string {
					ws := []string{"{k.x=" + tag}
					for j := 0; j < nvals; j++ {
						ws = append(ws, fmt.Sprintf("k.y%d=%s", j, tag))
					}
					ws[len(ws)-1] += "}"
					return ws
				}
				store := o.kind
				switch o.kind {
				case "env":
					o.words = append(env(), "env.save")
				case "snap":
					store = "snap." + tk.Pick(c, "snapname", "s0", "s0", "s1")
					o.words = append(env(), "env.snapshot.save", "snapshot-name="+store[5:])
					if wrote[store] != nil || c.Chance("overwrite", 50) {
						o.words = append(o.words, "overwrite=true")
					}
				case "flow":
					store = "flow." + tk.Pick(c, "flowname", "f0", "f0", "f1")
					o.words = []string{"echo", "message=" + content(tag), ":", "noop", ":", "flow.save", "new-cmd-path=vsaved." + store[5:], "quiet-overwrite=true"}
				case "hub":
					store = "hub"
					o.words = []string{"hub.add.local-dir", fmt.Sprintf("%s/hub%d", b.Dir, c.Int("dir", 0, 2))}
				case "hub-off":
					store = "hub"
					o.words = []string{tk.Pick(c, "onoff", "hub.disable", "hub.disable", "hub.enable"), b.Dir + "/hub9"}
				case "read":
					o.words = append([]string{}, "api.env.value", "key=k.x")
					o.check = func(r tk.Res) {
						v := strings.TrimSpace(r.Out)
						c.Check(v == "start" || contains(wrote["env"], v), "a process that read the environment meanwhile got k.x=%q", v)
					}
				case "read-flow":
					o.words = []string{"vsaved.f0"}
					o.check = func(r tk.Res) {
						out := strings.TrimSpace(r.Out)
						c.Check(contains(append(contents("flow.f0"), "start"), out), "a process running the flow f0 meanwhile printed %q", out[:min(len(out), 300)])
					}
				}
				if o.check == nil {
					writes[store]++
					wrote[store] = append(wrote[store], tag)
					if store == "hub" {
						wrote[store][len(wrote[store])-1] = strings.Join(o.words, " ")
					}
				}
				d := strings.Join(o.words, " ")
				c.Desc("%s", d[:min(len(d), 150)])
				ops = append(ops, o)
			}
			for _, n := range writes {
				if n > 1 {
					c.NonTrivial(true)
				}
			}
			gap := c.Int("gap-ms", 0, 3)
			for _, o := range ops {
				o.proc = b.Start(tk.Opt{}, o.words...)
				time.Sleep(time.Duration(gap) * time.Millisecond)
			}
			for i, o := range ops {
				r := o.proc.Wait()
				d := strings.Join(o.words, " ")
				d = d[:min(len(d), 150)]
				exists := o.kind == "snap" && o.words[len(o.words)-1] != "overwrite=true" && strings.Contains(r.All(), "exist")
				c.Check(r.Code == 0 || exists, "process %d (%s) exits with %d", i, d, r.Code)
				if o.check != nil && r.Code == 0 {
					o.check(r)
				}
			}
			last := func(what, store, text string, get func(key string) string) {
				v := get("k.x")
				if len(wrote[store]) == 0 {
					c.Check(v == "start", "%s k.x=%q though nobody saved", what, v)
				} else {
					c.Check(contains(wrote[store], v), "%s k.x=%q, which none of the processes saved last", what, v)
				}
				for j := 0; j < nvals; j++ {
					k := fmt.Sprint("k.y", j)
					c.Check(get(k) == v, "%s k.x=%q but %s=%q: a mixture of two saved environments", what, v, k, get(k))
				}
			}
			getter := func(file string) func(string) string {
				m := map[string]string{}
				for _, l := range strings.Split(b.Read(file), "\n") {
					if i := strings.IndexByte(l, '='); i > 0 {
						m[l[:i]] = l[i+1:]
					}
				}
				return func(k string) string { return m[k] }
			}
			data := strings.TrimPrefix(b.Data, b.Dir+"/")
			last("the saved environment has", "env", "", getter(data+"/bootstrap.env"))
			c.Check(b.EnvVal("k.x") == getter(data+"/bootstrap.env")("k.x"), "a new run has another k.x (%q) than the one saved", b.EnvVal("k.x"))
			for _, s := range []string{"s0", "s1"} {
				if len(wrote["snap."+s]) > 0 {
					last("the snapshot "+s+" has", "snap."+s, "", getter(data+"/env/"+s+".env"))
				}
			}
			for _, f := range []string{"f0", "f1"} {
				if len(wrote["flow."+f]) > 0 {
					r := b.RunOpt(tk.Opt{NoRecord: true}, "vsaved."+f)
					okay := contains(contents("flow."+f), strings.TrimSpace(r.Out))
					out := r.Out[:min(len(r.Out), 300)]
					c.Check(okay, "the saved flow %s prints none of what was saved: %s", f, out)
				}
			}
			r := b.Run("hub")
			c.Check(r.Code == 0, "hub exits with %d", r.Code)
			hub := strings.Split(strings.TrimSuffix(b.Read(data+"/hub/repos.hub"), "\n"), "\n")
			seen := map[string]int{}
			for _, l := range hub {
				fs := strings.Split(l, "\t")
				c.Check(len(fs) == 5, "the hub file has the line %q", l)
				seen[filepath.Base(fs[2])]++
			}
			c.Check(seen["hub9"] == 1 && seen["mods"] == 1, "directories of the hub got lost: %q", hub)
			added := false
			adds := 0
			for i := 0; i < 3; i++ {
				n := seen[fmt.Sprint("hub", i)]
				want := false
				for _, w := range wrote["hub"] {
					if strings.HasPrefix(w, "hub.add") {
						adds++
						want = want || strings.HasSuffix(w, fmt.Sprint("hub", i))
					}
				}
				c.Check(n == 0 || n == 1 && want, "hub%d is %d times in the hub: %q", i, n, hub)
				added = added || n == 1
			}
			if writes["hub"] == 1 && adds > 0 {
				c.Check(added, "the directory added is not in the hub: %q", hub)
			}
			filepath.Walk(b.Data, func(p string, info os.FileInfo, err error) error {
				c.Check(err != nil || !strings.Contains(filepath.Base(p), "tmp") || strings.Contains(strings.TrimPrefix(p, b.Data), "/sessions/"), "%s is left in the data directory", strings.TrimPrefix(p, b.Data))
				return nil
			})
			for k, n := range writes {
				if n > 1 {
					c.Label(k)
				}
			}
		})
}
