package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

// bgOp is one command of a program with background commands.
type bgOp struct {
	kind  string // call, flow, env, wait, wait.last, wait.cmd
	name  string // module or flow
	id    string
	delay float64 // <0: foreground
	tol   bool
	fail  bool
	own   string // own setting of k.c
	key   string // env: value of k.s
	await string // the id whose end the script waits for
	apply bool
	sub   []string // ids of the scripts of a flow
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

type bgMark struct {
	what, id string
	t        float64
	note     string
}

func bgTrace(path string) []bgMark {
	data, _ := os.ReadFile(path)
	var r []bgMark
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		m := bgMark{what: f[0], id: f[1], note: strings.Join(f[3:], " ")}
		m.t, _ = strconv.ParseFloat(f[2], 64)
		r = append(r, m)
	}
	return r
}

const bgBody = `id="$1"
ses=""
while IFS= read -r l; do case "$l" in k.s=*) ses="$ses ${l#k.}";; k.c=*) ses="$ses ${l#k.}";; k.id=*) ses="$ses ${l#k.}";; k.made*) ses="$ses ${l#k.}";; esac; done < "$sess/env"
echo "S $id $EPOCHREALTIME $0 $#:$2$ses" >> "$VCTL/trace"
echo "out-$id"
echo "err-$id" >&2
if [ -e "$VCTL/await.$id" ]; then
  w=$(cat "$VCTL/await.$id"); n=0
  while [ ! -e "$VCTL/ended.$w" ]; do sleep 0.02; n=$((n+1)); if [ $n -gt 500 ]; then echo "T $id $EPOCHREALTIME" >> "$VCTL/trace"; break; fi; done
fi
[ -e "$VCTL/sleep.$id" ] && sleep "$(cat "$VCTL/sleep.$id")"
printf 'k.made.%s=1\n' "$id" >> "$sess/env"
printf 'lastout-%s\n' "$id"
echo "E $id $EPOCHREALTIME" >> "$VCTL/trace"
: > "$VCTL/ended.$id"
[ -e "$VCTL/fail.$id" ] && exit 9
`

func bgCase(c *tk.C, race bool) {
	b := c.NewBox()
	b.Timeout = 60 * time.Second
	if race && !b.UseRace() {
		return
	}
	mods := []string{"va", "vb", "vx.y"}
	for i, m := range mods {
		meta := "abbrs = " + fmt.Sprintf("m%d", i) + "\n[args]\nid|i = \nsecond = dflt\n"
		if m == "vb" {
			meta += "[arg2env]\nk.id = id\n"
		}
		b.Mod(m, tk.Script{Body: bgBody}, meta)
	}
	nf := c.Int("flows", 1, 2)
	flowMods := map[string][]string{}
	for i := 0; i < nf; i++ {
		name := fmt.Sprintf("vf%d", i)
		n := c.Int("flow len", 1, 3)
		var parts []string
		for j := 0; j < n; j++ {
			m := tk.Pick(c, "flow mod", mods...)
			parts = append(parts, fmt.Sprintf("%s id=[[id]]-%d", m, j))
			flowMods[name] = append(flowMods[name], m)
		}
		b.Flow(name, "flow = "+strings.Join(parts, " : ")+"\n[args]\nid = \n")
	}
	touch := func(kind, id, val string) { b.File("ctl/"+kind+"."+id, val) }

	var prog []*bgOp
	failing := map[string]bool{}
	id := 0
	nid := func() string { id++; return fmt.Sprintf("o%d", id) }
	n := c.Int("ops", 2, 9)
	// several of one name, then waits for that name with something after each
	var focus []string
	fmod := ""
	if c.Chance("focus", 25) {
		fmod = tk.Pick(c, "focus mod", mods...)
		k := c.Int("same", 2, 3)
		for i := 0; i < k; i++ {
			focus = append(focus, "D")
		}
		if c.Bool("other") {
			focus = append(focus, "O")
		}
		for i := c.Int("waits", 1, k); i > 0; i-- {
			focus = append(focus, "W", "F")
		}
		n = max(n, len(focus))
	}
	bad := false // a failing foreground command ends the program
	stop := -1
	for i := 0; i < n && !bad; i++ {
		o := &bgOp{kind: tk.Pick(c, "kind", "call", "call", "call", "call", "flow", "flow", "env", "wait", "wait.last", "wait.cmd"), delay: -1}
		f := ""
		if i < len(focus) {
			f = focus[i]
			o.kind = tk_if(f == "W", "wait.cmd", "call")
		}
		prog = append(prog, o)
		switch o.kind {
		case "env":
			o.key = fmt.Sprintf("s%d", i)
			continue
		case "wait", "wait.last":
			continue
		case "wait.cmd":
			o.name = tk.Pick(c, "waited", append(mods, "vf0")...)
			if f != "" {
				o.name = fmod
			}
			continue
		case "flow":
			o.name = fmt.Sprintf("vf%d", c.Int("flow", 0, nf-1))
		default:
			o.name = tk.Pick(c, "mod", mods...)
		}
		if f == "D" {
			o.name = fmod
		}
		o.id = nid()
		if o.kind == "flow" {
			for j := range flowMods[o.name] {
				o.sub = append(o.sub, fmt.Sprintf("%s-%d", o.id, j))
			}
		} else {
			o.sub = []string{o.id}
		}
		if f == "D" || f == "O" || f == "" && c.Chance("delayed", 65) {
			o.delay = tk.Pick(c, "delay", 0.0, 0.0, 0.05, 0.1, 0.4)
			if c.Chance("tolerated", 20) {
				o.tol = true
			}
			o.apply = c.Chance("apply", 15) && o.name == "vb"
		}
		if c.Chance("own", 25) {
			o.own = "c" + o.id
		}
		if c.Chance("failing", map[bool]int{true: 12, false: 4}[o.delay >= 0]) {
			o.fail = true
		}
		if o.delay < 0 && o.fail {
			bad = true
		}
		for _, s := range o.sub {
			if c.Chance("sleeps", 40) && f != "F" {
				touch("sleep", s, tk.Pick(c, "sleep", "0.05", "0.1", "0.3"))
			}
		}
		if o.fail {
			x := o.sub[c.Int("fails", 0, len(o.sub)-1)]
			failing[x] = true
			touch("fail", x, "")
		}
	}
	// a delayed command which ends only after a later foreground one
	for i, o := range prog {
		if o.delay < 0 || o.fail || !c.Chance("awaits", 60) {
			continue
		}
		for _, p := range prog[i+1:] {
			if strings.HasPrefix(p.kind, "wait") {
				break
			}
			if p.delay < 0 && len(p.sub) > 0 {
				if p.fail {
					break
				}
				o.await = p.sub[len(p.sub)-1]
				touch("await", o.sub[0], o.await)
				break
			}
		}
	}

	var words []string
	mainEnv := map[string]string{}
	inFlow := c.Chance("in flow", 25)
	for i, o := range prog {
		if i > 0 {
			words = append(words, ":")
		}
		switch o.kind {
		case "env":
			words = append(words, "env.set", "key=k.s", "value="+o.key)
		case "wait":
			words = append(words, tk.Pick(c, "wait name", "bg.wait", "background.wait"))
		case "wait.last":
			words = append(words, tk.Pick(c, "last name", "bg.wait.last", "bg.wait.latest"))
		case "wait.cmd":
			words = append(words, tk.Pick(c, "cmd name", "bg.wait.cmd", "background.wait.command", "bg.wait.c"), "cmd="+o.name)
		default:
			if o.own != "" {
				if i == 0 {
					words = append(words, ":")
				}
				words = append(words, "{k.c="+o.own+"}")
			}
			words = append(words, o.name, "id="+o.id)
			if o.delay >= 0 {
				words = append(words, "%delay="+tk.Pick(c, "spelling", fmt.Sprintf("%gs", o.delay), fmt.Sprintf("%g", o.delay), fmt.Sprintf("%dms", int(o.delay*1000+0.5))))
			}
			if o.tol {
				words = append(words, "%err=ok")
			}
			if o.apply {
				words = append(words, "%env=apply")
			}
		}
	}
	c.Desc("%s", strings.Join(words, " "))
	b.UseMods()
	if inFlow {
		ws := append([]string{}, words...)
		b.Flow("vtop", "flow = "+strings.Join(ws, " ")+"\n")
		words = []string{"vtop"}
	}
	b.Quiet()
	r := b.RunOpt(tk.Opt{}, words...)
	if x := b.MapRaces(); len(x) > 0 {
		c.Violate("a map is used by a background command and another one at the same time:\n%s", x[0])
	}
	trace := bgTrace(filepath.Join(b.Ctl, "trace"))
	c.Note("trace: %v", trace)
	fail := func(f string, a ...interface{}) { c.Violate("%s", fmt.Sprintf(f, a...)) }

	at := func(what, id string) int {
		k := -1
		for i, m := range trace {
			if m.what == what && m.id == id {
				if k >= 0 {
					fail("%s: '%s' is there twice in the trace", id, what)
				}
				k = i
			}
		}
		return k
	}
	for _, m := range trace {
		if m.what == "T" {
			fail("%s was delayed, but the foreground command it waits for did not start while it ran", m.id)
		}
	}

	// what is expected
	prev := -1 // index in the trace of what the foreground has done
	var tasks []*bgOp
	pending := func(o *bgOp) { tasks = append(tasks, o) }
	lastScript := func(o *bgOp) (string, bool) {
		for _, s := range o.sub {
			if failing[s] {
				return s, false
			}
		}
		return o.sub[len(o.sub)-1], true
	}
	expEnv := map[string]bool{} // made keys seen
	code := 0
	delayed, waited := 0, 0
	endOf := func(o *bgOp) int {
		s, _ := lastScript(o)
		return at("E", s)
	}
	checkOp := func(o *bgOp, after int, notBefore float64) int {
		last := after
		env := map[string]string{"k.id": mainEnv["k.id"]}
		if o.delay < 0 {
			env = mainEnv
		}
		for j, s := range o.sub {
			si, ei := at("S", s), at("E", s)
			if si < 0 || ei < 0 {
				if o.delay >= 0 && endOf(o) < 0 {
					return last // a failure of the foreground may have ended the run
				}
				fail("%s was not run to its end (start %d, end %d)", s, si, ei)
			}
			if si < last {
				fail("%s started before what it follows ended", s)
			}
			if j == 0 && notBefore > 0 && trace[si].t < notBefore {
				fail("%s started %.3f s before its delay was over", s, notBefore-trace[si].t)
			}
			last = ei
			mod := o.name
			if o.kind == "flow" {
				mod = flowMods[o.name][j]
			}
			exp := []string{"2:dflt"}
			if mod == "vb" {
				env["k.id"] = s
			}
			if v := env["k.id"]; v != "" {
				exp = append(exp, "id="+v)
			}
			if v := mainEnv["k.s"]; v != "" {
				exp = append(exp, "s="+v)
			}
			if o.own != "" {
				exp = append(exp, "c="+o.own)
			}
			script := filepath.Join(b.Mods, strings.ReplaceAll(mod, ".", "/")+".bash")
			g := strings.Fields(trace[si].note)
			if len(g) < 2 || g[0] != script {
				fail("%s: %v ran instead of %s", s, g, script)
			}
			made := map[string]bool{}
			var rest []string
			for _, x := range g[1:] {
				if strings.HasPrefix(x, "made.") {
					made[strings.TrimSuffix(strings.TrimPrefix(x, "made."), "=1")] = true
				} else {
					rest = append(rest, x)
				}
			}
			if !tk.Eq(sorted(rest), sorted(exp)) {
				fail("%s got %v, the arguments and environment in effect are %v", s, rest, exp)
			}
			want := map[string]bool{}
			for k := range expEnv {
				want[k] = true
			}
			for _, x := range o.sub[:j] {
				want[x] = true
			}
			if !tk.Eq(sortedKeys(made), sortedKeys(want)) {
				fail("%s saw the changes of %v, it should see those of %v", s, sortedKeys(made), sortedKeys(want))
			}
			if _, ok := lastScript(o); !ok && failing[s] {
				for _, x := range o.sub[j+1:] {
					if at("S", x) >= 0 {
						fail("%s ran after the failed %s", x, s)
					}
				}
				break
			}
		}
		return last
	}
	ran := map[string]bool{}
	for i, o := range prog {
		if stop >= 0 {
			break
		}
		take := func(f func(x *bgOp) bool) {
			var rest []*bgOp
			for _, x := range tasks {
				if f(x) {
					waited++
					if e := endOf(x); e > prev {
						prev = e
					} else if e < 0 {
						fail("%s did not end", x.id)
					}
					if x.fail && !x.tol {
						code = 1
						stop = i
					}
				} else {
					rest = append(rest, x)
				}
			}
			tasks = rest
		}
		switch o.kind {
		case "env":
			mainEnv["k.s"] = o.key
		case "wait":
			take(func(x *bgOp) bool { return true })
		case "wait.last":
			if len(tasks) > 0 {
				l := tasks[len(tasks)-1]
				take(func(x *bgOp) bool { return x == l })
			}
		case "wait.cmd":
			for k := len(tasks) - 1; k >= 0; k-- {
				if l := tasks[k]; l.name == o.name {
					take(func(x *bgOp) bool { return x == l })
					break
				}
			}
		default:
			for _, s := range o.sub {
				ran[s] = true
			}
			if o.delay >= 0 {
				delayed++
				pt := 0.0
				if prev >= 0 {
					pt = trace[prev].t + o.delay
				}
				checkOp(o, -1, pt)
				pending(o)
				if o.apply {
					mainEnv["k.id"] = o.id
				}
			} else {
				prev = checkOp(o, prev, 0)
				if o.fail {
					code = 1
					stop = i
					break
				}
				for _, s := range o.sub {
					expEnv[s] = true
				}
			}
		}
	}
	if stop < 0 {
		for _, x := range tasks {
			if endOf(x) < 0 {
				fail("the run returned before %s ended", x.id)
			}
			if x.fail && !x.tol {
				code = 1
			}
		}
	}
	for _, m := range trace {
		if !ran[m.id] {
			fail("%s was executed", m.id)
		}
	}
	if (r.Code != 0) != (code != 0) {
		fail("exit code %d, expected failure: %v", r.Code, code != 0)
	}
	if tk.RuntimeCrash(r) != "" {
		fail("runtime error: %s", tk.RuntimeCrash(r))
	}
	if stop < 0 || len(tasks) == 0 {
		outLines := map[string]int{}
		for _, l := range strings.Split(r.All(), "\n") {
			outLines[strings.TrimSpace(l)]++
		}
		for _, m := range trace {
			pre := "out-"
			for _, k := range []string{pre + m.id, "err-" + m.id, "lastout-" + m.id} {
				if outLines[k] != 1 {
					fail("the output line '%s' is there %d times", k, outLines[k])
				}
			}
		}
	}
	c.NonTrivial(delayed >= 2 || waited > 0)
}

func TestC19(t *testing.T) {
	tk.Prop(t, "background", 480, 8,
		"a random program of 2-9 commands over modules and flows with unique call ids: foreground calls, delayed calls (0-0.4 s in several spellings, some tolerated, some failing, some with own settings or the early apply of their mapping, some of whole flows, some scheduled inside a flow), environment changes and waits (all, last, by name; in a quarter several of one name with waits for it one after another); the scripts log start and end, some delayed ones end only after a later foreground command ended (so a blocking implementation times out); checked: every command exactly once, foreground in order, no delayed one before its delay, all waited ones ended when a wait or the run returns, arguments and environment as of the scheduling, every output line exactly once, exit status; non-trivial when two or more commands are delayed or one is waited for by kind",
		func(c *tk.C) { bgCase(c, false) })
	tk.Prop(t, "races", 120, 8,
		"the same programs on a build with the race detector: besides the same checks, no map may be used by two commands running at the same time without synchronisation (the Go runtime kills the process when it notices that); non-trivial like above",
		func(c *tk.C) { bgCase(c, true) })
}
