package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

// retryState is the model of running a sequence over several attempts.
type retryState struct {
	env    map[string]string
	narrow []map[string]string
	n      int // script invocations so far, over all attempts
	failAt int // invocation number that fails; 0 for none
	calls  []string
	depth  int
	deep   bool
	failed bool
	done   map[*runNode]bool
	own    func(n int) string // what the n-th invocation sets its key to
}

// runNode is one command of the executed tree.
type runNode struct {
	w   *Cmd
	env map[string]string // own brace
	sub []*runNode
}

func treeOf(seq []*Cmd) []*runNode {
	var r []*runNode
	for _, w := range seq {
		r = append(r, &runNode{w: w, sub: treeOf(w.Seq)})
	}
	return r
}

func (s *retryState) seen(own string) map[string]string {
	env := map[string]string{}
	for k, v := range s.env {
		env[k] = v
	}
	for _, m := range s.narrow {
		for k, v := range m {
			env[k] = v
		}
	}
	delete(env, own)
	return env
}

func (s *retryState) run(ns []*runNode) bool {
	for _, n := range ns {
		if s.done[n] {
			continue
		}
		if n.env != nil {
			s.narrow = append(s.narrow, n.env)
		}
		s.depth++
		ok := s.run(n.sub)
		s.depth--
		if ok && n.w.Script {
			s.n++
			env := s.seen(ownKey(n.w.name()))
			if len(env) == 0 {
				env = nil
			}
			s.calls = append(s.calls, tk.Call{Name: n.w.name(), Args: n.w.args(), Env: env}.String())
			if s.failAt == 1 {
				s.failed = true
				s.deep = s.deep || s.depth > 0
				ok = false
			} else {
				s.env[ownKey(n.w.name())] = s.own(s.n)
			}
			s.failAt--
		}
		if ok && n.w.Sets.K != "" {
			s.env[n.w.Sets.K] = n.w.Sets.V
		}
		if n.env != nil {
			s.narrow = s.narrow[:len(s.narrow)-1]
		}
		if !ok {
			return false
		}
		s.done[n] = true
	}
	return true
}

func (s *retryState) remaining(ns []*runNode) int {
	r := 0
	for _, n := range ns {
		if s.done[n] {
			continue
		}
		r += s.remaining(n.sub)
		if n.w.Script {
			r++
		}
	}
	return r
}

// withoutOwn takes the key a script sets itself out of what it saw: whether a
// failed attempt left it behind is not specified.
func withoutOwn(calls []tk.Call) []string {
	for i := range calls {
		delete(calls[i].Env, ownKey(calls[i].Name))
		if len(calls[i].Env) == 0 {
			calls[i].Env = nil
		}
	}
	return tk.CallStrs(calls)
}

func TestC13(t *testing.T) {
	tk.Prop(t, "resume", 1100, 8,
		"a random sequence (modules, nested flows, scripts with flows, builtins setting keys; some commands with own settings) in which every module sets its own key to a text with the invocation number fails or is killed at a random invocation; it is retried (by last, error or id) until it succeeds, failing again at random points up to 3 times; each attempt must invoke exactly the not yet succeeded modules in order, each seeing the environment the model predicts; non-trivial when a failure is inside a flow or two attempts failed",
		func(c *tk.C) {
			lead, tail := "", ""
			if c.Chance("odd-values", 50) {
				lead = tk.Pick(c, "lead", "", "  ", "a = ", "\t", "<env-start>", "[[k.s]] ")
				tail = tk.Pick(c, "tail", "", " ", " = x", "=", "  y  ", "</env-finish>", "'\"", "\\n")
			}
			w := GenWorld(c, WorldOpt{MaxMods: 3, MaxFlows: 3, MaxSeq: 4, Script: tk.Script{Count: true, EnvPref: "k."}, Own: true, OwnLead: lead, OwnTail: tail, SetBuiltin: true, ArgMod: true, Branch: c.Chance("branch", 40)})
			b := w.B
			seq := w.GenSeq("seq", 1, 5)
			if w.C.Chance("template-like", 15) {
				seq = append(seq, argCall("t [[k.s]] [[k.none]]"))
			}
			if n, _ := size(seq); n == 0 {
				seq = append(seq, w.Mods[0])
			}
			tree := treeOf(seq)
			s := &retryState{env: map[string]string{}, done: map[*runNode]bool{}}
			s.own = func(n int) string { return lead + fmt.Sprint(n) + tail }
			if c.Chance("saved", 30) {
				b.Saved("k.s=saved")
				s.env["k.s"] = "saved"
			}
			var words []string
			if c.Chance("global", 40) {
				words = append(words, "{k.g=glob}", ":")
				s.env["k.g"] = "glob"
			}
			for i, n := range tree {
				if i > 0 {
					words = append(words, ":")
				}
				if c.Chance("own-env", 25) {
					n.env = map[string]string{"k.c": fmt.Sprintf("c%d", i)}
					if len(words) == 0 {
						words = append(words, ":")
					}
					words = append(words, fmt.Sprintf("{k.c=c%d}", i))
				}
				words = append(words, n.w.words()...)
			}
			attempt := words
			fails := 0
			var known []string
			for try := 0; ; try++ {
				left := s.remaining(tree)
				s.failAt, s.calls, s.failed = 0, nil, false
				if try == 0 || try < 4 && c.Chance("again", 50) {
					s.failAt = c.Int("fail-at", 1, left)
				}
				kill := s.failAt > 0 && c.Chance("kill", 30)
				how := "exit 3"
				if kill {
					how = "kill -9 $PPID"
				}
				at := s.failAt
				b.FailAt(at, how)
				ok := s.run(tree)
				c.Desc("%q fails at %d by %s", attempt, at, how)
				r := b.RunOpt(tk.Opt{KillOK: kill}, attempt...)
				got := withoutOwn(r.Calls)
				c.Check(tk.Eq(got, s.calls), "%q (attempt %d of %q, failing at %d) invoked\n %s\nexpected\n %s", attempt, try, words, at, strings.Join(got, "\n "), strings.Join(s.calls, "\n "))
				c.Check((r.Code == 0) == ok, "%q (attempt %d of %q, failing at %d) exits with %d", attempt, try, words, at, r.Code)
				if ok {
					break
				}
				fails++
				// The id of this attempt; of the sessions started in one second,
				// which one is the last is not told by the ids.
				now, newest := "", ""
				for _, id := range b.Sessions() {
					if !contains(known, id) {
						c.Check(now == "", "%q made two sessions, %q and %q", attempt, now, id)
						now = id
						known = append(known, id)
					}
					newest = max(newest, id)
				}
				c.Check(now != "", "%q made no session", attempt)
				by := 2 + c.Int("by-id", 0, 1)
				if now == newest && c.Bool("by-last") {
					by -= 2
				}
				attempt = [][]string{{"sessions.last.retry"}, {"sessions.error.retry"}, {"sessions.retry", now}, {"sessions.retry", "session-id=" + now}}[by]
			}
			c.NonTrivial(s.deep || fails >= 2)
		})
	tk.Prop(t, "delayed", 160, 8,
		"sequences of modules and flows, some delayed into the background (also inside of flows), in which either foreground commands (each after a wait) or background ones fail until they are repaired one by one; each retry must invoke exactly the modules that had not succeeded, those of one task in order; and the stored session must list as failed, then done, and tell every command with its result; non-trivial when a background command had succeeded or failed before a retry",
		func(c *tk.C) {
			delayedCase(c, true)
		})
}

func delayedCase(c *tk.C, retry bool) {
	b := c.NewBox()
	b.UseMods()
	g := &delGen{c: c, b: b, fgFails: c.Bool("fg-fails"), late: map[string]bool{}, fails: map[string]bool{}, task: map[string]int{}}
	if !retry && g.fgFails && c.Bool("kill") {
		g.kill = true
	}
	top := g.seq(0, c.Int("len", 2, 5), false)
	if len(g.fails) == 0 {
		top = append(top, g.failing(0, !g.fgFails)...)
	}
	var ws []string
	for i, n := range top {
		if i > 0 {
			ws = append(ws, ":")
		}
		ws = append(ws, n.words()...)
	}
	for m := range g.fails {
		b.File("ctl/fail."+m, "")
	}
	c.Desc("%q failing %q", ws, sortedKeys(g.fails))
	attempt := ws
	pending := false
	for try := 0; ; try++ {
		m := &delModel{fails: g.fails}
		ok := m.run(top, 0)
		pending = pending || try > 0 && g.delays > 0
		r := b.RunOpt(tk.Opt{KillOK: g.kill}, attempt...)
		byTask := map[int][]string{}
		for _, k := range r.Calls {
			byTask[g.task[k.Name]] = append(byTask[g.task[k.Name]], k.Name)
		}
		want := map[int][]string{}
		for _, n := range m.calls {
			want[g.task[n]] = append(want[g.task[n]], n)
		}
		for i := 0; i <= g.tasks; i++ {
			c.Check(tk.Eq(byTask[i], want[i]), "%q (attempt %d of %q, failing %q) invoked %q in task %d, expected %q; all: %q", attempt, try, ws, sortedKeys(g.fails), byTask[i], i, want[i], tk.CallStrs(r.Calls))
		}
		c.Check((r.Code == 0) == ok, "%q (attempt %d of %q, failing %q) exits with %d", attempt, try, ws, sortedKeys(g.fails), r.Code)
		ss := b.Sessions()
		newest := ss[len(ss)-1]
		state := map[string]string{}
		for _, q := range []string{"sessions.done", "sessions.error"} {
			for _, x := range parseSessions(b.Run(q).Out) {
				state[x.id] += strings.TrimPrefix(q, "sessions.")
			}
		}
		if len(ss) == try+1 && ss[0] < newest || len(ss) == 1 {
			c.Check(state[newest] == tk_if(ok, "done", "error"), "%q (attempt %d of %q, failing %q) exits with %d and is listed as %q", attempt, try, ws, sortedKeys(g.fails), r.Code, state[newest])
		}
		if try == 0 {
			want, got := recStr(delRecord(top)), recStr(dropWaits(g.late, parseRecord(b.Run("sessions.last.desc.full").Out)))
			c.Check(got == want, "after %q, failing %q, the session is told as\n %s\nexpected\n %s", ws, sortedKeys(g.fails), got, want)
		}
		if ok || !retry {
			break
		}
		// Repair: one that failed in the foreground, some of those in the background
		for _, n := range m.failed {
			delete(g.fails, n)
			b.Remove("ctl/fail." + n)
			if c.Bool("only-one") {
				break
			}
		}
		// Of the sessions started in one second, which one is the last is not told by the ids.
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second)))
		attempt = tk.Pick(c, "by", []string{"sessions.last.retry"}, []string{"sessions.retry", newest}, []string{"sessions.error.retry"})
	}
	c.NonTrivial(pending || !retry && g.delays > 0)
}

// delNode is a command of a sequence with delayed ones.
type delNode struct {
	name  string
	delay string
	wait  bool
	late  bool // too late to be run
	flow  bool
	sub   []*delNode
	state string
}

func (n *delNode) words() []string {
	r := []string{n.name}
	if n.delay != "" {
		r = append(r, "%delay="+n.delay)
	}
	return r
}

type delGen struct {
	c       *tk.C
	b       *tk.Box
	fgFails bool
	late    map[string]bool
	kill    bool // the failing command kills ticat
	fails   map[string]bool
	task    map[string]int // module to the background task it belongs to, 0 is the foreground
	tasks   int
	n       int
	delays  int
}

func (g *delGen) module(task int) *delNode {
	n := &delNode{name: fmt.Sprintf("vm%d", g.n)}
	g.n++
	g.b.Mod(n.name, tk.Script{Ctl: true}, "")
	g.task[n.name] = task
	return n
}

// failing makes commands of which the last one fails.
func (g *delGen) failing(task int, bg bool) []*delNode {
	if !bg {
		r := []*delNode{{name: "bg.wait", wait: true}}
		if g.kill {
			if g.c.Bool("pending") {
				g.tasks++
				n := g.module(g.tasks)
				n.delay, n.late = "30s", true
				g.late[n.name] = true
				r = append(r, n)
			}
			n := &delNode{name: fmt.Sprintf("vm%d", g.n)}
			g.n++
			g.b.Mod(n.name, tk.Script{Body: "kill -9 $PPID"}, "")
			g.task[n.name] = task
			g.fails[n.name] = true
			return append(r, n)
		}
		n := g.module(task)
		g.fails[n.name] = true
		return append(r, n)
	}
	g.delays++
	if task == 0 {
		g.tasks++
		task = g.tasks
	}
	n := g.module(task)
	g.fails[n.name] = true
	n.delay = tk.Pick(g.c, "delay", "0s", "0.02s")
	return []*delNode{n}
}

// seq draws commands; task is the background task they run in, 0 for none.
func (g *delGen) seq(task, count int, inFlow bool) (r []*delNode) {
	c := g.c
	for i := 0; i < count; i++ {
		t := task
		delay := ""
		// a background task can't schedule others
		if task == 0 && c.Chance("delayed", 45) {
			delay = tk.Pick(c, "delay", "0s", "0s", "0.02s", "50ms")
			g.tasks++
			t = g.tasks
			g.delays++
		}
		switch kind := tk.Pick(c, "kind", "mod", "mod", "flow", "fail"); {
		case kind == "fail" && g.fgFails && task == 0 && delay == "":
			r = append(r, g.failing(0, false)...)
		case kind == "fail" && !g.fgFails && t != 0:
			n := g.module(t)
			g.fails[n.name] = true
			n.delay = delay
			r = append(r, n)
		case kind == "flow" && !inFlow:
			n := &delNode{flow: true, delay: delay, sub: g.seq(t, c.Int("flow-len", 1, 3), true)}
			n.name = fmt.Sprintf("vf%d", g.n)
			g.n++
			var ps []string
			for _, x := range n.sub {
				ps = append(ps, strings.Join(x.words(), " "))
			}
			g.b.Flow(n.name, "help = h\nflow = "+strings.Join(ps, " : ")+"\n")
			c.Desc("%s: %s", n.name, strings.Join(ps, " : "))
			r = append(r, n)
		default:
			n := g.module(t)
			n.delay = delay
			r = append(r, n)
		}
	}
	return
}

type delModel struct {
	fails  map[string]bool
	calls  []string
	failed []string
}

// run is what an attempt does; it returns whether all went well.
func (m *delModel) run(seq []*delNode, task int) bool {
	all := true
	for _, n := range seq {
		if n.state == "OK" || n.wait || n.late {
			continue
		}
		ok := true
		if n.flow {
			ok = m.run(n.sub, 0)
		} else {
			m.calls = append(m.calls, n.name)
			if m.fails[n.name] {
				m.failed = append(m.failed, n.name)
				ok = false
			}
		}
		n.state = tk_if(ok, "OK", "bad")
		if !ok {
			all = false
			if n.delay == "" && !onlyDelayed(n) {
				return false
			}
		}
	}
	return all
}

// onlyDelayed tells whether what failed in a flow did so in the background, so
// that the flow itself went on.
func onlyDelayed(n *delNode) bool {
	if !n.flow {
		return false
	}
	for _, x := range n.sub {
		if x.state == "bad" && x.delay == "" && !onlyDelayed(x) {
			return false
		}
	}
	return true
}

func delRecord(seq []*delNode) (r []*recNode) {
	for _, n := range seq {
		if n.wait || n.late {
			continue
		}
		x := &recNode{name: n.name, state: n.state, sub: delRecord(n.sub)}
		if x.state == "" {
			x.state = "unrun"
		}
		r = append(r, x)
	}
	return
}

// dropWaits leaves out the waits, and the commands that were scheduled but whose
// time did not come: all that matters is that they are not told as OK.
func dropWaits(late map[string]bool, ns []*recNode) (r []*recNode) {
	for _, n := range ns {
		if !strings.HasSuffix(n.name, ".wait") && !(late[n.name] && n.state == "bad") {
			n.sub = dropWaits(late, n.sub)
			r = append(r, n)
		}
	}
	return
}
