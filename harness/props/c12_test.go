package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

// recNode is a command in a session record: its name, state (OK, bad, unrun)
// and the commands of its flow.
type recNode struct {
	name, state string
	sub         []*recNode
}

func (n *recNode) String() string {
	s := n.name + "=" + n.state
	if len(n.sub) > 0 {
		s += "{" + recStr(n.sub) + "}"
	}
	return s
}

// recStr leaves out what did not run: of several trivial ones in a row only
// some are described.
func recStr(ns []*recNode) string {
	r := []string{}
	for _, n := range ns {
		if n.state == "unrun" {
			continue
		}
		r = append(r, n.String())
	}
	return strings.Join(r, " ")
}

var recLine = regexp.MustCompile(`^( *)\[([^\]]+)\](?: \(schedule[^)]*\))? \d\d-\d\d:\d\d:\d\d (OK|ERR|failed|unrun|skipped|incompleted|\w+)`)

// parseRecord reads the tree sessions.*.desc prints.
func parseRecord(out string) []*recNode {
	root := &recNode{}
	type lv struct {
		indent int
		n      *recNode
	}
	stack := []lv{{-1, root}}
	for _, l := range strings.Split(out, "\n") {
		m := recLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n := &recNode{name: m[2], state: m[3]}
		if n.state == "ERR" || n.state == "failed" {
			n.state = "bad"
		}
		for stack[len(stack)-1].indent >= len(m[1]) {
			stack = stack[:len(stack)-1]
		}
		p := stack[len(stack)-1].n
		p.sub = append(p.sub, n)
		stack = append(stack, lv{len(m[1]), n})
	}
	return root.sub
}

// expectRecord is the model: left counts the script invocations that may
// still happen; the one that brings it to zero fails.
func expectRecord(seq []*Cmd, left *int, stopped *bool) []*recNode {
	var r []*recNode
	for _, w := range seq {
		n := &recNode{name: strings.Fields(w.Path)[0]}
		r = append(r, n)
		if *stopped {
			n.state = "unrun"
			continue
		}
		if w.IsFlow {
			n.sub = expectRecord(w.Seq, left, stopped)
		}
		if w.Script && !*stopped {
			*left--
			if *left == 0 {
				*stopped = true
			}
		}
		n.state = "OK"
		if *stopped {
			n.state = "bad"
		}
	}
	return r
}

type sessRec struct{ id, cmd, status string }

// parseSessions reads a session listing.
func parseSessions(out string) []sessRec {
	var r []sessRec
	ls := strings.Split(out, "\n")
	for i, l := range ls {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(l, "[") && strings.HasSuffix(t, "]") && len(t) > 10 {
			r = append(r, sessRec{id: t[1 : len(t)-1]})
		} else if len(r) > 0 && i+1 < len(ls) {
			switch t {
			case "cmd:":
				r[len(r)-1].cmd = strings.TrimSpace(ls[i+1])
			case "status:":
				if t := strings.TrimSpace(ls[i+1]); t == "OK" {
					r[len(r)-1].status = "done"
				} else {
					r[len(r)-1].status = t
				}
			}
		}
	}
	return r
}

func sessIDs(rs []sessRec) []string {
	ids := map[string]bool{}
	for _, r := range rs {
		ids[r.id] = true
	}
	return sortedKeys(ids)
}

func hasScript(seq []*Cmd) bool {
	n, _ := size(seq)
	return n > 0
}

func TestC12(t *testing.T) {
	tk.Prop(t, "record", 900, 8,
		"a random sequence over modules, nested flows and scripts with flows runs and fails (by exit status, or by the whole process being killed) at a random invocation or not at all; the stored record, as described by the last session's description, must be exactly the executed tree: executed commands in order with their results and nested commands, the others unrun or left out; and the listing must give the sequence and the state; non-trivial when the failure is inside a flow, or a flow of at least two levels ran",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 3, MaxFlows: 3, MaxSeq: 4, NoTrivial: true, Script: tk.Script{Count: true}})
			b := w.B
			seq := w.GenSeq("seq", 1, 5)
			if !hasScript(seq) {
				seq = append(seq, w.Mods[0])
			}
			inv := Invocations(seq)
			at := c.Int("fail-at", 0, len(inv))
			kill := at > 0 && c.Chance("kill", 35)
			how := "exit 3"
			if kill {
				how = "kill -9 $PPID"
			}
			b.FailAt(at, how)
			words := Words(seq)
			c.Desc("line %q fails at %d of %d by %s", words, at, len(inv), how)
			_, h := size(seq)
			r := b.RunOpt(tk.Opt{KillOK: kill}, words...)
			c.Check((r.Code == 0) == (at == 0), "%q exits with %d", words, r.Code)
			left, stopped := at, false
			want := recStr(expectRecord(seq, &left, &stopped))
			c.NonTrivial(h >= 2 || strings.Contains(want, "{") && at > 0)
			desc := tk.Pick(c, "desc", "sessions.last.desc.full", "sessions.last.desc.more", "sessions.last.desc")
			d := b.Run(desc)
			got := recStr(parseRecord(d.Out))
			full := desc == "sessions.last.desc.full"
			if !full {
				// shorter forms may leave out details, not the top level
				want = recStr(shallow(expectAgain(seq, at)))
				got = recStr(shallow(parseRecord(d.Out)))
			}
			c.Check(d.Code == 0 && got == want, "after %q (fails at %d) %s tells\n %s\nexpected\n %s", words, at, desc, got, want)
			ss := b.Sessions()
			c.Check(len(ss) == 1, "sessions %q after one run", ss)
			state := "done"
			if at > 0 {
				state = "failed"
			}
			l := parseSessions(b.Run("sessions").Out)
			for i := range l {
				l[i].cmd = strings.ReplaceAll(l[i].cmd, "echo message=hi", "echo hi")
			}
			c.Check(len(l) == 1 && l[0] == sessRec{ss[0], "ticat " + strings.Join(words, " "), state}, "after %q the sessions are listed as %q, expected state %s", words, l, state)
			for q, st := range map[string]string{"sessions.done": "done", "sessions.ok": "done", "sessions.error": "failed", "sessions.err": "failed", "sessions.running": "running"} {
				r := b.Run(q)
				n := len(parseSessions(r.Out))
				c.Check((n == 1) == (st == state) && n <= 1, "%s lists %d sessions after a run that is %s", q, n, state)
			}
		})
	tk.Prop(t, "values", 500, 8,
		"a command with argument values of any text (also with line breaks, markup of the status file, quotes) runs before one that fails, at top level or in a flow; the session must be listed as failed with both told truthfully, and retrying it must call the failed one again with exactly its values; non-trivial when a value is not a plain word",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("va", tk.Script{}, "help = h\n[args]\nx =\ny =\n")
			b.Mod("vb", tk.Script{Ctl: true}, "help = h\n[args]\nx =\ny =\n")
			val := func(l string) string {
				v := GenVal(c, l)
				switch c.Int(l+".more", 0, 5) {
				case 0:
					v = v + "\n" + GenVal(c, l+"2")
				case 1:
					v = "x\n   y\n\n" + v
				case 2:
					v = tk.Pick(c, l+"-mark", "<cmd>", "</flow>", "<flow-result>OK</flow-result>", "</subflow>", "<cmd-result>OK</cmd-result>", "x <error> y")
				}
				return strings.ReplaceAll(strings.ReplaceAll(v, "[[", "[ ["), "\\", "/")
			}
			v1, v2 := val("v1"), val("v2")
			words := []string{"va", "x=" + escColon(v1), ":", "vb", "y=" + escColon(v2)}
			c.Desc("%q", words)
			c.NonTrivial(strings.ContainsAny(v1+v2, "\n <>'\""))
			b.File("ctl/fail.vb", "")
			want := []string{tk.Call{Name: "va", Args: []string{v1, ""}}.String(), tk.Call{Name: "vb", Args: []string{"", v2}}.String()}
			r := b.Run(words...)
			c.Check(r.Code != 0 && tk.Eq(tk.CallStrs(r.Calls), want), "%q exits with %d after %q, expected %q", words, r.Code, tk.CallStrs(r.Calls), want)
			l := parseSessions(b.Run("sessions.error").Out)
			c.Check(len(l) == 1 && l[0].status == "failed", "after %q the failed sessions are %q", words, l)
			got := recStr(shallow(parseRecord(b.Run("sessions.last.desc").Out)))
			c.Check(got == "va=OK vb=bad", "after %q the session is told as %q", words, got)
			if c.Bool("fixed") {
				b.Remove("ctl/fail.vb")
			}
			r = b.Run("sessions.last.retry")
			c.Check(tk.Eq(tk.CallStrs(r.Calls), want[1:]), "retrying %q invokes %q, expected %q", words, tk.CallStrs(r.Calls), want[1:])
		})
	tk.Prop(t, "listing", 160, 10,
		"2-6 sessions, each done, failed, killed or still running (several processes at once); all, done, error and running listings, with and without search words and limits, must give exactly the sessions in that state, newest first with the limit; non-trivial when at least two states occur and one session runs",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Mod("vok", tk.Script{}, "")
			b.Mod("vbad", tk.Script{Exit: 3}, "")
			b.Mod("vkill", tk.Script{Body: "kill -9 $PPID"}, "")
			b.Mod("vwait", tk.Script{Body: "while [ ! -e \"$VCTL/go\" ] && [ -d \"$VCTL\" ]; do sleep 0.01; done"}, "")
			b.Flow("vfl", "help = h\nflow = vok : vwait\n")
			type sess struct{ id, state, word string }
			var all []sess
			var procs []*tk.Proc
			states := map[string]bool{}
			n := c.Int("n", 2, 6)
			for i := 0; i < n; i++ {
				before := b.Sessions()
				word := fmt.Sprintf("w%d", c.Int("word", 1, 2))
				st := tk.Pick(c, "state", "done", "failed", "killed", "running")
				words := []string{"echo", word, ":"}
				switch st {
				case "done":
					b.Run(append(words, "vok")...)
				case "failed":
					b.Run(append(words, "vbad", ":", "vok")...)
				case "killed":
					b.RunOpt(tk.Opt{KillOK: true}, append(words, "vkill")...)
				case "running":
					p := b.Start(tk.Opt{}, append(words, tk.Pick(c, "wait", "vwait", "vfl"))...)
					procs = append(procs, p)
					// until its module runs
					for t0 := time.Now(); ; time.Sleep(5 * time.Millisecond) {
						data, _ := os.ReadFile(b.Log)
						if strings.Count(string(data), "\x00vwait\x00") >= len(procs) {
							break
						}
						if time.Since(t0) > 30*time.Second {
							c.Violate("%q does not start", words)
						}
					}
				}
				if st == "killed" {
					st = "failed"
				}
				states[st] = true
				id := ""
				for _, s := range b.Sessions() {
					if !contains(before, s) {
						id = s
					}
				}
				c.Check(id != "", "no session for a run in state %s", st)
				all = append(all, sess{id, st, word})
				c.Desc("%s %s", st, word)
			}
			c.NonTrivial(len(states) >= 2 && states["running"])
			for _, q := range []struct{ cmd, state string }{{"sessions", ""}, {"s", ""}, {"sessions.done", "done"}, {"sessions.error", "failed"}, {"sessions.running", "running"}} {
				for _, word := range []string{"", "w1"} {
					words := []string{q.cmd}
					if word != "" {
						words = append(words, word)
					}
					want := []string{}
					for _, s := range all {
						if (q.state == "" || s.state == q.state) && (word == "" || s.word == word) {
							want = append(want, s.id)
						}
					}
					r := b.Run(words...)
					l := parseSessions(r.Out)
					m := map[string]bool{}
					for _, x := range want {
						m[x] = true
					}
					c.Check(len(l) == len(want) && tk.Eq(sessIDs(l), sortedKeys(m)), "%q lists %q, expected %q of %v", words, sessIDs(l), want, all)
					for _, x := range l {
						for _, s := range all {
							if s.id == x.id {
								c.Check(x.status == s.state, "%q lists %s as %q, it is %q", words, x.id, x.status, s.state)
							}
						}
					}
					if len(l) < 2 || !c.Chance("limited", 50) {
						continue
					}
					// a limit keeps the newest
					n := c.Int("limit", 1, len(l))
					words = []string{q.cmd, tk.Pick(c, "limit-arg", "max-count", "limit", "max") + "=" + fmt.Sprint(n)}
					if word != "" {
						words = append(words, "1st-str="+word)
					}
					few := []string{}
					for _, x := range parseSessions(b.Run(words...).Out) {
						few = append(few, x.id)
					}
					full := []string{}
					for _, x := range l {
						full = append(full, x.id)
					}
					c.Check(tk.Eq(few, full[len(full)-n:]), "%q lists %q, of %q", words, few, full)
					c.Label("limited")
				}
			}
			b.File("ctl/go", "")
			for i, p := range procs {
				r := p.Wait()
				c.Check(r.Code == 0, "waiting run %d exits with %d", i, r.Code)
			}
			l := parseSessions(b.Run("sessions.done").Out)
			nd := 0
			for _, s := range all {
				if s.state != "failed" {
					nd++
				}
			}
			c.Check(len(l) == nd, "after all ended %d sessions are done, expected %d", len(l), nd)
		})
	tk.Prop(t, "last", 160, 6,
		"1-6 sessions, each done, failed or killed, some ending with a command (a script, or a flow, done or failed) to be hidden from the last sessions; showing, describing and retrying the last, the last failed and the last done one must be about the newest such session that is not hidden, and not change the sessions there are; non-trivial when the newest session is not the one expected",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			hide := func() string {
				return tk.Pick(c, "hide", "hide-in-sessions-last", "hide-in-session-last", "hide-in-last") + " = " + tk.Pick(c, "yes", "true", "1", "t") + "\n"
			}
			b.Mod("vok", tk.Script{}, tk.Pick(c, "shown", "", "hide-in-last = false\n"))
			b.Mod("vbad", tk.Script{Exit: 3}, "")
			b.Mod("vkill", tk.Script{Body: "kill -9 $PPID"}, "")
			b.Mod("vhid", tk.Script{}, hide())
			b.Mod("vhid.bad", tk.Script{Exit: 3}, hide())
			b.Flow("vhidf", "flow = vok : vok\n"+hide())
			type sess struct {
				id     string
				failed bool
				hidden bool
			}
			var all []sess
			now := time.Now()
			for i := c.Int("n", 1, 6); i > 0; i-- {
				words := []string{"vok", ":"}
				if c.Chance("more", 30) {
					words = []string{tk.Pick(c, "first", "vhid", "vhidf"), ":", "vok", ":"}
				}
				s := sess{}
				end := tk.Pick(c, "end", "vok", "vok", "vbad", "vbad", "vkill", "vhid", "vhid.bad", "vhidf", "vok : vbad : vhid")
				words = append(words, strings.Fields(end)...)
				s.failed = end == "vbad" || end == "vkill" || end == "vhid.bad" || strings.Contains(end, "vbad :")
				s.hidden = strings.HasPrefix(end, "vhid")
				before := b.Sessions()
				b.RunOpt(tk.Opt{KillOK: true}, words...)
				id := ""
				for _, x := range b.Sessions() {
					if !contains(before, x) {
						id = x
					}
				}
				c.Check(id != "", "no session for %q", words)
				// The sessions of one second have no order: as if this was a while ago
				s.id = now.Add(-time.Duration(i)*time.Minute).Format("20060102-150405") + ".99999999"
				if err := os.Rename(filepath.Join(b.Data, "sessions", id), filepath.Join(b.Data, "sessions", s.id)); err != nil {
					tk.Infra("%v", err)
				}
				all = append(all, s)
				c.Desc("%q", words)
			}
			ids := b.Sessions()
			newest := func(match func(s sess) bool) string {
				for i := len(all) - 1; i >= 0; i-- {
					if !all[i].hidden && match(all[i]) {
						return all[i].id
					}
				}
				return ""
			}
			odd := false
			for _, q := range []struct {
				cmds []string
				fn   func(s sess) bool
				fail bool
			}{
				{[]string{"sessions.last", "s.last"}, func(s sess) bool { return true }, false},
				{[]string{"sessions.last.desc", "sessions.last.desc.more", "sessions.last.desc.full"}, func(s sess) bool { return true }, false},
				{[]string{"sessions.error.desc", "sessions.err.desc.more", "sessions.error.desc.full"}, func(s sess) bool { return s.failed }, true},
				{[]string{"sessions.done.desc", "sessions.ok.desc.more", "sessions.done.desc.full"}, func(s sess) bool { return !s.failed }, false},
			} {
				cmd := tk.Pick(c, "query", q.cmds...)
				want := newest(q.fn)
				odd = odd || want != all[len(all)-1].id
				r := b.Run(cmd)
				shown := []string{}
				for _, s := range all {
					if strings.Contains(r.All(), s.id) {
						shown = append(shown, s.id)
					}
				}
				if want == "" {
					c.Check(len(shown) == 0, "%q shows %q, there is none", cmd, shown)
					c.Check((r.Code != 0) == q.fail, "%q exits with %d", cmd, r.Code)
				} else {
					c.Check(len(shown) == 1 && shown[0] == want && r.Code == 0, "%q shows %q, expected %q of %v (exit %d)", cmd, shown, want, all, r.Code)
				}
				c.Check(tk.Eq(b.Sessions(), ids), "%q changed the sessions", cmd)
			}
			c.NonTrivial(odd)
		})
	tk.Prop(t, "delayed", 200, 8,
		"sequences of modules and flows, some delayed into the background (also inside of flows), in which foreground commands (after a wait) or background ones fail, or the process is killed with tasks pending; the stored session must be told with every command and its result and listed in its state; non-trivial when a command was delayed",
		func(c *tk.C) {
			delayedCase(c, false)
		})
	tk.Prop(t, "torn", 560, 8,
		"the status file of a session (of a run that succeeded, failed or was killed) is cut at an arbitrary byte, as if the process had died while writing it; the sessions must still be listed, never as done unless nothing but trailing white space is lost, and described without an internal error, telling no command as executed that was not; non-trivial when the cut is inside the record",
		func(c *tk.C) {
			w := GenWorld(c, WorldOpt{MaxMods: 2, MaxFlows: 2, MaxSeq: 3, NoTrivial: true, Script: tk.Script{Count: true, Append: []string{"k.a=1"}}})
			b := w.B
			seq := append(w.GenSeq("seq", 1, 3), w.Mods[0])
			inv := Invocations(seq)
			b.FailAt(c.Int("fail-at", 0, len(inv)), "exit 3")
			b.Run(Words(seq)...)
			ss := b.Sessions()
			c.Check(len(ss) == 1, "sessions %q after one run", ss)
			path := filepath.Join(b.Data, "sessions", ss[0], "status")
			data, err := os.ReadFile(path)
			c.Check(err == nil, "no status file: %v", err)
			whole := parseRecord(b.Run("sessions.last.desc.full").Out)
			cuts := []int{c.Int("cut", 0, len(data)-1), c.Int("cut2", 0, len(data)-1)}
			for _, cut := range cuts {
				os.WriteFile(path, data[:cut], 0644)
				c.Desc("%q cut at %d of %d", Words(seq), cut, len(data))
				c.Note("status cut to %d of %d bytes", cut, len(data))
				c.NonTrivial(cut > 60)
				lost := strings.TrimSpace(string(data[cut:])) != ""
				r := b.Run("sessions")
				l := parseSessions(r.Out)
				c.Check(r.Code == 0 && len(l) == 1, "cut at %d: the session is not listed: exit %d %q", cut, r.Code, r.All())
				c.Check(!lost || l[0].status != "done", "cut at %d of %d: the session is listed as done", cut, len(data))
				d := b.Run("sessions.last.desc.full")
				crash := tk.RuntimeCrash(d)
				c.Check(crash == "", "cut at %d: describing breaks: %s", cut, crash)
				var check func(got, want []*recNode)
				check = func(got, want []*recNode) {
					for i, n := range got {
						if i >= len(want) || n.name != want[i].name {
							if n.state == "OK" {
								c.Violate("cut at %d: %s is told to be executed, the whole record is %s", cut, n, recStr(whole))
							}
							continue
						}
						if n.state == "OK" && want[i].state != "OK" {
							c.Violate("cut at %d: %s is told as succeeded, the whole record is %s", cut, n, recStr(whole))
						}
						check(n.sub, want[i].sub)
					}
				}
				check(parseRecord(d.Out), whole)
				e := b.Run("sessions.error")
				c.Check(!lost || len(parseSessions(e.Out)) == 1, "cut at %d of %d: the session is not listed as failed", cut, len(data))
			}
		})
}

func expectAgain(seq []*Cmd, at int) []*recNode {
	left, stopped := at, false
	return expectRecord(seq, &left, &stopped)
}

func shallow(ns []*recNode) []*recNode {
	var r []*recNode
	for _, n := range ns {
		r = append(r, &recNode{name: n.name, state: n.state})
	}
	return r
}
