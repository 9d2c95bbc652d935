package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

type oldSess struct {
	id, flow string
	live     bool
	age      time.Duration
}

func TestC14(t *testing.T) {
	tk.Prop(t, "remove", 1200, 10,
		"2-8 session records of chosen ages (seconds to years around the keep duration, some in the future), flows and owners (processes that ended or still live), beside foreign entries in the sessions directory; 1-4 cleanings by age at the start of a run (keep duration given or saved in several forms), all at once, by search words, by id, each with or without force, some by a user who may not signal the owners; after each exactly the modelled directories must be left with unchanged content; non-trivial when a cleaning had both a session to remove and one to keep that differ in one criterion only",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			root := filepath.Join(b.Data, "sessions")
			live := exec.Command("sleep", "600")
			if err := live.Start(); err != nil {
				tk.Infra("can't start sleep: %v", err)
			}
			defer func() { live.Process.Kill(); live.Wait() }()
			ended := exec.Command("true")
			ended.Run()
			pids := []int{ended.Process.Pid, 4999999, 4900001}
			keep := tk.Pick(c, "keep", time.Hour, 30*time.Minute, 72*time.Hour, 90*time.Second, 1000*time.Hour)
			var all []*oldSess
			used := map[string]bool{}
			now := time.Now()
			for i, n := 0, c.Int("n", 2, 8); i < n; i++ {
				s := &oldSess{live: c.Chance("live", 30)}
				off := tk.Pick(c, "off", time.Minute, -time.Minute, 25*time.Minute, -25*time.Minute, keep/2, -keep/2, -keep, 9000*time.Hour, -keep-5*time.Minute)
				s.age = keep + off
				pid := tk.Pick(c, "pid", pids...)
				if s.live {
					pid = live.Process.Pid
				}
				s.id = fmt.Sprintf("%s.%d", now.Add(-s.age).Format("20060102-150405"), pid)
				if used[s.id] {
					continue
				}
				used[s.id] = true
				s.flow = strings.Join(picks(c, "flow", 1, 3, "alpha", "beta", "gamma", "alphabet", "a.b", "[x]"), " ")
				res := tk.Pick(c, "result", "OK", "ERR", "")
				text := "<flow>\necho " + s.flow + " : noop\n</flow>\n<flow-start-time>" + now.Add(-s.age).Format("2006-01-02 15:04:05") + "</flow-start-time>\n<cmd>noop</cmd>\n<cmd-start-time>2026-01-01 01:01:01</cmd-start-time>\n"
				if res != "" {
					text += "<cmd-finish-time>2026-01-01 01:01:01</cmd-finish-time>\n<cmd-result>" + res + "</cmd-result>\n<flow-finish-time>2026-01-01 01:01:01</flow-finish-time>\n<flow-result>" + res + "</flow-result>\n"
				}
				d := "ticat.data/sessions/" + s.id
				b.File(d+"/status", text)
				b.File(d+"/env", "k.a=1\n")
				if c.Bool("log") {
					b.File(d+"/logs/x", "log\n")
				}
				all = append(all, s)
				c.Desc("%s age %s-keep=%s live=%v %s", s.id, s.age, off, s.live, s.flow)
			}
			foreign := tk.Subset(c, "foreign", []string{"notes.txt", "20200101-000000", "x.y.z", "keep.d", "20200101-0000.12"})
			for i, f := range foreign {
				if i%2 == 0 {
					b.File("ticat.data/sessions/"+f+"/file", "mine")
				} else {
					b.File("ticat.data/sessions/"+f, "mine")
				}
			}
			snap := func() map[string]string {
				m := map[string]string{}
				filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
					if err == nil && i.Mode().IsRegular() {
						data, _ := os.ReadFile(p)
						rel, _ := filepath.Rel(root, p)
						m[rel] = string(data)
					}
					return nil
				})
				return m
			}
			left := map[string]bool{}
			for _, s := range all {
				left[s.id] = true
			}
			content := snap()
			did := false
			keepStrs := map[time.Duration][]string{time.Hour: {"1h", "60m", "3600s", "1h0m0s"}, 30 * time.Minute: {"30m", "0.5h", "1800s"}, 72 * time.Hour: {"72h"}, 90 * time.Second: {"90s", "1m30s"}, 1000 * time.Hour: {"1000h"}}
			for i, n := 0, c.Int("ops", 1, 4); i < n; i++ {
				force := false
				var hit func(s *oldSess) bool
				var words []string
				own := false
				what := c.Int("op", 0, 4)
				switch what {
				case 0: // age
					ks := tk.Pick(c, "keep-str", keepStrs[keep]...)
					hit = func(s *oldSess) bool { return s.age > keep }
					switch c.Int("keep-by", 0, 2) {
					case 0:
						words = []string{"{sys.sessions.keep-status-duration=" + ks + "}", ":", "noop", ":", "noop"}
						own = true
					case 1:
						b.Run("{sys.sessions.keep-status-duration=99999h}", ":", "sessions.set-keep-duration", "duration="+ks, ":", "env.save")
						// that run has a session of its own
						words = []string{"noop", ":", "noop"}
						own = true
					case 2:
						b.Run("{sys.sessions.keep-status-duration=99999h}", ":", "env.set", "key=sys.sessions.keep-status-duration", "value="+ks, ":", "env.save")
						words = []string{"echo", "x", ":", "noop"}
						own = true
					}
				case 1:
					words = []string{tk.Pick(c, "all", "sessions.remove.all", "s.rm.a", "noop : sessions.remove.all : noop")}
					if strings.Contains(words[0], ":") {
						words = strings.Fields(words[0])
						own = true
					}
					hit = func(s *oldSess) bool { return true }
				case 2:
					ws := picks(c, "search", 1, 2, "alpha", "beta", "gamma", "a.b", "2026", "[x]", "noop", "none", "49000")
					words = append([]string{"sessions.remove.by-search"}, ws...)
					force = c.Chance("force", 30)
					if force {
						words = []string{"sessions.remove.by-search", "1st-str=" + ws[0], "remove-running=true"}
						ws = ws[:1]
					}
					hit = func(s *oldSess) bool {
						for _, w := range ws {
							if !strings.Contains(s.id, w) && !strings.Contains("echo message=\""+s.flow+"\" : noop", w) && !strings.Contains("echo "+s.flow+" : noop", w) {
								return false
							}
						}
						return true
					}
				default:
					id := "20200101-000000.77"
					if len(all) > 0 && !c.Chance("none", 10) {
						id = tk.Pick(c, "victim", all...).id
					}
					force = c.Chance("force", 30)
					a := id
					if c.Bool("bracket") {
						a = "[" + id + "]"
					}
					words = []string{"sessions.remove", "session-id=" + a}
					if force {
						words = append(words, "remove-running=true")
					} else if c.Bool("plain") {
						words = []string{"sessions.remove", a}
					}
					hit = func(s *oldSess) bool { return s.id == id }
				}
				if what != 0 {
					// a run with a session cleans by age first
					words = append([]string{"{sys.sessions.keep-status-duration=99999h}", ":"}, words...)
				}
				before := b.Sessions()
				nrm, nkeep := 0, 0
				for _, s := range all {
					if left[s.id] && hit(s) && (!s.live || force) {
						left[s.id] = false
						nrm++
					} else if left[s.id] {
						nkeep++
					}
				}
				did = did || nrm > 0 && nkeep > 0
				c.Desc("%q", words)
				var r tk.Res
				if c.Chance("other-user", 15) {
					// who may not signal the owners of the sessions
					o, ok := b.Unprivileged()
					if ok {
						c.Label("unprivileged user")
						c.Desc("as an unprivileged user:")
					}
					r = b.RunOpt(o, words...)
				} else {
					r = b.Run(words...)
				}
				c.Check(tk.RuntimeCrash(r) == "", "%q crashes", words)
				var got, want []string
				nown := 0
				for _, id := range b.Sessions() {
					if used[id] {
						got = append(got, id)
					} else if contains(foreign, id) {
						continue
					} else if !contains(before, id) {
						nown++
					}
				}
				for _, s := range all {
					if left[s.id] {
						want = append(want, s.id)
					}
				}
				sort.Strings(want)
				c.Check(tk.Eq(got, want), "after %q the sessions left are %q, expected %q", words, got, want)
				if own {
					c.Check(nown == 1, "%q added %d sessions, expected its own", words, nown)
				}
				now := snap()
				for f, text := range content {
					id := strings.Split(f, string(filepath.Separator))[0]
					if used[id] && !left[id] {
						continue
					}
					c.Check(now[f] == text, "after %q the file %s is %q, was %q", words, f, now[f], text)
				}
			}
			c.NonTrivial(did)
		})
}
