package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

// A command with timers. Its scripts log when they begin and end.
type tmItem struct {
	kind            string // script, flow, fnf, mark, begin, elapsed, set, repeat
	name            string
	beg, end, dur   string // keys
	key, key2       string
	n               int
	fails, tol, cut bool
	seq             []*tmItem
}

func (it *tmItem) words() string {
	w := it.name
	switch it.kind {
	case "mark":
		w = "mark-time " + it.key
	case "begin":
		w = "timer.begin " + it.key
	case "elapsed":
		w = "timer.elapsed begin-key=" + it.key + " write-to-key=" + it.key2
	case "set":
		w = fmt.Sprintf("env.set key=%s value=%d", it.key, it.n)
	case "repeat":
		w = fmt.Sprintf("repeat cmd=%s times=%d", it.seq[0].name, it.n)
	}
	if it.tol {
		w += " %err=ok"
	}
	return w
}

type tmBounds struct {
	lo, hi float64
	any    bool
}

// tmRun follows the events of a run.
type tmRun struct {
	c     *tk.C
	at    []float64 // times of the events, with one before and one after
	calls []tk.Call
	i     int // events consumed
	env   map[string]tmBounds
	seen  int // timer values seen
}

func (m *tmRun) prev() float64 { return m.at[m.i] }
func (m *tmRun) next() float64 { return m.at[m.i+1] }

func (m *tmRun) event(name, which string) {
	m.c.Check(m.i < len(m.calls), "%s does not run (call %d)", name, m.i)
	k := m.calls[m.i]
	m.c.Check(k.Name == name && k.Args[0] == which, "event %d is %s of %s, expected %s of %s", m.i, k.Args[0], k.Name, which, name)
	for _, key := range sortedKeys(m.env) {
		b := m.env[key]
		v, ok := k.Env[key]
		if b.any {
			continue
		}
		n, err := strconv.Atoi(v)
		m.c.Check(ok && err == nil && float64(n) >= math.Floor(b.lo) && float64(n) <= math.Floor(b.hi),
			"%s (%s, event %d) sees %s=%q, expected %.3f to %.3f", name, which, m.i, key, v, b.lo, b.hi)
		m.seen++
	}
	for _, key := range sortedKeys(k.Env) {
		_, ok := m.env[key]
		m.c.Check(ok, "%s (%s, event %d) sees %s=%q, which nothing has set", name, which, m.i, key, k.Env[key])
	}
	m.i++
}

func (m *tmRun) run(it *tmItem) (ok bool) {
	if it.beg != "" {
		m.env[it.beg] = tmBounds{m.prev(), m.next(), false}
	}
	from, prev, next := m.i, m.prev(), m.next()
	ok = true
	for _, s := range it.seq {
		n := 1
		if it.kind == "repeat" {
			n = it.n
		}
		for ; ok && n > 0; n-- {
			ok = m.run(s)
		}
		if !ok {
			break
		}
	}
	switch it.kind {
	case "script", "fnf":
		if ok {
			m.event(it.name, "b")
			m.event(it.name, "e")
			ok = !it.fails
		}
	case "mark", "begin":
		m.env[it.key] = tmBounds{m.prev(), m.next(), false}
	case "set":
		m.env[it.key] = tmBounds{float64(it.n), float64(it.n), false}
	case "elapsed":
		b, has := m.env[it.key]
		m.env[it.key2] = tmBounds{math.Floor(m.prev()) - math.Floor(b.hi), math.Floor(m.next()) - math.Floor(b.lo), b.any || !has}
	}
	lo := 0.0
	if m.i > from {
		lo = m.prev() - next
	}
	if it.end != "" {
		m.env[it.end] = tmBounds{m.prev(), m.next(), !ok && !it.tol}
	}
	if it.dur != "" {
		m.env[it.dur] = tmBounds{lo, m.next() - prev, !ok && !it.tol}
	}
	return ok || it.tol
}

func TestC40(t *testing.T) {
	tk.Prop(t, "timers", 160, 6,
		"sequences of scripts, flows and flows with scripts, nested up to 3 levels, with any of the three timer keys in either spelling (keys shared, too), scripts lasting up to 1.2 seconds and failing tolerated or not, with mark-time, timer.begin, timer.elapsed, settings and repetitions between; each script logs when it begins and ends and the environment it sees, every timer value there must be the one the logged times allow, and exactly the keys set so far must be there; non-trivial when at least 3 timer values are seen and some script lasts a while",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			if c.Bool("quiet") {
				b.Quiet()
			}
			keys := []string{"t.a", "t.b", "t.c", "t.d"}
			known := map[string]bool{}
			n, slept := 0, 0.0
			var item func(depth int) *tmItem
			item = func(depth int) *tmItem {
				n++
				it := &tmItem{kind: tk.Pick(c, "kind", "script", "script", "script", "flow", "flow", "fnf", "mark", "begin", "elapsed", "elapsed", "set", "repeat"), name: fmt.Sprint("vt", n)}
				if depth > 3 {
					it.kind = "script"
				}
				if depth == 3 && (it.kind == "flow" || it.kind == "fnf" || it.kind == "repeat") {
					it.kind = "script"
				}
				if it.kind == "elapsed" {
					var ks []string
					for _, k := range keys {
						if known[k] {
							ks = append(ks, k)
						}
					}
					if len(ks) == 0 {
						it.kind = "mark"
					} else {
						it.key = tk.Pick(c, "since", ks...)
					}
				}
				meta := ""
				switch it.kind {
				case "mark", "begin", "set":
					it.key = tk.Pick(c, "key", keys...)
					it.n = c.Int("value", 0, 2000000000)
					known[it.key] = true
					return it
				case "elapsed":
					it.key2 = tk.Pick(c, "key2", keys...)
					known[it.key2] = true
					return it
				case "repeat":
					it.n = c.Int("times", 1, 3)
					s := item(4)
					s.tol = false // not part of the repeated text
					it.seq = []*tmItem{s}
					return it
				}
				for _, x := range []struct {
					p     *string
					names []string
				}{{&it.beg, []string{"begin-key", "begin-ts-key"}}, {&it.end, []string{"end-key", "end-ts-key"}}, {&it.dur, []string{"dur-key", "duration-key"}}} {
					if c.Chance("timer", 45) {
						*x.p = tk.Pick(c, "tkey", keys...)
						meta += tk.Pick(c, "tname", x.names...) + " = " + *x.p + "\n"
					}
				}
				it.tol = c.Chance("tol", 25)
				if it.kind != "script" {
					if it.beg != "" {
						known[it.beg] = true
					}
					var ws []string
					for i := c.Int("len", 1, 3); i > 0; i-- {
						s := item(depth + 1)
						it.seq = append(it.seq, s)
						ws = append(ws, s.words())
					}
					meta = "flow = " + strings.Join(ws, " : ") + "\n" + meta
				}
				for _, k := range []string{it.beg, it.end, it.dur} {
					if k != "" {
						known[k] = true
					}
				}
				if it.kind == "flow" {
					b.Flow(it.name, meta)
					return it
				}
				d := 0.0
				if c.Chance("sleeps", 35) {
					d = tk.Pick(c, "sleep", 0.05, 0.3, 0.7, 1.2)
					if slept+d > 2.5 {
						d = 0
					}
					slept += d
				}
				it.fails = c.Chance("fails", 20)
				x := 0
				if it.fails {
					x = 2
				}
				s := tk.Script{EnvPref: "t.", Exit: x, Body: fmt.Sprintf("mark=$EPOCHREALTIME; vlog b; sleep %v; mark=$EPOCHREALTIME; vlog e", d)}
				b.Mod(it.name, s, meta)
				return it
			}
			var seq []*tmItem
			var ws []string
			for i := c.Int("len", 2, 6); i > 0; i-- {
				it := item(0)
				seq = append(seq, it)
				ws = append(ws, it.words())
			}
			b.Mod("vlast", tk.Script{EnvPref: "t.", Body: "mark=$EPOCHREALTIME; vlog b; mark=$EPOCHREALTIME; vlog e"}, "")
			seq = append(seq, &tmItem{kind: "script", name: "vlast"})
			ws = append(ws, "vlast")
			c.Desc("%s", strings.Join(ws, " : "))
			now := func() float64 { return float64(time.Now().UnixNano()) / 1e9 }
			m := &tmRun{c: c, env: map[string]tmBounds{}}
			t0 := now()
			r := b.RunOpt(tk.Opt{Timeout: 60 * time.Second}, strings.Fields(strings.Join(ws, " : "))...)
			t1 := now()
			m.at = []float64{t0}
			for _, k := range r.Calls {
				if k.Mark == "" {
					continue
				}
				f, err := strconv.ParseFloat(k.Mark, 64)
				if err != nil {
					tk.Infra("no time: %q", k.Mark)
				}
				if f < m.at[len(m.at)-1] || f > t1 {
					c.Label("clock set back")
					return
				}
				m.at = append(m.at, f)
				m.calls = append(m.calls, k)
			}
			m.at = append(m.at, t1)
			ok := true
			for _, it := range seq {
				if ok = m.run(it); !ok {
					break
				}
			}
			c.Check(m.i == len(m.calls), "%d events, expected %d", len(m.calls), m.i)
			c.Check((r.Code == 0) == ok, "exits with %d, expected success to be %v: %q", r.Code, ok, clipVal(r.All()))
			c.NonTrivial(m.seen >= 3 && slept > 0)
		})
}
