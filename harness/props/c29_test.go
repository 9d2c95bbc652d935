package props

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"vharness/tk"
)

func TestC29(t *testing.T) {
	tk.Prop(t, "combinations", 900, 10,
		"1-4 join definitions over the arguments of a command (script, dotted path, abbreviation, flow), each a list of 1-6 awkward values or a range of integers or decimals with or without step (negative, at the ends of the integers), as positional or named words, argument names also abbreviated, in one or two runs of a join, alone or in a flow, between other commands; some definitions invalid (empty, decreasing, zero or negative step, no numbers, too big), some invocations failing; every combination must be run once in the modelled order and nothing else, an invalid one refused, a failure must stop the rest; non-trivial with 2 or more definitions of 2 or more values",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			names := []string{"alpha", "be", "c", "x-1"}
			meta := "abbr = vab\n[args]\n"
			for i, n := range names {
				meta += fmt.Sprintf("%s|%c0 = d%d\n", n, 'p'+i, i)
			}
			path := tk.Pick(c, "path", "vj", "vj.sub", "va.b.c")
			b.Mod(path, tk.Script{Name: "target", Count: true}, meta)
			b.Mod("vlog", tk.Script{}, "[args]\na = 0\n")
			b.Flow("vjf", "flow = vlog a=in : "+path+" alpha=[[alpha]] be=[[be]] c=[[c]] x-1=[[x-1]]\n[args]\nalpha|p0 = d0\nbe|q0 = d1\nc|r0 = d2\nx-1|s0 = d3\n")
			asFlow := c.Chance("target-flow", 15)
			target := path
			if asFlow {
				target = "vjf"
			} else if c.Chance("abbr", 20) {
				target = path[:strings.LastIndex(path, ".")+1] + "vab"
			}
			type def struct {
				key  int
				vals []string
			}
			var defs []def
			budget := 40
			keys := c.Perm("keys", len(names))
			bad := false
			var words []string
			inflow := c.Chance("in-flow", 15)
			// newJoin adds a definition.
			newJoin := func(key int) {
				var vals []string
				text := ""
				safe := asFlow || inflow
				kind := tk.Pick(c, "kind", "list", "list", "list", "range", "range", "step", "decimals", "bad")
				if kind == "bad" && (bad || !c.Chance("really", 50)) {
					kind = "range"
				}
				switch kind {
				case "list":
					n := c.Int("values", 1, min(6, budget))
					for i := 0; i < n; i++ {
						v := fmt.Sprint(i)
						if !safe && c.Chance("awkward", 60) {
							v = strings.ReplaceAll(strings.ReplaceAll(GenVal(c, "val"), ",", ";"), "[[", "[")
							v = strings.TrimLeft(strings.ReplaceAll(v, "{", "("), ".^")
							v = strings.TrimSpace(strings.TrimRight(v, "\\"))
							if v == "" || v[0] == '[' || v == "--" {
								v = "v"
							}
						}
						if !safe && n > 1 && i > 0 && c.Chance("empty", 4) {
							v = ""
						}
						vals = append(vals, v)
					}
					text = strings.Join(vals, ",")
					if !safe && c.Chance("blanks", 15) {
						text = strings.Join(vals, ", ")
					}
				case "range", "step":
					n := c.Int("values", 1, min(6, budget))
					step := 1
					if kind == "step" {
						step = tk.Pick(c, "step", 1, 2, 3, 10)
					}
					start := tk.Pick(c, "start", 0, 1, -3, 7, 100, -1)
					if kind == "step" && c.Chance("edge", 15) {
						start = int(^uint(0)>>1) - (n-1)*step - c.Int("below", 0, step-1)
					} else if step == 1 && c.Chance("edge", 5) {
						start = int(^uint(0)>>1) - (n - 1)
					}
					for i := 0; i < n; i++ {
						vals = append(vals, strconv.Itoa(start+i*step))
					}
					end := start + (n-1)*step
					if slack := c.Int("slack", 0, step-1); end+slack > end {
						end += slack
					}
					text = fmt.Sprintf("[%d,%d]", start, end)
					if kind == "step" || c.Chance("with-step", 20) {
						text = fmt.Sprintf("[%d,%d,%d]", start, end, step)
					}
					if c.Chance("blanks", 20) {
						text = strings.ReplaceAll(text, ",", ", ")
					}
				case "decimals":
					// in hundredths
					n := c.Int("values", 1, min(6, budget))
					step := tk.Pick(c, "step", 10, 25, 1, 30, 100, 150)
					start := tk.Pick(c, "start", 0, 10, 70, -30, 100, 115)
					num := func(x int) string {
						s := fmt.Sprintf("%d.%02d", abs(x)/100, abs(x)%100)
						if x < 0 {
							s = "-" + s
						}
						return s
					}
					for i := 0; i < n; i++ {
						vals = append(vals, num(start+i*step)+"0000")
					}
					end := start + (n-1)*step + tk.Pick(c, "slack", 0, 0, (step-1)/2)
					text = fmt.Sprintf("[%s,%s,%s]", num(start), num(end), num(step))
					if step == 100 && c.Bool("no-step") {
						text = fmt.Sprintf("[%s,%s]", num(start), num(end))
					}
				case "bad":
					bad = true
					text = tk.Pick(c, "badtext", "[3,1]", "[1,5,0]", "[1,5,-1]", "[a,b]", "[,]", "[1,]", "[1,x]", "[1,2,]", "[0,9223372036854775807]", "[0.5,1.5,0.0]", "[1.5,0.5]", "[0.1,x,0.1]", "[-9223372036854775808,9223372036854775807,1]", "[1,99999999999999999999]")
				}
				defs = append(defs, def{key, vals})
				if len(vals) > 0 {
					budget /= len(vals)
				}
				k := names[key]
				if c.Chance("key-abbr", 20) {
					k = fmt.Sprintf("%c0", 'p'+key)
				}
				if len(words) > 0 {
					words = append(words, ":")
				}
				if strings.Contains(text, "=") || c.Bool("named") {
					words = append(words, tk.Pick(c, "newname", "join.new", "join.add", "join.arg"), "key="+k, tk.Pick(c, "valname", "value=", "val=")+escColon(text))
				} else {
					words = append(words, "join.new", k, escColon(text))
				}
			}
			var expect []string
			failed := false
			fail := 0
			if c.Chance("fail", 20) {
				fail = c.Int("failat", 1, 8)
				b.FailAt(fail, "exit 3")
			}
			count := 0
			log := func(v string) {
				if !failed {
					expect = append(expect, tk.Call{Name: "vlog", Args: []string{v}}.String())
				}
			}
			run := func() {
				words = append(words, ":")
				if c.Bool("run-named") {
					words = append(words, "join.run", "cmd="+target)
				} else {
					words = append(words, "join.run", target)
				}
				failed = failed || bad
				idx := make([]int, len(defs))
				for !failed {
					args := []string{"d0", "d1", "d2", "d3"}
					for i, d := range defs {
						args[d.key] = d.vals[idx[i]]
					}
					if asFlow {
						log("in")
					}
					expect = append(expect, tk.Call{Name: "target", Args: args}.String())
					count++
					if count == fail {
						failed = true
					}
					i := len(idx) - 1
					for ; i >= 0; i-- {
						if idx[i]++; idx[i] < len(defs[i].vals) {
							break
						}
						idx[i] = 0
					}
					if i < 0 {
						break
					}
				}
			}
			pre := c.Chance("before", 30)
			if pre {
				words = append(words, "vlog", "a=before")
				log("before")
			}
			n := c.Int("defs", 1, 4)
			split := 0
			if n > 1 && c.Chance("two-runs", 25) {
				split = c.Int("split", 1, n-1)
			}
			for i := 0; i < n; i++ {
				newJoin(keys[i])
				if i+1 == split {
					run()
				}
			}
			run()
			if c.Chance("after", 50) {
				words = append(words, ":", "vlog", "a=after")
				log("after")
			}
			if inflow {
				var seg []string
				for _, w := range words {
					seg = append(seg, flowQuote(w))
				}
				b.Flow("vall", "flow = "+strings.Join(seg, " ")+"\n")
				c.Desc("flow vall = %s", strings.Join(seg, " "))
				words = []string{"vall"}
			}
			c.Desc("%q fail at %d", words, fail)
			r := b.RunOpt(tk.Opt{Timeout: 30 * time.Second}, words...)
			got := tk.CallStrs(r.Calls)
			c.Check((r.Code == 0) == !failed, "exits with %d, expected success to be %v", r.Code, !failed)
			c.Check(tk.Eq(got, expect), "ran\n %s\nexpected\n %s", clipVal2(got), clipVal2(expect))
			c.Check(!bad || tk.RuntimeCrash(r) == "", "crashed: %s", tk.RuntimeCrash(r))
			big := 0
			for _, d := range defs {
				if len(d.vals) > 1 {
					big++
				}
			}
			if bad {
				c.Label("invalid")
			}
			if fail > 0 && count >= fail {
				c.Label("failing")
			}
			c.NonTrivial(big > 1)
		})
	tk.Prop(t, "nothing", 40, 5,
		"running a join without a definition, without a command, with an unknown command, or defining one without key or value; all must be refused and run nothing; non-trivial always",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			b.Quiet()
			b.Mod("vlog", tk.Script{}, "[args]\na = 0\n")
			words := [][]string{{"join.run", "vlog"}, {"join.new", "a", "1,2", ":", "join.run"}, {"join.new", "a", "1,2", ":", "join.run", "nosuch"},
				{"join.new", ":", "join.run", "vlog"}, {"join.new", "key=a", ":", "join.run", "vlog"}, {"join.new", "value=1", ":", "join.run", "vlog"}}
			w := tk.Pick(c, "words", words...)
			if c.Bool("more") {
				w = append(append([]string{}, w...), ":", "vlog", "a=after")
			}
			c.Desc("%q", w)
			r := b.Run(w...)
			c.Check(r.Code != 0 && len(r.Calls) == 0, "%q exits with %d and runs %q", w, r.Code, tk.CallStrs(r.Calls))
			c.NonTrivial(true)
		})
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
