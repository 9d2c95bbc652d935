package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"vharness/tk"
)

// gOp is one operation of a history of settings and guards.
type gOp struct {
	kind string // glob, set, add, update, rm, append, save, eq, absent, log, flow
	k, v string
	arg  bool     // the value is given as argument of the flow around it
	name string   // of a module or flow
	sub  []*gOp   // flow
	def  string   // default of the argument of a flow
	give string   // given value of it, "" for none
	ws   []string // words
}

type gRun struct {
	env, file map[string]string
	calls     []string
	pass      int // guards that held
	bad       int
}

func (r *gRun) log(name string) {
	env := map[string]string{}
	for k, v := range r.env {
		env[k] = v
	}
	if len(env) == 0 {
		env = nil
	}
	r.calls = append(r.calls, tk.Call{Name: name, Args: []string{}, Env: env}.String())
}

func (r *gRun) run(ops []*gOp, arg string) bool {
	for _, o := range ops {
		v := o.v
		if o.arg {
			v = arg
		}
		cur, has := r.env[o.k]
		ok := true
		switch o.kind {
		case "set":
			r.env[o.k] = v
		case "add":
			if ok = !has; ok {
				r.env[o.k] = v
			}
		case "update":
			if ok = has; ok {
				r.env[o.k] = v
			}
		case "eq":
			ok = cur == v
		case "absent":
			ok = !has
		case "rm":
			delete(r.env, o.k)
		case "append":
			r.calls = append(r.calls, o.name+"()")
			r.env[o.k] = v
		case "save":
			r.file = map[string]string{}
			for k, v := range r.env {
				r.file[k] = v
			}
		case "log":
			r.log("vlog")
		case "flow":
			a := o.def
			if o.give != "" {
				a = o.give
			}
			if !r.run(o.sub, a) {
				return false
			}
		}
		guard := o.kind == "add" || o.kind == "update" || o.kind == "eq" || o.kind == "absent"
		if !ok {
			r.bad++
			return false
		}
		if guard {
			r.pass++
		}
	}
	return true
}

func TestC38(t *testing.T) {
	tk.Prop(t, "guards", 800, 10,
		"histories of 2-4 runs of 3-9 operations: guards (env.assert.equal, env.assert.not-exists, env.add, env.update; mostly made to hold, by values equal or nearly equal to the current ones), settings by env.set and modules, deletions, env.save, and a module logging the environment after most of them; some wrapped in flows up to 2 levels deep, with guarded values given as argument of the flow; the exit status, every invocation with the environment it saw and the environment of later runs are compared with a model that stops at the first guard that does not hold; non-trivial when at least two guards held and one failed with something after it",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			keys := []string{"g.a", "g.a.b", "g", "gg"}
			vals := []string{"1", "01", "1.0", "a", "A", "a b", "a  b", "x=y", "http://h/p", "true", "on", "-", "a,b", "''"}
			b.Mod("vlog", tk.Script{EnvPref: "g"}, "")
			b.Quiet()
			file := map[string]string{}
			nm, held, failed := 0, 0, 0
			runs := c.Int("runs", 2, 4)
			for i := 0; i < runs; i++ {
				r := &gRun{env: map[string]string{}, file: nil}
				for k, v := range file {
					r.env[k] = v
				}
				// the state seen while generating, to have most guards hold
				sim := &gRun{env: map[string]string{}}
				for k, v := range file {
					sim.env[k] = v
				}
				stopped := false
				var gen func(n, depth int, inFlow bool, arg string) []*gOp
				gen = func(n, depth int, inFlow bool, arg string) (ops []*gOp) {
					for ; n > 0; n-- {
						o := &gOp{k: tk.Pick(c, "key", keys...), v: tk.Pick(c, "val", vals...)}
						cur, has := sim.env[o.k]
						hold := c.Chance("hold", 85)
						o.kind = tk.Pick(c, "op", "set", "add", "update", "eq", "absent", "eq", "rm", "append", "save", "flow", "add", "update")
						if o.kind == "flow" && depth == 0 {
							o.kind = "set"
						}
						switch {
						case o.kind == "add" && has == hold:
							o.kind = "update"
						case o.kind == "update" && has != hold:
							o.kind = "add"
						case o.kind == "absent" && hold && has:
							o.kind, o.v = "eq", cur
						case o.kind == "eq" && hold && has:
							o.v = cur
						case o.kind == "eq" && !has:
							// the value of a missing key is unspecified
							o.kind = "absent"
						}
						if inFlow && o.kind != "append" && c.Chance("arg", 25) && arg != "" && (o.kind != "eq" || cur == arg || !hold) {
							o.arg, o.v = true, "[[varg]]"
						}
						switch o.kind {
						case "append":
							nm++
							o.name = fmt.Sprintf("vset%d", nm)
							b.Mod(o.name, tk.Script{Append: []string{o.k + "=" + o.v}}, "")
							o.ws = []string{o.name}
						case "flow":
							nm++
							o.name = fmt.Sprintf("vflow%d", nm)
							o.def = tk.Pick(c, "def", vals[:10]...)
							o.ws = []string{o.name}
							if c.Bool("give") {
								o.give = tk.Pick(c, "given", vals[:10]...)
								o.ws = append(o.ws, "varg="+escColon(o.give))
							}
							a := o.def
							if o.give != "" {
								a = o.give
							}
							o.sub = gen(c.Int("sub", 1, 4), depth-1, true, a)
							var r []string
							for _, w := range gWords(o.sub) {
								if strings.Contains(w, "[[") {
									r = append(r, "'"+w+"'") // text to be put in place, may have blanks
								} else {
									r = append(r, pQuote(w))
								}
							}
							b.Flow(o.name, "flow = "+strings.Join(r, " ")+"\n[args]\nvarg = "+o.def+"\n")
						case "set", "add", "update", "eq":
							cmd := map[string]string{"set": "env.set", "add": "env.add", "update": "env.update", "eq": "env.assert.equal"}[o.kind]
							o.ws = []string{cmd, "key=" + o.k, "value=" + escColon(o.v)}
						case "absent":
							o.ws = []string{"env.assert.not-exists", "key=" + o.k}
						case "rm":
							o.ws = []string{"env.rm", "key=" + o.k}
						case "save":
							o.ws = []string{"env.save"}
						}
						if o.kind != "flow" && !stopped {
							stopped = !sim.run([]*gOp{o}, arg)
						}
						ops = append(ops, o)
						if o.kind != "flow" && c.Chance("look", 60) {
							l := &gOp{kind: "log", ws: []string{"vlog"}}
							ops = append(ops, l)
						}
					}
					return
				}
				ops := gen(c.Int("ops", 3, 9), 2, false, "")
				ops = append(ops, &gOp{kind: "log", ws: []string{"vlog"}})
				c.Desc("run %d: %s", i+1, gStr(ops))
				ok := r.run(ops, "")
				res := b.Run(gWords(ops)...)
				c.Check((res.Code == 0) == ok, "run %d exits with %d, all guards hold: %v\n%s", i+1, res.Code, ok, res.All())
				got := tk.CallStrs(res.Calls)
				c.Check(tk.Eq(got, r.calls), "run %d invoked\n %s\nexpected\n %s", i+1, strings.Join(got, "\n "), strings.Join(r.calls, "\n "))
				if r.file != nil {
					file = r.file
				}
				held += r.pass
				if !ok {
					failed++
				}
			}
			var saved []string
			for _, k := range keys {
				v, has := file[k]
				if has {
					saved = append(saved, k)
					c.Check(b.EnvVal(k) == v, "%s is saved as %q, expected %q", k, b.EnvVal(k), v)
				}
			}
			sort.Strings(saved)
			c.NonTrivial(held >= 2 && failed >= 1)
		})
}

func gWords(ops []*gOp) (r []string) {
	for i, o := range ops {
		if i > 0 {
			r = append(r, ":")
		}
		r = append(r, o.ws...)
	}
	return
}

func gStr(ops []*gOp) string {
	var r []string
	for _, o := range ops {
		s := strings.Join(o.ws, " ")
		if o.kind == "flow" {
			s += fmt.Sprintf("(varg=%q: %s)", o.def, gStr(o.sub))
		} else if o.kind == "append" {
			s += fmt.Sprintf("(%s=%q)", o.k, o.v)
		}
		r = append(r, s)
	}
	return strings.Join(r, " : ")
}
