package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

type argDecl struct {
	Name  string
	Abbrs []string
	Def   string
}

// genArgs draws 0..max declared arguments with distinct names and abbreviations.
func genArgs(c *tk.C, max int) []argDecl {
	n := c.Int("nargs", 0, max)
	var ds []argDecl
	words := c.Words("argname", "g", n*3)
	for i := 0; i < n; i++ {
		d := argDecl{Name: words[i*3]}
		d.Abbrs = words[i*3+1 : i*3+1+c.Int("nabbrs", 0, 2)]
		d.Def = tk.Pick(c, "def", "", "", "d1", "two words", "a=b", "x:y", "5", "-", "$HOME", "it's", "1.2.3", "d#e")
		ds = append(ds, d)
	}
	return ds
}

func argsMeta(ds []argDecl) string {
	if len(ds) == 0 {
		return ""
	}
	s := "[args]\n"
	for _, d := range ds {
		s += strings.Join(append([]string{d.Name}, d.Abbrs...), "|") + " = " + d.Def + "\n"
	}
	return s
}

func TestC03(t *testing.T) {
	tk.Prop(t, "forms", 1600, 8,
		"a module with 0-4 declared arguments (abbreviations, defaults) called with a random subset of values, written positionally, by name, by abbreviation, in braces, with blanks around the sign, in any order; every form must deliver the same argument vector; non-trivial with at least two arguments and one value given",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			ds := genArgs(c, 4)
			path := tk.Pick(c, "path", "vm", "vd.vm", "vd.vs.vm")
			if len(ds) > 1 && c.Chance("dotted", 25) {
				// An argument called as another one under the command's path
				i := c.Int("dotted-arg", 1, len(ds)-1)
				ds[i].Name = tk.Pick(c, "dotted-name", path+".", "vm.", "x.") + ds[tk.Pick(c, "dotted-of", 0, i-1)].Name
			}
			b.Mod(path, tk.Script{}, "help = h\n"+argsMeta(ds))
			b.Mod("vother", tk.Script{}, "")
			given := map[int]string{}
			prefix := c.Bool("prefix") // the given ones are the first ones
			k := c.Int("given", 0, len(ds))
			perm := c.Perm("which", len(ds))
			for i := 0; i < k; i++ {
				j := perm[i]
				if prefix {
					j = i
				}
				given[j] = Plain(GenVal(c, "val"))
			}
			if k == len(ds) {
				prefix = true
			}
			want := []string{}
			for i, d := range ds {
				if v, ok := given[i]; ok {
					want = append(want, v)
				} else {
					want = append(want, d.Def)
				}
			}
			c.Desc("%s args %v given %v", path, ds, given)
			c.NonTrivial(len(ds) > 1 && k > 0)
			forms := [][]string{}
			for f := 0; f < 3; f++ {
				words := strings.Fields(path)
				style := c.Int("style", 0, 2)
				if style == 0 && prefix {
					for i := 0; i < k; i++ {
						words = append(words, escColon(given[i]))
					}
				} else {
					order := c.Perm("order", len(ds))
					ts := []token{}
					for _, i := range order {
						v, ok := given[i]
						if !ok {
							continue
						}
						names := append([]string{ds[i].Name}, ds[i].Abbrs...)
						ts = append(ts, kvTokens([]KV{{tk.Pick(c, "name", names...), v}})...)
					}
					if style == 1 && len(ts) > 0 {
						ts = append(append([]token{sym("{")}, ts...), sym("}"))
					}
					words = append(words, joinTokens(c, ts, c.Bool("vary"))...)
				}
				forms = append(forms, words)
			}
			for _, words := range forms {
				r := b.Run(words...)
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				c.Check(len(r.Calls) == 1 && r.Calls[0].Name == path && tk.Eq(r.Calls[0].Args, want),
					"%q invoked %q, expected %s with %q", words, tk.CallStrs(r.Calls), path, want)
			}
		})
	tk.Prop(t, "reject", 900, 8,
		"a sequence with one call that names an undeclared argument, mixes in a misspelt one or gives more values than declared: nothing may run and the exit status must be nonzero; non-trivial when another command stands before the bad call",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			ds := genArgs(c, 3)
			b.Mod("vm", tk.Script{}, "help = h\n"+argsMeta(ds))
			b.Mod("vok", tk.Script{}, "")
			bad := []string{"vm"}
			kind := c.Int("kind", 0, 3)
			switch {
			case kind == 0:
				for i := 0; i <= len(ds)+c.Int("more", 0, 2); i++ {
					bad = append(bad, fmt.Sprintf("v%d", i))
				}
			case kind == 1:
				bad = append(bad, "nosucharg=5")
			case kind == 2 && len(ds) > 0:
				d := tk.Pick(c, "arg", ds...)
				n := tk.Pick(c, "typo", d.Name+"z", d.Name[:len(d.Name)-1]+"-", strings.ToUpper(d.Name), "x"+d.Name)
				for _, o := range ds {
					for n == o.Name || contains(o.Abbrs, n) {
						n += "-"
					}
				}
				bad = append(bad, d.Name+"=1", n+"=2")
			default:
				bad = append(bad, "{nosucharg=5}")
			}
			var words []string
			n := c.Int("before", 0, 2)
			for i := 0; i < n; i++ {
				words = append(words, "vok", ":")
			}
			words = append(words, bad...)
			if c.Bool("after") {
				words = append(words, ":", "vok")
			}
			c.Desc("args %v: %q", ds, words)
			c.NonTrivial(n > 0)
			r := b.Run(words...)
			c.Check(len(r.Calls) == 0, "%q ran %q although a call has arguments the command does not declare", words, tk.CallStrs(r.Calls))
			c.Check(r.Code != 0, "%q was not rejected", words)
		})
}
