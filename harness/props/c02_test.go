package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// genDecls makes modules with 0-3 arguments at paths of depth 1-3.
func genDecls(c *tk.C, b *tk.Box, n int) ([]ModDecl, map[string]ModDecl) {
	var list []ModDecl
	m := map[string]ModDecl{}
	for i := 0; i < n; i++ {
		d := ModDecl{}
		for j := 0; j < c.Int("depth", 0, 2); j++ {
			d.Path = append(d.Path, fmt.Sprintf("vd%d", j))
		}
		d.Path = append(d.Path, fmt.Sprintf("vm%d", i))
		meta := "help = h\n"
		na := c.Int("nargs", 0, 3)
		if na > 0 {
			meta += "[args]\n"
		}
		for j := 0; j < na; j++ {
			kv := KV{fmt.Sprintf("arg%d", j), tk.Pick(c, "def", "", "d"+fmt.Sprint(j), "x y", "1.5")}
			d.Args = append(d.Args, kv)
			meta += kv.K + " = " + kv.V + "\n"
		}
		path := strings.Join(d.Path, ".")
		b.Mod(path, tk.Script{Name: path, EnvPref: "k."}, meta)
		list = append(list, d)
		m[path] = d
	}
	return list, m
}

func genKVs(c *tk.C, label string, keys []string, max int) []KV {
	var r []KV
	n := c.Int(label+".n", 0, max)
	p := c.Perm(label+".p", len(keys))
	for i := 0; i < n && i < len(keys); i++ {
		r = append(r, KV{keys[p[i]], GenVal(c, label)})
	}
	return r
}

func genLine(c *tk.C, decls []ModDecl, maxCmds int) Line {
	l := Line{}
	keys := []string{"k.a", "k.b", "k.c.d"}
	l.Global = genKVs(c, "global", keys, 2)
	for i, n := 0, c.Int("cmds", 1, maxCmds); i < n; i++ {
		if c.Chance("probe", 30) {
			k := probe(tk.Pick(c, "key", keys...), genKVs(c, "env", keys, 2))
			k.Brace = c.Bool("brace")
			if c.Chance("pos", 30) {
				k.Pos = []string{k.Probe}
			}
			l.Cmds = append(l.Cmds, k)
			continue
		}
		d := tk.Pick(c, "cmd", decls...)
		k := LCmd{Path: d.Path, Env: genKVs(c, "env", keys, 2)}
		if len(d.Args) > 0 {
			names := []string{}
			for _, a := range d.Args {
				names = append(names, a.K)
			}
			switch c.Int("argstyle", 0, 2) {
			case 0:
				k.Args = genKVs(c, "arg", names, len(names))
			case 1:
				k.Args = genKVs(c, "arg", names, len(names))
				k.Brace = true
			case 2:
				for j, m := 0, c.Int("npos", 0, len(names)); j < m; j++ {
					k.Pos = append(k.Pos, Plain(GenVal(c, "pos")))
				}
			}
		}
		l.Cmds = append(l.Cmds, k)
	}
	return l
}

func TestC02(t *testing.T) {
	tk.Prop(t, "layout", 2400, 8,
		"an abstract line (leading settings, 1-4 commands with own settings and named, braced or positional arguments, values with escaped colons, addresses, inner spaces, signs) written canonically and in one random layout (word division around : { } = . and the path separator, blanks, redundant separators); both must invoke exactly what the model says; non-trivial when there are two commands, or settings, and at least one argument",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			list, decls := genDecls(c, b, c.Int("nmods", 1, 3))
			l := genLine(c, list, 4)
			b.Quiet()
			want, printed := l.Expect(decls, nil)
			plain := joinTokens(c, l.Tokens(c, false), false)
			varied := joinTokens(c, l.Tokens(c, true), true)
			c.Desc("%s", l)
			c.Desc("%q", plain)
			c.Desc("%q", varied)
			nargs := 0
			for _, k := range l.Cmds {
				nargs += len(k.Args) + len(k.Pos)
			}
			c.NonTrivial(nargs > 0 && (len(l.Cmds) > 1 || len(l.Global) > 0))
			for _, words := range [][]string{plain, varied} {
				r := b.Run(words...)
				got := tk.CallStrs(r.Calls)
				c.Check(r.Out == lines(printed), "%q printed %q, expected %q", words, r.Out, lines(printed))
				c.Check(r.Code == 0, "%q exits with %d", words, r.Code)
				c.Check(tk.Eq(got, want), "%q invoked\n %s\nexpected\n %s", words, strings.Join(got, "\n "), strings.Join(want, "\n "))
			}
		})
}
