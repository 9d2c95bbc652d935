package props

import (
	"fmt"
	"strings"
	"testing"

	"vharness/tk"
)

// exchange is one module's traffic with the session.
type exchange struct {
	lines []KV
	noEOL bool
	lang  string
}

// pyScript is a python module with the same log format as the bash ones.
func pyScript(name, prefs string, lines []KV, noEOL bool) string {
	var s strings.Builder
	s.WriteString("import os,sys\nsess=sys.argv[1]\nargs=sys.argv[2:]\np=sess+'/env'\n")
	fmt.Fprintf(&s, "prefs=%q.split('|')\n", prefs)
	s.WriteString("envl=[l for l in open(p,'rb').read().split(b'\\n') if any(l.startswith(x.encode()) for x in prefs)]\n")
	fmt.Fprintf(&s, "rec=[b'C',b%q,str(len(args)).encode()]+[os.fsencode(a) for a in args]+[str(len(envl)).encode()]+envl+[b'',b'E']\n", name)
	s.WriteString("f=open(os.environ['VLOG'],'ab',0)\nf.write(b''.join(x+b'\\0' for x in rec))\nf.close()\n")
	s.WriteString("f=open(p,'ab')\n")
	for i, l := range lines {
		eol := "\\n"
		if noEOL && i == len(lines)-1 {
			eol = ""
		}
		fmt.Fprintf(&s, "f.write(bytes.fromhex('%x')+b'%s')\n", l.K+"="+l.V, eol)
	}
	s.WriteString("f.close()\n")
	return s.String()
}

const c07Keys = "k|Key|x.y"

func (e exchange) write(b *tk.Box, name string) {
	if e.lang == "py" {
		b.File("mods/"+name+".py", pyScript(name, c07Keys, e.lines, e.noEOL))
		b.File("mods/"+name+".py.ticat", "help = "+name+"\n")
		return
	}
	s := tk.Script{Name: name, EnvPref: c07Keys}
	for i, l := range e.lines {
		if e.noEOL && i == len(e.lines)-1 {
			s.Body = fmt.Sprintf("printf '%%s' %s >> \"$sess/env\"", tk.Shq(l.K+"="+l.V))
		} else {
			s.Append = append(s.Append, l.K+"="+l.V)
		}
	}
	b.Mod(name, s, "")
}

func TestC07(t *testing.T) {
	tk.Prop(t, "chain", 900, 8,
		"sequences (with nested flows) of 2-9 bash and python modules that log the session file they are given and append 0-5 lines each: repeated keys, deletion marks before and after values, no final line break, any single-line text up to hundreds of kB, mixed with env.set, global braces and saved values; non-trivial when some module saw a value appended by an earlier one and some key was overwritten or deleted",
		func(c *tk.C) {
			b := c.NewBox()
			b.UseMods()
			env := map[string]string{}
			var saved []string
			keys := []string{"k", "k.a", "k-b.c", "Key", "x.y", "k é", "kk"}
			for _, k := range keys {
				if c.Chance("saved", 25) {
					v := AnyVal(c, "val")
					if len(v) > 5000 {
						v = v[:1]
					}
					saved = append(saved, k+"="+v)
					env[k] = v
				}
			}
			b.Saved(saved...)
			var words []string
			if c.Chance("glob", 30) {
				k, v := tk.Pick(c, "key", "k", "k.a", "Key"), GenVal(c, "val")
				words = append(words, "{", k+"="+escColon(v), "}")
				env[k] = v
				c.Desc("{%s=%q}", k, v)
			}
			var expect []string
			appended := map[string]bool{}
			saw, changed := false, false
			nm, nf := 0, 0
			mod := func() string {
				nm++
				name := fmt.Sprintf("vm%d", nm)
				e := exchange{lang: tk.Pick(c, "lang", "bash", "bash", "bash", "py")}
				cur := map[string]string{}
				for k, v := range env {
					cur[k] = v
					saw = saw || appended[k]
				}
				if len(cur) == 0 {
					cur = nil
				}
				expect = append(expect, tk.Call{Name: name, Args: []string{}, Env: cur}.String())
				var d []string
				for i := c.Int("lines", 0, 5); i > 0; i-- {
					k := tk.Pick(c, "key", keys...)
					if _, ok := env[k]; ok {
						changed = true
					}
					v := "--"
					if c.Chance("del", 20) {
						delete(env, k)
					} else {
						v = AnyVal(c, "val")
						if c.Chance("huge", 2) {
							v = strings.Repeat("long value = ", c.Int("huge.n", 4000, 9000)) + v
						}
						env[k] = v
						appended[k] = true
					}
					e.lines = append(e.lines, KV{k, v})
					d = append(d, clipVal(k+"="+v))
				}
				e.noEOL = len(e.lines) > 0 && c.Chance("noeol", 15)
				e.write(b, name)
				c.Desc("%s %s noeol=%v %q", name, e.lang, e.noEOL, d)
				return name
			}
			var seq func(depth, lo, hi int) []string
			seq = func(depth, lo, hi int) []string {
				var r []string
				for i := c.Int("len", lo, hi); i > 0; i-- {
					switch kind := c.Int("kind", 0, 9); {
					case kind == 0 && depth < 2:
						nf++
						name := fmt.Sprintf("vf%d", nf)
						c.Desc("%s {", name)
						sub := seq(depth+1, 1, 3)
						c.Desc("} %s", name)
						b.File("mods/"+name+".tiflow", "help = h\nflow = "+strings.Join(sub, " : ")+"\n")
						r = append(r, name)
					case kind == 1:
						k, v := tk.Pick(c, "key", "k", "k.a", "Key"), c.Str("set", "abc09_", 1, 5)
						env[k] = v
						c.Desc("env.set %s %s", k, v)
						r = append(r, "env.set key="+k+" value="+v)
					default:
						r = append(r, mod())
					}
				}
				return r
			}
			for i, s := range seq(0, 1, 6) {
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, strings.Fields(s)...)
			}
			words = append(words, ":", mod())
			c.NonTrivial(saw && changed)
			r := b.Run(words...)
			c.Check(r.Code == 0, "exits with %d", r.Code)
			got := tk.CallStrs(r.Calls)
			for i := range expect {
				if i >= len(got) || got[i] != expect[i] {
					g := "nothing"
					if i < len(got) {
						g = got[i]
					}
					c.Violate("module call %d saw\n %s\nexpected\n %s", i, clipVal2([]string{g}), clipVal2(expect[i:i+1]))
				}
			}
			c.Check(len(got) == len(expect), "%d module calls, expected %d", len(got), len(expect))
		})
}
