package props

import (
	"testing"

	"vharness/tk"
)

func TestC35(t *testing.T) {
	tk.Prop(t, "programs", 900, 8,
		"random programs as for C30 in which modules call ticat again in the session they were given, nested up to 3 levels, with the called sequences changing, deleting and mapping values by scripts and builtins, failing with and without tolerance, in flows with own values and in forest mode, and the modules passing or ignoring the failure; the calls with their arguments and the environment each one sees, the failure status the calling module gets and the exit status must be the modelled ones, with one session; non-trivial when an inner call changes the environment or fails",
		func(c *tk.C) {
			p := progCase(c, 40)
			c.NonTrivial(p.Stat["inner-changes"]+p.Stat["inner-failed"] > 0)
		})
}
