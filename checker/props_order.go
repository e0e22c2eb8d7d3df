package main

import (
	"fmt"
	"sort"
)

func init() {
	register(&Check{id: "V04", minObs: 10,
		rule:   "order taint over the SSA form of every function of the repository: each loop over a map is reduced to the ways in which its visiting order could survive it (carried values, stores, writes, early exits, lists that are not sorted afterwards)",
		assume: []string{"which of several errors is reported may differ", "a comparison by one field orders the list completely"},
		run: func(c *Ctx) {
			o := newOrderLint(c.w)
			o.run()
			bad := map[string]bool{}
			var keys []string
			for k := range o.issues {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				is := o.issues[k]
				where := c.w.posn(is.pos) + " (" + shortType(is.fn.String()) + ")"
				c.ob("order "+where, false, where, is.what)
				bad[where] = true
			}
			sort.Strings(o.checked)
			for _, p := range o.checked {
				c.ob("loop "+p, true, p, "")
			}
			c.notes = append(c.notes, fmt.Sprintf("%d functions, %d loops over maps, %d lists of unspecified order followed", len(o.fns), o.loops, o.roots))
			for _, f := range o.fns {
				c.extraFns[f.String()] = true
			}
		}})
}
