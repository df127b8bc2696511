// Driver for C20, C21 and C22: signed values, sessions and remember-me
// cookies, on a virtual clock.
package main

import (
	"verif/backs"
	"verif/h"
)

func main() {
	var w *backs.World
	h.Main(h.Area{
		N: func(c *h.Ctx) int {
			switch c.Prop {
			case "C20":
				return c.Pick(700, 20000)
			case "C22":
				return len(c.Scen) + c.Pick(500, 15000)
			}
			w = backs.New()
			return 3*len(c.Scen) + c.Pick(500, 12000)
		},
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			switch c.Prop {
			case "C20":
				signed(c, i, t)
			case "C22":
				remember(c, i, t)
			default:
				sessionScenario(c, i, t, w)
			}
		},
	})
}
