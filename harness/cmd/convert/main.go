// Driver for C06, C17, C18 and C19: conversions of texts into values, through
// controllers' arguments, configuration binding and parameter binding.
package main

import (
	"encoding/json"
	"time"

	"verif/h"
)

// texts enumerated by TLC, batch i of n
func batch(c *h.Ctx, i, size int) []string {
	var out []string
	for j := i * size; j < (i+1)*size && j < len(c.Scen); j++ {
		var m struct{ S string }
		if err := json.Unmarshal(c.Scen[j], &m); err != nil {
			panic(err)
		}
		out = append(out, m.S)
	}
	return out
}

const batchSize = 25

func batches(c *h.Ctx) int { return (len(c.Scen) + batchSize - 1) / batchSize }

func main() {
	time.Local = time.FixedZone("local", 12600) // LocalOffset of the specification
	h.Main(h.Area{
		N: func(c *h.Ctx) int {
			switch c.Prop {
			case "C06":
				return batches(c) + c.Pick(500, 6000)
			case "C17":
				return batches(c) + c.Pick(700, 8000)
			case "C18":
				return c.Pick(600, 6000)
			default:
				return batches(c) + c.Pick(800, 9000)
			}
		},
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			t.Src = "random"
			var ts []string
			if c.Prop != "C18" && i < batches(c) {
				t.Src = "tlc"
				ts = batch(c, i, batchSize)
			}
			switch c.Prop {
			case "C06":
				runCtl(c, t, ts)
			case "C17":
				runConf(c, t, ts)
			case "C18":
				runReq(c, t)
			default:
				runBind(c, t, ts)
			}
		},
	})
}
