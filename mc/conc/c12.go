package conc

import (
	"fmt"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"

	"github.com/tychoish/birch/types"
)

var c12 = &engine.Property{
	ID: "C12", Level: "exhaustive",
	Families: func(tier string) []engine.Family {
		type cfg struct{ threads, each, pre int }
		cs := []cfg{{2, 3, 4}, {3, 2, 3}, {4, 1, 4}}
		if tier == "thorough" {
			cs = []cfg{{2, 4, 8}, {3, 3, 4}, {4, 2, 4}, {5, 1, 5}}
		}
		var out []engine.Family
		for _, k := range cs {
			out = append(out, engine.Family{
				Name:   fmt.Sprintf("ids-%dx%d", k.threads, k.each),
				Bounds: fmt.Sprintf("%d callers, %d ids each, up to %d preemptions, clock stepping by a second between operations", k.threads, k.each, k.pre),
				Rule:   "at least one preemption",
				Run: func(c *engine.Chooser) {
					explore(c, k.pre, func(x *mcrt.Exec) {
						x.Tick, x.Ticks = time.Second, 1
						ids := make([][]types.ObjectID, k.threads)
						lo := make([][]int64, k.threads)
						hi := make([][]int64, k.threads)
						for i := range k.threads {
							x.Go(fmt.Sprintf("caller%d", i), func() {
								for range k.each {
									lo[i] = append(lo[i], time.Now().Unix())
									id := types.NewObjectID()
									hi[i] = append(hi[i], time.Now().Unix())
									ids[i] = append(ids[i], id)
									mcrt.Yield()
								}
							})
						}
						finish(c, x)
						seen := map[types.ObjectID]bool{}
						for i := range ids {
							var last types.ObjectID
							for j, id := range ids[i] {
								if seen[id] {
									c.Fail("id %s was generated twice", id.Hex())
								}
								seen[id] = true
								s := int64(uint32(id[0])<<24 | uint32(id[1])<<16 | uint32(id[2])<<8 | uint32(id[3]))
								if s < lo[i][j] || s > hi[i][j] {
									c.Fail("id %s carries time %d, generated between %d and %d", id.Hex(), s, lo[i][j], hi[i][j])
								}
								if j > 0 && string(last[4:9]) != string(id[4:9]) {
									c.Fail("process part changed: %x, %x", last, id)
								}
								if j > 0 && string(last[:4]) == string(id[:4]) {
									if d := (counterOf(id) - counterOf(last)) & 0xffffff; d == 0 || d >= 1<<23 {
										c.Fail("one caller got %s and then %s within a second: not increasing", last.Hex(), id.Hex())
									}
								}
								last = id
							}
						}
					})
				},
			})
		}
		out = append(out, engine.Family{
			Name: "period", Serial: true,
			Bounds: "2^24 consecutive ids of one caller (every counter value, including the wrap)",
			Rule:   "always",
			Run: func(c *engine.Chooser) {
				c.NonTrivial()
				seen := make([]uint64, 1<<24/64)
				var last types.ObjectID
				wraps := 0
				for i := range 1 << 24 {
					id := types.NewObjectID()
					n := counterOf(id)
					if seen[n/64]&(1<<(n%64)) != 0 {
						c.Fail("counter value %06x came up again after %d ids", n, i)
					}
					seen[n/64] |= 1 << (n % 64)
					if i > 0 {
						if string(last[4:9]) != string(id[4:9]) {
							c.Fail("process part changed: %x, %x", last, id)
						}
						if n < counterOf(last) {
							wraps++
						}
					}
					last = id
				}
				if wraps > 1 {
					c.Fail("the counter went down %d times within one period", wraps)
				}
				c.Steps(1 << 24)
			},
		})
		return out
	},
}

func counterOf(id types.ObjectID) uint32 {
	return uint32(id[9])<<16 | uint32(id[10])<<8 | uint32(id[11])
}
