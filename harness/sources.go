package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"time"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
)

// limbs of 16 bits, the lowest first
func word(x uint64) []int {
	return []int{int(x & 0xffff), int(x >> 16 & 0xffff), int(x >> 32 & 0xffff), int(x >> 48)}
}

func (g *Gen) seed() int64 {
	switch g.Intn(6) {
	case 0:
		return int64(g.Intn(5)) - 2
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, 1 << 32, 1 << 31, -1 << 31, 5489, 1<<62 + 1, math.MinInt64 + 1, 1 << 16, 0xffff}[g.Intn(10)]
	case 2:
		return int64(g.Intn(100000))
	}
	return int64(g.Uint64())
}

func (g *Gen) anyFaces() int {
	switch g.Intn(10) {
	case 0:
		return 1
	case 1:
		return 1 << uint(g.Intn(31))
	case 2:
		return 1<<30 + 1 + g.Intn(1000)
	case 3:
		return math.MaxInt32 - g.Intn(3)
	case 4:
		return []int{100, 1000, 3, 7, 2}[g.Intn(5)]
	case 5:
		if g.p(30) {
			return []int{math.MaxInt32 + 1, math.MaxInt32 + 2, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1<<62 + 1, 6000000000}[g.Intn(7)]
		}
		return 1 + g.Intn(math.MaxInt32-1)
	}
	return []int{6, 6, 10, 20, 12, 8, 4}[g.Intn(7)]
}

// draw draws k dice with q faces from a source, in one way or another.
func draw(f *feeder.MT19937, id, k, q, how int) Event {
	ev := Event{"e": "draw", "id": id, "k": k, "q": num(q), "how": how}
	var ds []dice.Die
	var err error
	bad := guarded(func() {
		switch {
		case how == 0 && k < 100 && q < 1000000:
			// through a command
			b := bcdice.New(f)
			r, e := b.ExecuteCommand(fmt.Sprintf("%dB%d", k, q))
			if err = e; e == nil {
				ds = r.RolledDice
			}
		case how <= 2:
			ds, err = roller.New(f).RollDice(k, q)
		default:
			for i := 0; i < k && err == nil; i++ {
				var d dice.Die
				d, err = f.Next(q)
				ds = append(ds, d)
			}
		}
	})
	ev["dice"] = diceJ(ds)
	switch {
	case bad != "":
		ev["out"] = bad
	case err != nil:
		ev["out"] = "error " + err.Error()
	default:
		ev["out"] = "dice"
	}
	return ev
}

// driveSources draws from several random sources in turn and at the same time.
func driveSources(g *Gen, i int) Trace {
	t := Trace{}
	var srcs []*feeder.MT19937
	var seeds []int64
	add := func(s int64) {
		var f *feeder.MT19937
		if g.p(10) {
			lo := time.Now().UnixNano()
			f = feeder.NewMT19937WithSeedFromTime()
			hi := time.Now().UnixNano()
			s = f.Seed()
			if s < lo || s > hi {
				s = lo // not a time of now: will not be found reported
			}
		} else {
			f = feeder.NewMT19937(s)
		}
		srcs = append(srcs, f)
		seeds = append(seeds, s)
		t = append(t, Event{"e": "new", "id": len(srcs), "seed": word(uint64(s)), "reported": word(uint64(f.Seed()))})
	}
	add(g.seed())
	for n := g.Intn(3); n > 0; n-- {
		if g.p(30) {
			add(seeds[g.Intn(len(seeds))])
		} else {
			add(g.seed())
		}
	}
	type job struct{ k, q, how int }
	some := func(r *rand.Rand) job {
		k := 1
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(30)
		}
		return job{k, g.anyFaces(), r.Intn(6)}
	}
	for j := 0; j < 14 && !hung; j++ {
		id := 1 + g.Intn(len(srcs))
		x := g.Intn(12)
		if g.wide && (j == 3 || j == 8) {
			x = 0
		}
		switch x {
		case 0:
			n := g.Intn(400)
			if g.p(5) {
				n = 2000 + g.Intn(2000)
			}
			if g.wide {
				n = []int{5000, 10000, 20000, 40000, 70000}[g.Intn(5)]
			}
			for k := 0; k < n; k++ {
				srcs[id-1].Next(2)
			}
			t = append(t, Event{"e": "skip", "id": id, "n": n})
			if g.wide {
				// and what comes then
				t = append(t, draw(srcs[id-1], id, 12, g.anyFaces(), g.Intn(6)))
			}
		case 1:
			t = append(t, Event{"e": "seed", "id": id, "reported": word(uint64(srcs[id-1].Seed()))})
		case 2:
			if len(srcs) < 5 {
				add(seeds[g.Intn(len(seeds))])
			}
		default:
			x := some(g.Rand)
			t = append(t, draw(srcs[id-1], id, x.k, x.q, x.how))
		}
	}
	if i%2 == 0 && !hung {
		evs := make([]Trace, len(srcs))
		jobs := make([][]job, len(srcs))
		for k := range jobs {
			for j := 0; j < 12; j++ {
				jobs[k] = append(jobs[k], some(g.Rand))
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range srcs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for _, x := range jobs[k] {
					evs[k] = append(evs[k], draw(srcs[k], k+1, x.k, x.q, x.how))
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for k := range evs {
			t = append(t, evs[k]...)
		}
	}
	return t
}
