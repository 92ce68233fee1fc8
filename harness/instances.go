package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

// InstCase is a behaviour of several instances: their scripts and the order in
// which they move.
type InstCase struct {
	Scripts [][]struct {
		Op string          `json:"op"`
		T  json.RawMessage `json:"t"`
	} `json:"scripts"`
	Order []int      `json:"order"`
	Outs  [][]string `json:"outs"`
}

// gate makes the draws of an instance wait to be let through.
type gate struct {
	asked chan bool // the instance waits for a die, or (false) has no more to do
	let   chan bool
	open  bool
}

type instance struct {
	i    int
	b    *bcdice.BCDice
	src  *Source
	evs  []Event
	ress []*command.Result
	g    *gate
}

// run goes through a script; with a gate it waits before every entry and at every draw.
func (x *instance) run(c *InstCase) {
	for k, e := range c.Scripts[x.i] {
		if x.g != nil {
			x.g.asked <- true
			<-x.g.let
		}
		if e.Op == "game" {
			var id string
			json.Unmarshal(e.T, &id)
			x.b.DiceBot = game(id)
			continue
		}
		var t Text
		json.Unmarshal(e.T, &t)
		s := strings.Join(t, "")
		x.src.limit = 300
		x.src.next = func(q, j int) (dice.Die, error) {
			if x.g != nil {
				x.g.asked <- true
				<-x.g.let
			}
			if q < 1 {
				return dice.Die{Value: 1, Sides: q}, nil
			}
			return dice.Die{Value: 1 + (3*(x.i+1)+5*(k+1)+2*(j+1))%q, Sides: q}, nil
		}
		ev, res := exec(x.b, x.src, s)
		ev["e"] = "again"
		ev["s"] = x.i*100 + k
		x.evs = append(x.evs, ev)
		x.ress = append(x.ress, res)
	}
	if x.g != nil {
		x.g.asked <- false
	}
}

func newInstance(i int, g *gate) *instance {
	src := &Source{}
	return &instance{i: i, b: bcdice.New(src), src: src, g: g}
}

// follow moves the instances in the order of the case.
func follow(c *InstCase) []*instance {
	xs := make([]*instance, len(c.Scripts))
	done := make([]bool, len(xs))
	wait := func(k int) { done[k] = !<-xs[k].g.asked }
	for k := range xs {
		xs[k] = newInstance(k, &gate{asked: make(chan bool), let: make(chan bool)})
		go xs[k].run(c)
		wait(k)
	}
	move := func(k int) bool {
		if done[k] {
			return false
		}
		xs[k].g.let <- true
		wait(k)
		return true
	}
	for _, k := range c.Order {
		move(k - 1)
	}
	// more steps than the specification has
	for k := range xs {
		for move(k) {
		}
	}
	return xs
}

func alike(a, b Event) bool {
	for _, k := range []string{"out", "nores", "D", "parts", "msg", "joined", "game", "verdict", "secret", "dice"} {
		if !reflect.DeepEqual(a[k], b[k]) {
			return false
		}
	}
	return true
}

func stillEvents(t Trace, ress []*command.Result, at []int) Trace {
	for j, res := range ress {
		if res != nil {
			ev := Event{"e": "still", "at": at[j]}
			outcome(ev, res, nil)
			t = append(t, ev)
		}
	}
	return t
}

// replayInstances follows the interleavings of the specification and compares
// what the instances reply to what they reply one after another.
func replayInstances(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	alone := map[string][][]Event{}
	for sc.Scan() && !hung && len(bad) < 300 {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c InstCase
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		stats["cases"]++
		key := asJSON(c.Scripts)
		before, ok := alone[key]
		if !ok {
			for k := range c.Scripts {
				x := newInstance(k, nil)
				x.run(&c)
				before = append(before, x.evs)
			}
			alone[key] = before
			stats["scripts"]++
		}
		xs := follow(&c)
		good := true
		t := Trace{}
		for _, evs := range before {
			t = append(t, evs...)
		}
		var ress []*command.Result
		var at []int
		for k, x := range xs {
			for j, ev := range x.evs {
				stats["executions"]++
				if fmt.Sprint(ev["out"]) != c.Outs[k][j] {
					stats["ended differently than specified"]++
				}
				good = good && alike(ev, before[k][j])
				t = append(t, ev)
				ress, at = append(ress, x.ress[j]), append(at, len(t))
				if x.ress[j] != nil {
					now := Event{}
					outcome(now, x.ress[j], nil)
					now["D"] = ev["D"]
					good = good && alike(ev, now)
				}
			}
		}
		if !good {
			bad = append(bad, stillEvents(t, ress, at))
		}
		if stats["cases"]%4999 == 1 && len(samples) < 6 {
			samples = append(samples, fmt.Sprintf("order %v of %s", c.Order, key))
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
	writeOut(out, bad, stats, samples)
}

// mtSource delivers the dice of a random source of its own.
func mtSource(seed int64) *Source {
	f := feeder.NewMT19937(seed)
	return &Source{limit: 300, next: func(q, i int) (dice.Die, error) { return f.Next(q) }}
}

// driveStorm uses many instances at the same time, thousands of times, and
// keeps what differs from the first time.
func driveStorm(rounds int) func(g *Gen, i int) Trace {
	return func(g *Gen, i int) Trace {
		const n = 8
		type stim struct {
			s        string
			stream   int64
			at, kind int
			mt       bool
			game     string
			limit    int
		}
		type worker struct {
			stims []stim
			first []Event
			keep  []*command.Result
		}
		t := Trace{}
		ws := make([]*worker, n)
		do := func(p stim) (Event, *command.Result) {
			src := &Source{next: streamDice(p.stream, p.at, p.kind), limit: p.limit}
			if p.mt {
				src = mtSource(p.stream)
				src.limit = p.limit
			}
			b := bcdice.New(src)
			if p.game != "" {
				b.DiceBot = game(p.game)
			}
			ev, res := record(src, p.s, b.DiceBot.GameID(), func() (*command.Result, error) { return b.ExecuteCommand(p.s) })
			ev["e"] = "again"
			ev["s"] = p.stream
			return ev, res
		}
		// similar commands for everybody in some storms, anything in others
		fs := []string{families[i%len(families)]}
		if i%3 == 2 {
			fs = families
		}
		for k := range ws {
			w := &worker{}
			ws[k] = w
			for j := 0; j < 4; j++ {
				s := g.spare(func() string {
					if g.p(8) {
						return g.failing()
					}
					return g.decorate(g.oneOf(fs), 5)
				})
				at, kind := g.fault()
				p := stim{s, int64(k*10 + j), at, kind, g.p(30), g.pick("", "", "Other", "第二"), 40}
				w.stims = append(w.stims, p)
				ev, res := do(p)
				w.first = append(w.first, ev)
				w.keep = append(w.keep, res)
				t = append(t, ev)
			}
		}
		saved := journalFile
		journal("driver", "at the same time")
		journalFile = nil
		var wg sync.WaitGroup
		var mu sync.Mutex
		var runs, found int64
		start := make(chan bool)
		for k := range ws {
			wg.Add(1)
			go func(w *worker, r *rand.Rand) {
				defer wg.Done()
				<-start
				for j := 0; j < rounds && atomic.LoadInt64(&found) == 0 && !hung; j++ {
					x := r.Intn(len(w.stims))
					ev, _ := do(w.stims[x])
					atomic.AddInt64(&runs, 1)
					if !alike(ev, w.first[x]) || j == rounds-1 {
						if !alike(ev, w.first[x]) {
							atomic.AddInt64(&found, 1)
						}
						mu.Lock()
						t = append(t, ev)
						mu.Unlock()
					}
				}
			}(ws[k], rand.New(rand.NewSource(g.Int63())))
		}
		close(start)
		wg.Wait()
		journalFile = saved
		stormRuns += int(runs)
		at := 0
		for _, w := range ws {
			for j := range w.keep {
				at++
				t = stillEvents(t, w.keep[j:j+1], []int{at})
			}
		}
		runtime.GC()
		return t
	}
}

var stormRuns int
