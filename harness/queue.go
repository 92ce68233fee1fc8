package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

// QOp is an operation of the specification on a scripted source.
type QOp struct {
	Op  string  `json:"op"`
	Q   int     `json:"q"`
	J   int     `json:"j"`
	K   int     `json:"k"`
	D   int     `json:"d"`
	Ans int     `json:"ans"`
	Qs  [][]int `json:"qs"`
	Ls  [][]int `json:"ls"`
}

// world is scripted sources and lists of dice.
type world struct {
	qs []*feeder.Queue
	ls [][]dice.Die
	t  Trace
}

func dieStr(d dice.Die) string { return fmt.Sprintf("%d/%d", d.Value, d.Sides) }

func diceStr(ds []dice.Die) []string {
	r := []string{}
	for _, d := range ds {
		r = append(r, dieStr(d))
	}
	return r
}

func newWorld(nq int, ls [][]dice.Die) *world {
	w := &world{ls: ls}
	for i := 0; i < nq; i++ {
		w.qs = append(w.qs, feeder.NewEmptyQueue())
	}
	w.t = append(w.t, Event{"op": "begin", "n": nq, "ls": w.lists()})
	return w
}

func (w *world) lists() [][]string {
	r := [][]string{}
	for _, l := range w.ls {
		r = append(r, diceStr(l))
	}
	return r
}

// apply applies an operation; the die is that of the operation
func (w *world) apply(op string, q, j, k int, d dice.Die, asked int) (ans string) {
	ans = "none"
	ev := Event{"op": op, "q": q, "j": j, "k": k, "d": dieStr(d)}
	w.t = append(w.t, ev)
	p := guarded(func() {
		list := func() []dice.Die {
			if k == 0 && asked%2 == 0 {
				return nil
			}
			return w.ls[j-1][:k]
		}
		switch op {
		case "new":
			w.qs[q-1] = feeder.NewQueue(list())
		case "newempty":
			w.qs[q-1] = feeder.NewEmptyQueue()
		case "push":
			w.qs[q-1].Push(d)
		case "append":
			w.qs[q-1].Append(list())
		case "set":
			w.qs[q-1].Set(list())
		case "clear":
			w.qs[q-1].Clear()
		case "next":
			r, err := w.qs[q-1].Next(asked)
			ans = dieStr(r)
			if err != nil {
				ans = "error"
			}
		case "dice":
			w.ls[j-1] = w.qs[q-1].Dice()
		case "write":
			w.ls[j-1][k-1] = d
		case "grow":
			w.ls[j-1] = append(w.ls[j-1], d)
		}
	})
	if p != "" {
		ans = p
	}
	ev["ans"] = ans
	return ans
}

func (w *world) look() {
	ev := Event{"op": "look"}
	w.t = append(w.t, ev)
	can := true
	qs := [][]string{}
	rem := []int{}
	empty := []bool{}
	for _, q := range w.qs {
		rem = append(rem, q.Remaining())
		empty = append(empty, q.IsEmpty())
		qs = append(qs, diceStr(q.Dice()))
		can = can && q.CanSpecifyDie()
	}
	ev["qs"], ev["rem"], ev["empty"], ev["can"], ev["ls"] = qs, rem, empty, can, w.lists()
}

func numbered(i int) dice.Die { return dice.Die{Value: i, Sides: i%7 + 1} }

func sameIDs(ids []int, ds []dice.Die) bool {
	if len(ids) != len(ds) {
		return false
	}
	for i, x := range ids {
		if numbered(x) != ds[i] {
			return false
		}
	}
	return true
}

// agrees compares what can be seen with the specification's state.
func (w *world) agrees(o QOp) bool {
	for i, q := range w.qs {
		if q.Remaining() != len(o.Qs[i]) || q.IsEmpty() != (len(o.Qs[i]) == 0) || !sameIDs(o.Qs[i], q.Dice()) {
			return false
		}
	}
	for i, l := range w.ls {
		if !sameIDs(o.Ls[i], l) {
			return false
		}
	}
	return true
}

// replayQueue replays the histories of the specification, looking at all there
// is to see after every step or (second) in the end only.
func replayQueue(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	for sc.Scan() && !hung && len(bad) < 1000 {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c struct {
			H     []QOp   `json:"h"`
			First [][]int `json:"first"`
		}
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		stats["cases"]++
		if stats["cases"]%20011 == 1 && len(samples) < 8 {
			s := ""
			for _, o := range c.H {
				s += fmt.Sprintf("%s(q%d l%d %d d%d)->%d ", o.Op, o.Q, o.J, o.K, o.D, o.Ans)
			}
			samples = append(samples, s)
		}
		for pass := 0; pass < 2; pass++ {
			var ls [][]dice.Die
			for _, l := range c.First {
				ds := []dice.Die{}
				for _, x := range l {
					ds = append(ds, numbered(x))
				}
				ls = append(ls, ds)
			}
			w := newWorld(len(c.H[0].Qs), ls)
			good := true
			for i, o := range c.H {
				d := dice.Die{}
				if o.D != 0 {
					d = numbered(o.D)
				}
				a := w.apply(o.Op, o.Q, o.J, o.K, d, 1+i%7)
				want := "none"
				if o.Ans < 0 {
					want = "error"
				} else if o.Ans > 0 {
					want = dieStr(numbered(o.Ans))
				}
				good = good && a == want
				stats[o.Op]++
				if pass == 0 {
					good = good && w.agrees(o)
					if !good {
						w.look()
					}
				}
				if !good {
					break
				}
			}
			if good && pass == 1 {
				good = w.agrees(c.H[len(c.H)-1])
				if !good {
					w.look()
				}
			}
			if !good {
				bad = append(bad, w.t)
				break
			}
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
	writeOut(out, bad, stats, samples)
}

func (g *Gen) anyDie() dice.Die {
	n := func() int {
		switch g.Intn(12) {
		case 0:
			return []int{0, -1, math.MaxInt64, math.MinInt64, 1 << 40}[g.Intn(5)]
		case 1:
			return g.Intn(1000000)
		}
		return 1 + g.Intn(20)
	}
	return dice.Die{Value: n(), Sides: n()}
}

// driveQueue makes a long history.
func driveQueue(g *Gen, i int) Trace {
	nl := 1 + g.Intn(4)
	var ls [][]dice.Die
	for j := 0; j < nl; j++ {
		l := make([]dice.Die, 0, g.Intn(12))
		for k := g.size(5); k > 0; k-- {
			l = append(l, g.anyDie())
		}
		ls = append(ls, l)
	}
	w := newWorld(1+g.Intn(4), ls)
	n := 20 + g.Intn(40)
	often := []int{2, 30, 100}[g.Intn(3)]
	if g.p(4) {
		n = 300
		often = 3
	}
	most, grown := 200, 12
	if g.wide {
		// queues of thousands of dice
		n, often = 1200, 1
		most, grown = 5000, 2000
	}
	full := g.wide && g.p(60)
	for s := 0; s < n && !hung; s++ {
		q, j := 1+g.Intn(len(w.qs)), 1+g.Intn(nl)
		k := g.Intn(len(w.ls[j-1]) + 1)
		if g.p(50) {
			k = len(w.ls[j-1])
		}
		x := g.Intn(100)
		if n >= 300 && x >= 44 && x < 72 && s%150 < 90 && g.p(90) {
			x = 30 // filling up
			if full {
				x = 20
			}
		}
		if n >= 300 && x < 19 && g.p(90) {
			x = 72 // seldom replaced
		}
		switch {
		case x < 3:
			w.apply("new", q, j, k, dice.Die{}, s)
		case x < 5:
			w.apply("newempty", q, 0, 0, dice.Die{}, s)
		case x < 9:
			w.apply("clear", q, 0, 0, dice.Die{}, s)
		case x < 19:
			w.apply("set", q, j, k, dice.Die{}, s)
		case x < 29:
			if w.qs[q-1].Remaining()+k < most {
				w.apply("append", q, j, k, dice.Die{}, s)
			}
		case x < 44:
			w.apply("push", q, 0, 0, g.anyDie(), s)
		case x < 72:
			w.apply("next", q, 0, 0, dice.Die{}, []int{6, 1, 0, -1, 100, w.qs[q-1].Remaining()}[g.Intn(6)])
		case x < 80:
			w.apply("dice", q, j, 0, dice.Die{}, s)
		case x < 90:
			if len(w.ls[j-1]) > 0 {
				w.apply("write", 0, j, 1+g.Intn(len(w.ls[j-1])), g.anyDie(), s)
			}
		default:
			if len(w.ls[j-1]) < grown {
				w.apply("grow", 0, j, 0, g.anyDie(), s)
			}
		}
		if g.p(often) {
			w.look()
		}
	}
	w.look()
	return w.t
}
