package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

type accepted struct {
	A     int    `json:"a"`
	Q     []int  `json:"q"`
	X     string `json:"x"`
	Items []Text `json:"items"`
}

type deepTable struct {
	Wraps []map[string]string      `json:"wraps"`
	Cores []map[string]interface{} `json:"cores"`
	Inner [][]string               `json:"inner"`
	Cuts  []int                    `json:"cuts"`
	Runs  [][]float64              `json:"runs"`
}

// scanTLC hands every line TLC printed behind one of the tags to f.
func scanTLC(in string, f func(tag, js string), tags ...string) {
	fl, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	defer fl.Close()
	sc := bufio.NewScanner(fl)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() && !hung {
		for _, tag := range tags {
			if js, ok := asWritten(sc.Text(), tag); ok {
				f(tag, js)
			}
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
}

func decode(js string, v interface{}) {
	if err := json.Unmarshal([]byte(js), v); err != nil {
		fail(fmt.Errorf("%v: %s", err, js))
	}
}

// tokens reads every string of at most k tokens with the real parser and keeps,
// as traces, the readings that are not what the specification says. Deep texts
// are read as well; all of those are kept.
func tokens(in string, k int, seed int64, out string) {
	alphabets := map[int][]string{}
	want := map[string]accepted{}
	var deep deepTable
	key := func(a int, q []int) string { return fmt.Sprint(a, q) }
	scanTLC(in, func(tag, js string) {
		switch tag {
		case "ALPHABET":
			var x struct {
				A      int      `json:"a"`
				Tokens []string `json:"tokens"`
			}
			decode(js, &x)
			alphabets[x.A] = x.Tokens
		case "DEEP":
			decode(js, &deep)
		case "ACCEPT":
			var x accepted
			decode(js, &x)
			want[key(x.A, x.Q)] = x
		}
	}, "ALPHABET", "ACCEPT", "DEEP")
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	for a := 1; a <= 100; a++ {
		toks, ok := alphabets[a]
		if !ok {
			continue
		}
		var walk func(q []int, s string)
		walk = func(q []int, s string) {
			if hung || len(bad) > 3000 {
				return
			}
			ev := parse(s)
			stats["texts"]++
			w, acc := want[key(a, q)]
			same := false
			if acc {
				stats["commands"]++
				if len(w.Items) > 0 {
					same = ev["out"] == "items" && reflect.DeepEqual(ev["items"], w.Items)
				} else {
					same = ev["out"] == "tree" && ev["x"] == w.X
				}
				if stats["commands"]%4001 == 77 && len(samples) < 8 {
					samples = append(samples, fmt.Sprintf("%q is %v", s, ev["x"]))
				}
			} else {
				same = ev["out"] == "error"
			}
			if !same {
				bad = append(bad, Trace{ev})
			}
			if len(q) < k {
				for j, t := range toks {
					walk(append(q[:len(q):len(q)], j+1), s+t)
				}
			}
		}
		walk(nil, "")
	}
	writeOut(out, bad, stats, samples)
	if len(deep.Wraps) > 0 {
		deepTraces(deep, seed, out+".deep")
	}
}

// deepTraces reads texts of great depth.
func deepTraces(d deepTable, seed int64, out string) {
	r := rand.New(rand.NewSource(seed))
	ts := []Trace{}
	stats := map[string]int{}
	for w, wr := range d.Wraps {
		t := Trace{}
		for c, co := range d.Cores {
			runs := false
			for _, x := range d.Runs {
				runs = runs || x[0] == float64(w+1) && x[1] == float64(c+1)
			}
			in := d.Inner[int(co["e"].(float64))-1][0]
			depths := []int{1 + r.Intn(20), 20 + r.Intn(50), 60 + r.Intn(60)}
			if in == d.Inner[0][0] {
				// (expressions with something to draw are read in quadratic time)
				depths = append(depths, 120+r.Intn(400), 600+r.Intn(1500))
			}
			for _, n := range depths {
				s := co["o"].(string) + strings.Repeat(wr["o"], n) + in + strings.Repeat(wr["c"], n) + co["c"].(string)
				cuts := []bool{false}
				for _, x := range d.Cuts {
					if x == c+1 && n <= 120 { // refusing takes quadratic time
						cuts = append(cuts, true)
					}
				}
				for _, cut := range cuts {
					if hung {
						break
					}
					u := s
					if cut {
						u = s[:len(s)-1]
					}
					ev := parse(u)
					delete(ev, "t")
					delete(ev, "b")
					ev["e"], ev["w"], ev["c"], ev["n"], ev["cut"] = "deep", w+1, c+1, n, cut
					ev["run"] = "not"
					if runs && !hung {
						// all dice show 1
						src := &Source{limit: enough, next: func(q, i int) (dice.Die, error) { return dice.Die{Value: 1, Sides: q}, nil }}
						ev2, _ := exec(bcdice.New(src), src, u)
						ev["run"] = ev2["out"]
					}
					t = append(t, ev)
					stats["deep texts"]++
				}
			}
		}
		ts = append(ts, t)
	}
	writeOut(out, ts, stats, nil)
}
