package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

// Case is an ended behaviour of the specification.
type Case struct {
	T Text   `json:"t"`
	D []Draw `json:"D"`
	X struct {
		Out     string   `json:"out"`
		Why     string   `json:"why"`
		K       string   `json:"k"`
		Msg     string   `json:"msg"`
		Game    string   `json:"game"`
		Verdict string   `json:"verdict"`
		Secret  bool     `json:"secret"`
		Dice    []DieJ   `json:"dice"`
		Parts   []string `json:"parts"`
	} `json:"x"`
}

func (n Num) int() int {
	r, m := 0, 1
	for _, l := range n[1:] {
		r += l * m
		m *= 10000
	}
	return r * n[0]
}

// scriptDice delivers the dice of a behaviour.
func scriptDice(d []Draw) nextFn {
	return func(q, i int) (dice.Die, error) {
		if !d[i].OK {
			return dice.Die{}, errDry
		}
		return dice.Die{Value: d[i].V.int(), Sides: d[i].S.int()}, nil
	}
}

func sameDraws(a, b []Draw) bool { return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b)) }

// agrees tells whether the recorded execution is just the behaviour.
func (c *Case) agrees(ev Event) bool {
	if !sameDraws(ev["D"].([]Draw), c.D) || ev["out"] != c.X.Out {
		return false
	}
	if c.X.Out == "error" {
		return ev["nores"] == true
	}
	d := ev["dice"].([]DieJ)
	return ev["msg"] == c.X.Msg && ev["game"] == c.X.Game && ev["verdict"] == c.X.Verdict &&
		ev["secret"] == c.X.Secret && len(d) == len(c.X.Dice) && (len(d) == 0 || reflect.DeepEqual(d, c.X.Dice)) &&
		ev["joined"] == strings.TrimPrefix(ev["msg"].(string), "DiceBot : ")
}

// asWritten reads the JSON text out of a line printed by TLC.
func asWritten(line, tag string) (string, bool) {
	if !strings.HasPrefix(line, `"`+tag+` `) {
		return "", false
	}
	var s string
	// TLC escapes quotes and backslashes (and, in what it prints, nothing else)
	if json.Unmarshal([]byte(line), &s) != nil {
		s = strings.NewReplacer(`\\`, `\`, `\"`, `"`, `\t`, "\t", `\n`, "\n", `\r`, "\r", `\f`, "\f").Replace(line[1 : len(line)-1])
	}
	return s[len(tag)+1:], true
}

// replayCases runs the behaviours of the specification on the real code and
// keeps those where it behaves differently as traces.
func replayCases(in string, limit int, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	stats := map[string]int{}
	bad, badLimit := []Trace{}, []Trace{}
	var samples []string
	for sc.Scan() && !hung {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c Case
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		s := strings.Join(c.T, "")
		stats["cases"]++
		stats["out."+c.X.Out+c.X.Why]++
		stats["kind."+c.X.K]++
		if stats["cases"]%997 == 1 && len(samples) < 12 {
			samples = append(samples, fmt.Sprintf("%s with dice %v: %s %s", s, short(c.D), c.X.Out, c.X.Msg))
		}
		reroll := c.X.K == "rlist" || c.X.K == "rcomp" || c.X.K == "uexpr" || c.X.K == "ucomp"
		if reroll && limit > 0 && !strings.HasPrefix(strings.ToLower(s), "s") {
			src := &Source{limit: len(c.D), next: scriptDice(c.D)}
			if ev, ok := execLimit(src, s, limit); ok {
				stats["executions"]++
				if !c.agrees(ev) {
					// to be judged by the specification with the same limit
					badLimit = append(badLimit, Trace{ev})
				}
			}
		}
		src := &Source{limit: len(c.D), next: scriptDice(c.D)}
		b := bcdice.New(src)
		ev, _ := exec(b, src, s)
		stats["executions"]++
		if !c.agrees(ev) {
			d := ev["D"].([]Draw)
			if reroll && limit > 0 && len(c.D) >= limit && len(d) == len(c.D)+1 && sameDraws(d[:len(c.D)], c.D) && !d[len(c.D)].OK {
				stats["cut by the model's reroll limit"]++
				continue
			}
			bad = append(bad, Trace{ev})
		}
		if len(bad)+len(badLimit) > 3000 {
			break
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
	writeJSON(out+".limit", badLimit)
	writeOut(out, bad, stats, samples)
}

func short(d []Draw) string {
	s := []string{}
	for _, x := range d {
		if x.OK {
			s = append(s, fmt.Sprintf("%d/%d", x.V.int(), x.S.int()))
		} else {
			s = append(s, "error")
		}
	}
	return strings.Join(s, " ")
}
