package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/object"
)

// ObjJ is a value of the specification.
type ObjJ struct {
	K      string  `json:"k"`
	V      Num     `json:"v,omitempty"`
	B      bool    `json:"b"`
	T      Text    `json:"t"`
	Es     []*ObjJ `json:"es"`
	Vals   *ObjJ   `json:"vals,omitempty"`
	Groups *ObjJ   `json:"groups,omitempty"`
	Mod    *ObjJ   `json:"mod,omitempty"`
	N      *ObjJ   `json:"n,omitempty"`
	U      *ObjJ   `json:"u,omitempty"`
}

// bigger makes the integer of a Num, also at the edges of 64 bits.
func bigger(n Num) int {
	s := ""
	for i, l := range n[1:] {
		if i == len(n)-2 {
			s = strconv.Itoa(l) + s
		} else {
			s = fmt.Sprintf("%04d", l) + s
		}
	}
	if n[0] < 0 {
		s = "-" + s
	}
	if s == "" {
		s = "0"
	}
	v, err := strconv.Atoi(s)
	if err != nil {
		fail(err)
	}
	return v
}

// make makes the value; every other list is made of a slice that is used for
// something else afterwards.
func (o *ObjJ) make(flip *int) object.Object {
	arr := func(x *ObjJ) *object.Array { return x.make(flip).(*object.Array) }
	n := func(x *ObjJ) *object.Integer { return x.make(flip).(*object.Integer) }
	switch o.K {
	case "int":
		return object.NewInteger(bigger(o.V))
	case "bool":
		return object.NewBoolean(o.B)
	case "str":
		return object.NewString(strings.Join(o.T, ""))
	case "arr":
		es := []object.Object{}
		for _, e := range o.Es {
			es = append(es, e.make(flip))
		}
		if *flip++; *flip%2 == 0 {
			return object.NewArrayByMove(es)
		}
		a := object.NewArray(es...)
		for i := range es {
			es[i] = object.NewInteger(77)
		}
		return a
	case "bcomp":
		return object.NewBRollCompResult(arr(o.Vals), n(o.N))
	case "rcomp":
		return object.NewRRollCompResult(arr(o.Groups), n(o.N))
	case "uexpr":
		return object.NewURollExprResult(arr(o.Groups), n(o.Mod))
	case "ucomp":
		return object.NewURollCompResult(o.U.make(flip).(*object.URollExprResult), n(o.N))
	}
	fail(fmt.Errorf("no value %q", o.K))
	return nil
}

// QuesJ is a question put to a value.
type QuesJ struct {
	Q   string `json:"q"`
	Sep string `json:"sep"`
	I   int    `json:"i"`
	V   Num    `json:"v"`
}

func (q QuesJ) event() Event {
	ev := Event{"q": q.Q}
	switch q.Q {
	case "joined", "joinedtight":
		ev["sep"] = q.Sep
	case "at":
		ev["i"] = q.I
	case "add":
		ev["v"] = q.V
	}
	return ev
}

func ask(o object.Object, q QuesJ) (ans string) {
	opt := func(i *object.Integer, ok bool) string {
		if !ok {
			if i != nil {
				return "both"
			}
			return "none"
		}
		return i.Inspect()
	}
	bad := guarded(func() {
		arr, _ := o.(*object.Array)
		u, _ := o.(*object.URollExprResult)
		switch q.Q {
		case "type":
			ans = o.Type().String()
		case "inspect":
			ans = o.Inspect()
		case "tight":
			ans = arr.InspectWithoutSpaces()
		case "joined":
			ans = arr.JoinedElements(q.Sep)
		case "joinedtight":
			ans = arr.JoinedElementsWithoutSpaces(q.Sep)
		case "length":
			ans = strconv.Itoa(arr.Length())
		case "at":
			ans = arr.At(q.I - 1).Inspect()
		case "max":
			ans = opt(arr.MaxInteger())
		case "sum":
			ans = opt(arr.SumOfIntegers())
		case "add":
			ans = o.(*object.Integer).Add(object.NewInteger(bigger(q.V))).Inspect()
		case "groupsums":
			ans = u.SumOfGroups().Inspect()
		case "maxvalue":
			ans = u.MaxValue().Inspect()
		case "sumvalue":
			ans = u.SumOfValues().Inspect()
		case "groups":
			ans = u.ValueGroups().Inspect()
		case "modifier":
			ans = u.Modifier().Inspect()
		}
	})
	if bad != "" {
		return bad
	}
	return ans
}

// replayObjects asks every value of the specification its questions, forwards
// and backwards.
func replayObjects(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	flip := 0
	for sc.Scan() && !hung && len(bad) < 1000 {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c struct {
			O  *ObjJ               `json:"o"`
			Qs [][]json.RawMessage `json:"qs"`
		}
		var raw struct {
			O json.RawMessage `json:"o"`
		}
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		json.Unmarshal([]byte(js), &raw)
		stats["cases"]++
		stats[c.O.K]++
		var qs []QuesJ
		var want []string
		for _, q := range c.Qs {
			var x QuesJ
			var a string
			if json.Unmarshal(q[0], &x) != nil || json.Unmarshal(q[1], &a) != nil {
				fail(fmt.Errorf("%s", js))
			}
			qs, want = append(qs, x), append(want, a)
		}
		for flip = 0; flip < 2; flip++ {
			o := c.O.make(&flip)
			evs := []Event{}
			good := true
			for k := 0; k < 2*len(qs); k++ {
				i := k
				if k >= len(qs) {
					i = 2*len(qs) - 1 - k
				}
				ev := qs[i].event()
				ev["ans"] = ask(o, qs[i])
				stats["questions"]++
				evs = append(evs, ev)
				good = good && (want[i] == "any" || ev["ans"] == want[i])
			}
			if len(samples) < 6 && stats["cases"]%307 == 1 {
				samples = append(samples, fmt.Sprint(o.Inspect(), " ", asJSON(evs[len(evs)-1])))
			}
			if !good {
				bad = append(bad, Trace{{"op": "object", "o": raw.O, "qs": evs}})
				break
			}
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
	writeOut(out, bad, stats, samples)
}

// ---------------------------------------------------------------------------

func (g *Gen) anyInt() int {
	switch g.Intn(10) {
	case 0:
		return -g.Intn(20)
	case 1:
		return g.Intn(1 << 40)
	case 2:
		return -g.Intn(1 << 40)
	case 3:
		return []int{0, 1<<63 - 1, -1 << 63, 1 << 62, -1 << 62, 9999, 10000, -10000}[g.Intn(8)]
	}
	return 1 + g.Intn(100)
}

func (g *Gen) intObj() *ObjJ { return &ObjJ{K: "int", V: num(g.anyInt())} }

func (g *Gen) intArr(n int) *ObjJ {
	a := &ObjJ{K: "arr", Es: []*ObjJ{}}
	for k := g.size(n); k > 0; k-- {
		a.Es = append(a.Es, g.intObj())
	}
	return a
}

func (g *Gen) groups() *ObjJ {
	a := &ObjJ{K: "arr", Es: []*ObjJ{}}
	g.each(7, func() { a.Es = append(a.Es, g.intArr(6)) })
	return a
}

func (g *Gen) someText() string {
	b := ""
	for k := g.size(5); k > 0; k-- {
		b += g.pick("a", "Z", "0", " ", ",", "]", "\"", "\\", "%", "剣", "é", "＞", ":")
	}
	return b
}

func (g *Gen) object(depth int) *ObjJ {
	switch g.Intn(10) {
	case 0:
		return g.intObj()
	case 1:
		return &ObjJ{K: "bool", B: g.p(50)}
	case 2:
		return &ObjJ{K: "str", T: text(g.someText())}
	case 3:
		return g.intArr(30)
	case 4:
		return &ObjJ{K: "bcomp", Vals: g.intArr(8), N: g.intObj()}
	case 5:
		return &ObjJ{K: "rcomp", Groups: g.groups(), N: g.intObj()}
	case 6, 7:
		return &ObjJ{K: "uexpr", Groups: g.groups(), Mod: g.intObj()}
	case 8:
		return &ObjJ{K: "ucomp", U: &ObjJ{K: "uexpr", Groups: g.groups(), Mod: g.intObj()}, N: g.intObj()}
	}
	a := &ObjJ{K: "arr", Es: []*ObjJ{}}
	if depth == 0 {
		return a
	}
	for k := g.Intn(5); k > 0; k-- {
		a.Es = append(a.Es, g.object(depth-1))
	}
	return a
}

func (g *Gen) question(o *ObjJ) QuesJ {
	seps := []string{"", ",", ", ", " ＞ ", "/", "][", "%d"}
	var qs []string
	switch o.K {
	case "int":
		qs = []string{"add", "add", "inspect"}
	case "arr":
		qs = []string{"tight", "joined", "joinedtight", "length", "max", "sum", "inspect"}
		if len(o.Es) > 0 {
			qs = append(qs, "at", "at")
		}
	case "uexpr":
		qs = []string{"groupsums", "maxvalue", "sumvalue", "groups", "modifier", "inspect"}
	default:
		qs = []string{"inspect", "type"}
	}
	q := QuesJ{Q: g.pick(qs...), Sep: seps[g.Intn(len(seps))], V: num(g.anyInt())}
	if g.p(5) {
		q.Q = "type"
	}
	if q.Q == "at" {
		q.I = 1 + g.Intn(len(o.Es))
	}
	return q
}

// driveObjects asks values, dice and replies under construction.
func driveObjects(g *Gen, i int) Trace {
	t := Trace{}
	flip := g.Intn(2)
	for j := 0; j < 6; j++ {
		o := g.object(2)
		qs := []Event{}
		x := o.make(&flip)
		for k := 2 + g.Intn(8); k > 0; k-- {
			q := g.question(o)
			ev := q.event()
			ev["ans"] = ask(x, q)
			qs = append(qs, ev)
		}
		t = append(t, Event{"op": "object", "o": o.json(), "qs": qs})
		// lists hold what was put into them last
		a, isList := x.(*object.Array)
		for r := g.Intn(3); isList && r > 0; r-- {
			y := g.object(0)
			switch at := g.Intn(len(o.Es) + 1); {
			case at == len(o.Es):
				o.Es = append(o.Es[:at:at], y)
				a.Elements = append(a.Elements, y.make(&flip))
			case g.p(20):
				o.Es = append(o.Es[:at:at], o.Es[at+1:]...)
				a.Elements = append(a.Elements[:at], a.Elements[at+1:]...)
			case o.Es[at].K == "int" && g.p(50):
				n := *o.Es[at]
				n.V = num(g.anyInt())
				o.Es = append([]*ObjJ{}, o.Es...)
				o.Es[at] = &n
				a.Elements[at].(*object.Integer).Value = bigger(n.V)
			default:
				o.Es = append([]*ObjJ{}, o.Es...)
				o.Es[at] = y
				a.Elements[at] = y.make(&flip)
			}
			qs := []Event{}
			for k := 1 + g.Intn(5); k > 0; k-- {
				q := g.question(o)
				ev := q.event()
				ev["ans"] = ask(x, q)
				qs = append(qs, ev)
			}
			t = append(t, Event{"op": "object", "o": o.json(), "qs": qs})
		}
	}
	d := g.anyDie()
	t = append(t, Event{"op": "die", "d": dieJ(d), "string": d.String(), "sexp": d.SExp()})
	ds := []dice.Die{}
	for k := g.size(7); k > 0; k-- {
		ds = append(ds, g.anyDie())
	}
	t = append(t, Event{"op": "dice", "ds": diceJ(ds), "plain": dice.FormatDiceWithoutSpaces(ds), "spaced": dice.FormatDice(ds)})
	n := g.Intn(5) - 1
	t = append(t, Event{"op": "verdict", "n": n, "ans": command.SuccessCheckResultType(n).String()})
	// replies, one after the other and at the same time
	r := []*command.Result{{GameID: g.someText()}, {GameID: "DiceBot", MessageParts: []string{}}}
	t = append(t, Event{"op": "reply", "n": len(r)})
	for k := g.size(13); k > 0; k-- {
		w := g.Intn(len(r))
		if g.p(70) {
			s := g.someText()
			r[w].AppendMessagePart(s)
			t = append(t, Event{"op": "part", "w": w + 1, "s": s})
		} else {
			t = append(t, Event{"op": "message", "w": w + 1, "game": r[w].GameID, "msg": r[w].Message(), "joined": r[w].JoinedMessageParts(),
				"parts": append([]string{}, r[w].MessageParts...)})
		}
	}
	for w := range r {
		t = append(t, Event{"op": "message", "w": w + 1, "game": r[w].GameID, "msg": r[w].Message(), "joined": r[w].JoinedMessageParts(),
			"parts": append([]string{}, r[w].MessageParts...)})
	}
	return t
}

// json is the value with just the fields of its kind.
func (o *ObjJ) json() Event {
	list := func(x *ObjJ) []Event {
		r := []Event{}
		for _, e := range x.Es {
			r = append(r, e.json())
		}
		return r
	}
	ev := Event{"k": o.K}
	switch o.K {
	case "int":
		ev["v"] = o.V
	case "bool":
		ev["b"] = o.B
	case "str":
		ev["t"] = o.T
	case "arr":
		ev["es"] = list(o)
	case "bcomp":
		ev["vals"], ev["n"] = o.Vals.json(), o.N.json()
	case "rcomp":
		ev["groups"], ev["n"] = o.Groups.json(), o.N.json()
	case "uexpr":
		ev["groups"], ev["mod"] = o.Groups.json(), o.Mod.json()
	case "ucomp":
		ev["u"], ev["n"] = o.U.json(), o.N.json()
	}
	return ev
}
