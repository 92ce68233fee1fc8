package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"time"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
)

type nextFn func(q, i int) (dice.Die, error)

// Source is a die source that records every call.
type Source struct {
	next  nextFn
	log   []Draw
	limit int // draws after which it runs dry
}

var errDry = errors.New("die source is dry")

func (s *Source) CanSpecifyDie() bool { return false }

func (s *Source) Next(q int) (dice.Die, error) {
	i := len(s.log)
	if i >= s.limit {
		if i >= s.limit+100000 {
			panic("die source: asked again and again after it ran dry")
		}
		s.log = append(s.log, Draw{num(q), false, num(0), num(0)})
		return dice.Die{}, errDry
	}
	d, err := s.next(q, i)
	s.log = append(s.log, Draw{num(q), err == nil, num(d.Value), num(d.Sides)})
	return d, err
}

// take returns the draws since the last call.
func (s *Source) take() []Draw {
	l := s.log
	s.log = nil
	if l == nil {
		l = []Draw{}
	}
	return l
}

// randomDice delivers proper dice with a random taste for certain faces.
func randomDice(r *rand.Rand) nextFn {
	mode := r.Intn(9)
	base := 1 + r.Intn(300)
	return func(q, i int) (dice.Die, error) {
		v := 1
		if q >= 1 {
			switch {
			case mode == 0:
				v = q
			case mode == 1:
				v = 1
			case mode == 2 && r.Intn(2) == 0:
				v = q
			case mode == 3 && r.Intn(2) == 0:
				v = 1
			case mode == 4:
				v = 1 + i%q
			case mode == 8 && q > 256:
				// values that are alike in their lower bits
				v = 1 + (base+(r.Intn(q)>>8)<<8+r.Intn(2)*r.Intn(3))%q
			default:
				v = 1 + r.Intn(q)
			}
		}
		return dice.Die{Value: v, Sides: q}, nil
	}
}

// streamDice delivers dice that depend on nothing but the stream, the position
// and the faces asked for; at position at (if not negative) it fails.
func streamDice(stream int64, at, kind int) nextFn {
	bias := uint64(stream) % 5
	f := func(q, i int) (dice.Die, error) {
		v := 1
		if q >= 1 {
			h := fnv.New64a()
			fmt.Fprintf(h, "%d.%d.%d", stream, i, q)
			x := h.Sum64()
			x ^= x >> 29
			v = 1 + int(x%uint64(q))
			if bias == 0 && x>>60 < 6 {
				v = q
			}
		}
		return dice.Die{Value: v, Sides: q}, nil
	}
	return faultAt(f, at, kind)
}

func faultAt(f nextFn, at, kind int) nextFn {
	return func(q, i int) (dice.Die, error) {
		if i != at {
			return f(q, i)
		}
		switch kind {
		case 0:
			return dice.Die{}, errors.New("die source failed")
		case 1:
			return dice.Die{Value: 1, Sides: q + 1}, nil
		case 2:
			return dice.Die{Value: 1, Sides: q - 1}, nil
		case 3:
			return dice.Die{Value: 0, Sides: q}, nil
		case 4:
			return dice.Die{Value: q + 1, Sides: q}, nil
		case 5:
			return dice.Die{Value: -1, Sides: q}, nil
		case 6:
			return dice.Die{Value: 3, Sides: 0}, nil
		default:
			return dice.Die{Value: 1, Sides: -q}, nil
		}
	}
}

const faultKinds = 8

// hung is set when a call did not come back; the process then makes no more traces.
var hung bool

var callTimeout = 40 * time.Second

// guarded runs f and reports "" or how it failed to return.
func guarded(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v", e)
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(callTimeout)
	defer t.Stop()
	select {
	case s := <-done:
		return s
	case <-t.C:
		hung = true
		return "hang"
	}
}

func baseEvent(kind, s, game string) Event {
	return Event{"e": kind, "t": text(s), "b": fmt.Sprintf("%x", s), "g": game, "nores": true, "D": []Draw{}}
}

// exec runs a command and records it. The result itself is also returned.
func exec(b *bcdice.BCDice, src *Source, s string) (Event, *command.Result) {
	return execGame(b, src, s, b.DiceBot.GameID())
}

func execGame(b *bcdice.BCDice, src *Source, s, game string) (Event, *command.Result) {
	return record(src, s, game, func() (*command.Result, error) { return b.ExecuteCommand(s) })
}

func record(src *Source, s, game string, run func() (*command.Result, error)) (Event, *command.Result) {
	journal("exec", s)
	var res *command.Result
	var err error
	src.take()
	bad := guarded(func() { res, err = run() })
	journal("driver", s)
	ev := baseEvent("exec", s, game)
	if bad != "" {
		ev["out"] = bad
		if bad != "hang" {
			ev["D"] = src.take()
		}
		return ev, nil
	}
	ev["D"] = src.take()
	outcome(ev, res, err)
	return ev, res
}

// outcome notes what a command came to.
func outcome(ev Event, res *command.Result, err error) {
	ev["nores"] = res == nil
	switch {
	case err != nil:
		ev["out"] = "error"
	case res == nil:
		ev["out"] = "neither reply nor error"
	default:
		ev["out"] = "reply"
		parts := []string{}
		ev["parts"] = append(parts, res.MessageParts...)
		ev["msg"] = res.Message()
		ev["joined"] = res.JoinedMessageParts()
		ev["game"] = res.GameID
		ev["verdict"] = res.SuccessCheckResult.String()
		ev["secret"] = res.IsSecret
		ev["dice"] = diceJ(res.RolledDice)
	}
}

func clone(ev Event, kind string) Event {
	r := Event{}
	for k, v := range ev {
		r[k] = v
	}
	r["e"] = kind
	return r
}

// execLimit runs a command text with another limit for rerolls; ok tells
// whether the limit can be set.
func execLimit(src *Source, s string, limit int) (ev Event, ok bool) {
	e := evaluator.NewEvaluator(roller.New(src), evaluator.NewEnvironment())
	f := reflect.ValueOf(e).Elem().FieldByName("MaxRerolls")
	if !f.IsValid() || f.Kind() != reflect.Int || !f.CanSet() {
		return nil, false
	}
	f.SetInt(int64(limit))
	ev, _ = record(src, s, "DiceBot", func() (*command.Result, error) {
		n, err := parser.Parse("input", []byte(s))
		if err != nil {
			return nil, err
		}
		return command.Execute(n.(ast.Node), "DiceBot", e)
	})
	return ev, true
}

// parse records what the parser makes of a text.
func parse(s string) Event {
	journal("parse", s)
	var n interface{}
	var err error
	var x string
	bad := guarded(func() {
		n, err = parser.Parse("input", []byte(s))
		if err == nil {
			x = n.(ast.Node).SExp()
		}
	})
	journal("driver", s)
	ev := Event{"e": "parse", "t": text(s), "b": fmt.Sprintf("%x", s), "x": ""}
	switch {
	case bad != "":
		ev["out"] = bad
	case err != nil:
		ev["out"] = "error"
	default:
		ev["out"] = "tree"
		ev["x"] = x
		if c, ok := n.(*ast.Choice); ok {
			items := []Text{}
			for _, i := range c.Items {
				items = append(items, text(i.Value))
			}
			ev["out"] = "items"
			ev["items"] = items
		}
	}
	return ev
}
