package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	osexec "os/exec"
	"strconv"
	"sync"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
)

func game(id string) dicebot.DiceBot {
	return &dicebot.DiceBotImpl{BasicInfo: &dicebot.DiceBotBasicInfo{GameID: id, GameName: "name of " + id, SortKey: id}}
}

// own is a game system with commands of its own: each rolls some dice, shows
// the text it was given, and may give up.
type own struct {
	dicebot.DiceBotImpl
	cmds map[string]ownCmd
}

type ownCmd struct {
	n, q    int
	givesUp bool
	id      string // the identifier its reply goes by
	secret  bool   // its reply is marked secret whatever the input
	verdict int
}

func (o *own) ExecuteCommand(c string, ev *evaluator.Evaluator) (*command.Result, error) {
	cmd, ok := o.cmds[c]
	if !ok {
		return nil, errors.New("no such command")
	}
	if cmd.n > 0 {
		if _, err := ev.RollDice(cmd.n, cmd.q); err != nil {
			return nil, err
		}
	}
	if cmd.givesUp {
		return nil, errors.New("given up")
	}
	r := &command.Result{GameID: cmd.id, RolledDice: ev.RolledDice(), SuccessCheckResult: command.SuccessCheckResultType(cmd.verdict),
		IsSecret: cmd.secret}
	r.AppendMessagePart("own")
	r.AppendMessagePart(c)
	return r, nil
}

func ownGame(id string, g *Gen) *own {
	o := &own{DiceBotImpl: *game(id).(*dicebot.DiceBotImpl), cmds: map[string]ownCmd{}}
	for k := g.Intn(6); k > 0; k-- {
		c := g.pick("2D6", "X", "s1", "", "2D6>=7", "攻撃", "choice[a,b]", "-", "C(1)", "1d6")
		o.cmds[c] = ownCmd{n: g.Intn(4), q: 1 + g.Intn(9), givesUp: g.p(30),
			id: id, secret: g.p(30), verdict: g.Intn(3)}
		if g.p(20) {
			x := o.cmds[c]
			x.id = "other"
			o.cmds[c] = x
		}
	}
	return o
}

// ownJ is what the game does, for the specification.
func (o *own) json() []Event {
	r := []Event{}
	for c, x := range o.cmds {
		r = append(r, Event{"t": text(c), "n": num(x.n), "q": num(x.q), "up": x.givesUp, "id": x.id, "v": x.verdict})
	}
	return r
}

type kept struct {
	at  int
	res *command.Result
}

// driveHistories uses several instances in turn and at the same time, repeats
// commands, and looks at all replies again in the end.
func driveHistories(g *Gen, i int) Trace {
	t := Trace{}
	n := 2 + g.Intn(3)
	srcs := make([]*Source, n)
	bs := make([]*bcdice.BCDice, n)
	for k := range bs {
		srcs[k] = &Source{}
		bs[k] = bcdice.New(srcs[k])
	}
	type stim struct {
		s        string
		stream   int64
		at, kind int
	}
	var pool []stim
	for j := 0; j < 6; j++ {
		s := g.spare(func() string {
			if g.p(15) {
				return g.decorate(g.failing(), 10)
			}
			return g.decorate(g.command(g.family()), 10)
		})
		at, kind := g.fault()
		pool = append(pool, stim{s, int64(j), at, kind})
		if g.p(50) {
			if u := g.twin(s); !tooMany(u) {
				pool = append(pool, stim{u, int64(j), at, kind})
			}
		}
	}
	var keep []kept
	run := func(k int, p stim) (Event, *command.Result) {
		srcs[k].next, srcs[k].limit = streamDice(p.stream, p.at, p.kind), enough
		ev, res := exec(bs[k], srcs[k], p.s)
		ev["e"] = "again"
		ev["s"] = p.stream
		return ev, res
	}
	note := func(ev Event, res *command.Result) {
		t = append(t, ev)
		if res != nil {
			keep = append(keep, kept{len(t), res})
		}
	}
	games := []string{"DiceBot", "Other", "第二"}
	for j := 0; j < 18 && !hung; j++ {
		k := g.Intn(n)
		if g.p(12) {
			bs[k].DiceBot = game(games[g.Intn(3)])
		}
		if g.p(5) {
			bs[k].SetDiceBotByGameID("no such game")
		}
		if g.p(5) {
			srcs[k] = &Source{}
			bs[k].SetDieFeeder(srcs[k])
		}
		note(run(k, pool[g.Intn(len(pool))]))
	}
	if g.wide {
		// hundreds of other commands in between, on one instance
		k := g.Intn(n)
		for j := 0; j < 400 && !hung; j++ {
			srcs[k].next, srcs[k].limit = randomDice(g.Rand), 300
			s := g.pick("1D", "2B", "1R", "1U", "C(", "S1D", "2D") + strconv.Itoa(7+j%320)
			switch s[1] {
			case 'R', 'U':
				s += "[6]"
			case '(':
				s += "+3)"
			}
			ev, res := exec(bs[k], srcs[k], s)
			note(ev, res)
		}
		for j := 0; j < 6 && !hung; j++ {
			note(run(k, pool[g.Intn(len(pool))]))
		}
	}
	// the instances at the same time
	if i%2 == 0 && !hung {
		jobs := make([][]stim, n)
		evs := make([][]Event, n)
		ress := make([][]*command.Result, n)
		for k := range jobs {
			for j := 0; j < 5; j++ {
				jobs[k] = append(jobs[k], pool[g.Intn(len(pool))])
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range bs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for _, p := range jobs[k] {
					ev, res := run(k, p)
					evs[k] = append(evs[k], ev)
					ress[k] = append(ress[k], res)
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for k := range evs {
			for j := range evs[k] {
				note(evs[k][j], ress[k][j])
			}
		}
	}
	// and in processes where nothing else has happened
	fresh := make([]Event, len(pool))
	var wg sync.WaitGroup
	for j, p := range pool {
		wg.Add(1)
		go func(j int, p stim, game string) {
			defer wg.Done()
			fresh[j] = freshly(p.s, p.stream, p.at, p.kind, game)
		}(j, p, games[g.Intn(3)])
	}
	wg.Wait()
	for _, ev := range fresh {
		if ev != nil {
			t = append(t, ev)
		}
	}
	for _, p := range pool {
		if !hung {
			src := &Source{}
			b := bcdice.New(src)
			b.DiceBot = game(games[g.Intn(3)])
			t = append(t, again(b, src, p.s, p.stream, p.at, p.kind))
		}
	}
	for _, k := range keep {
		ev := Event{"e": "still", "at": k.at}
		outcome(ev, k.res, nil)
		t = append(t, ev)
	}
	return t
}

// twin is a text that is much like another one.
func (g *Gen) twin(s string) string {
	b := []byte(s)
	switch g.Intn(4) {
	case 0:
		for i, c := range b {
			if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
				b[i] = c ^ 32
			}
		}
	case 1:
		return s + g.pick(" ", " x", "0", ")", "+1")
	default:
		var at []int
		for i, c := range b {
			if '0' <= c && c <= '9' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			b[at[g.Intn(len(at))]] = byte('0' + g.Intn(10))
		}
	}
	return string(b)
}

// freshly executes a text in a process of its own; nil if that cannot be told.
func freshly(s string, stream int64, at, kind int, gameID string) Event {
	exe, err := os.Executable()
	if err != nil {
		fail(err)
	}
	c := osexec.Command(exe, "fresh", fmt.Sprintf("%x", s), fmt.Sprint(stream), fmt.Sprint(at), fmt.Sprint(kind), gameID)
	c.Env = append(os.Environ(), "JOURNAL=")
	out, err := c.Output()
	if err != nil {
		return nil
	}
	var ev Event
	if err := json.Unmarshal(out, &ev); err != nil {
		fail(err)
	}
	return ev
}

// fresh is that process.
func fresh(hex string, stream int64, at, kind int, gameID string) {
	var b []byte
	if _, err := fmt.Sscanf(hex, "%x", &b); err != nil && hex != "" {
		fail(err)
	}
	src := &Source{}
	bc := bcdice.New(src)
	bc.DiceBot = game(gameID)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(again(bc, src, string(b), stream, at, kind)); err != nil {
		fail(err)
	}
	w.Flush()
}

// driveGames runs commands under games of various names.
func driveGames(g *Gen, i int) Trace {
	t := Trace{}
	src := &Source{limit: 300}
	b := bcdice.New(src)
	var keep []kept
	ids := []string{"DiceBot", "Cthulhu", "", " : ", "＞", "剣の世界2.0", "a b", "SwordWorld", "%s", "\"q\""}
	for j := 0; j < 8 && !hung; j++ {
		if g.p(60) {
			b.DiceBot = game(ids[g.Intn(len(ids))])
			if g.p(50) {
				b.DiceBot = ownGame(ids[g.Intn(len(ids))], g)
			}
		}
		src.next = randomDice(g.Rand)
		if g.p(10) {
			src.next = faultAt(src.next, g.Intn(3), g.Intn(faultKinds))
		}
		want := b.DiceBot.GameID()
		s := g.spare(func() string { return g.decorate(g.command(g.family()), 10) })
		o, isOwn := b.DiceBot.(*own)
		if isOwn && g.p(70) {
			s = g.pick("", "", "S", "s", "ss", " ") + g.pick("2D6", "X", "s1", "", "2D6>=7", "攻撃", "choice[a,b]", "-", "C(1)", "1d6") +
				g.pick("", "", " ", "\t2", " 攻撃", "\n", "\f+1", " +1D6", "　x")
		}
		ev, res := execGame(b, src, s, want)
		if isOwn {
			ev["e"] = "own"
			ev["own"] = o.json()
		}
		t = append(t, ev)
		if res != nil {
			keep = append(keep, kept{len(t), res})
		}
	}
	for _, k := range keep {
		ev := Event{"e": "still", "at": k.at}
		outcome(ev, k.res, nil)
		t = append(t, ev)
	}
	return t
}

// driveLong keeps one instance at work for thousands of commands.  Executions
// that come to the same as the first one of the same text, dice and game are
// left out of the trace, but for the last ones: they change nothing in it.
func driveLong(n int) func(g *Gen, i int) Trace {
	return func(g *Gen, i int) Trace {
		t := Trace{}
		src := &Source{}
		b := bcdice.New(src)
		games := []string{"DiceBot", "Other", "第二"}
		type stim struct {
			s        string
			stream   int64
			at, kind int
		}
		var pool []stim
		for j := 0; j < 24; j++ {
			s := g.spare(func() string {
				if g.p(20) {
					return g.decorate(g.failing(), 10)
				}
				return g.decorate(g.command(g.family()), 10)
			})
			at, kind := g.fault()
			pool = append(pool, stim{s, int64(j), at, kind})
		}
		first := map[string]string{}
		differ := 0
		for j := 0; j < n && !hung && differ < 5; j++ {
			if j%97 == 96 {
				b.DiceBot = game(games[g.Intn(3)])
			}
			p := pool[g.Intn(len(pool))]
			src.next, src.limit = streamDice(p.stream, p.at, p.kind), 60
			ev, _ := exec(b, src, p.s)
			ev["e"] = "again"
			ev["s"] = p.stream
			key := fmt.Sprint(p.stream, ev["g"])
			js, err := json.Marshal(ev)
			if err != nil {
				fail(err)
			}
			if f, ok := first[key]; !ok {
				first[key] = string(js)
				t = append(t, ev)
			} else if f != string(js) {
				differ++
				t = append(t, ev)
			} else if j > n-len(pool) {
				t = append(t, ev)
			}
		}
		return t
	}
}
