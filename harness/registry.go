package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	osexec "os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/pkg/version"
)

// The games registered beside the base system: see /verif/overlay.
func extraGames() [][]string {
	var games [][]string
	if s := os.Getenv("VERIF_GAMES"); s != "" {
		if err := json.Unmarshal([]byte(s), &games); err != nil {
			fail(err)
		}
	}
	return games
}

func codes(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// leaves is a JSON value as the list of its leaves.
func leaves(prefix string, v interface{}) []string {
	name := func(k string) string {
		if prefix == "" {
			return k
		}
		return prefix + "." + k
	}
	switch x := v.(type) {
	case map[string]interface{}:
		r := []string{}
		for k, y := range x {
			r = append(r, leaves(name(k), y)...)
		}
		return r
	case []interface{}:
		r := []string{fmt.Sprintf("%s#%d", prefix, len(x))}
		for i, y := range x {
			r = append(r, leaves(fmt.Sprintf("%s[%d]", prefix, i+1), y)...)
		}
		return r
	case string:
		return []string{prefix + "=\"" + x + "\""}
	case json.Number:
		return []string{prefix + "=" + x.String()}
	}
	return []string{fmt.Sprintf("%s=%v", prefix, v)}
}

func noteResponse(ev Event, code int, header http.Header, body []byte) {
	ev["code2"] = code
	ev["leaves"] = []string{}
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil || strings.TrimSpace(strings.TrimPrefix(string(body), "")) == "" {
		ev["json"] = false
		ev["leaves"] = []string{"text=" + string(body)}
		return
	}
	if _, ok := v.(map[string]interface{}); !ok || d.More() {
		ev["json"] = false
		return
	}
	ev["json"] = strings.HasPrefix(header.Get("Content-Type"), "application/json")
	l := leaves("", v)
	sort.Strings(l)
	ev["leaves"] = l
}

// shop is everything a history of the registry works on.
type shop struct {
	sessions map[int]*bcdice.BCDice
	server   *echo.Echo
	errs     *helpers.Errors
	url      string // of the server process, if one runs
	t        Trace
}

func newShop() *shop {
	s := &shop{sessions: map[int]*bcdice.BCDice{}, server: echo.New(), errs: helpers.NewErrors()}
	controllers.Setup(s.server)
	games := []Event{}
	for _, g := range extraGames() {
		games = append(games, Event{"id": g[0], "name": g[1], "key": g[2], "idc": codes(g[0]), "keyc": codes(g[2])})
	}
	s.t = Trace{{"op": "begin", "games": games, "ver": []string{version.API_VERSION, version.BCDICE_VERSION}}}
	return s
}

func infoOf(d dicebot.DiceBot) []string { return []string{d.GameID(), d.GameName(), d.SortKey()} }

func (s *shop) get(ev Event, method, path string) {
	if s.url != "" {
		req, err := http.NewRequest(method, s.url+path, nil)
		if err != nil {
			fail(err)
		}
		c := http.Client{Timeout: 20 * time.Second}
		r, err := c.Do(req)
		if err != nil {
			ev["code2"], ev["json"], ev["leaves"] = 0, false, []string{err.Error()}
			return
		}
		b, _ := ioutil.ReadAll(r.Body)
		r.Body.Close()
		noteResponse(ev, r.StatusCode, r.Header, b)
		return
	}
	rec := httptest.NewRecorder()
	s.server.ServeHTTP(rec, httptest.NewRequest(method, path, nil))
	noteResponse(ev, rec.Code, rec.Header(), rec.Body.Bytes())
}

// value makes a JSON object out of leaves "name=value" with text values.
func bodyOf(ls []string) helpers.ResponseMap {
	m := helpers.ResponseMap{}
	for _, l := range ls {
		i := strings.Index(l, "=")
		k, v := l[:i], l[i+1:]
		switch {
		case strings.HasPrefix(v, "\""):
			m[k] = v[1 : len(v)-1]
		case v == "true", v == "false":
			m[k] = v == "true"
		default:
			n := 0
			fmt.Sscan(v, &n)
			m[k] = n
		}
	}
	return m
}

// apply applies the operation of an event and notes the answer in it.
func (s *shop) apply(ev Event) Event {
	p := guarded(func() { s.do(ev) })
	if p != "" {
		ev["code2"], ev["json"], ev["leaves"], ev["has"], ev["all"] = 0, false, []string{p}, false, []string{p}
		switch ev["op"] {
		case "game", "find", "ids", "infos":
			ev["ans"] = []string{p}
		default:
			ev["ans"] = p
		}
	}
	return ev
}

func (s *shop) do(ev Event) {
	viaContext := func(f func(c echo.Context) error) {
		rec := httptest.NewRecorder()
		err := f(s.server.NewContext(httptest.NewRequest("GET", "/", nil), rec))
		noteResponse(ev, rec.Code, rec.Header(), rec.Body.Bytes())
		if err != nil {
			ev["leaves"] = []string{"error: " + err.Error()}
		}
	}
	ev["ans"] = "none"
	switch ev["op"] {
	case "new":
		s.sessions[ev["i"].(int)] = bcdice.New(&Source{})
	case "select":
		ev["ans"] = "ok"
		if err := s.sessions[ev["i"].(int)].SetDiceBotByGameID(ev["id"].(string)); err != nil {
			ev["ans"] = "error"
		}
	case "game":
		ev["ans"] = infoOf(s.sessions[ev["i"].(int)].DiceBot)
	case "find":
		f, err := dicebotlist.Find(ev["id"].(string))
		if err != nil {
			ev["ans"] = []string{"error"}
		} else {
			ev["ans"] = infoOf(f())
		}
	case "ids":
		ids := dicebotlist.AvailableGameIDs(ev["base"].(bool))
		ev["ans"] = append([]string{}, ids...)
		for i := range ids { // it is the caller's, who may do with it what he likes
			ids[i] = "changed"
		}
		_ = append(ids[:0], "more", "and more")
	case "infos":
		r := [][]string{}
		infos := dicebotlist.AvailableGameInfos(ev["base"].(bool))
		for i, x := range infos.Name {
			r = append(r, []string{x.System, x.Name, x.SortKey})
			infos.Name[i].System, infos.Name[i].Name, infos.Name[i].SortKey = "changed", "", "~"
		}
		ev["ans"] = r
	case "http":
		s.get(ev, "GET", ev["path"].(string)+strOr(ev["query"]))
	case "nowhere":
		s.get(ev, "GET", ev["path"].(string))
	case "object":
		viaContext(func(c echo.Context) error {
			return helpers.JSONResponse(c, ev["code"].(int), bodyOf(ev["body"].([]string)))
		})
	case "array":
		viaContext(func(c echo.Context) error {
			var ms []helpers.ResponseMap
			for _, i := range ev["items"].([][]string) {
				ms = append(ms, bodyOf(i))
			}
			if ms == nil {
				ms = []helpers.ResponseMap{}
			}
			return helpers.JSONResponseArray(c, ev["code"].(int), ms)
		})
	case "failure":
		viaContext(func(c echo.Context) error {
			return helpers.JSONResponseError(c, helpers.NewResponseError(ev["code"].(int), ev["msg"].(string)))
		})
	case "clear":
		s.errs.Clear()
	case "add":
		s.errs.Add(ev["field"].(string), ev["msg"].(string))
	case "min":
		s.errs.ValidateMinValue(ev["v"].(int), ev["b"].(int), ev["field"].(string), ev["msg"].(string))
	case "max":
		s.errs.ValidateMaxValue(ev["v"].(int), ev["b"].(int), ev["field"].(string), ev["msg"].(string))
	case "errors":
		all := [][]string{}
		for k, v := range s.errs.Messages {
			all = append(all, []string{k, v})
		}
		sort.Slice(all, func(i, j int) bool { return all[i][0] < all[j][0] })
		ev["has"], ev["all"] = s.errs.HasMessages(), all
	default:
		fail(fmt.Errorf("unknown operation %v", ev["op"]))
	}
}

func strOr(v interface{}) string {
	if s, ok := v.(string); ok {
		return s
	}
	return ""
}

// replayRegistry replays the histories of the specification, each in a process
// with the registry it is about.
func replayRegistry(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	groups := map[string][]string{}
	for sc.Scan() {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c struct {
			Games [][]string `json:"games"`
		}
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		sort.Slice(c.Games, func(i, j int) bool { return c.Games[i][0] < c.Games[j][0] })
		k := asJSON(c.Games)
		groups[k] = append(groups[k], js)
	}
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	var keys []string
	for k := range groups {
		if k == "[]" || os.Getenv("VERIF_INJECTED") == "1" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for i, k := range keys {
		file := fmt.Sprintf("%s.part%d", out, i)
		if err := ioutil.WriteFile(file, []byte(strings.Join(groups[k], "\n")), 0600); err != nil {
			fail(err)
		}
		c := osexec.Command(os.Args[0], "replayregistry1", file, file+".out")
		c.Env = append(os.Environ(), "VERIF_GAMES="+k, "JOURNAL=")
		c.Stderr = os.Stderr
		if err := c.Run(); err != nil {
			if x, ok := err.(*osexec.ExitError); ok {
				os.Exit(x.ExitCode()) // as it did
			}
			fail(err)
		}
		var ts []Trace
		b, err := ioutil.ReadFile(file + ".out")
		if err != nil {
			fail(err)
		}
		if err := json.Unmarshal(b, &ts); err != nil {
			fail(err)
		}
		if len(bad) < 200 {
			bad = append(bad, ts...)
		}
		stats["cases"] += len(groups[k])
		stats["registries"]++
		if i%4 == 1 {
			samples = append(samples, groups[k][0][:300])
		}
		os.Remove(file)
		os.Remove(file + ".out")
	}
	writeOut(out, bad, stats, samples)
}

func replayRegistry1(in, out string) {
	b, err := ioutil.ReadFile(in)
	if err != nil {
		fail(err)
	}
	bad := []Trace{}
	for _, js := range strings.Split(string(b), "\n") {
		var c struct {
			H []struct {
				O struct {
					Op   string `json:"op"`
					I    int    `json:"i"`
					ID   string `json:"id"`
					Base bool   `json:"base"`
					Path string `json:"path"`
				} `json:"o"`
				Ans interface{} `json:"ans"`
			} `json:"h"`
		}
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(err)
		}
		s := newShop()
		s.t = append(s.t, s.apply(Event{"op": "new", "i": 1}), s.apply(Event{"op": "new", "i": 2}))
		good := true
		for _, x := range c.H {
			ev := s.apply(Event{"op": x.O.Op, "i": x.O.I, "id": x.O.ID, "base": x.O.Base, "path": x.O.Path})
			s.t = append(s.t, ev)
			if x.O.Op == "http" {
				want := x.Ans.(map[string]interface{})
				var ls []string
				for _, l := range want["body"].([]interface{}) {
					ls = append(ls, l.(string))
				}
				sort.Strings(ls)
				good = good && ev["code2"] == 200 && ev["json"] == true && asJSON(ls) == asJSON(ev["leaves"])
			} else {
				good = good && asJSON(x.Ans) == asJSON(ev["ans"])
			}
			if !good {
				break
			}
		}
		if !good && len(bad) < 100 {
			bad = append(bad, s.t)
		}
	}
	writeJSON(out, bad)
}

// serve runs the API as a process of its own.
func serve() (url string, stop func()) {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return "", func() {}
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		dir, err := ioutil.TempDir(os.Getenv("SHELL_DIR"), "api")
		if err != nil {
			fail(err)
		}
		c := osexec.Command(os.Getenv("API_BINARY"))
		c.Dir = dir
		c.Env = []string{fmt.Sprint("PORT=", port), "HOME=" + dir, "TMPDIR=" + dir, "VERIF_GAMES=" + os.Getenv("VERIF_GAMES")}
		if try%2 == 0 {
			c.Env = append(c.Env, "ECHO_ENV=production")
		}
		if err := c.Start(); err != nil {
			fail(err)
		}
		stop = func() { c.Process.Kill(); c.Wait(); os.RemoveAll(dir) }
		for k := 0; k < 200; k++ {
			n, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", port), time.Second)
			if err == nil {
				n.Close()
				return fmt.Sprint("http://127.0.0.1:", port), stop
			}
			time.Sleep(20 * time.Millisecond)
		}
		stop()
	}
	return "", func() {}
}

func (g *Gen) leaf() string {
	k := g.pick("a", "b", "name", "ok", "count", "items", "value")
	if k == "ok" {
		return k + "=" + g.pick("true", "false")
	}
	return k + "=" + g.pick("\"x\"", "\"\"", "1", "0", "-7", "true", "\"ok\"", "\"<b>&\"", "\"剣\"")
}

func (g *Gen) leafList() []string {
	r := []string{}
	seen := map[string]bool{}
	for n := g.Intn(4); n > 0; n-- {
		l := g.leaf()
		if k := strings.SplitN(l, "=", 2)[0]; !seen[k] {
			seen[k] = true
			r = append(r, l)
		}
	}
	return r
}

func (g *Gen) gameID() string {
	ids := []string{"DiceBot"}
	for _, x := range extraGames() {
		ids = append(ids, x[0])
	}
	if g.p(25) {
		return g.pick("", "dicebot", "DiceBot ", " DiceBot", "Dice", "DICEBOT", "DiceBotX", "?", "Cthulhu", "剣", "*たいすほつと", "A", "b")
	}
	return ids[g.Intn(len(ids))]
}

func (g *Gen) registryOp(session func() int) Event {
	switch x := g.Intn(100); {
	case x < 3:
		return Event{"op": "new", "i": session()}
	case x < 18:
		return Event{"op": "select", "i": session(), "id": g.gameID()}
	case x < 33:
		return Event{"op": "game", "i": session()}
	case x < 41:
		return Event{"op": "find", "id": g.gameID()}
	case x < 47:
		return Event{"op": "ids", "base": g.p(50)}
	case x < 53:
		return Event{"op": "infos", "base": g.p(50)}
	}
	ev := Event{"op": "http", "path": g.pick("/", "/v1/version", "/v1/systems", "/v1/names")}
	if g.p(15) {
		ev["query"] = g.pick("?a=b", "?", "?ok=false&names=", "?system=DiceBot")
	}
	if g.p(8) {
		ev = Event{"op": "nowhere", "path": g.pick("/v1", "/v2/names", "/names", "/v1/name", "/v1/names/x", "/version", "/x", "/v1/systemss")}
	}
	return ev
}

func driveRegistry(g *Gen, i int) Trace {
	s := newShop()
	add := func(ev Event) { s.t = append(s.t, s.apply(ev)) }
	n := 3
	for k := 1; k <= n; k++ {
		add(Event{"op": "new", "i": k})
	}
	if i%60 == 1 && os.Getenv("API_BINARY") != "" {
		url, stop := serve()
		defer stop()
		s.url = url
		if url == "" {
			s.url = "http://127.0.0.1:1" // it did not start, so that nothing answers
		}
	}
	switch {
	case s.url != "" || i%3 == 0:
		// several threads, each with a session of its own
		var mu sync.Mutex
		var wg sync.WaitGroup
		var seeds []int64
		for k := 1; k <= n; k++ {
			seeds = append(seeds, g.Int63())
		}
		base := *s
		for k := 1; k <= n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				h := newGenFrom(g, seeds[k-1])
				mine := base
				mine.sessions = map[int]*bcdice.BCDice{k: base.sessions[k]}
				for j := 0; j < 12; j++ {
					ev := mine.apply(h.registryOp(func() int { return k }))
					mu.Lock()
					s.t = append(s.t, ev)
					mu.Unlock()
				}
			}(k)
		}
		wg.Wait()
	case i%3 == 1:
		for j := 0; j < 30; j++ {
			add(g.registryOp(func() int { return 1 + g.Intn(n) }))
		}
	default:
		code := func() int {
			return []int{200, 200, 200, 201, 202, 203, 206, 208, 226, 298, 299, 300, 302, 307, 400, 401, 403, 404, 409, 418, 422, 499, 500, 503, 599}[g.Intn(25)]
		}
		for j := 0; j < 24; j++ {
			field, msg := g.pick("a", "b", "c", ""), g.pick("too small", "too large", "", "%d", "剣")
			switch g.Intn(12) {
			case 0, 1:
				add(Event{"op": "object", "code": code(), "body": g.leafList()})
			case 2, 3:
				items := [][]string{}
				for k := g.Intn(4); k > 0; k-- {
					items = append(items, g.leafList())
				}
				add(Event{"op": "array", "code": code(), "items": items})
			case 4:
				add(Event{"op": "failure", "code": code(), "msg": g.pick("not found", "", "%s <b>", "見つかりません", "ok")})
			case 5:
				add(Event{"op": "add", "field": field, "msg": msg})
			case 6, 7:
				add(Event{"op": "min", "v": g.Intn(7) - 3, "b": g.Intn(7) - 3, "field": field, "msg": msg})
			case 8, 9:
				add(Event{"op": "max", "v": g.Intn(7) - 3, "b": g.Intn(7) - 3, "field": field, "msg": msg})
			case 10:
				if g.p(40) {
					add(Event{"op": "clear"})
				}
			default:
				add(Event{"op": "errors"})
			}
			if g.p(30) {
				add(Event{"op": "errors"})
			}
		}
	}
	return s.t
}

// driveRegistryStorm lets several threads ask for n answers each.  An answer
// is left out of the trace when the same question has been answered just so by
// the same thread before; questions that go to a session stay in.
func driveRegistryStorm(n int) func(g *Gen, i int) Trace {
	return func(g *Gen, i int) Trace {
		s := newShop()
		const threads = 6
		base := *s
		gens := make([]*Gen, threads)
		ts := make([]Trace, threads)
		for k := range gens {
			gens[k] = newGenFrom(g, g.Int63())
		}
		for k := 0; k < threads; k++ {
			s.t = append(s.t, base.apply(Event{"op": "new", "i": k + 1}))
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range gens {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				h := gens[k]
				mine := base
				mine.sessions = map[int]*bcdice.BCDice{k + 1: base.sessions[k+1]}
				given := map[string]string{}
				// every thread has some questions of its own and asks them over and over
				questions := []Event{
					{"op": "ids", "base": true}, {"op": "ids", "base": false},
					{"op": "infos", "base": true}, {"op": "infos", "base": false},
					{"op": "http", "path": "/"}, {"op": "http", "path": "/v1/version"},
					{"op": "http", "path": "/v1/systems"}, {"op": "http", "path": "/v1/names"},
					{"op": "nowhere", "path": "/v1/nothing"},
					{"op": "failure", "code": 400 + k, "msg": fmt.Sprint("not found ", k)},
					{"op": "object", "code": []int{200, 404, 201}[k%3], "body": h.leafList()},
				}
				for j := 0; j < 3; j++ {
					items := [][]string{}
					for x := 0; x < k+j; x++ {
						items = append(items, h.leafList())
					}
					questions = append(questions, Event{"op": "array", "code": []int{200, 200, 500}[(k+j)%3], "items": items})
					questions = append(questions, Event{"op": "find", "id": h.gameID()})
				}
				<-start
				for j := 0; j < n && !hung; j++ {
					ev := Event{}
					for f, v := range questions[h.Intn(len(questions))] {
						ev[f] = v
					}
					if h.p(4) {
						ev = Event{"op": "select", "i": k + 1, "id": h.gameID()}
						ts[k] = append(ts[k], mine.apply(ev))
						ev = Event{"op": "game", "i": k + 1}
					}
					q, err := json.Marshal(ev)
					if err != nil {
						fail(err)
					}
					mine.apply(ev)
					a, err := json.Marshal(ev)
					if err != nil {
						fail(err)
					}
					if ev["op"] != "game" && given[string(q)] == string(a) {
						continue
					}
					given[string(q)] = string(a)
					ts[k] = append(ts[k], ev)
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for _, t := range ts {
			s.t = append(s.t, t...)
		}
		return s.t
	}
}
