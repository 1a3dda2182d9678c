package u04

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"context"

	"github.com/xhd2015/xgo/support/netutil"
	"github.com/xhd2015/xgo/support/session"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// ---------------------------------------------------------------- sessions

type Batch struct {
	Wait int // ms before it is sent
	N    int // events sent in one call
}
type Sender struct {
	Session int
	Batches []Batch
}
type Poller struct {
	Session int
	Waits   []int // ms between polls, cyclic
}
type SCase struct {
	Sessions int
	Senders  []Sender
	Pollers  []Poller
	Destroy  []int // sessions removed (by id) while they are in use
}

func genWait(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 0, 1, 20, 99, 100, 101, 250, 4899, 4950, 4999, 5000, 5001, 5099, 12000}).Draw(t, "wait")
}

func genS(t *rapid.T) SCase {
	c := SCase{Sessions: rapid.IntRange(1, 4).Draw(t, "sessions")}
	c.Senders = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Sender {
		return Sender{
			Session: rapid.IntRange(0, c.Sessions-1).Draw(t, "session"),
			Batches: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Batch {
				return Batch{genWait(t), rapid.SampledFrom([]int{0, 1, 1, 2, 7, 99, 100, 101, 250}).Draw(t, "n")}
			}), 1, 5).Draw(t, "batches"),
		}
	}), 1, 6).Draw(t, "senders")
	c.Pollers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Poller {
		return Poller{Session: rapid.IntRange(0, c.Sessions-1).Draw(t, "session"),
			Waits: rapid.SliceOfN(rapid.Custom(genWait), 1, 3).Draw(t, "waits")}
	}), 0, 4).Draw(t, "pollers")
	if rapid.IntRange(0, 3).Draw(t, "d") == 0 {
		c.Destroy = []int{rapid.IntRange(0, c.Sessions-1).Draw(t, "destroy")}
	}
	return c
}

type ev struct{ Session, Sender, Seq int }

func oracleS(t *testing.T, c SCase) (res vh.Result) {
	total := make([]int, c.Sessions)
	for _, s := range c.Senders {
		for _, b := range s.Batches {
			total[s.Session] += b.N
		}
	}
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if res.Err == nil {
			res.Err = fmt.Errorf(f, a...)
		}
	}
	var empties, full, contended int
	synctest.Test(t, func(t *testing.T) {
		m := session.NewSessionManager()
		ids := make([]string, c.Sessions)
		ses := make([]session.Session, c.Sessions)
		seen := map[string]bool{}
		for i := range ids {
			id, s, err := m.Start()
			if err != nil || s == nil {
				fail("Start: %v", err)
				return
			}
			if seen[id] {
				fail("two sessions got the id %q", id)
				return
			}
			seen[id] = true
			ids[i] = id
			ses[i] = s
		}
		if _, err := m.Get("no such session"); err == nil {
			fail("an unknown session was found")
		}
		got := make([]map[ev]int, c.Sessions)
		count := make([]int, c.Sessions)
		for i := range got {
			got[i] = map[ev]int{}
		}
		sent := make([]int, c.Sessions) // announced before the call
		recv := func(i int, by int, last map[int]int, wait func() int) {
			s := ses[i]
			k := 0
			for {
				mu.Lock()
				done := count[i] >= total[i]
				mu.Unlock()
				if done || k > 20000 {
					return
				}
				k++
				begin := time.Now()
				evs, err := s.PollEvents()
				el := time.Since(begin)
				if err != nil {
					fail("PollEvents: %v", err)
					return
				}
				if el > 5*time.Second+200*time.Millisecond {
					fail("a poll took %v, its limit is 5s", el)
					return
				}
				mu.Lock()
				if len(evs) == 0 {
					empties++
				} else if len(evs) > 100 {
					full++
				}
				for _, x := range evs {
					e, ok := x.(ev)
					if !ok {
						mu.Unlock()
						fail("polled %v, which nobody sent", x)
						return
					}
					count[i]++
					got[i][e]++
					if e.Session != i {
						mu.Unlock()
						fail("session %d delivers %v", i, e)
						return
					}
					if p, ok := last[e.Sender]; ok && p >= e.Seq {
						mu.Unlock()
						fail("poller %d of session %d got event %d of sender %d after event %d", by, i, e.Seq, e.Sender, p)
						return
					}
					last[e.Sender] = e.Seq
				}
				mu.Unlock()
				if len(evs) == 0 && el < 5*time.Second {
					fail("a poll gave up after %v, its limit is 5s", el)
					return
				}
				if w := wait(); w > 0 {
					time.Sleep(time.Duration(w) * time.Millisecond)
				}
			}
		}
		var wg sync.WaitGroup
		for si, s := range c.Senders {
			wg.Add(1)
			go func() {
				defer wg.Done()
				seq := 0
				for _, b := range s.Batches {
					time.Sleep(time.Duration(b.Wait) * time.Millisecond)
					var evs []interface{}
					for k := 0; k < b.N; k++ {
						evs = append(evs, ev{s.Session, si, seq})
						seq++
					}
					mu.Lock()
					sent[s.Session] += b.N
					mu.Unlock()
					if err := ses[s.Session].SendEvents(evs...); err != nil {
						fail("SendEvents: %v", err)
					}
				}
			}()
		}
		npoll := make([]int, c.Sessions)
		for pi, p := range c.Pollers {
			wg.Add(1)
			npoll[p.Session]++
			go func() {
				defer wg.Done()
				k := 0
				recv(p.Session, pi, map[int]int{}, func() int { k++; return p.Waits[(k-1)%len(p.Waits)] })
			}()
		}
		for _, n := range npoll {
			if n > 1 {
				contended++
			}
		}
		for _, d := range c.Destroy {
			time.Sleep(50 * time.Millisecond)
			if err := m.Destroy(ids[d]); err != nil {
				fail("Destroy: %v", err)
			}
			if _, err := m.Get(ids[d]); err == nil {
				fail("a removed session was found")
			}
		}
		for i, id := range ids {
			dead := false
			for _, d := range c.Destroy {
				dead = dead || d == i
			}
			if dead {
				continue
			}
			if s, err := m.Get(id); err != nil || s != ses[i] {
				fail("Get(%q) is %v, %v", id, s, err)
			}
		}
		// one more, so that everything is polled in the end
		for i := range ses {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if npoll[i] > 0 {
					time.Sleep(5 * time.Minute)
				}
				recv(i, -1, map[int]int{}, func() int { return 0 })
			}()
		}
		wg.Wait()
		for i := range ses {
			if res.Err != nil {
				break
			}
			for e, n := range got[i] {
				if n != 1 {
					fail("event %v was delivered %d times", e, n)
				}
			}
			if len(got[i]) != total[i] {
				fail("session %d: %d events sent, %d delivered", i, total[i], len(got[i]))
			}
		}
	})
	if empties > 0 {
		res.Classes = append(res.Classes, "empty-poll")
	}
	if full > 0 {
		res.Classes = append(res.Classes, "poll>100")
	}
	if contended > 0 {
		res.Classes = append(res.Classes, "several-pollers")
	}
	if len(c.Destroy) > 0 {
		res.Classes = append(res.Classes, "destroyed-in-use")
	}
	n := 0
	for _, x := range total {
		n += x
	}
	res.NonTrivial = n > 1 && len(c.Senders) > 1
	return
}

func TestSession(t *testing.T) {
	vh.Run(t, "session", vh.Options{
		Rule: "session: schedules (virtual time) of up to 6 senders and 4+1 pollers on up to 4 sessions; non-trivial: more than one sender and event",
	}, genS, func(c SCase) vh.Result { return oracleS(t, c) })
}

// ---------------------------------------------------------------- HandleJSON

type V struct {
	Kind int // 0 nil 1 string 2 int 3 struct 4 map 5 slice 6 typed nil pointer 7 not marshalable
	S    string
	N    int
	Sub  []V
}

type HCase struct {
	Method string
	Val    V
	Fail   int // 0 value, 1.. error forms, 10.. panics
	Msg    string
	Code   int
}

type sub struct {
	Name string `json:"name"`
	Num  int
	Sub  []interface{} `json:"sub,omitempty"`
}

func (v V) value() interface{} {
	switch v.Kind {
	case 0:
		return nil
	case 1:
		return v.S
	case 2:
		return v.N
	case 3:
		s := &sub{Name: v.S, Num: v.N}
		for _, x := range v.Sub {
			s.Sub = append(s.Sub, x.value())
		}
		return s
	case 4:
		m := map[string]interface{}{}
		for i, x := range v.Sub {
			m[fmt.Sprint(v.S, i)] = x.value()
		}
		return m
	case 5:
		l := []interface{}{}
		for _, x := range v.Sub {
			l = append(l, x.value())
		}
		return l
	case 6:
		return (*sub)(nil)
	}
	return make(chan int)
}

type statusErr struct {
	msg  string
	code int
}

func (s *statusErr) Error() string       { return s.msg }
func (s *statusErr) HttpStatusCode() int { return s.code }

var _ netutil.HttpStatusErr = (*statusErr)(nil)

func genV(t *rapid.T, depth int) V {
	v := V{Kind: rapid.IntRange(0, 7).Draw(t, "kind"), S: rapid.String().Draw(t, "s"), N: rapid.Int().Draw(t, "n")}
	if v.Kind == 7 && rapid.IntRange(0, 2).Draw(t, "really") > 0 {
		v.Kind = 3
	}
	if v.Kind >= 3 && v.Kind <= 5 && depth > 0 {
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nsub"); i < n; i++ {
			v.Sub = append(v.Sub, genV(t, depth-1))
		}
	}
	return v
}

func genH(t *rapid.T) HCase {
	return HCase{
		Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "POST", "PUT", "HEAD", "OPTIONS"}).Draw(t, "method"),
		Val:    genV(t, 3),
		Fail:   rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15}).Draw(t, "fail"),
		Msg:    "m" + rapid.StringMatching(`[a-z<>& é"%]{0,12}`).Draw(t, "msg"),
		Code:   rapid.SampledFrom([]int{400, 401, 404, 409, 500, 503}).Draw(t, "code"),
	}
}

func oracleH(c HCase) (res vh.Result) {
	called := 0
	h := func(ctx context.Context, r *http.Request) (interface{}, error) {
		called++
		v := c.Val.value()
		switch c.Fail {
		case 1:
			return v, errors.New(c.Msg)
		case 2:
			return nil, errors.New(c.Msg)
		case 3:
			return nil, &statusErr{c.Msg, c.Code}
		case 4:
			return v, netutil.ParamErrorf("%s", c.Msg)
		case 5:
			return nil, fmt.Errorf("wrap: %w", &statusErr{c.Msg, c.Code})
		case 10:
			panic(c.Msg)
		case 11:
			panic(errors.New(c.Msg))
		case 12:
			panic(&statusErr{c.Msg, c.Code})
		case 13:
			var m map[string]int
			m[c.Msg] = 1
		case 14:
			var s []int
			_ = s[len(c.Msg)]
		case 15:
			panic(len(c.Msg) + 1000)
		}
		return v, nil
	}
	w := httptest.NewRecorder()
	r := httptest.NewRequest(c.Method, "/x", strings.NewReader("{}"))
	netutil.SetCORSHeaders(w)
	netutil.HandleJSON(w, r, h)
	body := w.Body.String()
	if c.Method == "OPTIONS" {
		res.Classes = append(res.Classes, "options")
		if called != 0 || w.Code != 200 || body != "" {
			return vh.Errf("OPTIONS: handler called %d times, status %d, body %q", called, w.Code, body)
		}
		return
	}
	if called != 1 {
		return vh.Errf("the handler was called %d times", called)
	}
	want, merr := json.Marshal(c.Val.value())
	msg := ""
	code := 500
	switch c.Fail {
	case 0:
		if merr != nil {
			msg = "unsupported type"
		}
	case 3, 12:
		msg, code = c.Msg, c.Code
	case 4:
		msg, code = c.Msg, 400
	case 5:
		msg, code = c.Msg, 0
	case 13:
		msg = "nil map"
	case 14:
		msg = "out of range"
	case 15:
		msg = fmt.Sprint(len(c.Msg) + 1000)
	default:
		msg = c.Msg
	}
	res.NonTrivial = true
	if msg != "" {
		res.Classes = append(res.Classes, fmt.Sprintf("fail-%d", c.Fail))
		if w.Code == 200 || code != 0 && w.Code != code {
			return vh.Errf("form %d: the handler failed with %q, the answer has status %d, body %q", c.Fail, msg, w.Code, body)
		}
		if !strings.Contains(body, msg) {
			return vh.Errf("form %d: the handler failed with %q, the answer is %q", c.Fail, msg, body)
		}
		return
	}
	res.Classes = append(res.Classes, "value")
	if w.Code != 200 {
		return vh.Errf("status %d, body %q for the value %s", w.Code, body, want)
	}
	if ct := w.Result().Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		return vh.Errf("the content type of a result is %q", ct)
	}
	var a, b interface{}
	if err := json.Unmarshal([]byte(body), &a); err != nil {
		return vh.Errf("not JSON: %v: %q", err, body)
	}
	json.Unmarshal(want, &b)
	if !reflect.DeepEqual(a, b) {
		return vh.Errf("got %s, want %s", body, want)
	}
	return
}

func TestHandleJSON(t *testing.T) {
	log.SetOutput(io.Discard)
	vh.Run(t, "handlejson", vh.Options{
		Rule: "handlejson: values, errors and panics of a handler; non-trivial: the handler was called",
	}, genH, oracleH)
}
