package hant

import (
	"context"
	"errors"
	"io"
	"net/url"
	"os"
	"sync"
	"testing"

	"github.com/yields/ant"
	"github.com/yields/ant/anttest"
	"github.com/yields/ant/zverif/mc"
)

// suiteQueue is a queue of a user who tests it with the suite: the real one
// with at most one fault.
type suiteQueue struct {
	ant.Queue
	fault string
	mu    sync.Mutex
	n     int // Enqueue calls
	got   int // Dequeue calls that returned a URL
}

var suiteFaults = []string{
	"", "slow",
	"reverse", "duplicate", "lose", "alter", "empty", "alter first", "alter second", "twice",
	"enqueue closed nil", "enqueue closed error", "enqueue canceled nil", "enqueue canceled error",
	"dequeue closed error", "dequeue closed nil", "dequeue canceled error", "dequeue canceled nil",
	"close error", "enqueue fails first", "enqueue fails 500", "enqueue fails last", "enqueue fails batch",
	"dequeue fails first", "dequeue fails second", "dequeue fails reader", "closed is canceled", "other cancellation",
}

func (q *suiteQueue) Enqueue(ctx context.Context, urls []*url.URL) error {
	q.mu.Lock()
	q.n++
	n := q.n
	q.mu.Unlock()
	switch {
	case q.fault == "enqueue fails first" && n == 1 && ctx.Err() == nil,
		q.fault == "enqueue fails 500" && n == 500,
		q.fault == "enqueue fails last" && n == 1000,
		q.fault == "enqueue fails batch" && len(urls) == 3:
		return errBoom
	}
	us := append([]*url.URL(nil), urls...)
	switch {
	case q.fault == "slow":
		for _, u := range us {
			if err := q.Queue.Enqueue(ctx, []*url.URL{u}); err != nil {
				return err
			}
		}
		return nil
	case q.fault == "reverse" && len(us) == 2:
		us[0], us[1] = us[1], us[0]
	case q.fault == "alter first" && len(us) == 2:
		c := *us[0]
		c.Fragment = "f"
		us[0] = &c
	case q.fault == "alter second" && len(us) == 2:
		c := *us[1]
		c.Scheme = "http"
		us[1] = &c
	case q.fault == "twice" && len(us) == 2:
		us[1] = us[0]
	case q.fault == "duplicate" && len(us) == 3:
		us[1] = us[0]
	case q.fault == "lose" && len(us) == 3:
		us[2], _ = url.Parse("https://d")
	case q.fault == "alter" && len(us) == 3:
		c := *us[1]
		c.Path = "/"
		us[1] = &c
	case q.fault == "empty" && len(us) == 3:
		us[0] = new(url.URL)
	}
	err := q.Queue.Enqueue(ctx, us)
	switch {
	case q.fault == "enqueue closed nil" && err == io.EOF, q.fault == "enqueue canceled nil" && err == context.Canceled:
		return nil
	case q.fault == "enqueue closed error" && err == io.EOF, q.fault == "enqueue canceled error" && err == context.Canceled:
		return errBoom
	case q.fault == "closed is canceled" && err == io.EOF:
		return context.Canceled
	}
	return err
}

func (q *suiteQueue) Dequeue(ctx context.Context) (*url.URL, error) {
	u, err := q.Queue.Dequeue(ctx)
	switch {
	case q.fault == "dequeue closed error" && err == io.EOF, q.fault == "dequeue canceled error" && err == context.Canceled:
		return nil, errBoom
	case q.fault == "dequeue closed nil" && err == io.EOF, q.fault == "dequeue canceled nil" && err == context.Canceled:
		return url.Parse("https://a")
	case q.fault == "other cancellation" && errors.Is(err, context.Canceled):
		return nil, context.DeadlineExceeded
	}
	if err == nil {
		q.mu.Lock()
		q.got++
		got := q.got
		q.mu.Unlock()
		switch {
		case q.fault == "dequeue fails first" && got == 1, q.fault == "dequeue fails second" && got == 2, q.fault == "dequeue fails reader" && got == 3:
			return nil, errBoom
		}
	}
	return u, err
}

func (q *suiteQueue) Close(ctx context.Context) error {
	err := q.Queue.Close(ctx)
	if q.fault == "close error" {
		return errBoom
	}
	return err
}

// runSuite runs the suite as "go test" would and returns whether it passed.
func runSuite(f func(t *testing.T)) bool {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	all := func(pat, str string) (bool, error) { return true, nil }
	return testing.RunTests(all, []testing.InternalTest{{Name: "TestQueue", F: f}})
}

// C46: the suite for implementations of queues.
func init() {
	add(&mc.Scenario{
		Name: "suite/queue", Prop: "C46", MaxSteps: 200000,
		Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "the suite with a right queue and 26 wrong ones, in every schedule",
		Run: func(x *mc.X) {
			fault := suiteFaults[x.Choose(len(suiteFaults), "fault")]
			workers := 1 + x.Choose(2, "capacity")*99
			made, ended, passed := 0, false, false
			x.Go("go test", func() {
				passed = runSuite(func(t *testing.T) {
					anttest.TestQueue(t, func(testing.TB) ant.Queue {
						made++
						return &suiteQueue{Queue: ant.MemoryQueue(workers), fault: fault}
					})
				})
				ended = true
			})
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%q: %v, %d queues", fault, passed, made)
			x.State(fault)
			if !x.Check(ended, "no end", "%q: the suite does not end", fault) {
				return
			}
			right := fault == "" || fault == "slow"
			if right {
				x.Check(passed, "right queue refused", "%q: the suite fails", fault)
			} else {
				x.Check(!passed, "wrong queue accepted", "%q: the suite passes", fault)
			}
			x.Check(made > 0, "no queue", "the suite made no queue")
		},
	})
}
