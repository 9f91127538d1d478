package zzverif

// Shared machinery of the replay harnesses: deterministic case generation, a
// watchdog, recording of the inputs of a case and of what was covered. The
// harnesses drive the real code through its exported API only.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type failure struct{ msg string }

// C is one generated case.
type C struct {
	r       *rand.Rand
	n       int
	mu      sync.Mutex
	names   []string
	vals    map[string]any
	nontriv bool
	key     string
}

func (c *C) in(name string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.vals[name]; !ok {
		c.names = append(c.names, name)
	}
	c.vals[name] = v
}

// interesting marks the case as non-trivial under the given equivalence key.
func (c *C) interesting(key ...any) {
	c.nontriv = true
	c.key += "|" + fmt.Sprint(key...)
}

func (c *C) failf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

func (c *C) eq(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		c.failf("%s: got %s, want %s", what, show(got), show(want))
	}
}

func show(v any) string {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	return fmt.Sprintf("%#v", v)
}

func (c *C) chance(p float64) bool { return c.r.Float64() < p }
func (c *C) intn(n int) int        { return c.r.Intn(n) }
func (c *C) pick(s ...string) string {
	return s[c.r.Intn(len(s))]
}

type hintSet struct {
	Novel []string
	Strs  []string
	Ints  []int64
	NInts []int64
}

var hints hintSet

func init() {
	if f := os.Getenv("VERIF_HINTS"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			json.Unmarshal(b, &hints)
		}
	}
}

// hint is a string literal of the code under test, preferring ones the pinned
// tree does not have.
func (c *C) hint() string {
	if len(hints.Novel) > 0 && c.chance(0.7) {
		return c.pick(hints.Novel...)
	}
	if len(hints.Strs) > 0 {
		return c.pick(hints.Strs...)
	}
	return ""
}

func (c *C) hintInt() int64 {
	if len(hints.NInts) > 0 && c.chance(0.7) {
		return hints.NInts[c.intn(len(hints.NInts))]
	}
	if len(hints.Ints) > 0 {
		return hints.Ints[c.intn(len(hints.Ints))]
	}
	return 0
}

var commonSizes = []int{7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 512, 513, 1000, 1001, 1024, 1025, 2048, 2049, 4096, 4097}

// bigN is a size at or next to a number the code mentions (preferring ones the
// pinned tree does not), or a customary boundary.
func (c *C) bigN(max int) int {
	if len(hints.NInts) > 0 && c.chance(0.6) {
		n := int(hints.NInts[c.intn(len(hints.NInts))]) + c.intn(3) - 1
		if n >= 0 && n <= max {
			return n
		}
	}
	n := commonSizes[c.intn(len(commonSizes))]
	if n > max {
		n = c.intn(max + 1)
	}
	return n
}

// count is a number of items below n, now and then many more.
func (c *C) count(n, max int) int {
	p := 0.01
	if len(hints.NInts) > 0 {
		p = 0.04
	}
	if c.chance(p) {
		return c.bigN(max)
	}
	return c.intn(n)
}

// stretch now and then makes a text long.
func (c *C) stretch(s string) string {
	p := 0.01
	if len(hints.NInts) > 0 {
		p = 0.05
	}
	if !c.chance(p) {
		return s
	}
	n := c.bigN(5000)
	pad := c.pick("a", "ab", "x.", "-", "1", "\u00e9", " ")
	for len(s) < n {
		if len(s)+len(pad) > n {
			pad = "z"
		}
		if c.chance(0.5) {
			s = pad + s
		} else {
			s += pad
		}
	}
	return s
}

func novel() bool { return len(hints.Novel) > 0 }

type stats struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Samples     []string `json:"samples"`
}

func (c *C) describe() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var sb strings.Builder
	for _, n := range c.names {
		s := ""
		if b, err := json.Marshal(c.vals[n]); err == nil {
			s = string(b)
		} else {
			s = fmt.Sprintf("%#v", c.vals[n])
		}
		fmt.Fprintf(&sb, "%s=%s ", n, s)
	}
	return strings.TrimSpace(sb.String())
}

// run generates cases until the budget is spent; the first failing one is
// printed and stops the run.
func run(t *testing.T, fn func(c *C)) {
	budget := 2000
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS")); err == nil {
		budget = b
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end := time.Now().Add(time.Duration(budget) * time.Millisecond)
	st := stats{}
	seen := map[uint64]bool{}
	minCases := 300
	for n := 0; n < minCases || time.Now().Before(end); n++ {
		if time.Now().After(end.Add(time.Duration(budget)*time.Millisecond + 20*time.Second)) {
			break
		}
		c := &C{r: rand.New(rand.NewSource(seed*1000003 + int64(n))), n: n, vals: map[string]any{}}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(failure); ok {
						done <- f.msg
						return
					}
					done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			fn(c)
			done <- ""
		}()
		var msg string
		select {
		case msg = <-done:
		case <-time.After(30 * time.Second):
			msg = "no result after 30 s (the call does not terminate)"
		}
		st.Evaluations++
		if c.nontriv {
			h := fnv.New64a()
			h.Write([]byte(c.key))
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				st.Distinct++
				if len(st.Samples) < 3 {
					d := c.describe()
					if len(d) > 1500 {
						d = d[:1500] + "..."
					}
					st.Samples = append(st.Samples, d)
				}
			}
		}
		if msg != "" {
			b, _ := json.Marshal(map[string]any{"case": n, "seed": seed, "input": c.describe(), "failure": msg})
			fmt.Printf("\nVERIF-FAIL %s\n", b)
			t.FailNow()
		}
	}
	b, _ := json.Marshal(st)
	fmt.Printf("\nVERIF-STATS %s\n", b)
}

// catch reports whether fn panics.
func catch(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	fn()
	return ""
}
