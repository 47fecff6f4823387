// Package vh runs generated inputs against the real code and records what was tried.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type H struct {
	*rand.Rand
	T        *testing.T
	Prop     string
	Rule     string
	seed     int64
	thorough bool
	start    time.Time
	budget   time.Duration
	evals    int
	seen     map[uint64]bool
	samples  []string
	dir      string
	mu       sync.Mutex
	cur      string
	curStart time.Time
	only     int
}

type report struct {
	Test        string   `json:"test"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Input       string   `json:"input,omitempty"`
	Message     string   `json:"message,omitempty"`
	Seed        int64    `json:"seed"`
	Case        int      `json:"case"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Start begins a run for a property; rule says how inputs are made and which are non-trivial.
func Start(t *testing.T, prop, rule string) *H {
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	only, _ := strconv.Atoi(env("VERIF_CASE", "-1"))
	h := &H{T: t, Prop: prop, Rule: rule, seed: seed, thorough: env("VERIF_TIER", "quick") == "thorough", start: time.Now(), seen: map[uint64]bool{}, dir: os.Getenv("VERIF_REPORT"), only: only}
	f := fnv.New64()
	fmt.Fprintf(f, "%s/%s/%d", prop, t.Name(), seed)
	h.Rand = rand.New(rand.NewSource(int64(f.Sum64())))
	h.budget = 4 * time.Second
	if h.thorough {
		h.budget = 60 * time.Second
	}
	go h.watch()
	t.Cleanup(func() { h.write(t.Failed(), "", "") })
	return h
}

// Budget limits the run.
func (h *H) Budget(quick, thorough time.Duration) {
	h.budget = quick
	if h.thorough {
		h.budget = thorough
	}
}

func (h *H) Thorough() bool { return h.thorough }

// N picks a count by tier.
func (h *H) N(quick, thorough int) int {
	if h.thorough {
		return thorough
	}
	return quick
}

// More reports whether there is time for more cases (at least min cases are run).
func (h *H) More(min int) bool {
	if h.T.Failed() {
		return false
	}
	d := time.Since(h.start)
	return d < h.budget || (h.evals < min && d < 8*h.budget)
}

func (h *H) watch() {
	for {
		time.Sleep(time.Second)
		h.mu.Lock()
		c, s := h.cur, h.curStart
		h.mu.Unlock()
		if c != "" && time.Since(s) > 40*time.Second {
			h.write(true, c, "the code did not finish within 40 s on this input")
			fmt.Println("VH-FAIL hang")
			os.Exit(1)
		}
	}
}

var mu sync.Mutex
var done = map[string]bool{}

func (h *H) write(failed bool, input, msg string) {
	mu.Lock()
	defer mu.Unlock()
	if h.dir == "" || done[h.T.Name()] {
		return
	}
	done[h.T.Name()] = true
	r := report{h.T.Name(), h.evals, len(h.seen), h.Rule, h.samples, failed, input, msg, h.seed, h.evals - 1}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(filepath.Join(h.dir, strings.ReplaceAll(h.T.Name(), "/", "_")+".json"), b, 0644)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d more bytes)", len(s)-n)
	}
	return s
}

// Panics runs f and returns the panic message ("" when it returns).
func Panics(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("panic: %v", x)
		}
	}()
	f()
	return ""
}

// Case runs one input. f returns "" when the property holds on it; a panic of the code is a failure.
func (h *H) Case(input string, f func() string) {
	if h.T.Failed() {
		return
	}
	h.evals++
	if h.only >= 0 && h.only != h.evals-1 {
		return
	}
	k := fnv.New64()
	k.Write([]byte(input))
	h.seen[k.Sum64()] = true
	if len(h.samples) < 3 || (h.evals < 2000 && h.evals%500 == 0 && len(h.samples) < 6) {
		h.samples = append(h.samples, cut(input, 300))
	}
	h.mu.Lock()
	h.cur, h.curStart = input, time.Now()
	h.mu.Unlock()
	if h.dir != "" {
		os.WriteFile(filepath.Join(h.dir, h.T.Name()+".current"), []byte(cut(input, 20000)), 0644)
	}
	msg := func() (m string) {
		defer func() {
			if x := recover(); x != nil {
				m = fmt.Sprintf("panic: %v\n%s", x, cut(string(debug.Stack()), 3000))
			}
		}()
		return f()
	}()
	h.mu.Lock()
	h.cur = ""
	h.mu.Unlock()
	if msg != "" {
		h.write(true, input, msg)
		fmt.Println("VH-FAIL", h.T.Name())
		h.T.Fatalf("input: %s\n%s", cut(input, 4000), msg)
	}
}

// ---------------------------------------------------------------- generators

// U64 draws from all magnitudes and the boundaries between them.
func (h *H) U64() uint64 {
	switch h.Intn(6) {
	case 0:
		return uint64(h.Intn(300))
	case 1:
		return h.Uint64()
	case 2:
		return uint64(1)<<uint(h.Intn(64)) + uint64(h.Intn(5)) - 2
	case 3:
		return ^uint64(0) - uint64(h.Intn(3))
	default:
		return h.Uint64() >> uint(h.Intn(64))
	}
}

func (h *H) I64() int64 {
	v := int64(h.U64())
	if h.Intn(2) == 0 {
		return -v
	}
	return v
}

func (h *H) Bytes(n int) []byte {
	b := make([]byte, n)
	h.Read(b)
	return b
}

func (h *H) Read(b []byte) { h.Rand.Read(b) }

// Size is small most of the time.
func (h *H) Size(max int) int {
	switch h.Intn(4) {
	case 0:
		return h.Intn(3)
	case 1:
		return h.Intn(max + 1)
	default:
		if max > 12 {
			max = 12
		}
		return h.Intn(max + 1)
	}
}

// Str draws short strings which collide often.
func (h *H) Str() string {
	al := []string{"", "a", "b", "ab", "name", "highway", "source", "source:", "created_by", "é", "\x00", "zz", "A"}
	if h.Intn(3) > 0 {
		return al[h.Intn(len(al))]
	}
	return al[h.Intn(len(al))] + string(h.Bytes(h.Intn(4)))
}
