// Package props holds one property-based test per property in
// /verif/properties.jsonl. It uses only the public API of go-eosio.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- run parameters -------------------------------------------------------

var (
	scale    = 1.0 // multiplies the number of cases of every check
	thorough bool
	shard    int // this process's shard, 0-based
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// ---- statistics -----------------------------------------------------------

// Stats counts what a run covered; the runner turns it into evidence.
type Stats struct {
	mu       sync.Mutex
	Evals    int64            `json:"evaluations"`
	Hashes   map[uint64]bool  `json:"-"`
	HashList []string         `json:"hashes"`
	Labels   map[string]int64 `json:"labels"`
	Samples  []string         `json:"samples"`
	seen     map[string]int
}

var stats = &Stats{Hashes: map[uint64]bool{}, Labels: map[string]int64{}, seen: map[string]int{}}

// Case records one evaluated case. key identifies the case (for counting
// distinct ones); nontrivial says whether it counts; label groups cases.
func (s *Stats) Case(label string, nontrivial bool, key string) {
	atomic.AddInt64(&progress, 1)
	h := fnv.New64a()
	h.Write([]byte(label))
	h.Write([]byte{0})
	h.Write([]byte(key))
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evals++
	s.Labels[label]++
	if nontrivial {
		s.Labels[label+" (non-trivial)"]++
		if len(s.Hashes) < 400000 {
			s.Hashes[h.Sum64()] = true
		}
		// keep the 1st, 20th and 400th non-trivial case of each label
		s.seen[label]++
		if n := s.seen[label]; (n == 1 || n == 20 || n == 400) && len(s.Samples) < 60 {
			s.Samples = append(s.Samples, label+": "+clip(key, 300))
		}
	}
}

func (s *Stats) Count(label string) {
	s.mu.Lock()
	s.Labels[label]++
	s.mu.Unlock()
}

func (s *Stats) write(path string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for h := range s.Hashes {
		s.HashList = append(s.HashList, strconv.FormatUint(h, 36))
	}
	sort.Strings(s.HashList)
	b, _ := json.Marshal(s)
	_ = os.WriteFile(path, b, 0o644)
}

func clip(s string, n int) string {
	s = strings.ToValidUTF8(s, "\uFFFD")
	if len(s) > n {
		r := []rune(s)
		if len(r) > n {
			return string(r[:n]) + fmt.Sprintf("...(%d chars)", len(r))
		}
	}
	return s
}

// ---- journal and watchdog -------------------------------------------------

var (
	progress    int64 // advances with every case
	journalPath string
	journalMu   sync.Mutex
	journalFile *os.File
)

// Journal notes the case that is about to run, so that an input that kills the
// process (stack overflow, out of memory, hang) can still be reported.
func Journal(format string, args ...interface{}) {
	atomic.AddInt64(&progress, 1)
	if journalPath == "" {
		return
	}
	s := fmt.Sprintf(format, args...)
	journalMu.Lock()
	defer journalMu.Unlock()
	if journalFile == nil {
		f, err := os.Create(journalPath)
		if err != nil {
			return
		}
		journalFile = f
	}
	_ = journalFile.Truncate(0)
	_, _ = journalFile.WriteAt([]byte(s), 0)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	exitHang   = 97
	exitMemory = 98
)

// watchdog ends the process when one case has used far more processor time or
// memory than any correct case could (cases take milliseconds). Processor time
// is used, not wall time, so a busy machine does not matter.
func watchdog() {
	last, since, wall := atomic.LoadInt64(&progress), cpuTime(), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapInuse > 3<<30 {
			dump("MEMORY: more than 3 GiB of heap in use", exitMemory)
		}
		if p := atomic.LoadInt64(&progress); p != last {
			last, since, wall = p, cpuTime(), time.Now()
			continue
		}
		if cpuTime()-since > 60*time.Second {
			dump("HANG: a single case used more than 60 s of processor time", exitHang)
		}
		if time.Since(wall) > 500*time.Second && cpuTime()-since < 5*time.Second {
			dump("HANG: a single case made no progress for 500 s", exitHang)
		}
	}
}

func dump(why string, code int) {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	fmt.Printf("WATCHDOG %s\n%s\n", why, buf[:n])
	os.Exit(code)
}

func TestMain(m *testing.M) {
	flag.Parse()
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	shard = envInt("VERIF_SHARD", 0)
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && v > 0 {
		scale = v
	}
	if v := envInt("VERIF_DEADLINE", 0); v > 0 {
		deadline = time.Unix(int64(v), 0)
	}
	journalPath = os.Getenv("VERIF_JOURNAL")
	debug.SetMaxStack(256 << 20)
	loadDict()
	go watchdog()
	rc := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		stats.write(p)
	}
	os.Exit(rc)
}

// ---- running checks -------------------------------------------------------

// check runs prop n times (scaled) as a subtest.
func check(t *testing.T, name string, n int, prop func(*rapid.T)) {
	if collect != nil {
		collect(name, prop)
		return
	}
	t.Helper()
	n = int(float64(n) * scale)
	if n < 10 {
		n = 10
	}
	checkN(t, name, n, prop)
}

// checkN runs prop exactly n times.
func checkN(t *testing.T, name string, n int, prop func(*rapid.T)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		rapid.Check(t, func(rt *rapid.T) {
			atomic.AddInt64(&progress, 1)
			if late() {
				return
			}
			ok := false
			defer func() { failing = failing || !ok }()
			prop(rt)
			ok = true
		})
	})
}

// A machine so slow that the number of cases can't be run in time runs fewer of
// them: past the deadline cases are skipped (and not counted), unless one has
// failed and is being shrunk.
var (
	deadline time.Time
	failing  bool
)

func late() bool { return !failing && !deadline.IsZero() && time.Now().After(deadline) }

// once runs a check that has no generated input but is part of a property, on
// one shard only.
func once(t *testing.T, name string, f func(t *testing.T)) {
	if shard != 0 || collect != nil {
		return
	}
	t.Run(name, f)
}

func scratch(t interface{ Fatalf(string, ...any) }) string {
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatalf("scratch dir: %v", err)
	}
	return d
}

var _ = filepath.Join

// noPanic runs f and turns a panic into (value, true).
func noPanic(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			msg, panicked = fmt.Sprintf("%v\n%s", r, clip(string(debug.Stack()), 3000)), true
		}
	}()
	f()
	return "", false
}

// doesPanic is noPanic where a panic is expected.
func doesPanic(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}
