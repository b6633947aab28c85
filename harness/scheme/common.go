package scheme

// Support for the replay searches: each search runs the executable form of a
// property against the real code and stops at the first input on which it
// fails. VERIF_SECONDS bounds it, VERIF_SEED seeds it.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vrun struct {
	r    *rand.Rand
	last string
	n    int64
	smp  []string
}

// note records the input about to be tried.
func (v *vrun) note(format string, a ...interface{}) {
	v.last = fmt.Sprintf(format, a...)
	if p := os.Getenv("VERIF_LAST"); p != "" && v.n%vNoteEvery == 0 {
		os.WriteFile(p, []byte(v.last), 0644)
	}
}

var vNoteEvery int64 = 1

func vIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// vsearch calls f until time runs out; f returns what failed, or "".
func vsearch(t *testing.T, f func(v *vrun) string) {
	secs := 5.0
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		secs = s
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	v := &vrun{r: rand.New(rand.NewSource(seed))}
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout := os.Stdout
	os.Stdout = devnull
	defer func() { os.Stdout = stdout }()
	stop := time.Now().Add(time.Duration(secs * float64(time.Second)))
	for time.Now().Before(stop) {
		msg := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					st := strings.Split(string(debug.Stack()), "\n")
					var at []string
					for _, l := range st {
						if strings.Contains(l, "/repo/") || strings.Contains(l, "gosstrak") || strings.Contains(l, ".go:") {
							at = append(at, strings.TrimSpace(l))
						}
					}
					if len(at) > 8 {
						at = at[:8]
					}
					msg = fmt.Sprintf("panic: %v [%s]", r, strings.Join(at, " | "))
				}
			}()
			return f(v)
		}()
		v.n++
		if len(v.smp) < 5 && v.n%97 == 1 {
			s := v.last
			if len(s) > 300 {
				s = s[:300]
			}
			v.smp = append(v.smp, s)
		}
		if msg != "" {
			os.WriteFile(os.Getenv("VERIF_OUT"), []byte(v.last+" => "+msg), 0644)
			vstat(v)
			t.Fatalf("%s => %s", v.last, msg)
		}
	}
	vstat(v)
}

func vstat(v *vrun) {
	if p := os.Getenv("VERIF_STAT"); p != "" {
		d, _ := json.Marshal(map[string]interface{}{"N": v.n, "Samples": v.smp})
		os.WriteFile(p, d, 0644)
	}
}

func vbits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "01"[r.Intn(2)]
	}
	return string(b)
}

func vpat(r *rand.Rand, n, wild int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "01"[r.Intn(2)]
		if wild > 0 && r.Intn(wild) == 0 {
			b[i] = 'x'
		}
	}
	return string(b)
}

func vbit(id []byte, k int) byte {
	if id[k/8]>>(7-uint(k%8))&1 == 1 {
		return '1'
	}
	return '0'
}
