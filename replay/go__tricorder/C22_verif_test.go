package tricorder_test

//verif:sub go/tricorder/wrapper syscall.Getrusage verifGetrusage
//verif:add go/tricorder/wrapper/zz_verif_hook.go C22_getrusage.go.txt

import (
	"errors"
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/wrapper"
	"reflect"
	"syscall"
	"testing"
	"time"
)

// what the metric must be, from the system's figures
var metrics = []struct {
	path string
	f    func(r *syscall.Rusage) interface{}
}{
	{"/proc/cpu/user", func(r *syscall.Rusage) interface{} { return tv(r.Utime) }},
	{"/proc/cpu/sys", func(r *syscall.Rusage) interface{} { return tv(r.Stime) }},
	{"/proc/memory/max-resident-set-size", func(r *syscall.Rusage) interface{} { return r.Maxrss * 1024 }},
	{"/proc/memory/shared", func(r *syscall.Rusage) interface{} { return r.Ixrss * 1024 }},
	{"/proc/memory/unshared-data", func(r *syscall.Rusage) interface{} { return r.Idrss * 1024 }},
	{"/proc/memory/unshared-stack", func(r *syscall.Rusage) interface{} { return r.Isrss * 1024 }},
	{"/proc/memory/soft-page-fault", func(r *syscall.Rusage) interface{} { return r.Minflt }},
	{"/proc/memory/hard-page-fault", func(r *syscall.Rusage) interface{} { return r.Majflt }},
	{"/proc/memory/swaps", func(r *syscall.Rusage) interface{} { return r.Nswap }},
	{"/proc/io/input", func(r *syscall.Rusage) interface{} { return r.Inblock }},
	{"/proc/io/output", func(r *syscall.Rusage) interface{} { return r.Oublock }},
	{"/proc/ipc/sent", func(r *syscall.Rusage) interface{} { return r.Msgsnd }},
	{"/proc/ipc/received", func(r *syscall.Rusage) interface{} { return r.Msgrcv }},
	{"/proc/signals/received", func(r *syscall.Rusage) interface{} { return r.Nsignals }},
	{"/proc/scheduler/voluntary-switches", func(r *syscall.Rusage) interface{} { return r.Nvcsw }},
	{"/proc/scheduler/involuntary-switches", func(r *syscall.Rusage) interface{} { return r.Nivcsw }},
}

func tv(t syscall.Timeval) time.Duration {
	return time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond
}

func wr(r *wrapper.Rusage) [18]int64 {
	return [18]int64{r.Utime.Sec, r.Utime.Usec, r.Stime.Sec, r.Stime.Usec, r.Maxrss, r.Ixrss, r.Idrss, r.Isrss, r.Minflt, r.Majflt, r.Nswap, r.Inblock, r.Oublock, r.Msgsnd, r.Msgrcv, r.Nsignals, r.Nvcsw, r.Nivcsw}
}
func sr(r *syscall.Rusage) [18]int64 {
	return [18]int64{r.Utime.Sec, r.Utime.Usec, r.Stime.Sec, r.Stime.Usec, r.Maxrss * 1024, r.Ixrss * 1024, r.Idrss * 1024, r.Isrss * 1024, r.Minflt, r.Majflt, r.Nswap, r.Inblock, r.Oublock, r.Msgsnd, r.Msgrcv, r.Nsignals, r.Nvcsw, r.Nivcsw}
}

func read(path string) (m *messages.Metric) {
	for _, x := range tricorder.ReadMyMetrics(path) {
		if x.Path == path {
			m = x
		}
	}
	return
}

// the one request for everything under /proc: a consistent set
func readAll() map[string]*messages.Metric {
	out := map[string]*messages.Metric{}
	for _, x := range tricorder.ReadMyMetrics("/proc") {
		out[x.Path] = x
	}
	return out
}

func TestVerif(t *testing.T) {
	v := newV(t)
	hooked := false
	{
		c := wrapper.VerifCalls
		var r wrapper.Rusage
		wrapper.Getrusage(syscall.RUSAGE_SELF, &r)
		hooked = wrapper.VerifCalls > c
	}
	// against the real system: the metric lies between readings before and after
	for i := 0; i < 20; i++ {
		v.cases++
		var a, b syscall.Rusage
		x := 0
		for t0 := time.Now(); time.Since(t0) < 15*time.Millisecond; x++ {
		}
		syscall.Getrusage(syscall.RUSAGE_SELF, &a)
		var w wrapper.Rusage
		if err := wrapper.Getrusage(syscall.RUSAGE_SELF, &w); err != nil {
			v.fail("wrapper.Getrusage(RUSAGE_SELF): %v", err)
		}
		syscall.Getrusage(syscall.RUSAGE_SELF, &b)
		ca, cb, cw := sr(&a), sr(&b), wr(&w)
		if d := time.Duration(w.Utime.Sec)*time.Second + time.Duration(w.Utime.Usec)*time.Microsecond; d < tv(a.Utime) || d > tv(b.Utime) {
			v.fail("wrapper.Getrusage user time %v, the system says between %v and %v", d, tv(a.Utime), tv(b.Utime))
		}
		for j := 4; j < 18; j++ {
			if cw[j] < ca[j] || cw[j] > cb[j] {
				v.fail("wrapper.Getrusage field %d is %d, the system says between %d and %d", j, cw[j], ca[j], cb[j])
			}
		}
		syscall.Getrusage(syscall.RUSAGE_SELF, &a)
		got := map[string]interface{}{}
		for _, m := range metrics {
			g := read(m.path)
			if g == nil {
				v.fail("%s is not registered", m.path)
			}
			got[m.path] = g.Value
		}
		syscall.Getrusage(syscall.RUSAGE_SELF, &b)
		for _, m := range metrics {
			lo, hi, g := num(m.f(&a)), num(m.f(&b)), num(got[m.path])
			if g < lo || g > hi {
				v.fail("%s is %v, the system says between %v and %v", m.path, got[m.path], m.f(&a), m.f(&b))
			}
		}
	}
	if hooked {
		cur := syscall.Rusage{}
		fails := false
		who := -99
		wrapper.VerifHook = func(w int, ru *syscall.Rusage) error {
			who = w
			if fails {
				return errors.New("injected")
			}
			*ru = cur
			return nil
		}
		var last syscall.Rusage
		have := false
		for v.more(500, 20000) {
			fails = v.R.Intn(4) == 0
			f := reflect.ValueOf(&cur).Elem()
			for i := 0; i < f.NumField(); i++ {
				if f.Field(i).Kind() == reflect.Int64 {
					f.Field(i).SetInt(v.R.Int63n(1 << uint(1+v.R.Intn(40))))
				}
			}
			cur.Utime = syscall.Timeval{Sec: v.R.Int63n(1 << uint(1+v.R.Intn(31))), Usec: v.R.Int63n(1000000)}
			cur.Stime = syscall.Timeval{Sec: v.R.Int63n(1 << uint(1+v.R.Intn(31))), Usec: v.R.Int63n(1000000)}
			var w wrapper.Rusage
			w.Maxrss, w.Ixrss, w.Utime.Usec, w.Nswap, w.Nivcsw = 7, 8, 9, 10, 11
			before := wr(&w)
			err := wrapper.Getrusage(syscall.RUSAGE_CHILDREN, &w)
			if (err != nil) != fails {
				v.fail("wrapper.Getrusage: error %v although the system query failed=%v", err, fails)
			}
			if who != syscall.RUSAGE_CHILDREN {
				v.fail("wrapper.Getrusage(RUSAGE_CHILDREN) asks the system for %d", who)
			}
			want := before
			if !fails {
				want = sr(&cur)
			}
			if wr(&w) != want {
				v.fail("wrapper.Getrusage gives %v for the system's %+v (query failed=%v), want %v", wr(&w), cur, fails, want)
			}
			if !fails {
				last, have = cur, true
			}
			if !have {
				continue
			}
			all := readAll()
			for _, m := range metrics {
				g := all[m.path]
				if g == nil {
					v.fail("%s is not registered", m.path)
				}
				if !fails {
					last = cur
				}
				if wnt := m.f(&last); num(g.Value) != num(wnt) || g.Value != wnt && fmt.Sprint(g.Value) != fmt.Sprint(wnt) {
					v.fail("%s is %v, the system says %v (%+v; query failed=%v)", m.path, g.Value, wnt, last, fails)
				}
			}
			if who != syscall.RUSAGE_SELF {
				v.fail("the process metrics ask the system for %d", who)
			}
			v.sample("%+v failed=%v", cur, fails)
		}
		// nothing has ever been read successfully before a failure: covered by the first cases
	}
	v.done()
}

func num(x interface{}) float64 {
	switch n := x.(type) {
	case time.Duration:
		return float64(n)
	case int64:
		return float64(n)
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Int64 || rv.Kind() == reflect.Int {
		return float64(rv.Int())
	}
	return -1
}
