package gv

import (
	"bytes"
	"runtime"
	"time"
)

// Goroutines is the number of goroutines now, for a later Settles.
func Goroutines() int { return runtime.NumGoroutine() }

// Settles waits for the number of goroutines to come down to base.
func Settles(base int) bool {
	return Eventually(func() bool { return runtime.NumGoroutine() <= base })
}

// Eventually waits for f to hold, at most 5 seconds.
func Eventually(f func() bool) bool { return Within(5*time.Second, f) }

// Within waits for f to hold, at most d.
func Within(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if f() {
			return true
		}
		if i < 50 {
			runtime.Gosched()
			continue
		}
		if time.Now().After(end) {
			return f()
		}
		if i < 100 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// Pause lets other goroutines run.
func Pause() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	time.Sleep(50 * time.Microsecond)
}

// Yield lets another goroutine run.
func Yield() { runtime.Gosched() }

// Still waits until every other goroutine waits for something: whatever was going on has come to its end.
// It is false if that doesn't happen in 10 seconds.
func Still() bool {
	buf := make([]byte, 1<<16)
	end := time.Now().Add(10 * time.Second)
	for i := 0; ; i++ {
		for j := 0; j < 5; j++ {
			runtime.Gosched()
		}
		n := runtime.Stack(buf, true)
		for n == len(buf) {
			buf = make([]byte, 2*len(buf))
			n = runtime.Stack(buf, true)
		}
		if waiting(buf[:n]) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i > 20 {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// waiting says whether all goroutines but the first wait for something other than time.
func waiting(stacks []byte) bool {
	for i, s := range bytes.Split(stacks, []byte("\n\n")) {
		if i == 0 {
			continue
		}
		head, _, _ := bytes.Cut(s, []byte("\n"))
		ok := false
		for _, w := range []string{"[chan ", "[select", "[sync.", "[IO wait", "[finalizer"} {
			ok = ok || bytes.Contains(head, []byte(w))
		}
		// others wait for the runtime: to collect garbage, say
		if !ok && !(bytes.Contains(head, []byte("[semacquire")) && bytes.Contains(s, []byte("sync.(*WaitGroup)"))) {
			return false
		}
	}
	return true
}
