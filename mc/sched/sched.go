// Package sched is the controlled scheduler behind the scheduling points that
// prep inserts before every statement of the code under test.
//
// Two threads run one at a time; a plan says after how many statements of the
// running thread it is preempted in favour of the other. The scheduler's own
// synchronisation is hidden from the race detector, so that accesses of the
// two threads count as unordered unless the code under test orders them.
package sched

import (
	"runtime"
	"sync/atomic"
	"time"
)

var (
	on      int32 // a controlled run is under way
	turn    int32 // the thread that may run
	count   [2]int64
	done    [2]int32
	next    int32 // position in the plan
	plan    []int64
	blocked int32
	ticks   int64
	stuck   int32
)

// Y is a scheduling point.
//
//go:norace
func Y() {
	if on == 0 {
		if Trace != nil {
			Trace(0)
		}
		return
	}
	point()
}

//go:norace
func point() {
	raceOff()
	if atomic.LoadInt32(&on) != 0 {
		me := atomic.LoadInt32(&turn)
		n := atomic.AddInt64(&count[me], 1)
		atomic.AddInt64(&ticks, 1)
		k := atomic.LoadInt32(&next)
		if int(k) < len(plan) && n == plan[k] && atomic.LoadInt32(&done[1-me]) == 0 {
			atomic.StoreInt32(&next, k+1)
			atomic.StoreInt32(&turn, 1-me)
			wait(me)
		}
	}
	raceOn()
}

// patience is how long the other thread may take for one statement before
// this one believes that it is waited for. It only decides how much of such
// a schedule is explored, never the verdict.
//
//go:norace
func patience() time.Duration {
	if atomic.LoadInt32(&stuck) > 5 {
		return 300 * time.Millisecond
	}
	return 3 * time.Second
}

// wait returns when it is the thread's turn, or when the other one waits for
// something this one must do first: then both run on freely.
//
//go:norace
func wait(me int32) {
	last, since := atomic.LoadInt64(&ticks), time.Now()
	for i := 0; atomic.LoadInt32(&turn) != me && atomic.LoadInt32(&on) != 0; i++ {
		runtime.Gosched()
		if i%1024 == 1023 {
			if t := atomic.LoadInt64(&ticks); t != last {
				last, since = t, time.Now()
			} else if time.Since(since) > patience() {
				atomic.StoreInt32(&blocked, 1)
				atomic.AddInt32(&stuck, 1)
				atomic.StoreInt32(&on, 0)
			}
			if i > 1<<14 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
}

// Enter is how a thread begins.
//
//go:norace
func Enter(me int) {
	raceOff()
	wait(int32(me))
	raceOn()
}

// Leave is how a thread ends.
//
//go:norace
func Leave(me int) {
	raceOff()
	atomic.StoreInt32(&done[me], 1)
	atomic.AddInt64(&ticks, 1)
	atomic.StoreInt32(&turn, int32(1-me))
	raceOn()
}

// Current is the running thread.
//
//go:norace
func Current() int {
	raceOff()
	t := atomic.LoadInt32(&turn)
	raceOn()
	return int(t)
}

// Begin prepares a controlled run: thread first starts and the plan gives the
// statement counts, of whichever thread runs, at which it is preempted.
//
//go:norace
func Begin(first int, p []int64) {
	raceOff()
	plan = p
	count, done, next, blocked = [2]int64{}, [2]int32{}, 0, 0
	atomic.StoreInt32(&turn, int32(first))
	atomic.StoreInt32(&on, 1)
	raceOn()
}

// End ends a controlled run: how many scheduling points each thread passed,
// whether the plan was used up, and whether a thread had to wait for another.
//
//go:norace
func End() (n [2]int64, used int, wasBlocked bool) {
	raceOff()
	atomic.StoreInt32(&on, 0)
	raceOn()
	return count, int(next), blocked != 0
}

// Trace, if set, is told of every scheduling point outside a controlled run.
var Trace func(k int64)

// Caller identifies the statement of the scheduling point that called Trace.
func Caller() uintptr {
	var pc [4]uintptr
	n := runtime.Callers(4, pc[:])
	if n == 0 {
		return 0
	}
	return pc[0]
}
