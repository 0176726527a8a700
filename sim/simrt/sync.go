package simrt

import (
	"runtime"
	"sync"
)

// The end of each task happens before the return of Run, also for the race detector.
var doneMu sync.Mutex

func prepareDone()     {}
func taskDone(i int32) { doneMu.Lock(); doneMu.Unlock() }
func waitDone()        { doneMu.Lock(); doneMu.Unlock() }

func gosched() { runtime.Gosched() }
