package vh

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// A case that does not end, or that takes all the memory, is a violation too: no
// property here allows a call to run forever. The bounds are far above what any
// case needs (see VH_PEAK in a shard's log), and seconds are counted only while
// this process runs.
const (
	caseSeconds = 400
	caseHeap    = 8 << 30
)

var (
	beat    atomic.Int64 // advances when a case begins or ends
	current atomic.Value // name of the running test
	peakSec atomic.Int64
	peakMem atomic.Int64
)

func began(test string) { current.Store(test); beat.Add(1) }
func ended()            { beat.Add(1) }

func watch() {
	heap := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	last, since := beat.Load(), int64(0)
	for range time.Tick(time.Second) {
		if b := beat.Load(); b != last {
			last, since = b, 0
			continue
		}
		since++
		metrics.Read(heap)
		mem := int64(heap[0].Value.Uint64())
		peakSec.Store(max(peakSec.Load(), since))
		peakMem.Store(max(peakMem.Load(), mem))
		what := ""
		if since > caseSeconds {
			what = fmt.Sprintf("a valid case has not ended after %d seconds", since)
		} else if mem > caseHeap {
			what = fmt.Sprintf("a valid case keeps %d bytes of memory", mem)
		}
		if what != "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("%s\n%s\n--- FAIL: %v\n", buf, what, current.Load())
			os.Exit(1)
		}
	}
}
