// The conformance driver: it runs the real code and records what it does in
// the vocabulary of the specifications in /verif/spec. It uses the public API
// only, and decides nothing.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"
)

type T []int // a text: code points

func txt(s string) T {
	t := make(T, 0, len(s))
	for _, r := range s {
		t = append(t, int(r))
	}
	return t
}

func byts(b []byte) T {
	t := make(T, len(b))
	for i, c := range b {
		t[i] = int(c)
	}
	return t
}

// M is a JSON object
type M map[string]interface{}

var (
	curID    int64 = -1
	curStart int64
	peakHeap uint64 // the largest heap seen since it was last set
)

func watchdog(out *os.File, limit time.Duration, maxHeap uint64) {
	var ms runtime.MemStats
	for n := 0; ; n++ {
		time.Sleep(20 * time.Millisecond)
		id := atomic.LoadInt64(&curID)
		start := atomic.LoadInt64(&curStart)
		if id < 0 {
			continue
		}
		why := ""
		if time.Now().UnixNano()-start > int64(limit) {
			why = "timeout"
		}
		if n%10 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > atomic.LoadUint64(&peakHeap) {
				atomic.StoreUint64(&peakHeap, ms.HeapAlloc)
			}
			if ms.HeapAlloc > maxHeap {
				why = "memory"
			}
		}
		if why != "" {
			fmt.Fprintf(out, "\n{\"id\":%d,\"crash\":%q}\n", id, why)
			os.Exit(3)
		}
	}
}

type caseFn func(raw json.RawMessage) M

// each runs fn on every line of the input and writes one line per result
func each(in io.Reader, out *os.File, fn caseFn) {
	limit := 10 * time.Second
	if s := os.Getenv("VX_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	go watchdog(out, limit, 3<<30)
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var hd struct{ ID int64 }
			if e := json.Unmarshal(line, &hd); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e)
				os.Exit(4)
			}
			// announced first, so that a fatal error can be told from a driver failure
			fmt.Fprintf(out, "{\"start\":%d}\n", hd.ID)
			atomic.StoreInt64(&curStart, time.Now().UnixNano())
			atomic.StoreInt64(&curID, hd.ID)
			res := guarded(fn, line)
			atomic.StoreInt64(&curID, -1)
			res["id"] = hd.ID
			b, e := json.Marshal(res)
			if e != nil {
				fmt.Fprintln(os.Stderr, "marshal:", e)
				os.Exit(4)
			}
			out.Write(append(b, '\n'))
		}
		if err != nil {
			break
		}
	}
	fmt.Fprintf(out, "{\"end\":true}\n")
}

func guarded(fn caseFn, line []byte) (res M) {
	defer func() {
		if e := recover(); e != nil {
			res = M{"crash": fmt.Sprintf("panic: %v", e), "where": string(debug.Stack())}
		}
	}()
	return fn(json.RawMessage(line))
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: vxdrv MODE IN OUT")
		os.Exit(4)
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	fn, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such mode")
		os.Exit(4)
	}
	each(in, out, fn)
	out.Close()
}

var modes = map[string]caseFn{
	"parse":   parseCase,
	"dom":     domCase,
	"build":   buildCase,
	"decls":   declsCase,
	"fault":   faultCase,
	"output":  outputCase,
	"robust":  robustCase,
	"isolate": isolateCase,
}
