package eng

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// status is a table shared with the supervisor: which case every worker is
// running. It survives a crash of the process.
type status struct {
	mem   []byte
	seq   [64]uint64
	tid   [64]int64
	multi [64]int64
}

const slotSize = 32
const slots = 64

func openStatus(file string) (*status, error) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err = f.Truncate(slotSize * slots); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*slots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &status{mem: mem}, nil
}

func (st *status) begin(w, suite, src int, index int64) {
	b := st.mem[w*slotSize:]
	binary.LittleEndian.PutUint64(b[8:], uint64(suite))
	binary.LittleEndian.PutUint64(b[16:], uint64(src))
	binary.LittleEndian.PutUint64(b[24:], uint64(index))
	b[0] = 1
	if atomic.LoadInt64(&st.tid[w]) == 0 {
		atomic.StoreInt64(&st.tid[w], int64(syscall.Gettid()))
	}
	atomic.AddUint64(&st.seq[w], 1)
}

func (st *status) end(w int) {
	st.mem[w*slotSize] = 0
	atomic.AddUint64(&st.seq[w], 1)
	atomic.StoreInt64(&st.tid[w], 0)
}

type inflight struct {
	suite, src int
	index      int64
}

func readStatus(file string) (r []inflight) {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < slotSize*slots {
		return nil
	}
	for w := 0; w < slots; w++ {
		s := b[w*slotSize:]
		if s[0] != 0 {
			r = append(r, inflight{
				int(binary.LittleEndian.Uint64(s[8:])),
				int(binary.LittleEndian.Uint64(s[16:])),
				int64(binary.LittleEndian.Uint64(s[24:])),
			})
		}
	}
	return
}

// threadCPU is the CPU time a thread has used: a hang is judged by the work
// done, not by the wall clock.
func threadCPU(tid int64) (time.Duration, bool) {
	clock := uintptr((^uint32(tid))<<3 | 6)
	clock = uintptr(int32((^int32(tid))<<3 | 6))
	var ts syscall.Timespec
	_, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, clock, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		return 0, false
	}
	return time.Duration(ts.Nano()), true
}

func processCPU() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	exitHang   = 77
	exitMemory = 78
)

var (
	hangCPU    = 45 * time.Second
	heapLimit  = uint64(8 << 30)
	multiLimit = 200 * time.Second
)

func heapBytes(s []metrics.Sample) uint64 {
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch ends the process when one case has used far more CPU time or memory
// than any case does.
func (st *status) watch(p *Prop) {
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		var lastSeq [slots]uint64
		var startCPU [slots]time.Duration
		var startProc [slots]time.Duration
		for {
			time.Sleep(200 * time.Millisecond)
			if h := heapBytes(sample); h > heapLimit {
				fmt.Fprintf(os.Stderr, "heap %d bytes\n", h)
				os.Exit(exitMemory)
			}
			for w := 0; w < slots; w++ {
				seq := atomic.LoadUint64(&st.seq[w])
				tid := atomic.LoadInt64(&st.tid[w])
				if tid == 0 {
					continue
				}
				cpu, ok := threadCPU(tid)
				if !ok {
					continue
				}
				if seq != lastSeq[w] {
					lastSeq[w] = seq
					startCPU[w] = cpu
					startProc[w] = processCPU()
					continue
				}
				if cpu-startCPU[w] > hangCPU {
					// leave only this case in the table
					for v := 0; v < slots; v++ {
						if v != w {
							st.mem[v*slotSize] = 0
						}
					}
					fmt.Fprintf(os.Stderr, "case uses %v of CPU time\n", cpu-startCPU[w])
					os.Exit(exitHang)
				}
				suite := int(binary.LittleEndian.Uint64(st.mem[w*slotSize+8:]))
				if suite < len(p.Suites) && p.Suites[suite].Multi && processCPU()-startProc[w] > multiLimit {
					fmt.Fprintln(os.Stderr, "case uses too much CPU time in its goroutines")
					os.Exit(exitHang)
				}
			}
		}
	}()
}
