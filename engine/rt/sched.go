package rt

import (
	"encoding/json"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Controlled schedule for concurrent replays: the shimmed sync/atomic and sync packages call
// Gate before every operation of a registered thread; operations are released in the recorded
// order. A watchdog drops control if the recorded order cannot be followed.

type step struct {
	T  int    `json:"t"`
	Op string `json:"op"`
}

var (
	smu    sync.Mutex
	scond  = sync.NewCond(&smu)
	order  []int
	pos    int
	active bool
	gids   = map[int64]int{}
	Diverg bool
	offOrd bool // the threads did more or fewer steps than recorded
)

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v
}

func Register(t int) {
	smu.Lock()
	gids[gid()] = t
	smu.Unlock()
}
func Unregister() {
	smu.Lock()
	t := gids[gid()]
	delete(gids, gid())
	// drop any remaining steps of this thread
	if active {
		var n []int
		for i, x := range order {
			if i < pos || x != t {
				n = append(n, x)
			} else {
				offOrd = true
			}
		}
		order = n
	}
	scond.Broadcast()
	smu.Unlock()
}

func StartSchedule() {
	b, err := os.ReadFile(os.Getenv("VERIF_INPUTS"))
	if err != nil {
		return
	}
	var r struct {
		Sched []step `json:"sched"`
	}
	json.Unmarshal(b, &r)
	smu.Lock()
	order, pos = nil, 0
	for _, s := range r.Sched {
		order = append(order, s.T)
	}
	active = len(order) > 0
	smu.Unlock()
	if active {
		go func() {
			last := -1
			for {
				time.Sleep(300 * time.Millisecond)
				smu.Lock()
				if !active {
					smu.Unlock()
					return
				}
				if pos == last {
					Diverg = true
					active = false
					scond.Broadcast()
				}
				last = pos
				smu.Unlock()
			}
		}()
	}
}

func StopSchedule() {
	smu.Lock()
	if active && !Diverg && !offOrd && pos == len(order) {
		println("VERIF-FOLLOWED")
	}
	active = false
	scond.Broadcast()
	smu.Unlock()
}

// Gate blocks the calling thread until its next step is due.
func Gate() {
	smu.Lock()
	defer smu.Unlock()
	if !active {
		return
	}
	t, ok := gids[gid()]
	if !ok {
		return
	}
	for active && pos < len(order) && order[pos] != t {
		scond.Wait()
	}
	if active && pos >= len(order) {
		offOrd = true
		active = false
	}
}

// Done marks the gated operation as performed.
func Done() {
	smu.Lock()
	defer smu.Unlock()
	if !active {
		return
	}
	if t, ok := gids[gid()]; ok && pos < len(order) && order[pos] == t {
		pos++
		scond.Broadcast()
	}
}
