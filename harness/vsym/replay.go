package vsym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
)

// Result of one native run.
type Result struct {
	Status string   `json:"status"` // ok, assert, panic, assume, mismatch
	Msg    string   `json:"msg"`
	Obs    []int64  `json:"obs"`
	Reach  []string `json:"reach"`
	In     []Input  `json:"in,omitempty"`
}

// Vector is one input vector.
type Vector struct {
	H    string  `json:"harness"`
	In   []Input `json:"inputs"`
	Tier int     `json:"tier"`
	Fill bool    `json:"fill"`
}

var harnesses = map[string]func(){}

// Register makes a harness available for replay.
func Register(name string, f func()) { harnesses[name] = f }

// Run executes one vector natively.
func Run(v Vector) (r Result) {
	vec, pos, obs, reach, failed, mismatch, tier = v.In, 0, nil, nil, "", false, v.Tier
	fill, used = v.Fill, nil
	f := harnesses[v.H]
	if f == nil {
		return Result{Status: "mismatch", Msg: "no harness " + v.H}
	}
	defer func() {
		r.Obs, r.Reach, r.In = obs, reach, used
		e := recover()
		switch x := e.(type) {
		case nil:
			if r.Status == "" {
				r.Status = "ok"
			}
		case stopT:
			switch {
			case mismatch:
				r.Status = "mismatch"
			case x.assume:
				r.Status = "assume"
			default:
				r.Status, r.Msg = "assert", failed
			}
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
		}
	}()
	dirty()
	f()
	if pos != len(vec) && !fill {
		r.Status = "mismatch"
	}
	return
}

// dirty leaves garbage in the free memory, so that memory which is used without
// being zeroed is noticed.
func dirty() {
	if os.Getenv("VSYM_NODIRTY") != "" {
		return
	}
	var keep [][]byte
	for n := 8; n <= 1024; n += 8 {
		for i := 0; i < 4; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = 0xA5
			}
			keep = append(keep, b)
		}
	}
	runtime.KeepAlive(keep)
	keep = nil
	runtime.GC()
}

// Main reads vectors from standard input, one JSON object per line.
func Main() {
	debug.SetMaxStack(64 << 20)
	if os.Getenv("VSYM_GC") != "" {
		go func() {
			for {
				runtime.GC()
			}
		}()
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var v Vector
			if e := json.Unmarshal(line, &v); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(2)
			}
			b, _ := json.Marshal(Run(v))
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			break
		}
	}
}
