// Command run executes harnesses natively on given input vectors.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

var reg = map[string]func(){}

type item struct {
	H string           `json:"h"`
	V map[string]int64 `json:"v"`
}

type result struct {
	I      int      `json:"i"`
	Obs    []string `json:"obs"`
	Fail   string   `json:"fail"`
	Known  []string `json:"known"`
	Assume bool     `json:"assume"`
	Miss   int      `json:"miss"`
}

func one(it item) (r result) {
	f := reg[it.H]
	if f == nil {
		return result{Fail: "", Obs: []string{"no such harness"}}
	}
	e := &vf.Env{Vec: it.V, Tier: os.Getenv("VERIF_TIER")}
	vf.Begin(e)
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if _, ok := x.(vf.Stop); ok {
				return
			}
			if e.Fail == "" && !e.Assume {
				e.Fail = fmt.Sprintf("panic: %v", x)
			}
		}()
		f()
	}()
	return result{Obs: e.Obs, Fail: e.Fail, Known: e.Known, Assume: e.Assume, Miss: e.Miss}
}

func main() {
	debug.SetMaxStack(256 << 20)
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	out := bufio.NewWriter(os.NewFile(3, "out"))
	stdin := os.NewFile(0, "in")
	sc := bufio.NewScanner(stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	i := 0
	for sc.Scan() {
		var it item
		if json.Unmarshal(sc.Bytes(), &it) != nil {
			continue
		}
		r := one(it)
		r.I = i
		i++
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
