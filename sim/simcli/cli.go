//go:build sysio

// Package simcli installs the fault plan in a command line tool process.
package simcli

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"syscall"

	"xbnfsim/simio"
	"xbnfsim/simrt"
)

func init() {
	v := os.Getenv("XSIM_PLAN")
	if v == "" {
		return
	}
	var p simio.Plan
	if json.Unmarshal([]byte(v), &p) != nil {
		os.Exit(98)
	}
	s := simio.Install(p)
	s.Notify = func(m string) { syscall.SimRawWrite(3, []byte(m)) }
}

// Run runs the tool's main function as a simulated task.
func Run(main func()) {
	budget, gap := int64(1<<40), int64(0)
	dec := simrt.ReplayDecider([simrt.NumStreams][]int64{})
	if v := os.Getenv("XSIM_BUDGET"); v != "" {
		if n, _ := strconv.ParseInt(v, 10, 64); n > 0 {
			budget = n
		}
	}
	if v := os.Getenv("XSIM_MAPSEED"); v != "" {
		n, _ := strconv.ParseUint(v, 10, 64)
		dec = simrt.NewDecider(n)
		gap = -1
	}
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: gap}, dec)
	s.Spawn("main", main)
	s.Run()
	if s.Over {
		fmt.Fprintln(os.Stderr, "XSIM-BUDGET-EXCEEDED")
		os.Exit(97)
	}
	for _, t := range s.Tasks() {
		if t.Panic != nil {
			fmt.Fprintf(os.Stderr, "panic: %v\n\ngoroutine %d:\n%s\n", t.Panic, t.ID+1, t.Stack)
			os.Exit(2)
		}
	}
	if s.Deadlock != "" {
		fmt.Fprintln(os.Stderr, "fatal error: all goroutines are asleep - deadlock!")
		os.Exit(2)
	}
}
