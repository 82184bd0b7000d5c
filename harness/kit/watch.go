package kit

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// How long a case may take before it is looked at. Cases take milliseconds, few take seconds.
const patience = 100 * time.Second

var (
	frame = regexp.MustCompile(`(?m)^\t(\S+\.go:\d+)`)
	call  = regexp.MustCompile(`(?m)^(\S+)\(`)
)

// watch ends the process with a violation if one call of the code under test made by the case does not
// return: the property of every case is that it does.
func watch(done chan bool) {
	if fakeTime {
		return
	}
	t := time.NewTimer(patience)
	defer t.Stop()
	last, same := "", 0
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		call, stack := stuck()
		if call != "" && call == last {
			same++
		} else {
			last, same = call, 1
		}
		if call != "" && same == 6 {
			fmt.Fprintf(os.Stderr, "\n%sa call of the code under test did not return within %v: %s\n%s\n", violation, patience, strings.TrimSuffix(call, "("), stack)
			os.Exit(3)
		}
		t.Reset(3 * time.Second)
	}
}

// stuck returns the call of the code under test in which the goroutine of the case is, if it is in one.
func stuck() (string, string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "zzverif/kit.Check") || strings.Contains(g, "zzverif/kit.watch") {
			continue
		}
		lines := strings.Split(g, "\n")
		at := ""
		for i := 1; i+1 < len(lines); i += 2 {
			m := frame.FindStringSubmatch(lines[i+1])
			if m == nil {
				continue
			}
			if strings.Contains(lines[i], "zzverif/kit.Check") {
				return at, g
			}
			own := strings.Contains(m[1], "/zz_") || strings.Contains(m[1], "/zzverif/")
			if strings.Contains(lines[i], "signal-golang/textsecure") && !own {
				at = call.FindString(lines[i])
				if i+3 < len(lines) { // with the line of the harness that made the call
					if m := frame.FindStringSubmatch(lines[i+3]); m != nil {
						at += " called at " + m[1]
					}
				}
			} else if own && at != "" {
				return at, g
			}
		}
	}
	return "", ""
}
