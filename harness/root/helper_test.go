//go:build go1.22

package textsecure

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/gorilla/websocket"
)

// The model of the helper process: the client finds a program that only waits,
// and the test answers on the helper's socket. The socket's address is fixed,
// so a test that needs it runs in a network namespace of its own, or, where
// there is none to be had, alone.

func init() { runAgain = ownNetwork }

// ownNetwork runs the test again in a network namespace of its own.
func ownNetwork() (code int, done bool) {
	if os.Getenv("VERIF_NETNS") == "" {
		return 0, false
	}
	if os.Getenv("VERIF_NETNS_IN") != "" {
		upLoopback()
		return 0, false
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = nil, os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "VERIF_NETNS_IN=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: os.Getuid(), HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: os.Getgid(), HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	if os.Getenv("VERIF_NETNS") == "no" || cmd.Start() != nil {
		f, err := os.OpenFile("/tmp/.verif-helper.lock", os.O_CREATE|os.O_RDWR, 0600)
		if err == nil {
			syscall.Flock(int(f.Fd()), syscall.LOCK_EX) // until the process ends
		}
		return 0, false
	}
	err := cmd.Wait()
	if err == nil {
		return 0, true
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
		return ee.ExitCode(), true
	}
	return 2, true
}

func upLoopback() {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(s)
	var req struct {
		name  [16]byte
		flags uint16
		pad   [22]byte
	}
	copy(req.name[:], "lo")
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req)))
	req.flags |= syscall.IFF_UP | syscall.IFF_RUNNING
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req)))
}

// helperMsg is a message on the helper's socket.
type helperMsg struct {
	Type    int `json:"type"`
	Request struct {
		Type    int             `json:"type"`
		Message json.RawMessage `json:"message"`
	} `json:"request"`
}

type modelHelper struct {
	mu     sync.Mutex
	refuse bool // new connections
	conns  []*websocket.Conn
	wake   chan struct{} // closed at the next connection
	// handle answers a message of the client; nil: nothing is answered
	handle func(m helperMsg, reply func(any), drop func())
}

var (
	theHelper     = &modelHelper{wake: make(chan struct{})}
	helperOnce    sync.Once
	helperProblem error
)

// startHelper makes the model of the helper listen.
func startHelper() error {
	helperOnce.Do(func() {
		var l net.Listener
		for i := 0; ; i++ {
			if l, helperProblem = net.Listen("tcp", "127.0.0.1:9081"); helperProblem == nil {
				break
			}
			if i > 2000 {
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		up := websocket.Upgrader{}
		go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			h := theHelper
			h.mu.Lock()
			refuse := h.refuse
			h.mu.Unlock()
			if refuse || r.URL.Path != "/libsignal" {
				rw.WriteHeader(503)
				return
			}
			conn, err := up.Upgrade(rw, r, nil)
			if err != nil {
				return
			}
			h.mu.Lock()
			h.conns = append(h.conns, conn)
			close(h.wake)
			h.wake = make(chan struct{})
			h.mu.Unlock()
			var wm sync.Mutex
			defer func() {
				conn.Close()
				h.mu.Lock()
				defer h.mu.Unlock()
				for i, o := range h.conns {
					if o == conn {
						h.conns = append(h.conns[:i], h.conns[i+1:]...)
						return
					}
				}
			}()
			for {
				_, b, err := conn.ReadMessage()
				if err != nil {
					return
				}
				var m helperMsg
				json.Unmarshal(b, &m)
				h.mu.Lock()
				f := h.handle
				h.mu.Unlock()
				if f != nil {
					f(m, func(v any) {
						wm.Lock()
						defer wm.Unlock()
						if raw, ok := v.([]byte); ok {
							conn.WriteMessage(websocket.TextMessage, raw)
						} else {
							conn.WriteJSON(v)
						}
					}, func() { conn.Close() })
				}
			}
		}))
	})
	return helperProblem
}

// connected waits for the client's connection.
func (h *modelHelper) connected(max time.Duration) bool {
	end := time.After(max)
	for {
		h.mu.Lock()
		n, wake, refuse := len(h.conns), h.wake, h.refuse
		h.mu.Unlock()
		if refuse {
			return false
		}
		if n > 0 {
			return true
		}
		select {
		case <-wake:
		case <-end:
			return false
		}
	}
}

// set prepares the helper for a client: no connections, and what it answers.
func (h *modelHelper) set(refuse bool, f func(helperMsg, func(any), func())) {
	h.mu.Lock()
	h.refuse, h.handle = refuse, f
	cs := h.conns
	h.conns = nil
	h.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
}

// helperPath is a directory with a program under the helper's name.
func helperPath(dir string) (string, error) {
	d := filepath.Join(dir, "bin")
	if err := os.MkdirAll(d, 0700); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(d, "crayfish"), []byte("#!/bin/sh\nexec sleep 600\n"), 0700); err != nil {
		return "", err
	}
	return fmt.Sprintf("%s:%s", d, os.Getenv("PATH")), nil
}
