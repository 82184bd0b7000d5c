//go:build go1.22

package crayfish

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

func init() {
	if os.Getenv("VERIF_C36_START") != "" {
		config.ConfigFile = &config.Config{UUID: "3333"}
		Run()
		os.Exit(0)
	}
}

// TestC36Found: the helper is the program of the path, or else the one beside
// the application; looking for it leaves nothing behind.
func TestC36Found(t *testing.T) {
	kit.Check(t, "the helper was found in a place or among several", func(c *kit.Case) {
		dir := c.Scratch()
		bin := filepath.Join(dir, "bin")
		work := filepath.Join(dir, kit.Pick(c.T, "directory", []string{"work", "with blank", "crayfish", "ä"}))
		os.MkdirAll(bin, 0700)
		os.MkdirAll(work, 0700)
		mark := filepath.Join(dir, "mark")
		put := func(path, name string) {
			os.MkdirAll(filepath.Dir(path), 0700)
			if err := os.WriteFile(path, []byte(fmt.Sprintf("#!/bin/sh\necho %s >> '%s'\n", name, mark)), 0700); err != nil {
				c.Broken("%v", err)
			}
		}
		onPath := c.Chance("on the path", 1, 3)
		beside := kit.Pick(c.T, "beside", []string{"nothing", "program", "program", "build", "build", "directory"})
		want := ""
		switch beside {
		case "program":
			put(filepath.Join(work, "crayfish"), "beside")
			want = "beside"
		case "build":
			put(filepath.Join(work, "crayfish/target/debug/crayfish"), "build")
			want = "build"
		case "directory":
			os.MkdirAll(filepath.Join(work, "crayfish/src"), 0700)
		}
		if onPath {
			put(filepath.Join(bin, "crayfish"), "path")
			want = "path"
		}
		before := list36(work)
		exe, err := os.Executable()
		if err != nil {
			c.Broken("%v", err)
		}
		starts := c.Int("starts", 1, 2)
		for n := 0; n < starts; n++ {
			cmd := exec.Command(exe)
			cmd.Dir = work
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "PATH=") && !strings.HasPrefix(e, "PWD=") {
					cmd.Env = append(cmd.Env, e)
				}
			}
			cmd.Env = append(cmd.Env, "PATH="+bin, "VERIF_C36_START=1")
			out, err := cmd.CombinedOutput()
			b, _ := os.ReadFile(mark)
			os.Remove(mark)
			ran := strings.TrimSpace(string(b))
			c.Step("helper on the path %v, beside the application %s: started %q, %v", onPath, beside, ran, err)
			if after := list36(work); after != before {
				c.Bad("looking for the helper leaves %q; there was %q", after, before)
			}
			if ran != want {
				c.Bad("the helper on the path (%v) or beside the application (%s): %q is started instead of %q\n%s", onPath, beside, ran, want, out)
			}
		}
		if want != "" {
			c.NonTrivial()
		}
	})
}

func list36(dir string) string {
	s := ""
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		s += p[len(dir):] + "\n"
		return nil
	})
	return s
}
