package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif.local/sim/rt"
)

var raceOff int

// raceReport reads the new reports of the race detector and returns a violation when
// both accesses are made by the code under test.
func raceReport() *rt.Violation {
	base := os.Getenv("VSIM_RACELOG")
	fs, _ := filepath.Glob(base + ".*")
	mine := fmt.Sprintf("%s.%d", base, os.Getpid())
	for _, f := range fs {
		if f != mine {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil || len(b) <= raceOff {
			continue
		}
		txt := string(b[raceOff:])
		raceOff = len(b)
		for _, rep := range strings.Split(txt, "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			if v := classify(rep); v != nil {
				return v
			}
		}
	}
	return nil
}

// classify looks at the two access stacks of a report.
func classify(rep string) *rt.Violation {
	lines := strings.Split(rep, "\n")
	var tops []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		acc := strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine")
		if !acc || strings.HasPrefix(strings.TrimSpace(l), "Goroutine") {
			continue
		}
		top := "?"
		for j := i + 1; j < len(lines); j += 2 {
			fn := strings.TrimSpace(lines[j])
			if fn == "" {
				break
			}
			if strings.Contains(fn, "failed to restore") {
				break
			}
			if library(fn) {
				continue
			}
			top = fn
			break
		}
		tops = append(tops, top)
	}
	if len(tops) < 2 {
		return nil
	}
	if strings.Contains(rep, "strings.(*Replacer)") || strings.Contains(rep, "eplacer).") {
		return nil // has a sync.Once, which is not seen
	}
	in := 0
	for _, t := range tops[:2] {
		if strings.HasPrefix(t, "github.com/rveen/ogdl") {
			in++
		} else if t != "?" {
			return nil
		}
	}
	if in == 0 {
		return nil
	}
	short := func(s string) string {
		s = strings.TrimPrefix(s, "github.com/rveen/")
		if k := strings.LastIndex(s, "("); k > 0 {
			s = s[:k]
		}
		return s
	}
	a, b := short(tops[0]), short(tops[1])
	if a > b {
		a, b = b, a
	}
	return &rt.Violation{Class: "race:" + a + "/" + b, Msg: "data race between goroutines\n" + rep}
}

// library tells if a function works for its caller.
func library(fn string) bool {
	for _, p := range []string{"runtime.", "internal/", "sync/atomic", "bytes.", "strings.", "bufio.", "sort.", "slices.", "container/", "golang.org/x/text/", "io.", "fmt.", "encoding/", "strconv.", "unicode"} {
		if strings.HasPrefix(fn, p) {
			return true
		}
	}
	return false
}
