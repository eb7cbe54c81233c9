package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"

	"verif.local/sim/rt"
)

// Feed says how a reader delivers its bytes.
type Feed struct {
	Small   float64 `json:"small"`             // probability that a piece is smaller than asked for
	Fixed   int     `json:"fixed,omitempty"`   // fixed size of pieces, 0 = none
	Empty   float64 `json:"empty"`             // probability of an empty read
	Burst   int     `json:"burst,omitempty"`   // one run of that many empty reads
	EOF     bool    `json:"eof,omitempty"`     // the end comes with the last piece
	Fail    int     `json:"fail"`              // the reader fails after this many bytes, -1 = never
	Err     int     `json:"err,omitempty"`     // kind of failure
	With    bool    `json:"with,omitempty"`    // the failure comes together with data
	Once    bool    `json:"once,omitempty"`    // the reader goes on after the failure
	Forever bool    `json:"forever,omitempty"` // instead of failing, nothing is delivered any more
	Scratch bool    `json:"scratch,omitempty"` // the rest of the buffer given is written over
	Wrap    int     `json:"wrap,omitempty"`    // kind of reader in front, see wrapped
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var errKinds = []error{errors.New("broken"), io.ErrUnexpectedEOF, syscall.ECONNRESET, timeoutErr{}, io.ErrClosedPipe, syscall.EINTR, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), io.ErrNoProgress}

func genFeed(r *rt.Rand) Feed {
	f := Feed{Fail: -1}
	switch r.Intn(7) {
	case 0: // whole
	case 1:
		f.Small = 1
	case 2:
		f.Small = 0.3
	case 3:
		f.Fixed = 1
	case 4:
		f.Fixed = []int{2, 3, 7, 512, 1000, 1024, 2047, 2048, 2049, 4095, 4096, 4097}[r.Intn(12)]
	case 5:
		f.Small, f.Empty = 0.5, 0.3
	case 6:
		f.Fixed = 1 + r.Intn(300)
		f.Empty = 0.05
	}
	if r.Intn(4) == 0 {
		f.Empty = 0.2
	}
	if r.Intn(8) == 0 {
		f.Burst = 1 + r.Intn(60)
	}
	f.EOF = r.Intn(3) == 0
	f.Scratch = r.Intn(3) == 0
	if r.Intn(3) == 0 {
		f.Wrap = r.Intn(9)
	}
	return f
}

type feeder struct {
	w       *rt.World
	f       Feed
	data    string
	pos     int
	reads   int
	empties int
	failed  bool
	after   int // reads after the failure
	stalls  int // reads without bytes after the last ones
	burst   bool
	given   int // bytes delivered when the failure happened
}

func newFeeder(w *rt.World, f Feed, data string) *feeder {
	if len(data) > 1<<18 {
		// not millions of pieces
		if f.Fixed > 0 && f.Fixed < 500 {
			f.Fixed += 500
		}
		f.Small = min(f.Small, 0.3)
		w.Room(2 * len(data))
		if w.MeanGap > 0 {
			w.MeanGap = max(w.MeanGap, 5000)
		}
	}
	return &feeder{w: w, f: f, data: data}
}

func (d *feeder) err() error { return errKinds[d.f.Err%len(errKinds)] }

func (d *feeder) Read(p []byte) (int, error) {
	d.reads++
	d.w.Pause()
	if d.failed {
		d.after++
		if d.after > 100000 {
			d.w.Fail("endless-reads", "the parser keeps reading: %d reads after the reader failed", d.after)
		}
		if d.f.Forever {
			d.stalls++
			return 0, nil
		}
		if !d.f.Once {
			return 0, d.err()
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	lim := len(d.data)
	failing := d.f.Fail >= 0 && !d.failed
	if failing && d.f.Fail < lim {
		lim = d.f.Fail
	}
	left := lim - d.pos
	fail := func(n int) (int, error) {
		d.failed = true
		d.given = d.pos
		if d.f.Forever {
			d.w.Count("fault.read.stalled_forever")
			if n == 0 {
				d.stalls++
			}
			return n, nil
		}
		d.w.Count("fault.read.error")
		if n > 0 {
			d.w.Count("fault.read.error_with_data")
		}
		return n, d.err()
	}
	if left <= 0 {
		if failing {
			return fail(0)
		}
		return 0, io.EOF
	}
	if d.f.Burst > 0 && !d.burst && d.w.Chance("feed.burst", 0.3) {
		d.burst = true
		d.empties = -d.f.Burst
	}
	if d.empties < 0 {
		if d.empties++; d.empties == 0 {
			d.empties = 20 // no more before data
		}
		d.w.Count("fault.read.empty")
		return 0, nil
	}
	if d.empties < 20 && d.w.Chance("feed.empty", d.f.Empty) {
		d.empties++
		d.w.Count("fault.read.empty")
		return 0, nil
	}
	d.empties = 0
	n := min(left, len(p))
	k := n
	if d.f.Fixed > 0 {
		k = min(n, d.f.Fixed)
	} else if d.f.Small > 0 {
		// 0 = as much as there is, v = v bytes
		v := d.w.Choose("feed.size", n-1, func(r *rt.Rand) int {
			if !r.P(d.f.Small) {
				return 0
			}
			if r.Intn(2) == 0 {
				return 1 + r.Intn(4)
			}
			return r.Intn(n)
		})
		if v > 0 {
			k = v
		}
	}
	if k < n {
		d.w.Count("fault.read.short")
	}
	copy(p, d.data[d.pos:d.pos+k])
	if d.f.Scratch {
		// as io.Reader allows
		for i := k; i < len(p) && i < k+5000; i++ {
			p[i] = "\n \"x)$"[i%6]
		}
	}
	d.pos += k
	if d.pos == lim {
		if failing && d.f.With {
			return fail(k)
		}
		if !failing && d.f.EOF {
			d.w.Count("fault.read.eof_with_data")
			return k, io.EOF
		}
	}
	return k, nil
}

// byteFeeder also has what many readers have besides Read.
type byteFeeder struct {
	*feeder
	one [1]byte
}

func (d *byteFeeder) ReadByte() (byte, error) {
	for {
		n, err := d.feeder.Read(d.one[:])
		if n == 1 {
			return d.one[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (d *byteFeeder) WriteTo(to io.Writer) (int64, error) {
	n, err := io.Copy(to, struct{ io.Reader }{d.feeder})
	return n, err
}

func (d *byteFeeder) Close() error { return nil }

// wrapped gives the feeder as a reader of one of several kinds.
func wrapped(w *rt.World, f Feed, s string) io.Reader {
	d := newFeeder(w, f, s)
	switch f.Wrap {
	case 1:
		return bufio.NewReaderSize(d, 16)
	case 2:
		return bufio.NewReader(d)
	case 3:
		return &byteFeeder{feeder: d}
	case 4:
		k := len(s) / 2
		return io.MultiReader(newFeeder(w, f, s[:k]), strings.NewReader(""), newFeeder(w, f, s[k:]))
	case 5:
		return io.LimitReader(newFeeder(w, f, s+"more"), int64(len(s)))
	case 6:
		return io.TeeReader(d, io.Discard)
	case 7:
		return bytes.NewBufferString(s)
	case 8:
		// a part of something bigger, from which something was read before
		b := bytes.NewReader([]byte("before" + s))
		b.Seek(6, io.SeekStart)
		return b
	}
	return d
}

// whole delivers everything at once.
func whole(s string) io.Reader { return strings.NewReader(s) }
