package main

import (
	"github.com/rveen/ogdl"

	"verif.local/sim/rt"
)

// What the code under test returned belongs to the caller, and what it was given as well once it
// has returned: a result must stay as it is whatever else is done, and the caller may write over it.

type held struct {
	what      string
	got, want []byte
}

var holding struct {
	w  *rt.World
	hs []held
}

// hold keeps a result, to be looked at again later. The result is written over after that.
// Called when the caller is done with b itself: later calls, by other tasks too, write over it.
func hold(w *rt.World, what string, b []byte) {
	if holding.w != w {
		holding.w, holding.hs = w, nil
	}
	checkHeld(w)
	for len(holding.hs) >= 4 {
		scribble(holding.hs[0].got)
		holding.hs = holding.hs[1:]
	}
	if len(b) == 0 || len(b) > 4<<20 {
		return
	}
	holding.hs = append(holding.hs, held{what, b, append([]byte(nil), b...)})
}

func checkHeld(w *rt.World) {
	if holding.w != w {
		return
	}
	for _, h := range holding.hs {
		if string(h.got) != string(h.want) {
			w.Fail("result-changed", "the %d bytes that %s returned before, %s, are now %s", len(h.want), h.what, show(string(h.want)), show(string(h.got)))
		}
	}
}

// scribble writes over bytes that are the caller's.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// spoil writes over the nodes of a graph that is the caller's.
func spoil(g *ogdl.Graph) {
	if g == nil {
		return
	}
	st := []*ogdl.Graph{g}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = append(st[:len(st)-1], n.Out...)
		if b, ok := n.This.([]byte); ok {
			scribble(b)
		}
		n.This = "spoiled"
		n.Out = nil
	}
}

// deepCopy copies a graph, without the code under test.
func deepCopy(g *ogdl.Graph) *ogdl.Graph {
	if g == nil {
		return nil
	}
	c := &ogdl.Graph{This: g.This}
	if b, ok := g.This.([]byte); ok {
		c.This = append([]byte(nil), b...)
	}
	for _, n := range g.Out {
		c.Out = append(c.Out, deepCopy(n))
	}
	return c
}
