// Drives the Go package through histories of the specification and records what a Go caller observes.
// drv TRACE NATIVES CASES
package main

// #include <stdlib.h>
// #include "shim.h"
import "C"
import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

type entry struct {
	Op     string          `json:"op"`
	Blob   *string         `json:"blob"`
	Kind   string          `json:"kind"`
	Digest string          `json:"digest"`
	Want   json.RawMessage `json:"want"`
}
type history struct {
	Id      string              `json:"id"`
	Plan    string              `json:"plan"`
	Shared  []json.RawMessage   `json:"shared"`
	Entries []entry             `json:"entries"`
	Progs   [][]json.RawMessage `json:"progs"`
}
type event map[string]any

var (
	mu    sync.Mutex
	out   *bufio.Writer
	ids   int
	steps int
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

// record appends an event; the order of the file is the order of the calls of this function
func record(e event) {
	mu.Lock()
	defer mu.Unlock()
	b, err := json.Marshal(e)
	check(err)
	_, err = out.Write(append(b, '\n'))
	check(err)
	check(out.Flush())
}
func nextId() int {
	mu.Lock()
	defer mu.Unlock()
	ids++
	steps++
	return ids
}
func blob(e entry, salt int) []byte {
	if e.Blob == nil {
		return nil
	}
	b, err := hex.DecodeString(*e.Blob)
	check(err)
	if salt%2 == 0 { // somewhere inside a longer array
		a := bytes.Repeat([]byte{0xa5}, len(b)+77)
		copy(a[31:], b)
		return a[31 : 31+len(b) : 31+len(b)]
	}
	return b
}
func classify(e entry, r []byte, err error) (string, string) {
	if err != nil {
		if r != nil || err.Error() == "" {
			return "shape", ""
		}
		return "err", ""
	}
	if len(r) != 48 {
		return "shape", ""
	}
	h := sha256.Sum256(r)
	if hex.EncodeToString(h[:]) == e.Digest {
		return "ok", "same"
	}
	return "ok", "other"
}

// the context is not used by this function after the call
//
//go:noinline
func ask(c *kzg.DASContext, b []byte) (r []byte, err error, fell any) {
	defer func() { fell = recover() }()
	r, err = c.BlobToKZGCommitment(b)
	return
}

// the context may be collected from here on unless the caller holds it
func call(th, slot, n int, hold func() *kzg.DASContext, e entry) {
	id := nextId()
	b := blob(e, id)
	before := append([]byte(nil), b...)
	record(event{"e": "begin", "t": th, "call": id, "slot": slot, "entry": n})
	r, err, fell := ask(hold(), b)
	kind, same, text := "panic", "", fmt.Sprint(fell)
	if fell == nil {
		kind, same = classify(e, r, err)
		text = ""
		if err != nil {
			text = err.Error()
			if len(text) > 100 {
				text = text[:100]
			}
		}
	}
	record(event{"e": "end", "t": th, "call": id, "slot": slot, "entry": n, "op": e.Op, "lib": e.Kind, "kind": kind, "digest": same, "inputs": bytes.Equal(b, before), "text": text})
}
func num(x json.RawMessage) int {
	var n int
	check(json.Unmarshal(x, &n))
	return n
}
func program(th int, prog []json.RawMessage, shared []*kzg.DASContext, entries []entry) {
	mine := map[int]*kzg.DASContext{}
	var live []int
	for _, raw := range prog {
		var it []json.RawMessage
		check(json.Unmarshal(raw, &it))
		var op string
		check(json.Unmarshal(it[0], &op))
		switch op {
		case "new":
			c := kzg.NewProverContext()
			record(event{"e": "new", "t": th, "slot": num(it[1]), "ok": c != nil})
			mine[num(it[1])] = c
			live = append(live, num(it[1]))
		case "free":
			record(event{"e": "drop", "t": th, "slot": num(it[1])})
		case "call":
			slot, n := num(it[1]), num(it[2])
			if c, ok := mine[slot]; ok {
				// the last use: nothing but the call itself refers to the context
				delete(mine, slot)
				h := &c
				c2 := func() *kzg.DASContext { x := *h; *h = nil; return x }
				call(th, slot, n, c2, entries[n-1])
			} else {
				call(th, slot, n, func() *kzg.DASContext { return shared[slot-1] }, entries[n-1])
			}
		}
	}
}
func main() {
	f, err := os.Create(os.Args[1])
	check(err)
	out = bufio.NewWriter(f)
	in, err := os.Open(os.Args[3])
	check(err)
	C.shim_open(C.CString(os.Args[2]))
	shared := []*kzg.DASContext{kzg.NewProverContext(), kzg.NewProverContext(), kzg.NewProverContext()}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
				C.shim_tick()
				time.Sleep(200 * time.Microsecond)
			}
		}
	}()
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<30)
	runs := 0
	for ; sc.Scan(); runs++ {
		var h history
		check(json.Unmarshal(sc.Bytes(), &h))
		record(event{"e": "case", "case": runs, "id": h.Id, "plan": h.Plan, "consts": []int{kzg.BytesPerCommitment, kzg.BytesPerProof, kzg.BytesPerFieldElement, kzg.BytesPerBlob, kzg.MaxNumColumns, kzg.BytesPerCell}})
		for k := range shared {
			record(event{"e": "new", "t": 0, "slot": k + 1, "ok": shared[k] != nil})
		}
		var wg sync.WaitGroup
		for t := range h.Progs {
			wg.Add(1)
			go func(t int) { defer wg.Done(); program(t+1, h.Progs[t], shared, h.Entries) }(t)
		}
		wg.Wait()
		for k := len(shared); k > 0; k-- {
			record(event{"e": "drop", "t": 0, "slot": k})
		}
	}
	check(sc.Err())
	// nothing refers to any context now
	for k := range shared {
		shared[k] = nil
	}
	for i := 0; i < 300 && C.shim_live() > 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	close(stop)
	C.shim_close()
	record(event{"e": "done"})
	fmt.Printf("{\"runs\": %d, \"steps\": %d, \"fails\": [], \"samples\": []}\n", runs, steps)
}
