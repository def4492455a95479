package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// collect adds a stage that keeps every batch in the slot of its sequence
// number.
func collect[T any](p *pipeline.Pipeline[T], kind byte, slots []T, hook func(seqNo int, data T) T) *mct.Bag {
	seen := mct.NewBag()
	p.Add(mkNode(kind, pipeline.Receive(func(seqNo int, data T) T {
		mct.Assert(seqNo >= 0 && seqNo < len(slots), "%c: batch %d, at most %d were expected", kind, seqNo, len(slots))
		seen.Add("%d", seqNo)
		if hook != nil {
			data = hook(seqNo, data)
		}
		slots[seqNo] = data
		return data
	})))
	return seen
}

// numbered checks that batches 0..n-1 were seen once each and returns n.
func numbered(seen *mct.Bag, what string) int {
	n := seen.Len()
	for i := range n {
		mct.Assert(seen.Count("%d", i) == 1, "%s: batch %d seen %d times: %v", what, i, seen.Count("%d", i), seen.Map())
	}
	return n
}

func upTo(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func flatten[T any](slots [][]T) (all []T) {
	for _, s := range slots {
		all = append(all, s...)
	}
	return
}

func lines(n int) (l []string) {
	for i := range n {
		l = append(l, fmt.Sprintf("line%d", i))
	}
	return
}

// brokenReader returns the text in small pieces and then an error.
type brokenReader struct {
	text string
	step int
	err  error
}

func (r *brokenReader) Read(b []byte) (int, error) {
	if r.text == "" {
		return 0, r.err
	}
	n := copy(b, r.text[:min(r.step, len(r.text))])
	r.text = r.text[n:]
	return n, nil
}

func init() {
	// L08: sources deliver exactly what they hold
	slice := func(kind byte, n, nb, how int) {
		array := upTo(n + 2)
		in := array[:n]
		orig := append([]int(nil), in...)
		slots := make([][]int, n+1)
		p := pipeline.New(pipeline.NewSlice(in))
		p.NofBatches(nb)
		seen := collect(p, kind, slots, func(_ int, data []int) []int {
			mct.Assert(len(data) > 0, "slice of %d elements: empty batch", n)
			switch how {
			case 1: // receivers may append to the batch they get
				return append(data, 100)
			case 2: // or modify it
				for i := range data {
					data[i] += 10
				}
			}
			return data
		})
		p.Run()
		mct.Assert(p.Err() == nil, "slice: error %v", p.Err())
		what := fmt.Sprintf("slice of %d elements, %d batches, %c, receiver %d", n, nb, kind, how)
		numbered(seen, what)
		var want []int
		var got []int
		for _, s := range slots {
			if how == 1 && len(s) > 0 {
				mct.Assert(s[len(s)-1] == 100, "%s: received %v", what, slots)
				s = s[:len(s)-1]
			}
			got = append(got, s...)
		}
		for _, v := range orig {
			if how == 2 {
				v += 10
			}
			want = append(want, v)
		}
		mct.Assert(eqInts(got, want), "%s: received %v, want %v", what, slots, want)
		if how == 1 {
			mct.Assert(eqInts(in, orig), "%s: appending to a batch changed the input to %v", what, in)
		}
		mct.Assert(array[n] == n && array[n+1] == n+1, "%s: elements behind the slice were overwritten: %v", what, array)
		mct.Out("%s", what)
	}
	reg("L08", "slice", mct.Scenario{Default: true, Body: func() {
		slice(nodeKinds[mct.Choose(5)], mct.Choose(mct.Tier(7, 11)), 1+mct.Choose(mct.Tier(7, 11)), mct.Choose(3))
	}})
	for _, k := range nodeKinds {
		reg("L08", fmt.Sprintf("slice/%c", k), mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
			slice(byte(k), 2+mct.Choose(3), 2+mct.Choose(2), mct.Choose(3))
		}})
	}
	// two pipelines over adjacent parts of an array, at the same time
	reg("L08", "slice/parts", mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
		array := upTo(4)
		cut := 1 + mct.Choose(3)
		done := make(chan bool)
		run := func(part []int, kind byte) {
			p := pipeline.New(pipeline.NewSlice(part))
			p.NofBatches(2)
			want := append([]int(nil), part...)
			slots := make([][]int, 3)
			seen := collect(p, kind, slots, func(_ int, data []int) []int { return append(data, 100) })
			p.Run()
			what := fmt.Sprintf("elements %d to %d", want[0], want[len(want)-1])
			numbered(seen, what)
			var got []int
			for _, s := range slots {
				if len(s) > 0 {
					got = append(got, s[:len(s)-1]...)
				}
			}
			mct.Assert(eqInts(got, want), "%s: received %v", what, slots)
		}
		kind := nodeKinds[mct.Choose(5)]
		go func() {
			run(array[cut:], kind)
			close(done)
		}()
		run(array[:cut], kind)
		<-done
		mct.Assert(eqInts(array, upTo(4)), "the array changed to %v", array)
		mct.Out("%c %d", kind, cut)
	}})
	scan := func(kind byte, n, inc, limit, step int, bytes, fail bool) {
		all := lines(n)
		text := strings.Join(all, "\n")
		what := fmt.Sprintf("%d lines, increment %d, limit %d, %c, bytes %v, failing %v", n, inc, limit, kind, bytes, fail)
		r := &brokenReader{text: text, step: step, err: io.EOF}
		if fail {
			r.err = seqNum(5)
		}
		check := func(got []string, err error) {
			if fail {
				mct.Assert(errNo(err) == 5, "%s: Err = %v", what, err)
				// nothing but a prefix, batches past the error may be dropped
				mct.Assert(len(got) <= len(all), "%s: received %v", what, got)
				all = all[:len(got)]
			} else {
				mct.Assert(err == nil, "%s: Err = %v", what, err)
			}
			mct.Assert(join(got) == join(all), "%s: received %v, want %v", what, got, all)
		}
		judge := func(err func() error, seen *mct.Bag, got func() []string) {
			if !fail {
				numbered(seen, what)
				check(got(), err())
				return
			}
			// with an error, Run does not wait for receivers that are active
			mct.Assert(errNo(err()) == 5, "%s: Err = %v", what, err())
			if ordered(kind) {
				mct.Final(func() {
					numbered(seen, what)
					check(got(), err())
				})
			}
		}
		if bytes {
			p := pipeline.New(pipeline.NewBytesScanner(r))
			p.SetVariableBatchSize(inc, limit)
			slots := make([][][]byte, n+1)
			seen := collect(p, kind, slots, func(seqNo int, data [][]byte) [][]byte {
				mct.Assert(len(data) > 0 && len(data) <= max(limit, 1), "%s: batch %d has %d elements", what, seqNo, len(data))
				return data
			})
			p.Run()
			judge(p.Err, seen, func() (got []string) {
				for _, s := range slots {
					for _, b := range s {
						got = append(got, string(b))
					}
				}
				return
			})
		} else {
			p := pipeline.New(pipeline.NewScanner(r))
			p.SetVariableBatchSize(inc, limit)
			slots := make([][]string, n+1)
			seen := collect(p, kind, slots, func(seqNo int, data []string) []string {
				mct.Assert(len(data) > 0 && len(data) <= max(limit, 1), "%s: batch %d has %d elements", what, seqNo, len(data))
				return data
			})
			p.Run()
			judge(p.Err, seen, func() []string { return flatten(slots) })
		}
		mct.Out("%s", what)
	}
	reg("L08", "scanner", mct.Scenario{Default: true, Body: func() {
		inc := 1 + mct.Choose(4)
		scan("OSX"[mct.Choose(3)], mct.Choose(mct.Tier(7, 12)), inc, inc+mct.Choose(4), 1+6*mct.Choose(2), mct.Choose(2) == 1, mct.Choose(2) == 1)
	}})
	reg("L08", "scanner/all", mct.Scenario{PB: 3, Body: func() {
		scan("OSPLX"[mct.Choose(5)], 2+mct.Choose(2), 1, 2, 3, false, mct.Choose(2) == 1)
	}})
	reg("L08", "scanner/fetch", mct.Scenario{Default: true, Body: func() {
		// the sources themselves, for all sequences of sizes
		n := mct.Choose(7)
		bytes := mct.Choose(2) == 1
		all := lines(n)
		r := strings.NewReader(strings.Join(all, "\n"))
		sizes := []int{}
		for range 3 {
			sizes = append(sizes, 1+mct.Choose(4))
		}
		sizes = append(sizes, 7, 1)
		var keep [][]byte
		var want []string
		sc, bs := pipeline.NewScanner(r), pipeline.NewBytesScanner(r)
		for _, s := range sizes {
			exp := min(s, len(all))
			var got int
			var data []string
			if bytes {
				got = bs.Fetch(s)
				for _, b := range bs.Data() {
					data = append(data, string(b))
				}
				keep = append(keep, bs.Data()...)
			} else {
				got = sc.Fetch(s)
				data = sc.Data()
			}
			mct.Assert(got == exp && join(data) == join(all[:exp]), "fetch of %d from %v: returned %d with %v", s, all, got, data)
			want = append(want, all[:exp]...)
			all = all[exp:]
		}
		// earlier batches of bytes stay intact
		for i, b := range keep {
			mct.Assert(string(b) == want[i], "element %d changed to %q", i, b)
		}
		mct.Out("%d %v %v", n, bytes, sizes)
	}})
	reg("L08", "scanner/text", mct.Scenario{Default: true, Body: func() {
		// empty lines, texts beyond the buffer of the scanner, other separators,
		// and receivers that append to the elements themselves
		var all []string
		shape := mct.Choose(3)
		sep := "\n"
		switch shape {
		case 0:
			for i := range mct.Choose(mct.Tier(5, 7)) {
				all = append(all, []string{"", "x", fmt.Sprint("line", i)}[mct.Choose(3)])
			}
		case 1:
			sep = " "
			for i := range mct.Choose(4) {
				all = append(all, strings.Repeat("w", 1+mct.Choose(2))+fmt.Sprint(i))
			}
		case 2:
			size := []int{1, 1000, 2047, 3000, 4096, 9000}[mct.Choose(6)]
			for i := range 12 {
				all = append(all, fmt.Sprint(i)+strings.Repeat(string(rune('a'+i)), size))
			}
		}
		text := strings.Join(all, sep)
		if len(all) > 0 && mct.Choose(2) == 1 || shape == 0 && len(all) > 0 && all[len(all)-1] == "" {
			text += sep
		}
		// with a buffer of 10 bytes, longer elements are errors
		small := shape == 2 && mct.Choose(3) == 2
		if small {
			all = nil
			for i := range 4 {
				all = append(all, fmt.Sprint("line", i))
			}
			k := mct.Choose(4)
			text = strings.Join(all[:k], sep)
			if k > 0 {
				text += sep
			}
			text += strings.Repeat("x", 50) + sep + "rest"
			all = all[:k]
		}
		bytes := mct.Choose(2) == 1
		fetch, s := mct.Choose(2) == 1, 1+mct.Choose(3)
		r := &brokenReader{text: text, step: []int{1, 7, 1 << 20}[mct.Choose(3)], err: io.EOF}
		what := fmt.Sprintf("shape %d, bytes %v, batches of %d, text %.60q", shape, bytes, s, text)
		var got []string
		var keep [][]byte
		var err error
		setup := func(sc *bufio.Scanner) {
			if sep == " " {
				sc.Split(bufio.ScanWords)
			}
			if small {
				sc.Buffer(make([]byte, 0, 10), 10)
			}
		}
		if bytes {
			src := pipeline.NewBytesScanner(r)
			setup(src.Scanner)
			take := func(data [][]byte) {
				for _, b := range data {
					keep = append(keep, b)
				}
				for _, b := range data {
					_ = append(b, "#####"...)
				}
			}
			if fetch {
				for n := src.Fetch(s); n > 0; n = src.Fetch(s) {
					mct.Assert(len(src.Data()) == n && n <= s, "%s: fetched %d elements of %d", what, len(src.Data()), n)
					take(src.Data())
					if src.Err() != nil { // nothing is fetched after an error
						break
					}
				}
				err = src.Err()
			} else {
				p := pipeline.New(src)
				p.SetVariableBatchSize(s, s)
				p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data [][]byte) [][]byte { take(data); return data })))
				p.Run()
				err = p.Err()
			}
		} else {
			src := pipeline.NewScanner(r)
			setup(src.Scanner)
			take := func(data []string) { got = append(got, data...) }
			if fetch {
				for n := src.Fetch(s); n > 0; n = src.Fetch(s) {
					mct.Assert(len(src.Data()) == n && n <= s, "%s: fetched %d elements of %d", what, len(src.Data()), n)
					take(src.Data())
					if src.Err() != nil { // nothing is fetched after an error
						break
					}
				}
				err = src.Err()
			} else {
				p := pipeline.New(src)
				p.SetVariableBatchSize(s, s)
				p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data []string) []string { take(data); return data })))
				p.Run()
				err = p.Err()
			}
		}
		if small {
			mct.Assert(errors.Is(err, bufio.ErrTooLong), "%s: error %v", what, err)
		} else {
			mct.Assert(err == nil, "%s: error %v", what, err)
		}
		judge := func() {
			for _, b := range keep {
				got = append(got, string(b))
			}
			if small && !fetch { // the last batches may be dropped
				mct.Assert(len(got) <= len(all), "%s: got %.200q", what, got)
				all = all[:len(got)]
			}
			mct.Assert(len(got) == len(all), "%s: %d elements, want %d: %.200q", what, len(got), len(all), got)
			for i := range got {
				mct.Assert(got[i] == all[i], "%s: element %d is %.60q, want %.60q", what, i, got[i], all[i])
			}
		}
		if small && !fetch {
			mct.Final(judge) // with an error, Run does not wait for receivers that are active
		} else {
			judge()
		}
		mct.Out("%s", what)
	}})
	reg("L08", "slice/fetch", mct.Scenario{Default: true, Body: func() {
		n := mct.Choose(8)
		all := upTo(n)
		src := pipeline.NewSlice(upTo(n))
		mct.Assert(src.Prepare(context.Background()) == n, "size of a slice of %d elements is %d", n, src.Prepare(context.Background()))
		for range 5 {
			s := 1 + mct.Choose(4)
			exp := min(s, len(all))
			got := src.Fetch(s)
			mct.Assert(got == exp && eqInts(src.Data(), all[:exp]), "fetch of %d from %v: returned %d with %v", s, all, got, src.Data())
			all = all[exp:]
		}
		mct.Out("%d", n)
	}})
	reg("L08", "func", mct.Scenario{PB: 3, Body: func() {
		// one caller, in sequence, nothing after the end
		kind := nodeKinds[mct.Choose(5)]
		known := mct.Choose(2) == 1
		n := mct.Choose(4)
		inside, calls, prepared := 0, 0, 0
		var ctx context.Context
		var prep func(context.Context) int
		if known {
			prep = func(c context.Context) int { prepared++; ctx = c; return n }
		}
		var p *pipeline.Pipeline[[]int]
		fetch := func(size int) ([]int, int, error) {
			mct.Assert(size >= 1, "asked for %d elements", size)
			mct.Assert(inside == 0, "two calls of fetch at a time")
			inside++
			mct.Yield()
			inside--
			calls++
			mct.Assert(calls <= n+1, "fetch called again after it returned nothing")
			if calls == n+1 {
				return nil, 0, nil
			}
			return []int{calls - 1, calls - 1}, 1, nil
		}
		p = pipeline.New(pipeline.NewFunc(prep, fetch))
		p.NofBatches(max(n, 1))
		slots := make([][]int, n+1)
		seen := collect(p, kind, slots, nil)
		p.Run()
		mct.Assert(calls == n+1 && (!known || prepared == 1 && ctx == p.Context()), "fetch called %d times, prepare %d times", calls, prepared)
		mct.Assert(numbered(seen, "func") == n, "func: %d batches", seen.Len())
		for i := range n {
			mct.Assert(eqInts(slots[i], []int{i, i}), "func: batch %d is %v", i, slots[i])
		}
		mct.Out("%c %v %d", kind, known, n)
	}})
	// channels, with the sender running concurrently
	channel := func(kind byte, n, capacity int, multi bool, inc, limit int) {
		ch := make(chan int, capacity)
		go func() {
			for i := range n {
				ch <- i
			}
			close(ch)
		}()
		var got []int
		var seen *mct.Bag
		what := fmt.Sprintf("channel with %d elements, capacity %d, multi %v, increment %d, limit %d, %c", n, capacity, multi, inc, limit, kind)
		if multi {
			p := pipeline.New(pipeline.NewMultiChan(ch))
			p.SetVariableBatchSize(inc, limit)
			slots := make([][]int, n+1)
			seen = collect(p, kind, slots, func(seqNo int, data []int) []int {
				mct.Assert(len(data) > 0, "%s: empty batch", what)
				mct.Assert(len(data) <= min(inc*(seqNo+1), limit), "%s: batch %d has %d elements", what, seqNo, len(data))
				return data
			})
			p.Run()
			mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
			got = flatten(slots)
		} else {
			p := pipeline.New(pipeline.NewChan(ch))
			slots := make([]int, n+1)
			seen = collect(p, kind, slots, nil)
			p.Run()
			mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
			mct.Assert(seen.Len() == n, "%s: %d batches", what, seen.Len())
			got = slots[:n]
		}
		numbered(seen, what)
		mct.Assert(eqInts(got, upTo(n)), "%s: received %v", what, got)
		mct.Out("%s", what)
	}
	for _, k := range nodeKinds {
		reg("L08", fmt.Sprintf("chan/%c", k), mct.Scenario{PB: 3, Body: func() {
			multi := mct.Choose(2) == 1
			inc, limit := 1, 1
			if multi {
				inc = 1 + mct.Choose(2)
				limit = inc + mct.Choose(2)
			}
			channel(byte(k), mct.Choose(mct.Tier(4, 5)), mct.Choose(2), multi, inc, limit)
		}})
	}
	reg("L08", "chan/cancelled", mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
		// nobody ever closes the channel: cancellation ends the run
		kind := nodeKinds[mct.Choose(5)]
		multi := mct.Choose(2) == 1
		n := mct.Choose(3)
		ch := make(chan int, n)
		for i := range n {
			ch <- i
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		go func() { cancel(); close(done) }()
		got := make([][]int, n)
		if multi {
			p := pipeline.New(pipeline.NewMultiChan(ch))
			p.SetVariableBatchSize(1, 2)
			collect(p, kind, got, nil)
			p.RunWithContext(ctx, cancel)
		} else {
			p := pipeline.New(pipeline.NewChan(ch))
			one := make([]int, n)
			for i := range one {
				one[i] = -1
			}
			collect(p, kind, one, nil)
			p.RunWithContext(ctx, cancel)
			for i := range one {
				if one[i] >= 0 {
					got[i] = []int{one[i]}
				}
			}
		}
		<-done
		// what arrived is what was sent
		pos := 0
		for i, g := range got {
			if !ordered(kind) && len(g) == 0 {
				continue
			}
			for _, v := range g {
				mct.Assert(v >= pos && v < n, "batch %d holds %v of %d elements, after %d", i, g, n, pos)
				if ordered(kind) {
					mct.Assert(v == pos, "batch %d holds %v of %d elements, after %d", i, g, n, pos)
				}
				pos = v + 1
			}
		}
		mct.Out("%c %v %d", kind, multi, n)
	}})
	reg("L08", "chan/fetch", mct.Scenario{Default: true, Body: func() {
		n := mct.Choose(7)
		ch := make(chan int, n)
		for i := range n {
			ch <- i
		}
		close(ch)
		all := upTo(n)
		src := pipeline.NewMultiChan(ch)
		mct.Assert(src.Prepare(context.Background()) < 0, "a channel has a size")
		for range 4 {
			s := 1 + mct.Choose(4)
			exp := min(s, len(all))
			got := src.Fetch(s)
			mct.Assert(got == exp && eqInts(src.Data(), all[:exp]), "fetch of %d from %v: returned %d with %v", s, all, got, src.Data())
			all = all[exp:]
		}
		mct.Out("%d", n)
	}})

	// L09: sizes and numbers of batches
	known := func(n, nb int, unset bool, useSlice bool) {
		want := nb
		var src pipeline.Source[[]int]
		var sizes []int
		if useSlice {
			src = pipeline.NewSlice(upTo(n))
		} else {
			rest := n
			src = pipeline.NewFunc(func(context.Context) int { return n }, func(size int) ([]int, int, error) {
				sizes = append(sizes, size)
				size = min(size, rest)
				rest -= size
				return make([]int, size), size, nil
			})
		}
		p := pipeline.New(src)
		if unset {
			want = runtime.NumCPU()
			if mct.Choose(2) == 1 {
				p.NofBatches(mct.Choose(2) - 1)
			}
		} else {
			got := p.NofBatches(nb)
			mct.Assert(got == nb, "NofBatches(%d) = %d", nb, got)
			mct.Assert(p.NofBatches(0) == nb, "NofBatches(0) = %d after %d was set", p.NofBatches(0), nb)
		}
		var got []int
		p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data []int) []int {
			got = append(got, len(data))
			return data
		})))
		p.Run()
		mct.Assert(p.NofBatches(0) == want, "NofBatches(0) = %d, want %d", p.NofBatches(0), want)
		total := 0
		per := (n + want - 1) / want
		for i, g := range got {
			total += g
			mct.Assert(g >= 1 && g <= per, "%d elements in %d batches: batch %d has %d elements, at most %d were expected", n, want, i, g, per)
		}
		for _, s := range sizes {
			mct.Assert(s >= 1 && s <= max(per, 1), "%d elements in %d batches: %d elements were requested, at most %d were expected", n, want, s, per)
		}
		mct.Assert(total == n && len(got) <= want, "%d elements in %d batches: received %v", n, want, got)
		mct.Out("%d %d %v", n, want, got)
	}
	reg("L09", "known", mct.Scenario{Default: true, Body: func() {
		known(mct.Choose(mct.Tier(14, 30)), 1+mct.Choose(mct.Tier(14, 30)), false, mct.Choose(2) == 1)
	}})
	reg("L09", "known/huge", mct.Scenario{Default: true, Body: func() {
		// sizes near the largest int, announced by a source that delivers little
		n := []int{math.MaxInt, math.MaxInt - 1, math.MaxInt - 7, math.MaxInt/2 + 1, 1 << 53, 1<<53 + 1, 1 << 32, 1<<31 - 1}[mct.Choose(8)]
		nb := []int{1, 2, 3, 7, 8, 1000, math.MaxInt, math.MaxInt - 1}[mct.Choose(8)]
		rounds := 0
		p := pipeline.New(pipeline.NewFunc(func(context.Context) int { return n }, func(size int) (int, int, error) {
			rounds++
			want := (n-1)/nb + 1
			mct.Assert(size >= 1 && size <= want, "%d elements in %d batches: %d elements were requested, at most %d were expected", n, nb, size, want)
			if rounds == 3 {
				return 0, 0, nil
			}
			return rounds, 1, nil
		}))
		mct.Assert(p.NofBatches(nb) == nb, "NofBatches(%d) is another number", nb)
		got := 0
		p.Add(pipeline.Ord(pipeline.Receive(func(_ int, d int) int { got += d; return d })))
		p.Run()
		mct.Assert(got == 3 && rounds == 3, "%d elements in %d batches: %d rounds, received %d", n, nb, rounds, got)
		mct.Out("%d %d", n, nb)
	}})
	for cpu := 1; cpu <= 4; cpu++ {
		reg("L09", fmt.Sprintf("default/cpu%d", cpu), mct.Scenario{NumCPU: cpu, Default: true, NoFree: true, Body: func() {
			known(mct.Choose(mct.Tier(12, 30)), 0, true, mct.Choose(2) == 1)
		}})
	}
	variable := func(inc, limit int, set bool, rounds int) {
		var sizes []int
		p := pipeline.New(pipeline.NewFunc(nil, func(size int) (int, int, error) {
			sizes = append(sizes, size)
			if len(sizes) > rounds {
				return 0, 0, nil
			}
			return 0, 1, nil
		}))
		if set {
			p.SetVariableBatchSize(inc, limit)
		}
		if inc < 1 {
			inc = 512
		}
		if limit < 1 {
			limit = 4096
		}
		p.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Receive(func(_ int, d int) int { return d })))
		p.Run()
		mct.Assert(len(sizes) == rounds+1, "%d batches, %d requests", rounds, len(sizes))
		for i, s := range sizes {
			mct.Assert(s == min(inc*(i+1), limit), "increment %d, limit %d: sizes %v requested", inc, limit, sizes)
		}
		mct.Out("%v", sizes)
	}
	reg("L09", "variable", mct.Scenario{Default: true, Body: func() {
		variable(mct.Choose(6)-1, mct.Choose(mct.Tier(8, 14))-1, true, 5)
	}})
	reg("L09", "variable/default", mct.Scenario{Default: true, Body: func() {
		variable(0, 0, false, 10)
	}})
	reg("L09", "variable/large", mct.Scenario{Default: true, Body: func() {
		variable([]int{0, 1, 511, 1000, 5000}[mct.Choose(5)], []int{0, 1, 600, 5000}[mct.Choose(4)], true, 9)
	}})
	reg("L09", "multichan", mct.Scenario{PB: 2, Body: func() {
		// sizes do not depend on how the sender is scheduled
		n := mct.Choose(5)
		inc := 1 + mct.Choose(2)
		limit := inc + mct.Choose(2)
		ch := make(chan int)
		go func() {
			for i := range n {
				ch <- i
			}
			close(ch)
		}()
		p := pipeline.New(pipeline.NewMultiChan(ch))
		p.SetVariableBatchSize(inc, limit)
		var got []int
		p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data []int) []int {
			got = append(got, len(data))
			return data
		})))
		p.Run()
		rest := n
		for i, g := range got {
			mct.Assert(g == min(inc*(i+1), limit, rest), "%d elements, increment %d, limit %d: batches of %v", n, inc, limit, got)
			rest -= g
		}
		mct.Assert(rest == 0, "%d elements, increment %d, limit %d: batches of %v", n, inc, limit, got)
		mct.Out("%v", got)
	}})
}
