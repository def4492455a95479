// Package mc is a stateless model checker for Go programs whose concurrency
// primitives have been redirected (by /verif/tool/xform) to this package and
// the shims beside it.
package mc

// H is a 128-bit hash.
type H struct{ a, b uint64 }

func m64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (h H) mix(o H) H {
	return H{
		m64(h.a*0x9e3779b97f4a7c15 + o.a + 0x2545f4914f6cdd1d),
		m64((h.b^0xd1b54a32d192ed03)*0xff51afd7ed558ccd + o.b + h.a),
	}
}

func (h H) mixn(n uint64) H { return h.mix(H{n + 1, m64(n + 77)}) }

func (h H) add(o H) H { return H{h.a + m64(o.a), h.b + m64(o.b^0x1234567)} }

// Access classes. Events on the same object commute iff they have the same
// class and the class is not Write.
type Class uint8

const (
	Read  Class = 1
	Write Class = 2
	Add   Class = 3 // commuting increments (WaitGroup)
)

// Obj carries the dependency history of one shared object: base summarises
// everything before the current group of commuting events, sum the group.
type Obj struct {
	epoch uint64
	base  H
	sum   H
	class Class
	id    int
	vc    VC // release clock (synchronises-with, Go memory model)
}

func (o *Obj) fresh() {
	if o.epoch != ex.epoch {
		*o = Obj{epoch: ex.epoch}
	}
}

// dep returns the causal predecessor hash for an event of class c.
func (o *Obj) dep(c Class) H {
	o.fresh()
	if c == Write || c != o.class {
		o.base = o.base.mix(o.sum).mixn(uint64(o.class))
		o.sum = H{}
		o.class = c
	}
	return o.base
}

// VC is a vector clock.
type VC []uint32

func (v *VC) join(o VC) {
	if len(*v) < len(o) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	for i, x := range o {
		if (*v)[i] < x {
			(*v)[i] = x
		}
	}
}

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) clone() VC { return append(VC(nil), v...) }
