package checks

import (
	"fmt"

	"verifmc/impl"
	"verifmc/model"
)

// sequences calls f with every index sequence of exactly the given length over n elements; the slice is reused.
// fixed leading elements are not varied.
func sequences(n, length int, fixed []int, f func(idx []int)) {
	idx := make([]int, length)
	if copy(idx, fixed) > length {
		return
	}
	k := len(fixed)
	if k > length {
		return
	}
	for {
		f(idx)
		i := length - 1
		for ; i >= k; i-- {
			idx[i]++
			if idx[i] < n {
				break
			}
			idx[i] = 0
		}
		if i < k {
			return
		}
	}
}

// num returns a number type that d offers, unsigned, of width w.
func num(d impl.Desc, w int, be bool) impl.Num {
	n := impl.Num{K: 'U', W: w, BE: be}
	if d.Ver == 1 {
		n.K = 'C'
	}
	return n
}

// filter keeps the operations that d offers.
func filter(d impl.Desc, ops ...Op) []Op {
	var out []Op
	for _, o := range ops {
		if d.Has(&o) {
			out = append(out, o)
		}
	}
	return out
}

// everyOp lists one small instance of every operation that d offers, in both forms; seed varies the data. Applied in
// order to a buffer of 8 bytes or more they exercise everything; on smaller ones some are refused.
func everyOp(d impl.Desc, seed uint64) []Op {
	var out []Op
	for _, t := range accessKinds(d) {
		o := t
		if counted(t.K) {
			n := int64(1)
			if model.Range(&t).Bits {
				n = 5
			}
			o = sized(t, n, seed)
		}
		o.Off = 0
		if d.Mini {
			// mini buffers accept only what fits
		}
		out = append(out, forms(o)...)
	}
	out = append(out, filter(d,
		Op{K: impl.KClearAll}, Op{K: impl.KSetAll}, Op{K: impl.KFlipAll},
		Op{K: impl.KSeekByte, Off: 1}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KSeekBit, Off: 3}, Op{K: impl.KSeekBit, Off: 2, Rel: true},
		Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterByte, Off: 1}, Op{K: impl.KAfterBit, Rel: true}, Op{K: impl.KAfterBit, Off: 1},
		Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KRefresh}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1},
		Op{K: impl.KBytes}, Op{K: impl.KByteCap}, Op{K: impl.KBitCap}, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KReset})...)
	return out
}

// twins runs the same operation on two instances and compares results and states.
func twins(c *Ctx, x, y impl.Inst, o *Op) string {
	var r, s impl.Ret
	c.DoR(x, o, &r)
	r.B = clone(r.B)
	c.DoR(y, o, &s)
	if d := impl.RetDiff(&r, &s); d != "" {
		return fmt.Sprintf("%s: %s", o, d)
	}
	return same2(c, x, y, o)
}

func same2(c *Ctx, x, y impl.Inst, o *Op) string {
	a, b := c.Obs(x), c.Obs(y)
	if !a.Same(&b) {
		return fmt.Sprintf("after %s: %s", o, a.Diff(b))
	}
	return ""
}

// lockable checks that no lock was left held (v1 and v2).
func lockable(c *Ctx, x impl.Inst) string {
	if x.Desc().Ver == 3 {
		return ""
	}
	for _, k := range []impl.Kind{impl.KLock, impl.KUnlock} {
		if r := c.Do(x, &Op{K: k}); r.Panicked {
			return impl.PanicText(&r)
		}
	}
	return ""
}

// histories runs every sequence of the given depth over alpha that starts with alpha[first], on a buffer of n bytes
// (with room behind it if room), and compares with the model. Without judged every step is compared with what the
// whole history should have led to. With judged only those operations are judged, each against the state that the
// buffer itself showed before it.
func histories(c *Ctx, d impl.Desc, alpha []Op, depth, first, n int, room bool, parts int, judged func(o *Op) bool) {
	sequences(len(alpha), depth, []int{first}, func(idx []int) {
		mem := fill(n, 1)
		if room {
			mem = fill(n+24, 1)[:n]
		}
		h := hist{d: d, start: fmt.Sprintf("%s over %d bytes", d, n)}
		x := impl.New(d, mem)
		m := model.S{B: clone(mem)}
		for k, i := range idx {
			o := &alpha[i]
			h.ops = append(h.ops, *o)
			j := judged == nil || judged(o)
			if judged != nil && k > 0 {
				st := c.Obs(x)
				m = model.S{B: clone(st.B), Off: st.Off, Boff: st.Boff}
			}
			if !h.step(c, x, &m, o, parts, j) {
				if k+1 < depth { // an operation without a specified effect: sequences that go on are not considered
					return
				}
				break
			}
			c.StateOf(n, m.B, m.Off, m.Boff)
		}
		c.Trace(h.String)
	})
}

// step runs the last operation of the history on the real buffer and on the model and compares. It is false if the
// model says nothing about it (then it is not run).
func (h *hist) step(c *Ctx, x impl.Inst, m *model.S, o *Op, parts int, judged bool) bool {
	out := model.Apply(h.d, m, o)
	if out.V == model.Unspec || out.Loose {
		return false
	}
	var r impl.Ret
	c.DoR(x, o, &r)
	if !judged {
		return true
	}
	if parts&pNoReject != 0 && out.V == model.Reject {
		return true
	}
	if parts&pRet != 0 || r.Panicked != (out.V == model.Reject) {
		if s := model.CompareRet(&out, &r); s != "" {
			c.Fail(fmt.Sprintf("%s: %s (specified vs actual)", o, s), h.steps()...)
		}
	}
	st, want := c.Obs(x), m.Obs()
	if s := stateDiff(&st, &want, parts); s != "" {
		c.Fail(fmt.Sprintf("after %s: %s (actual vs specified)", o, s), h.steps()...)
	}
	return true
}
