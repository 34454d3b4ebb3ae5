//go:build go1.21

package zzdst

// WithNumCPU evaluates f with another number of processors.
func WithNumCPU(n int, f func()) {
	if S == nil {
		f()
		return
	}
	o := S.cfg.NumCPU
	S.cfg.NumCPU = n
	f()
	S.cfg.NumCPU = o
}

// Clock publishes what the current task did before now.
func Clock() []uint32 {
	if S == nil || !S.cfg.Race {
		return nil
	}
	return S.release(S.cur)
}

// After orders the current task after a published clock.
func After(c []uint32) {
	if S != nil && c != nil {
		S.cur.acquire(c)
	}
}
