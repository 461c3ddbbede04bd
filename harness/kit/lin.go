package kit

// Op is one completed operation of a concurrent history. Call and Ret are
// logical times; the operation takes effect at some instant in between.
type Op struct {
	Call, Ret int64
	In        any
}

// Lin decides whether the history is linearizable with respect to a (possibly
// nondeterministic) sequential model: step returns the possible successor
// states of applying operation i in state s, none if its recorded result is
// impossible there. At most 64 operations. It returns (ok, conclusive, states
// explored, longest linearized prefix as indexes).
func Lin[S comparable](init S, ops []Op, step func(s S, i int) []S, limit int) (ok, conclusive bool, explored int, best []int) {
	n := len(ops)
	if n > 64 {
		return false, false, 0, nil
	}
	type key struct {
		mask uint64
		s    S
	}
	seen := map[key]struct{}{}
	full := ^uint64(0)
	if n < 64 {
		full = 1<<uint(n) - 1
	}
	var path []int
	exhausted := false
	var rec func(mask uint64, s S) bool
	rec = func(mask uint64, s S) bool {
		if mask == full {
			return true
		}
		k := key{mask, s}
		if _, dup := seen[k]; dup {
			return false
		}
		if len(seen) >= limit {
			exhausted = true
			return false
		}
		seen[k] = struct{}{}
		// An operation may come next if no pending one returned before it was called.
		minRet := int64(1<<63 - 1)
		for i := 0; i < n; i++ {
			if mask&(1<<uint(i)) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if mask&(1<<uint(i)) != 0 || ops[i].Call > minRet {
				continue
			}
			for _, ns := range step(s, i) {
				path = append(path, i)
				if len(path) > len(best) {
					best = append(best[:0], path...)
				}
				if rec(mask|1<<uint(i), ns) {
					return true
				}
				path = path[:len(path)-1]
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, ok || !exhausted, len(seen), best
}
