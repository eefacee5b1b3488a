//go:build go1.25

package verif_vlib

// Tree enumerates every execution of f with at most bound deviations (bound<0: unlimited), depth
// first, executing only this shard's part: the executions are divided by their first choice other
// than 0; the one without any belongs to every shard, which reports it as first. It stops when the
// budget is used up or f returns false, and returns the number of executions and whether all of the
// shard's part was done.
func Tree(r *Run, bound int, f func(c *Ctx, first bool) bool) (n int64, all bool) {
	prefix := []int{}
	first := true
	for {
		if r.Expired() {
			return n, false
		}
		c := &Ctx{prefix: prefix}
		if !f(c, first) {
			return n, false
		}
		first = false
		n++
		next := -1
		val := 0
		for i := len(c.choices) - 1; i >= 0 && next < 0; i-- {
			used, nonzero := 0, 0
			for j := 0; j < i; j++ {
				if c.choices[j] != 0 {
					nonzero++
					if c.costs[j] > 0 {
						used++
					}
				}
			}
			if c.costs[i] > 0 && bound >= 0 && used+1 > bound {
				continue
			}
			for v := c.choices[i] + 1; v < c.arity[i]; v++ {
				if nonzero == 0 && (i*7+v)%r.shards != r.shard {
					continue
				}
				next, val = i, v
				break
			}
		}
		if next < 0 {
			return n, true
		}
		prefix = append(append([]int{}, c.choices[:next]...), val)
	}
}
