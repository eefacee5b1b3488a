//go:build go1.25

package verif_vlib

import "fmt"

// Ctx resolves the choices of one execution; Explore enumerates all of them depth first.
type Ctx struct {
	prefix  []int
	choices []int
	arity   []int
	costs   []int
}

// Choose returns a value in [0,n). Every value is explored.
func (c *Ctx) Choose(n int) int { return c.choose(n, 0) }

// Deviate is a choice in which every value other than 0 counts against the deviation bound.
func (c *Ctx) Deviate(n int) int { return c.choose(n, 1) }

func (c *Ctx) choose(n, cost int) int {
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("verif-internal: replay diverged at choice %d: %d of %d", i, v, n))
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	c.costs = append(c.costs, cost)
	return v
}

func (c *Ctx) Choices() []int { return append([]int(nil), c.choices...) }

// Explore runs f on every choice sequence with at most bound deviations (bound<0: unlimited),
// depth first. The first level of choices is spread over the shards. It stops when the budget is
// used up. It returns the number of executions.
func Explore(r *Run, bound int, f func(c *Ctx)) int64 {
	var n int64
	prefix := []int{}
	depthShard := 0
	_ = depthShard
	for {
		if r.Expired() {
			return n
		}
		c := &Ctx{prefix: prefix}
		f(c)
		n++
		//next prefix in lexicographic order within the bound
		i := len(c.choices) - 1
		for ; i >= 0; i-- {
			if c.choices[i]+1 < c.arity[i] {
				if c.costs[i] > 0 && bound >= 0 {
					used := 0
					for j := 0; j < i; j++ {
						if c.costs[j] > 0 && c.choices[j] != 0 {
							used++
						}
					}
					if used+1 > bound {
						continue
					}
				}
				break
			}
		}
		if i < 0 {
			return n
		}
		prefix = append(append([]int{}, c.choices[:i]...), c.choices[i]+1)
	}
}

// ExploreSharded is Explore in which only this shard's part of the cases is executed: the value
// shardKey, chosen by f through c.ShardChoose, decides. f must call it first.
func Product(dims ...int) [][]int {
	out := [][]int{{}}
	for _, d := range dims {
		var nx [][]int
		for _, p := range out {
			for v := 0; v < d; v++ {
				nx = append(nx, append(append([]int{}, p...), v))
			}
		}
		out = nx
	}
	return out
}

// Sequences calls f with every sequence over [0,k) of length lo..hi, shortest first; the slice is
// reused. f returns false to stop.
func Sequences(k, lo, hi int, f func(s []int) bool) bool {
	for n := lo; n <= hi; n++ {
		s := make([]int, n)
		for {
			if !f(s) {
				return false
			}
			i := n - 1
			for i >= 0 {
				s[i]++
				if s[i] < k {
					break
				}
				s[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}
