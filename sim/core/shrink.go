package core

import "time"

// shrink minimises a failing execution while the class of the violation stays the same.
func shrink(p *Prop, ch Choices, class string, budget time.Duration) (Choices, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	best := ch
	try := func(c Choices) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		o, used := replay(p, c, false)
		if o.Fail != nil && o.Fail.Class == class {
			best = used
			return true
		}
		return false
	}
	if !try(ch) {
		return ch, tries
	}
	get := func(c *Choices, i int) *[]uint32 {
		switch i {
		case 0:
			return &c.Gen
		case 1:
			return &c.Sched
		}
		return &c.Env
	}
	with := func(i int, v []uint32) Choices {
		c := best
		*get(&c, i) = v
		return c
	}
	dup := func(v []uint32) []uint32 { return append([]uint32(nil), v...) }
	for round := 0; round < 20 && time.Now().Before(deadline); round++ {
		before := best.size()
		sum := func() (t uint64) {
			for i := 0; i < 3; i++ {
				for _, v := range *get(&best, i) {
					t += uint64(v)
				}
			}
			return
		}
		sb := sum()
		for _, i := range []int{1, 2, 0} {
			try(with(i, nil))
			// cut the tail
			for n := len(*get(&best, i)); n > 0; n /= 2 {
				cur := *get(&best, i)
				if n > len(cur) {
					continue
				}
				try(with(i, dup(cur[:len(cur)-n])))
			}
			// delete and zero blocks
			for n := 64; n > 0; n /= 2 {
				for at := 0; at < len(*get(&best, i)); {
					cur := *get(&best, i)
					if at+n > len(cur) {
						break
					}
					v := append(dup(cur[:at]), cur[at+n:]...)
					if try(with(i, v)) {
						continue
					}
					v = dup(cur)
					zero := true
					for k := at; k < at+n; k++ {
						zero = zero && v[k] == 0
						v[k] = 0
					}
					if !zero {
						try(with(i, v))
					}
					at += n
					if time.Now().After(deadline) {
						return best, tries
					}
				}
			}
			// lower single values
			for at := 0; at < len(*get(&best, i)); at++ {
				for k := 0; k < 12; k++ {
					cur := *get(&best, i)
					if at >= len(cur) || cur[at] == 0 {
						break
					}
					v := dup(cur)
					v[at] = cur[at] / 2
					if try(with(i, v)) {
						continue
					}
					v = dup(cur)
					v[at] = cur[at] - 1
					if !try(with(i, v)) {
						break
					}
				}
			}
		}
		if best.size() == before && sum() == sb {
			break
		}
	}
	return best, tries
}
