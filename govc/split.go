package main

import (
	"sync"
	"time"
)

// splitConds lists the conditions of the choices inside t, most used first.
func splitConds(t *Term) []*Term {
	cnt := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte && t.args[0].mb == 0 {
			c := t.args[0]
			for c.op == ONot {
				c = c.args[0]
			}
			if cnt[c] == 0 {
				order = append(order, c)
			}
			cnt[c]++
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	// stable selection by count
	for i := 1; i < len(order); i++ {
		for j := i; j > 0 && cnt[order[j]] > cnt[order[j-1]]; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	return order
}

// splitProve decides "c implies goal" by cases on the choices in the goal.
func splitProve(c *Ctx, goal *Term, hints []*Term, depth int, to time.Duration, deadline time.Time) bool {
	if c.dead {
		return true
	}
	goal = c.Simp(goal)
	if goal == True {
		return true
	}
	if time.Now().After(deadline) {
		return false
	}
	type part struct {
		c *Ctx
		g *Term
	}
	var parts []part
	if goal.op == OAnd {
		for _, g := range goal.args {
			parts = append(parts, part{c, g})
		}
	} else {
		conds := splitConds(goal)
		if len(conds) == 0 || depth == 0 {
			return false
		}
		parts = []part{{c.Assume(conds[0]), goal}, {c.Assume(Not(conds[0])), goal}}
	}
	ok := make([]bool, len(parts))
	var wg sync.WaitGroup
	for i, p := range parts {
		if p.c.dead {
			ok[i] = true
			continue
		}
		g := p.c.Simp(p.g)
		if g == True {
			ok[i] = true
			continue
		}
		q, triv := buildQuery(p.c.Facts(), g, hints, 3, false)
		if triv {
			ok[i] = true
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok[i] = q.Solve(to, false).status == "unsat"
		}()
	}
	wg.Wait()
	for i, p := range parts {
		if !ok[i] && !splitProve(p.c, p.g, hints, depth-1, to, deadline) {
			return false
		}
	}
	return true
}

// splitAll retries undecided obligations by cases.
func splitAll(os_ []*Obl, limit time.Duration) {
	n := 0
	for _, o := range os_ {
		if o.res.status != "unsat" {
			n++
		}
	}
	if n == 0 || n > 10 {
		return
	}
	deadline := time.Now().Add(limit)
	for _, o := range os_ {
		if o.res.status != "unsat" && splitProve(o.ctx, o.goal, o.hints, 4, 6*time.Second, deadline) {
			o.res = Result{status: "unsat", solver: "case split"}
		}
	}
}
